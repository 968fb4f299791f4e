import json
P=[]
def p(id,title,st,over,q,why,files,mech,state=None,obs=None,hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or [],hook_needed=hook)))
DB="database.go";U="user.go";K="api_key.go";PW="password.go";M="mfa_token.go";W="webauthn.go";PK="public_key.go"
p("C01","Usernames, IDs, e-mails and API-key prefixes identify at most one user",
 "No sequence of additions, and no database file that opens successfully, ever leaves two users sharing a username or an e-mail address (both compared case-insensitively), a user ID, or an API-key prefix. An addition that would create such a clash is refused with an error, and a file containing one is refused on opening.",
 ["inputs","histories"],"all usernames/e-mails/IDs/prefixes within the length bounds, in every letter-case combination, for additions onto a populated database and for files with up to three users",
 "the tests add a fixed handful of users and open two prepared files; letter-case combinations and cross-user clashes are unbounded",
 [DB],[("case-folded index maps checked before insertion","database.go NewDatabase, AddUser"),("fresh ID and key-prefix draw","database.go AddUser, AddAPIKey")],
 [("refUsername/refEmailAddress/refID/refAPIKey","lookup indices","database.go Database")],["NewDatabase","AddUser","AddAPIKey","GetUsers","Users"])
p("C02","Requests act on exactly the user named by username and e-mail",
 "Every per-user operation takes effect only when its username and e-mail (case-insensitively) both belong to the same existing user, and then reads or changes that user's records only. Any other combination is refused with an error and leaves every user's data unchanged.",
 ["inputs","histories"],"all username/e-mail pairs within the length bounds, for every per-user operation of the API, over databases with two users",
 "the tests try one or two mismatching pairs for some operations; the guarantee is for every pair and every operation",
 [DB,U],[("both names resolved through the indices and the owners' IDs compared","database.go validateUserIdentity")],None,["GetUser","AddAPIKey","DeleteAPIKey","GetAPIKeys","AddPublicKey","DeletePublicKey","GetPublicKeys","AddMfaToken","GetMfaTokens","DeleteMfaToken","ChangeUserPassword","GetUsers","DeleteUser"])
p("C03","Password authentication accepts exactly the user's active passwords",
 "Password authentication succeeds, with response code 200, exactly when the presented name is an existing user's username or e-mail (case-insensitively) and the presented password equals one of that user's passwords that is neither disabled nor expired. In every other case it returns an error with code 400, and it never changes the database.",
 ["inputs","configurations"],"all names and passwords within the length bounds, against users holding up to three passwords in every combination of disabled/expired",
 "tests authenticate with a few literal passwords; the 'no other password' half is a statement about all strings",
 [DB,U,PW],[("bcrypt comparison over non-disabled, non-expired entries","user.go VerifyPassword, password.go Match")],None,["AuthenticateUser","VerifyPassword","Password.Match"])
p("C04","Changing a password needs the current one and retires it",
 "A password change succeeds only when the old password presented is one that currently authenticates the user; afterwards the new password authenticates and no previously active password does. Earlier passwords are retained only in disabled form, newest first, and at most the policy's keep-versions of them are kept, however many changes are made.",
 ["inputs","histories"],"all old/new passwords within the length bounds, all keep-versions values up to 4 (quick) and histories of up to five retained passwords",
 "the test changes one password once; retention is a property of histories and of every policy value",
 [U,DB],[("prepend new password, disable the rest, truncate","user.go AddPassword, ChangePassword")],[("Passwords","password history, newest first","user.go User")],["ChangeUserPassword","AuthenticateUser"])
p("C05","The length policy is enforced on every username and password accepted",
 "A user is added, or a password changed, only if the username and password lengths, counted in bytes and with every byte of the text as given counting, lie within the database's policy; otherwise the request is refused with a policy error. A database whose stored policy leaves a limit unset (zero) operates under the documented default for that limit (3-50 for usernames, 8-128 for passwords, 10 kept versions), and stored non-zero limits are used as they are.",
 ["inputs","configurations"],"all policy limits within bounds, all lengths around the limits",
 "tests use the default policy only and one or two lengths",
 [DB],[("length comparison before creation/change","database.go checkPolicyCompliance"),("default policy filled in on open","database.go enforceDefaultPolicy")],None,["NewDatabase","AddUser","ChangeUserPassword"])
p("C06","API-key lookup accepts exactly the active keys that were issued",
 "Looking up an API key succeeds, with code 200 and the owner's username and primary e-mail, exactly when the presented text is an API key that was issued to that user and is neither deleted, disabled nor expired. Every other text, including wrong lengths, unknown prefixes and issued prefixes with a different remainder, is refused with an error and identifies nobody.",
 ["inputs","configurations"],"all key texts of 0..96 bytes against databases with up to three keys in every disabled/expired combination",
 "the test looks up one issued key and one altered key",
 [DB,U,K],[("prefix index, then hash comparison","database.go LookupAPIKey, user.go LookupAPIKey, api_key.go Match")],None,["LookupAPIKey"])
p("C07","API keys are issued once, listed without secrets and deleted individually",
 "Issuing an API key always terminates and yields a fresh key whose prefix clashes with no existing key, which is stored only as a hash, and which the owner can then use; listing returns exactly the owner's enabled keys of the requested usage; deletion by ID removes exactly that key, from listing and lookup alike, and an unknown ID is refused.",
 ["inputs","histories"],"all usages, comments and IDs within bounds; all random draws, including ones that collide with existing prefixes",
 "tests issue and delete one key with fresh randomness; collisions of random draws never occur in a test",
 [DB,U,K],[("prefix collision check on issue","database.go AddAPIKey"),("filtering by ID","user.go DeleteAPIKey")],None,["AddAPIKey","GetAPIKeys","DeleteAPIKey","LookupAPIKey"])
p("C08","Public keys are added once, listed by usage and deleted individually",
 "Adding a public key stores it for the named user unless that user already holds a key of the same type and fingerprint, in which case it is refused; listing returns exactly the user's enabled keys of the requested usage; deletion by ID removes exactly that key and an unknown ID is refused. A payload that is not a supported key for the requested usage is refused.",
 ["inputs","histories"],"all usages, comments and IDs within bounds, key records in every type/fingerprint/usage/disabled combination; payload texts within bounds",
 "tests add and delete a few fixed keys",
 [DB,U,PK],[("type/fingerprint comparison","user.go AddPublicKey"),("filtering","database.go GetPublicKeys, user.go DeletePublicKey")],None,["AddPublicKey","GetPublicKeys","DeletePublicKey"])
p("C09","MFA tokens are validated on enrolment, listed and deleted individually",
 "A TOTP token is enrolled only with a supported algorithm (sha1, sha256, sha512; sha1 when absent), a period of 30-300 s, 4-8 digits (6 when absent) and a passcode the token itself would produce; a token whose secret or comment the user already has is refused. Listing returns exactly the user's enabled tokens, and deletion by ID removes exactly that token.",
 ["inputs","histories"],"all parameter values, algorithm names, comments, secrets and IDs within bounds",
 "tests enumerate a dozen parameter combinations",
 [M,U,DB],[("parameter switch and ranges","mfa_token.go NewMfaToken"),("duplicate scan","user.go AddMfaToken")],None,["AddMfaToken","GetMfaTokens","DeleteMfaToken","NewMfaToken"])
p("C10","TOTP codes are accepted exactly within one time step",
 "A TOTP token accepts a passcode at time t exactly when the passcode, ignoring surrounding white space, is the RFC 6238 code of the token's secret, algorithm, digits and period for the time step containing t, the step before or the step after. Everything else - other codes, wrong lengths, non-digits, other token types - is refused, and no input makes validation panic.",
 ["inputs"],"all secrets, times (from 1970), periods 30-300, digits 4-8, algorithms and passcode texts within bounds; the MAC function itself is uninterpreted",
 "tests check a few codes at the current time; boundary times, leading zeros and truncation offsets are data-dependent",
 [M],[("RFC 4226 dynamic truncation","mfa_token.go generateMfaCode"),("window of three steps","mfa_token.go ValidateCodeWithTime")],None,["ValidateCode","ValidateCodeWithTime"])
p("C11","WebAuthn assertions are accepted only when genuine for an enabled token",
 "A WebAuthn authentication succeeds only if the assertion's credential ID is that of one of the user's enabled security-key tokens, its client data has type webauthn.get, is not cross-origin and carries the challenge that was issued, its authenticator data has the enrolled relying-party hash and the user-present bit, and its signature verifies under the enrolled public key over the authenticator data and client-data hash. A genuine assertion meeting all of these is accepted, and any malformed one is refused without a panic.",
 ["inputs","configurations"],"all values of each assertion field within bounds, all token parameter combinations; ECDSA itself is an ideal signature",
 "tests replay one recorded assertion; each condition's failure needs its own forged assertion",
 [M,U,W],[("sequence of checks and signature verification","mfa_token.go WebAuthnRequest, user.go VerifyWebAuthnRequest")],None,["AuthenticateUser","VerifyWebAuthnRequest","WebAuthnRequest"])
p("C12","WebAuthn registration never panics and stores exactly what was attested",
 "A WebAuthn registration, whatever JSON it contains, either returns an error and stores nothing or yields a token whose credential ID, relying-party hash, flags, counter, key type, algorithm and curve coordinates are those of the attestation; it is accepted only for a public-key credential with a non-empty ID, known transports and an EC2/ES256 key. It never panics.",
 ["inputs"],"all registration documents within the size bounds: every field absent, of the right type with any value, or of another JSON type",
 "tests register a few well-formed documents and some with one field removed",
 [M,W],[("field-by-field validation","mfa_token.go NewMfaToken")],None,["NewMfaToken","AddMfaToken"])
p("C13","Everything acknowledged is on disk: reopening gives the same database",
 "After every operation that reports success, opening the database file anew yields the same users, credentials, roles, policy and revision as the live database, and both answer authentication, lookup and listing requests alike. Opening an unchanged file does not alter its content apart from filling in unset defaults (policy limits, password algorithm).",
 ["histories","inputs"],"every mutating operation, with symbolic arguments, applied to databases with two users, and sequences of them",
 "tests reopen a database in a few places and compare counts; equivalence of the whole state after each operation is not checked",
 [DB],[("whole database marshalled and written on each commit","database.go commit")],None,["NewDatabase","all mutating operations"])
p("C14","A request that fails changes nothing",
 "An operation that returns an error leaves the in-memory database, every user's credentials, revision and lookup behaviour, and the database file exactly as they were before the request. This includes requests that fail because the file cannot be written.",
 ["inputs","fault_sequences","histories"],"every mutating operation, every argument within bounds that makes it fail, every single I/O fault during its commit",
 "tests check the error text of failures, never the state left behind, and inject no I/O faults",
 [DB,U],[("validate before mutate; roll back on failed commit","database.go, user.go")],None,["all mutating operations"])
p("C15","A crash or I/O error during a save never damages the stored database",
 "At every instant during a save, and after a crash or write error at any point of it, the database file contains a complete database: either the one before the operation or the one after it. Opening it succeeds and yields one of those two states.",
 ["crash_points","fault_sequences"],"every file-system step of every mutating operation, with the step failing, being cut short at any half, or the process stopping before or after it",
 "no test injects crashes or write errors",
 [DB],[("write to a temporary file and rename","database.go commit")],None,["commit of each mutating operation","NewDatabase"])
p("C16","Revision and modification time advance with every change",
 "Each successful mutating operation increases the database revision by exactly one (as does an explicit save) and sets its modification time to the time of the change; requests that fail, and read-only requests, leave both unchanged. The affected user's own revision increases and its modification time is set; other users' do not change.",
 ["histories","inputs"],"every operation on two-user databases with any starting revision",
 "tests do not check revisions",
 [DB,U],[("commit increments the revision","database.go commit"),("per-user revision","user.go Revise")],None,["Revision","LastModified"])
p("C17","Concurrent use is free of data races and deadlocks",
 "Any two operations of one database, and the package's ID and random-string generators, may run concurrently from different goroutines: no two of them access the same memory without synchronisation unless both only read, no operation returns with a lock held, and none blocks itself.",
 ["schedules","inputs"],"every pair of public operations, for all arguments within bounds and every interleaving of the two at the granularity of lock regions",
 "the tests are single-threaded",
 [DB,M,"random.go"],[("database RW mutex","database.go Database.mu")],None,["all public operations"])
p("C18","Plaintext passwords and API keys are never stored or disclosed",
 "The database file and the live records contain no plaintext password or issued API key: only hashes, which reveal the secret only by matching it. User listings expose metadata only, never credentials, and error messages never contain a presented password, old password or API key.",
 ["inputs","histories"],"all passwords and keys within bounds, through every operation that handles one, in success and failure",
 "tests never look for secrets in files, listings and messages",
 [DB,U,PW,K],[("bcrypt hashing on creation","password.go hash, database.go AddAPIKey")],None,["database file","GetUsers","errors"])
p("C19","Unknown users cannot be distinguished or act",
 "Identifying an unknown name succeeds with a neutral identity (nobody / nobody@localhost, challenge password, no roles, no full name and no MFA flags) whatever the request contained, and changes nothing. Authenticating an unknown name fails with the same code as a wrong password and performs the same password-hashing work.",
 ["inputs"],"all names that match no user, with any pre-filled request fields",
 "one test identifies one unknown user with an empty request",
 [DB],[("neutral answer","database.go IdentifyUser"),("dummy hash","database.go AuthenticateUser")],None,["IdentifyUser","AuthenticateUser"])
p("C20","Role names round-trip and membership is exact",
 "Parsing a role name and rendering it gives back the trimmed name; the part before the first slash is the organisation and the rest the name; blank names are refused. A user has a role exactly when one equal to it was added, adding a role twice keeps one, and the roles claim lists them in order of addition.",
 ["inputs","histories"],"all role texts within the length bound, lists of up to three roles",
 "tests try a handful of role strings",
 ["role.go",U],[("split at first slash","role.go NewRole"),("duplicate scan","user.go AddRole")],None,["NewRole","Role.String","User.HasRole","User.AddRole","GetRolesClaim"])
p("C21","E-mail addresses are accepted exactly when well-formed",
 "An e-mail address is accepted exactly when it is local-part@domain with the documented character sets (domain labels of 1-63 alphanumerics or inner hyphens), is stored verbatim with the part after @ as its domain, and a user never holds the same address twice. The mail claim is the primary address, or the first when none is marked.",
 ["inputs"],"all texts within the length bound over all byte values",
 "tests try a few addresses; acceptance is a language over all strings",
 ["email.go",U],[("regular expression","email.go")],None,["NewEmailAddress","AddEmailAddress","GetMailClaim"])
p("C22","Human names parse and render consistently",
 "A name in the form 'Last, First' or 'First Last' is parsed into those two parts with surrounding blanks removed, anything else is refused, and rendering a parsed name gives 'Last, First', which parses to the same name again. A user never lists the same full name twice, and the first name added is the primary one.",
 ["inputs"],"all name texts within the length bound",
 "tests try a handful of names",
 ["name.go",U],[("split on comma, then on space","name.go ParseName")],None,["ParseName","GetFullName","AddName","GetNameClaim"])
p("C23","QR codes encode exactly the token they were built from",
 "Building a QR code succeeds exactly when label, secret (6 or more characters), type, digits, period, counter and algorithm are valid, and then yields an otpauth URI from which a standard parser recovers the same type, label, secret, issuer, algorithm, digits, period and counter, plus its base64 form. Values containing reserved characters do not leak into other fields.",
 ["inputs"],"all labels, issuers and secrets within the length bounds over all byte values, all integer parameters",
 "tests build a dozen codes from plain text",
 ["pkg/qr/qr.go"],[("query escaping and base32","pkg/qr/qr.go Build")],None,["Code.Build","Code.Get","Code.GetEncoded"])
p("C24","Errors carry their arguments and their cause",
 "An error built from a standard error with arguments renders the standard text with the arguments substituted, and is recognised (errors.Is) as that standard error and no other; a nil cause yields no error, unless another argument is an error. Rendering never panics.",
 ["inputs"],"all standard errors, with argument texts within bounds",
 "tests compare a few rendered strings",
 ["pkg/errors/errors.go"],[("wrapping","pkg/errors/errors.go WithArgs, Unwrap")],None,["StandardError.WithArgs","errors.Is"])
p("C25","Random strings and IDs have the promised length and alphabet",
 "A generated random string has the requested length (the documented default when it is zero or negative; within the half-open range when a range is given, in either order) and consists only of ASCII letters and digits, and a generated user ID is a well-formed UUIDv4; no request for one panics. Each draw takes fresh values from the generator, so that different draws give different strings.",
 ["inputs"],"all requested lengths and ranges within bounds and all values the random source can return",
 "tests draw a couple of strings with fixed arguments",
 ["random.go","uuid.go"],[("charset indexing","random.go gen")],None,["GetRandomString","GetRandomStringFromRange","NewRandomString","NewID"])
p("C26","Public keys normalise identically from PEM and OpenSSH form",
 "The same RSA public key submitted in PEM or in OpenSSH form is recognised as the same key: same type, fingerprints and stored forms, so that a second submission in the other form is refused as a duplicate. A key's usage must match its payload kind.",
 ["inputs","configurations"],"all usages and payload wrappers (comments, surrounding blanks) around a key whose bytes are opaque",
 "tests parse a few keys in each form separately",
 [PK],[("PEM and OpenSSH parsers","public_key.go parse*")],None,["NewPublicKey","AddPublicKey"])
p("C27","Identification reports the user's own claims, flags and challenges",
 "Identifying an existing user by username or e-mail returns that user's username, primary e-mail, full name and roles; the challenges are 'password', plus 'mfa' exactly when the user has an enabled MFA token; the MFA flags, when requested, say exactly which kinds of enabled token the user has, and values pre-filled in the request never show through.",
 ["inputs","configurations"],"all names, token sets of up to three tokens in every type/disabled combination, any pre-filled request fields",
 "tests identify two users with no tokens",
 [DB,U],[("claims, flags and challenges","database.go IdentifyUser, user.go GetFlags, GetChallenges")],None,["IdentifyUser"])
p("C28","User listing and retrieval report exactly the stored users",
 "Listing users returns one metadata record per user, in order, with that user's ID, username, title, name, e-mail, enabled flag, dates and revision; retrieval returns the named user; the user count is the number of users; user deletion is always refused and removes nobody.",
 ["inputs","histories"],"databases with up to three users and all field values within bounds",
 "tests list and count a fixed set of users",
 [DB,U],[("metadata copy","user.go GetMetadata")],None,["GetUsers","GetUser","GetUserCount","DeleteUser"])
p("C29","Opening a database accepts exactly the valid files and never destroys one",
 "Opening a path creates an empty database when nothing is there, loads the file when it holds a valid database, and otherwise (a directory, unreadable or malformed content, an invalid or duplicate user) returns an error and leaves the file's content as it was. Opening never panics, whatever JSON the file contains.",
 ["inputs","fault_sequences"],"all JSON documents within the size bounds shaped like a database with fields absent, null or of the wrong type; each I/O fault",
 "tests open a missing file, a directory and one malformed file",
 [DB,"internal/utils/file.go",U],[("stat, read, unmarshal, validate","database.go NewDatabase"),("record validation","user.go Valid")],None,["NewDatabase"])
p("C30","Copying writes a complete copy elsewhere and leaves the original alone",
 "Copying a database to another path produces a file that opens as the same database, does not modify the original file, and leaves the live database bound to its original path, so that later changes go only to the original. A copy that fails reports an error and also leaves path and original unchanged.",
 ["histories","fault_sequences"],"any database state, followed by any mutating operation; each I/O fault during the copy",
 "one test copies once and checks for an error",
 [DB],[("path swapped around commit","database.go Copy")],None,["Copy","GetPath"])
p("C31","The advertised policy describes the enforced policy",
 "The username and password policy summaries and regular expressions state the database's own limits and character requirements: a username or password whose length is refused by the database is rejected by the advertised expression, and each requirement switched on in the policy, and no other, appears in the summary and the expression.",
 ["configurations","inputs"],"all policy limits within bounds and all 64 combinations of switches; all candidate ASCII texts within the length bound",
 "tests compare the texts for two policies",
 [DB],[("policy rendering","database.go Get*PolicySummary, Get*PolicyRegex")],None,["GetUsernamePolicySummary","GetUsernamePolicyRegex","GetPasswordPolicySummary","GetPasswordPolicyRegex"])
p("C32","Disabled credentials stay disabled and are marked with the time",
 "Disabling a password, API key, public key or MFA token marks it disabled and expired with the current time; a credential created as disabled is marked disabled with its creation time; and from then on no operation of the API makes it usable or lists it again, including after reopening the database.",
 ["histories","inputs"],"all four credential kinds, every later operation of the API, reopened or not",
 "tests call Disable and check nothing afterwards",
 [PW,K,PK,M,DB],[("Disable methods","password.go, api_key.go, public_key.go, mfa_token.go")],None,["Disable","GetAPIKeys","GetPublicKeys","GetMfaTokens"])
p("C33","Credit-card issuers and associations resolve by exact name",
 "Setting a card's issuer accepts exactly the registered issuer names and aliases, as written or in lower case, and setting its association accepts exactly the known association names; the card then refers to that entry. Anything else is refused and leaves the card unchanged.",
 ["inputs"],"all names within the length bound, registries of up to three issuers with aliases",
 "tests try three names",
 ["credit_card.go","credit_card_association.go","credit_card_issuer.go"],[("linear scan of the registry","credit_card.go AddIssuer, AddAssociation")],None,["AddIssuer","AddAssociation"])
p("C34","Database files are private to their owner",
 "A database file, a copy and every temporary file written on the way are created readable and writable by their owner only, and directories created for a database are their owner's only, at every instant and whatever fails. Saving over, copying over or opening an existing file keeps its permissions.",
 ["inputs","fault_sequences","crash_points"],"every operation that writes, on new files and on existing files of any mode, with each I/O fault and with the process stopping at each file-system step",
 "tests never look at modes",
 [DB],[("file and directory modes","database.go NewDatabase, commit, Copy")],None,["file modes"])
p("C35","Databases and requests are independent of one another",
 "Databases opened in one process, whether from different files or from the same one, are independent: no operation on one changes another's records, file, policy or answers. A database holds on to nothing of a request: overwriting or reusing a request after it was served changes no stored record and no later answer, and the lists a request is answered with are the caller's own.",
 ["histories","inputs"],"every operation on one database before every question asked of another; any policy limits; every mutating operation with its request overwritten afterwards; any two operations served through one request",
 "tests use one database at a time and throw every request away",
 [DB,U,"pkg/requests/requests.go"],[("per-database indices and policy","database.go NewDatabase"),("records built by copying","user.go, api_key.go, public_key.go, mfa_token.go"),("bundles","user.go, api_key.go, public_key.go, mfa_token.go")],
 [("refUsername/refEmailAddress/refID/refAPIKey","lookup indices","database.go Database"),("package variables","defaults shared by all databases","database.go")],["all Database methods","Response.Payload"])
p("C36","Concurrent requests act as if one came after the other",
 "When two requests are served at the same time, their answers and the database afterwards, in memory and on disk, are those of serving one and then the other, in one order or the other. Of two additions which clash in a user name or an email address exactly one succeeds; of two changes of a password from the same old password exactly one succeeds; a credential is deleted once; no change that was answered with success is lost; and a file which is written holds what the database held at one moment.",
 ["schedules","inputs","histories"],"any two requests of the API, for the same user and for others, any names, addresses, passwords and credential IDs within the length bounds, and every schedule which moves between them up to three times where one of them lets go of the lock",
 "tests are sequential",
 [DB,U],[("db.mu held for the whole of each operation","database.go, every Database method"),("user and credential records are changed in place","user.go")],
 [("Database.mu","guards Users, the indices, Revision and the file","database.go Database")],["all Database methods"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,x['title']
        f.write(json.dumps(x)+"\n")
print(len(P))
