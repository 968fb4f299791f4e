From 9c36d39bd51cd20303c0f1a8c9b9891fc2781c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:35 +0000
Subject: [PATCH 01/28] fix: keep the leading slash of a role name without an
 organization

NewRole("/a") lost the slash: the role rendered as "a" and was taken for it.
---
 role.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/role.go b/role.go
index dbdded7..a15eaa5 100644
--- a/role.go
+++ b/role.go
@@ -33,7 +33,7 @@ func NewRole(s string) (*Role, error) {
 	}
 	parts := strings.Split(s, "/")
 	role := &Role{}
-	if len(parts) == 1 {
+	if len(parts) == 1 || parts[0] == "" {
 		role.Name = s
 		return role, nil
 	}
-- 
2.43.0


From 0cc809245701fe1518c9bca2cf396a690bdfcbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:49 +0000
Subject: [PATCH 02/28] fix: refuse names which do not parse back from their
 rendering

ParseName accepted names with an empty part ("Smith,") or with several
commas ("a,b,c d"), whose full name does not parse or parses differently.
---
 name.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/name.go b/name.go
index 83d31db..b8e8a0d 100644
--- a/name.go
+++ b/name.go
@@ -74,11 +74,15 @@ func ParseName(s string) (*Name, error) {
 			continue
 		}
 		arr := strings.Split(s, sp)
-		if len(arr) == 2 {
-			n.Last = strings.TrimSpace(arr[x])
-			n.First = strings.TrimSpace(arr[y])
-			return n, nil
+		if len(arr) != 2 {
+			break
 		}
+		n.Last = strings.TrimSpace(arr[x])
+		n.First = strings.TrimSpace(arr[y])
+		if n.Last == "" || n.First == "" {
+			break
+		}
+		return n, nil
 	}
 	return nil, errors.ErrParseNameFailed.WithArgs(s)
 }
-- 
2.43.0


From 771d85014ece57e08744a8e9b687b2ec1d8dc53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:24 +0000
Subject: [PATCH 03/28] fix: accept a range of one length in
 GetRandomStringFromRange

---
 random.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/random.go b/random.go
index 750127d..6aadd80 100644
--- a/random.go
+++ b/random.go
@@ -27,6 +27,9 @@ var seed *rand.Rand = rand.New(
 )
 
 func gen(length int, charset string) string {
+	if length < 0 {
+		length = 0
+	}
 	b := make([]byte, length)
 	for i := range b {
 		b[i] = charset[seed.Intn(len(charset))]
@@ -45,10 +48,11 @@ func GetRandomString(i int) string {
 // GetRandomStringFromRange generates random string of a random length. The
 // random lenght is bounded by a and b.
 func GetRandomStringFromRange(a, b int) string {
-	var i int
 	if a > b {
-		i = rand.Intn(a-b) + b
-	} else {
+		a, b = b, a
+	}
+	i := a
+	if a < b {
 		i = rand.Intn(b-a) + a
 	}
 	return gen(i, charset)
-- 
2.43.0


From 45fa3cd9bfb04ae1378896d059f3324b8507558e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:29 +0000
Subject: [PATCH 04/28] fix: apply the default length to any length below one
 in NewRandomString

---
 uuid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uuid.go b/uuid.go
index 42b8011..865b07d 100644
--- a/uuid.go
+++ b/uuid.go
@@ -28,7 +28,7 @@ func NewID() string {
 // NewRandomString returns a random string.
 func NewRandomString(length int) string {
 	chars := []rune("abcdefghijklmnopqrstuvwxyz0123456789")
-	if length == 0 {
+	if length < 1 {
 		length = 32
 	}
 	var b strings.Builder
-- 
2.43.0


From eda54fe6c00e17cd979a9aa4ac5f42b77054b7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:29 +0000
Subject: [PATCH 05/28] fix: draw another API key when the prefix is taken in
 AddAPIKey

---
 database.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database.go b/database.go
index 19b834e..4ad2387 100644
--- a/database.go
+++ b/database.go
@@ -544,9 +544,9 @@ func (db *Database) AddAPIKey(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrAddAPIKey.WithArgs(r.Key.Usage, err)
 	}
-	s := GetRandomStringFromRange(72, 96)
 	failCount := 0
 	for {
+		s := GetRandomStringFromRange(72, 96)
 		hk, err := NewPassword(s)
 		if err != nil {
 			if failCount > 10 {
-- 
2.43.0


From b9ca11d651ea29ff5b4bacd7b1538f944fd4a01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:34 +0000
Subject: [PATCH 06/28] fix: refuse to add a user when no unused ID could be
 drawn

---
 database.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/database.go b/database.go
index 4ad2387..02e2bf3 100644
--- a/database.go
+++ b/database.go
@@ -265,11 +265,13 @@ func (db *Database) AddUser(r *requests.Request) error {
 		return errors.ErrAddUser.WithArgs(r.User.Username, err)
 	}
 	for i := 0; i < 10; i++ {
-		id := NewID()
-		if _, exists := db.refID[id]; !exists {
-			user.ID = id
+		if _, exists := db.refID[user.ID]; !exists {
 			break
 		}
+		user.ID = NewID()
+	}
+	if _, exists := db.refID[user.ID]; exists {
+		return errors.ErrAddUser.WithArgs(r.User.Username, "user id already in use")
 	}
 	username := strings.ToLower(user.Username)
 	if _, exists := db.refUsername[username]; exists {
-- 
2.43.0


From b60d870f6d051d607a832d9fe2d0a3acc2046a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:49 +0000
Subject: [PATCH 07/28] fix: find users whose username or email address is
 short

---
 database.go | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/database.go b/database.go
index 02e2bf3..6235c7b 100644
--- a/database.go
+++ b/database.go
@@ -403,9 +403,6 @@ func (db *Database) getUserByID(s string) (*User, error) {
 
 // getUserByUsername returns a user by username
 func (db *Database) getUserByUsername(s string) (*User, error) {
-	if len(s) < 2 {
-		return nil, errors.ErrDatabaseUserNotFound
-	}
 	s = strings.ToLower(s)
 	user, exists := db.refUsername[s]
 	if exists && user != nil {
@@ -417,9 +414,6 @@ func (db *Database) getUserByUsername(s string) (*User, error) {
 // getUserByEmailAddress returns a liast of users associated with a specific email
 // address.
 func (db *Database) getUserByEmailAddress(s string) (*User, error) {
-	if len(s) < 6 {
-		return nil, errors.ErrDatabaseUserNotFound
-	}
 	s = strings.ToLower(s)
 	user, exists := db.refEmailAddress[s]
 	if exists && user != nil {
-- 
2.43.0


From e76dfc557d6b4cc9d7a05d67e788e88d0ea6b802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:55 +0000
Subject: [PATCH 08/28] fix: hash passwords as they are presented, with
 surrounding blanks

---
 password.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/password.go b/password.go
index 7e81482..b9fe29d 100644
--- a/password.go
+++ b/password.go
@@ -70,8 +70,7 @@ func (p *Password) Disable() {
 }
 
 func (p *Password) hash(s string) error {
-	s = strings.TrimSpace(s)
-	if s == "" {
+	if strings.TrimSpace(s) == "" {
 		return errors.ErrPasswordEmpty
 	}
 	switch p.Algorithm {
-- 
2.43.0


From a5aeeed29f9517102bddf8be0acc760fb1e25854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:00 +0000
Subject: [PATCH 09/28] fix: find users by username when it contains an @

---
 database.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/database.go b/database.go
index 6235c7b..20a3065 100644
--- a/database.go
+++ b/database.go
@@ -386,7 +386,9 @@ func (db *Database) AuthenticateUser(r *requests.Request) error {
 // getUser return User by either email address or username.
 func (db *Database) getUser(s string) (*User, error) {
 	if strings.Contains(s, "@") {
-		return db.getUserByEmailAddress(s)
+		if user, err := db.getUserByEmailAddress(s); err == nil {
+			return user, nil
+		}
 	}
 	return db.getUserByUsername(s)
 }
-- 
2.43.0


From 344c88a845ff7bd6bb1a0f8304825c97a9641e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:19 +0000
Subject: [PATCH 10/28] fix: keep no more earlier passwords than the policy
 says

---
 user.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/user.go b/user.go
index 87e0e15..bcfe4bf 100644
--- a/user.go
+++ b/user.go
@@ -162,7 +162,7 @@ func (user *User) AddPassword(s string, keepVersions int) error {
 				p.Disable()
 			}
 			passwords = append(passwords, p)
-			if i > keepVersions {
+			if i+1 >= keepVersions {
 				break
 			}
 		}
-- 
2.43.0


From b094024cf302a90fa69daec61649ac201cc31308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:24 +0000
Subject: [PATCH 11/28] fix: refuse disabled and expired API keys in lookups

---
 user.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/user.go b/user.go
index bcfe4bf..6e9e0d9 100644
--- a/user.go
+++ b/user.go
@@ -444,6 +444,9 @@ func (user *User) DeleteAPIKey(r *requests.Request) error {
 func (user *User) LookupAPIKey(r *requests.Request) error {
 	for _, k := range user.APIKeys {
 		if k.Prefix == r.Key.Prefix {
+			if k.Disabled || k.Expired {
+				return errors.ErrLookupAPIKeyFailed
+			}
 			if k.Match(r.Key.Payload) {
 				return nil
 			}
-- 
2.43.0


From 13a9666cd0fcca8df28fb2af0a54c848fd5e34e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:49 +0000
Subject: [PATCH 12/28] fix: give public keys the same fingerprint in PEM and
 OpenSSH form

---
 public_key.go | 1 +
 user.go       | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/public_key.go b/public_key.go
index 147edc7..9d825d2 100644
--- a/public_key.go
+++ b/public_key.go
@@ -163,6 +163,7 @@ func (p *PublicKey) parsePublicKeyOpenSSH() error {
 	}
 	p.FingerprintMD5 = ssh.FingerprintLegacyMD5(publicKey)
 	p.Fingerprint = ssh.FingerprintSHA256(publicKey)
+	p.Fingerprint = strings.ReplaceAll(p.Fingerprint, "SHA256:", "")
 
 	// Convert OpenSSH key to RSA PUBLIC KEY
 	switch publicKey.Type() {
diff --git a/user.go b/user.go
index 6e9e0d9..ba25f2b 100644
--- a/user.go
+++ b/user.go
@@ -380,7 +380,8 @@ func (user *User) AddPublicKey(r *requests.Request) error {
 		if k.Type != key.Type {
 			continue
 		}
-		if k.Fingerprint != key.Fingerprint {
+		// Keys stored by earlier versions have the algorithm in their fingerprint.
+		if strings.TrimPrefix(k.Fingerprint, "SHA256:") != key.Fingerprint {
 			continue
 		}
 		return errors.ErrAddPublicKey.WithArgs(r.Key.Usage, "already exists")
-- 
2.43.0


From adb76db7f0cc6ae133e36533bf979fcaa0ca020a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:55 +0000
Subject: [PATCH 13/28] fix: refuse OpenSSH and PGP keys whose usage is for
 another kind

---
 public_key.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/public_key.go b/public_key.go
index 9d825d2..e388f52 100644
--- a/public_key.go
+++ b/public_key.go
@@ -129,6 +129,9 @@ func (p *PublicKey) parse() error {
 }
 
 func (p *PublicKey) parsePublicKeyOpenSSH() error {
+	if p.Usage != "ssh" {
+		return errors.ErrPublicKeyUsagePayloadMismatch.WithArgs(p.Usage)
+	}
 	// Attempt parsing as authorized OpenSSH keys.
 	payloadBytes := bytes.TrimSpace([]byte(p.Payload))
 	i := bytes.IndexAny(payloadBytes, " \t")
@@ -194,6 +197,9 @@ func (p *PublicKey) parsePublicKeyOpenSSH() error {
 
 func (p *PublicKey) parsePublicKeyPGP() error {
 	var user, algo, comment string
+	if p.Usage != "gpg" {
+		return errors.ErrPublicKeyUsagePayloadMismatch.WithArgs(p.Usage)
+	}
 	p.Payload = strings.TrimSpace(p.Payload)
 	for _, w := range []string{"BEGIN", "END"} {
 		s := fmt.Sprintf("-----%s PGP PUBLIC KEY BLOCK-----", w)
-- 
2.43.0


From aee86327604446400e0da7c0cf648e7ce01e707e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:01 +0000
Subject: [PATCH 14/28] fix: store PEM public keys in the same forms as OpenSSH
 ones

---
 public_key.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/public_key.go b/public_key.go
index e388f52..4b9d26e 100644
--- a/public_key.go
+++ b/public_key.go
@@ -276,7 +276,8 @@ func (p *PublicKey) parsePublicKeyRSA() error {
 	p.FingerprintMD5 = ssh.FingerprintLegacyMD5(publicKey)
 	p.Fingerprint = ssh.FingerprintSHA256(publicKey)
 	p.Fingerprint = strings.ReplaceAll(p.Fingerprint, "SHA256:", "")
-	p.OpenSSH = string(ssh.MarshalAuthorizedKey(publicKey))
-	p.OpenSSH = strings.TrimLeft(p.OpenSSH, p.Type+" ")
+	p.OpenSSH = strings.TrimSpace(string(ssh.MarshalAuthorizedKey(publicKey)))
+	p.OpenSSH = strings.TrimPrefix(p.OpenSSH, p.Type+" ")
+	p.Payload = string(pem.EncodeToMemory(&pem.Block{Type: block.Type, Bytes: block.Bytes}))
 	return nil
 }
-- 
2.43.0


From 61803324cf8d34ad9aac70a9bdf8cf5ad5b900ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 15/28] fix: refuse WebAuthn keys whose parameters have other
 JSON types

---
 mfa_token.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/mfa_token.go b/mfa_token.go
index 8980581..737b16a 100644
--- a/mfa_token.go
+++ b/mfa_token.go
@@ -223,7 +223,11 @@ func NewMfaToken(req *requests.Request) (*MfaToken, error) {
 		// See https://www.iana.org/assignments/cose/cose.xhtml#key-type
 		var keyType string
 		if v, exists := r.AttestationObject.AuthData.CredentialData.PublicKey["key_type"]; exists {
-			switch v.(float64) {
+			n, ok := v.(float64)
+			if !ok {
+				return nil, errors.ErrWebAuthnRegisterPublicKeyUnsupported.WithArgs(fmt.Sprintf("%v", v))
+			}
+			switch n {
 			case 2:
 				keyType = "ec2"
 			default:
@@ -236,7 +240,11 @@ func NewMfaToken(req *requests.Request) (*MfaToken, error) {
 		// See https://www.iana.org/assignments/cose/cose.xhtml#algorithms
 		var keyAlgo string
 		if v, exists := r.AttestationObject.AuthData.CredentialData.PublicKey["algorithm"]; exists {
-			switch v.(float64) {
+			n, ok := v.(float64)
+			if !ok {
+				return nil, errors.ErrWebAuthnRegisterPublicKeyAlgorithmUnsupported.WithArgs(fmt.Sprintf("%v", v))
+			}
+			switch n {
 			case -7:
 				keyAlgo = "es256"
 			default:
@@ -249,7 +257,11 @@ func NewMfaToken(req *requests.Request) (*MfaToken, error) {
 		// See https://www.iana.org/assignments/cose/cose.xhtml#elliptic-curves
 		var curveType, curveXcoord, curveYcoord string
 		if v, exists := r.AttestationObject.AuthData.CredentialData.PublicKey["curve_type"]; exists {
-			switch v.(float64) {
+			n, ok := v.(float64)
+			if !ok {
+				return nil, errors.ErrWebAuthnRegisterPublicKeyCurveUnsupported.WithArgs(fmt.Sprintf("%v", v))
+			}
+			switch n {
 			case 1:
 				curveType = "p256"
 			default:
@@ -257,10 +269,18 @@ func NewMfaToken(req *requests.Request) (*MfaToken, error) {
 			}
 		}
 		if v, exists := r.AttestationObject.AuthData.CredentialData.PublicKey["curve_x"]; exists {
-			curveXcoord = v.(string)
+			coord, ok := v.(string)
+			if !ok {
+				return nil, errors.ErrWebAuthnRegisterPublicKeyCurveCoord.WithArgs("x", "not a string")
+			}
+			curveXcoord = coord
 		}
 		if v, exists := r.AttestationObject.AuthData.CredentialData.PublicKey["curve_y"]; exists {
-			curveYcoord = v.(string)
+			coord, ok := v.(string)
+			if !ok {
+				return nil, errors.ErrWebAuthnRegisterPublicKeyCurveCoord.WithArgs("y", "not a string")
+			}
+			curveYcoord = coord
 		}
 
 		switch keyType {
-- 
2.43.0


From f4e940f2c595eeac6e5c20bdb683046fb620c725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 16/28] fix: leave the revision and path of a database alone
 when copying it

---
 database.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/database.go b/database.go
index 20a3065..b15036e 100644
--- a/database.go
+++ b/database.go
@@ -442,23 +442,24 @@ func (db *Database) Save() error {
 func (db *Database) Copy(fp string) error {
 	db.mu.Lock()
 	defer db.mu.Unlock()
-	path := db.path
-	db.path = fp
-	err := db.commit()
-	db.path = path
-	return err
+	return db.write(fp)
 }
 
-// commit writes the database contents to a file.
+// commit writes the database contents to its file.
 func (db *Database) commit() error {
 	db.Revision++
 	db.LastModified = time.Now().UTC()
+	return db.write(db.path)
+}
+
+// write writes the database contents to a file.
+func (db *Database) write(fp string) error {
 	data, err := json.MarshalIndent(db, "", "  ")
 	if err != nil {
-		return errors.ErrDatabaseCommit.WithArgs(db.path, err)
+		return errors.ErrDatabaseCommit.WithArgs(fp, err)
 	}
-	if err := ioutil.WriteFile(db.path, []byte(data), 0600); err != nil {
-		return errors.ErrDatabaseCommit.WithArgs(db.path, err)
+	if err := ioutil.WriteFile(fp, []byte(data), 0600); err != nil {
+		return errors.ErrDatabaseCommit.WithArgs(fp, err)
 	}
 	return nil
 }
-- 
2.43.0


From 0855fb540d50ce57d9ac19fa97df908a7bf05f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 17/28] fix: undo changes which could not be written to the
 file

---
 database.go | 30 ++++++++++++++++++++++++++++--
 user.go     | 16 ++++++++++++++++
 2 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/database.go b/database.go
index b15036e..ab0d8fa 100644
--- a/database.go
+++ b/database.go
@@ -295,6 +295,12 @@ func (db *Database) AddUser(r *requests.Request) error {
 	db.Users = append(db.Users, user)
 
 	if err := db.commit(); err != nil {
+		db.Users = db.Users[:len(db.Users)-1]
+		delete(db.refUsername, username)
+		delete(db.refID, user.ID)
+		for _, emailAddress := range emailAddresses {
+			delete(db.refEmailAddress, emailAddress)
+		}
 		return errors.ErrAddUser.WithArgs(username, err)
 	}
 	return nil
@@ -447,9 +453,14 @@ func (db *Database) Copy(fp string) error {
 
 // commit writes the database contents to its file.
 func (db *Database) commit() error {
+	revision, lastModified := db.Revision, db.LastModified
 	db.Revision++
 	db.LastModified = time.Now().UTC()
-	return db.write(db.path)
+	if err := db.write(db.path); err != nil {
+		db.Revision, db.LastModified = revision, lastModified
+		return err
+	}
+	return nil
 }
 
 // write writes the database contents to a file.
@@ -487,10 +498,12 @@ func (db *Database) AddPublicKey(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrAddPublicKey.WithArgs(r.Key.Usage, err)
 	}
+	restore := user.checkpoint()
 	if err := user.AddPublicKey(r); err != nil {
 		return err
 	}
 	if err := db.commit(); err != nil {
+		restore()
 		return errors.ErrAddPublicKey.WithArgs(r.Key.Usage, err)
 	}
 	return nil
@@ -526,10 +539,12 @@ func (db *Database) DeletePublicKey(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrDeletePublicKey.WithArgs(r.Key.ID, err)
 	}
+	restore := user.checkpoint()
 	if err := user.DeletePublicKey(r); err != nil {
 		return err
 	}
 	if err := db.commit(); err != nil {
+		restore()
 		return errors.ErrDeletePublicKey.WithArgs(r.Key.Usage, err)
 	}
 	return nil
@@ -543,6 +558,7 @@ func (db *Database) AddAPIKey(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrAddAPIKey.WithArgs(r.Key.Usage, err)
 	}
+	restore := user.checkpoint()
 	failCount := 0
 	for {
 		s := GetRandomStringFromRange(72, 96)
@@ -569,6 +585,8 @@ func (db *Database) AddAPIKey(r *requests.Request) error {
 	}
 
 	if err := db.commit(); err != nil {
+		restore()
+		delete(db.refAPIKey, r.Key.Prefix)
 		return errors.ErrAddAPIKey.WithArgs(r.Key.Usage, err)
 	}
 	return nil
@@ -582,13 +600,15 @@ func (db *Database) DeleteAPIKey(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrDeleteAPIKey.WithArgs(r.Key.ID, err)
 	}
+	restore := user.checkpoint()
 	if err := user.DeleteAPIKey(r); err != nil {
 		return err
 	}
-	delete(db.refAPIKey, r.Key.Prefix)
 	if err := db.commit(); err != nil {
+		restore()
 		return errors.ErrDeleteAPIKey.WithArgs(r.Key.Usage, err)
 	}
+	delete(db.refAPIKey, r.Key.Prefix)
 	return nil
 }
 
@@ -622,6 +642,7 @@ func (db *Database) ChangeUserPassword(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrChangeUserPassword.WithArgs(err)
 	}
+	restore := user.checkpoint()
 	if err := db.checkPasswordPolicyCompliance(r.User.Password); err != nil {
 		return errors.ErrChangeUserPassword.WithArgs(err)
 	}
@@ -630,6 +651,7 @@ func (db *Database) ChangeUserPassword(r *requests.Request) error {
 	}
 	// if db.Policy.Password.KeepVersions
 	if err := db.commit(); err != nil {
+		restore()
 		return errors.ErrChangeUserPassword.WithArgs(err)
 	}
 	return nil
@@ -692,10 +714,12 @@ func (db *Database) AddMfaToken(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrAddMfaToken.WithArgs(err)
 	}
+	restore := user.checkpoint()
 	if err := user.AddMfaToken(r); err != nil {
 		return err
 	}
 	if err := db.commit(); err != nil {
+		restore()
 		return errors.ErrAddMfaToken.WithArgs(err)
 	}
 	return nil
@@ -728,10 +752,12 @@ func (db *Database) DeleteMfaToken(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrDeleteMfaToken.WithArgs(r.MfaToken.ID, err)
 	}
+	restore := user.checkpoint()
 	if err := user.DeleteMfaToken(r); err != nil {
 		return err
 	}
 	if err := db.commit(); err != nil {
+		restore()
 		return errors.ErrDeleteMfaToken.WithArgs(r.MfaToken.ID, err)
 	}
 	return nil
diff --git a/user.go b/user.go
index ba25f2b..d0e4b19 100644
--- a/user.go
+++ b/user.go
@@ -561,3 +561,19 @@ func (user *User) Revise() {
 	user.Revision++
 	user.LastModified = time.Now().UTC()
 }
+
+// checkpoint returns a function which undoes the changes made to the user
+// since.
+func (user *User) checkpoint() func() {
+	saved := *user
+	passwords := make([]Password, len(user.Passwords))
+	for i, p := range user.Passwords {
+		passwords[i] = *p
+	}
+	return func() {
+		*user = saved
+		for i, p := range user.Passwords {
+			*p = passwords[i]
+		}
+	}
+}
-- 
2.43.0


From 91a7b6f9bd391fc49a6da7dceda15c541e461ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 18/28] fix: replace the database file in one step when saving

---
 database.go | 47 ++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 46 insertions(+), 1 deletion(-)

diff --git a/database.go b/database.go
index ab0d8fa..caf389b 100644
--- a/database.go
+++ b/database.go
@@ -469,12 +469,57 @@ func (db *Database) write(fp string) error {
 	if err != nil {
 		return errors.ErrDatabaseCommit.WithArgs(fp, err)
 	}
-	if err := ioutil.WriteFile(fp, []byte(data), 0600); err != nil {
+	if err := replaceFile(fp, data); err != nil {
 		return errors.ErrDatabaseCommit.WithArgs(fp, err)
 	}
 	return nil
 }
 
+// replaceFile writes a file such that, whatever fails, there is either the
+// earlier or the new content.
+func replaceFile(fp string, data []byte) error {
+	mode := os.FileMode(0600)
+	f, err := os.OpenFile(fp, os.O_WRONLY, 0)
+	switch {
+	case err == nil:
+		fileInfo, err := f.Stat()
+		f.Close()
+		if err != nil {
+			return err
+		}
+		if !fileInfo.Mode().IsRegular() {
+			return ioutil.WriteFile(fp, data, 0600)
+		}
+		mode = fileInfo.Mode().Perm()
+		if fp, err = filepath.EvalSymlinks(fp); err != nil {
+			return err
+		}
+	case !os.IsNotExist(err):
+		return err
+	}
+	tmp, err := ioutil.TempFile(filepath.Dir(fp), "."+filepath.Base(fp)+".*")
+	if err != nil {
+		return err
+	}
+	_, err = tmp.Write(data)
+	if err == nil {
+		err = tmp.Chmod(mode)
+	}
+	if err == nil {
+		err = tmp.Sync()
+	}
+	if closeErr := tmp.Close(); err == nil {
+		err = closeErr
+	}
+	if err == nil {
+		err = os.Rename(tmp.Name(), fp)
+	}
+	if err != nil {
+		os.Remove(tmp.Name())
+	}
+	return err
+}
+
 func (db *Database) validateUserIdentity(username, email string) (*User, error) {
 	user1, err := db.getUserByUsername(username)
 	if err != nil {
-- 
2.43.0


From 46f427b4e287d70b2eb70cd3cb937b30d5fa01bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 19/28] fix: read the database from the path at which it was
 found

---
 database.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/database.go b/database.go
index caf389b..36be713 100644
--- a/database.go
+++ b/database.go
@@ -17,7 +17,6 @@ package identity
 import (
 	"encoding/json"
 	"fmt"
-	"github.com/greenpau/go-identity/internal/utils"
 	"github.com/greenpau/go-identity/pkg/errors"
 	"github.com/greenpau/go-identity/pkg/requests"
 	"github.com/greenpau/versioned"
@@ -137,7 +136,7 @@ func NewDatabase(fp string) (*Database, error) {
 		if fileInfo.IsDir() {
 			return nil, errors.ErrNewDatabase.WithArgs(fp, "path points to a directory")
 		}
-		b, err := utils.ReadFileBytes(fp)
+		b, err := ioutil.ReadFile(fp)
 		if err != nil {
 			return nil, errors.ErrNewDatabase.WithArgs(fp, err)
 		}
-- 
2.43.0


From e7159b252175af30da9ecb3c3e5168fb100414e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 20/28] fix: leave a database file which is refused as it was

---
 database.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/database.go b/database.go
index 36be713..2a625f4 100644
--- a/database.go
+++ b/database.go
@@ -119,6 +119,7 @@ func NewDatabase(fp string) (*Database, error) {
 		refEmailAddress: make(map[string]*User),
 		refAPIKey:       make(map[string]*User),
 	}
+	var policyChanged bool
 	fileInfo, err := os.Stat(fp)
 	if err != nil {
 		if !os.IsNotExist(err) {
@@ -143,11 +144,7 @@ func NewDatabase(fp string) (*Database, error) {
 		if err := json.Unmarshal(b, db); err != nil {
 			return nil, errors.ErrNewDatabase.WithArgs(fp, err)
 		}
-		if changed := db.enforceDefaultPolicy(); changed {
-			if err := db.commit(); err != nil {
-				return nil, errors.ErrNewDatabase.WithArgs(fp, err)
-			}
-		}
+		policyChanged = db.enforceDefaultPolicy()
 	}
 
 	// db.mu = &sync.RWMutex{}
@@ -186,6 +183,11 @@ func NewDatabase(fp string) (*Database, error) {
 			db.refAPIKey[apiKey.Prefix] = user
 		}
 	}
+	if policyChanged {
+		if err := db.commit(); err != nil {
+			return nil, errors.ErrNewDatabase.WithArgs(fp, err)
+		}
+	}
 	return db, nil
 }
 
-- 
2.43.0


From 621c13116945e215222fdfcb0cd94b58f0ff9acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 21/28] fix: refuse databases with null users, names or
 credentials

---
 pkg/errors/database.go |  2 ++
 user.go                | 43 ++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 45 insertions(+)

diff --git a/pkg/errors/database.go b/pkg/errors/database.go
index 89755c4..b06fd85 100644
--- a/pkg/errors/database.go
+++ b/pkg/errors/database.go
@@ -55,6 +55,8 @@ const (
 	ErrPasswordGenerate             StandardError = "password generation error: %v"
 	ErrPasswordUnsupportedAlgorithm StandardError = "unsupported password hash algorithm: %v"
 
+	ErrUserEmpty           StandardError = "user record is empty"
+	ErrUserEntryEmpty      StandardError = "user record has an empty %s entry"
 	ErrUserIDInvalidLength StandardError = "invalid user id length: %d"
 	ErrUsernameEmpty       StandardError = "username is empty"
 
diff --git a/user.go b/user.go
index d0e4b19..f608b15 100644
--- a/user.go
+++ b/user.go
@@ -133,6 +133,9 @@ func NewUserWithRoles(username, password, email, fullName string, roles []string
 
 // Valid returns true if a user conforms to a standard.
 func (user *User) Valid() error {
+	if user == nil {
+		return errors.ErrUserEmpty
+	}
 	if len(user.ID) != 36 {
 		return errors.ErrUserIDInvalidLength.WithArgs(len(user.ID))
 	}
@@ -142,6 +145,46 @@ func (user *User) Valid() error {
 	if len(user.Passwords) < 1 {
 		return errors.ErrUserPasswordNotFound
 	}
+	return user.checkEntries()
+}
+
+// checkEntries returns an error if there is an empty entry in the user record.
+func (user *User) checkEntries() error {
+	for _, entry := range user.Names {
+		if entry == nil {
+			return errors.ErrUserEntryEmpty.WithArgs("name")
+		}
+	}
+	for _, entry := range user.EmailAddresses {
+		if entry == nil {
+			return errors.ErrUserEntryEmpty.WithArgs("email address")
+		}
+	}
+	for _, entry := range user.Passwords {
+		if entry == nil {
+			return errors.ErrUserEntryEmpty.WithArgs("password")
+		}
+	}
+	for _, entry := range user.PublicKeys {
+		if entry == nil {
+			return errors.ErrUserEntryEmpty.WithArgs("public key")
+		}
+	}
+	for _, entry := range user.APIKeys {
+		if entry == nil {
+			return errors.ErrUserEntryEmpty.WithArgs("api key")
+		}
+	}
+	for _, entry := range user.MfaTokens {
+		if entry == nil {
+			return errors.ErrUserEntryEmpty.WithArgs("mfa token")
+		}
+	}
+	for _, entry := range user.Roles {
+		if entry == nil {
+			return errors.ErrUserEntryEmpty.WithArgs("role")
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From d368273cefd61f41387a0688ac703b1187e00c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:45 +0000
Subject: [PATCH 22/28] fix: refuse texts which the database file could not
 hold

---
 database.go            | 24 ++++++++++++++++++++++++
 pkg/errors/database.go |  1 +
 2 files changed, 25 insertions(+)

diff --git a/database.go b/database.go
index 2a625f4..73e969d 100644
--- a/database.go
+++ b/database.go
@@ -26,6 +26,7 @@ import (
 	"strings"
 	"sync"
 	"time"
+	"unicode/utf8"
 )
 
 var (
@@ -243,6 +244,16 @@ func (db *Database) checkPasswordPolicyCompliance(s string) error {
 	return nil
 }
 
+// checkText returns an error if any of the texts could not be stored as is.
+func checkText(texts ...string) error {
+	for _, text := range texts {
+		if !utf8.ValidString(text) {
+			return errors.ErrTextInvalid
+		}
+	}
+	return nil
+}
+
 // GetPath returns the path  to Database.
 func (db *Database) GetPath() string {
 	return db.path
@@ -257,6 +268,10 @@ func (db *Database) AddUser(r *requests.Request) error {
 		return errors.ErrAddUser.WithArgs(r.User.Username, err)
 	}
 
+	if err := checkText(append([]string{r.User.Username, r.User.Email, r.User.FullName}, r.User.Roles...)...); err != nil {
+		return errors.ErrAddUser.WithArgs(r.User.Username, err)
+	}
+
 	user, err := NewUserWithRoles(
 		r.User.Username, r.User.Password,
 		r.User.Email, r.User.FullName,
@@ -544,6 +559,9 @@ func (db *Database) AddPublicKey(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrAddPublicKey.WithArgs(r.Key.Usage, err)
 	}
+	if err := checkText(r.Key.Comment, r.Key.Payload); err != nil {
+		return errors.ErrAddPublicKey.WithArgs(r.Key.Usage, err)
+	}
 	restore := user.checkpoint()
 	if err := user.AddPublicKey(r); err != nil {
 		return err
@@ -604,6 +622,9 @@ func (db *Database) AddAPIKey(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrAddAPIKey.WithArgs(r.Key.Usage, err)
 	}
+	if err := checkText(r.Key.Comment); err != nil {
+		return errors.ErrAddAPIKey.WithArgs(r.Key.Usage, err)
+	}
 	restore := user.checkpoint()
 	failCount := 0
 	for {
@@ -760,6 +781,9 @@ func (db *Database) AddMfaToken(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrAddMfaToken.WithArgs(err)
 	}
+	if err := checkText(r.MfaToken.Comment, r.MfaToken.Secret, r.WebAuthn.Challenge); err != nil {
+		return errors.ErrAddMfaToken.WithArgs(err)
+	}
 	restore := user.checkpoint()
 	if err := user.AddMfaToken(r); err != nil {
 		return err
diff --git a/pkg/errors/database.go b/pkg/errors/database.go
index b06fd85..bef08d6 100644
--- a/pkg/errors/database.go
+++ b/pkg/errors/database.go
@@ -55,6 +55,7 @@ const (
 	ErrPasswordGenerate             StandardError = "password generation error: %v"
 	ErrPasswordUnsupportedAlgorithm StandardError = "unsupported password hash algorithm: %v"
 
+	ErrTextInvalid         StandardError = "text is not valid utf-8"
 	ErrUserEmpty           StandardError = "user record is empty"
 	ErrUserEntryEmpty      StandardError = "user record has an empty %s entry"
 	ErrUserIDInvalidLength StandardError = "invalid user id length: %d"
-- 
2.43.0


From 7baf23957bbc4c6ec2207af9db0f70fe12e38e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 23/28] fix: clear claims and flags of the request when
 identifying a user

---
 database.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/database.go b/database.go
index 73e969d..bf09940 100644
--- a/database.go
+++ b/database.go
@@ -730,9 +730,12 @@ func (db *Database) IdentifyUser(r *requests.Request) error {
 	db.mu.Lock()
 	defer db.mu.Unlock()
 	user, err := db.getUser(r.User.Username)
+	r.Flags.MfaConfigured, r.Flags.MfaApp, r.Flags.MfaUniversal = false, false, false
 	if err != nil {
 		r.User.Username = "nobody"
 		r.User.Email = "nobody@localhost"
+		r.User.FullName = ""
+		r.User.Roles = nil
 		r.User.Challenges = []string{"password"}
 		return nil
 	}
-- 
2.43.0


From 9256cd6d3af44ff817595a7ca49665bad325f096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:06 +0000
Subject: [PATCH 24/28] fix: challenge users for MFA only when a token is
 enabled

---
 user.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/user.go b/user.go
index f608b15..684338e 100644
--- a/user.go
+++ b/user.go
@@ -593,8 +593,11 @@ func (user *User) GetMetadata() *UserMetadata {
 func (user *User) GetChallenges() []string {
 	var challenges []string
 	challenges = append(challenges, "password")
-	if len(user.MfaTokens) > 0 {
-		challenges = append(challenges, "mfa")
+	for _, token := range user.MfaTokens {
+		if !token.Disabled {
+			challenges = append(challenges, "mfa")
+			break
+		}
 	}
 	return challenges
 }
-- 
2.43.0


From 2a731e7dc27a224d0ba2ff7b07c659695835d194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 25/28] fix: hash blank passwords presented for unknown users
 as well

---
 database.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/database.go b/database.go
index bf09940..ab3b967 100644
--- a/database.go
+++ b/database.go
@@ -381,7 +381,10 @@ func (db *Database) AuthenticateUser(r *requests.Request) error {
 	if err != nil {
 		r.Response.Code = 400
 		// Calculate password hash as the means to prevent user discovery.
-		NewPassword(r.User.Password)
+		// The password itself may be blank, for which there is no hash.
+		if r.User.Password != "" {
+			NewPassword("nobody" + r.User.Password)
+		}
 		return errors.ErrAuthFailed.WithArgs(err)
 	}
 
-- 
2.43.0


From b7df6b0378fa96619906644d7d0dae0e33df1f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:51 +0000
Subject: [PATCH 26/28] fix: guard the shared random source with a mutex

---
 random.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/random.go b/random.go
index 6aadd80..7d66cc0 100644
--- a/random.go
+++ b/random.go
@@ -16,6 +16,7 @@ package identity
 
 import (
 	"math/rand"
+	"sync"
 	"time"
 )
 
@@ -26,11 +27,16 @@ var seed *rand.Rand = rand.New(
 	rand.NewSource(time.Now().UnixNano()),
 )
 
+// seedMu guards seed, which is not safe for concurrent use.
+var seedMu sync.Mutex
+
 func gen(length int, charset string) string {
 	if length < 0 {
 		length = 0
 	}
 	b := make([]byte, length)
+	seedMu.Lock()
+	defer seedMu.Unlock()
 	for i := range b {
 		b[i] = charset[seed.Intn(len(charset))]
 	}
-- 
2.43.0


From 6a3eaf682ae0412465a586c44fd86bbb23b70ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:28 +0000
Subject: [PATCH 27/28] fix: derive the WebAuthn key without caching it under a
 read lock

---
 mfa_token.go | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/mfa_token.go b/mfa_token.go
index 737b16a..221d65b 100644
--- a/mfa_token.go
+++ b/mfa_token.go
@@ -61,7 +61,6 @@ type MfaToken struct {
 	Parameters       map[string]string `json:"parameters,omitempty" xml:"parameters,omitempty" yaml:"parameters,omitempty"`
 	Flags            map[string]bool   `json:"flags,omitempty" xml:"flags,omitempty" yaml:"flags,omitempty"`
 	SignatureCounter uint32            `json:"signature_counter,omitempty" xml:"signature_counter,omitempty" yaml:"signature_counter,omitempty"`
-	pubkey           *ecdsa.PublicKey
 }
 
 // MfaDevice is the hardware device associated with MfaToken.
@@ -325,13 +324,16 @@ func (p *MfaToken) WebAuthnRequest(payload string) (*WebAuthnAuthenticateRequest
 		}
 	}
 
+	var pubkey *ecdsa.PublicKey
 	switch p.Parameters["key_type"] {
 	case "ec2":
-		if p.pubkey == nil {
-			if err := p.derivePublicKey(p.Parameters); err != nil {
-				return nil, err
-			}
+		// The key is not cached: the callers share the token, holding a
+		// read lock at most.
+		key, err := derivePublicKey(p.Parameters)
+		if err != nil {
+			return nil, err
 		}
+		pubkey = key
 	default:
 		return nil, errors.ErrWebAuthnRequest.WithArgs("unsupported key type")
 	}
@@ -432,7 +434,7 @@ func (p *MfaToken) WebAuthnRequest(payload string) (*WebAuthnAuthenticateRequest
 	// Verify signature.
 	signedData := append(authDataBytes, clientDataHash[:]...)
 	crt := &x509.Certificate{
-		PublicKey: p.pubkey,
+		PublicKey: pubkey,
 	}
 
 	switch p.Parameters["key_algo"] {
@@ -526,10 +528,10 @@ func generateMfaCode(secret, algo string, digits int, ts uint64) (string, error)
 	return fmt.Sprintf(wrap, mod), nil
 }
 
-func (p *MfaToken) derivePublicKey(params map[string]string) error {
+func derivePublicKey(params map[string]string) (*ecdsa.PublicKey, error) {
 	for _, reqParam := range []string{"curve_xcoord", "curve_ycoord", "key_algo"} {
 		if _, exists := params[reqParam]; !exists {
-			return errors.ErrWebAuthnRequest.WithArgs(reqParam + " not found")
+			return nil, errors.ErrWebAuthnRequest.WithArgs(reqParam + " not found")
 		}
 	}
 
@@ -538,10 +540,10 @@ func (p *MfaToken) derivePublicKey(params map[string]string) error {
 		coord := "curve_" + ltr + "coord"
 		b, err := base64.StdEncoding.DecodeString(params[coord])
 		if err != nil {
-			return errors.ErrWebAuthnRegisterPublicKeyCurveCoord.WithArgs(ltr, err)
+			return nil, errors.ErrWebAuthnRegisterPublicKeyCurveCoord.WithArgs(ltr, err)
 		}
 		if len(b) != 32 {
-			return errors.ErrWebAuthnRegisterPublicKeyCurveCoord.WithArgs(ltr, "not 32 bytes in length")
+			return nil, errors.ErrWebAuthnRegisterPublicKeyCurveCoord.WithArgs(ltr, "not 32 bytes in length")
 		}
 		i := new(big.Int)
 		i.SetBytes(b)
@@ -550,11 +552,10 @@ func (p *MfaToken) derivePublicKey(params map[string]string) error {
 
 	switch params["key_algo"] {
 	case "es256":
-		p.pubkey = &ecdsa.PublicKey{Curve: elliptic.P256(), X: coords[0], Y: coords[1]}
+		return &ecdsa.PublicKey{Curve: elliptic.P256(), X: coords[0], Y: coords[1]}, nil
 	default:
-		return errors.ErrWebAuthnRegisterPublicKeyAlgorithmUnsupported.WithArgs(params["key_algo"])
+		return nil, errors.ErrWebAuthnRegisterPublicKeyAlgorithmUnsupported.WithArgs(params["key_algo"])
 	}
-	return nil
 }
 
 func (r *WebAuthnAuthenticateRequest) unpackAuthData(b []byte) error {
-- 
2.43.0


From 7f2b451cdd11cb57f2af8328df0121d3e16275c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:10 +0000
Subject: [PATCH 28/28] fix: store names of PGP keys which are not UTF-8 the
 way they are kept

---
 public_key.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/public_key.go b/public_key.go
index 4b9d26e..f48bdfc 100644
--- a/public_key.go
+++ b/public_key.go
@@ -240,7 +240,8 @@ func (p *PublicKey) parsePublicKeyPGP() error {
 		return errors.ErrPublicKeyParse.WithArgs(fmt.Errorf("PGP keyring entry has unsupported public key algo %v", pk.PubKeyAlgo))
 	}
 	for _, u := range kr[0].Identities {
-		user = u.Name
+		// The name could be in any encoding and could not be stored as is.
+		user = strings.ToValidUTF8(u.Name, "\ufffd")
 		break
 	}
 	comment = fmt.Sprintf("%s, algo %s, created %s", user, algo, pk.CreationTime.UTC())
-- 
2.43.0

