package h

import (
	"strings"
	"time"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/internal/zzverif/v"
	"github.com/greenpau/go-identity/pkg/requests"
)

func listMfa(db *identity.Database, name string) []*identity.MfaToken {
	r := req(name, name+"@x.io")
	err := db.GetMfaTokens(r)
	b, ok := r.Response.Payload.(*identity.MfaTokenBundle)
	v.Assert(err == nil && ok && b.Size() == len(b.Get()), "tokens listed")
	return b.Get()
}

func totpReq(secret, comment, algo string, period, digits int, code string) *requests.Request {
	r := req("bob", "bob@x.io")
	m := &r.MfaToken
	m.Type, m.Secret, m.Comment, m.Algorithm, m.Period, m.Digits, m.Passcode = "totp", secret, comment, algo, period, digits, code
	return r
}

func mkTok(id, secret, comment string) *identity.MfaToken {
	return &identity.MfaToken{ID: id, Type: "totp", Algorithm: "sha1", Comment: comment, Secret: secret, Period: 60, Digits: 6, CreatedAt: t0,
		Parameters: map[string]string{}, Flags: map[string]bool{}}
}

// enrol adds a token and checks what a success or a refusal leaves.
func enrol(p string, db *identity.Database, r *requests.Request, want bool, id string) bool {
	before, file, a0 := v.Full(db), v.SnapFile(p), v.Full(db.Users[1])
	n := len(db.Users[0].MfaTokens)
	err := db.AddMfaToken(r)
	v.Assert(v.Iff(err == nil, want), id)
	v.Assert(v.Same(a0, v.Full(db.Users[1])), "other users keep theirs")
	if err != nil {
		v.Assert(v.Same(before, v.Full(db)), "a refused token changes nothing")
		v.Assert(v.Same(file, v.SnapFile(p)), "a refused token leaves the file")
		v.Cover("refused")
		return false
	}
	v.Assert(len(db.Users[0].MfaTokens) == n+1, "one token is added")
	v.Cover("enrolled")
	return true
}

func mfaDB(p string, toks ...*identity.MfaToken) *identity.Database {
	bob, alice := pubUser(0, "bob"), pubUser(1, "alice")
	bob.MfaTokens = toks
	alice.MfaTokens = []*identity.MfaToken{mkTok("t0", "alice-secret", "alice-phone")}
	return mkDB(p, bob, alice)
}

// C09_params: algorithms, periods and digits with a proper passcode.
func C09_params() {
	v.Bound("periods 25-35, 60, 295-305, 0 and -30; digits -1 to 10; algorithms from a catalogue and any of 4 printable bytes; the passcode is the token's own of the current or previous step")
	p := v.TempPath("db.json")
	db := mfaDB(p)
	period, digits, algo := 60, 6, "sha1"
	switch v.Choose("vary", 4) {
	case 0:
		period = []int{25, 29, 30, 31, 60, 299, 300, 301, 305, 0, -30, 1 << 40}[v.Choose("period", 12)]
	case 1:
		digits = v.Choose("digits", 12) - 1
	case 2:
		algo = v.Pick("algo", "", "sha1", "SHA1", "sha256", "Sha512", "sha384", "md5", "sha-1", "sha1 ", "sha", "sha2566")
	case 3:
		algo = v.Str("algo", "print", 1, 4, 6)
	}
	a := strings.ToLower(algo)
	ok := v.Or(a == "", a == "sha1", a == "sha256", a == "sha512")
	ra, rd, rp := "sha1", digits, period
	if a == "sha256" || a == "sha512" {
		ra = a
	}
	if rd == 0 {
		rd = 6
	}
	if rd < 1 || rd > 9 {
		rd = 9
	}
	if rp < 1 || rp > 1000 {
		rp = 30
	}
	t := time.Now().Unix() - int64(v.Choose("step", 2)*rp)
	r := totpReq("a-secret", "phone", algo, period, digits, totp("a-secret", ra, rd, uint64(t/int64(rp))))
	dis := v.Bool("disabled")
	r.MfaToken.Disabled = dis
	want := v.And(ok, period >= 30, period <= 300, v.Or(digits == 0, v.And(digits >= 4, digits <= 8)))
	if !enrol(p, db, r, want, "enrolled exactly with supported parameters") {
		return
	}
	for _, d := range []*identity.Database{db, reopen(p)} {
		k := d.Users[0].MfaTokens[0]
		v.Assert(v.And(k.Type == "totp", k.Algorithm == ra, k.Period == period, k.Digits == rd, k.Secret == "a-secret", k.Comment == "phone", len(k.ID) == 40, v.Iff(k.Disabled, dis), v.Not(k.Expired)), "the token's record")
		v.Assert(v.Iff(len(listMfa(d, "bob")) == 1, v.Not(dis)), "listed unless disabled")
	}
}

// C09_limits: any period and digits with an arbitrary passcode.
func C09_limits() {
	v.Bound("any 32-bit period and digits outside the supported ranges with any passcode of 0, 4, 6 or 8 digits, or with one that is right for 4, 6 or 8 digits")
	p := v.TempPath("db.json")
	db := mfaDB(p)
	period, digits := v.Int("period", -1<<31, 1<<31-1), v.Int("digits", -1<<31, 1<<31-1)
	v.Assume(v.Or(period < 30, period > 300, digits < 0, v.And(digits > 0, digits < 4), digits > 8))
	code := ""
	if v.Choose("how", 2) == 0 {
		code = v.Str("code", "digit", 0, 4, 6, 8)
	} else {
		// what would be right for other parameters
		n, q := 4+2*v.Choose("n", 3), 30
		if v.Choose("vary", 2) == 0 {
			period = []int{-30, 0, 1, 29, 301, 600}[v.Choose("at", 6)]
			if period > 0 {
				q = period
			}
			digits = n
		} else {
			period, q = 300, 300
		}
		v.Assume(v.Or(period < 30, period > 300, digits < 0, v.And(digits > 0, digits < 4), digits > 8))
		code = enrolCode("a-secret", "sha1", n, q)
	}
	enrol(p, db, totpReq("a-secret", "phone", "", period, digits, code), false, "unsupported periods and digits are refused")
}

// C09_passcode: any passcode.
func C09_passcode() {
	v.Bound("any passcode of 0, 3-9 printable bytes for tokens of 4, 6 and 8 digits")
	p := v.TempPath("db.json")
	db := mfaDB(p)
	digits := []int{4, 6, 8}[v.Choose("digits", 3)]
	code := v.Str("code", "print", 0, 3, 4, 5, 6, 7, 8, 9)
	s := uint64(time.Now().Unix() / 300)
	t := trim(code)
	must, may := false, false
	for i := -3; i <= 1; i++ {
		m := t == totp("a-secret", "sha1", digits, s+uint64(i))
		may = v.Or(may, m)
		if i == 0 || i == -1 {
			must = v.Or(must, m)
		}
	}
	r := totpReq("a-secret", "phone", "", 300, digits, code)
	before := v.Full(db)
	err := db.AddMfaToken(r)
	v.Assert(v.Implies(err == nil, may), "only a passcode of the token enrols it")
	v.Assert(v.Implies(must, err == nil), "the current and previous passcodes enrol it")
	if err != nil {
		v.Assert(v.Same(before, v.Full(db)), "a wrong passcode changes nothing")
	} else {
		v.Cover("enrolled")
	}
}

// C09_duplicate: any stored secrets and comments.
func C09_duplicate() {
	v.Bound("two stored tokens with arbitrary secrets of 1-2 bytes, comments of 0-2 bytes and flags; another of any comment of 0-2 bytes and secret from the same range; the same with 1-byte texts when a security key is stored, added or both")
	p := v.TempPath("db.json")
	var toks []*identity.MfaToken
	kind := v.Choose("kind", 4)
	lens, clens := []int{1, 2}, []int{0, 1, 2}
	if kind > 0 {
		lens, clens = []int{1}, []int{1}
	}
	sec := v.Pick("secret", "s1", "t", "zz")
	com := v.Str("comment", "graph", clens...)
	dup := false
	for i := 0; i < 2; i++ {
		s, c := v.Str("stored-secret", "graph", lens...), v.Str("stored-comment", "graph", clens...)
		k := mkTok("t"+string(rune('0'+i)), s, c)
		k.Disabled = v.Bool("disabled")
		if i == 0 && kind&1 == 1 {
			k.Type, k.Algorithm, k.Period, k.Digits = "u2f", "", 0, 0
			k.Parameters = mkStick(0, "credA").Parameters
		}
		toks = append(toks, k)
		dup = v.Or(dup, s == sec, c == com)
	}
	db := mfaDB(p, toks...)
	r := totpReq(sec, com, "", 300, 6, enrolCode(sec, "sha1", 6, 300))
	if kind&2 == 2 {
		r = u2fReq(b64(regDoc(nil)), sec)
		r.MfaToken.Comment = com
	}
	enrol(p, db, r, v.Not(dup), "refused exactly when the secret or comment is taken")
}

// C09_type: any token type.
func C09_type() {
	v.Bound("token types of 0, 3 and 4 printable bytes with otherwise proper requests")
	p := v.TempPath("db.json")
	db := mfaDB(p)
	r := totpReq("a-secret", "phone", "", 300, 6, enrolCode("a-secret", "sha1", 6, 300))
	typ := v.Str("type", "print", 0, 3, 4)
	r.MfaToken.Type = typ
	enrol(p, db, r, typ == "totp", "only known token types are enrolled")
}

// C09_list: listing and deletion.
func C09_list() {
	v.Bound("three tokens with arbitrary 2-byte IDs and flags; deletion by any ID of 0 or 2-3 printable bytes")
	p := v.TempPath("db.json")
	var toks []*identity.MfaToken
	var ids []string
	for i := 0; i < 3; i++ {
		ids = append(ids, v.Str("tid", "graph", 2))
		k := mkTok(ids[i], "s"+string(rune('0'+i)), "c"+string(rune('0'+i)))
		k.Disabled, k.Expired = v.Bool("disabled"), v.Bool("expired")
		toks = append(toks, k)
	}
	v.Assume(v.And(ids[0] != ids[1], ids[0] != ids[2], ids[1] != ids[2], ids[0] != "t0", ids[1] != "t0", ids[2] != "t0"))
	db := mfaDB(p, toks...)
	listed := func(d *identity.Database, but string) {
		l := listMfa(d, "bob")
		n := 0
		for i := range ids {
			in := false
			for _, k := range l {
				in = v.Or(in, v.And(k.ID == ids[i], k.Secret == "s"+string(rune('0'+i))))
			}
			v.Assert(v.Iff(in, v.And(v.Not(toks[i].Disabled), ids[i] != but)), "exactly the enabled tokens are listed")
			left := false
			for _, k := range d.Users[0].MfaTokens {
				left = v.Or(left, k.ID == ids[i])
			}
			v.Assert(v.Iff(left, ids[i] != but), "exactly the deleted token leaves the user's tokens")
			if in {
				n++
			}
		}
		v.Assert(len(l) == n, "nothing else is listed")
	}
	listed(db, "")
	id := v.Str("id", "print", 0, 2, 3)
	r := req("bob", "bob@x.io")
	r.MfaToken.ID = id
	before, a0, file := v.Full(db), v.Full(db.Users[1]), v.SnapFile(p)
	err := db.DeleteMfaToken(r)
	v.Assert(v.Iff(err == nil, v.Or(id == ids[0], id == ids[1], id == ids[2])), "exactly the user's token IDs can be deleted")
	v.Assert(v.Same(a0, v.Full(db.Users[1])), "other users keep theirs")
	if err != nil {
		v.Assert(v.Same(before, v.Full(db)), "an unknown ID changes nothing")
		v.Assert(v.Same(file, v.SnapFile(p)), "an unknown ID leaves the file")
	} else {
		v.Cover("deleted")
	}
	listed(db, id)
	listed(reopen(p), id)
}

// C09_secret: the secret is kept as it is.
func C09_secret() {
	v.Bound("secrets from a catalogue with white space and non-ASCII text; passcode of the current step or one of another secret")
	p := v.TempPath("db.json")
	db := mfaDB(p)
	sec := v.Pick("secret", " padded", "padded ", "\tpad\n", "a b", "JBSWY3DPEHPK3PXP", "jbswy3dp====", "caf\u00e9", "\u00a0x")
	other := v.Choose("other", 2) == 1
	s, c := uint64(time.Now().Unix()/300), ""
	if other {
		s := trim(sec)
		v.Assume(s != sec)
		c = enrolCode(s, "sha1", 6, 300)
	} else {
		c = totp(sec, "sha1", 6, s)
	}
	want := true
	if other {
		want = false
		for i := -3; i <= 1; i++ {
			want = v.Or(want, c == totp(sec, "sha1", 6, s+uint64(i)))
		}
		// which of the steps about now are accepted is not at issue
		v.Assume(v.Not(want))
	}
	if enrol(p, db, totpReq(sec, "phone", "", 300, 6, c), want, "a token is enrolled with a passcode of its secret as presented") {
		v.Assert(db.Users[0].MfaTokens[0].Secret == sec && reopen(p).Users[0].MfaTokens[0].Secret == sec, "the secret is stored as presented")
	}
}
