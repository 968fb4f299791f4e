package h

import (
	"encoding/base64"
	"strings"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/internal/zzverif/v"
	"github.com/greenpau/go-identity/pkg/requests"
)

var (
	coordX = "AAECAwQFBgcICQoLDA0ODxAREhMUFRYXGBkaGxwdHh8="
	coordY = "ICEiIyQlJicoKSorLC0uLzAxMjM0NTY3ODk6Ozw9Pj8="
)

// regDoc is a registration document with some fields replaced by other JSON
// texts, or left out when that is empty.
func regDoc(o map[string]string) string {
	field := func(k, name, dflt string) string {
		x, ok := o[k]
		if !ok {
			x = dflt
		}
		if x == "" {
			return ""
		}
		return `"` + name + `":` + x
	}
	obj := func(fs ...string) string {
		s := ""
		for _, f := range fs {
			if f == "" {
				continue
			}
			if s != "" {
				s += ","
			}
			s += f
		}
		return "{" + s + "}"
	}
	pk := obj(
		field("key_type", "key_type", "2"), field("algorithm", "algorithm", "-7"), field("curve_type", "curve_type", "1"),
		field("curve_x", "curve_x", `"`+coordX+`"`), field("curve_y", "curve_y", `"`+coordY+`"`), field("more", "other", ""))
	cd := obj(`"aaguid":"AAAA"`, `"credentialId":"BBBB"`, field("publicKey", "publicKey", pk))
	ad := obj(
		field("rpIdHash", "rpIdHash", `"5c1f"`), field("flags", "flags", `{"UP":true,"UV":false}`), field("signatureCounter", "signatureCounter", "7"),
		field("credentialData", "credentialData", cd))
	ao := obj(field("attStmt", "attStmt", ""), field("authData", "authData", ad), `"fmt":"packed"`)
	return obj(
		field("id", "id", `"cred"`), field("type", "type", `"public-key"`), field("transports", "transports", `["usb","nfc"]`),
		`"success":true`, field("attestationObject", "attestationObject", ao))
}

func u2fReq(doc, challenge string) *requests.Request {
	r := req("bob", "bob@x.io")
	r.MfaToken.Type, r.MfaToken.Comment = "u2f", "stick"
	r.WebAuthn.Register, r.WebAuthn.Challenge = doc, challenge
	return r
}

// u2fDB is a database in which bob holds one TOTP token.
func u2fDB(p string) *identity.Database { return mfaDB(p, mkTok("t1", "bob-secret", "bob-phone")) }

// regWant is what a stored token must say.
type regWant struct {
	params  map[string]string
	flags   map[string]bool
	counter uint32
}

func wantReg() *regWant {
	return &regWant{params: map[string]string{"rp_id_hash": "5c1f", "u2f_id": "cred", "u2f_type": "public-key", "u2f_transports": "usb,nfc",
		"key_type": "ec2", "key_algo": "es256", "curve_type": "p256", "curve_xcoord": coordX, "curve_ycoord": coordY},
		flags: map[string]bool{"UP": true, "UV": false}, counter: 7}
}

func register(doc, challenge string, ok bool, w *regWant) {
	p := v.TempPath("db.json")
	db := u2fDB(p)
	before, file := v.Full(db), v.SnapFile(p)
	err := db.AddMfaToken(u2fReq(doc, challenge))
	v.Assert(v.Iff(err == nil, ok), "registered exactly when the document is that of a supported key")
	if err != nil {
		v.Assert(v.Same(before, v.Full(db)), "a refused registration changes nothing")
		v.Assert(v.Same(file, v.SnapFile(p)), "a refused registration leaves the file")
		v.Cover("refused")
		return
	}
	v.Cover("registered")
	for _, d := range []*identity.Database{db, reopen(p)} {
		l := d.Users[0].MfaTokens
		v.Assert(len(l) == 2, "one token is added")
		k := l[1]
		v.Assert(v.And(k.Type == "u2f", k.Secret == challenge, k.Comment == "stick", v.Not(k.Disabled), v.Not(k.Expired), len(k.ID) == 40, k.SignatureCounter == w.counter), "the token's record")
		v.Assert(v.Same(v.Snap(k.Parameters), v.Snap(w.params)), "the token's parameters are those attested")
		v.Assert(len(k.Flags) == len(w.flags), "the token's flags are those attested")
		for f, on := range w.flags {
			v.Assert(k.Flags[f] == on, "the token's flags are those attested")
		}
	}
}

func b64(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) }

// variants of the JSON text of one field and whether each is acceptable.
type regCase struct {
	text string
	ok   bool
	set  func(w *regWant)
}

func regParam(k, val string) func(w *regWant) {
	return func(w *regWant) { w.params[k] = val }
}

func regCases() map[string][]regCase {
	no := func(ts ...string) (l []regCase) {
		for _, t := range ts {
			l = append(l, regCase{text: t})
		}
		return
	}
	yes := func(t string, f func(w *regWant)) []regCase { return []regCase{{t, true, f}} }
	same := func(w *regWant) {}
	j := func(ls ...[]regCase) (l []regCase) {
		for _, x := range ls {
			l = append(l, x...)
		}
		return
	}
	flag := func(m map[string]bool) func(w *regWant) { return func(w *regWant) { w.flags = m } }
	ctr := func(n uint32) func(w *regWant) { return func(w *regWant) { w.counter = n } }
	return map[string][]regCase{
		"id":   j(no("", `""`, "null", "1", "true", "[]", "{}"), yes(`"a\"\u00e9\\b"`, regParam("u2f_id", "a\"é\\b"))),
		"type": no("", `""`, "null", "2", "true", `["public-key"]`, `"Public-Key"`, `"public-key "`, `"password"`),
		"transports": j(no(`"usb"`, "1", `[1]`, `[""]`, `["usb",""]`, `["usb","wifi"]`, `["USB"]`, `[[]]`, `{}`, `[null]`),
			yes("", regParam("u2f_transports", "")), yes("null", regParam("u2f_transports", "")), yes("[]", regParam("u2f_transports", "")),
			yes(`["internal","ble","nfc","usb"]`, regParam("u2f_transports", "internal,ble,nfc,usb"))),
		"attestationObject": no("", "null", "{}", "[]", "1", `"x"`, "true"),
		"authData":          no("", "null", "{}", "[]", "1", `"x"`, "true"),
		"rpIdHash":          j(no("", "null", `""`, "1", "[]"), yes(`"A b\n"`, regParam("rp_id_hash", "A b\n"))),
		"flags": j(no("", "null", "1", "[]", `"UP"`, `{"UP":1}`, `{"UP":"true"}`),
			yes("{}", flag(map[string]bool{})), yes(`{"UP":null}`, flag(map[string]bool{"UP": false})), yes(`{"UP":false,"x":true}`, flag(map[string]bool{"UP": false, "x": true}))),
		"signatureCounter": j(no(`"7"`, "-1", "4294967296", "1.5", "true", "[]", "1e2"),
			yes("", ctr(0)), yes("null", ctr(0)), yes("0", ctr(0)), yes("4294967295", ctr(1<<32-1))),
		"credentialData": no("", "null", "{}", "[]", "1", `"x"`),
		"publicKey":      no("", "null", "{}", "[]", "1", `"x"`),
		"key_type":       j(no("", "null", `"2"`, "3", "1", "-2", "2.5", "true", "[2]", "{}", "1e999"), yes("2.0", same), yes("2e0", same), yes("0.2e1", same)),
		"algorithm":      j(no("", "null", `"-7"`, "7", "-8", "-257", "-7.5", "false", "[-7]", "{}"), yes("-7.0", same), yes("-70e-1", same)),
		"curve_type":     j(no("null", `"1"`, "2", "0", "-1", "1.5", "true", "[1]", "{}"), yes("1.0", same), yes("", regParam("curve_type", ""))),
		"curve_x":        j(no("null", "1", "true", "[]", "{}", "1.5"), yes("", regParam("curve_xcoord", "")), yes(`"x"`, regParam("curve_xcoord", "x"))),
		"curve_y":        j(no("null", "1", "true", "[]", "{}", "1.5"), yes("", regParam("curve_ycoord", "")), yes(`"y"`, regParam("curve_ycoord", "y"))),
		"more":           j(yes("1", same), yes("null", same), yes(`{"a":[1,"b",null]}`, same)),
		"attStmt":        j(yes("null", same), yes("{}", same), yes(`{"alg":-7,"sig":"s","x5c":["a"]}`, same), no("1", `{"alg":"x"}`, `{"x5c":"a"}`, `{"alg":1.5}`)),
	}
}

var regFields = []string{"id", "type", "transports", "attestationObject", "authData", "rpIdHash", "flags", "signatureCounter", "credentialData", "publicKey",
	"key_type", "algorithm", "curve_type", "curve_x", "curve_y", "more", "attStmt"}

// C12_fields: each field absent, of another JSON type, or at a limit.
func C12_fields() {
	v.Bound("every field of the document (thorough: every pair of fields) absent, null, of every other JSON type, or with values at the limits, and the remaining fields proper in three ways")
	cases := regCases()
	w := wantReg()
	o := map[string]string{}
	ok := true
	switch v.Choose("base", 3) {
	case 1:
		o["flags"], w.flags = `{"UP":true,"RFU1":false,"UV":true,"RFU2a":false,"RFU2b":false,"RFU2c":false,"AT":true,"ED":true}`, map[string]bool{"UP": true, "RFU1": false, "UV": true, "RFU2a": false, "RFU2b": false, "RFU2c": false, "AT": true, "ED": true}
		o["transports"], o["signatureCounter"] = `["internal"]`, "0"
		w.params["u2f_transports"], w.counter = "internal", 0
	case 2:
		o["flags"], w.flags = `{"UP":false,"AT":false}`, map[string]bool{"UP": false, "AT": false}
		o["attStmt"] = `{"alg":-7,"sig":"s","x5c":["a"]}`
	}
	n := 1
	if v.Thorough() {
		n = 2
	}
	at := 0
	for i := 0; i < n; i++ {
		at += v.Choose("field", len(regFields)-at)
		f := regFields[at]
		l := cases[f]
		c := l[v.Choose("case", len(l))]
		o[f] = c.text
		if !c.ok {
			ok = false
		} else {
			c.set(w)
		}
		if at == len(regFields)-1 {
			break
		}
		at++
	}
	// a field within one that is replaced does not matter
	_, a := o["attestationObject"]
	_, b := o["authData"]
	_, c := o["credentialData"]
	_, d := o["publicKey"]
	if a || b || c || d {
		ok = false
	}
	if a {
		// the parts do not appear at all, but the outer fields are judged
		ok = false
	}
	register(b64(regDoc(o)), "challenge", ok, w)
}

// C12_values: arbitrary text in the fields of type string.
func C12_values() {
	v.Bound("credential ID, type, hash, coordinates and one transport of any 0-10 bytes without quotes, backslashes and control characters; counters of 1-10 digits; numbers of 1-3 characters for the key type, algorithm and curve")
	w := wantReg()
	o := map[string]string{}
	ok := true
	q := func(s string) string { return `"` + s + `"` }
	const cls = "set: !#$%&'()*+,-./0123456789:;<=>?@ABCZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~"
	str := func(lens ...int) string { return v.Str("text", cls, lens...) }
	switch v.Choose("field", 10) {
	case 0:
		s := str(0, 1, 4)
		o["id"], w.params["u2f_id"], ok = q(s), s, s != ""
	case 1:
		s := str(0, 9, 10, 11)
		o["type"], ok = q(s), s == "public-key"
	case 2:
		s := str(0, 1, 4)
		o["rpIdHash"], w.params["rp_id_hash"], ok = q(s), s, s != ""
	case 3:
		s := str(0, 1, 4)
		o["curve_x"], w.params["curve_xcoord"] = q(s), s
	case 4:
		s := str(0, 1, 4)
		o["curve_y"], w.params["curve_ycoord"] = q(s), s
	case 5:
		s := str(0, 3, 4, 5, 6, 7, 8)
		o["transports"], w.params["u2f_transports"] = `["usb",`+q(s)+`]`, "usb,"+s
		ok = v.Or(s == "usb", s == "nfc", s == "ble", s == "internal")
	case 6:
		s := v.Str("num", "set:0123456789", 1, 2, 3)
		v.Assume(v.Or(len(s) == 1, s[0] != '0'))
		o["key_type"], ok = s, s == "2"
	case 7:
		s := v.Str("num", "set:0123456789", 1, 2)
		v.Assume(s[0] != '0')
		o["algorithm"], ok = "-"+s, s == "7"
	case 8:
		s := v.Str("num", "set:0123456789", 1, 2)
		v.Assume(v.Or(len(s) == 1, s[0] != '0'))
		o["curve_type"], ok = s, s == "1"
	case 9:
		s := v.Str("num", "set:0123456789", 1, 3)
		v.Assume(v.Or(len(s) == 1, s[0] != '0'))
		o["signatureCounter"], w.counter = s, 0
		for i := 0; i < len(s); i++ {
			w.counter = w.counter*10 + uint32(s[i]-'0')
		}
	}
	register(b64(regDoc(o)), "challenge", ok, w)
}

// C12_text: documents which are no such JSON at all.
func C12_text() {
	v.Bound("registrations of 0-3 and 5 bytes of the base64 alphabet and others, JSON values of every type, truncated and doubled documents; empty challenges")
	doc := regDoc(nil)
	switch v.Choose("kind", 4) {
	case 0:
		register(v.Str("raw", "set:ABCXYZabcxyz0189+/!~ -_.", 0, 1, 2, 3, 5), "challenge", false, nil)
	case 1:
		alt := []string{"", "null", "1", `"x"`, "[]", "{}", "true", "nul", "{", doc[:len(doc)-1], doc + "x", doc + doc, "[" + doc + "]", strings.Replace(doc, ":", ";", 1), " \n"}
		register(b64(alt[v.Choose("doc", len(alt))]), "challenge", false, nil)
	case 2:
		e := b64(doc)
		alt := []string{"", "!" + e, e + "!", e[:len(e)-1], e + "AAAA", doc}
		register(alt[v.Choose("doc", len(alt))], "challenge", false, nil)
	case 3:
		c := v.Str("challenge", "print", 0, 1, 4)
		v.Assume(c != "bob-secret")
		w := wantReg()
		register(b64(" "+doc+"\n"), c, c != "", w)
	}
}
