package main

import (
	"bytes"
	"crypto/hmac"
	"crypto/md5"
	"crypto/rsa"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"encoding/pem"
	"fmt"
	"go/types"
	"hash"
	"sort"
	"strings"

	"golang.org/x/crypto/bcrypt"
	"golang.org/x/crypto/openpgp"
	"golang.org/x/crypto/ssh"
	"golang.org/x/tools/go/ssa"
)

// Cryptography is idealised at the API (see DESIGN.md, trusted base):
//   - bcrypt: a hash verifies exactly the passwords with the same effective
//     72-byte key; nothing else collides
//   - sha-2: collision free; HMAC: an arbitrary function of key and message
//   - ECDSA: a signature verifies exactly under the key that made it and for
//     the data it was made for

type bcEntry struct {
	hash string
	cost int
	eff  []*Term
}

// ufApp is one application of an uninterpreted function.
type ufApp struct {
	real func(k, m []byte) []byte
	fn   string
	key  []*Term
	in   []*Term
	out  []*Term
}

type sigEntry struct {
	x, y []*Term
	data []*Term
	sig  []*Term
}

func (p *Path) bcEff(pw []*Term) []*Term {
	k := append(append([]*Term(nil), pw...), p.cint(8, 0))
	r := make([]*Term, 72)
	for i := range r {
		r[i] = k[i%len(k)]
	}
	return r
}

func (p *Path) bcryptErr(name string) Iface {
	msg := map[string]string{
		"ErrMismatchedHashAndPassword": bcrypt.ErrMismatchedHashAndPassword.Error(),
		"ErrHashTooShort":              bcrypt.ErrHashTooShort.Error(),
	}[name]
	return p.oserr("bcrypt."+name, msg)
}

func (p *Path) bcryptHash(pw []*Term, cost int) Str {
	if cost < bcrypt.MinCost {
		cost = bcrypt.DefaultCost
	}
	p.w.bcWork += 1 << cost
	const al = "./ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"
	n := len(p.w.bcList) + 1
	tail := []byte(strings.Repeat("k", 53))
	for i := range tail {
		tail[i] = al[(i*i*7+n*13*(i+1)+i*5+n/64*(i+3))%64]
	}
	h := fmt.Sprintf("$2a$%02d$%s", cost, tail)
	if p.w.bc[h] != nil {
		p.unsupported("too many bcrypt hashes")
	}
	e := &bcEntry{hash: h, cost: cost, eff: p.bcEff(pw)}
	p.w.bc[h] = e
	p.w.bcList = append(p.w.bcList, e)
	return mkstr(h)
}

func (p *Path) sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// uf applies an uninterpreted function with functional consistency, and
// injectivity when inj is set. real computes concrete applications.
func (p *Path) uf(fn string, key, in []*Term, n int, inj bool, real func(k, m []byte) []byte) []*Term {
	for _, a := range p.w.hashes {
		if a.fn == fn && p.sameTerms(a.key, key) && p.sameTerms(a.in, in) {
			return a.out
		}
	}
	key, in = p.pinned(key), p.pinned(in)
	app := &ufApp{fn: fn, key: key, in: in, real: real}
	kc, ok1 := termsConcrete(key)
	ic, ok2 := termsConcrete(in)
	conc := ok1 && ok2
	if conc {
		for _, x := range real(kc, ic) {
			app.out = append(app.out, p.cint(8, uint64(x)))
		}
	} else {
		p.ufUsed = true
		for i := 0; i < n; i++ {
			app.out = append(app.out, p.fresh(8, fn))
		}
	}
	for _, a := range p.w.hashes {
		if a.fn != fn || conc && a.out[0].isConst() {
			continue
		}
		same := p.bd.And(p.bytesEq(a.key, key), p.bytesEq(a.in, in))
		if same.isFalse() && !inj {
			continue
		}
		oeq := p.bytesEq(a.out, app.out)
		c := p.bd.Or(p.bd.Not(same), oeq)
		if inj {
			c = p.bd.And(c, p.bd.Or(same, p.bd.Not(oeq)))
		}
		p.assumeUF(c)
	}
	p.w.hashes = append(p.w.hashes, app)
	return app.out
}

// lemmas returns the true instances of the functions' graphs which the model
// contradicts.
func (p *Path) lemmas(m Model) []*Term {
	p.bd.ResetEval()
	var out []*Term
	val := func(ts []*Term) ([]byte, []*Term) {
		b := make([]byte, len(ts))
		c := make([]*Term, len(ts))
		for i, t := range ts {
			b[i] = byte(p.bd.Eval(t, m))
			c[i] = p.cint(8, uint64(b[i]))
		}
		return b, c
	}
	for _, a := range p.w.hashes {
		if a.out[0].isConst() {
			continue
		}
		kb, kc := val(a.key)
		ib, ic := val(a.in)
		var oc []*Term
		for _, x := range a.real(kb, ib) {
			oc = append(oc, p.cint(8, uint64(x)))
		}
		oeq := p.bytesEq(a.out, oc)
		if p.bd.Eval(oeq, m) == 1 {
			continue
		}
		same := p.bd.And(p.bytesEq(a.key, kc), p.bytesEq(a.in, ic))
		out = append(out, p.bd.Or(p.bd.Not(same), oeq))
	}
	return out
}

// pinned replaces terms which have only one value on this path by it, when
// that holds for all of them.
func (p *Path) pinned(ts []*Term) []*Term {
	n := 0
	for _, t := range ts {
		if !t.isConst() {
			n++
		}
	}
	if n == 0 || n > 16 {
		return ts
	}
	p.bd.ResetEval()
	r := make([]*Term, len(ts))
	for i, t := range ts {
		r[i] = p.bd.Const(t.w, p.bd.Eval(t, p.model))
	}
	eq := p.bytesEq(ts, r)
	if k, ok := p.known(eq); ok && k {
		return r
	}
	if res, _ := p.query(p.bd.Not(eq)); res == Unsat {
		p.learn(eq, true)
		return r
	}
	return ts
}

// assumeUF adds an axiom about fresh variables, repairing the model.
func (p *Path) assumeUF(c *Term) { p.assume(c) }

type hashObj struct {
	algo string
	hmac bool
	key  []*Term
	data []*Term
}

var hashCtor = map[string]func() hash.Hash{"md5": md5.New, "sha1": sha1.New, "sha256": sha256.New, "sha512": sha512.New, "sha224": sha256.New224, "sha384": sha512.New384}
var hashBlock = map[string]int{"md5": 64, "sha1": 64, "sha256": 64, "sha512": 128, "sha224": 64, "sha384": 128}

func (p *Path) nativeType(name string) types.Type {
	p.e.mmu.Lock()
	defer p.e.mmu.Unlock()
	if p.e.ntypes == nil {
		p.e.ntypes = map[string]types.Type{}
	}
	if t, ok := p.e.ntypes[name]; ok {
		return t
	}
	t := types.NewPointer(types.NewNamed(types.NewTypeName(0, nil, name, nil), types.NewStruct(nil, nil), nil))
	p.e.ntypes[name] = t
	return t
}

func (p *Path) hashSum(o *hashObj) []*Term {
	ctor := hashCtor[o.algo]
	n := ctor().Size()
	if !o.hmac {
		return p.uf(o.algo, nil, o.data, n, true, func(_, m []byte) []byte {
			h := ctor()
			h.Write(m)
			return h.Sum(nil)
		})
	}
	bs := hashBlock[o.algo]
	key := o.key
	if len(key) > bs {
		kh := &hashObj{algo: o.algo, data: key}
		key = p.hashSum(kh)
	}
	key = append([]*Term(nil), key...)
	for len(key) < bs {
		key = append(key, p.cint(8, 0))
	}
	return p.uf("hmac-"+o.algo, key, o.data, n, false, func(k, m []byte) []byte {
		h := hmac.New(ctor, k)
		h.Write(m)
		return h.Sum(nil)
	})
}

func structField(t types.Type, name string) int {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func (p *Path) bigBytes(v Value) []*Term {
	c := p.ptr(v)
	b, ok := p.w.bigs[c]
	if !ok {
		p.unsupported("big.Int not built by SetBytes")
	}
	return b
}

// padEq compares big-endian integers.
func (p *Path) padEq(a, b []*Term) *Term {
	for len(a) < len(b) {
		a = append([]*Term{p.cint(8, 0)}, a...)
	}
	for len(b) < len(a) {
		b = append([]*Term{p.cint(8, 0)}, b...)
	}
	return p.bytesEq(a, b)
}

// ecdsaKey returns the coordinates of an *ecdsa.PublicKey value.
func (p *Path) ecdsaKey(v Value) ([]*Term, []*Term) {
	s := (*p.ptr(v)).(Struct)
	t := p.e.namedType("crypto/ecdsa", "PublicKey")
	x, y := s[structField(t, "X")], s[structField(t, "Y")]
	return p.bigBytes(x), p.bigBytes(y)
}

func regCrypto() {
	// ---- bcrypt
	bc := "golang.org/x/crypto/bcrypt."
	regv(bc+"GenerateFromPassword", func(p *Path, a []Value) Value {
		pw := sliceTerms(a[0])
		cost := p.intOf(a[1])
		if cost > bcrypt.MaxCost {
			return Tuple{SliceV{}, p.newError(bcrypt.InvalidCostError(cost).Error())}
		}
		h := p.bcryptHash(pw, cost)
		return Tuple{p.termsVal(p.sbytes(h)), Iface{}}
	})
	regv(bc+"CompareHashAndPassword", func(p *Path, a []Value) Value {
		hb, ok := termsConcrete(sliceTerms(a[0]))
		if ok {
			if c, err := bcrypt.Cost(hb); err == nil {
				p.w.bcWork += 1 << c
			}
		}
		pw := sliceTerms(a[1])
		mm := p.bcryptErr("ErrMismatchedHashAndPassword")
		if !ok {
			// an arbitrary stored text: it verifies only if it is one of
			// the hashes made so far
			ht := sliceTerms(a[0])
			for _, e := range p.w.bcList {
				if p.branch(p.bytesEq(ht, p.sbytes(mkstr(e.hash)))) {
					p.w.bcWork += 1 << e.cost
					if p.branch(p.bytesEq(e.eff, p.bcEff(pw))) {
						return Iface{}
					}
					return mm
				}
			}
			if len(ht) >= 59 {
				p.unsupported("symbolic bcrypt hash")
			}
			return p.bcryptErr("ErrHashTooShort")
		}
		if e, ok := p.w.bc[string(hb)]; ok {
			if p.branch(p.bytesEq(e.eff, p.bcEff(pw))) {
				return Iface{}
			}
			return mm
		}
		if pc, ok := termsConcrete(pw); ok {
			err := bcrypt.CompareHashAndPassword(hb, pc)
			switch err {
			case nil:
				return Iface{}
			case bcrypt.ErrMismatchedHashAndPassword:
				return mm
			case bcrypt.ErrHashTooShort:
				return p.bcryptErr("ErrHashTooShort")
			}
			return p.newError(err.Error())
		}
		if _, err := bcrypt.Cost(hb); err != nil {
			if err == bcrypt.ErrHashTooShort {
				return p.bcryptErr("ErrHashTooShort")
			}
			return p.newError(err.Error())
		}
		p.unsupported("unknown bcrypt hash and symbolic password")
		return nil
	})
	bridge(bc+"Cost", func(h []byte) (int, error) { return bcrypt.Cost(h) }, nil)

	// ---- hashes
	mkHash := func(algo string) methodFn {
		return func(p *Path, a []Value) Value {
			return Iface{t: p.nativeType("digest"), v: &NativeObj{kind: "hash", x: &hashObj{algo: algo}}}
		}
	}
	regv("crypto/sha1.New", mkHash("sha1"))
	regv("crypto/sha256.New", mkHash("sha256"))
	regv("crypto/md5.New", mkHash("md5"))
	regv("crypto/sha256.New224", mkHash("sha224"))
	regv("crypto/sha512.New", mkHash("sha512"))
	regv("crypto/sha512.New384", mkHash("sha384"))
	regv("crypto/hmac.New", func(p *Path, a []Value) Value {
		h := p.call(a[0], nil).(Iface)
		algo := h.v.(*NativeObj).x.(*hashObj).algo
		return Iface{t: p.nativeType("hmac"), v: &NativeObj{kind: "hash", x: &hashObj{algo: algo, hmac: true, key: sliceTerms(a[1])}}}
	})
	regv("crypto/hmac.Equal", func(p *Path, a []Value) Value { return p.bytesEq(sliceTerms(a[0]), sliceTerms(a[1])) })
	ho := func(v Value) *hashObj { return v.(*NativeObj).x.(*hashObj) }
	nativeMethods["hash.Write"] = func(p *Path, a []Value) Value {
		o := ho(a[0])
		b := sliceTerms(a[1])
		o.data = append(o.data[:len(o.data):len(o.data)], b...)
		return Tuple{p.intv(len(b)), Iface{}}
	}
	nativeMethods["hash.Sum"] = func(p *Path, a []Value) Value {
		s := append([]Value(nil), a[1].(SliceV).a...)
		for _, t := range p.hashSum(ho(a[0])) {
			s = append(s, t)
		}
		return SliceV{s}
	}
	nativeMethods["hash.Reset"] = func(p *Path, a []Value) Value { ho(a[0]).data = nil; return nil }
	nativeMethods["hash.Size"] = func(p *Path, a []Value) Value { return p.intv(hashCtor[ho(a[0]).algo]().Size()) }
	nativeMethods["hash.BlockSize"] = func(p *Path, a []Value) Value { return p.intv(hashBlock[ho(a[0]).algo]) }
	sum := func(algo string) methodFn {
		return func(p *Path, a []Value) Value {
			out := p.hashSum(&hashObj{algo: algo, data: sliceTerms(a[0])})
			r := make(Array, len(out))
			for i, t := range out {
				r[i] = t
			}
			return r
		}
	}
	regv("crypto/sha1.Sum", sum("sha1"))
	regv("crypto/sha256.Sum256", sum("sha256"))
	regv("crypto/sha512.Sum512", sum("sha512"))
	regv("crypto/md5.Sum", sum("md5"))
	regv("crypto/sha256.Sum224", sum("sha224"))
	regv("crypto/sha512.Sum384", sum("sha384"))
	regv("crypto/subtle.ConstantTimeCompare", func(p *Path, a []Value) Value {
		x, y := sliceTerms(a[0]), sliceTerms(a[1])
		return p.bd.Ite(p.bytesEq(x, y), p.intv(1), p.intv(0))
	})

	// ---- ECDSA
	regv("(*math/big.Int).SetBytes", func(p *Path, a []Value) Value {
		p.w.bigs[p.ptr(a[0])] = sliceTerms(a[1])
		return a[0]
	})
	regv("(*math/big.Int).Cmp", func(p *Path, a []Value) Value {
		x, y := p.bigBytes(a[0]), p.bigBytes(a[1])
		for len(x) < len(y) {
			x = append([]*Term{p.cint(8, 0)}, x...)
		}
		for len(y) < len(x) {
			y = append([]*Term{p.cint(8, 0)}, y...)
		}
		lt := p.strLt(Str{b: x}, Str{b: y})
		return p.bd.Ite(p.bytesEq(x, y), p.intv(0), p.bd.Ite(lt, p.intv(-1), p.intv(1)))
	})
	for _, c := range []string{"P224", "P256", "P384", "P521"} {
		regv("crypto/elliptic."+c, func(p *Path, a []Value) Value {
			return Iface{t: p.nativeType("curve" + c), v: &NativeObj{kind: "curve", x: c}}
		})
	}
	verify := func(p *Path, x, y []*Term, sig []*Term, data func(e *sigEntry) *Term) *Term {
		r := p.bd.F
		for _, e := range p.w.sigs {
			c := p.bd.And(p.bytesEq(sig, e.sig), p.bd.And(p.padEq(x, e.x), p.padEq(y, e.y)))
			if c.isFalse() {
				continue
			}
			r = p.bd.Or(r, p.bd.And(c, data(e)))
		}
		return r
	}
	regv("(*crypto/x509.Certificate).CheckSignature", func(p *Path, a []Value) Value {
		ct := p.e.namedType("crypto/x509", "Certificate")
		c := (*p.ptr(a[0])).(Struct)
		pk := c[structField(ct, "PublicKey")].(Iface)
		algo := p.intOf(a[1])
		if pk.t == nil {
			return p.newError("x509: cannot verify signature: algorithm unimplemented")
		}
		if pk.t.String() != "*crypto/ecdsa.PublicKey" {
			p.unsupported("CheckSignature with " + pk.t.String())
		}
		x, y := p.ecdsaKey(pk.v)
		data, sig := sliceTerms(a[2]), sliceTerms(a[3])
		if algo != int(x509.ECDSAWithSHA256) {
			return p.newError("x509: signature algorithm")
		}
		if p.branch(verify(p, x, y, sig, func(e *sigEntry) *Term { return p.bytesEq(data, e.data) })) {
			return Iface{}
		}
		return p.newError("x509: ECDSA verification failure")
	})
	regv("crypto/ecdsa.VerifyASN1", func(p *Path, a []Value) Value {
		x, y := p.ecdsaKey(a[0])
		h, sig := sliceTerms(a[1]), sliceTerms(a[2])
		return verify(p, x, y, sig, func(e *sigEntry) *Term {
			return p.bytesEq(h, p.hashSum(&hashObj{algo: "sha256", data: e.data}))
		})
	})

	// ---- public keys: real implementations on concrete encodings
	conc := func(p *Path, v Value, what string) []byte {
		b, ok := termsConcrete(p.strB(v))
		if !ok {
			p.unsupported("symbolic bytes in " + what)
		}
		return b
	}
	regv("encoding/pem.Decode", func(p *Path, a []Value) Value {
		in := conc(p, a[0], "pem.Decode")
		blk, rest := pem.Decode(in)
		if blk == nil {
			return Tuple{(*Value)(nil), p.bytesVal(rest)}
		}
		t := p.e.namedType("encoding/pem", "Block")
		s := p.zero(t).(Struct)
		s[structField(t, "Type")] = mkstr(blk.Type)
		s[structField(t, "Bytes")] = p.bytesVal(blk.Bytes)
		m := newMap()
		for k, v := range blk.Headers {
			p.mapSet(m, mkstr(k), mkstr(v))
		}
		s[structField(t, "Headers")] = m
		return Tuple{cell(s), p.bytesVal(rest)}
	})
	regv("encoding/pem.EncodeToMemory", func(p *Path, a []Value) Value {
		t := p.e.namedType("encoding/pem", "Block")
		s := (*p.ptr(a[0])).(Struct)
		b := &pem.Block{Type: p.pstr(s[structField(t, "Type")]), Bytes: conc(p, s[structField(t, "Bytes")], "pem.Encode")}
		return p.bytesVal(pem.EncodeToMemory(b))
	})
	wrapKey := func(p *Path, k any) Value {
		switch k.(type) {
		case *rsa.PublicKey:
			return Iface{t: types.NewPointer(p.e.namedType("crypto/rsa", "PublicKey")), v: &NativeObj{kind: "gokey", x: k}}
		}
		return Iface{t: p.nativeType(fmt.Sprintf("%T", k)), v: &NativeObj{kind: "gokey", x: k}}
	}
	regv("crypto/x509.ParsePKIXPublicKey", func(p *Path, a []Value) Value {
		k, err := x509.ParsePKIXPublicKey(conc(p, a[0], "ParsePKIXPublicKey"))
		if err != nil {
			return Tuple{Iface{}, p.newError(err.Error())}
		}
		return Tuple{wrapKey(p, k), Iface{}}
	})
	regv("crypto/x509.MarshalPKIXPublicKey", func(p *Path, a []Value) Value {
		b, err := x509.MarshalPKIXPublicKey(p.native(a[0].(Iface).v, "gokey"))
		if err != nil {
			return Tuple{SliceV{}, p.newError(err.Error())}
		}
		return Tuple{p.bytesVal(b), Iface{}}
	})
	wrapSSH := func(p *Path, k ssh.PublicKey) Value {
		tn := "rsaPublicKey"
		switch k.Type() {
		case ssh.KeyAlgoRSA:
		default:
			return Iface{t: p.nativeType("ssh:" + k.Type()), v: &NativeObj{kind: "sshkey", x: k}}
		}
		return Iface{t: types.NewPointer(p.e.namedType("golang.org/x/crypto/ssh", tn)), v: &NativeObj{kind: "sshkey", x: k}}
	}
	sp := "golang.org/x/crypto/ssh."
	regv(sp+"NewPublicKey", func(p *Path, a []Value) Value {
		k, err := ssh.NewPublicKey(p.native(a[0].(Iface).v, "gokey"))
		if err != nil {
			return Tuple{Iface{}, p.newError(err.Error())}
		}
		return Tuple{wrapSSH(p, k), Iface{}}
	})
	regv(sp+"ParsePublicKey", func(p *Path, a []Value) Value {
		k, err := ssh.ParsePublicKey(conc(p, a[0], "ssh.ParsePublicKey"))
		if err != nil {
			return Tuple{Iface{}, p.newError(err.Error())}
		}
		return Tuple{wrapSSH(p, k), Iface{}}
	})
	key := func(p *Path, v Value) ssh.PublicKey {
		i := v.(Iface)
		if i.t == nil {
			p.gopanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		return p.native(i.v, "sshkey").(ssh.PublicKey)
	}
	regv(sp+"FingerprintLegacyMD5", func(p *Path, a []Value) Value { return mkstr(ssh.FingerprintLegacyMD5(key(p, a[0]))) })
	regv(sp+"FingerprintSHA256", func(p *Path, a []Value) Value { return mkstr(ssh.FingerprintSHA256(key(p, a[0]))) })
	regv(sp+"MarshalAuthorizedKey", func(p *Path, a []Value) Value { return p.bytesVal(ssh.MarshalAuthorizedKey(key(p, a[0]))) })
	nativeMethods["sshkey.Type"] = func(p *Path, a []Value) Value { return mkstr(p.native(a[0], "sshkey").(ssh.PublicKey).Type()) }
	nativeMethods["sshkey.Marshal"] = func(p *Path, a []Value) Value {
		return p.bytesVal(p.native(a[0], "sshkey").(ssh.PublicKey).Marshal())
	}
	nativeMethods["sshkey.CryptoPublicKey"] = func(p *Path, a []Value) Value {
		return wrapKey(p, p.native(a[0], "sshkey").(ssh.CryptoPublicKey).CryptoPublicKey())
	}
	regv("golang.org/x/crypto/openpgp.ReadArmoredKeyRing", func(p *Path, a []Value) Value {
		r := a[0].(Iface)
		buf := (*p.ptr(r.v)).(Struct)
		bt := p.e.namedType("bytes", "Buffer")
		if !strings.HasSuffix(r.t.String(), "bytes.Buffer") {
			p.unsupported("ReadArmoredKeyRing reader " + r.t.String())
		}
		b := conc(p, buf[structField(bt, "buf")], "ReadArmoredKeyRing")
		kr, err := openpgp.ReadArmoredKeyRing(bytes.NewReader(b))
		if err != nil {
			return Tuple{SliceV{}, p.newError(err.Error())}
		}
		et := p.e.namedType("golang.org/x/crypto/openpgp", "Entity")
		pt := p.e.namedType("golang.org/x/crypto/openpgp/packet", "PublicKey")
		it := p.e.namedType("golang.org/x/crypto/openpgp", "Identity")
		var out []Value
		for _, e := range kr {
			pk := p.zero(pt).(Struct)
			k := e.PrimaryKey
			pk[structField(pt, "KeyId")] = p.cint(64, k.KeyId)
			fp := make(Array, len(k.Fingerprint))
			for i, c := range k.Fingerprint {
				fp[i] = p.cint(8, uint64(c))
			}
			pk[structField(pt, "Fingerprint")] = fp
			pk[structField(pt, "PubKeyAlgo")] = p.cint(8, uint64(k.PubKeyAlgo))
			pk[structField(pt, "CreationTime")] = p.mkTime(p.cint(64, uint64(k.CreationTime.Unix())), p.cint(64, 0), false)
			m := newMap()
			var names []string
			for n := range e.Identities {
				names = append(names, n)
			}
			sort.Strings(names)
			for _, n := range names {
				is := p.zero(it).(Struct)
				is[structField(it, "Name")] = mkstr(e.Identities[n].Name)
				p.mapSet(m, mkstr(n), cell(is))
			}
			es := p.zero(et).(Struct)
			es[structField(et, "PrimaryKey")] = cell(pk)
			es[structField(et, "Identities")] = m
			out = append(out, cell(es))
		}
		return Tuple{SliceV{out}, Iface{}}
	})
}

var _ *ssa.Function
