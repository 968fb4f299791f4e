package h

import (
	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/internal/zzverif/v"
)

func allIn(s, cls string) bool {
	ok := true
	for i := 0; i < len(s); i++ {
		ok = v.And(ok, v.In(s[i], cls))
	}
	return ok
}

var longLens = []int{255, 256, 257, 1000, 4097, 70000}

// C25_fixed: strings of a requested length.
func C25_fixed() {
	v.Bound("lengths -3..12, 40, 72, 255-257, 1000, 4097, 70000 and the extreme negative integers; every draw arbitrary")
	v.SymRand()
	n := 0
	switch v.Choose("len", 6) {
	case 0:
		n = v.Int("n", -3, 12)
	case 1:
		n = 40
	case 2:
		n = 72
	case 3:
		n = -1 << 63
	case 4:
		n = -1 - 1<<31
	case 5:
		n = longLens[v.Choose("long", len(longLens))]
	}
	s := identity.GetRandomString(n)
	want := n
	if n < 1 {
		want = 40
	}
	v.Assert(len(s) == want, "requested or default length")
	v.Assert(allIn(s, "alnum"), "letters and digits only")
	v.Cover("drawn")
}

// C25_lower: the lower-case generator.
func C25_lower() {
	v.Bound("lengths -3..12, 255-257, 1000, 4097 and 70000; every draw arbitrary")
	v.SymRand()
	n := v.Int("n", -3, 12)
	if k := v.Choose("long", len(longLens)+1); k < len(longLens) {
		n = longLens[k]
	}
	s := identity.NewRandomString(n)
	want := n
	if n < 1 {
		want = 32
	}
	v.Assert(len(s) == want, "requested or default length (lower case)")
	v.Assert(allIn(s, "alnum"), "letters and digits only (lower case)")
}

// C25_range: strings of a length drawn from a range.
func C25_range() {
	v.Bound("range limits -2..6, 72-96, 300-304 and 5000-5001 in either order; every draw arbitrary")
	v.SymRand()
	k := v.Choose("issued", 4)
	a, b := []int{0, 72, 300, 5000}[k], []int{0, 96, 304, 5001}[k]
	if k == 0 {
		a, b = v.Int("a", -2, 6), v.Int("b", -2, 6)
	} else if v.Choose("swap", 2) == 1 {
		a, b = b, a
	}
	s := identity.GetRandomStringFromRange(a, b)
	lo, hi := a, b
	if lo > hi {
		lo, hi = hi, lo
	}
	if lo < 0 {
		lo = 0
	}
	v.Assert(len(s) >= lo, "not shorter than the range")
	if lo < hi {
		v.Assert(len(s) < hi, "shorter than the end of the range")
	} else if hi > 0 {
		v.Assert(len(s) == hi, "an empty range gives its limit")
	}
	v.Assert(allIn(s, "alnum"), "letters and digits only (range)")
}

// C25_alphabet: every length of a range and every character can occur.
func C25_alphabet() {
	v.Bound("strings of one character, every draw")
	v.SymRand()
	s := identity.GetRandomString(1)
	t := identity.NewRandomString(1)
	for i := 0; i < 62; i++ {
		c := "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[i]
		if s[0] == c {
			v.Cover("GetRandomString yields " + string(rune(c)))
		}
	}
	v.Assert(v.In(t[0], "lalnum"), "lower-case generator stays in its alphabet")
}

// C25_fresh: successive draws differ.
func C25_fresh() {
	v.Bound("pairs of successive draws from the generators as seeded by the code")
	switch v.Choose("kind", 4) {
	case 0:
		v.Assert(identity.GetRandomString(40) != identity.GetRandomString(40), "two draws differ")
	case 1:
		v.Assert(identity.NewRandomString(32) != identity.NewRandomString(32), "two lower-case draws differ")
	case 2:
		v.Assert(identity.GetRandomStringFromRange(72, 96) != identity.GetRandomStringFromRange(72, 96), "two ranged draws differ")
	case 3:
		v.Assert(identity.NewID() != identity.NewID(), "two IDs differ")
	}
	s := identity.GetRandomString(40)
	same := 0
	for i := 1; i < len(s); i++ {
		if s[i] == s[0] {
			same++
		}
	}
	v.Assert(same < len(s)-1, "each character is a fresh draw")
}

// C25_id: user IDs.
func C25_id() {
	v.Bound("all values of the sixteen generated bytes")
	u := v.Bytes("uuid", 16)
	u[6] = u[6]&0x0f | 0x40
	u[8] = u[8]&0x3f | 0x80
	v.NextUUID(u)
	id := identity.NewID()
	v.Assert(len(id) == 36, "36 characters")
	if len(id) != 36 {
		return
	}
	ok := true
	for i := 0; i < 36; i++ {
		switch i {
		case 8, 13, 18, 23:
			ok = v.And(ok, id[i] == '-')
		default:
			ok = v.And(ok, v.In(id[i], "set:0123456789abcdef"))
		}
	}
	v.Assert(ok, "hexadecimal groups of a UUID")
	v.Assert(id[14] == '4', "version 4")
	v.Assert(v.In(id[19], "set:89ab"), "RFC 4122 variant")
}
