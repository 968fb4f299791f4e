package h

import (
	"strings"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/internal/zzverif/v"
)

// C33_issuer: issuers resolve by registered name or alias.
func C33_issuer() {
	v.Bound("two registered issuers with aliases, names of 3-4 bytes with symbolic letters; queries of 0-5 bytes")
	a := &identity.CreditCardIssuer{Name: v.Str("name", "alpha", 3), Aliases: []string{v.Str("alias", "alpha", 2), "Abcd", "eF"}}
	b := &identity.CreditCardIssuer{Name: "Other", Aliases: []string{"oT"}}
	save := identity.CreditCardIssuers
	identity.CreditCardIssuers = []*identity.CreditCardIssuer{a, b}
	defer func() { identity.CreditCardIssuers = save }()
	q := v.Str("query", "ascii", 0, 2, 3, 4, 5)
	cc := identity.NewCreditCard()
	old := &identity.CreditCardIssuer{Name: "Old"}
	cc.Issuer = old
	if v.Choose("card", 2) == 1 {
		cc.Association, cc.Number, cc.Code, cc.ExpiresAt, cc.IssuedAt = identity.CreditCardAssociations[v.Choose("assoc", 2)*4], "4111", "123", t0, t0
	}
	was := *cc
	err := cc.AddIssuer(q)
	now := *cc
	now.Issuer = old
	v.Assert(now == was, "nothing else changes")
	is := func(n string) bool { return v.Or(q == n, q == strings.ToLower(n)) }
	inA := v.Or(is(a.Name), is(a.Aliases[0]), is("Abcd"), is("eF"))
	inB := v.Or(is("Other"), is("oT"))
	v.Assert(v.Iff(err == nil, v.Or(inA, inB)), "exactly registered names and aliases")
	if err != nil {
		v.Assert(cc.Issuer == old, "a refused issuer leaves the card unchanged")
		return
	}
	v.Cover("accepted")
	v.Assert(v.Implies(inA && !inB, cc.Issuer == a), "refers to the issuer named")
	v.Assert(v.Implies(inB && !inA, cc.Issuer == b), "refers to the issuer named (second)")
}

// C33_association: associations resolve by exact name.
func C33_association() {
	v.Bound("association names: ASCII strings of 0, 4, 8, 10, 11 and 16 bytes")
	q := v.Str("query", "ascii", 0, 4, 8, 10, 11, 16)
	cc := identity.NewCreditCard()
	old := &identity.CreditCardAssociation{Name: "Old"}
	cc.Association = old
	if v.Choose("card", 2) == 1 {
		cc.Issuer, cc.Number, cc.Code, cc.ExpiresAt, cc.IssuedAt = &identity.CreditCardIssuer{Name: "Visa", Aliases: []string{"Discover"}}, "4111", "123", t0, t0
	}
	was := *cc
	err := cc.AddAssociation(q)
	now := *cc
	now.Association = old
	v.Assert(now == was, "nothing else changes")
	known := false
	for _, n := range []string{"American Express", "Diners Club", "Discover", "Mastercard", "Visa"} {
		known = v.Or(known, q == n)
	}
	v.Assert(v.Iff(err == nil, known), "exactly the known association names")
	if err != nil {
		v.Assert(cc.Association == old, "a refused association leaves the card unchanged")
		return
	}
	v.Cover("accepted")
	v.Assert(cc.Association.Name == q, "refers to the association named")
	found := false
	for _, a := range identity.CreditCardAssociations {
		if a == cc.Association {
			found = true
		}
	}
	v.Assert(found, "the association is the registered entry")
}
