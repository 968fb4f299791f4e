package h

import (
	"time"

	"github.com/greenpau/go-identity"
	"github.com/greenpau/go-identity/internal/zzverif/v"
)

// C10_code: any text at any time of three time steps.
func C10_code() {
	v.Bound("periods 1, 10, 30, 45, 60, 300 and 500; three algorithms; 4-8 digits; every second of steps around 1, 33333333 and 2^31/period and 2^31; every code text of 3-9 printable bytes with tabs")
	period, algo, digits := 30, "sha1", 6
	secret := "s3cret"
	steps := func(p int) []int64 { return []int64{1, 2, 33333333, 33333334, (1 << 31) / int64(p), 1 << 31} }
	pick := func() { digits = 4 + v.Choose("digits", 5) }
	periods := []int{30, 45, 60, 300, 1, 10, 500}
	algos := []string{"sha1", "sha256", "sha512"}
	long := "a much longer secret than any block of the hash function would be, so that it has to be hashed first before it can be used as a key of the MAC....................."
	vary := v.Choose("vary", 4)
	if v.Thorough() || vary == 0 {
		period = periods[v.Choose("period", 7)]
	}
	if v.Thorough() || vary == 1 {
		algo = algos[v.Choose("algo", 3)]
	}
	if v.Thorough() || vary == 2 {
		pick()
	}
	if v.Thorough() || vary == 3 {
		secret = v.Pick("secret", "", "s3cret", " S3 cRet\n=", long)
	}
	step := steps(period)[2+v.Choose("step", 2)]
	if v.Thorough() || vary == 0 {
		step = steps(period)[v.Choose("far", 6)]
	}
	ts := v.Int64("ts")
	v.Assume(v.And(step*int64(period) <= ts, ts < (step+1)*int64(period)))
	k := &identity.MfaToken{Type: "totp", Secret: secret, Algorithm: algo, Digits: digits, Period: period}
	code := ""
	switch v.Choose("kind", 2) {
	case 0:
		// a code of a nearby step, perhaps with white space around it
		d := v.Choose("delta", 7) - 3
		v.Assume(step > 2 || d >= -1)
		code = v.Pick("lead", "", " ", "\t ") + totp(secret, algo, digits, uint64(step+int64(d))) + v.Pick("tail", "", "\n", "1")
	case 1:
		v.Assume(v.Thorough() || vary == 1)
		lens := []int{0, 4, 6, 8, 9}
		if v.Thorough() {
			lens = []int{0, 1, 3, 4, 5, 6, 7, 8, 9, 10}
		}
		code = v.Str("code", "set:0123456789 \tx-+", lens...)
	}
	t := trim(code)
	want := v.Or(t == totp(secret, algo, digits, uint64(step)), t == totp(secret, algo, digits, uint64(step-1)), t == totp(secret, algo, digits, uint64(step+1)))
	before := v.Full(k)
	err := k.ValidateCodeWithTime(code, time.Unix(ts, 0).UTC())
	v.Assert(v.Iff(err == nil, want), "accepted exactly for the codes of the step and its neighbours")
	v.Assert(v.Same(before, v.Full(k)), "validation changes nothing")
	if err == nil {
		v.Cover("accepted")
	} else {
		v.Cover("refused")
	}
}

// C10_now: validation at the present time.
func C10_now() {
	v.Bound("every present second of three steps within 18 hours of September 13th, 2020; codes 3 steps before to 3 after; token types totp and others")
	v.SymClock()
	typ := v.Pick("type", "totp", "u2f", "", "TOTP")
	k := &identity.MfaToken{Type: typ, Secret: "s3cret", Algorithm: "sha1", Digits: 6, Period: 30}
	step := []int64{53333334, 53334335, 53335400}[v.Choose("step", 3)]
	now := time.Now().Unix()
	v.Assume(v.And(step*30 <= now, now < step*30+28))
	v.ClockStep(1)
	d := v.Choose("delta", 7) - 3
	code := totp("s3cret", "sha1", 6, uint64(step+int64(d)))
	err := k.ValidateCode(code)
	v.Assert((err == nil) == (typ == "totp" && d >= -1 && d <= 1), "accepted now exactly for the codes of the step and its neighbours")
}

// C10_malformed: tokens with parameters no enrolment would accept.
func C10_malformed() {
	v.Bound("stored digits and periods of any 32-bit value and algorithms from a catalogue; codes of 0-9 digits")
	k := &identity.MfaToken{Type: v.Pick("type", "totp", "u2f", ""), Secret: "s3cret", Algorithm: v.Pick("algo", "sha1", "", "md5"), Digits: 6, Period: 30}
	switch v.Choose("vary", 2) {
	case 0:
		k.Digits = v.Int("digits", -1<<31, 1<<31-1)
		v.Assume(v.Or(k.Digits < 4, k.Digits > 8))
	case 1:
		k.Period = []int{0, -1, -30, 1, 1 << 30}[v.Choose("period", 5)]
	}
	code := v.Str("code", "digit", 0, 1, 3, 4, 6, 8, 9)
	err := k.ValidateCodeWithTime(code, time.Unix(1600000000, 0).UTC())
	if k.Digits < 4 || k.Digits > 8 || k.Algorithm != "sha1" {
		v.Assert(err != nil, "tokens with unsupported parameters accept nothing")
	}
	err = k.ValidateCode(code)
	if k.Type != "totp" || k.Digits < 4 || k.Digits > 8 || k.Algorithm != "sha1" {
		v.Assert(err != nil, "other token types accept nothing")
	}
}

// zeroSteps are the steps after 53333334 whose code has 1 to 3 leading zeros,
// by algorithm, number of zeros and digits from 4.
var zeroSteps = [3][3][5]int64{
	{{10, 19, 1, 8, 19}, {117, 65, 393, 148, 88}, {66, 1541, 835, 2113, 998}},
	{{5, 3, 5, 4, 17}, {11, 203, 3, 5, 213}, {860, 758, 1402, 592, 59}},
	{{8, 2, 7, 20, 3}, {135, 397, 5, 181, 35}, {855, 268, 857, 140, 527}},
}

// C10_zeros: codes with leading zeros.
func C10_zeros() {
	v.Bound("codes of 4-8 digits and every algorithm with 1-3 leading zeros: whole, without some of them, with more of them, and with any other byte in front")
	a, z, d := v.Choose("algo", 3), 1+v.Choose("zeros", 3), 4+v.Choose("digits", 5)
	algo := []string{"sha1", "sha256", "sha512"}[a]
	step := 53333334 + zeroSteps[a][z-1][d-4]
	k := &identity.MfaToken{Type: "totp", Secret: "s3cret", Algorithm: algo, Digits: d, Period: 30}
	code := totp("s3cret", algo, d, uint64(step))
	v.Assert(code[:z] == "000"[:z], "the code has leading zeros")
	given := code
	switch v.Choose("form", 4) {
	case 1:
		given = code[1+v.Choose("cut", z):]
	case 2:
		given = "0" + code
	case 3:
		given = v.Str("front", "ascii", 1) + code[1:]
	}
	for i := int64(-2); i <= 2; i++ {
		t, want := trim(given), false
		for j := i - 1; j <= i+1; j++ {
			want = v.Or(want, t == totp("s3cret", algo, d, uint64(step+j)))
		}
		err := k.ValidateCodeWithTime(given, time.Unix((step+i)*30+11, 0).UTC())
		v.Assert(v.Iff(err == nil, want), "accepted exactly for the codes of the step and its neighbours")
	}
}
