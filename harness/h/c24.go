package h

import (
	"errors"
	"fmt"
	"strings"

	"github.com/greenpau/go-identity/internal/zzverif/v"
	ie "github.com/greenpau/go-identity/pkg/errors"
)

type stdErr struct {
	e     ie.StandardError
	verbs string // one letter per argument: s, q, v, d
}

var stdErrs = []stdErr{
	{ie.ErrAPIKeyPayloadEmpty, ""}, {ie.ErrAPIKeyUsageUnsupported, "q"}, {ie.ErrLookupAPIKeyFailed, ""},
	{ie.ErrNewDatabase, "qv"}, {ie.ErrNewDatabaseInvalidUser, "vv"}, {ie.ErrNewDatabaseDuplicateUser, "sv"},
	{ie.ErrDatabaseCommit, "qv"}, {ie.ErrDatabaseInvalidUser, ""}, {ie.ErrDatabaseUserNotFound, ""}, {ie.ErrAuthFailed, "v"},
	{ie.ErrAddPublicKey, "sv"}, {ie.ErrDeletePublicKey, "qv"}, {ie.ErrGetAPIKeys, "qv"}, {ie.ErrChangeUserPassword, "v"},
	{ie.ErrUserPolicyCompliance, ""}, {ie.ErrAddUser, "qv"}, {ie.ErrDeleteUser, "qv"}, {ie.ErrUserIDInvalidLength, "d"},
	{ie.ErrParseNameFailed, "s"}, {ie.ErrAddMfaToken, "v"}, {ie.ErrMfaTokenInvalidPeriod, "d"}, {ie.ErrMfaTokenInvalidPasscode, "v"},
	{ie.ErrWebAuthnParse, "v"}, {ie.ErrPublicKeyBlockType, "q"}, {ie.ErrWebAuthnRegisterPublicKeyCurveCoord, "vv"},
}

// expect substitutes the rendered arguments in the standard text.
func expect(e ie.StandardError, args []string) string {
	t := string(e)
	out := ""
	k := 0
	for i := 0; i < len(t); i++ {
		if t[i] == '%' && i+1 < len(t) && k < len(args) {
			out += args[k]
			k++
			i++
			continue
		}
		out += t[i : i+1]
	}
	return out
}

// C24_render: a standard error with arguments of the kinds it documents.
func C24_render() {
	v.Bound("25 standard errors; text arguments of 0-3 printable bytes, integers of any value in [-9999,9999]")
	x := stdErrs[v.Choose("err", len(stdErrs))]
	var args []interface{}
	var texts []string
	var cause error
	for i := 0; i < len(x.verbs); i++ {
		switch x.verbs[i] {
		case 'd':
			n := v.Int("int", -9999, 9999)
			args = append(args, n)
			texts = append(texts, fmt.Sprintf("%d", n))
		case 'q':
			s := v.Str("q", "set:aZ9 %-", 0, 2)
			args = append(args, s)
			texts = append(texts, "\""+s+"\"")
		case 'v':
			s := v.Str("v", "print", 0, 3)
			if v.Choose("cause", 2) == 1 {
				cause = errors.New(s)
				args = append(args, cause)
			} else {
				args = append(args, s)
			}
			texts = append(texts, s)
		default:
			s := v.Str("s", "print", 0, 3)
			args = append(args, s)
			texts = append(texts, s)
		}
	}
	if len(args) == 0 {
		v.Assert(x.e.Error() == string(x.e), "a bare standard error renders its text")
		v.Assert(errors.Is(x.e, x.e), "a bare standard error is itself")
		return
	}
	err := x.e.WithArgs(args...)
	v.Assert(err != nil, "arguments that are not nil give an error")
	if err == nil {
		return
	}
	v.Cover("rendered")
	v.Note("text", err)
	v.Assert(err.Error() == expect(x.e, texts), "standard text with the arguments substituted")
	v.Assert(err.Error() == expect(x.e, texts), "rendering is repeatable")
	for _, y := range stdErrs {
		v.Assert(errors.Is(err, y.e) == (y.e == x.e), "recognised as that standard error and no other")
	}
	w := fmt.Errorf("outer: %w", err)
	v.Assert(errors.Is(w, x.e), "recognised when wrapped again")
}

// C24_nested: a standard error as the cause of another.
func C24_nested() {
	v.Bound("one level of nesting, text of 0-3 bytes")
	s := v.Str("s", "print", 0, 3)
	inner := ie.ErrMfaTokenInvalidPasscode.WithArgs(s)
	err := ie.ErrAddMfaToken.WithArgs(inner)
	v.Assert(err != nil, "error with a cause")
	if err == nil {
		return
	}
	v.Assert(err.Error() == "failed adding MFA token: invalid MFA token passcode: "+s, "cause rendered inside")
	v.Assert(errors.Is(err, ie.ErrAddMfaToken), "recognised as the outer standard error")
	v.Assert(!errors.Is(err, ie.ErrAddAPIKey), "and no other")
	k := ie.ErrDatabaseOperation.WithArgs(ie.ErrDatabaseUserNotFound)
	v.Assert(k != nil && strings.HasSuffix(k.Error(), ": user not found"), "a standard error as the cause")
	v.Assert(errors.Is(k, ie.ErrDatabaseOperation), "recognised as the outer standard error (2)")
}

// C24_nilcause: a nil cause yields no error.
func C24_nilcause() {
	v.Bound("zero, one or two text arguments beside a nil cause")
	s := v.Str("s", "print", 0, 2)
	var nilErr error
	v.Assert(ie.ErrAuthFailed.WithArgs(nilErr) == nil, "nil cause alone")
	v.Assert(ie.ErrAddUser.WithArgs(s, nilErr) == nil, "nil cause after a text")
	v.Assert(ie.ErrAddUser.WithArgs(nilErr, s) == nil, "nil cause before a text")
	v.Assert(ie.ErrAddUser.WithArgs(s, errors.New(s)) != nil, "a cause gives an error")
	v.Assert(ie.ErrAddUser.WithArgs(nil, errors.New(s)) != nil && ie.ErrAddUser.WithArgs(errors.New(s), nil) != nil, "a cause gives an error whatever the other argument")
	v.Assert(ie.ErrAddUser.WithArgs(s, s) != nil, "texts alone give an error")
	// the other arguments keep their places
	t := v.Str("t", "print", 1)
	e := ie.ErrNewDatabaseInvalidUser.WithArgs(nil, errors.New(t))
	v.Assert(e != nil && strings.HasSuffix(e.Error(), t) && strings.Index(e.Error(), "nil") >= 0, "a cause after a nil argument is rendered in its place")
	e = ie.ErrNewDatabaseInvalidUser.WithArgs(errors.New(t), nil)
	v.Assert(e != nil && strings.HasSuffix(e.Error(), "<nil>") && strings.Index(e.Error(), t) >= 0, "a nil argument after a cause is rendered in its place")
}

// C24_mismatch: rendering never panics, whatever the text and arguments.
func C24_mismatch() {
	v.Bound("84 custom standard error texts (valid, surplus, missing and broken verbs); no, one or two arguments")
	e := ie.StandardError(v.Pick("pre", "", "a: ") + v.Pick("verb", "", "%s", "%d", "%v", "%q", "%%", "%x %s") + v.Pick("post", "", " b", "%"))
	var args []interface{}
	switch v.Choose("args", 4) {
	case 1:
		args = append(args, "x")
	case 2:
		args = append(args, 7)
	case 3:
		args = append(args, "x", errors.New("y"))
	}
	err := e.WithArgs(args...)
	v.Assert(err != nil, "an error results")
	if err != nil {
		v.Assert(len(err.Error()) >= 0, "rendering returns")
		v.Assert(errors.Is(err, e), "recognised")
	}
}
