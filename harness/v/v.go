// Package v is the harness API of the symbolic checks, in its native form:
// the same calls replay one concrete case against the real code.
package v

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/big"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"golang.org/x/crypto/bcrypt"
)

// Input is one value of the case.
type Input struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Int  int64  `json:"int"`
	Bs   []byte `json:"bytes"`
}

// Case is one concrete run of a harness.
type Case struct {
	Harness  string  `json:"harness"`
	Inputs   []Input `json:"inputs"`
	Thorough bool    `json:"thorough"`
	TimeoutS int     `json:"timeout_s"`
	Race     bool    `json:"race"`
	Pattern  int     `json:"pattern"`
}

// NoteVal is a recorded observation.
type NoteVal struct {
	Name string `json:"name"`
	Val  string `json:"val"`
}

// Result is what a case did.
type Result struct {
	Failed       []string  `json:"failed"`
	Panic        string    `json:"panic"`
	Hang         bool      `json:"hang"`
	AssumeFailed bool      `json:"assume_failed"`
	Notes        []NoteVal `json:"notes"`
	Asserts      int       `json:"asserts"`
	Covers       []string  `json:"covers"`
	Error        string    `json:"error"`
	Missing      []string  `json:"missing"`
}

type assumeFail struct{}

type state struct {
	c       Case
	r       *Result
	in      map[string]Input
	names   map[string]int
	base    string
	ntmp    int
	clock   []int64
	rands   []int64
	clockT  int64
	randK   int
	uuids   [][]byte
	fsOn    bool
	fsN     int
	faults  int
	crashed chan struct{}
	hashes  int
	done    bool
}

var cur *state

// RunCase runs one case; the caller provides the time limit.
func RunCase(c Case, f func(), base string) (r Result) {
	s := &state{c: c, r: &r, in: map[string]Input{}, names: map[string]int{}, base: base, clockT: 1600000000}
	cur = s
	for _, i := range c.Inputs {
		switch i.Name {
		case "clock:":
			s.clock = append(s.clock, i.Int)
			continue
		case "rand:":
			s.rands = append(s.rands, i.Int)
			continue
		}
		s.in[i.Name] = i
	}
	os.MkdirAll(filepath.Join(base, "home"), 0700)
	syscall.Umask(022)
	os.Setenv("HOME", filepath.Join(base, "home"))
	defer func() {
		unpatchAll()
		os.RemoveAll(base)
		if x := recover(); x != nil {
			if _, ok := x.(assumeFail); ok {
				r.AssumeFailed = true
				return
			}
			r.Panic = fmt.Sprint(x)
			if r.Panic == "" {
				r.Panic = "panic"
			}
		}
	}()
	f()
	return
}

func inName(n string) string {
	k := cur.names[n]
	cur.names[n] = k + 1
	if k > 0 {
		return n + "#" + strconv.Itoa(k)
	}
	return n
}

func get(name string) (Input, bool) {
	n := inName(name)
	i, ok := cur.in[n]
	if !ok {
		cur.r.Missing = append(cur.r.Missing, n)
	}
	return i, ok
}

func class(name string) func(c byte) bool {
	alpha := func(c byte) bool { return 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' }
	digit := func(c byte) bool { return '0' <= c && c <= '9' }
	switch name {
	case "any":
		return func(c byte) bool { return true }
	case "ascii":
		return func(c byte) bool { return c < 0x80 }
	case "print":
		return func(c byte) bool { return 0x20 <= c && c < 0x7f }
	case "graph":
		return func(c byte) bool { return 0x20 < c && c < 0x7f }
	case "lower":
		return func(c byte) bool { return 'a' <= c && c <= 'z' }
	case "upper":
		return func(c byte) bool { return 'A' <= c && c <= 'Z' }
	case "alpha":
		return alpha
	case "digit":
		return digit
	case "alnum":
		return func(c byte) bool { return alpha(c) || digit(c) }
	case "lalnum":
		return func(c byte) bool { return 'a' <= c && c <= 'z' || digit(c) }
	}
	if strings.HasPrefix(name, "set:") {
		return func(c byte) bool { return strings.IndexByte(name[4:], c) >= 0 }
	}
	panic("class " + name)
}

// Int is an integer in [lo,hi].
func Int(name string, lo, hi int) int {
	i, ok := get(name)
	if !ok {
		return lo
	}
	return int(i.Int)
}

// Int64 is any int64.
func Int64(name string) int64 { i, _ := get(name); return i.Int }

// Uint64 is any uint64.
func Uint64(name string) uint64 { i, _ := get(name); return uint64(i.Int) }

// Bool is any bool.
func Bool(name string) bool { i, _ := get(name); return i.Int != 0 }

// Byte is any byte.
func Byte(name string) byte { i, _ := get(name); return byte(i.Int) }

// Str is a string over a class of bytes, of one of the lengths.
func Str(name, cls string, lens ...int) string {
	i, ok := get(name)
	if !ok {
		return strings.Repeat("a", lens[0])
	}
	return string(i.Bs)
}

// Bytes is n arbitrary bytes.
func Bytes(name string, n int) []byte {
	i, ok := get(name)
	if !ok {
		return make([]byte, n)
	}
	if i.Bs == nil {
		return []byte{}
	}
	return i.Bs
}

// Choose is one of 0..n-1.
func Choose(name string, n int) int { i, _ := get(name); return int(i.Int) }

// Pick is one of the options.
func Pick(name string, opts ...string) string { i, _ := get(name); return opts[i.Int] }

// Assume restricts the case.
func Assume(c bool) {
	if !c {
		panic(assumeFail{})
	}
}

// Assert states the property.
func Assert(c bool, id string) {
	cur.r.Asserts++
	if !c {
		cur.r.Failed = append(cur.r.Failed, id)
	}
}

// Known is Assert, with the inputs of a recorded finding set apart.
func Known(id, key string, region, c bool) {
	cur.r.Asserts++
	if !c {
		if region {
			cur.r.Failed = append(cur.r.Failed, id+"|"+key)
		} else {
			cur.r.Failed = append(cur.r.Failed, id)
		}
	}
}

// And is a conjunction that does not branch.
func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}

// Or is a disjunction that does not branch.
func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}

// Not is a negation.
func Not(c bool) bool { return !c }

// Iff is equality of conditions.
func Iff(a, b bool) bool { return a == b }

// Implies is an implication that does not branch.
func Implies(a, b bool) bool { return !a || b }

// Ite is a choice that does not branch.
func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// In tells whether a byte is in a class.
func In(c byte, cls string) bool { return class(cls)(c) }

// Cover marks a situation that must be reachable.
func Cover(id string) { cur.r.Covers = append(cur.r.Covers, id) }

// Note records an observation, compared between the symbolic and the real run.
func Note(name string, val interface{}) {
	n := inName("note:" + name)
	if e, ok := val.(error); ok && !reflect.ValueOf(e).IsZero() {
		val = e.Error()
	}
	if val == nil {
		val = "<nil>"
	}
	cur.r.Notes = append(cur.r.Notes, NoteVal{n, render(reflect.ValueOf(val))})
}

func render(v reflect.Value) string {
	switch v.Kind() {
	case reflect.String:
		return strconv.Quote(v.String())
	case reflect.Bool:
		return strconv.FormatBool(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(v.Int(), 10)
	case reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return strconv.FormatInt(int64(v.Uint()), 10)
	case reflect.Uint8:
		return strconv.FormatInt(int64(int8(v.Uint())), 10)
	case reflect.Slice, reflect.Array:
		var s []string
		for i := 0; i < v.Len(); i++ {
			s = append(s, render(v.Index(i)))
		}
		return "[" + strings.Join(s, " ") + "]"
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return render(v.Elem())
	}
	return fmt.Sprintf("%v", v.Interface())
}

// Bound documents a bound of the harness.
func Bound(text string) {}

// Thorough tells the tier.
func Thorough() bool { return cur.c.Thorough }

// Native tells that the code runs for real.
func Native() bool { return true }

// TempPath is a path in a new directory.
func TempPath(name string) string {
	cur.ntmp++
	d := filepath.Join(cur.base, "d"+strconv.Itoa(cur.ntmp))
	if err := os.MkdirAll(d, 0700); err != nil {
		panic(err)
	}
	return filepath.Join(d, name)
}

// Home is the home directory of the case.
func Home() string { return filepath.Join(cur.base, "home") }

func raw(f func()) {
	s := patchesOff()
	defer patchesOn(s)
	f()
}

// Mkdir makes a directory.
func Mkdir(path string) { raw(func() { os.MkdirAll(path, 0700) }) }

// WriteFile writes a file.
func WriteFile(path, s string) { raw(func() { ioutil.WriteFile(path, []byte(s), 0600) }) }

// WriteJSON writes a value as JSON.
func WriteJSON(path string, x interface{}) {
	raw(func() {
		b, err := json.MarshalIndent(x, "", "  ")
		if err != nil {
			panic(err)
		}
		ioutil.WriteFile(path, b, 0600)
	})
}

// ReadFile reads a file.
func ReadFile(path string) (s string, ok bool) {
	raw(func() {
		b, err := ioutil.ReadFile(path)
		s, ok = string(b), err == nil
	})
	return
}

// Remove removes a file.
func Remove(path string) { raw(func() { os.Remove(path) }) }

// FileMode is the permission bits, or -1.
func FileMode(path string) int {
	m := -1
	raw(func() {
		if fi, err := os.Stat(path); err == nil {
			m = int(fi.Mode() & 0777)
		}
	})
	return m
}

// Chmod sets the permission bits.
func Chmod(path string, mode int) {
	raw(func() {
		if err := os.Chmod(path, os.FileMode(mode)); err != nil {
			panic(err)
		}
	})
}

// Umask sets the mask of permissions which new files do not get.
func Umask(mask int) { syscall.Umask(mask & 0777) }

// Widest is the union of the permission bits of everything below a directory.
func Widest(dir string) int {
	m := 0
	raw(func() {
		filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
			if err == nil && p != dir {
				m |= int(fi.Mode() & 0777)
			}
			return nil
		})
	})
	return m
}

func walk(x interface{}, f func(string)) {
	switch v := x.(type) {
	case string:
		f(v)
	case []interface{}:
		for _, e := range v {
			walk(e, f)
		}
	case map[string]interface{}:
		for k, e := range v {
			f(k)
			walk(e, f)
		}
	}
}

func contains(b []byte, s string) bool {
	var x interface{}
	r := false
	if json.Unmarshal(b, &x) == nil {
		walk(x, func(t string) { r = r || strings.Contains(t, s) })
		return r
	}
	return bytes.Contains(b, []byte(s))
}

// FileContains tells whether a file (or a file below a directory) has s in
// one of its strings.
func FileContains(path, s string) bool {
	r := false
	raw(func() {
		filepath.Walk(path, func(p string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() {
				b, _ := ioutil.ReadFile(p)
				r = r || contains(b, s)
			}
			return nil
		})
	})
	return r
}

// Snap is the JSON image of a value.
func Snap(x interface{}) interface{} {
	b, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	return norm(b)
}

// Full takes a snapshot of every exported field, whatever its tag says. It
// does not tell nil slices and maps from empty ones.
func Full(x interface{}) interface{} { return full(reflect.ValueOf(x)) }

func full(x reflect.Value) interface{} {
	switch x.Kind() {
	case reflect.Invalid:
		return nil
	case reflect.Ptr, reflect.Interface:
		if x.IsNil() {
			return nil
		}
		return full(x.Elem())
	case reflect.Struct:
		if t, ok := x.Interface().(time.Time); ok {
			return t.UTC().Format(time.RFC3339Nano)
		}
		m := map[string]interface{}{}
		for i := 0; i < x.NumField(); i++ {
			f := x.Type().Field(i)
			if f.PkgPath == "" && plainData(f.Type) {
				m[f.Name] = full(x.Field(i))
			}
		}
		return m
	case reflect.Slice, reflect.Array:
		a := []interface{}{}
		for i := 0; i < x.Len(); i++ {
			a = append(a, full(x.Index(i)))
		}
		return a
	case reflect.Map:
		m := map[string]interface{}{}
		for _, k := range x.MapKeys() {
			m[k.String()] = full(x.MapIndex(k))
		}
		return m
	}
	return x.Interface()
}

// plainData leaves out functions, channels and the records of other packages.
func plainData(t reflect.Type) bool {
	if t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	switch t.Kind() {
	case reflect.Chan, reflect.Func:
		return false
	case reflect.Struct:
		return t == reflect.TypeOf(time.Time{}) || strings.HasPrefix(t.PkgPath(), "github.com/greenpau/go-identity")
	}
	return true
}

func norm(b []byte) interface{} {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var x interface{}
	if err := d.Decode(&x); err != nil || d.More() {
		return "<corrupt>"
	}
	return x
}

// SnapFile is the JSON image of a file.
func SnapFile(path string) interface{} {
	s, ok := ReadFile(path)
	if !ok {
		return "<missing>"
	}
	return norm([]byte(s))
}

// Same compares snapshots.
func Same(a, b interface{}) bool { return reflect.DeepEqual(a, b) }

// Has tells whether a string of the snapshot contains s.
func Has(a interface{}, s string) bool {
	r := false
	walk(a, func(t string) { r = r || strings.Contains(t, s) })
	return r
}

// HashWork counts the rounds of bcrypt evaluated since its first use.
func HashWork() int {
	patchBcrypt()
	return cur.hashes
}

// Hash is a cheap bcrypt hash.
func Hash(pw string) string {
	var b []byte
	var err error
	raw(func() { b, err = bcrypt.GenerateFromPassword([]byte(pw), bcrypt.MinCost) })
	if err != nil {
		panic(err)
	}
	return string(b)
}

func testKey(i int) *ecdsa.PrivateKey {
	h := sha256.Sum256([]byte(fmt.Sprintf("verif-key-%d", i)))
	c := elliptic.P256()
	d := new(big.Int).SetBytes(h[:])
	d.Mod(d, new(big.Int).Sub(c.Params().N, big.NewInt(1)))
	d.Add(d, big.NewInt(1))
	k := &ecdsa.PrivateKey{D: d}
	k.Curve = c
	k.X, k.Y = c.ScalarBaseMult(d.Bytes())
	return k
}

func pad32(b []byte) []byte {
	r := make([]byte, 32)
	copy(r[32-len(b):], b)
	return r
}

// KeyX is a coordinate of the i-th test key.
func KeyX(i int) []byte { return pad32(testKey(i).X.Bytes()) }

// KeyY is a coordinate of the i-th test key.
func KeyY(i int) []byte { return pad32(testKey(i).Y.Bytes()) }

// Sign is an ASN.1 ECDSA signature of the SHA-256 of data.
func Sign(i int, data []byte) []byte {
	h := sha256.Sum256(data)
	s, err := ecdsa.SignASN1(rand.Reader, testKey(i), h[:])
	if err != nil {
		panic(err)
	}
	return s
}

// SymClock lets time advance arbitrarily between readings.
func SymClock() { patchClock() }

// ClockStep bounds the seconds between two readings of a symbolic clock.
func ClockStep(n int) {}

// SymRand makes every random draw arbitrary.
func SymRand() { patchRand() }

// RandConst makes the next n draws zero.
func RandConst(n int) { cur.randK = n; patchRand() }

// RandFresh ends RandConst.
func RandFresh() { cur.randK = 0; unpatchRand() }

// NextUUID queues a UUID.
func NextUUID(b []byte) { cur.uuids = append(cur.uuids, b); patchUUID() }

// FaultFS injects up to n file-system faults from here on.
func FaultFS(n int, crash bool) { cur.fsOn, cur.fsN = true, 0; patchFS() }

// FaultOff ends FaultFS.
func FaultOff() { cur.fsOn = false }

// Faults counts the injected faults.
func Faults() int { return cur.faults }

// Crashable runs f, which may die at an injected crash.
func Crashable(f func()) bool {
	ch := make(chan struct{})
	done := make(chan interface{}, 1)
	cur.crashed = ch
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case <-ch:
		cur.fsOn = false
		return true
	case x := <-done:
		if x != nil {
			panic(x)
		}
		return false
	}
}

// Race runs two operations in either order; in race builds over and over,
// concurrently. The operations are given the number of the round.
func Race(name string, a, b func(int)) {
	x, y := a, b
	if Choose(name, 2) == 1 {
		x, y = b, a
	}
	if !cur.c.Race {
		x(0)
		y(0)
		return
	}
	end := time.Now().Add(1500 * time.Millisecond)
	loop := func(f func(int), d chan bool) {
		for i := 0; time.Now().Before(end); i++ {
			f(i)
		}
		d <- true
	}
	d := make(chan bool, 2)
	go loop(x, d)
	go loop(y, d)
	<-d
	<-d
}

// gate is the first lock found in the object.
func gate(o interface{}) (l sync.Locker, r sync.Locker) {
	x := reflect.ValueOf(o).Elem()
	for i := 0; i < x.NumField(); i++ {
		f := x.Field(i)
		var p unsafe.Pointer
		t := f.Type()
		if t.Kind() == reflect.Ptr {
			p, t = unsafe.Pointer(f.Pointer()), t.Elem()
		} else if f.CanAddr() {
			p = unsafe.Pointer(f.UnsafeAddr())
		}
		if p == nil {
			continue
		}
		switch t {
		case reflect.TypeOf(sync.RWMutex{}):
			return (*sync.RWMutex)(p), (*sync.RWMutex)(p).RLocker()
		case reflect.TypeOf(sync.Mutex{}):
			return (*sync.Mutex)(p), (*sync.Mutex)(p)
		}
	}
	m := &sync.Mutex{}
	return m, m
}

// Both runs two operations on an object concurrently. The pattern of the case
// says how they are started: the object's lock may be held meanwhile, such
// that they wait for it and get it in turns.
func Both(o interface{}, a, b func()) {
	n := cur.c.Pattern
	if n%2 == 1 {
		a, b = b, a
	}
	if n >= 12 {
		// a lock which is handed over is handed over at once
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
	}
	var wg sync.WaitGroup
	start := func(f func()) {
		wg.Add(1)
		go func() { defer wg.Done(); f() }()
	}
	l, r := gate(o)
	const pause = 4 * time.Millisecond
	switch n / 2 % 6 {
	case 0:
		start(a)
		start(b)
	case 1: // one after the other, a little later
		start(a)
		time.Sleep(time.Duration(n) * 300 * time.Microsecond)
		start(b)
	case 2: // both wait, and get a read lock at the same time
		l.Lock()
		start(a)
		start(b)
		time.Sleep(pause)
		l.Unlock()
	case 3: // both wait for long, such that the lock is handed over in turns
		l.Lock()
		start(a)
		time.Sleep(pause)
		start(b)
		time.Sleep(pause)
		l.Unlock()
		l.Lock()
		time.Sleep(pause)
		l.Unlock()
	case 4: // readers pass, writers wait
		r.Lock()
		start(a)
		time.Sleep(pause)
		start(b)
		time.Sleep(pause)
		r.Unlock()
	case 5:
		l.Lock()
		start(a)
		time.Sleep(pause)
		start(b)
		time.Sleep(pause)
		l.Unlock()
	}
	wg.Wait()
}
