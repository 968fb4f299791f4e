package v

import (
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"syscall"
	"time"
	"unsafe"

	uuid "github.com/satori/go.uuid"
	"golang.org/x/crypto/bcrypt"
)

// Function entry points are overwritten with a jump to the stand-in while a
// case needs a scripted clock, random source or failing file system.

type patch struct {
	addr uintptr
	orig [13]byte
	jump [13]byte
	on   bool
	keep reflect.Value
}

var patches = map[string]*patch{}

func setBytes(addr uintptr, b []byte) {
	page := uintptr(syscall.Getpagesize())
	start := addr &^ (page - 1)
	n := addr + uintptr(len(b)) - start
	n = (n + page - 1) &^ (page - 1)
	mem := (*[1 << 20]byte)(unsafe.Pointer(start))[:n:n]
	if err := syscall.Mprotect(mem, syscall.PROT_READ|syscall.PROT_WRITE|syscall.PROT_EXEC); err != nil {
		panic(err)
	}
	copy((*[64]byte)(unsafe.Pointer(addr))[:len(b)], b)
	syscall.Mprotect(mem, syscall.PROT_READ|syscall.PROT_EXEC)
}

func install(name string, target, repl interface{}) {
	if p, ok := patches[name]; ok {
		if !p.on {
			p.on = true
			setBytes(p.addr, p.jump[:])
		}
		return
	}
	p := &patch{addr: reflect.ValueOf(target).Pointer(), keep: reflect.ValueOf(repl)}
	// the func value's code pointer lives in its closure object
	fv := *(*uintptr)(unsafe.Pointer(uintptr(unsafe.Pointer(&repl)) + unsafe.Sizeof(uintptr(0))))
	copy(p.orig[:], (*[13]byte)(unsafe.Pointer(p.addr))[:])
	// movabs rdx, fv ; jmp [rdx]
	p.jump[0], p.jump[1] = 0x48, 0xba
	for i := 0; i < 8; i++ {
		p.jump[2+i] = byte(fv >> (8 * uint(i)))
	}
	p.jump[10], p.jump[11] = 0xff, 0x22
	p.jump[12] = 0x90
	patches[name] = p
	p.on = true
	setBytes(p.addr, p.jump[:])
}

func uninstall(name string) {
	if p, ok := patches[name]; ok && p.on {
		p.on = false
		setBytes(p.addr, p.orig[:])
	}
}

func unpatchAll() {
	for n := range patches {
		uninstall(n)
	}
}

func patchesOff() []string {
	var s []string
	for n, p := range patches {
		if p.on {
			s = append(s, n)
		}
	}
	for _, n := range s {
		uninstall(n)
	}
	return s
}

func patchesOn(s []string) {
	for _, n := range s {
		p := patches[n]
		p.on = true
		setBytes(p.addr, p.jump[:])
	}
}

// orig runs f with the patch name removed.
func orig(name string, f func()) {
	s := patchesOff()
	f()
	patchesOn(s)
}

func patchClock() {
	install("time.Now", time.Now, func() time.Time {
		s := cur
		d := int64(1)
		if len(s.clock) > 0 {
			d = s.clock[0]
			s.clock = s.clock[1:]
		}
		s.clockT += d
		return time.Unix(s.clockT, 0)
	})
}

func draw(n int) int {
	s := cur
	if s.randK > 0 {
		s.randK--
		return 0
	}
	if len(s.rands) > 0 {
		k := s.rands[0]
		s.rands = s.rands[1:]
		if k >= 0 && k < int64(n) {
			return int(k)
		}
	}
	r := 0
	orig("", func() { r = rand.Intn(n) })
	return r
}

func patchRand() {
	install("rand.Intn", rand.Intn, func(n int) int { return draw(n) })
	install("Rand.Intn", (*rand.Rand).Intn, func(_ *rand.Rand, n int) int { return draw(n) })
	install("rand.Int63n", rand.Int63n, func(n int64) int64 { return int64(draw(int(n))) })
	install("rand.Int31n", rand.Int31n, func(n int32) int32 { return int32(draw(int(n))) })
}

func unpatchRand() {
	for _, n := range []string{"rand.Intn", "Rand.Intn", "rand.Int63n", "rand.Int31n"} {
		uninstall(n)
	}
}

func patchBcrypt() {
	install("bcrypt.Gen", bcrypt.GenerateFromPassword, func(pw []byte, cost int) (b []byte, err error) {
		c := cost
		if c < bcrypt.MinCost {
			c = bcrypt.DefaultCost
		}
		cur.hashes += 1 << uint(c)
		orig("", func() { b, err = bcrypt.GenerateFromPassword(pw, cost) })
		return
	})
	install("bcrypt.Cmp", bcrypt.CompareHashAndPassword, func(h, pw []byte) (err error) {
		if c, e := bcrypt.Cost(h); e == nil {
			cur.hashes += 1 << uint(c)
		}
		orig("", func() { err = bcrypt.CompareHashAndPassword(h, pw) })
		return
	})
}

func patchUUID() {
	install("uuid.NewV4", uuid.NewV4, func() (u uuid.UUID) {
		s := cur
		if len(s.uuids) > 0 {
			copy(u[:], s.uuids[0])
			s.uuids = s.uuids[1:]
			return
		}
		orig("", func() { u = uuid.NewV4() })
		return
	})
}

const (
	fOK = iota
	fFail
	fShort
	fCrash
	fCrashHalf
)

func fsStep(op string) int {
	s := cur
	if !s.fsOn {
		return fOK
	}
	n := s.fsN
	s.fsN++
	i, ok := s.in["fs:"+strconv.Itoa(n)+":"+op]
	if !ok {
		return fOK
	}
	if i.Int != fOK {
		s.faults++
	}
	if i.Int == fCrash {
		crash()
	}
	return int(i.Int)
}

func crash() {
	close(cur.crashed)
	select {}
}

func perr(op, path string, e syscall.Errno) error { return &os.PathError{Op: op, Path: path, Err: e} }

func patchFS() {
	install("os.Stat", os.Stat, func(name string) (fi os.FileInfo, err error) {
		if fsStep("stat") == fFail {
			return nil, perr("stat", name, syscall.EACCES)
		}
		orig("", func() { fi, err = os.Stat(name) })
		return
	})
	install("os.OpenFile", os.OpenFile, func(name string, flag int, perm os.FileMode) (f *os.File, err error) {
		if fsStep("open") == fFail {
			return nil, perr("open", name, syscall.EACCES)
		}
		orig("", func() { f, err = os.OpenFile(name, flag, perm) })
		return
	})
	install("os.File.Write", (*os.File).Write, func(f *os.File, b []byte) (n int, err error) {
		if f == os.Stdout || f == os.Stderr {
			orig("", func() { n, err = f.Write(b) })
			return
		}
		k := fsStep("write")
		if k == fFail {
			return 0, perr("write", f.Name(), syscall.ENOSPC)
		}
		d := b
		if k == fShort || k == fCrashHalf {
			d = b[:len(b)/2]
		}
		orig("", func() { n, err = f.Write(d) })
		if k == fCrashHalf {
			crash()
		}
		if k == fShort {
			return n, perr("write", f.Name(), syscall.ENOSPC)
		}
		return
	})
	install("os.File.Sync", (*os.File).Sync, func(f *os.File) (err error) {
		if fsStep("sync") == fFail {
			return perr("sync", f.Name(), syscall.EIO)
		}
		return nil
	})
	install("os.File.Chmod", (*os.File).Chmod, func(f *os.File, m os.FileMode) (err error) {
		if fsStep("chmod") == fFail {
			return perr("chmod", f.Name(), syscall.EACCES)
		}
		orig("", func() { err = f.Chmod(m) })
		return
	})
	install("os.File.Truncate", (*os.File).Truncate, func(f *os.File, n int64) (err error) {
		if fsStep("truncate") == fFail {
			return perr("truncate", f.Name(), syscall.EIO)
		}
		orig("", func() { err = f.Truncate(n) })
		return
	})
	install("os.Rename", os.Rename, func(a, b string) (err error) {
		if fsStep("rename") == fFail {
			return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.EIO}
		}
		orig("", func() { err = os.Rename(a, b) })
		return
	})
	install("os.Remove", os.Remove, func(a string) (err error) {
		fsStep("remove")
		orig("", func() { err = os.Remove(a) })
		return
	})
	install("os.ReadFile", os.ReadFile, func(a string) (b []byte, err error) {
		if fsStep("readfile") == fFail {
			return nil, perr("open", a, syscall.EACCES)
		}
		orig("", func() { b, err = os.ReadFile(a) })
		return
	})
	install("os.MkdirAll", os.MkdirAll, func(a string, m os.FileMode) (err error) {
		if fsStep("mkdir") == fFail {
			return perr("mkdir", a, syscall.EACCES)
		}
		orig("", func() { err = os.MkdirAll(a, m) })
		return
	})
	install("os.Mkdir", os.Mkdir, func(a string, m os.FileMode) (err error) {
		if fsStep("mkdir") == fFail {
			return perr("mkdir", a, syscall.EACCES)
		}
		orig("", func() { err = os.Mkdir(a, m) })
		return
	})
	install("os.Chmod", os.Chmod, func(a string, m os.FileMode) (err error) {
		if fsStep("chmod") == fFail {
			return perr("chmod", a, syscall.EACCES)
		}
		orig("", func() { err = os.Chmod(a, m) })
		return
	})
	install("os.Truncate", os.Truncate, func(a string, n int64) (err error) {
		if fsStep("truncate") == fFail {
			return perr("truncate", a, syscall.EACCES)
		}
		orig("", func() { err = os.Truncate(a, n) })
		return
	})
}

var _ = filepath.Join

// Quiesce removes every patch (before the runner reports a hang).
func Quiesce() {
	cur.fsOn = false
	unpatchAll()
}
