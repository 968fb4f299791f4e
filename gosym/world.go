package main

import (
	"fmt"
	"go/types"
	"path/filepath"
	"sort"
	"strings"
)

// World is the modelled environment of one path.
type World struct {
	files   map[string]*vfile
	umask   *Term
	oserr   map[string]Iface
	locks   map[*Value]*lockState
	mon     *Monitor
	gs      *gorSched
	both    bool
	wgs     map[*Value]int
	pools   map[*Value][]Value
	smaps   map[*Value]*MapV
	nextFD  int
	nextTmp int

	// file-system faults
	fsOn     bool
	fsBudget int
	fsCrash  bool // crashes allowed
	fsCount  int
	crashOK  int // nesting of Crashable
	faults   int // injected so far

	// clock
	clockMode int // 0: concrete, one millisecond per reading; 1: symbolic steps
	clockNow  int64
	randCtr   map[*randObj]uint64
	clockMax  int
	clockT    *Term

	// randomness
	randMode  int // 0: concrete fresh; 1: symbolic ("arbitrary")
	rng       uint64
	randConst int
	uuidQueue []Value
	uuidCount int

	// crypto
	bc     map[string]*bcEntry
	bcList []*bcEntry
	hashes []*ufApp
	sigs   []*sigEntry
	bigs   map[*Value][]*Term
	groups map[string][]*Term // base64/base32 groups -> source bytes
	bcWork int                // rounds of bcrypt evaluated

	// JSON
	jmemo  map[uint64][]jmemo
	opaque int
	digits map[digitKey][]*Term
	texts  map[string]Value // rendered opaque objects
}

type digitKey struct {
	t *Term
	n int
}

type lockState struct {
	w int
	r int
}

func newWorld(bd *Builder) *World {
	w := &World{umask: bd.Const(32, 022), files: map[string]*vfile{}, oserr: map[string]Iface{}, locks: map[*Value]*lockState{}, wgs: map[*Value]int{}, pools: map[*Value][]Value{}, smaps: map[*Value]*MapV{},
		randCtr: map[*randObj]uint64{}, rng: 0x9e3779b97f4a7c15, bc: map[string]*bcEntry{}, bigs: map[*Value][]*Term{}, groups: map[string][]*Term{},
		jmemo: map[uint64][]jmemo{}, nextFD: 3}
	for _, d := range []string{"/", "/zz", "/zz/tmp", "/zz/home", "/tmp"} {
		w.files[d] = &vfile{dir: true, mode: bd.Const(32, 0700)}
	}
	return w
}

func (w *World) rnd() uint64 {
	w.rng ^= w.rng << 13
	w.rng ^= w.rng >> 7
	w.rng ^= w.rng << 17
	return w.rng
}

// ------------------------------------------------------------ file system

type vfile struct {
	dir  bool
	mode *Term
	data []*Term
}

type fsHandle struct {
	path   string
	null   bool
	f      *vfile
	off    int
	flag   int
	closed bool
}

const (
	oWRONLY = 0x1
	oRDWR   = 0x2
	oCREATE = 0x40
	oEXCL   = 0x80
	oTRUNC  = 0x200
	oAPPEND = 0x400
	oSYNC   = 0x101000
)

func clean(s string) string {
	if !strings.HasPrefix(s, "/") {
		s = "/zz/tmp/" + s
	}
	return filepath.Clean(s)
}

// errno builds *fs.PathError{op, path, syscall.Errno}.
func (p *Path) pathError(op, path string, errno int) Iface {
	et := p.e.namedType("io/fs", "PathError")
	en := p.e.namedType("syscall", "Errno")
	return Iface{t: types.NewPointer(et), v: cell(Struct{mkstr(op), mkstr(path), Iface{t: en, v: p.cint(64, uint64(errno))}})}
}

func (p *Path) linkError(op, a, b string, errno int) Iface {
	et := p.e.namedType("os", "LinkError")
	en := p.e.namedType("syscall", "Errno")
	return Iface{t: types.NewPointer(et), v: cell(Struct{mkstr(op), mkstr(a), mkstr(b), Iface{t: en, v: p.cint(64, uint64(errno))}})}
}

const (
	eNOENT    = 2
	eIO       = 5
	eACCES    = 13
	eEXIST    = 17
	eNOTDIR   = 20
	eISDIR    = 21
	eINVAL    = 22
	eNOSPC    = 28
	eNOTEMPTY = 39
)

// fault kinds
const (
	fOK = iota
	fFail
	fShort     // write only: half, then error
	fCrash     // before the step
	fCrashHalf // write only: half written, then crash
)

// fsStep accounts for one file-system primitive and decides whether it
// fails. It returns fOK, fFail, fShort or fCrashHalf; fCrash throws.
func (p *Path) fsStep(op string) int {
	w := p.w
	if !w.fsOn {
		return fOK
	}
	n := w.fsCount
	w.fsCount++
	if w.fsBudget <= 0 {
		return fOK
	}
	opts := []int{fOK, fFail}
	if op == "write" {
		opts = append(opts, fShort)
	}
	if w.fsCrash && w.crashOK > 0 {
		opts = append(opts, fCrash)
		if op == "write" {
			opts = append(opts, fCrashHalf)
		}
	}
	if op == "remove" {
		opts = []int{fOK}
		if w.fsCrash && w.crashOK > 0 {
			opts = []int{fOK, fCrash}
		}
	}
	k := opts[p.choose(len(opts))]
	p.inputs = append(p.inputs, &Input{Name: fmt.Sprintf("fs:%d:%s", n, op), Kind: "choose", Val: k})
	if k != fOK {
		w.fsBudget--
		w.faults++
	}
	if k == fCrash {
		panic(crashSignal{})
	}
	return k
}

func (p *Path) statErr(op, name string) Iface {
	// a component that is a file
	for d := filepath.Dir(clean(name)); d != "/"; d = filepath.Dir(d) {
		if f, ok := p.w.files[d]; ok && !f.dir {
			return p.pathError(op, name, eNOTDIR)
		}
	}
	return p.pathError(op, name, eNOENT)
}

func (p *Path) openFile(name string, flag int, perm *Term) (Value, Iface) {
	bad := func(e int) (Value, Iface) { return (*Value)(nil), p.pathError("open", name, e) }
	if p.fsStep("open") == fFail {
		return bad(eACCES)
	}
	if name == "" {
		return bad(eNOENT)
	}
	c := clean(name)
	f, ok := p.w.files[c]
	wr := flag&(oWRONLY|oRDWR) != 0
	if !ok {
		if flag&oCREATE == 0 {
			return (*Value)(nil), p.statErr("open", name)
		}
		d, ok := p.w.files[filepath.Dir(c)]
		if !ok {
			return (*Value)(nil), p.statErr("open", name)
		}
		if !d.dir {
			return bad(eNOTDIR)
		}
		f = &vfile{mode: p.umasked(perm)}
		p.w.files[c] = f
	} else {
		if flag&oCREATE != 0 && flag&oEXCL != 0 {
			return bad(eEXIST)
		}
		if f.dir && wr {
			return bad(eISDIR)
		}
		if flag&oTRUNC != 0 && wr {
			f.data = nil
		}
	}
	return &NativeObj{kind: "os.File", x: &fsHandle{path: name, f: f, flag: flag}}, Iface{}
}

func (p *Path) fileWrite(v Value, b []*Term) (int, Iface) {
	h := p.native(v, "os.File").(*fsHandle)
	if h.null {
		return len(b), Iface{}
	}
	if h.closed {
		return 0, p.pathErrorE("write", h.path, p.oserr("ErrClosed", "file already closed"))
	}
	k := p.fsStep("write")
	if k == fFail {
		return 0, p.pathError("write", h.path, eNOSPC)
	}
	data := b
	if k == fShort || k == fCrashHalf {
		data = b[:len(b)/2]
	}
	if h.flag&oAPPEND != 0 {
		h.off = len(h.f.data)
	}
	old := h.f.data
	var nd []*Term
	nd = append(nd, old[:min(h.off, len(old))]...)
	for len(nd) < h.off {
		nd = append(nd, p.cint(8, 0))
	}
	nd = append(nd, data...)
	h.off += len(data)
	if h.off < len(old) {
		nd = append(nd, old[h.off:]...)
	}
	h.f.data = nd
	if k == fCrashHalf {
		panic(crashSignal{})
	}
	if k == fShort {
		return len(data), p.pathError("write", h.path, eNOSPC)
	}
	return len(b), Iface{}
}

func (p *Path) pathErrorE(op, path string, e Iface) Iface {
	et := p.e.namedType("io/fs", "PathError")
	return Iface{t: types.NewPointer(et), v: cell(Struct{mkstr(op), mkstr(path), e})}
}

func (p *Path) readAll(name string) (Value, Iface) {
	if p.fsStep("readfile") == fFail {
		return SliceV{}, p.pathError("open", name, eACCES)
	}
	f, ok := p.w.files[clean(name)]
	if !ok || name == "" {
		return SliceV{}, p.statErr("open", name)
	}
	if f.dir {
		return SliceV{}, p.pathError("read", name, eISDIR)
	}
	r := p.termsVal(f.data)
	if r.a == nil {
		r.a = []Value{}
	}
	return r, Iface{}
}

// fileInfo values
type finfo struct {
	name string
	dir  bool
	size int
	mode *Term
}

func (p *Path) statFile(op, name string) (Value, Iface) {
	if op == "stat" && p.fsStep("stat") == fFail {
		return Iface{}, p.pathError(op, name, eACCES)
	}
	f, ok := p.w.files[clean(name)]
	if !ok || name == "" {
		return Iface{}, p.statErr(op, name)
	}
	return p.finfoOf(name, f), Iface{}
}

func (p *Path) finfoOf(name string, f *vfile) Value {
	t := types.NewPointer(p.e.namedType("os", "fileStat"))
	return Iface{t: t, v: &NativeObj{kind: "fileInfo", x: &finfo{filepath.Base(name), f.dir, len(f.data), f.mode}}}
}

func (p *Path) mkdir(name string, perm *Term, all bool) Iface {
	if p.fsStep("mkdir") == fFail {
		return p.pathError("mkdir", name, eACCES)
	}
	c := clean(name)
	if f, ok := p.w.files[c]; ok {
		if all && f.dir {
			return Iface{}
		}
		if all {
			return p.pathError("mkdir", name, eNOTDIR)
		}
		return p.pathError("mkdir", name, eEXIST)
	}
	var todo []string
	for d := c; ; d = filepath.Dir(d) {
		f, ok := p.w.files[d]
		if ok {
			if !f.dir {
				return p.pathError("mkdir", d, eNOTDIR)
			}
			break
		}
		todo = append(todo, d)
	}
	if !all && len(todo) > 1 {
		return p.pathError("mkdir", name, eNOENT)
	}
	for _, d := range todo {
		p.w.files[d] = &vfile{dir: true, mode: p.umasked(perm)}
	}
	return Iface{}
}

func (p *Path) rename(a, b string) Iface {
	if p.fsStep("rename") == fFail {
		return p.linkError("rename", a, b, eIO)
	}
	ca, cb := clean(a), clean(b)
	f, ok := p.w.files[ca]
	if !ok {
		return p.linkError("rename", a, b, eNOENT)
	}
	g, ok := p.w.files[cb]
	if ok && g.dir != f.dir {
		if g.dir {
			return p.linkError("rename", a, b, eEXIST)
		}
		return p.linkError("rename", a, b, eNOTDIR)
	}
	if d, ok := p.w.files[filepath.Dir(cb)]; !ok || !d.dir {
		return p.linkError("rename", a, b, eNOENT)
	}
	if ok && g.dir {
		p.unsupported("directory rename")
	}
	delete(p.w.files, ca)
	p.w.files[cb] = f
	return Iface{}
}

func (p *Path) removeFile(name string) Iface {
	if p.fsStep("remove") == fFail {
		return p.pathError("remove", name, eACCES)
	}
	c := clean(name)
	f, ok := p.w.files[c]
	if !ok {
		return p.statErr("remove", name)
	}
	if f.dir {
		for k := range p.w.files {
			if strings.HasPrefix(k, c+"/") {
				return p.pathError("remove", name, eNOTEMPTY)
			}
		}
	}
	delete(p.w.files, c)
	return Iface{}
}

func (p *Path) pstr(v Value) string {
	s, ok := v.(Str).concrete()
	if !ok {
		p.unsupported("symbolic path")
	}
	return s
}

func regFS() {
	one := func(e Iface) Value { return e }
	regv("os.Stat", func(p *Path, a []Value) Value {
		v, e := p.statFile("stat", p.pstr(a[0]))
		return Tuple{v, e}
	})
	regv("os.Lstat", func(p *Path, a []Value) Value {
		v, e := p.statFile("lstat", p.pstr(a[0]))
		return Tuple{v, e}
	})
	regv("os.OpenFile", func(p *Path, a []Value) Value {
		v, e := p.openFile(p.pstr(a[0]), p.intOf(a[1]), p.perm(a[2]))
		return Tuple{v, e}
	})
	regv("os.Open", func(p *Path, a []Value) Value {
		v, e := p.openFile(p.pstr(a[0]), 0, p.cperm(0))
		return Tuple{v, e}
	})
	regv("os.Create", func(p *Path, a []Value) Value {
		v, e := p.openFile(p.pstr(a[0]), oRDWR|oCREATE|oTRUNC, p.cperm(0666))
		return Tuple{v, e}
	})
	createTemp := func(p *Path, a []Value) Value {
		dir, pat := p.pstr(a[0]), p.pstr(a[1])
		if dir == "" {
			dir = "/tmp"
		}
		p.w.nextTmp++
		r := fmt.Sprintf("%09d", 400000000+p.w.nextTmp)
		if i := strings.LastIndex(pat, "*"); i >= 0 {
			pat = pat[:i] + r + pat[i+1:]
		} else {
			pat += r
		}
		v, e := p.openFile(filepath.Join(dir, pat), oRDWR|oCREATE|oEXCL, p.cperm(0600))
		return Tuple{v, e}
	}
	regv("os.CreateTemp", createTemp)
	regv("io/ioutil.TempFile", createTemp)
	mkTemp := func(p *Path, a []Value) Value {
		dir, pat := p.pstr(a[0]), p.pstr(a[1])
		if dir == "" {
			dir = "/tmp"
		}
		p.w.nextTmp++
		n := filepath.Join(dir, fmt.Sprintf("%s%09d", strings.Replace(pat, "*", "", 1), p.w.nextTmp))
		e := p.mkdir(n, p.cperm(0700), false)
		if e.t != nil {
			return Tuple{mkstr(""), e}
		}
		return Tuple{mkstr(n), e}
	}
	regv("os.MkdirTemp", mkTemp)
	regv("io/ioutil.TempDir", mkTemp)
	regv("os.TempDir", func(p *Path, a []Value) Value { return mkstr("/tmp") })
	regv("os.ReadFile", func(p *Path, a []Value) Value {
		v, e := p.readAll(p.pstr(a[0]))
		return Tuple{v, e}
	})
	regv("io/ioutil.ReadFile", func(p *Path, a []Value) Value {
		v, e := p.readAll(p.pstr(a[0]))
		return Tuple{v, e}
	})
	writeFile := func(p *Path, a []Value) Value {
		name := p.pstr(a[0])
		v, e := p.openFile(name, oWRONLY|oCREATE|oTRUNC, p.perm(a[2]))
		if e.t != nil {
			return e
		}
		_, e = p.fileWrite(v, sliceTerms(a[1]))
		e2 := p.closeFile(v)
		if e.t == nil {
			e = e2
		}
		return e
	}
	regv("os.WriteFile", writeFile)
	regv("io/ioutil.WriteFile", writeFile)
	regv("os.Mkdir", func(p *Path, a []Value) Value { return one(p.mkdir(p.pstr(a[0]), p.perm(a[1]), false)) })
	regv("os.MkdirAll", func(p *Path, a []Value) Value { return one(p.mkdir(p.pstr(a[0]), p.perm(a[1]), true)) })
	regv("os.Rename", func(p *Path, a []Value) Value { return one(p.rename(p.pstr(a[0]), p.pstr(a[1]))) })
	regv("os.Remove", func(p *Path, a []Value) Value { return one(p.removeFile(p.pstr(a[0]))) })
	regv("os.RemoveAll", func(p *Path, a []Value) Value {
		c := clean(p.pstr(a[0]))
		for k := range p.w.files {
			if k == c || strings.HasPrefix(k, c+"/") {
				delete(p.w.files, k)
			}
		}
		return Iface{}
	})
	regv("os.Chmod", func(p *Path, a []Value) Value {
		n := p.pstr(a[0])
		if p.fsStep("chmod") == fFail {
			return p.pathError("chmod", n, eACCES)
		}
		f, ok := p.w.files[clean(n)]
		if !ok {
			return p.statErr("chmod", n)
		}
		f.mode = p.perm(a[1])
		return Iface{}
	})
	regv("os.Truncate", func(p *Path, a []Value) Value {
		n := p.pstr(a[0])
		if p.fsStep("truncate") == fFail {
			return p.pathError("truncate", n, eACCES)
		}
		f, ok := p.w.files[clean(n)]
		if !ok {
			return p.statErr("truncate", n)
		}
		k := p.intOf(a[1])
		if k < len(f.data) {
			f.data = f.data[:k:k]
		}
		return Iface{}
	})
	regv("os.UserHomeDir", func(p *Path, a []Value) Value { return Tuple{mkstr("/zz/home"), Iface{}} })
	regv("os.Getwd", func(p *Path, a []Value) Value { return Tuple{mkstr("/zz/tmp"), Iface{}} })
	regv("os.Getenv", func(p *Path, a []Value) Value {
		if s, _ := a[0].(Str).concrete(); s == "HOME" {
			return mkstr("/zz/home")
		}
		return mkstr("")
	})
	regv("os.Getpid", func(p *Path, a []Value) Value { return p.intv(4242) })
	regv("os.IsNotExist", func(p *Path, a []Value) Value { return p.boolv(p.errClass(a[0].(Iface)) == "notexist") })
	regv("os.IsExist", func(p *Path, a []Value) Value { return p.boolv(p.errClass(a[0].(Iface)) == "exist") })
	regv("os.IsPermission", func(p *Path, a []Value) Value { return p.boolv(p.errClass(a[0].(Iface)) == "permission") })

	file := func(name string, f methodFn) {
		nativeMethods["os.File."+name] = f
		regv("(*os.File)."+name, f)
	}
	file("Write", func(p *Path, a []Value) Value {
		n, e := p.fileWrite(a[0], sliceTerms(a[1]))
		return Tuple{p.intv(n), e}
	})
	file("WriteString", func(p *Path, a []Value) Value {
		n, e := p.fileWrite(a[0], p.sbytes(a[1].(Str)))
		return Tuple{p.intv(n), e}
	})
	file("Read", func(p *Path, a []Value) Value {
		h := p.native(a[0], "os.File").(*fsHandle)
		dst := a[1].(SliceV)
		if h.null || h.off >= len(h.f.data) {
			if len(dst.a) == 0 {
				return Tuple{p.intv(0), Iface{}}
			}
			return Tuple{p.intv(0), *p.global(p.e.pkgByPath["io"].Var("EOF"))}
		}
		n := 0
		for n < len(dst.a) && h.off < len(h.f.data) {
			dst.a[n] = h.f.data[h.off]
			n++
			h.off++
		}
		return Tuple{p.intv(n), Iface{}}
	})
	file("Close", func(p *Path, a []Value) Value { return p.closeFile(a[0]) })
	file("Sync", func(p *Path, a []Value) Value {
		h := p.native(a[0], "os.File").(*fsHandle)
		if p.fsStep("sync") == fFail {
			return p.pathError("sync", h.path, eIO)
		}
		return Iface{}
	})
	file("Name", func(p *Path, a []Value) Value { return mkstr(p.native(a[0], "os.File").(*fsHandle).path) })
	file("Fd", func(p *Path, a []Value) Value { return p.cint(64, 7) })
	file("Stat", func(p *Path, a []Value) Value {
		h := p.native(a[0], "os.File").(*fsHandle)
		return Tuple{p.finfoOf(h.path, h.f), Iface{}}
	})
	file("Chmod", func(p *Path, a []Value) Value {
		h := p.native(a[0], "os.File").(*fsHandle)
		if p.fsStep("chmod") == fFail {
			return p.pathError("chmod", h.path, eACCES)
		}
		h.f.mode = p.perm(a[1])
		return Iface{}
	})
	file("Truncate", func(p *Path, a []Value) Value {
		h := p.native(a[0], "os.File").(*fsHandle)
		if p.fsStep("truncate") == fFail {
			return p.pathError("truncate", h.path, eIO)
		}
		k := p.intOf(a[1])
		if k < len(h.f.data) {
			h.f.data = h.f.data[:k:k]
		}
		return Iface{}
	})
	file("Seek", func(p *Path, a []Value) Value {
		h := p.native(a[0], "os.File").(*fsHandle)
		k := p.intOf(a[1])
		switch p.intOf(a[2]) {
		case 0:
			h.off = k
		case 1:
			h.off += k
		case 2:
			h.off = len(h.f.data) + k
		}
		return Tuple{p.intv(h.off), Iface{}}
	})
	fi := func(name string, f func(p *Path, x *finfo) Value) {
		nativeMethods["fileInfo."+name] = func(p *Path, a []Value) Value { return f(p, a[0].(*NativeObj).x.(*finfo)) }
	}
	fi("IsDir", func(p *Path, x *finfo) Value { return p.boolv(x.dir) })
	fi("Size", func(p *Path, x *finfo) Value { return p.intv(x.size) })
	fi("Name", func(p *Path, x *finfo) Value { return mkstr(x.name) })
	fi("Mode", func(p *Path, x *finfo) Value {
		if x.dir {
			return p.bd.Bin(OBOr, x.mode, p.cint(32, 1<<31))
		}
		return x.mode
	})
	nativeMethods["fileInfo.Sys"] = func(p *Path, a []Value) Value { return Iface{} }
	regv("(syscall.Errno).Error", func(p *Path, a []Value) Value { return mkstr(errnoText(p.intOf(a[0]))) })
	regv("(syscall.Errno).Is", func(p *Path, a []Value) Value {
		n := p.intOf(a[0])
		t := a[1].(Iface)
		for name, ns := range map[string][]int{"ErrNotExist": {eNOENT}, "ErrExist": {eEXIST, eNOTEMPTY}, "ErrPermission": {eACCES, 1}} {
			e := p.oserr(name, map[string]string{"ErrNotExist": "file does not exist", "ErrExist": "file already exists", "ErrPermission": "permission denied"}[name])
			if t.v == e.v {
				for _, k := range ns {
					if k == n {
						return p.bd.T
					}
				}
			}
		}
		return p.bd.F
	})
	regv("(*io/fs.PathError).Error", func(p *Path, a []Value) Value {
		s := (*p.ptr(a[0])).(Struct)
		return p.concatAll(s[0].(Str), mkstr(" "), s[1].(Str), mkstr(": "), p.callMethod(s[2].(Iface), "Error").(Str))
	})
	regv("(*io/fs.PathError).Unwrap", func(p *Path, a []Value) Value { return (*p.ptr(a[0])).(Struct)[2] })
	regv("(*os.LinkError).Error", func(p *Path, a []Value) Value {
		s := (*p.ptr(a[0])).(Struct)
		return p.concatAll(s[0].(Str), mkstr(" "), s[1].(Str), mkstr(" "), s[2].(Str), mkstr(": "), p.callMethod(s[3].(Iface), "Error").(Str))
	})
	regv("(*os.LinkError).Unwrap", func(p *Path, a []Value) Value { return (*p.ptr(a[0])).(Struct)[3] })
}

func (p *Path) concatAll(ss ...Str) Str {
	r := ss[0]
	for _, s := range ss[1:] {
		r = p.concat(r, s)
	}
	return r
}

func (p *Path) closeFile(v Value) Iface {
	h := p.native(v, "os.File").(*fsHandle)
	if h.null {
		return Iface{}
	}
	if h.closed {
		return p.pathErrorE("close", h.path, p.oserr("ErrClosed", "file already closed"))
	}
	h.closed = true
	return Iface{}
}

func errnoText(n int) string {
	switch n {
	case eNOENT:
		return "no such file or directory"
	case eIO:
		return "input/output error"
	case eACCES:
		return "permission denied"
	case eEXIST:
		return "file exists"
	case eNOTDIR:
		return "not a directory"
	case eISDIR:
		return "is a directory"
	case eINVAL:
		return "invalid argument"
	case eNOSPC:
		return "no space left on device"
	case eNOTEMPTY:
		return "directory not empty"
	}
	return fmt.Sprintf("errno %d", n)
}

// errClass follows os.IsNotExist etc.: one level of PathError/LinkError.
func (p *Path) errClass(e Iface) string {
	if e.t == nil {
		return ""
	}
	if c, ok := e.v.(*Value); ok && c != nil {
		if s, ok := (*c).(Struct); ok {
			ts := e.t.String()
			if ts == "*io/fs.PathError" || ts == "*os.LinkError" || ts == "*os.SyscallError" {
				e = s[len(s)-1].(Iface)
			}
		}
	}
	if e.t != nil && e.t.String() == "syscall.Errno" {
		switch p.intOf(e.v) {
		case eNOENT:
			return "notexist"
		case eEXIST, eNOTEMPTY:
			return "exist"
		case eACCES, 1:
			return "permission"
		}
		return ""
	}
	for name, c := range map[string]string{"ErrNotExist": "notexist", "ErrExist": "exist", "ErrPermission": "permission"} {
		if x, ok := p.w.oserr[name]; ok && x.v == e.v {
			return c
		}
	}
	return ""
}

func (w *World) listFiles() []string {
	var r []string
	for k, f := range w.files {
		if !f.dir {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}

// perm: a file mode given as an argument. The bits of the file system are kept.
func (p *Path) perm(v Value) *Term {
	return p.bd.Bin(OBAnd, p.bd.Extract(v.(*Term), 0, 32), p.cint(32, 0777))
}

func (p *Path) cperm(m uint64) *Term { return p.bd.Const(32, m) }

func (p *Path) umasked(m *Term) *Term { return p.bd.Bin(OBAnd, m, p.bd.BNot(p.w.umask)) }
