package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// Solver talks SMT-LIB2 to one z3 process. One path is one push level.
type Solver struct {
	bin     string
	cmd     *exec.Cmd
	in      *bufio.Writer
	stdin   io.WriteCloser
	out     *bufio.Reader
	defined []bool // by term id, current path
	vars    []*Term
	pc      []*Term
	dead    bool
	timeout int
}

var (
	statQueries int64
	statSat     int64
	statUnsat   int64
	statUnknown int64
	statSolveNs int64
	statSlow    int64
)

func NewSolver(bin string, timeoutMs int) (*Solver, error) {
	s := &Solver{bin: bin, timeout: timeoutMs}
	return s, s.start()
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin, "-in", "-memory:3000")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.stdin = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.dead = false
	fmt.Fprintf(s.in, "(set-option :produce-models true)\n(set-option :timeout %d)\n(set-logic QF_BV)\n", s.timeout)
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.stdin.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) Begin() {
	if s.dead {
		s.Close()
		s.start()
	}
	s.defined = s.defined[:0]
	s.vars = s.vars[:0]
	s.pc = s.pc[:0]
	fmt.Fprint(s.in, "(push 1)\n")
}

func (s *Solver) End() {
	if !s.dead {
		fmt.Fprint(s.in, "(pop 1)\n")
	}
}

func (s *Solver) isDef(t *Term) bool { return int(t.id) < len(s.defined) && s.defined[t.id] }
func (s *Solver) setDef(t *Term) {
	for int(t.id) >= len(s.defined) {
		s.defined = append(s.defined, make([]bool, 256)...)
	}
	s.defined[t.id] = true
}

// define emits declarations for t and everything below it.
func (s *Solver) define(t *Term) {
	if t == nil || t.op == OConst || s.isDef(t) {
		return
	}
	if t.op == OVar {
		fmt.Fprintf(s.in, "(declare-const |%s| %s)\n", t.name, sortName(t.w))
		s.vars = append(s.vars, t)
		s.setDef(t)
		return
	}
	s.define(t.a)
	s.define(t.b)
	s.define(t.c)
	fmt.Fprintf(s.in, "(define-fun t%d () %s %s)\n", t.id, sortName(t.w), t.body())
	s.setDef(t)
}

func (s *Solver) Assert(t *Term) {
	if t.isTrue() {
		return
	}
	s.define(t)
	s.pc = append(s.pc, t)
	fmt.Fprintf(s.in, "(assert %s)\n", t.ref())
}

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// Check decides the path condition plus extra; on Sat it returns a model.
func (s *Solver) Check(extra *Term) (Res, Model) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		atomic.AddInt64(&statSolveNs, int64(d))
		if d > time.Second {
			atomic.AddInt64(&statSlow, 1)
		}
	}()
	atomic.AddInt64(&statQueries, 1)
	if s.dead {
		atomic.AddInt64(&statUnknown, 1)
		return Unknown, nil
	}
	if extra != nil {
		s.define(extra)
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", extra.ref())
	}
	fmt.Fprint(s.in, "(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		s.dead = true
		atomic.AddInt64(&statUnknown, 1)
		return Unknown, nil
	}
	line, err := s.readLine()
	if err != nil {
		s.dead = true
		atomic.AddInt64(&statUnknown, 1)
		return Unknown, nil
	}
	var res Res
	var m Model
	switch line {
	case "sat":
		res = Sat
		m = s.getModel()
		if m == nil {
			res = Unknown
		}
	case "unsat":
		res = Unsat
	default:
		res = Unknown
		if strings.HasPrefix(line, "(error") {
			logf("solver error: %s", line)
			s.dead = true
		}
	}
	if extra != nil && !s.dead {
		fmt.Fprint(s.in, "(pop 1)\n")
	}
	if res == Unknown {
		res, m = s.oneShot(extra)
	}
	switch res {
	case Sat:
		atomic.AddInt64(&statSat, 1)
	case Unsat:
		atomic.AddInt64(&statUnsat, 1)
	default:
		atomic.AddInt64(&statUnknown, 1)
	}
	return res, m
}

func parseVal(tok string) (uint64, bool) {
	switch {
	case tok == "true":
		return 1, true
	case tok == "false":
		return 0, true
	case strings.HasPrefix(tok, "#x"):
		v, err := strconv.ParseUint(tok[2:], 16, 64)
		return v, err == nil
	case strings.HasPrefix(tok, "#b"):
		v, err := strconv.ParseUint(tok[2:], 2, 64)
		return v, err == nil
	}
	return 0, false
}

func (s *Solver) getModel() Model {
	m := Model{}
	if len(s.vars) == 0 {
		return m
	}
	fmt.Fprint(s.in, "(get-value (")
	for _, v := range s.vars {
		fmt.Fprintf(s.in, " |%s|", v.name)
	}
	fmt.Fprint(s.in, "))\n")
	if err := s.in.Flush(); err != nil {
		s.dead = true
		return nil
	}
	txt, err := readSexp(s.out)
	if err != nil || strings.HasPrefix(txt, "(error") {
		logf("get-value failed: %v %.200s", err, txt)
		s.dead = true
		return nil
	}
	parseModel(txt, m)
	return m
}

func readSexp(r *bufio.Reader) (string, error) {
	var sb strings.Builder
	depth := 0
	inBar := false
	started := false
	for {
		c, err := r.ReadByte()
		if err != nil {
			return sb.String(), err
		}
		if !started && (c == '\n' || c == ' ' || c == '\r') {
			continue
		}
		started = true
		sb.WriteByte(c)
		if c == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if c == '(' {
			depth++
		}
		if c == ')' {
			depth--
			if depth == 0 {
				r.ReadString('\n')
				return sb.String(), nil
			}
		}
	}
}

func parseModel(txt string, m Model) {
	// ((|name| value) ...) ; z3 may print simple names without bars.
	i := 1
	for i < len(txt) {
		if txt[i] != '(' {
			i++
			continue
		}
		i++
		var name string
		if txt[i] == '|' {
			j := strings.IndexByte(txt[i+1:], '|')
			name = txt[i+1 : i+1+j]
			i = i + j + 2
		} else {
			j := strings.IndexAny(txt[i:], " )")
			name = txt[i : i+j]
			i += j
		}
		for txt[i] == ' ' || txt[i] == '\n' {
			i++
		}
		j := strings.IndexByte(txt[i:], ')')
		if v, ok := parseVal(strings.TrimSpace(txt[i : i+j])); ok {
			m[name] = v
		}
		i += j + 1
	}
}

// oneShot re-tries a query the incremental solver gave up on, in a fresh
// process of each back end.
func (s *Solver) oneShot(extra *Term) (Res, Model) {
	var sb strings.Builder
	tmp := &Solver{in: bufio.NewWriter(&sb)}
	fmt.Fprint(tmp.in, "(set-option :produce-models true)\n(set-logic QF_BV)\n")
	for _, t := range s.pc {
		tmp.define(t)
		fmt.Fprintf(tmp.in, "(assert %s)\n", t.ref())
	}
	if extra != nil {
		tmp.define(extra)
		fmt.Fprintf(tmp.in, "(assert %s)\n", extra.ref())
	}
	vars := tmp.vars
	fmt.Fprint(tmp.in, "(check-sat)\n")
	if len(vars) > 0 {
		fmt.Fprint(tmp.in, "(get-value (")
		for _, v := range vars {
			fmt.Fprintf(tmp.in, " |%s|", v.name)
		}
		fmt.Fprint(tmp.in, "))\n")
	}
	tmp.in.Flush()
	for _, c := range [][]string{{"z3", "-in", "-T:60"}, {"z3-new", "-in", "-T:60"}, {"cvc5", "--lang", "smt2", "--tlimit=60000", "--produce-models"}} {
		cmd := exec.Command(c[0], c[1:]...)
		cmd.Stdin = strings.NewReader(sb.String())
		out, _ := cmd.Output()
		txt := string(out)
		switch {
		case strings.HasPrefix(txt, "unsat"):
			return Unsat, nil
		case strings.HasPrefix(txt, "sat"):
			m := Model{}
			rest := strings.TrimSpace(txt[3:])
			if rest != "" && rest[0] == '(' {
				parseModel(rest, m)
			}
			return Sat, m
		}
	}
	return Unknown, nil
}

func (m Model) clone() Model {
	r := make(Model, len(m)+16)
	for k, v := range m {
		r[k] = v
	}
	return r
}
