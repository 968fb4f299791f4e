package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type knownEntry struct {
	prop, key, text string
	fixed           bool
}

func loadKnown(file string) []knownEntry {
	b, _ := os.ReadFile(file)
	var out []knownEntry
	re := regexp.MustCompile(`^(known|fixed): property=(C\d\d) (\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			out = append(out, knownEntry{prop: m[2], key: strings.TrimPrefix(m[3], "key="), text: m[4], fixed: m[1] == "fixed"})
		}
	}
	return out
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	root := flag.String("root", "/verif", "verification root")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	only := flag.String("only", "", "harness name regexp")
	workers := flag.Int("workers", runtime.NumCPU(), "solver processes")
	budget := flag.Int("budget", 0, "seconds for exploration")
	verbose := flag.Bool("v", false, "verbose")
	debug := flag.Bool("debug", false, "let engine panics through")
	flag.Parse()
	if flag.NArg() < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym [flags] check ID | replay FILE")
		os.Exit(2)
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	d := &Driver{repo: *repo, root: *root, tier: *tier, only: *only, workers: *workers, budget: *budget, verbose: *verbose, debug: *debug}
	switch flag.Arg(0) {
	case "natives":
		names := []string{}
		for n := range natives {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			fmt.Println(n)
		}
	case "check":
		os.Exit(d.check(flag.Arg(1)))
	case "replay":
		os.Exit(d.replay(flag.Arg(1)))
	}
	os.Exit(2)
}

type Driver struct {
	repo, root, tier, only string
	workers, budget        int
	verbose, debug         bool
	scratch                string
}

func (d *Driver) fail(err error) int {
	logf("error: %v", err)
	return 2
}

type harnessReport struct {
	Name        string                 `json:"harness"`
	Paths       int                    `json:"paths_explored"`
	Completed   int                    `json:"paths_completed"`
	Infeasible  int                    `json:"paths_infeasible"`
	Incomplete  map[string]int         `json:"paths_outside_the_encoding,omitempty"`
	Truncated   bool                   `json:"truncated_by_budget"`
	Asserts     map[string]*AssertStat `json:"assertions"`
	Covers      map[string]int         `json:"cover_points,omitempty"`
	Bounds      []string               `json:"bounds,omitempty"`
	Decisions   int64                  `json:"decisions"`
	MaxDepth    int                    `json:"max_decision_depth"`
	Seconds     float64                `json:"seconds"`
	Validated   int                    `json:"witnesses_validated"`
	Unconfirmed []string               `json:"unconfirmed_candidates,omitempty"`
}

func (d *Driver) check(id string) int {
	t0 := time.Now()
	runtime.GOMAXPROCS(runtime.NumCPU())
	var err error
	d.scratch, err = os.MkdirTemp("", "gosym-"+id+"-")
	if err != nil {
		return d.fail(err)
	}
	defer os.RemoveAll(d.scratch)
	if _, err := modfiles(d.repo, d.scratch); err != nil {
		return d.fail(err)
	}
	hdir := filepath.Join(d.root, "harness")
	nat := StartNative(d.repo, hdir, d.scratch, "run")
	e, err := LoadEngine(d.repo, hdir, filepath.Join(d.scratch, "go.mod"))
	if err != nil {
		return d.fail(err)
	}
	e.verbose, e.debug, e.thorough = d.verbose, d.debug, d.tier == "thorough"
	fns := e.harnesses(id)
	if d.only != "" {
		re := regexp.MustCompile(d.only)
		var k = fns[:0]
		for _, f := range fns {
			if re.MatchString(f.Name()) {
				k = append(k, f)
			}
		}
		fns = k
	}
	if len(fns) == 0 {
		return d.fail(fmt.Errorf("no harness for %s", id))
	}
	if d.verbose {
		logf("loaded in %v", time.Since(t0))
	}
	budget := time.Duration(d.budget) * time.Second
	if budget == 0 {
		budget = 100 * time.Second
		if e.thorough {
			budget = 600 * time.Second
		}
	}
	end := time.Now().Add(budget)
	known := loadKnown(filepath.Join(d.root, "known_findings.txt"))
	var reports []*harnessReport
	type pending struct {
		v    *Violation
		w    *Witness
		rep  *harnessReport
		name string
		race bool
		idx  int
		alts []int // the same inputs under other schedules
	}
	var pend []*pending
	var cases []NativeCase
	funcs, stubs := map[string]bool{}, map[string]int{}
	bounds := map[string]bool{}
	var states, transitions int64
	var samples []any
	for i, f := range fns {
		h := NewHarness(e, f)
		left := time.Until(end)
		h.deadline = time.Now().Add(left / time.Duration(len(fns)-i) * 3 / 2)
		if h.deadline.After(end) {
			h.deadline = end
		}
		h.maxPaths = 60000
		if e.thorough {
			h.maxPaths = 2000000
		}
		ht := time.Now()
		h.Explore(d.workers)
		rep := &harnessReport{Name: f.Name(), Paths: h.paths, Completed: h.completed, Infeasible: h.infeasible, Incomplete: h.incomplete,
			Truncated: h.truncated, Asserts: h.asserts, Covers: h.covers, Bounds: sortedKeys(h.bounds), Decisions: h.transitions,
			MaxDepth: h.depthMax, Seconds: float64(int(time.Since(ht).Seconds()*100)) / 100}
		reports = append(reports, rep)
		for k := range h.funcs {
			funcs[k] = true
		}
		for k, n := range h.stubs {
			stubs[k] += n
		}
		for k := range h.bounds {
			bounds[k] = true
		}
		states += int64(h.completed)
		transitions += h.transitions
		viol := spread(h.viol, 8)
		for _, v := range viol {
			c := NativeCase{Harness: f.Name(), Inputs: v.Inputs, Thorough: e.thorough}
			if v.Hang {
				c.TimeoutS = 10
			}
			if v.Race {
				c.Race = true
				c.TimeoutS = 25
			}
			pend = append(pend, &pending{v: v, rep: rep, name: f.Name(), idx: len(cases), race: v.Race})
			cases = append(cases, c)
			for n := 1; v.Sched && n <= 24; n++ {
				c.Pattern = n
				pend[len(pend)-1].alts = append(pend[len(pend)-1].alts, len(cases))
				cases = append(cases, c)
			}
		}
		for _, w := range append(h.wits, h.partial...) {
			pend = append(pend, &pending{w: w, rep: rep, name: f.Name(), idx: len(cases)})
			cases = append(cases, NativeCase{Harness: f.Name(), Inputs: w.Inputs, Thorough: e.thorough})
		}
		if len(h.wits) > 0 && len(samples) < 6 {
			in := h.wits[len(h.wits)-1].Inputs
			m := map[string]any{"harness": f.Name()}
			if len(in) > 40 {
				m["inputs_left_out"] = len(in) - 40
				in = in[:40]
			}
			m["path_witness"] = in
			samples = append(samples, m)
		}
		if d.verbose {
			j, _ := json.MarshalIndent(rep, "", " ")
			logf("%s", j)
		}
	}
	// replay
	norm := make([]NativeResult, len(cases))
	var plain []NativeCase
	var plainIdx []int
	var raceIdx []int
	for i, c := range cases {
		if c.Race {
			raceIdx = append(raceIdx, i)
			continue
		}
		plain = append(plain, c)
		plainIdx = append(plainIdx, i)
	}
	rt := time.Now()
	res, err := runSplit(nat, plain, 4)
	if err != nil {
		return d.fail(err)
	}
	for k, r := range res {
		norm[plainIdx[k]] = r
	}
	if len(raceIdx) > 0 {
		rn := StartNative(d.repo, hdir, d.scratch, "runrace", "-race")
		seen := map[string]int{}
		for _, i := range raceIdx {
			key := cases[i].Harness
			if seen[key]++; seen[key] > 4 {
				continue
			}
			rr, err := rn.Run([]NativeCase{cases[i]})
			if err != nil {
				return d.fail(err)
			}
			norm[i] = rr[0]
			if r := rr[0]; r.RaceReport != "" || r.Hang {
				seen[key] = 100
			}
		}
	}
	replayT := time.Since(rt)
	validated := 0
	type found struct {
		assert, key, msg, harness string
		c                         NativeCase
		r                         NativeResult
	}
	var founds []found
	var unconf []string
	for _, pd := range pend {
		r := norm[pd.idx]
		c := cases[pd.idx]
		if !r.Ran {
			continue
		}
		if pd.v != nil {
			v := pd.v
			want := v.Assert
			if v.Known != "" {
				want += "|" + v.Known
			}
			confirms := func(r NativeResult) bool {
				switch {
				case v.Race && v.Hang:
					return r.Hang
				case v.Race:
					return r.RaceReport != "" || strings.Contains(r.Panic, "concurrent map")
				case v.Hang:
					return r.Hang
				case v.Assert == "nopanic":
					return r.Panic != ""
				}
				for _, f := range r.Failed {
					if f == want {
						return true
					}
				}
				return false
			}
			ok := confirms(r)
			for _, x := range pd.alts {
				if !ok && norm[x].Ran && confirms(norm[x]) {
					r, c, ok = norm[x], cases[x], true
				}
			}
			if ok {
				founds = append(founds, found{v.Assert, v.Known, v.Msg, pd.name, c, r})
				validated++
				continue
			}
			if len(r.Failed) == 0 && r.Panic == "" && !r.Hang {
				u := fmt.Sprintf("%s %s %s", pd.name, want, v.Msg)
				pd.rep.Unconfirmed = append(pd.rep.Unconfirmed, u)
				if len(unconf) < 20 {
					ij, _ := json.Marshal(v.Inputs)
					unconf = append(unconf, fmt.Sprintf("%s assume_failed=%v err=%s missing=%v inputs=%s", u, r.AssumeFailed, r.Error, r.Missing, ij))
				}
				continue
			}
		}
		// any failure of the real code counts, whichever path led to it
		switch {
		case r.Hang:
			founds = append(founds, found{"terminates", "", "did not terminate", pd.name, c, r})
		case r.Panic != "":
			founds = append(founds, found{"nopanic", "", r.Panic, pd.name, c, r})
		case len(r.Failed) > 0:
			for _, f := range r.Failed {
				a, k, _ := strings.Cut(f, "|")
				founds = append(founds, found{a, k, "", pd.name, c, r})
			}
		case pd.w != nil && !r.AssumeFailed && r.Error == "":
			if !pd.w.UF && !pd.w.Partial {
				if diff := diffNotes(pd.w.Notes, r.Notes); diff != "" {
					u := pd.name + ": observations differ: " + diff
					pd.rep.Unconfirmed = append(pd.rep.Unconfirmed, u)
					if len(unconf) < 20 {
						ij, _ := json.Marshal(pd.w.Inputs)
						unconf = append(unconf, u+" inputs="+string(ij))
					}
					continue
				}
			}
			pd.rep.Validated++
			validated++
		case pd.w != nil && !pd.w.UF && !pd.w.Partial:
			ij, _ := json.Marshal(pd.w.Inputs)
			unconf = append(unconf, fmt.Sprintf("%s: witness not replayed: assume_failed=%v err=%s inputs=%s", pd.name, r.AssumeFailed, r.Error, ij))
		}
	}
	// verdict
	os.MkdirAll(filepath.Join(d.root, "evidence"), 0755)
	code := 0
	nviol := 0
	printed := map[string]bool{}
	sort.SliceStable(founds, func(i, j int) bool { return founds[i].key == "" && founds[j].key != "" })
	var findings []string
	for _, f := range founds {
		k := f.harness + "|" + f.assert + "|" + f.key
		if f.key != "" {
			k = f.key
		}
		if printed[k] {
			continue
		}
		printed[k] = true
		if f.key != "" {
			listed := false
			for _, kn := range known {
				if !kn.fixed && kn.prop == id && kn.key == f.key {
					fmt.Printf("KNOWN-FINDING: property=%s key=%s %s\n", id, f.key, kn.text)
					findings = append(findings, f.key)
					listed = true
				}
			}
			if listed {
				continue
			}
		}
		nviol++
		code = 1
		path := filepath.Join(d.root, "evidence", fmt.Sprintf("%s.replay%d.json", id, nviol))
		j, _ := json.MarshalIndent(map[string]any{"property": id, "harness": f.harness, "assertion": f.assert, "key": f.key, "message": f.msg, "case": f.c, "real_run": f.r, "race_report": tail(f.r.RaceReport, 4000)}, "", " ")
		os.WriteFile(path, j, 0644)
		if nviol <= 8 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
			fmt.Printf("  harness %s, assertion %s %s %s\n", f.harness, f.assert, f.key, firstLine(f.msg))
		}
	}
	for _, u := range unconf {
		logf("unconfirmed: %s", u)
	}
	solver := map[string]any{"queries": atomic.LoadInt64(&statQueries), "sat": atomic.LoadInt64(&statSat), "unsat": atomic.LoadInt64(&statUnsat),
		"unknown": atomic.LoadInt64(&statUnknown), "solver_seconds": float64(atomic.LoadInt64(&statSolveNs)/1e6) / 1000, "solver": "z3 4.8.12 (QF_BV, incremental, one process per worker)"}
	exh := true
	inc := map[string]int{}
	for _, r := range reports {
		if r.Truncated || len(r.Incomplete) > 0 {
			exh = false
		}
		for k, n := range r.Incomplete {
			inc[k] += n
		}
	}
	var fl []string
	for _, k := range sortedKeys(funcs) {
		if !strings.Contains(k, "zzverif") {
			fl = append(fl, strings.ReplaceAll(k, modPath, "identity"))
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if samples == nil {
		samples = []any{}
	}
	if len(unconf) == 0 {
		unconf = nil
	}
	ev := map[string]any{"property": id, "tier": d.tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{"states": states, "transitions": transitions, "traces_validated_against_impl": validated, "samples": samples,
			"exhaustive": exh, "harnesses": reports, "functions_encoded": fl, "functions_stubbed": sortedKeys(stubs), "bounds": sortedKeys(bounds),
			"outside_the_encoding": inc, "solver": solver, "known_findings_confirmed": findings, "unconfirmed_candidates": unconf,
			"states_are": "feasible execution paths completed symbolically; transitions are the branch, length and fault decisions on them",
			"load_s":     e.loadTime.Seconds(), "native_build_s": nat.buildTime.Seconds(), "replay_s": replayT.Seconds()},
		"assumptions": trustedBase, "wall_s": time.Since(t0).Seconds(), "violations": nviol}
	j, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(d.root, "evidence", id+".json"), j, 0644); err != nil {
		return d.fail(err)
	}
	for _, k := range sortedKeys(inc) {
		logf("outside the encoding: %d x %s", inc[k], k)
	}
	for _, r := range reports {
		if r.Truncated {
			logf("truncated by the budget: %s", r.Name)
		}
	}
	fmt.Printf("%s %s: %d paths, %d decisions, %d queries (%.1fs solver), %d traces validated, %d violations, exhaustive=%v, %.1fs\n", id, d.tier, states, transitions,
		atomic.LoadInt64(&statQueries), float64(atomic.LoadInt64(&statSolveNs))/1e9, validated, nviol, exh, time.Since(t0).Seconds())
	return code
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

func runSplit(n *Native, cases []NativeCase, k int) ([]NativeResult, error) {
	if len(cases) < 2*k {
		return n.Run(cases)
	}
	out := make([]NativeResult, len(cases))
	errs := make(chan error, k)
	for w := 0; w < k; w++ {
		go func(w int) {
			var idx []int
			var cs []NativeCase
			for i := w; i < len(cases); i += k {
				idx = append(idx, i)
				cs = append(cs, cases[i])
			}
			r, err := n.Run(cs)
			for j, x := range r {
				out[idx[j]] = x
			}
			errs <- err
		}(w)
	}
	for w := 0; w < k; w++ {
		if err := <-errs; err != nil {
			return nil, err
		}
	}
	return out, nil
}

func diffNotes(a, b []NoteVal) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d vs %d notes: %v vs %v", len(a), len(b), a, b)
	}
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("%s: symbolic %s, real %s", a[i].Name, a[i].Val, b[i].Val)
		}
	}
	return ""
}

func (d *Driver) replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		return d.fail(err)
	}
	var x struct {
		Case NativeCase `json:"case"`
	}
	if err := json.Unmarshal(b, &x); err != nil {
		return d.fail(err)
	}
	d.scratch, err = os.MkdirTemp("", "gosym-replay-")
	if err != nil {
		return d.fail(err)
	}
	defer os.RemoveAll(d.scratch)
	if _, err := modfiles(d.repo, d.scratch); err != nil {
		return d.fail(err)
	}
	var extra []string
	if x.Case.Race {
		extra = []string{"-race"}
	}
	n := StartNative(d.repo, filepath.Join(d.root, "harness"), d.scratch, "run", extra...)
	r, err := n.Run([]NativeCase{x.Case})
	if err != nil {
		return d.fail(err)
	}
	j, _ := json.MarshalIndent(r[0], "", " ")
	fmt.Printf("%s\n%s\n", j, r[0].RaceReport)
	if len(r[0].Failed) > 0 || r[0].Panic != "" || r[0].Hang || r[0].RaceReport != "" {
		return 1
	}
	return 0
}

var trustedBase = []string{
	"the SSA form of golang.org/x/tools/go/ssa and this engine's semantics of it (every path witness sampled is replayed on the compiled code and compared)",
	"z3's verdicts",
	"bcrypt idealised: a hash verifies exactly the inputs with the same 72-byte effective key",
	"SHA-2 collision free and HMAC an arbitrary function when their inputs are symbolic; ECDSA signatures verify only for the signed data and key",
	"encoding/json modelled as a tree transformation with Go's field matching and type errors; symbolic strings are ASCII there",
	"the file system modelled as a map of path to bytes; a crash keeps all completed writes",
}

// spread leaves, of the violations which depend on the schedule, n of each
// assertion, of inputs as different as possible.
func spread(vs []*Violation, n int) []*Violation {
	by := map[string][]*Violation{}
	seen := map[string]bool{}
	var rest []*Violation
	var ids []string
	for _, v := range vs {
		if !v.Sched {
			rest = append(rest, v)
			continue
		}
		j, _ := json.Marshal(v.Inputs)
		if seen[v.Assert+string(j)] {
			continue
		}
		seen[v.Assert+string(j)] = true
		if by[v.Assert] == nil {
			ids = append(ids, v.Assert)
		}
		by[v.Assert] = append(by[v.Assert], v)
	}
	for _, id := range ids {
		l := by[id]
		for i := 0; i < n && i < len(l); i++ {
			k := i
			if len(l) > n {
				k = i * (len(l) - 1) / (n - 1)
			}
			rest = append(rest, l[k])
		}
	}
	return rest
}
