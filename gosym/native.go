package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"
)

// NativeCase is one concrete run handed to the compiled harness.
type NativeCase struct {
	Harness  string        `json:"harness"`
	Inputs   []ReplayInput `json:"inputs"`
	Thorough bool          `json:"thorough"`
	TimeoutS int           `json:"timeout_s"`
	Race     bool          `json:"race"`
	Pattern  int           `json:"pattern"`
}

type NativeResult struct {
	Failed       []string  `json:"failed"`
	Panic        string    `json:"panic"`
	Hang         bool      `json:"hang"`
	AssumeFailed bool      `json:"assume_failed"`
	Notes        []NoteVal `json:"notes"`
	Asserts      int       `json:"asserts"`
	Covers       []string  `json:"covers"`
	Error        string    `json:"error"`
	Missing      []string  `json:"missing"`
	RaceReport   string    `json:"-"`
	Ran          bool      `json:"-"`
}

// Native builds and runs the harnesses against the real code.
type Native struct {
	repo, harness, scratch string
	done                   chan struct{}
	err                    error
	buildTime              time.Duration
	bin                    string
}

func modfiles(repo, scratch string) (string, error) {
	mf := filepath.Join(scratch, "go.mod")
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, f))
		if err != nil {
			return "", err
		}
		if err := os.WriteFile(filepath.Join(scratch, f), b, 0600); err != nil {
			return "", err
		}
	}
	return mf, nil
}

var reHarness = regexp.MustCompile(`(?m)^func (C\d\d\w*)\(\) \{`)

func StartNative(repo, harness, scratch, binName string, extra ...string) *Native {
	n := &Native{repo: repo, harness: harness, scratch: scratch, done: make(chan struct{}), bin: filepath.Join(scratch, binName)}
	go func() {
		defer close(n.done)
		t0 := time.Now()
		n.err = n.build(extra)
		n.buildTime = time.Since(t0)
	}()
	return n
}

func (n *Native) build(extra []string) error {
	tmpl, err := os.ReadFile(filepath.Join(n.harness, "run/main.go.tmpl"))
	if err != nil {
		return err
	}
	var names []string
	fs, _ := filepath.Glob(filepath.Join(n.harness, "h", "*.go"))
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		for _, m := range reHarness.FindAllStringSubmatch(string(b), -1) {
			names = append(names, m[1])
		}
	}
	sort.Strings(names)
	var reg strings.Builder
	for _, x := range names {
		fmt.Fprintf(&reg, "\t%q: h.%s,\n", x, x)
	}
	dir := filepath.Join(n.scratch, "src-"+filepath.Base(n.bin))
	os.MkdirAll(dir, 0700)
	mainf := filepath.Join(dir, "main.go")
	if err := os.WriteFile(mainf, []byte(strings.Replace(string(tmpl), "//REGISTRY", reg.String(), 1)), 0600); err != nil {
		return err
	}
	ov := overlayFiles(n.repo, n.harness)
	ov[filepath.Join(n.repo, "internal/zzverif/cmd/main.go")] = mainf
	oj, _ := json.Marshal(map[string]any{"Replace": ov})
	ovf := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(ovf, oj, 0600); err != nil {
		return err
	}
	mf := filepath.Join(n.scratch, "go.mod")
	args := append([]string{"build", "-modfile=" + mf, "-overlay", ovf, "-gcflags=" + modPath + "/...=-l", "-o", n.bin}, extra...)
	args = append(args, "./internal/zzverif/cmd")
	cmd := exec.Command("go", args...)
	cmd.Dir = n.repo
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("native build: %v\n%s", err, out)
	}
	return nil
}

// Run runs the cases, restarting after hangs.
func (n *Native) Run(cases []NativeCase) ([]NativeResult, error) {
	<-n.done
	if n.err != nil {
		return nil, n.err
	}
	res := make([]NativeResult, len(cases))
	if len(cases) == 0 {
		return res, nil
	}
	d, err := os.MkdirTemp(n.scratch, "run")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(d)
	cj, _ := json.Marshal(cases)
	cf, of := filepath.Join(d, "cases.json"), filepath.Join(d, "out.jsonl")
	os.WriteFile(cf, cj, 0600)
	next := 0
	for next < len(cases) {
		cmd := exec.Command(n.bin, cf, of, fmt.Sprint(next), d)
		var eb bytes.Buffer
		cmd.Stderr = &eb
		cmd.Env = append(os.Environ(), "TZ=UTC", "GORACE=halt_on_error=1", "GOMEMLIMIT=2GiB")
		tm := time.AfterFunc(300*time.Second, func() { cmd.Process.Kill() })
		rerr := cmd.Run()
		tm.Stop()
		ob, _ := os.ReadFile(of)
		last := -1
		for _, l := range strings.Split(string(ob), "\n") {
			var i int
			sp := strings.IndexByte(l, ' ')
			if sp < 0 {
				continue
			}
			fmt.Sscan(l[:sp], &i)
			if json.Unmarshal([]byte(l[sp:]), &res[i]) == nil {
				res[i].Ran = true
				if i > last {
					last = i
				}
			}
		}
		if strings.Contains(eb.String(), "WARNING: DATA RACE") && last >= 0 {
			for i := next; i <= last && i < len(res); i++ {
				if cases[i].Race {
					res[i].RaceReport = eb.String()
				}
			}
		}
		if last+1 > next {
			next = last + 1
			continue
		}
		if rerr != nil {
			// the process died in case `next` (fatal error, killed)
			res[next] = NativeResult{Ran: true, Panic: "process died: " + tail(eb.String(), 600)}
			if strings.Contains(eb.String(), "WARNING: DATA RACE") && cases[next].Race {
				res[next].RaceReport = eb.String()
			}
			next++
			continue
		}
		break
	}
	return res, nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
