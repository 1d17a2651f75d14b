// vh runs the checks: it has TLC enumerate the behaviours of the specification
// in ../spec, replays each of them into the command line tool built from the
// working tree of the repository, and compares what the tool prints with what
// the specification says.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type harness struct {
	verif, repo, scratch string
	cli, logDriver       string
	prop                 string
	seed, deep           int
	tlcWorkers, workers  int
	mu                   sync.Mutex
	shared               map[string]*File
	sharedFile           map[string]string
}

// sharedFileOf returns the description of a shared file.
func (h *harness) sharedFileOf(name string, c *Case) (*File, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if f := h.shared[name]; f != nil {
		return f, nil
	}
	if f, ok := c.Shared[name]; ok {
		return &f, nil
	}
	return nil, fmt.Errorf("unknown shared file %s", name)
}

func (h *harness) sharedPath(name string, c *Case) (string, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if p, ok := h.sharedFile[name]; ok {
		return p, nil
	}
	f := h.shared[name]
	if f == nil && c.Shared != nil {
		if g, ok := c.Shared[name]; ok {
			f = &g
		}
	}
	if f == nil {
		return "", fmt.Errorf("unknown shared file %s", name)
	}
	p := filepath.Join(h.scratch, "shared-"+name)
	if err := f.write(p); err != nil {
		return "", err
	}
	h.sharedFile[name] = p
	return p, nil
}

func goEnv(scratch string) []string {
	env := []string{"GOTOOLCHAIN=local", "GOPROXY=off", "GO111MODULE=on", "GOWORK=off", "GOFLAGS=-mod=mod -buildvcs=false",
		"GOTMPDIR=" + scratch}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOTOOLCHAIN", "GOPROXY", "GO111MODULE", "GOWORK", "GOFLAGS", "GOTMPDIR":
		default:
			env = append(env, e)
		}
	}
	has := func(k string) bool {
		for _, e := range env {
			if strings.HasPrefix(e, k+"=") {
				return true
			}
		}
		return false
	}
	if !has("HOME") {
		env = append(env, "HOME=/root")
	}
	if !has("GOPATH") {
		env = append(env, "GOPATH=/root/go")
	}
	return env
}

func (h *harness) buildCLI() error {
	h.cli = filepath.Join(h.scratch, "db-recovery")
	if c := os.Getenv("VH_CLI"); c != "" { // for coverage runs
		h.cli = c
		return nil
	}
	cmd := exec.Command("go", "build", "-o", h.cli, "./cmd/db-recovery")
	cmd.Dir = h.repo
	cmd.Env = goEnv(h.scratch)
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("cannot build the tool: %v\n%s", err, out)
	}
	return nil
}

// Evidence is the evidence file.
type Evidence struct {
	Property   string                 `json:"property"`
	Tier       string                 `json:"tier"`
	Seed       int                    `json:"seed"`
	Level      string                 `json:"level"`
	Coverage   map[string]interface{} `json:"coverage"`
	Assump     []string               `json:"assumptions"`
	WallS      float64                `json:"wall_s"`
	Violations int                    `json:"violations"`
}

type jobResult struct {
	job   *Job
	st    TLCStats
	cases int
	runs  int
	err   error
}

func fatal(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "vh: "+format+"\n", a...)
	os.Exit(2)
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	d, _ := os.Getwd()
	for d != "/" {
		if _, err := os.Stat(filepath.Join(d, "spec", "Bytes.tla")); err == nil {
			return d
		}
		d = filepath.Dir(d)
	}
	return "/verif"
}

func main() {
	if len(os.Args) < 3 {
		fatal("usage: vh check PROPERTY | vh replay FILE | vh job PROPERTY JOB")
	}
	code := 2
	func() {
		h := &harness{verif: verifDir(), repo: "/repo", seed: 1, tlcWorkers: 8, workers: 8,
			shared: map[string]*File{}, sharedFile: map[string]string{}}
		if r := os.Getenv("VERIF_REPO"); r != "" {
			h.repo = r
		}
		if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
			h.seed = s & 0xffffff
		}
		if n, err := strconv.Atoi(os.Getenv("VH_WORKERS")); err == nil {
			h.workers = n
		}
		if os.Getenv("VERIF_TIER") == "thorough" {
			h.deep = 1
		}
		var err error
		if h.scratch, err = os.MkdirTemp("", "vh-"); err != nil {
			fatal("%v", err)
		}
		defer os.RemoveAll(h.scratch)
		os.Chmod(h.scratch, 0711)
		if err = h.buildCLI(); err == nil {
			err = h.buildLogDriver()
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "vh:", err)
			return
		}
		switch os.Args[1] {
		case "check":
			code = h.check(os.Args[2], os.Args[3:])
		case "corpus":
			code = h.corpus(os.Args[2])
		case "replay":
			code = h.replay(os.Args[2])
		default:
			fmt.Fprintln(os.Stderr, "vh: unknown command", os.Args[1])
		}
	}()
	os.Exit(code)
}

func (h *harness) replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, "vh:", err)
		return 2
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, "vh:", err)
		return 2
	}
	if p := props[v.Prop]; p != nil && p.prepare != nil {
		p.prepare(h, v.Case)
	}
	w, err := newWorker(h, 0)
	if err != nil {
		return 2
	}
	if os.Getenv("VH_KEEP") != "" {
		paths, err := w.materialise(v.Case)
		fmt.Println(paths, err)
		exec.Command("cp", "-r", w.dir, os.Getenv("VH_KEEP")).Run()
	}
	_, nv, outs := w.do(v.Case)
	for i, o := range outs {
		fmt.Printf("run %d: %+v\n", i, o)
	}
	if nv != nil {
		fmt.Printf("why: %s\n", nv.Why+nv.Machine)
		return 1
	}
	return 0
}

type known struct {
	Property, Case, What string
}

// readKnown reads the known findings: lines "finding: property=<id> case=<case id prefix> <what fails>".
func (h *harness) readKnown() []known {
	b, err := os.ReadFile(filepath.Join(h.verif, "KNOWN_FINDINGS"))
	if err != nil {
		return nil
	}
	var ks []known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "finding: "), " ", 3)
		if len(f) == 3 && strings.HasPrefix(f[0], "property=") && strings.HasPrefix(f[1], "case=") {
			ks = append(ks, known{f[0][9:], f[1][5:], f[2]})
		}
	}
	return ks
}

func (h *harness) check(prop string, only []string) int {
	start := time.Now()
	h.prop = prop
	p, ok := props[prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "vh: unknown property", prop)
		return 2
	}
	evFile := filepath.Join(h.verif, "evidence", prop+".json")
	os.Remove(evFile)

	type item struct {
		job  *jobResult
		line []byte
	}
	queue := make(chan item, 256)
	var (
		mu         sync.Mutex
		violations []*Violation
		knownSeen  = map[string]bool{}
		machine    []string
		samples    []interface{}
		stop       bool
		ids        = map[string]bool{}
	)
	keep, err := openCorpus()
	if err != nil {
		fmt.Fprintln(os.Stderr, "vh:", err)
		return 2
	}
	knowns := h.readKnown()
	isKnown := func(v *Violation) bool {
		for _, k := range knowns {
			if k.Property == prop && v.Case.ID == k.Case {
				if !knownSeen[k.Case] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
				}
				knownSeen[k.Case] = true
				return true
			}
		}
		return false
	}
	var wg sync.WaitGroup
	for i := 0; i < h.workers; i++ {
		w, err := newWorker(h, i)
		if err != nil {
			fmt.Fprintln(os.Stderr, "vh:", err)
			return 2
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for it := range queue {
				mu.Lock()
				s := stop
				mu.Unlock()
				if s {
					continue
				}
				e, err := decodeEmitted(it.line)
				if err != nil || e.Case == nil {
					mu.Lock()
					machine = append(machine, fmt.Sprint("bad case: ", err))
					stop = true
					mu.Unlock()
					continue
				}
				c := e.Case
				if strings.HasSuffix(c.ID, "#") {
					hash := fnv.New64a()
					hash.Write(it.line)
					c.ID = fmt.Sprintf("%s%016x", c.ID, hash.Sum64())
				}
				mu.Lock()
				dup := ids[c.ID]
				ids[c.ID] = true
				mu.Unlock()
				if dup {
					if it.job.job.Sim == 0 && !strings.Contains(c.ID, "#") {
						mu.Lock()
						machine = append(machine, "case "+c.ID+" is printed twice")
						mu.Unlock()
					}
					continue
				}
				if p.prepare != nil {
					p.prepare(h, c)
				}
				n, v, outs := w.do(c)
				mu.Lock()
				it.job.cases++
				it.job.runs += n
				if n == 0 && v == nil {
					machine = append(machine, "case "+c.ID+" has no runs")
				}
				if v != nil {
					v.Prop = prop
					v.Case.Job = it.job.job.Name
					if v.Machine != "" {
						machine = append(machine, v.Case.ID+": "+v.Machine)
					} else if !isKnown(v) {
						violations = append(violations, v)
						if len(violations) >= 10 {
							stop = true
						}
					}
				} else if it.job.cases <= 1 && len(outs) > 0 {
					r := c.Runs[0]
					samples = append(samples, map[string]interface{}{"job": it.job.job.Name, "case": c.ID, "description": c.D,
						"runs": len(c.Runs), "first_run": r.Cmd + " " + r.Mode, "printed": tail(outs[0].Stdout, 400)})
				}
				mu.Unlock()
			}
		}()
	}

	jobs := p.jobs(h)
	var results []*jobResult
	for i := range jobs {
		if len(only) > 0 {
			use := false
			for _, o := range only {
				if o == jobs[i].Name {
					use = true
				}
			}
			if !use {
				continue
			}
		}
		res := &jobResult{job: &jobs[i]}
		results = append(results, res)
		t0 := time.Now()
		res.st, res.err = h.runTLC(&jobs[i], func(b []byte) error {
			if bytes.HasPrefix(b, []byte(`{"shared":`)) {
				e, err := decodeEmitted(b)
				if err != nil {
					return err
				}
				h.mu.Lock()
				if h.shared[e.Shared.N] == nil {
					h.shared[e.Shared.N] = e.Shared
				}
				h.mu.Unlock()
				keep.add(prop, b, true)
				return nil
			}
			keep.add(prop, b, false)
			mu.Lock()
			s := stop
			mu.Unlock()
			if s {
				return errStop
			}
			queue <- item{res, b}
			return nil
		})
		if os.Getenv("VH_VERBOSE") != "" {
			fmt.Fprintf(os.Stderr, "job %s: TLC %.1fs, %d states\n", jobs[i].Name, time.Since(t0).Seconds(), res.st.Distinct)
		}
		if res.err != nil {
			machine = append(machine, res.err.Error())
			break
		}
	}
	close(queue)
	wg.Wait()

	var extra map[string]interface{}
	if p.extra != nil && len(machine) == 0 && (len(only) == 0 || only[0] == "extra") {
		vs, ev, err := p.extra(h)
		if err != nil {
			machine = append(machine, err.Error())
		}
		for _, v := range vs {
			v.Prop = prop
			if !isKnown(v) {
				violations = append(violations, v)
			}
		}
		extra = ev
	}
	states, trans, runs, cases := 0, 0, 0, 0
	detail := []interface{}{}
	for _, r := range results {
		states += r.st.Distinct
		if r.st.Distinct == 0 {
			states += r.st.States
		}
		trans += r.st.States
		runs += r.runs
		cases += r.cases
		detail = append(detail, map[string]interface{}{"job": r.job.Name, "module": r.job.Module, "states_generated": r.st.States,
			"distinct_states": r.st.Distinct, "behaviours": r.cases, "runs_of_the_tool": r.runs})
		if len(violations) == 0 && len(machine) == 0 && !r.job.NoCase && r.runs < max(1, r.job.MinRun) {
			machine = append(machine, fmt.Sprintf("job %s explored only %d runs", r.job.Name, r.runs))
		}
	}
	if extra != nil {
		for k, v := range extra {
			switch k {
			case "states":
				states += v.(int)
			case "transitions":
				trans += v.(int)
			case "runs":
				runs += v.(int)
			case "samples":
				samples = append(samples, v.([]interface{})...)
			default:
				detail = append(detail, map[string]interface{}{k: v})
			}
		}
	}
	sort.Slice(violations, func(i, j int) bool { return violations[i].Case.ID < violations[j].Case.ID })
	tier := "quick"
	if h.deep > 0 {
		tier = "thorough"
	}
	ev := Evidence{Property: prop, Tier: tier, Seed: h.seed, Level: "model_checking",
		Coverage: map[string]interface{}{"states": states, "transitions": trans, "traces_validated_against_impl": runs,
			"behaviours": cases, "jobs": detail, "samples": samples},
		Assump: assumptions(p), WallS: time.Since(start).Seconds(), Violations: len(violations)}
	if b, err := json.MarshalIndent(ev, "", " "); err == nil && len(only) == 0 {
		os.MkdirAll(filepath.Join(h.verif, "evidence"), 0755)
		if err := os.WriteFile(evFile, append(b, '\n'), 0644); err != nil {
			machine = append(machine, err.Error())
		}
	}
	for i, v := range violations {
		if i >= 5 {
			fmt.Printf("... and %d more\n", len(violations)-i)
			break
		}
		dir := filepath.Join(h.verif, "out")
		os.MkdirAll(dir, 0755)
		file := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, i+1))
		v.Case.Shared = map[string]File{}
		for _, f := range v.Case.Files {
			if f.Ref != "" && h.shared[f.Ref] != nil {
				v.Case.Shared[f.Ref] = *h.shared[f.Ref]
			}
		}
		if b, err := json.Marshal(v); err == nil {
			os.WriteFile(file, b, 0644)
		}
		fmt.Printf("case %s (%s) run %d: %s\n", v.Case.ID, v.Case.D, v.RunNo, v.Why)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
	}
	for _, m := range machine {
		fmt.Fprintln(os.Stderr, "vh: error of the check:", m)
	}
	fmt.Printf("%s: %d states, %d behaviours, %d runs of the tool, %d violations, %.1fs\n", prop, states, cases, runs, len(violations),
		time.Since(start).Seconds())
	if len(violations) > 0 {
		return 1
	}
	if len(machine) > 0 {
		return 2
	}
	return 0
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func assumptions(p *Prop) []string {
	return append([]string{
		"the byte layout written in spec/*.tla is the one InnoDB 5.6/5.7 writes (16 KB pages)",
		"TLC, the Java and Go runtimes and the driver in harness/ are trusted"}, p.assume...)
}
