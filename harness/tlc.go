package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"time"
)

const (
	tlaJar = "/opt/veriftools/tla/tla2tools.jar"
	cmJar  = "/opt/veriftools/tla/CommunityModules-deps.jar"
)

// Job is a run of TLC on one of the models.
type Job struct {
	Name   string
	Module string
	Consts map[string]string // constants besides Seed and Deep
	Invs   []string          // invariants of the design
	Emit   string            // the invariant which prints the cases ("" if none)
	Props  []string
	View   string // states with the same view are explored once
	Sim    int    // > 0: random behaviours (tlc -simulate num=Sim) ...
	Depth  int    // ... of this depth
	Spec   bool
	NoCase bool // the job only checks the specification
	MinRun int  // at least that many runs are expected (guards against an empty job)
}

// TLCStats is what TLC reports.
type TLCStats struct {
	States, Distinct int
	Traces           int
}

var (
	reStates = regexp.MustCompile(`^(\d+) states generated, (\d+) distinct states found`)
	reSim    = regexp.MustCompile(`(\d+) states checked, (\d+) traces generated`)
	reSimEnd = regexp.MustCompile(`The number of states generated: (\d+)`)
)

// tlaUnquote undoes the quoting of a string printed by PrintT.
func tlaUnquote(s []byte) []byte {
	out := make([]byte, 0, len(s))
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) {
			i++
			switch s[i] {
			case 'n':
				out = append(out, '\n')
			case 't':
				out = append(out, '\t')
			case 'r':
				out = append(out, '\r')
			case 'f':
				out = append(out, '\f')
			default:
				out = append(out, s[i])
			}
			continue
		}
		out = append(out, s[i])
	}
	return out
}

// runTLC checks the model of the job and hands every printed line of JSON to emit.
func (h *harness) runTLC(j *Job, emit func([]byte) error) (TLCStats, error) {
	var st TLCStats
	dir := filepath.Join(h.scratch, "tlc-"+j.Name)
	if err := os.MkdirAll(dir, 0755); err != nil {
		return st, err
	}
	defer os.RemoveAll(dir)
	specs, err := filepath.Glob(filepath.Join(h.verif, "spec", "*.tla"))
	if err != nil {
		return st, err
	}
	for _, s := range specs {
		b, err := os.ReadFile(s)
		if err != nil {
			return st, err
		}
		if err := os.WriteFile(filepath.Join(dir, filepath.Base(s)), b, 0644); err != nil {
			return st, err
		}
	}
	var cfg strings.Builder
	fmt.Fprintf(&cfg, "CONSTANT Seed = %d\nCONSTANT Deep = %d\n", h.seed, h.deep)
	for k, v := range j.Consts {
		fmt.Fprintf(&cfg, "CONSTANT %s = %s\n", k, v)
	}
	if j.Spec {
		cfg.WriteString("SPECIFICATION Spec\n")
	} else {
		cfg.WriteString("INIT Init\nNEXT Next\n")
	}
	for _, i := range j.Invs {
		fmt.Fprintf(&cfg, "INVARIANT %s\n", i)
	}
	if j.Emit != "" {
		fmt.Fprintf(&cfg, "INVARIANT %s\n", j.Emit)
	}
	if j.View != "" {
		fmt.Fprintf(&cfg, "VIEW %s\n", j.View)
	}
	for _, p := range j.Props {
		fmt.Fprintf(&cfg, "PROPERTY %s\n", p)
	}
	cfg.WriteString("CHECK_DEADLOCK FALSE\n")
	if err := os.WriteFile(filepath.Join(dir, "Job.cfg"), []byte(cfg.String()), 0644); err != nil {
		return st, err
	}
	args := []string{"-XX:+UseParallelGC", "-Xmx5g", "-Xss32m", "-Djava.io.tmpdir=" + dir, "-cp", tlaJar + ":" + cmJar, "tlc2.TLC",
		"-workers", strconv.Itoa(h.tlcWorkers), "-seed", strconv.Itoa(h.seed), "-fp", "1", "-noGenerateSpecTE",
		"-metadir", filepath.Join(dir, "meta"), "-config", "Job.cfg"}
	if j.Sim > 0 {
		args = append(args, "-simulate", fmt.Sprintf("num=%d", j.Sim), "-depth", strconv.Itoa(j.Depth))
	}
	args = append(args, j.Module+".tla")
	cmd := exec.Command("java", args...)
	cmd.Dir = dir
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return st, err
	}
	cmd.Stderr = cmd.Stdout
	if err := cmd.Start(); err != nil {
		return st, err
	}
	rd := bufio.NewReaderSize(out, 1<<20)
	var log bytes.Buffer
	var emitErr error
	ok := false
	for {
		line, rerr := rd.ReadBytes('\n')
		l := bytes.TrimRight(line, "\r\n")
		if len(l) > 2 && l[0] == '"' && l[1] == '{' && l[len(l)-1] == '"' {
			if emitErr == nil {
				if emitErr = emit(tlaUnquote(l[1 : len(l)-1])); emitErr != nil {
					cmd.Process.Kill()
				}
			}
		} else if len(l) > 0 {
			s := string(l)
			if m := reStates.FindStringSubmatch(s); m != nil {
				st.States, _ = strconv.Atoi(m[1])
				st.Distinct, _ = strconv.Atoi(m[2])
			}
			if m := reSim.FindStringSubmatch(strings.ReplaceAll(s, ",", "")); m != nil {
				st.States, _ = strconv.Atoi(m[1])
			}
			if m := reSimEnd.FindStringSubmatch(s); m != nil {
				st.States, _ = strconv.Atoi(m[1])
			}
			if strings.Contains(s, "Model checking completed. No error has been found") {
				ok = true
			}
			if log.Len() < 20000 && !strings.HasPrefix(s, "Parsing ") && !strings.HasPrefix(s, "Semantic ") && !strings.HasPrefix(s, "Linting ") {
				log.WriteString(s)
				log.WriteByte('\n')
			}
		}
		if rerr != nil {
			if rerr != io.EOF {
				return st, rerr
			}
			break
		}
	}
	werr := cmd.Wait()
	if emitErr == errStop {
		return st, nil
	}
	if emitErr != nil {
		return st, emitErr
	}
	if j.Sim > 0 && werr == nil {
		ok = !strings.Contains(log.String(), "Error:")
	}
	if werr != nil || !ok {
		return st, fmt.Errorf("TLC failed on %s (%v):\n%s", j.Name, werr, log.String())
	}
	return st, nil
}

var errStop = fmt.Errorf("stopped")

// emitted is what the specification prints.
type emitted struct {
	Shared *File `json:"shared"`
	Case   *Case `json:"case"`
	Stat   string
}

func decodeEmitted(b []byte) (*emitted, error) {
	var e emitted
	if err := json.Unmarshal(b, &e); err != nil {
		return nil, fmt.Errorf("cannot decode a line of the specification: %v: %.200s", err, b)
	}
	return &e, nil
}

var _ = time.Now
