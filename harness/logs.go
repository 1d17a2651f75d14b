package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
)

// buildLogDriver builds the program which calls the logging functions, as if
// it were a part of the repository.
func (h *harness) buildLogDriver() error {
	src := filepath.Join(h.verif, "harness", "logdriver", "main.go.txt")
	overlay := filepath.Join(h.scratch, "overlay.json")
	b, err := json.Marshal(map[string]map[string]string{"Replace": {filepath.Join(h.repo, "cmd", "verif-logdriver", "main.go"): src}})
	if err != nil {
		return err
	}
	if err := os.WriteFile(overlay, b, 0644); err != nil {
		return err
	}
	h.logDriver = filepath.Join(h.scratch, "logdriver")
	cmd := exec.Command("go", "build", "-overlay", overlay, "-o", h.logDriver, "./cmd/verif-logdriver")
	cmd.Dir = h.repo
	cmd.Env = goEnv(h.scratch)
	if out, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("cannot build the log driver: %v\n%s", err, out)
	}
	return nil
}

// readLogs returns the contents of the log files of a directory, by name.
// Links to them are left out.
func readLogs(dir string) (map[string]string, error) {
	es, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	m := map[string]string{}
	for _, e := range es {
		if !e.Type().IsRegular() {
			continue
		}
		b, err := os.ReadFile(filepath.Join(dir, e.Name()))
		if err != nil {
			return nil, err
		}
		m[e.Name()] = string(b)
	}
	return m, nil
}

// judgeLog looks for the messages of a script in the log directory.
func judgeLog(r *Run, o *Outcome, dir string) string {
	if o.Timeout {
		return "it does not terminate"
	}
	if !r.Dead {
		if why := o.crashed(); why != "" {
			return why
		}
		if o.Exit != 0 {
			return fmt.Sprintf("exit code %d: %.300s%.300s", o.Exit, o.Stdout, o.Stderr)
		}
	} else if o.Exit == 0 {
		return "a fatal message does not end the process"
	} else if o.Exit == 77 || o.Exit == 78 {
		return o.Stdout
	}
	files, err := readLogs(dir)
	if err != nil {
		return err.Error()
	}
	for _, m := range r.Written {
		found := false
		for name, f := range files {
			switch strings.Count(f, m) {
			case 0:
			case 1:
				found = true
			default:
				return fmt.Sprintf("the message %s is written more than once to %s", m, name)
			}
		}
		if !found {
			return fmt.Sprintf("the message %s is not logged", m)
		}
	}
	for _, m := range r.Silent {
		for name, f := range files {
			if strings.Contains(f, m) {
				return fmt.Sprintf("the message %s is logged in %s although its level is not enabled", m, name)
			}
		}
	}
	// messages appear in the order of the calls
	for name, f := range files {
		last := -1
		for _, m := range r.Written {
			if i := strings.Index(f, m); i >= 0 {
				if i < last {
					return fmt.Sprintf("the message %s is out of order in %s", m, name)
				}
				last = i
			}
		}
	}
	return ""
}

// logProfiles are the messages of the runs of a command, by level: how often
// which line of the source logged at which severity.
type logProfiles []logProfile

type logProfile struct {
	name  string
	rank  int
	count map[string]int
}

var reLogLine = regexp.MustCompile(`(?m)^([IWEF])\d{4} \d\d:\d\d:\d\d\.\d+ +\d+ ([^\]]+)\]`)

func (ps *logProfiles) judge(r *Run, o *Outcome, dir string) string {
	files, err := readLogs(dir)
	if err != nil {
		return err.Error()
	}
	p := logProfile{r.Lvl, r.Rank, map[string]int{}}
	for name, f := range files {
		seen := map[string]int{}
		for _, m := range reLogLine.FindAllStringSubmatch(f, -1) {
			if !strings.Contains(r.Letters, m[1]) {
				return fmt.Sprintf("level %s: a message of kind %s is logged in %s: %.200q", r.Lvl, m[1], name, m[0])
			}
			seen[m[1]+" "+m[2]]++
		}
		// the same message may be in the files of several severities
		for k, n := range seen {
			if n > p.count[k] {
				p.count[k] = n
			}
		}
	}
	errors := map[string]int{}
	for _, m := range reLogLine.FindAllStringSubmatch(o.Stderr, -1) {
		if m[1] == "E" {
			errors["E "+m[2]]++
		}
	}
	for k, n := range errors {
		if p.count[k] < n {
			return fmt.Sprintf("level %s: an error is on standard error but not in the log: %s", r.Lvl, k)
		}
	}
	for _, q := range *ps {
		if q.rank <= p.rank {
			if d := q.notIn(p); d != "" {
				return d
			}
		}
		if q.rank >= p.rank {
			if d := p.notIn(q); d != "" {
				return d
			}
		}
	}
	*ps = append(*ps, p)
	return ""
}

// notIn tells a message of p which is missing in q.
func (p logProfile) notIn(q logProfile) string {
	for k, n := range p.count {
		if q.count[k] < n {
			return fmt.Sprintf("level %s logs the message of %s %d times, level %s %d times", p.name, k, n, q.name, q.count[k])
		}
	}
	return ""
}
