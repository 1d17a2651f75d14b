package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// Chunk is [unit number, offset, bytes].
type Chunk struct {
	Unit, Off int
	B         Bytes
}

// UnmarshalJSON reads [unit, off, [bytes]].
func (c *Chunk) UnmarshalJSON(d []byte) error {
	var raw []json.RawMessage
	if err := json.Unmarshal(d, &raw); err != nil {
		return err
	}
	if len(raw) != 3 {
		return fmt.Errorf("bad chunk")
	}
	if err := json.Unmarshal(raw[0], &c.Unit); err != nil {
		return err
	}
	if err := json.Unmarshal(raw[1], &c.Off); err != nil {
		return err
	}
	return c.B.UnmarshalJSON(raw[2])
}

// MarshalJSON is the inverse.
func (c Chunk) MarshalJSON() ([]byte, error) {
	return json.Marshal([]interface{}{c.Unit, c.Off, c.B})
}

// File is a file which the specification describes.
type File struct {
	N    string  `json:"n"`             // name
	Ref  string  `json:"ref,omitempty"` // use the shared file of this name
	U    int     `json:"u,omitempty"`   // unit (16384 if missing)
	NU   int     `json:"nu,omitempty"`  // size in units
	Size *int    `json:"size,omitempty"`
	C    []Chunk `json:"c,omitempty"`
	Kind string  `json:"kind,omitempty"` // "dir": a directory, "missing", "loop": a link to itself, "dangling": a link to nothing, "under": a path below a file, "nameless": the empty path
	Copy bool    `json:"copy,omitempty"` // make a copy of the shared file, with these chunks written over it
}

// Run is a run of the tool and what it has to print.
type Run struct {
	Cmd  string   `json:"cmd"` // data or redo
	Sys  string   `json:"sys"`
	File string   `json:"file,omitempty"`
	Redo []string `json:"redo,omitempty"`
	DB   *Bytes   `json:"db,omitempty"`
	Tab  *Bytes   `json:"tab,omitempty"`
	Mode string   `json:"mode,omitempty"`
	Lvl  string   `json:"lvl,omitempty"`
	TZ   string   `json:"tz,omitempty"`

	LogDir string `json:"logdir,omitempty"` // a log directory of that name
	User   string `json:"user,omitempty"`   // nobody: without any rights
	Par    int    `json:"par,omitempty"`    // copies which run at the same time
	Strace bool   `json:"strace,omitempty"` // watch the system calls

	Script  json.RawMessage `json:"script,omitempty"`  // calls of the logging functions
	Written []string        `json:"written,omitempty"` // the marks of the messages which are written
	Silent  []string        `json:"silent,omitempty"`  // and of those which are not
	Dead    bool            `json:"dead,omitempty"`    // the last call ends the process
	Letters string          `json:"letters,omitempty"` // of the log lines which are allowed
	Rank    int             `json:"rank,omitempty"`    // of the level

	Out string `json:"out"` // exact: the statements in exp; diag: a diagnostic and no statement;
	// silent: no output at all; partial: the statements in exp, perhaps with a diagnostic;
	// nothing: no statement; nocrash: nothing but the absence of a crash
	Exp []ExpStmt `json:"exp"`
}

// Case is a generated behaviour.
type Case struct {
	ID    string `json:"id"`
	D     string `json:"d,omitempty"` // description
	Files []File `json:"files"`
	Runs  []Run  `json:"runs"`
	Guard bool   `json:"guard,omitempty"` // nothing but the log directory may change

	Job    string          `json:"job,omitempty"`
	Shared map[string]File `json:"shared,omitempty"` // only in replay files

	check func(w *worker, run int, o *Outcome) string
}

func (f *File) size() int {
	if f.Size != nil {
		return *f.Size
	}
	return f.NU * f.unit()
}

func (f *File) unit() int {
	if f.U == 0 {
		return 16384
	}
	return f.U
}

// write makes the file (sparse where the chunks leave gaps).
func (f *File) write(path string) error {
	fd, err := os.OpenFile(path, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0644)
	if err != nil {
		return err
	}
	defer fd.Close()
	n := f.size()
	if err := fd.Truncate(int64(n)); err != nil {
		return err
	}
	for _, c := range f.C {
		at := c.Unit*f.unit() + c.Off
		b := c.B
		if at < 0 || at+len(b) > n {
			if f.Size == nil || at < 0 {
				return fmt.Errorf("chunk outside of file %s: unit %d offset %d length %d", f.N, c.Unit, c.Off, len(b))
			}
			if at >= n {
				continue
			}
			b = b[:n-at]
		}
		if len(b) == 0 {
			continue
		}
		if _, err := fd.WriteAt(b, int64(at)); err != nil {
			return err
		}
	}
	return nil
}

// Outcome is what a run of the tool did.
type Outcome struct {
	Stdout, Stderr string
	Exit           int
	Signal         bool
	Timeout        bool
	Err            error
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (o *Outcome) crashed() string {
	if o.Timeout {
		return "it does not terminate"
	}
	if o.Signal {
		return "it was killed by a signal"
	}
	if i := strings.Index(o.Stderr, "panic: "); i >= 0 && strings.Contains(o.Stderr[i:], "goroutine ") {
		return "it crashed: " + tail(o.Stderr[i:], 300)
	}
	if i := strings.Index(o.Stderr, "fatal error: "); i >= 0 && strings.Contains(o.Stderr[i:], "goroutine ") {
		return "it crashed: " + tail(o.Stderr[i:], 300)
	}
	return ""
}

func (r *Run) args(dir string, logdir string, path func(string) string) []string {
	var a []string
	if r.Cmd == "data" {
		a = []string{"recovery", "FromDataFile", "--SysDataFile=" + path(r.Sys), "--TableDataFile=" + path(r.File)}
	} else {
		var fs []string
		for _, f := range r.Redo {
			fs = append(fs, path(f))
		}
		a = []string{"recovery", "FromRedoFile", "--SysDataFile=" + path(r.Sys), "--RedoFile=" + strings.Join(fs, ",")}
	}
	if r.DB != nil {
		a = append(a, "--DBName="+string(*r.DB))
	}
	if r.Tab != nil {
		a = append(a, "--TableName="+string(*r.Tab))
	}
	if r.Mode != "" {
		a = append(a, "--OpType="+r.Mode)
	}
	a = append(a, "--LogPath="+logdir)
	switch r.Lvl {
	case "":
		a = append(a, "--LogLevel=fatal")
	case "default":
	default:
		a = append(a, "--LogLevel="+r.Lvl)
	}
	return a
}

// execution is how the tool is started.
type execution struct {
	cli     string
	args    []string
	dir     string
	env     []string
	user    string
	stdin   []byte
	timeout time.Duration
}

func (e *execution) run() *Outcome {
	ctx, cancel := context.WithTimeout(context.Background(), e.timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, e.cli, e.args...)
	cmd.Dir = e.dir
	cmd.Env = e.env
	if e.stdin != nil {
		cmd.Stdin = bytes.NewReader(e.stdin)
	}
	var so, se bytes.Buffer
	cmd.Stdout = &limited{b: &so, max: 64 << 20}
	cmd.Stderr = &limited{b: &se, max: 1 << 20}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if e.user == "nobody" {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: 65534, Gid: 65534, NoSetGroups: true}
	}
	err := cmd.Start()
	if err == nil {
		limitMemory(cmd.Process.Pid)
		err = cmd.Wait()
	}
	if e.user != "" && errors.Is(err, syscall.EPERM) {
		// this sandbox does not let us become another user
		f := *e
		f.user = ""
		return f.run()
	}
	o := &Outcome{Stdout: so.String(), Stderr: se.String()}
	if ctx.Err() != nil {
		o.Timeout = true
		return o
	}
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			o.Exit = ee.ExitCode()
			if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
				o.Signal = true
			}
		} else {
			o.Err = err
		}
	}
	return o
}

// limitMemory keeps a run which never stops allocating from using up the
// machine's memory: it ends with Go's "out of memory" error.
func limitMemory(pid int) {
	lim := syscall.Rlimit{Cur: memoryLimit, Max: memoryLimit}
	const prlimit64 = 302 // on amd64
	if runtime.GOARCH == "amd64" {
		syscall.RawSyscall6(prlimit64, uintptr(pid), syscall.RLIMIT_AS, uintptr(unsafe.Pointer(&lim)), 0, 0, 0)
	}
}

const memoryLimit = 2500 << 20

type limited struct {
	b   *bytes.Buffer
	max int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < l.max {
		l.b.Write(p)
	}
	return len(p), nil
}

// judge compares the outcome of a run with the expectation; "" if they agree.
func judge(r *Run, o *Outcome) string {
	if c := o.crashed(); c != "" {
		return c
	}
	var lines []string
	if o.Stdout != "" {
		if !strings.HasSuffix(o.Stdout, "\n") && r.Out != "diag" && r.Out != "nothing" {
			return fmt.Sprintf("standard output does not end with a line break: %q", tail(o.Stdout, 200))
		}
		lines = strings.Split(strings.TrimSuffix(o.Stdout, "\n"), "\n")
	}
	switch r.Out {
	case "nocrash":
		return ""
	case "diag", "nothing":
		for _, l := range lines {
			if looksLikeStmt(l) {
				return fmt.Sprintf("a statement is printed for failed input: %.300q", l)
			}
		}
		if r.Out == "diag" && strings.TrimSpace(o.Stdout) == "" && strings.TrimSpace(o.Stderr) == "" {
			return "the failure is not reported"
		}
		return ""
	case "exact", "silent", "partial":
		if o.Exit != 0 && r.Out != "partial" {
			return fmt.Sprintf("exit code %d, standard error: %.300q", o.Exit, o.Stderr)
		}
		var got []*Stmt
		for _, l := range lines {
			if r.Out == "partial" && !looksLikeStmt(l) {
				continue
			}
			s, err := parseStmt(l)
			if err != nil {
				return fmt.Sprintf("%v in the line %.300q", err, l)
			}
			got = append(got, s)
		}
		if d := matchAll(r.Exp, got); d != "" {
			return d
		}
		if r.Out == "silent" && strings.TrimSpace(o.Stderr) != "" {
			return fmt.Sprintf("a diagnostic is printed although nothing is wrong: %.300q", o.Stderr)
		}
		return ""
	}
	return "unknown kind of expectation " + r.Out
}

func looksLikeStmt(l string) bool {
	l = strings.ToLower(strings.TrimSpace(l))
	return strings.HasPrefix(l, "replace ") || strings.HasPrefix(l, "update ")
}

// worker runs cases in a directory of its own.
type worker struct {
	h      *harness
	dir    string
	logdir string
}

func newWorker(h *harness, n int) (*worker, error) {
	w := &worker{h: h, dir: filepath.Join(h.scratch, fmt.Sprintf("w%d", n)), logdir: filepath.Join(h.scratch, fmt.Sprintf("log%d", n))}
	if err := os.MkdirAll(w.dir, 0755); err != nil {
		return nil, err
	}
	return w, os.MkdirAll(w.logdir, 0755)
}

func (w *worker) cleanLogs() {
	es, _ := os.ReadDir(w.logdir)
	for _, e := range es {
		os.Remove(filepath.Join(w.logdir, e.Name()))
	}
}

// materialise writes the files of the case.
func (w *worker) materialise(c *Case) (map[string]string, error) {
	paths := map[string]string{}
	for i := range c.Files {
		f := &c.Files[i]
		if f.Copy {
			g, err := w.h.sharedFileOf(f.Ref, c)
			if err != nil {
				return nil, err
			}
			cp := *g
			cp.C = append(cp.C[:len(cp.C):len(cp.C)], f.C...)
			if err := cp.write(filepath.Join(w.dir, f.N)); err != nil {
				return nil, err
			}
			paths[f.N] = f.N
			continue
		}
		if f.Ref != "" {
			p, err := w.h.sharedPath(f.Ref, c)
			if err != nil {
				return nil, err
			}
			paths[f.N] = p
			continue
		}
		p := filepath.Join(w.dir, f.N)
		paths[f.N] = f.N
		if f.Kind == "dir" {
			if err := os.MkdirAll(p, 0755); err != nil {
				return nil, err
			}
			continue
		}
		if f.Kind == "missing" {
			continue
		}
		if f.Kind == "nameless" {
			// The empty path.
			paths[f.N] = ""
			continue
		}
		if f.Kind == "loop" {
			// A link to itself: it exists, but can't be opened.
			if err := os.Symlink(f.N, p); err != nil && !os.IsExist(err) {
				return nil, err
			}
			continue
		}
		if f.Kind == "dangling" {
			if err := os.Symlink(f.N+".gone", p); err != nil && !os.IsExist(err) {
				return nil, err
			}
			continue
		}
		if f.Kind == "under" {
			// A path which goes through a file.
			if err := os.WriteFile(p, []byte("a file"), 0644); err != nil {
				return nil, err
			}
			paths[f.N] = f.N + "/x"
			continue
		}
		if err := f.write(p); err != nil {
			return nil, err
		}
	}
	return paths, nil
}

func (w *worker) cleanup(c *Case) {
	for i := range c.Files {
		if (c.Files[i].Ref == "" || c.Files[i].Copy) && c.Files[i].N != "" {
			os.Remove(filepath.Join(w.dir, c.Files[i].N))
		}
	}
	w.cleanLogs()
}

// Violation is a disagreement between the tool and the specification.
type Violation struct {
	Case    *Case    `json:"case"`
	RunNo   int      `json:"run"`
	Args    []string `json:"args"`
	Why     string   `json:"why"`
	Stdout  string   `json:"stdout"`
	Stderr  string   `json:"stderr"`
	Prop    string   `json:"property"`
	Machine string   `json:"machinery_error,omitempty"`
}

// do runs all runs of a case.
func (w *worker) do(c *Case) (int, *Violation, []*Outcome) {
	defer w.cleanup(c)
	paths, err := w.materialise(c)
	if err != nil {
		return 0, &Violation{Case: c, Machine: err.Error()}, nil
	}
	path := func(n string) string {
		if p, ok := paths[n]; ok {
			return p
		}
		return n
	}
	var outs []*Outcome
	var g *guard
	if c.Guard {
		if g, err = newGuard(w, c); err != nil { // with the log directories of the runs
			return 0, &Violation{Case: c, Machine: err.Error()}, nil
		}
		defer g.remove()
	}
	profiles := logProfiles{}
	for i := range c.Runs {
		r := &c.Runs[i]
		tz := "UTC"
		if r.TZ != "" {
			tz = filepath.Join(w.dir, r.TZ)
		}
		e := execution{cli: w.h.cli, dir: w.dir, user: r.User, timeout: 20 * time.Second,
			env: []string{"PATH=/usr/bin:/bin", "HOME=" + w.dir, "TMPDIR=" + w.logdir, "TZ=" + tz}}
		if d := os.Getenv("GOCOVERDIR"); d != "" {
			e.env = append(e.env, "GOCOVERDIR="+d)
		}
		logdir := w.logdir
		if g != nil {
			e.env = []string{"PATH=/usr/bin:/bin", "HOME=" + g.home, "TMPDIR=" + g.tmp, "TZ=" + tz}
			logdir = g.logdir(r.LogDir)
		}
		if r.Cmd == "log" {
			e.cli = w.h.logDriver
			e.stdin = bytes.ReplaceAll(r.Script, []byte(`"dir":"`), []byte(`"dir":"`+g.root+"/log-"))
		} else {
			e.args = r.args(w.dir, logdir, path)
		}
		var batch []*Outcome
		var why string
		if g != nil {
			batch, why, err = g.exec(r, e)
			if err != nil {
				return i, &Violation{Case: c, RunNo: i, Machine: err.Error()}, outs
			}
		} else {
			o := e.run()
			if o.Timeout {
				e.timeout = 40 * time.Second
				o = e.run()
			}
			batch = append(batch, o)
		}
		for _, o := range batch {
			if o.Err != nil {
				return i, &Violation{Case: c, RunNo: i, Machine: o.Err.Error()}, outs
			}
			outs = append(outs, o)
			if why == "" && r.Cmd == "log" {
				why = judgeLog(r, o, logdir)
			} else if why == "" {
				why = judge(r, o)
			}
			if why == "" && r.Letters != "" {
				why = profiles.judge(r, o, logdir)
			}
			if why == "" && c.check != nil {
				why = c.check(w, i, o)
			}
			if why != "" {
				return i + 1, &Violation{Case: c, RunNo: i, Args: e.args, Why: why, Stdout: tail(o.Stdout, 20000), Stderr: tail(o.Stderr, 5000)}, outs
			}
		}
	}
	return len(c.Runs), nil, outs
}

func sortedKeys(m map[string]File) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
