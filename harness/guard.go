package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// guard watches the directories of a case: a run may only change its log directory.
type guard struct {
	w               *worker
	root, home, tmp string
}

func newGuard(w *worker, c *Case) (*guard, error) {
	g := &guard{w: w, root: w.dir + "-g"}
	g.home, g.tmp = filepath.Join(g.root, "home"), filepath.Join(g.root, "tmp")
	dirs := []string{g.home, g.tmp, g.logdir("a"), g.logdir("b")}
	for _, r := range c.Runs {
		dirs = append(dirs, g.logdir(r.LogDir))
	}
	for _, d := range dirs {
		if err := os.MkdirAll(d, 0777); err != nil {
			return nil, err
		}
		if err := os.Chmod(d, 0777); err != nil {
			return nil, err
		}
	}
	// what does not belong to the user cannot be written by accident, and must not have to
	for _, f := range c.Files {
		if f.Copy {
			if err := os.Chmod(filepath.Join(w.dir, f.N), 0444); err != nil {
				return nil, err
			}
		}
	}
	return g, nil
}

func (g *guard) logdir(n string) string { return filepath.Join(g.root, "log-"+n) }

func (g *guard) remove() { os.RemoveAll(g.root) }

// snapshot describes everything below the watched directories.
func (g *guard) snapshot(except string) (map[string]string, error) {
	m := map[string]string{}
	for _, top := range []string{g.w.dir, g.root} {
		err := filepath.Walk(top, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			if p == except {
				return filepath.SkipDir
			}
			st := fi.Sys().(*syscall.Stat_t)
			m[p] = fmt.Sprint(fi.Mode(), fi.Size(), st.Ino, st.Uid, st.Nlink, st.Mtim, st.Ctim)
			return nil
		})
		if err != nil {
			return nil, err
		}
	}
	return m, nil
}

func (g *guard) exec(r *Run, e execution) ([]*Outcome, string, error) {
	except := g.logdir(r.LogDir)
	before, err := g.snapshot(except)
	if err != nil {
		return nil, "", err
	}
	n := r.Par
	if n < 1 {
		n = 1
	}
	trace := ""
	if r.Strace {
		if _, err := os.Stat("/usr/bin/strace"); err == nil {
			trace = filepath.Join(g.w.logdir, "strace")
			os.Remove(trace)
			e.args = append([]string{"-f", "-qq", "-o", trace, "-e", "trace=" + watched, e.cli}, e.args...)
			e.cli = "/usr/bin/strace"
			e.timeout *= 2
		}
	}
	outs := make([]*Outcome, n)
	var wg sync.WaitGroup
	for i := range outs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			outs[i] = e.run()
			if outs[i].Timeout {
				f := e
				f.timeout = 40 * time.Second
				outs[i] = f.run()
			}
		}(i)
	}
	wg.Wait()
	after, err := g.snapshot(except)
	if err != nil {
		return outs, "", err
	}
	var diffs []string
	for p, s := range before {
		if t, ok := after[p]; !ok {
			diffs = append(diffs, "removed "+p)
		} else if s != t {
			diffs = append(diffs, "changed "+p)
		}
	}
	for p := range after {
		if _, ok := before[p]; !ok {
			diffs = append(diffs, "created "+p)
		}
	}
	if len(diffs) > 0 {
		sort.Strings(diffs)
		return outs, "the run changed more than its log directory: " + tail(strings.Join(diffs, ", "), 600), nil
	}
	if trace != "" {
		if why := judgeTrace(trace, except); why != "" {
			return outs, why, nil
		}
	}
	return outs, "", nil
}

const watched = "open,openat,creat,unlink,unlinkat,rename,renameat,renameat2,mkdir,mkdirat,rmdir,link,linkat,symlink,symlinkat," +
	"truncate,ftruncate,chmod,fchmod,fchmodat,chown,fchown,fchownat,lchown,utimensat,mknod,mknodat"

var (
	reCall = regexp.MustCompile(`^\d+\s+(\w+)\((.*)\)\s+= (-?\d+)`)
	rePath = regexp.MustCompile(`"((?:[^"\\]|\\.)*)"`)
)

// judgeTrace looks for calls which make or change files outside of the log directory.
func judgeTrace(file, logdir string) string {
	b, err := os.ReadFile(file)
	if err != nil {
		return ""
	}
	for _, l := range strings.Split(string(b), "\n") {
		m := reCall.FindStringSubmatch(l)
		if m == nil || strings.HasPrefix(m[3], "-") {
			continue
		}
		if strings.HasPrefix(m[1], "open") && !strings.Contains(m[2], "O_CREAT") && !strings.Contains(m[2], "O_TRUNC") {
			continue
		}
		ps := rePath.FindAllStringSubmatch(m[2], -1)
		if strings.HasPrefix(m[1], "symlink") && len(ps) > 1 {
			ps = ps[1:]
		}
		for _, p := range ps {
			if !strings.HasPrefix(p[1], logdir+"/") && !strings.HasPrefix(p[1], "/dev/") {
				return "a file outside of the log directory is made or changed: " + tail(l, 300)
			}
		}
	}
	return ""
}
