package main

import (
	"bufio"
	"bytes"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
)

// For mutation runs: VH_CORPUS=FILE:N has a check append every N-th case it
// replays to the file; "vh corpus FILE" replays them without TLC, and stops at
// the first violation.

type corpus struct {
	mu sync.Mutex
	f  *os.File
	n  uint64
}

func openCorpus() (*corpus, error) {
	v := os.Getenv("VH_CORPUS")
	if v == "" {
		return nil, nil
	}
	i := strings.LastIndexByte(v, ':')
	n, err := strconv.Atoi(v[i+1:])
	if err != nil {
		return nil, err
	}
	f, err := os.OpenFile(v[:i], os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
	return &corpus{f: f, n: uint64(n)}, err
}

func (c *corpus) add(prop string, line []byte, always bool) {
	if c == nil {
		return
	}
	h := fnv.New64a()
	h.Write(line)
	if !always && (h.Sum64()>>7)%c.n != 0 {
		return
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	fmt.Fprintf(c.f, "%s %s\n", prop, line)
}

func (h *harness) corpus(file string) int {
	f, err := os.Open(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, "vh:", err)
		return 2
	}
	defer f.Close()
	knowns := h.readKnown()
	queue := make(chan [2][]byte, 64)
	var stop int32
	var wg sync.WaitGroup
	code, cases := 0, int64(0)
	for i := 0; i < h.workers; i++ {
		w, err := newWorker(h, i)
		if err != nil {
			return 2
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for it := range queue {
				if atomic.LoadInt32(&stop) != 0 {
					continue
				}
				e, err := decodeEmitted(it[1])
				if err != nil || e.Case == nil {
					continue
				}
				_, v, _ := w.do(e.Case)
				atomic.AddInt64(&cases, 1)
				known := false
				for _, k := range knowns {
					known = known || e.Case.ID == k.Case
				}
				if v != nil && !known {
					if atomic.SwapInt32(&stop, 1) == 0 {
						fmt.Printf("KILLED %s %s %.200s\n", it[0], e.Case.ID, v.Why+v.Machine)
						code = 1
					}
				}
			}
		}()
	}
	r := bufio.NewReaderSize(f, 1<<20)
	for atomic.LoadInt32(&stop) == 0 {
		line, err := r.ReadBytes('\n')
		if len(line) > 0 {
			line = bytes.TrimSuffix(line, []byte("\n"))
			i := bytes.IndexByte(line, ' ')
			b := line[i+1:]
			if bytes.HasPrefix(b, []byte(`{"shared":`)) {
				if e, err := decodeEmitted(b); err == nil {
					h.mu.Lock()
					if h.shared[e.Shared.N] == nil {
						h.shared[e.Shared.N] = e.Shared
					}
					h.mu.Unlock()
				}
			} else {
				queue <- [2][]byte{line[:i], b}
			}
		}
		if err == io.EOF {
			break
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "vh:", err)
			return 2
		}
	}
	close(queue)
	wg.Wait()
	if code == 0 {
		fmt.Printf("SURVIVED %d cases\n", cases)
	}
	return code
}
