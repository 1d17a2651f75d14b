package main

import (
	"fmt"
	"strings"
)

// ExpAssign is an expected assignment or condition.
type ExpAssign struct {
	C Bytes `json:"c"`
	V Exp   `json:"v"`
}

// ExpStmt is an expected statement (t = replace, update) or a place where
// statements are not determined (t = any).
type ExpStmt struct {
	T     string      `json:"t"`
	DB    Bytes       `json:"db,omitempty"`
	Tab   Bytes       `json:"tab,omitempty"`
	Vals  []Exp       `json:"vals,omitempty"`
	Set   []ExpAssign `json:"set,omitempty"`
	Where []ExpAssign `json:"where,omitempty"`
	Opt   bool        `json:"opt,omitempty"`  // may be missing
	Max   int         `json:"max,omitempty"`  // any: at most that many statements
	Rows  []ExpStmt   `json:"rows,omitempty"` // any: each of these at most once
	Not   []ExpStmt   `json:"not,omitempty"`  // any: none of these
}

func (e ExpStmt) String() string {
	var b strings.Builder
	if e.T == "any" {
		return fmt.Sprintf("(up to %d statements)", e.Max)
	}
	fmt.Fprintf(&b, "%s %q.%q", e.T, []byte(e.DB), []byte(e.Tab))
	for _, v := range e.Vals {
		fmt.Fprintf(&b, " %v", v)
	}
	for _, v := range e.Set {
		fmt.Fprintf(&b, " set %q=%v", []byte(v.C), v.V)
	}
	for _, v := range e.Where {
		fmt.Fprintf(&b, " where %q=%v", []byte(v.C), v.V)
	}
	return b.String()
}

func matchAssigns(want []ExpAssign, got []Assign) string {
	if len(want) != len(got) {
		return fmt.Sprintf("%d assignments or conditions instead of %d", len(got), len(want))
	}
	used := make([]bool, len(got))
	for _, w := range want {
		found := false
		for i, g := range got {
			if !used[i] && g.Col == string(w.C) {
				used[i] = true
				found = true
				if !w.V.match(g.Val) {
					return fmt.Sprintf("column %q is %v instead of %v", w.C, g.Val, w.V)
				}
				break
			}
		}
		if !found {
			return fmt.Sprintf("column %q is missing", w.C)
		}
	}
	return ""
}

// diff tells why the statement isn't the expected one ("" if it is).
func (e *ExpStmt) diff(s *Stmt) string {
	if e.T != s.Type {
		return fmt.Sprintf("%s statement instead of %s", s.Type, e.T)
	}
	if s.DB != string(e.DB) || s.Tab != string(e.Tab) {
		return fmt.Sprintf("names table %q.%q instead of %q.%q", s.DB, s.Tab, e.DB, e.Tab)
	}
	if e.T == "replace" {
		if len(e.Vals) != len(s.Vals) {
			return fmt.Sprintf("%d values instead of %d", len(s.Vals), len(e.Vals))
		}
		for i := range e.Vals {
			if !e.Vals[i].match(s.Vals[i]) {
				return fmt.Sprintf("value %d is %v instead of %v", i+1, s.Vals[i], e.Vals[i])
			}
		}
		return ""
	}
	if d := matchAssigns(e.Set, s.Set); d != "" {
		return "set: " + d
	}
	if d := matchAssigns(e.Where, s.Where); d != "" {
		return "where: " + d
	}
	return ""
}

// matchAll compares the expected and the printed statements.
func matchAll(exp []ExpStmt, got []*Stmt) string {
	simple := true
	for i := range exp {
		if exp[i].T == "any" || exp[i].Opt {
			simple = false
		}
	}
	if simple {
		for i := range exp {
			if i >= len(got) {
				return fmt.Sprintf("statement %d is missing: %v (%d printed, %d expected)", i+1, exp[i], len(got), len(exp))
			}
			if d := exp[i].diff(got[i]); d != "" {
				return fmt.Sprintf("statement %d: %s; printed %.300q, expected %v (%d printed, %d expected)",
					i+1, d, got[i].Raw, exp[i], len(got), len(exp))
			}
		}
		if len(got) > len(exp) {
			return fmt.Sprintf("%d statements printed instead of %d, the first surplus one is %.300q", len(got), len(exp), got[len(exp)].Raw)
		}
		return ""
	}
	// Sequences with optional and undetermined statements.
	best := 0
	seen := map[[2]int]bool{}
	var rec func(i, j int) bool
	rec = func(i, j int) bool {
		if j > best {
			best = j
		}
		if i == len(exp) {
			return j == len(got)
		}
		key := [2]int{i, j}
		if seen[key] {
			return false
		}
		e := &exp[i]
		if e.T == "any" {
			count := make([]int, len(e.Rows))
			for n := 0; ; n++ {
				if rec(i+1, j+n) {
					return true
				}
				if n >= e.Max || j+n >= len(got) {
					break
				}
				for r := range e.Not {
					if e.Not[r].diff(got[j+n]) == "" {
						seen[key] = true
						return false
					}
				}
				for r := range e.Rows {
					if e.Rows[r].diff(got[j+n]) == "" {
						if count[r]++; count[r] > 1 {
							seen[key] = true
							return false
						}
						break
					}
				}
			}
		} else {
			if j < len(got) && e.diff(got[j]) == "" && rec(i+1, j+1) {
				return true
			}
			if e.Opt && rec(i+1, j) {
				return true
			}
		}
		seen[key] = true
		return false
	}
	if rec(0, 0) {
		return ""
	}
	printed := "(end)"
	if best < len(got) {
		printed = got[best].Raw
	}
	return fmt.Sprintf("the statements differ from the expected ones, at the latest at statement %d: %.300q (%d printed)", best+1, printed, len(got))
}
