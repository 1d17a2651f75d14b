package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
)

// Lit is an SQL literal.
type Lit struct {
	Null    bool
	Default bool
	Kind    byte   // 's' quoted text, 'x' hexadecimal bytes, 'b' bits, 'n' bare number
	B       []byte // bytes ('s', 'x'), digits ('b'), text ('n')
}

func (l Lit) String() string {
	if l.Null {
		return "NULL"
	}
	if l.Default {
		return "DEFAULT"
	}
	b := l.B
	if len(b) > 200 {
		b = append(append([]byte{}, b[:200]...), "..."...)
	}
	return fmt.Sprintf("%c%q", l.Kind, b)
}

// Stmt is a parsed statement.
type Stmt struct {
	Type  string // replace, update
	DB    string
	Tab   string
	Vals  []Lit
	Set   []Assign
	Where []Assign
	Raw   string
}

// Assign is column = literal.
type Assign struct {
	Col string
	Val Lit
}

type sqlParser struct {
	s string
	i int
}

func (p *sqlParser) fail(what string) error {
	end := p.i + 40
	if end > len(p.s) {
		end = len(p.s)
	}
	at := p.i
	if at > len(p.s) {
		at = len(p.s)
	}
	return fmt.Errorf("not a statement: expected %s at byte %d: %q", what, p.i, p.s[at:end])
}

func (p *sqlParser) ws() {
	for p.i < len(p.s) && (p.s[p.i] == ' ' || p.s[p.i] == '\t') {
		p.i++
	}
}

func isWordByte(c byte) bool {
	return c == '_' || c == '$' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
}

// word consumes the given keyword (any letter case).
func (p *sqlParser) word(w string) bool {
	p.ws()
	if len(p.s)-p.i < len(w) || !strings.EqualFold(p.s[p.i:p.i+len(w)], w) {
		return false
	}
	if j := p.i + len(w); j < len(p.s) && isWordByte(p.s[j]) {
		return false
	}
	p.i += len(w)
	return true
}

func (p *sqlParser) punct(c byte) bool {
	p.ws()
	if p.i < len(p.s) && p.s[p.i] == c {
		p.i++
		return true
	}
	return false
}

func (p *sqlParser) ident() (string, error) {
	p.ws()
	if p.i < len(p.s) && p.s[p.i] == '`' {
		var b []byte
		for j := p.i + 1; j < len(p.s); j++ {
			if p.s[j] == '`' {
				if j+1 < len(p.s) && p.s[j+1] == '`' {
					b = append(b, '`')
					j++
					continue
				}
				p.i = j + 1
				return string(b), nil
			}
			b = append(b, p.s[j])
		}
		return "", p.fail("closing backtick")
	}
	j := p.i
	for j < len(p.s) && isWordByte(p.s[j]) {
		j++
	}
	if j == p.i {
		return "", p.fail("identifier")
	}
	id := p.s[p.i:j]
	p.i = j
	return id, nil
}

// quoted reads a quoted string with MySQL's escapes.
func (p *sqlParser) quoted() ([]byte, error) {
	q := p.s[p.i]
	b := []byte{}
	for j := p.i + 1; j < len(p.s); j++ {
		c := p.s[j]
		switch {
		case c == '\\':
			j++
			if j >= len(p.s) {
				return nil, p.fail("escaped character")
			}
			switch p.s[j] {
			case '0':
				b = append(b, 0)
			case 'b':
				b = append(b, 8)
			case 'n':
				b = append(b, 10)
			case 'r':
				b = append(b, 13)
			case 't':
				b = append(b, 9)
			case 'Z':
				b = append(b, 26)
			case '%', '_':
				b = append(b, '\\', p.s[j])
			default:
				b = append(b, p.s[j])
			}
		case c == q:
			if j+1 < len(p.s) && p.s[j+1] == q {
				b = append(b, q)
				j++
				continue
			}
			p.i = j + 1
			return b, nil
		default:
			b = append(b, c)
		}
	}
	return nil, p.fail("closing quote")
}

func (p *sqlParser) literal() (Lit, error) {
	p.ws()
	if p.i >= len(p.s) {
		return Lit{}, p.fail("literal")
	}
	c := p.s[p.i]
	switch {
	case p.word("null"):
		return Lit{Null: true}, nil
	case p.word("default"):
		return Lit{Default: true}, nil
	case c == '\'' || c == '"':
		b, err := p.quoted()
		return Lit{Kind: 's', B: b}, err
	case p.word("unhex"):
		if !p.punct('(') {
			return Lit{}, p.fail("( after unhex")
		}
		l, err := p.literal()
		if err != nil {
			return l, err
		}
		if !p.punct(')') {
			return Lit{}, p.fail(") after unhex")
		}
		if l.Null {
			return l, nil
		}
		h := string(l.B)
		if len(h)%2 == 1 {
			h = "0" + h
		}
		b, err := hex.DecodeString(h)
		if err != nil {
			// unhex() of something that isn't hexadecimal is NULL
			return Lit{Null: true}, nil
		}
		return Lit{Kind: 'x', B: b}, nil
	case (c == 'x' || c == 'X') && p.i+1 < len(p.s) && p.s[p.i+1] == '\'':
		p.i++
		h, err := p.quoted()
		if err != nil {
			return Lit{}, err
		}
		b, err := hex.DecodeString(string(h))
		if err != nil {
			return Lit{}, p.fail("hexadecimal digits")
		}
		return Lit{Kind: 'x', B: b}, nil
	case (c == 'b' || c == 'B') && p.i+1 < len(p.s) && p.s[p.i+1] == '\'':
		p.i++
		d, err := p.quoted()
		if err != nil {
			return Lit{}, err
		}
		for _, x := range d {
			if x != '0' && x != '1' {
				return Lit{}, p.fail("binary digits")
			}
		}
		return Lit{Kind: 'b', B: d}, nil
	case c == '0' && p.i+1 < len(p.s) && (p.s[p.i+1] == 'x' || p.s[p.i+1] == 'b'):
		j := p.i + 2
		for j < len(p.s) && isWordByte(p.s[j]) {
			j++
		}
		d := p.s[p.i+2 : j]
		k := p.s[p.i+1]
		p.i = j
		if k == 'b' {
			return Lit{Kind: 'b', B: []byte(d)}, nil
		}
		if len(d)%2 == 1 {
			d = "0" + d
		}
		b, err := hex.DecodeString(d)
		if err != nil {
			return Lit{}, p.fail("hexadecimal digits")
		}
		return Lit{Kind: 'x', B: b}, nil
	case c >= '0' && c <= '9' || c == '-' || c == '+' || c == '.':
		j := p.i + 1
		for j < len(p.s) && (p.s[j] >= '0' && p.s[j] <= '9' || strings.IndexByte(".eE", p.s[j]) >= 0 ||
			(p.s[j] == '-' || p.s[j] == '+') && (p.s[j-1] == 'e' || p.s[j-1] == 'E')) {
			j++
		}
		t := p.s[p.i:j]
		if _, err := strconv.ParseFloat(t, 64); err != nil && !strings.Contains(err.Error(), "range") {
			return Lit{}, p.fail("number")
		}
		p.i = j
		return Lit{Kind: 'n', B: []byte(t)}, nil
	}
	return Lit{}, p.fail("literal")
}

// parseStmt parses a line of standard output.
func parseStmt(line string) (*Stmt, error) {
	p := &sqlParser{s: line}
	st := &Stmt{Raw: line}
	var err error
	name := func() error {
		if st.DB, err = p.ident(); err != nil {
			return err
		}
		if !p.punct('.') {
			return p.fail(". between database and table")
		}
		st.Tab, err = p.ident()
		return err
	}
	end := func() error {
		if !p.punct(';') {
			return p.fail("; at the end")
		}
		p.ws()
		if p.i != len(p.s) {
			return p.fail("end of line")
		}
		return nil
	}
	switch {
	case p.word("replace"):
		st.Type = "replace"
		p.word("into")
		if err := name(); err != nil {
			return nil, err
		}
		if !p.word("values") || !p.punct('(') {
			return nil, p.fail("values (")
		}
		for {
			l, err := p.literal()
			if err != nil {
				return nil, err
			}
			st.Vals = append(st.Vals, l)
			if p.punct(',') {
				continue
			}
			break
		}
		if !p.punct(')') {
			return nil, p.fail(")")
		}
		return st, end()
	case p.word("update"):
		st.Type = "update"
		if err := name(); err != nil {
			return nil, err
		}
		if !p.word("set") {
			return nil, p.fail("set")
		}
		for {
			col, err := p.ident()
			if err != nil {
				return nil, err
			}
			if !p.punct('=') {
				return nil, p.fail("=")
			}
			l, err := p.literal()
			if err != nil {
				return nil, err
			}
			st.Set = append(st.Set, Assign{col, l})
			if p.punct(',') {
				continue
			}
			break
		}
		if !p.word("where") {
			return nil, p.fail("where")
		}
		for {
			col, err := p.ident()
			if err != nil {
				return nil, err
			}
			var l Lit
			if p.word("is") {
				if !p.word("null") {
					return nil, p.fail("null")
				}
				l.Null = true
			} else {
				if !p.punct('=') {
					return nil, p.fail("=")
				}
				if l, err = p.literal(); err != nil {
					return nil, err
				}
			}
			st.Where = append(st.Where, Assign{col, l})
			if p.word("and") {
				continue
			}
			break
		}
		return st, end()
	}
	return nil, p.fail("replace or update")
}

// ---- expected values ----

// Bytes is a byte string printed by the specification as an array of numbers.
type Bytes []byte

// UnmarshalJSON reads [1,2,3].
func (b *Bytes) UnmarshalJSON(d []byte) error {
	out := make([]byte, 0, len(d)/3)
	n, have := 0, false
	for _, c := range d {
		switch {
		case c >= '0' && c <= '9':
			n = n*10 + int(c-'0')
			have = true
		case c == ',' || c == ']':
			if have {
				if n > 255 {
					return fmt.Errorf("byte out of range: %d", n)
				}
				out = append(out, byte(n))
			}
			n, have = 0, false
		case c == '[' || c == ' ':
		default:
			return fmt.Errorf("bad byte array %.40q", d)
		}
	}
	*b = out
	return nil
}

// MarshalJSON writes [1,2,3].
func (b Bytes) MarshalJSON() ([]byte, error) {
	out := []byte{'['}
	for i, c := range b {
		if i > 0 {
			out = append(out, ',')
		}
		out = strconv.AppendInt(out, int64(c), 10)
	}
	return append(out, ']'), nil
}

// Exp is an expected value.
type Exp struct {
	K   string `json:"k"`
	B   Bytes  `json:"b,omitempty"`
	Neg bool   `json:"neg,omitempty"`
	M   Bytes  `json:"m,omitempty"`
}

func (e Exp) String() string {
	switch e.K {
	case "z":
		return "NULL"
	case "n", "b":
		s := new(big.Int).SetBytes(e.M).String()
		if e.Neg {
			s = "-" + s
		}
		return s
	case "f":
		if len(e.B) == 4 {
			return fmt.Sprint(math.Float32frombits(le32(e.B)))
		}
		return fmt.Sprint(math.Float64frombits(le64(e.B)))
	}
	b := e.B
	if len(b) > 200 {
		b = append(append([]byte{}, b[:200]...), "..."...)
	}
	return fmt.Sprintf("%s%q", e.K, []byte(b))
}

func le32(b []byte) uint32 {
	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
}
func le64(b []byte) uint64 { return uint64(le32(b)) | uint64(le32(b[4:]))<<32 }

// match tells whether the literal denotes the expected value.
func (e Exp) match(l Lit) bool {
	if e.K == "d" || l.Default {
		return e.K == "d" && l.Default
	}
	if e.K == "?" {
		return true
	}
	if e.K == "z" || l.Null {
		return e.K == "z" && l.Null
	}
	switch e.K {
	case "*":
		return true
	case "n", "b":
		want := new(big.Int).SetBytes(e.M)
		if e.Neg {
			want.Neg(want)
		}
		got := new(big.Int)
		switch l.Kind {
		case 'x':
			got.SetBytes(l.B)
		case 'b':
			if len(l.B) > 0 {
				if _, ok := got.SetString(string(l.B), 2); !ok {
					return false
				}
			}
		case 's':
			if e.K == "b" {
				// A text in a bit column stands for its bytes.
				got.SetBytes(l.B)
				break
			}
			if _, ok := got.SetString(strings.TrimPrefix(string(l.B), "+"), 10); !ok {
				return false
			}
		case 'n':
			if _, ok := got.SetString(strings.TrimPrefix(string(l.B), "+"), 10); !ok {
				return false
			}
		}
		return got.Cmp(want) == 0
	case "f":
		if l.Kind != 's' && l.Kind != 'n' {
			return false
		}
		if len(e.B) == 4 {
			want := math.Float32frombits(le32(e.B))
			got, err := strconv.ParseFloat(string(l.B), 32)
			return err == nil && float32(got) == want
		}
		want := math.Float64frombits(le64(e.B))
		got, err := strconv.ParseFloat(string(l.B), 64)
		return err == nil && got == want
	case "s":
		if l.Kind == 'b' {
			return false
		}
		return bytes.Equal(l.B, e.B)
	case "p":
		// The value, and any number of pad characters.
		if l.Kind != 's' && l.Kind != 'x' || !bytes.HasPrefix(l.B, e.B) {
			return false
		}
		rest := l.B[len(e.B):]
		for len(rest) > 0 {
			if !bytes.HasPrefix(rest, e.M) {
				return false
			}
			rest = rest[len(e.M):]
		}
		return true
	case "c":
		if l.Kind == 'b' {
			return false
		}
		return bytes.Equal(bytes.TrimRight(l.B, " "), bytes.TrimRight(e.B, " "))
	}
	return false
}
