package main

import (
	"errors"
	"fmt"
	"math/big"
	"strconv"
	"strings"
)

// Reference model of the acc language, written from acc.peg and the property
// statements. It shares no code with the repository.

// node is an expression: K is 'o' operand, 'i' identifier, '+', '2', '<'.
type node struct {
	K    byte
	N    int // operand index, as the repository's int
	Name string
	X, Y *node
	S    uint64
}

type rstmt struct {
	Name string
	E    *node
}

func (e *node) sexp(b *strings.Builder) {
	switch e.K {
	case 'o':
		fmt.Fprintf(b, "[%d]", e.N)
	case 'i':
		b.WriteString(e.Name)
	case '+':
		b.WriteString("(+ ")
		e.X.sexp(b)
		b.WriteByte(' ')
		e.Y.sexp(b)
		b.WriteByte(')')
	case '2':
		b.WriteString("(d ")
		e.X.sexp(b)
		b.WriteByte(')')
	case '<':
		b.WriteString("(s ")
		e.X.sexp(b)
		fmt.Fprintf(b, " %d)", e.S)
	}
}

func sexp(c []rstmt) string {
	var b strings.Builder
	for _, s := range c {
		fmt.Fprintf(&b, "%s=", s.Name)
		s.E.sexp(&b)
		b.WriteByte(';')
	}
	return b.String()
}

type prule struct {
	rule byte
	pos  int
}

type pres struct {
	e   *node
	end int
}

type refParser struct {
	s    string
	memo map[prule]pres
	lit  error // first bad literal
	odd  bool  // a decimal literal with a leading zero: grammar and conversion disagree
}

var errSyntax = errors.New("syntax")

// refParse parses src by the published grammar. odd reports that the text uses
// a literal whose meaning the grammar leaves open.
func refParse(src string) (c []rstmt, odd bool, err error) {
	p := &refParser{s: src, memo: map[prule]pres{}}
	pos := 0
	for {
		st, end, ok := p.assignment(pos)
		if !ok {
			break
		}
		c = append(c, st)
		pos = end
	}
	st, end, ok := p.ret(pos)
	if !ok || p.ws(end) != len(src) {
		return nil, p.odd, errSyntax
	}
	if p.lit != nil {
		return nil, p.odd, p.lit
	}
	return append(c, st), p.odd, nil
}

func (p *refParser) ws(i int) int {
	for i < len(p.s) && (p.s[i] == ' ' || p.s[i] == '\t' || p.s[i] == '\r') {
		i++
	}
	return i
}

func isAlpha(c byte) bool { return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
func isDig(c byte) bool   { return c >= '0' && c <= '9' }
func isHex(c byte) bool   { return isDig(c) || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F' }

func (p *refParser) ident(i int) (string, int) {
	if i >= len(p.s) || !isAlpha(p.s[i]) {
		return "", -1
	}
	j := i + 1
	for j < len(p.s) && (isAlpha(p.s[j]) || isDig(p.s[j])) {
		j++
	}
	return p.s[i:j], j
}

func (p *refParser) has(i int, s string) int {
	if strings.HasPrefix(p.s[i:], s) {
		return i + len(s)
	}
	return -1
}

func (p *refParser) assignment(i int) (rstmt, int, bool) {
	name, j := p.ident(p.ws(i))
	if j < 0 {
		return rstmt{}, 0, false
	}
	if j = p.has(p.ws(j), "="); j < 0 {
		return rstmt{}, 0, false
	}
	e, j := p.addExpr(p.ws(j))
	if e == nil {
		return rstmt{}, 0, false
	}
	if j = p.has(p.ws(j), "\n"); j < 0 {
		return rstmt{}, 0, false
	}
	return rstmt{name, e}, j, true
}

func (p *refParser) ret(i int) (rstmt, int, bool) {
	i = p.ws(i)
	if j := p.has(i, "return"); j >= 0 && p.ws(j) > j {
		i = p.ws(j)
	}
	e, j := p.addExpr(i)
	if e == nil {
		return rstmt{}, 0, false
	}
	j = p.ws(j)
	if k := p.has(j, "\n"); k >= 0 {
		j = k
	}
	return rstmt{"", e}, j, true
}

func (p *refParser) memoized(rule byte, i int, f func(i int) (*node, int)) (*node, int) {
	k := prule{rule, i}
	if r, ok := p.memo[k]; ok {
		return r.e, r.end
	}
	e, j := f(i)
	p.memo[k] = pres{e, j}
	return e, j
}

func (p *refParser) addExpr(i int) (*node, int) {
	return p.memoized('a', i, func(i int) (*node, int) {
		e, j := p.shiftExpr(p.ws(i))
		if e == nil {
			return nil, 0
		}
		for {
			k := p.ws(j)
			m := p.has(k, "+")
			if m < 0 {
				m = p.has(k, "add")
			}
			if m < 0 {
				break
			}
			y, n := p.shiftExpr(p.ws(m))
			if y == nil {
				break
			}
			e, j = &node{K: '+', X: e, Y: y}, n
		}
		return e, p.ws(j)
	})
}

func (p *refParser) shiftExpr(i int) (*node, int) {
	return p.memoized('s', i, func(i int) (*node, int) {
		if x, j := p.base(p.ws(i)); x != nil {
			k := p.ws(j)
			m := p.has(k, "<<")
			if m < 0 {
				m = p.has(k, "shl")
			}
			if m >= 0 {
				if v, n := p.uint(p.ws(m)); n >= 0 {
					return &node{K: '<', X: x, S: v}, p.ws(n)
				}
			}
		}
		k := p.ws(i)
		m := -1
		if q := p.has(k, "2"); q >= 0 {
			m = p.has(p.ws(q), "*")
		}
		if m < 0 {
			m = p.has(k, "dbl")
		}
		if m >= 0 {
			if x, n := p.base(p.ws(m)); x != nil {
				return &node{K: '2', X: x}, n
			}
		}
		return p.base(i)
	})
}

func (p *refParser) base(i int) (*node, int) {
	return p.memoized('b', i, func(i int) (*node, int) {
		if i >= len(p.s) {
			return nil, 0
		}
		switch c := p.s[i]; {
		case c == '(':
			e, j := p.addExpr(p.ws(i + 1))
			if e == nil {
				return nil, 0
			}
			if j = p.has(p.ws(j), ")"); j < 0 {
				return nil, 0
			}
			return e, j
		case c == '1':
			return &node{K: 'o'}, i + 1
		case c == '[':
			v, j := p.uint(p.ws(i + 1))
			if j < 0 {
				return nil, 0
			}
			if j = p.has(p.ws(j), "]"); j < 0 {
				return nil, 0
			}
			return &node{K: 'o', N: int(v)}, j
		}
		name, j := p.ident(i)
		if j < 0 {
			return nil, 0
		}
		return &node{K: 'i', Name: name}, j
	})
}

func (p *refParser) uint(i int) (uint64, int) {
	span := func(j int, f func(byte) bool) int {
		for j < len(p.s) && f(p.s[j]) {
			j++
		}
		return j
	}
	var j, base, skip int
	if h := p.has(i, "0x"); h >= 0 && span(h, isHex) > h {
		j, base, skip = span(h, isHex), 16, 2
	} else if o := span(min(i+1, len(p.s)), func(c byte) bool { return c >= '0' && c <= '7' }); i < len(p.s) && p.s[i] == '0' && o > i+1 {
		j, base, skip = o, 8, 1
	} else if d := span(i, isDig); d > i {
		j, base = d, 10
		if p.s[i] == '0' && d > i+1 {
			p.odd = true // 08, 09...
		}
	} else {
		return 0, -1
	}
	v, err := strconv.ParseUint(p.s[i+skip:j], base, 64)
	if err != nil && p.lit == nil {
		p.lit = err
	}
	return v, j
}

// refOp adds elements I and J.
type refOp struct{ I, J int }

type refEval struct {
	Ops    []refOp
	Chain  []*big.Int
	Lax    bool // the statement leaves acceptance open: an error is allowed too
	Shifts map[int]bool
	ops    int
	Insts  int
}

type refState struct {
	*refEval
	names map[string]int
	limit int
}

var errBig = errors.New("too big for the model")

// refEvaluate evaluates statements in order and operands left to right.
func refEvaluate(c []rstmt, limit int) (*refEval, error) {
	st := &refState{refEval: &refEval{Chain: []*big.Int{big.NewInt(1)}, Shifts: map[int]bool{}}, names: map[string]int{}, limit: limit}
	for _, s := range c {
		v, err := st.eval(s.E)
		if err != nil {
			return st.refEval, err
		}
		if _, dup := st.names[s.Name]; dup {
			return st.refEval, fmt.Errorf("redefinition of %q", s.Name)
		}
		st.names[s.Name] = v
		if v < 0 || v >= len(st.Chain) {
			// A bare index of an element that does not exist: no operation on it.
			st.Lax = true
		}
	}
	return st.refEval, nil
}

func (st *refState) known(i int) bool { return i >= 0 && i < len(st.Chain) }

func (st *refState) append(i, j int) error {
	if !st.known(i) || !st.known(j) {
		return fmt.Errorf("element not computed")
	}
	if len(st.Chain) > st.limit {
		return errBig
	}
	st.Ops = append(st.Ops, refOp{i, j})
	st.Chain = append(st.Chain, new(big.Int).Add(st.Chain[i], st.Chain[j]))
	return nil
}

func (st *refState) eval(e *node) (int, error) {
	switch e.K {
	case 'o':
		return e.N, nil
	case 'i':
		v, ok := st.names[e.Name]
		if !ok {
			return 0, fmt.Errorf("undefined %q", e.Name)
		}
		return v, nil
	case '+':
		x, err := st.eval(e.X)
		if err != nil {
			return 0, err
		}
		early := !st.known(x)
		y, err := st.eval(e.Y)
		if err != nil {
			return 0, err
		}
		if early && st.known(x) {
			st.Lax = true // named before it existed, operated on after
		}
		if err := st.append(x, y); err != nil {
			return 0, err
		}
		st.Insts++
		return len(st.Ops), nil
	case '2':
		x, err := st.eval(e.X)
		if err != nil {
			return 0, err
		}
		st.Insts++
		return len(st.Ops) + 1, st.append(x, x)
	case '<':
		x, err := st.eval(e.X)
		if err != nil {
			return 0, err
		}
		if e.S == 0 {
			// Not given a meaning by the statement.
			st.Lax = true
			return x, nil
		}
		if e.S > uint64(st.limit) {
			return 0, errBig
		}
		for s := e.S; s > 0; s-- {
			if err := st.append(x, x); err != nil {
				return 0, err
			}
			x = len(st.Ops)
			if s > 1 {
				st.Shifts[x] = true
			}
		}
		st.Insts++
		return x, nil
	}
	panic("bad node")
}

// refLoad gives the meaning of a script: its tree and evaluation, or an error.
// lax reports that an error is acceptable as well.
func refLoad(src string, limit int) (c []rstmt, ev *refEval, lax bool, err error) {
	c, odd, err := refParse(src)
	if err != nil {
		return nil, nil, odd, err
	}
	ev, err = refEvaluate(c, limit)
	return c, ev, odd || ev != nil && ev.Lax, err
}

func (ev *refEval) end() *big.Int { return ev.Chain[len(ev.Chain)-1] }

func (ev *refEval) counts() (doubles, adds int) {
	for _, o := range ev.Ops {
		if o.I == o.J {
			doubles++
		} else {
			adds++
		}
	}
	return
}

func sameOps(a, b []refOp) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] && a[i] != (refOp{b[i].J, b[i].I}) {
			return false
		}
	}
	return true
}

func sameChain(a, b []*big.Int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Cmp(b[i]) != 0 {
			return false
		}
	}
	return true
}

// refEvalDump checks the output of the eval command against the model.
func refEvalDump(out string, ev *refEval) error {
	lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	if len(lines) != len(ev.Ops)+1 {
		return fmt.Errorf("eval printed %d lines for %d operations", len(lines), len(ev.Ops))
	}
	for k, o := range ev.Ops {
		if err := opLine(lines[k], k+1, o, ev.Chain[k+1], ""); err != nil {
			return err
		}
	}
	d, a := ev.counts()
	f := strings.Fields(lines[len(ev.Ops)])
	want := fmt.Sprintf("total: %d doubles: %d adds: %d", d+a, d, a)
	if strings.Join(f, " ") != want {
		return fmt.Errorf("eval summary %q, want %q", lines[len(ev.Ops)], want)
	}
	return nil
}

// opLine checks a line "[ k]  i+j  value".
func opLine(l string, k int, o refOp, v *big.Int, prefix string) error {
	s := strings.ReplaceAll(l, " ", "")
	s = strings.ReplaceAll(s, "\t", "|")
	s = strings.ReplaceAll(s, "|", "")
	w1 := fmt.Sprintf("[%d]%d+%d%s%x", k, o.I, o.J, prefix, v)
	w2 := fmt.Sprintf("[%d]%d+%d%s%x", k, o.J, o.I, prefix, v)
	if s != w1 && s != w2 {
		return fmt.Errorf("line %q, want [%d] %d+%d %x", l, k, o.I, o.J, v)
	}
	return nil
}

// runListing executes a listing literally and returns the output register.
func runListing(out string, alias bool) (*big.Int, error) {
	regs := map[string]*big.Int{"x": big.NewInt(1)}
	decl := map[string]bool{"x": true, "z": true}
	reg := func(n string) string {
		if alias && n == "z" {
			return "x"
		}
		return n
	}
	get := func(n string) (*big.Int, error) {
		if !decl[n] {
			return nil, fmt.Errorf("undeclared register %q", n)
		}
		v := regs[reg(n)]
		if v == nil {
			return nil, fmt.Errorf("register %q read before it is written", n)
		}
		return v, nil
	}
	lines := strings.Split(out, "\n")
	seenTmp, wrote := false, false
	for ln, l := range lines {
		if strings.TrimSpace(l) == "" {
			continue
		}
		f := strings.Split(strings.TrimRight(l, "\t "), "\t")
		bad := func(m string, a ...interface{}) error {
			return fmt.Errorf("line %d %q: %s", ln+1, l, fmt.Sprintf(m, a...))
		}
		if f[0] == "tmp" {
			if seenTmp || wrote {
				return nil, bad("misplaced declaration")
			}
			seenTmp = true
			for _, t := range f[1:] {
				if t == "" || decl[t] {
					return nil, bad("bad or repeated temporary %q", t)
				}
				decl[t] = true
			}
			continue
		}
		want := map[string]int{"add": 4, "double": 3, "shift": 4}[f[0]]
		if want == 0 || len(f) != want {
			return nil, bad("not an instruction")
		}
		if !seenTmp {
			return nil, bad("no declaration line")
		}
		if !decl[f[1]] {
			return nil, bad("undeclared register %q", f[1])
		}
		if f[1] == "x" && !alias {
			return nil, bad("the input register is written")
		}
		x, err := get(f[2])
		if err != nil {
			return nil, bad("%v", err)
		}
		v := new(big.Int)
		switch f[0] {
		case "add":
			y, err := get(f[3])
			if err != nil {
				return nil, bad("%v", err)
			}
			v.Add(x, y)
		case "double":
			v.Lsh(x, 1)
		case "shift":
			s, err := strconv.ParseUint(f[3], 10, 32)
			if err != nil || s == 0 {
				return nil, bad("shift amount")
			}
			v.Lsh(x, uint(s))
		}
		regs[reg(f[1])] = v
		wrote = true
	}
	if !wrote {
		return nil, errors.New("no instruction")
	}
	v := regs[reg("z")]
	if v == nil {
		return nil, errors.New("the output register is never written")
	}
	return v, nil
}

// checkListing runs the listing with separate and with aliased registers.
func checkListing(out string, want *big.Int) error {
	for _, alias := range []bool{false, true} {
		v, err := runListing(out, alias)
		if err != nil {
			return fmt.Errorf("alias=%v: %w", alias, err)
		}
		if v.Cmp(want) != 0 {
			return fmt.Errorf("alias=%v: output register holds %x, want %x", alias, v, want)
		}
	}
	return nil
}

// checkChainOut checks the output of the chain template.
func checkChainOut(out string, ev *refEval) error {
	lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	if len(lines) != len(ev.Chain) {
		return fmt.Errorf("chain output has %d lines for %d elements", len(lines), len(ev.Chain))
	}
	for k, v := range ev.Chain {
		s := strings.ReplaceAll(strings.ReplaceAll(lines[k], " ", ""), "\t", "")
		if want := fmt.Sprintf("%d:0x%x", k+1, v); s != want {
			return fmt.Errorf("chain output line %q, want %q", lines[k], want)
		}
	}
	return nil
}

// checkOpsOut checks the output of the ops template.
func checkOpsOut(out string, ev *refEval) error {
	lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	if len(lines) != len(ev.Ops) {
		return fmt.Errorf("ops output has %d lines for %d operations", len(lines), len(ev.Ops))
	}
	for k, o := range ev.Ops {
		if err := opLine(lines[k], k, o, ev.Chain[k+1], "0x"); err != nil {
			return err
		}
	}
	return nil
}
