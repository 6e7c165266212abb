package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
)

// Script generators. Every random choice comes from the case seed.

var idents = []string{"a", "b", "x", "y", "tmp", "_", "__", "_1", "_10", "_11", "_101", "_100", "_110", "_111", "x2", "x3", "x5", "x10", "i1", "i2", "i3", "i4", "i7", "i3_",
	"return", "add", "shl", "addx", "shlx", "xadd", "xshl", "returnx", "return1", "ret", "A", "Z9", "e0", "x_y", "Add", "RETURN", "add1", "shl2", "abcdefghijklmnopqrstuvwxyz_0123456789",
	"z", "t0", "t1", "b0", "x0", "d", "db", "xdbl"}

// dblIdents are identifiers that start like the doubling operator.
var dblIdents = []string{"dbl", "dbla", "dblx", "dbl1", "dbl2", "dbl_", "dbldbl", "dblreturn", "dbl9"}

type scriptGen struct {
	r      *Rng
	n      int // elements so far
	names  []string
	taken  map[string]bool
	limit  int // elements
	mids   []int
	errs   bool // allow rejected uses
	bad    bool // one was made
	dbl    bool
	depth  int
	maxSh  int
	nodead bool
}

func (g *scriptGen) ident() string {
	if g.dbl && g.r.P(1, 6) {
		return dblIdents[g.r.N(len(dblIdents))]
	}
	if g.r.P(1, 40) {
		return "dbl"
	}
	if g.r.P(1, 200) {
		return strings.Repeat(pick(g.r, "q", "_", "A1", "longname"), pick(g.r, 17, 33, 65, 130, 260))
	}
	if g.r.P(1, 3) {
		const first = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
		const rest = first + "0123456789"
		b := []byte{first[g.r.N(len(first))]}
		for k := g.r.N(5); k > 0; k-- {
			b = append(b, rest[g.r.N(len(rest))])
		}
		if !g.dbl && strings.HasPrefix(string(b), "dbl") {
			return "q"
		}
		return string(b)
	}
	return idents[g.r.N(len(idents))]
}

func (g *scriptGen) leaf() *node {
	r := g.r
	if g.errs && r.P(1, 14) {
		g.bad = true
		switch r.N(4) {
		case 0:
			return &node{K: 'i', Name: g.ident()}
		case 1:
			return &node{K: 'o', N: g.n + r.N(3)}
		case 2:
			return &node{K: 'o', N: r.In(0, 1<<30)}
		default:
			return &node{K: 'o', N: g.n}
		}
	}
	switch x := r.N(10); {
	case x < 3:
		return &node{K: 'o'}
	case x < 7 && len(g.names) > 0:
		k := len(g.names) - 1
		if r.P(1, 2) {
			k = r.N(len(g.names))
		}
		return &node{K: 'i', Name: g.names[k]}
	case x < 8 && len(g.mids) > 0:
		return &node{K: 'o', N: g.mids[r.N(len(g.mids))]}
	}
	if r.P(1, 2) {
		return &node{K: 'o', N: g.n - 1}
	}
	return &node{K: 'o', N: r.N(g.n)}
}

func (g *scriptGen) expr(d int) *node {
	r := g.r
	if d <= 0 || g.n >= g.limit || r.P(1, 6) {
		return g.leaf()
	}
	switch r.N(6) {
	case 0, 1, 2:
		x := g.expr(d - 1)
		var y *node
		if r.P(1, 10) {
			y = g.again(x)
		} else {
			y = g.expr(d - 1)
		}
		g.n++
		return &node{K: '+', X: x, Y: y}
	case 3:
		x := g.expr(d - 1)
		g.n++
		return &node{K: '2', X: x}
	default:
		x := g.expr(d - 1)
		s := r.In(1, pick(r, 1, 2, 4, 8, g.maxSh))
		if g.n+s > g.limit {
			s = 1
		}
		for k := 1; k < s; k++ {
			g.mids = append(g.mids, g.n)
			g.n++
		}
		g.n++
		return &node{K: '<', X: x, S: uint64(s)}
	}
}

// again repeats an expression, with the operands of its last addition swapped
// at times.
func (g *scriptGen) again(e *node) *node {
	if e == nil {
		return nil
	}
	x := *e
	if x.K == '+' && g.r.P(1, 6) {
		x.X, x.Y = x.Y, x.X
	}
	x.X = g.again(x.X)
	x.Y = g.again(x.Y)
	switch x.K {
	case '<':
		for k := uint64(1); k < x.S; k++ {
			g.mids = append(g.mids, g.n)
			g.n++
		}
		g.n++
	case '+', '2':
		g.n++
	}
	return &x
}

// genTree generates the statements of a script. With errs some scripts break a
// rule of the language.
func genTree(r *Rng, size int, errs, dbl bool) []rstmt {
	g := &scriptGen{r: r, n: 1, taken: map[string]bool{}, limit: size * 12, errs: errs, dbl: dbl, maxSh: pick(r, 6, 12, 40, 200)}
	var c []rstmt
	for k := r.N(size + 1); k > 0; k-- {
		var e *node
		if len(c) > 0 && g.n < g.limit && r.P(1, 12) {
			e = g.again(c[len(c)-1-r.N(min(3, len(c)))].E)
		} else {
			e = g.expr(pick(r, 1, 1, 2, 2, 3, 4, 6))
		}
		name := g.ident()
		for try := 0; g.taken[name] && !(errs && r.P(1, 20)); try++ {
			name = g.ident() + strconv.Itoa(try)
		}
		g.taken[name] = true
		g.names = append(g.names, name)
		c = append(c, rstmt{name, e})
		if errs && r.P(1, 24) {
			// Define a name again: as what it stands for already, as the
			// same element, or as something new.
			j := r.N(len(c))
			e := pick(r, &node{K: 'i', Name: c[j].Name}, &node{K: 'i', Name: name}, c[j].E, g.expr(1))
			c = append(c, rstmt{c[j].Name, e})
		}
	}
	return append(c, rstmt{"", g.expr(pick(r, 1, 2, 3, 5, 8))})
}

// genFree generates an arbitrary tree with no regard to meaning.
func genFree(r *Rng, size int, dbl bool) []rstmt {
	g := &scriptGen{r: r, dbl: dbl}
	var free func(d int) *node
	free = func(d int) *node {
		if d <= 0 || r.P(1, 7) {
			switch r.N(6) {
			case 0, 1:
				return &node{K: 'o'}
			case 2:
				return &node{K: 'o', N: int(r.U64() >> uint(r.In(1, 62)))}
			}
			return &node{K: 'i', Name: g.ident()}
		}
		switch r.N(5) {
		case 0, 1:
			return &node{K: '+', X: free(d - 1), Y: free(d - 1)}
		case 2, 3:
			return &node{K: '<', X: free(d - 1), S: r.U64() >> uint(r.N(64))}
		}
		return &node{K: '2', X: free(d - 1)}
	}
	var c []rstmt
	if r.P(1, 60) {
		size *= 40
	}
	for k := r.N(size + 1); k > 0; k-- {
		c = append(c, rstmt{g.ident(), free(pick(r, 0, 1, 2, 3, 4))})
	}
	e := free(pick(r, 0, 1, 2, 3, 4, 6))
	if r.P(1, 30) { // a long line
		for k := r.In(2, pick(r, 40, 300, 1500)); k > 0; k-- {
			e = &node{K: '+', X: e, Y: free(pick(r, 0, 0, 1, 2))}
		}
	}
	return append(c, rstmt{"", e})
}

// render writes the tree as text in a random spelling.
type renderer struct {
	r     *Rng
	b     strings.Builder
	wild  bool
	plain bool
}

func (p *renderer) sp() {
	if p.plain {
		return
	}
	for k := pick(p.r, 0, 0, 0, 1, 1, 2); k > 0; k-- {
		p.b.WriteByte(" \t\r"[pick(p.r, 0, 0, 0, 1, 2)])
	}
}

func (p *renderer) must() {
	p.b.WriteByte(" \t"[pick(p.r, 0, 0, 1)])
	p.sp()
}

func (p *renderer) uint(v uint64) string {
	switch {
	case p.plain:
	case p.r.P(1, 6):
		s := strconv.FormatUint(v, 16)
		if p.r.P(1, 3) {
			s = strings.ToUpper(s)
		}
		return "0x" + strings.Repeat("0", p.r.N(3)) + s
	case p.r.P(1, 6):
		return "0" + strings.Repeat("0", p.r.N(2)) + strconv.FormatUint(v, 8)
	}
	return strconv.FormatUint(v, 10)
}

func identTail(s string) bool {
	return s != "" && (isAlpha(s[len(s)-1]) || isDig(s[len(s)-1]))
}

func (p *renderer) paren(e *node) {
	n := 1
	if p.r.P(1, 10) {
		n = p.r.In(1, 6)
	}
	for k := 0; k < n; k++ {
		p.b.WriteByte('(')
		p.sp()
	}
	p.expr(e, 0)
	for k := 0; k < n; k++ {
		p.sp()
		p.b.WriteByte(')')
	}
}

// expr writes e where the grammar wants: 0 an expression, 1 a shift
// expression, 2 a base expression.
func (p *renderer) expr(e *node, lvl int) {
	need := 2
	switch e.K {
	case '+':
		need = 0
	case '2', '<':
		need = 1
	}
	if need < lvl || p.r.P(1, 12) && !p.plain {
		p.paren(e)
		return
	}
	switch e.K {
	case 'o':
		if e.N == 0 && !(p.r.P(1, 8) && !p.plain) {
			p.b.WriteByte('1')
			return
		}
		p.b.WriteByte('[')
		p.sp()
		p.b.WriteString(p.uint(uint64(e.N)))
		p.sp()
		p.b.WriteByte(']')
	case 'i':
		p.b.WriteString(e.Name)
	case '+':
		p.expr(e.X, 0)
		if p.r.P(1, 4) && !p.plain {
			if identTail(p.b.String()) {
				p.must()
			} else {
				p.sp()
			}
			p.b.WriteString("add")
		} else {
			p.sp()
			p.b.WriteByte('+')
		}
		p.sp()
		p.expr(e.Y, 1)
	case '2':
		if p.r.P(1, 3) && !p.plain {
			p.b.WriteString("dbl")
			p.must()
		} else {
			p.b.WriteByte('2')
			p.sp()
			p.b.WriteByte('*')
			p.sp()
		}
		p.expr(e.X, 2)
	case '<':
		p.expr(e.X, 2)
		if p.r.P(1, 3) && !p.plain {
			if identTail(p.b.String()) {
				p.must()
			} else {
				p.sp()
			}
			p.b.WriteString("shl")
		} else {
			p.sp()
			p.b.WriteString("<<")
		}
		p.sp()
		p.b.WriteString(p.uint(e.S))
	}
}

func render(r *Rng, c []rstmt, plain bool) string {
	p := &renderer{r: r, plain: plain}
	for i, s := range c {
		p.sp()
		if i < len(c)-1 {
			p.b.WriteString(s.Name)
			p.sp()
			p.b.WriteByte('=')
			p.sp()
			p.expr(s.E, 0)
			p.sp()
			p.b.WriteByte('\n')
			continue
		}
		if !r.P(1, 4) {
			p.b.WriteString("return")
			p.must()
		}
		p.expr(s.E, 0)
		p.sp()
		if r.P(3, 4) {
			p.b.WriteByte('\n')
			p.sp()
		}
	}
	return p.b.String()
}

var soupTokens = []string{"1", "2", "2*", "*", "dbl", "dbl ", "(", ")", "(", ")", "[", "]", "[1]", "[0]", "[2]", "+", "add", " add ", "<<", "shl", " shl ", "<< 2", "<<3", "shl 0x2",
	"=", "\n", "return ", "return", "a", "b", "a=", "b = ", "x1", "0x1", "0x", "010", "08", "3", " ", "\t", "\r", "a = 1+1\n", "1+1", "[0x1]", "[01]", "_", "#", "-", "é", "\x00", "\xff", "<", "0", "return 1", ";"}

// soup is a random token sequence.
func soup(r *Rng, n int) string {
	var b strings.Builder
	for k := r.In(0, n); k > 0; k-- {
		b.WriteString(soupTokens[r.N(len(soupTokens))])
	}
	return b.String()
}

// mutate edits text.
func mutate(r *Rng, s string) string {
	b := []byte(s)
	for k := r.In(1, pick(r, 1, 2, 4, 10)); k > 0; k-- {
		at := r.N(len(b) + 1)
		switch r.N(7) {
		case 0: // delete
			if at < len(b) {
				to := min(len(b), at+r.In(1, 3))
				b = append(b[:at:at], b[to:]...)
			}
		case 1, 2: // insert a token
			t := soupTokens[r.N(len(soupTokens))]
			b = append(b[:at:at], append([]byte(t), b[at:]...)...)
		case 3: // replace a byte
			if at < len(b) {
				b[at] = "1234567890abxdl()[]+<=\n *_\x00\xff\t"[r.N(28)]
			}
		case 4: // duplicate a piece
			to := min(len(b), at+r.In(1, 12))
			p := append([]byte(nil), b[at:to]...)
			b = append(b[:to:to], append(p, b[to:]...)...)
		case 5: // swap lines
			ls := strings.Split(string(b), "\n")
			i, j := r.N(len(ls)), r.N(len(ls))
			ls[i], ls[j] = ls[j], ls[i]
			b = []byte(strings.Join(ls, "\n"))
		case 6: // truncate
			if r.P(1, 3) {
				b = b[:at]
			}
		}
	}
	return string(b)
}

var shiftAmount = regexp.MustCompile(`(<<|shl)([ \t\r]*)(0x[0-9a-fA-F]+|[0-9]+)`)

// boundShifts limits every shift amount of a text, and their sum.
func boundShifts(s string, each, total uint64) string {
	var sum uint64
	return shiftAmount.ReplaceAllStringFunc(s, func(m string) string {
		p := shiftAmount.FindStringSubmatch(m)
		v, err := strconv.ParseUint(p[3], 0, 64)
		if err != nil {
			v, err = strconv.ParseUint(strings.TrimLeft(p[3], "0"), 10, 64)
		}
		if err != nil || v > each || sum+v > total {
			sum++
			return p[1] + p[2] + "1"
		}
		sum += v
		return m
	})
}

// bigScript makes long scripts: many statements, many live values, long lines,
// long shifts, long names, values far beyond machine words.
func bigScript(r *Rng) string {
	if r.P(1, 16) {
		return hugeText(r)
	}
	var c []rstmt
	id := func(n string) *node { return &node{K: 'i', Name: n} }
	add := func(x, y *node) *node { return &node{K: '+', X: x, Y: y} }
	pad := ""
	if r.P(1, 5) {
		pad = strings.Repeat("n", pick(r, 60, 70, 130, 260, 1030))
	}
	name := func(k int) string { return pad + "v" + strconv.Itoa(k) }
	last := &node{K: 'o'}
	switch r.N(7) {
	case 0: // many values alive, then consumed in some order
		k := r.In(2, pick(r, 12, 40, 120, 300))
		c = append(c, rstmt{name(0), add(last, &node{K: 'o'})})
		for i := 1; i < k; i++ {
			c = append(c, rstmt{name(i), add(id(name(i-1)), &node{K: 'o'})})
		}
		e := id(name(k - 1))
		switch r.N(3) {
		case 0:
			for i := k - 2; i >= 0; i-- {
				e = add(e, id(name(i)))
			}
		case 1:
			for i := 0; i < k-1; i++ {
				e = add(id(name(i)), e)
			}
		default:
			for i := 0; i < k-1; i++ {
				j := i + r.N(k-1-i)
				if j != i && r.P(1, 2) {
					j = i
				}
				e = add(e, id(name(j)))
			}
		}
		c = append(c, rstmt{"", e})
	case 1: // long shifts, sometimes with a use of the inside
		total := 0
		prev := last
		for i := 0; i < r.In(1, 6); i++ {
			s := r.In(1, pick(r, 10, 64, 130, 257, 300, 600))
			if total += s; total > 700 {
				break
			}
			c = append(c, rstmt{name(i), add(&node{K: '<', X: prev, S: uint64(s)}, pick(r, prev, &node{K: 'o'}, &node{K: 'o', N: r.N(total)}))})
			prev = id(name(i))
			total++
		}
		c = append(c, rstmt{"", add(prev, &node{K: 'o'})})
	case 2: // one long sum
		e := last
		for i := r.In(2, pick(r, 50, 300, 1200)); i > 0; i-- {
			e = add(e, pick(r, &node{K: 'o'}, &node{K: 'o'}, &node{K: 'o', N: 1}))
		}
		c = append(c, rstmt{"", e})
	case 3: // statements in a long row
		n := r.In(2, pick(r, 30, 110, 300, 700))
		for i := 0; i < n; i++ {
			x := last
			if i > 0 {
				x = id(name(i - 1 - r.N(min(i, 3))))
			}
			y := &node{K: 'o'}
			if i > 0 {
				y = id(name(r.N(i)))
			}
			c = append(c, rstmt{name(i), pick(r, add(x, y), add(y, x), &node{K: '2', X: x}, add(&node{K: '2', X: y}, x))})
		}
		c = append(c, rstmt{"", add(id(name(n-1)), &node{K: 'o'})})
	case 4: // nested to the right and to the left
		e := last
		for i := r.In(2, pick(r, 10, 60, 200)); i > 0; i-- {
			e = pick(r, add(&node{K: 'o'}, e), add(e, &node{K: 'o'}), &node{K: '2', X: e}, &node{K: '<', X: e, S: uint64(r.In(1, 3))})
		}
		c = append(c, rstmt{"", e})
	case 5: // operands by number only
		n := r.In(2, pick(r, 12, 130, 300))
		for i := 0; i < n; i++ {
			c = append(c, rstmt{name(i), add(&node{K: 'o', N: i}, &node{K: 'o', N: r.N(i + 1)})})
		}
		c = append(c, rstmt{"", add(&node{K: 'o', N: n}, &node{K: 'o', N: r.N(n)})})
	default:
		if p := genProg(r, pick(r, 150, 300, 500)); len(p) > 0 {
			return progScript(r, p)
		}
	}
	if c == nil {
		c = []rstmt{{"", last}}
	}
	return boundShifts(render(r, c, r.P(1, 2)), 700, 900)
}

// hugeText makes a small script with one huge part.
func hugeText(r *Rng) string {
	size := pick(r, 1100, 4096, 4100, 8200, 20000, 66000)
	switch r.N(5) {
	case 0: // white space
		t := []byte(render(r, genTree(r, pick(r, 1, 2, 4), false, false), false))
		var at []int
		for i, b := range t {
			if b == ' ' || b == '\t' || b == '=' {
				at = append(at, i)
			}
		}
		if len(at) == 0 {
			at = []int{len(t)}
		}
		k := at[r.N(len(at))]
		return boundShifts(string(t[:k])+strings.Repeat(pick(r, " ", "\t", "\r", " \t"), size)+string(t[k:]), 200, 500)
	case 1: // a name
		n := strings.Repeat(pick(r, "n", "_", "name"), size)[:size]
		return n + " = 1 + 1\n" + n[1:] + " = " + n + " + 1\nreturn " + n[1:] + " + " + n + "\n"
	case 2: // a literal
		z := strings.Repeat("0", size)
		return pick(r, "return ["+z+"1] + 1", "a = 1 + 1\nreturn a + ["+z+"1]", "return 1 << 0x"+z+"3\n", "return 1 + [0x"+z+"]", "return 1 << "+z+"7")
	case 3: // a shift
		s := pick(r, 1000, 1023, 1024, 1025, 2048, 3000)
		return pick(r, fmt.Sprintf("return 1 << %d\n", s), fmt.Sprintf("a = 1 + 1\nb = a << %d\nreturn b + a\n", s), fmt.Sprintf("a = 1 << %d\nreturn a + [%d]\n", s, s-1-r.N(3)))
	}
	// a line
	t := "return 1" + strings.Repeat(pick(r, " + 1", "+[0]", " add 1"), size/8)
	return t
}

// megaText is a script with more than a megabyte of white space before a part
// that matters.
func megaText(r *Rng) string {
	pad := strings.Repeat(pick(r, " ", "\t"), 1<<20+r.N(pick(r, 3, 5000, 150000)))
	switch r.N(5) {
	case 0:
		return "a = 1 + 1\n" + pad + "return a + 1\n"
	case 1:
		return "return 1 + 1" + pad + " + [1]\n"
	case 2:
		return "return 1 + 1" + pad + pick(r, ")", "x", "return", "\n= 1", "\x00") + "\n"
	case 3:
		return "a = 1 << 3\nb = a + " + pad + "[2]\n\tc = a + b\n" + "return c + [" + pick(r, "1", "0", "3") + "]"
	}
	return "a = 1 << 3\nb = a + 1\n" + pad + pick(r, "b = a + [2]\n", "c = d + 1\n", "c = [9] + 1\n") + "return b\n"
}

// oddScripts are shapes that stress limits rather than meaning.
func oddScript(r *Rng) string {
	n := r.In(1, pick(r, 5, 40, 400, 3000))
	switch r.N(15) {
	case 0:
		return "return " + strings.Repeat("(", n) + "1" + strings.Repeat(")", n)
	case 1:
		return "return " + strings.Repeat("(", n)
	case 2:
		return strings.Repeat("(", n) + "1" + strings.Repeat(")", r.N(n+2))
	case 3:
		return "return 1" + strings.Repeat("+1", n)
	case 4:
		return "return " + strings.Repeat("(1+", n) + "1" + strings.Repeat(")", n)
	case 5:
		return "return " + strings.Repeat("2*(", n) + "1" + strings.Repeat(")", n)
	case 6:
		return "return " + strings.Repeat("(", n) + "1" + strings.Repeat("<<1)", n)
	case 7:
		return strings.Repeat("a", n) + " = 1 + 1\nreturn " + strings.Repeat("a", n)
	case 8:
		var b strings.Builder
		for k := 0; k < n/4+1; k++ {
			fmt.Fprintf(&b, "v%d = %s + 1\n", k, map[bool]string{true: "1", false: "v" + strconv.Itoa(k-1)}[k == 0])
		}
		return b.String() + "return [1]"
	case 9:
		return strings.Repeat("\n", n) + "return 1"
	case 10:
		return "return 1" + strings.Repeat(" ", n) + strings.Repeat("\n", r.N(3))
	case 11:
		return "return [" + pick(r, "18446744073709551615", "18446744073709551616", "9223372036854775808", "9223372036854775807", "4294967296", "-1", "0x8000000000000000", "99999999999999999999999") + "]" + pick(r, "", "+1", "<<1", "+[1]")
	case 12:
		b := make([]byte, n)
		for k := range b {
			b[k] = byte(r.U64())
		}
		return string(b)
	case 13:
		return pick(r, "", "\n", " ", "return", "return ", "1", "(1)", "[0]", "return 1", "return 1\n\n", "\ufeffreturn 1", "a = 1\n", "a = 1\nreturn a", "a = 1\nb = a\nc = b\nreturn c", "return 1 << 0", "a = [1]\nreturn a", "a=1+1\nreturn a\n", "a=1\nb=1\nreturn a+b", "a=1\na=1\nreturn a", "return [7]", "a = 1 << 3\nreturn a + [2]", "a = 1+1\nb = a\nreturn b + a")
	}
	return "a = " + strings.Repeat("1 + ", n) + "1\nreturn a"
}

// genScript makes script text for robustness checks.
func genScript(r *Rng) (string, string) {
	if r.P(1, 40) {
		return boundShifts(bigScript(r), 300, 2000), "long"
	}
	switch r.N(10) {
	case 0, 1, 2:
		return boundShifts(render(r, genTree(r, pick(r, 2, 4, 8, 20), false, true), false), 300, 2000), "valid"
	case 3:
		return boundShifts(render(r, genTree(r, pick(r, 2, 4, 8), true, true), false), 300, 2000), "rule breaking"
	case 4, 5:
		return boundShifts(mutate(r, render(r, genTree(r, pick(r, 2, 4, 8), true, true), r.P(1, 2))), 300, 2000), "mutated"
	case 6, 7:
		return boundShifts(soup(r, pick(r, 3, 6, 12, 30)), 300, 2000), "token soup"
	}
	return boundShifts(oddScript(r), 300, 4000), "odd shape"
}

// genCalc makes expression text. Exponents stay small unless big is set.
func genCalc(r *Rng, big bool) string {
	num := func() string {
		switch r.N(8) {
		case 0:
			return "0"
		case 1:
			return "1"
		case 2:
			return "-" + strconv.Itoa(r.N(20))
		case 3:
			return "0x" + strconv.FormatUint(r.U64()>>uint(r.In(40, 63)), 16)
		case 4:
			return "0b" + strconv.FormatUint(r.U64()>>uint(r.In(48, 63)), 2)
		case 5:
			return pick(r, "0x", "0b", "-", "--1", "00", "017", "08", "1_0", "0b2", "0xg", "", "ff", "1e3", "1.5")
		case 6:
			if big {
				return strconv.FormatUint(r.U64()>>uint(r.In(0, 63)), 10)
			}
		}
		return strconv.Itoa(r.N(50))
	}
	var b strings.Builder
	for k := r.N(6); ; k-- {
		b.WriteString(strings.Repeat(" ", pick(r, 0, 0, 0, 1)))
		b.WriteString(num())
		b.WriteString(strings.Repeat(" ", pick(r, 0, 0, 0, 1)))
		if k <= 0 {
			break
		}
		b.WriteString(pick(r, "+", "-", "*", "/", "^", "+", "-", "/", "%", "(", "", "**"))
	}
	s := b.String()
	if r.P(1, 6) {
		s = mutate(r, s)
	}
	return s
}
