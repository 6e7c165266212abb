//go:build go1.21

package zzsim

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	"github.com/mmcloughlin/addchain"
	"github.com/mmcloughlin/addchain/acc"
	"github.com/mmcloughlin/addchain/acc/ast"
	"github.com/mmcloughlin/addchain/acc/ir"
	"github.com/mmcloughlin/addchain/acc/parse"
	"github.com/mmcloughlin/addchain/acc/pass"
	"github.com/mmcloughlin/addchain/acc/printer"
	"github.com/mmcloughlin/addchain/internal/calc"
	"github.com/mmcloughlin/addchain/internal/gen"
)

func init() { labs["lang"] = labLang }

// IOPlan drives a simulated stream.
type IOPlan struct {
	Chunks []int `json:"chunks,omitempty"` // sizes of successive transfers, then whole
	ErrAt  int   `json:"err_at"`           // fail after this many bytes; negative: never
	With   bool  `json:"with,omitempty"`   // the error comes together with data
	Zero   int   `json:"zero,omitempty"`   // every Zero-th read returns no data and no error
	Yield  int   `json:"yield,omitempty"`
	Sleep  int64 `json:"sleep,omitempty"`
}

// LangNode is a syntax tree node.
type LangNode struct {
	K    string    `json:"k"`
	N    int       `json:"n,omitempty"`
	Name string    `json:"name,omitempty"`
	X    *LangNode `json:"x,omitempty"`
	Y    *LangNode `json:"y,omitempty"`
	S    uint64    `json:"s,omitempty"`
}

// LangStmt is a statement.
type LangStmt struct {
	Name string    `json:"name"`
	E    *LangNode `json:"e"`
}

// LangItem is one library call sequence.
type LangItem struct {
	Op   string     `json:"op"` // load, fmt, tree, prog, gen, calc
	Src  []byte     `json:"src,omitempty"`
	Tree []LangStmt `json:"tree,omitempty"`
	Prog [][2]int   `json:"prog,omitempty"`
	Type string     `json:"type,omitempty"`
	In   *IOPlan    `json:"in,omitempty"`
	Out  *IOPlan    `json:"out,omitempty"`
	File string     `json:"file,omitempty"`
	Put  bool       `json:"put,omitempty"` // write Src to File first
	// Again performs the calls twice on the same objects; the second time is
	// the one reported.
	Again bool `json:"again,omitempty"`

	late []func() string
}

// LangInst is an instruction of the intermediate form.
type LangInst struct {
	K   string `json:"k"`
	Out int    `json:"out"`
	X   int    `json:"x"`
	Y   int    `json:"y,omitempty"`
	S   uint64 `json:"s,omitempty"`
}

// LangOut is what an item produced.
type LangOut struct {
	IR     []LangInst `json:"ir,omitempty"`
	Err    string     `json:"err,omitempty"`
	Stage  string     `json:"stage,omitempty"` // where Err came from
	Panic  string     `json:"panic,omitempty"`
	Tree   string     `json:"tree,omitempty"`
	Chain  []string   `json:"chain,omitempty"`
	Ops    [][2]int   `json:"ops,omitempty"`
	Text   string     `json:"text,omitempty"`
	Tree2  string     `json:"tree2,omitempty"`
	Text2  string     `json:"text2,omitempty"`
	Chain2 []string   `json:"chain2,omitempty"`
	Ops2   [][2]int   `json:"ops2,omitempty"`
	Err2   string     `json:"err2,omitempty"`
	Stage2 string     `json:"stage2,omitempty"`
	Value  string     `json:"value,omitempty"`
	Hit    int        `json:"hit,omitempty"` // stream faults that happened
	Late   string     `json:"late,omitempty"`
	Part   string     `json:"part,omitempty"` // what Again found
}

// LangSpec is the workload: each caller performs its items in order.
type LangSpec struct {
	Callers [][]LangItem `json:"callers"`
}

var errStream = errors.New("simulated stream failure")

type simReader struct {
	p    *IOPlan
	data []byte
	at   int
	n    int
	out  *LangOut
}

func (s *simReader) Read(b []byte) (int, error) {
	s.n++
	s.pause()
	if len(b) == 0 {
		return 0, nil
	}
	if s.p.Zero > 0 && s.n%s.p.Zero == 0 {
		return 0, nil
	}
	limit := len(b)
	if s.n-1 < len(s.p.Chunks) && s.p.Chunks[s.n-1] < limit {
		limit = max(s.p.Chunks[s.n-1], 1)
	}
	end := len(s.data)
	if s.p.ErrAt >= 0 && s.p.ErrAt < end {
		end = s.p.ErrAt
	}
	k := copy(b[:limit], s.data[s.at:end])
	s.at += k
	if s.at == end {
		err := io.EOF
		if s.p.ErrAt >= 0 {
			err = errStream
		}
		if k == 0 || s.p.With {
			if err == errStream {
				s.out.Hit++
			}
			return k, err
		}
	}
	return k, nil
}

func (s *simReader) pause() {
	for i := 0; i < s.p.Yield; i++ {
		runtime.Gosched()
	}
	if s.p.Sleep > 0 {
		time.Sleep(time.Duration(s.p.Sleep))
	}
}

type simWriter struct {
	p   *IOPlan
	buf bytes.Buffer
	out *LangOut
}

func (s *simWriter) Write(b []byte) (int, error) {
	for i := 0; i < s.p.Yield; i++ {
		runtime.Gosched()
	}
	if s.p.Sleep > 0 {
		time.Sleep(time.Duration(s.p.Sleep))
	}
	if s.p.ErrAt >= 0 && s.buf.Len()+len(b) > s.p.ErrAt {
		k := s.p.ErrAt - s.buf.Len()
		s.buf.Write(b[:k])
		s.out.Hit++
		return k, errStream
	}
	return s.buf.Write(b)
}

func langExpr(n *LangNode) ast.Expr {
	switch n.K {
	case "o":
		return ast.Operand(n.N)
	case "i":
		return ast.Identifier(n.Name)
	case "+":
		return ast.Add{X: langExpr(n.X), Y: langExpr(n.Y)}
	case "2":
		return ast.Double{X: langExpr(n.X)}
	case "<":
		return ast.Shift{X: langExpr(n.X), S: uint(n.S)}
	}
	panic("harness: bad node")
}

func sexpExpr(b *strings.Builder, e ast.Expr) {
	switch e := e.(type) {
	case ast.Operand:
		fmt.Fprintf(b, "[%d]", int(e))
	case ast.Identifier:
		b.WriteString(string(e))
	case ast.Add:
		b.WriteString("(+ ")
		sexpExpr(b, e.X)
		b.WriteByte(' ')
		sexpExpr(b, e.Y)
		b.WriteByte(')')
	case ast.Double:
		b.WriteString("(d ")
		sexpExpr(b, e.X)
		b.WriteByte(')')
	case ast.Shift:
		b.WriteString("(s ")
		sexpExpr(b, e.X)
		fmt.Fprintf(b, " %d)", e.S)
	default:
		fmt.Fprintf(b, "?%T", e)
	}
}

func sexpChain(c *ast.Chain) string {
	if c == nil {
		return "nil"
	}
	var b strings.Builder
	for _, s := range c.Statements {
		fmt.Fprintf(&b, "%s=", string(s.Name))
		sexpExpr(&b, s.Expr)
		b.WriteByte(';')
	}
	return b.String()
}

func chainHex(c addchain.Chain) []string {
	l := []string{}
	for _, x := range c {
		if x == nil {
			l = append(l, "nil")
		} else {
			l = append(l, x.Text(16))
		}
	}
	return l
}

func opsOf(p addchain.Program) [][2]int {
	l := [][2]int{}
	for _, o := range p {
		l = append(l, [2]int{o.I, o.J})
	}
	return l
}

func irOf(p *ir.Program) []LangInst {
	l := []LangInst{}
	for _, i := range p.Instructions {
		x := LangInst{Out: i.Output.Index}
		switch o := i.Op.(type) {
		case ir.Add:
			x.K, x.X, x.Y = "+", o.X.Index, o.Y.Index
		case ir.Double:
			x.K, x.X = "2", o.X.Index
		case ir.Shift:
			x.K, x.X, x.S = "<", o.X.Index, uint64(o.S)
		default:
			x.K = fmt.Sprintf("%T", o)
		}
		l = append(l, x)
	}
	return l
}

func (it *LangItem) reader(o *LangOut) io.Reader {
	if it.In == nil {
		return bytes.NewReader(it.Src)
	}
	return &simReader{p: it.In, data: it.Src, out: o}
}

func (it *LangItem) writer(o *LangOut) *simWriter {
	p := it.Out
	if p == nil {
		p = &IOPlan{ErrAt: -1}
	}
	return &simWriter{p: p, out: o}
}

// keep notes results that must still be the same when the session is over.
func (it *LangItem) keep(c addchain.Chain) {
	c = append(addchain.Chain(nil), c...)
	was := chainHex(c)
	it.late = append(it.late, func() string {
		for i, x := range chainHex(c) {
			if x != was[i] {
				return fmt.Sprintf("element %d of the chain was %s and is %s", i, was[i], x)
			}
		}
		return ""
	})
}

// The results of a call belong to the caller: what it does to them must not
// show up anywhere else.
func spoilTree(c *ast.Chain) {
	for i := range c.Statements {
		c.Statements[i] = ast.Statement{Name: "spoiled", Expr: ast.Operand(1 << 20)}
	}
}

func spoil(p *ir.Program) {
	for i := range p.Instructions {
		p.Instructions[i] = nil
	}
	for i := range p.Program {
		p.Program[i] = addchain.Op{I: 1 << 20, J: 1 << 20}
	}
	for i := range p.Chain {
		p.Chain[i] = nil
	}
	for i := range p.Temporaries {
		p.Temporaries[i] = "spoiled"
	}
}

// parts prints the statements and expressions of a tree one by one and parses
// them back.
func parts(c *ast.Chain) string {
	for i, s := range c.Statements {
		one := func(what string, t string, err error, at int, name string) string {
			if err != nil {
				return fmt.Sprintf("printing the %s of statement %d fails: %v", what, i, err)
			}
			r, err := parse.String(t)
			if err != nil || len(r.Statements) <= at {
				return fmt.Sprintf("the %s of statement %d prints as %q, which the parser rejects: %v", what, i, t, err)
			}
			got := sexpChain(&ast.Chain{Statements: r.Statements[at : at+1]})
			want := sexpChain(&ast.Chain{Statements: []ast.Statement{{Name: ast.Identifier(name), Expr: s.Expr}}})
			if got != want {
				return fmt.Sprintf("the %s of statement %d, %s, prints as %q, which parses to %s", what, i, want, t, got)
			}
			return ""
		}
		t, err := printer.String(s.Expr)
		if m := one("expression", "return "+t+"\n", err, 0, ""); m != "" {
			return m
		}
		t, err = printer.String(s)
		if s.Name != "" {
			t += "return 1\n"
		}
		if m := one("whole", t, err, 0, string(s.Name)); m != "" {
			return m
		}
	}
	return ""
}

func (it *LangItem) run(o *LangOut, k *Kernel) {
	defer func() {
		if v := recover(); v != nil {
			o.Panic = fmt.Sprint(v)
			n := 0
			for _, l := range strings.Split(string(debug.Stack()), "\n") {
				if strings.HasPrefix(l, "\t/repo/") && !strings.Contains(l, "/zzsim/") && n < 3 {
					o.Panic += " @ " + strings.Fields(l)[0]
					n++
				}
			}
		}
	}()
	fail := func(stage string, err error) bool {
		if err != nil {
			o.Stage, o.Err = stage, err.Error()
			if o.Err == "" {
				o.Err = "?"
			}
		}
		return err != nil
	}
	fail2 := func(stage string, err error) bool {
		if err != nil {
			o.Stage2, o.Err2 = stage, err.Error()
			if o.Err2 == "" {
				o.Err2 = "?"
			}
		}
		return err != nil
	}
	cfg := gen.Config{Allocator: pass.Allocator{Input: "x", Output: "z", Format: "t%d"}}
	switch it.Op {
	case "load":
		if it.Put {
			k.PutFile(it.File, it.Src)
		}
		// The stages one by one, then the convenience function.
		var c *ast.Chain
		var err error
		switch {
		case it.File != "":
			c, err = parse.File(it.File)
		case it.Type == "string":
			c, err = parse.String(string(it.Src))
		default:
			c, err = parse.Reader("in", it.reader(o))
		}
		if !fail("parse", err) {
			if it.Again {
				if q, err := acc.Translate(c); err == nil && pass.Eval(q) == nil {
					was := chainHex(q.Chain)
					if err := pass.Eval(q); err != nil {
						o.Part = "evaluating a second time fails: " + err.Error()
					} else if t := chainHex(q.Chain); fmt.Sprint(t) != fmt.Sprint(was) {
						o.Part = fmt.Sprintf("the chain is %v, evaluated a second time %v", was, t)
					}
					it.keep(q.Chain)
				}
			}
			o.Tree = sexpChain(c)
			p, err := acc.Translate(c)
			if !fail("translate", err) && !fail("eval", pass.Eval(p)) {
				o.Chain, o.Ops = chainHex(p.Chain), opsOf(p.Program)
				it.keep(p.Chain)
			}
			if p != nil {
				spoil(p)
			}
			spoilTree(c)
		}
		var p *ir.Program
		if it.File != "" {
			p, err = acc.LoadFile(it.File)
		} else if it.Type == "string" {
			p, err = acc.LoadString(string(it.Src))
		} else {
			p, err = acc.LoadReader("in", it.reader(o))
		}
		if !fail2("load", err) {
			o.Chain2, o.Ops2 = chainHex(p.Chain), opsOf(p.Program)
			it.keep(p.Chain)
			spoil(p)
		}
	case "fmt", "tree":
		var c *ast.Chain
		if it.Op == "tree" {
			c = &ast.Chain{}
			for _, s := range it.Tree {
				c.Statements = append(c.Statements, ast.Statement{Name: ast.Identifier(s.Name), Expr: langExpr(s.E)})
			}
		} else {
			var err error
			c, err = parse.Reader("in", it.reader(o))
			if fail("parse", err) {
				return
			}
		}
		o.Tree = sexpChain(c)
		if it.Again {
			o.Part = parts(c)
		}
		w := it.writer(o)
		err := printer.Fprint(w, c)
		o.Text = w.buf.String()
		if fail("print", err) {
			return
		}
		if t := sexpChain(c); t != o.Tree {
			o.Tree = "the printer changed the tree: " + t
		}
		c2, err := parse.String(o.Text)
		if fail2("reparse", err) {
			return
		}
		o.Tree2 = sexpChain(c2)
		t, err := printer.String(c2)
		if b, err := printer.Bytes(c2); err == nil {
			was := string(b)
			it.late = append(it.late, func() string {
				if string(b) != was {
					return fmt.Sprintf("the printed text was %q and is %q", was, b)
				}
				return ""
			})
		}
		spoilTree(c)
		spoilTree(c2)
		if fail2("reprint", err) {
			return
		}
		o.Text2 = t
	case "prog":
		p := addchain.Program{}
		for _, op := range it.Prog {
			p = append(p, addchain.Op{I: op[0], J: op[1]})
		}
		if it.Again {
			if q, err := acc.Decompile(p); err == nil {
				_ = acc.Write(&bytes.Buffer{}, q)
				spoil(q)
			}
		}
		r, err := acc.Decompile(p)
		if fail("decompile", err) {
			return
		}
		o.IR = irOf(r)
		// The intermediate form expands to the original operations.
		x := r.Clone()
		if fail("dangling", pass.CheckDanglingInputs(r.Clone())) || fail("compile", pass.Compile(x)) {
			return
		}
		o.Ops = opsOf(x.Program)
		if it.Again {
			_ = acc.Write(&bytes.Buffer{}, r)
		}
		if it.File != "" {
			if fail("save", acc.Save(it.File, r)) {
				return
			}
			b, _ := k.GetFile(it.File)
			o.Text = string(b)
			spoil(r)
			q, err := acc.LoadFile(it.File)
			if fail2("loadfile", err) {
				return
			}
			o.Chain2, o.Ops2 = chainHex(q.Chain), opsOf(q.Program)
			spoil(q)
			return
		}
		w := it.writer(o)
		err = acc.Write(w, r)
		o.Text = w.buf.String()
		if fail("write", err) {
			return
		}
		spoil(r)
		in := &LangItem{Src: []byte(o.Text), In: it.In}
		q, err := acc.LoadReader("in", in.reader(o))
		if fail2("load", err) {
			return
		}
		o.Chain2, o.Ops2 = chainHex(q.Chain), opsOf(q.Program)
		it.keep(q.Chain)
		spoil(q)
	case "build":
		c, err := parse.Reader("in", it.reader(o))
		if fail("parse", err) {
			return
		}
		p, err := acc.Translate(c)
		if fail("translate", err) {
			return
		}
		b, err := acc.Build(p)
		if fail("build", err) {
			return
		}
		w := it.writer(o)
		err = printer.Fprint(w, b)
		o.Text = w.buf.String()
		bad := fail("print", err)
		spoilTree(b)
		spoilTree(c)
		spoil(p)
		if bad {
			return
		}
		q, err := acc.LoadString(o.Text)
		if fail2("load", err) {
			return
		}
		o.Chain2, o.Ops2 = chainHex(q.Chain), opsOf(q.Program)
		spoil(q)
	case "gen":
		c, err := parse.Reader("in", it.reader(o))
		if fail("parse", err) {
			return
		}
		if it.Again {
			if q, err := gen.PrepareData(cfg, c); err == nil {
				spoil(q.Program)
			}
		}
		d, err := gen.PrepareData(cfg, c)
		if fail("prepare", err) {
			return
		}
		if it.Again {
			for _, n := range gen.BuiltinTemplateNames() {
				if t, err := gen.BuiltinTemplate(n); err == nil {
					_ = gen.Generate(&bytes.Buffer{}, t, d)
				}
			}
		}
		t := string(it.Type)
		if gen.IsBuiltinTemplate(t) {
			if t, err = gen.BuiltinTemplate(t); fail("template", err) {
				return
			}
		}
		w := it.writer(o)
		err = gen.Generate(w, t, d)
		o.Text = w.buf.String()
		if fail("generate", err) {
			return
		}
		o.Chain, o.Ops = chainHex(d.Chain), opsOf(d.Ops)
		it.keep(d.Chain)
		spoil(d.Program)
		spoilTree(c)
	case "calc":
		n, err := calc.Eval(string(it.Src))
		if !fail("calc", err) {
			if n.BitLen() > 1<<16 {
				o.Value = fmt.Sprintf("%d bits", n.BitLen())
			} else {
				o.Value = n.String()
			}
		}
	default:
		panic("harness: bad op")
	}
}

func labLang(sc *Scenario, r *Result) {
	var sp LangSpec
	if err := json.Unmarshal(sc.Lab, &sp); err != nil {
		r.Err = err.Error()
		return
	}
	outs := make([][]LangOut, len(sp.Callers))
	for i := range sp.Callers {
		outs[i] = make([]LangOut, len(sp.Callers[i]))
	}
	k := newKernelFor(sc)
	cfg := simConfig(&sc.Sched)
	syscall.SimOS = k
	runtime.SimStart(cfg)
	run := func(i int) {
		for j := range sp.Callers[i] {
			sp.Callers[i][j].run(&outs[i][j], k)
		}
	}
	if len(sp.Callers) == 1 {
		run(0)
	} else {
		done := make(chan int, len(sp.Callers))
		for i := range sp.Callers {
			i := i
			go func() {
				run(i)
				done <- i
			}()
		}
		for range sp.Callers {
			<-done
		}
	}
	if !drain() {
		r.Leaked = true
	}
	st := runtime.SimStop()
	syscall.SimOS = nil
	r.fill(st)
	r.fillOS(k, sc.Events)
	for i := range sp.Callers {
		for j := range sp.Callers[i] {
			for _, f := range sp.Callers[i][j].late {
				if m := f(); m != "" {
					outs[i][j].Late = m
				}
			}
		}
	}
	r.Data, _ = json.Marshal(outs)
}
