package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strconv"
	"strings"
)

// The wire types of the lang lab mirror inrepo/zzsim/lang.go.

type IOPlan struct {
	Chunks []int `json:"chunks,omitempty"`
	ErrAt  int   `json:"err_at"`
	With   bool  `json:"with,omitempty"`
	Zero   int   `json:"zero,omitempty"`
	Yield  int   `json:"yield,omitempty"`
	Sleep  int64 `json:"sleep,omitempty"`
}

type LangNode struct {
	K    string    `json:"k"`
	N    int       `json:"n,omitempty"`
	Name string    `json:"name,omitempty"`
	X    *LangNode `json:"x,omitempty"`
	Y    *LangNode `json:"y,omitempty"`
	S    uint64    `json:"s,omitempty"`
}

type LangStmt struct {
	Name string    `json:"name"`
	E    *LangNode `json:"e"`
}

type LangItem struct {
	Op   string     `json:"op"`
	Src  []byte     `json:"src,omitempty"`
	Tree []LangStmt `json:"tree,omitempty"`
	Prog [][2]int   `json:"prog,omitempty"`
	Type string     `json:"type,omitempty"`
	In   *IOPlan    `json:"in,omitempty"`
	Out  *IOPlan    `json:"out,omitempty"`
	File string     `json:"file,omitempty"`
	Put  bool       `json:"put,omitempty"`
	// Again performs the calls twice on the same objects.
	Again bool `json:"again,omitempty"`
	// Noise items only take part; their results are not judged.
	Noise bool `json:"noise,omitempty"`
}

type LangInst struct {
	K   string `json:"k"`
	Out int    `json:"out"`
	X   int    `json:"x"`
	Y   int    `json:"y,omitempty"`
	S   uint64 `json:"s,omitempty"`
}

type LangOut struct {
	IR     []LangInst `json:"ir,omitempty"`
	Err    string     `json:"err,omitempty"`
	Stage  string     `json:"stage,omitempty"`
	Panic  string     `json:"panic,omitempty"`
	Tree   string     `json:"tree,omitempty"`
	Chain  []string   `json:"chain,omitempty"`
	Ops    [][2]int   `json:"ops,omitempty"`
	Text   string     `json:"text,omitempty"`
	Tree2  string     `json:"tree2,omitempty"`
	Text2  string     `json:"text2,omitempty"`
	Chain2 []string   `json:"chain2,omitempty"`
	Ops2   [][2]int   `json:"ops2,omitempty"`
	Err2   string     `json:"err2,omitempty"`
	Stage2 string     `json:"stage2,omitempty"`
	Value  string     `json:"value,omitempty"`
	Hit    int        `json:"hit,omitempty"`
	Late   string     `json:"late,omitempty"`
	Part   string     `json:"part,omitempty"`
}

type LangSpec struct {
	Callers [][]LangItem `json:"callers"`
}

// langRun executes a lang scenario and calls judge for every item.
func langRun(w *worker, v *Verdict, sc *Scenario, index int, judge func(res *Result, caller, item int, it *LangItem, o *LangOut)) {
	var sp LangSpec
	if err := json.Unmarshal(sc.Lab, &sp); err != nil {
		v.Infra = err.Error()
		return
	}
	o := w.run(sc)
	v.absorb(o, sc, index)
	if v.Infra != "" {
		return
	}
	switch o.Class {
	case "deadlock", "steps", "crash", "memory":
		v.fail(o.Class, "library session: %s %s", crashLine(o.Stderr), crashSite(o.Stderr))
		v.Trace = o.Stderr
		return
	}
	var outs [][]LangOut
	if err := json.Unmarshal(o.Res.Data, &outs); err != nil || len(outs) != len(sp.Callers) {
		v.Infra = fmt.Sprintf("lang result: %v", err)
		return
	}
	for i := range outs {
		for j := range outs[i] {
			x := &outs[i][j]
			if strings.HasPrefix(x.Panic, "harness:") {
				v.Infra = x.Panic
				return
			}
			v.probe("stream_faults_hit", x.Hit)
			if sp.Callers[i][j].Noise {
				v.probe("unjudged_calls", 1)
				continue
			}
			judge(o.Res, i, j, &sp.Callers[i][j], x)
		}
	}
}

func langScenario(r *Rng, callers [][]LangItem) *Scenario {
	s := genSched(r)
	s.Budget = 1_000_000_000
	s.Mem = 3 << 30
	if r.P(1, 2) {
		s.Mean = pick(r, int64(0), 50, 200, 1000, 5000)
	}
	lab, _ := json.Marshal(LangSpec{callers})
	return &Scenario{Kind: "lang", Sched: s, Lab: lab}
}

// genPlan makes a stream plan for n bytes. hard adds a failure.
func genPlan(r *Rng, n int, hard bool) *IOPlan {
	p := &IOPlan{ErrAt: -1}
	if r.P(1, 2) {
		p.Chunks = chunks(r)
	}
	if r.P(1, 5) {
		p.Zero = r.In(2, 4)
	}
	if r.P(1, 3) {
		p.Yield = r.In(1, 3)
	}
	if r.P(1, 8) {
		p.Sleep = int64(r.N(1 << uint(r.In(1, 30))))
	}
	p.With = r.P(1, 2)
	if hard {
		p.ErrAt = pick(r, 0, n, r.N(n+1), r.N(n+1), r.N(n+1))
	}
	return p
}

func shrinkLang(sc *Scenario, put func(lab json.RawMessage)) {
	var sp LangSpec
	if json.Unmarshal(sc.Lab, &sp) != nil {
		return
	}
	emit := func(f func(s *LangSpec)) {
		s := clone(sp)
		f(&s)
		b, _ := json.Marshal(s)
		put(b)
	}
	if len(sp.Callers) > 1 {
		for i := range sp.Callers {
			emit(func(s *LangSpec) { s.Callers = append(s.Callers[:i:i], s.Callers[i+1:]...) })
		}
	}
	for i := range sp.Callers {
		n := len(sp.Callers[i])
		for size := (n + 1) / 2; size >= 1 && n > 1; size /= 2 {
			for at := 0; at < n; at += size {
				emit(func(s *LangSpec) {
					l := s.Callers[i]
					s.Callers[i] = append(l[:at:at], l[min(at+size, len(l)):]...)
				})
			}
		}
		if n > 2 {
			continue
		}
		for j, it := range sp.Callers[i] {
			if it.In != nil && (len(it.In.Chunks) > 0 || it.In.Zero+it.In.Yield > 0 || it.In.Sleep > 0) {
				emit(func(s *LangSpec) {
					p := s.Callers[i][j].In
					p.Chunks, p.Zero, p.Yield, p.Sleep = nil, 0, 0, 0
				})
			}
			if it.In != nil && it.In.ErrAt < 0 {
				emit(func(s *LangSpec) { s.Callers[i][j].In = nil })
			}
			if it.Out != nil && it.Out.ErrAt < 0 {
				emit(func(s *LangSpec) { s.Callers[i][j].Out = nil })
			}
			for _, t := range shrinkText(string(it.Src)) {
				emit(func(s *LangSpec) { s.Callers[i][j].Src = []byte(t) })
			}
			for k := range it.Tree {
				if len(it.Tree) > 1 {
					emit(func(s *LangSpec) {
						l := s.Callers[i][j].Tree
						l = append(l[:k:k], l[k+1:]...)
						l[len(l)-1].Name = "" // the result has no name
						s.Callers[i][j].Tree = l
					})
				}
				for _, e := range []*LangNode{it.Tree[k].E.X, it.Tree[k].E.Y} {
					if e != nil {
						emit(func(s *LangSpec) { s.Callers[i][j].Tree[k].E = e })
					}
				}
			}
			if m := len(it.Prog); m > 1 {
				emit(func(s *LangSpec) { s.Callers[i][j].Prog = s.Callers[i][j].Prog[:m/2] })
				emit(func(s *LangSpec) { s.Callers[i][j].Prog = s.Callers[i][j].Prog[:m-1] })
			}
		}
	}
}

// shrinkText proposes smaller texts.
func shrinkText(s string) []string {
	var out []string
	ls := strings.SplitAfter(s, "\n")
	if len(ls) > 2 {
		for i := range ls {
			out = append(out, strings.Join(ls[:i], "")+strings.Join(ls[i+1:], ""))
			if len(out) > 40 {
				break
			}
		}
	}
	n := len(s)
	for size := n / 2; size >= 1 && len(out) < 160; size /= 2 {
		for at := 0; at < n && len(out) < 160; at += size {
			out = append(out, s[:at]+s[min(at+size, n):])
		}
	}
	return out
}

type spec15 struct {
	What string `json:"what"`
	Key  string `json:"key,omitempty"`
}

// calcModel evaluates an expression, giving up beyond limit bits.
func calcModel(s string, limit int) (*big.Int, bool) {
	type op struct {
		c    byte
		prec int
	}
	var vals []*big.Int
	var ops []op
	apply := func() bool {
		o := ops[len(ops)-1]
		ops = ops[:len(ops)-1]
		if len(vals) < 2 {
			return false
		}
		x, y := vals[len(vals)-2], vals[len(vals)-1]
		vals = vals[:len(vals)-2]
		z := new(big.Int)
		switch o.c {
		case '+':
			z.Add(x, y)
		case '-':
			z.Sub(x, y)
		case '*':
			z.Mul(x, y)
		case '/':
			if y.Sign() == 0 {
				return false
			}
			z.Div(x, y)
		case '^':
			if y.Sign() > 0 && x.BitLen() > 1 && (!y.IsInt64() || y.Int64() > int64(limit) || y.Int64()*int64(x.BitLen()) > int64(2*limit)) {
				return false
			}
			z.Exp(x, y, nil)
		}
		if z.BitLen() > limit {
			return false
		}
		vals = append(vals, z)
		return true
	}
	want := true
	for i := 0; i < len(s); {
		if s[i] == ' ' {
			i++
			continue
		}
		if want {
			j := i
			if s[j] == '-' {
				j++
			}
			ok := isDig
			if strings.HasPrefix(s[j:], "0x") {
				j += 2
				ok = isHex
			} else if strings.HasPrefix(s[j:], "0b") {
				j += 2
			}
			for j < len(s) && ok(s[j]) {
				j++
			}
			x, good := new(big.Int).SetString(s[i:j], 0)
			if !good || x.BitLen() > limit {
				return nil, false
			}
			vals = append(vals, x)
			i, want = j, false
			continue
		}
		p := map[byte]int{'+': 1, '-': 1, '*': 2, '/': 2, '^': 3}[s[i]]
		if p == 0 {
			return nil, false
		}
		for len(ops) > 0 && (ops[len(ops)-1].prec > p || ops[len(ops)-1].prec == p && s[i] != '^') {
			if !apply() {
				return nil, false
			}
		}
		ops = append(ops, op{s[i], p})
		i++
		want = true
	}
	for len(ops) > 0 {
		if !apply() {
			return nil, false
		}
	}
	if len(vals) != 1 {
		return nil, false
	}
	return vals[0], true
}

var floatSettings = []string{"0", "1", "-1", "2.5", "NaN", "Inf", "-Inf", "+Inf", "1e308", "-1e308", "5e-324", "1e400", "0x1p-3", "x", "", "1_0", "-0"}
var intSettings = []string{"0", "1", "-1", "2", "3", "8", "-7", "100", "1000000", "2147483647", "-2147483648", "4294967296", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "0x10", "0b11", "010", "x", "", "1.5", "1e3"}

// searchSafe reports that a search of expr, if the expression is accepted, is
// small.
func searchSafe(expr string) bool {
	n, ok := calcModel(expr, 4096)
	if ok {
		return n.Sign() <= 0 || n.BitLen() <= 72
	}
	// Rejected by the model: run it as long as nothing in it can be large.
	return !strings.Contains(expr, "^") && len(expr) < 40
}

var oddExprs = []string{"0", "-1", "-0", "1", "2", "3", "1/0", "0/0", "1-1", "2-3", "2^0", "0^0", "2^-1", "", " ", "-", "+", "--1", "1 1", "1+", "+1", "*", "1//2", "5/2", "-5/2", "5/-2",
	"0x", "0b", "0b2", "0xg", "08", "017", "1_0", "1e3", "1.5", "(1)", "1%2", "a", "\x00", "\xff", "é", "1\n", "\t1", "0x10", "0b101", "-0x1", "1/3", "1-1+1", "2^3^0", "0-1", "1*0", "3-2-1", "2^64", "2^2^2^2", "1^99999999999999999999", "0^99999999999999999999", "-1^3", "-1^2", "-2^2",
	"2^99999999999999999999", "3^4294967296", "2^18446744073709551617", "7^9223372036854775807", "-3^99999999999", "2^2^2^2^2^2", "1000000^1000000"}

var oddScripts = []string{"", "\n", " ", "return", "return ", "1", "return 1", "return 1\n", "(1)", "[0]", "[1]", "return [0]", "return [1]", "return [5]", "return [0]+[0]", "return [0]+[1]", "return [1]+[0]", "return 1+1", "return 2*1", "return dbl 1", "return 1<<1", "return 1 << 0", "return 1 shl 3",
	"a = 1\nreturn a", "a = 1\nb = a\nreturn b", "a = 1\n", "a = 1", "a=1\na=1\nreturn a", "return a", "a = a\nreturn a", "a = 1+1\nb = a\nreturn b", "a = 1+1\nreturn 1", "a = 1 << 3\nreturn a + [2]", "a = 1+1\nreturn [1]", "x = 1+1\nz = x+1\nreturn z", "t0 = 1+1\nt1 = t0+1\nreturn t1",
	"return [18446744073709551615]", "return [18446744073709551616]", "return [9223372036854775808]+1", "return [9223372036854775807]<<2", "return 1 << 18446744073709551616", "return [0x]", "return 1+(", "return )", "return ((1)", "a = [3]\nb = a + 1\nreturn b", "a = [1]\nb = 1+1\nreturn a + b", "return = 1\nreturn return", "a = 1+1\nb = 1+1\nreturn a+b",
	"return [00]", "return [08]", "return 1 << 08", "dbl = 1+1\nreturn dbl", "add = 1\nreturn add add add", "shl = 1\nreturn shl shl 1", "\xef\xbb\xbfreturn 1", "a = 1 + 1 # c\nreturn a", "a\t=\t1\r\nreturn a\r\n", "\x00", "return 1\x00", "return 1 return 1", "return 1\nreturn 1"}

var otherCommands = [][]string{{}, {"help"}, {"help", "search"}, {"help", "bogus"}, {"help", "gen", "fmt"}, {"flags"}, {"flags", "search"}, {"flags", "bogus"}, {"commands"}, {"bogus"}, {"-h"}, {"--help"}, {"-x"}, {"--"}, {"search"}, {"search", "-h"}, {"search", "--", "3"}, {"search", "-bogus"}, {"search", "-p"}, {"search", "-p="}, {"search", "3", "4"}, {"search", "3", "-p", "0"},
	{"eval", "missing"}, {"eval", "/work"}, {"eval", ""}, {"eval", "-x"}, {"eval", "a", "b"}, {"fmt", "missing"}, {"fmt", "/work"}, {"fmt", "-b=x"}, {"fmt", "-b=false"}, {"fmt", "-h"}, {"gen", "missing"}, {"gen", "-type", "bogus"}, {"gen", "-type", ""}, {"gen", "-tmpl", "missing"}, {"gen", "-tmpl", "missing", "-type", "listing"}, {"gen", "-tmpl", "/work"}, {"gen", "-out", "/missing/x"}, {"gen", "-out", "/work"}, {"gen", "-type"}, {"gen", "-h"},
	{"version"}, {"version", "x"}, {"version", "-x"}, {"cite"}, {"cite", "x"}, {"cite", "-h"}}

var templates = []string{"", "x", "no actions } here {\n", "{{ .Script }}", "{{ range .Chain }}{{ . }} {{ end }}", "{{ range $i, $o := .Ops }}{{ inc $i }}:{{ $o.I }}+{{ $o.J }}\n{{ end }}", "{{ .Missing }}", "{{", "{{ end }}", "{{ format .Script | lines | len }}", "{{ index .Chain 100000 }}", "{{ template \"x\" }}", "{{ join (split \"a,b\" \",\") \"-\" }}", "{{ range .Program.Instructions }}{{ .Output }} {{ with add .Op }}{{ .X }}{{ end }}{{ end }}", "{{ printf \"%d\" .Chain }}", "{{ inc .Chain }}", "{{ (index .Program.Instructions 0).Op.X }}", "{{ format nil }}", "{{ add nil }}", "{{ define \"r\" }}{{ template \"r\" . }}{{ end }}{{ len .Chain }}", "{{ .Meta }}{{ .Program }}"}

func hardFaults(r *Rng, sc *Scenario, in, out string) {
	for n := pick(r, 1, 1, 1, 2, 3); n > 0; n-- {
		f := Fault{Nth: r.In(1, pick(r, 1, 2, 4, 12))}
		switch r.N(12) {
		case 0, 1, 2:
			f.Op, f.Target, f.Kind = "read", in, pick(r, "EIO", "EIO", "ENOMEM", "EACCES")
		case 3, 4, 5:
			f.Op, f.Target, f.Kind = "write", pick(r, "stdout", "stdout", out), pick(r, "EIO", "ENOSPC", "TORN", "EDQUOT")
			f.Arg = int64(r.N(20))
		case 6:
			f.Op, f.Target, f.Kind = "write", "stderr", pick(r, "EIO", "ENOSPC", "TORN")
		case 7, 8:
			f.Op, f.Kind, f.Nth = "open", pick(r, "EACCES", "EMFILE", "ENOENT", "EIO", "EROFS", "ENOMEM"), r.In(1, 3)
		case 9, 10:
			f.Op, f.Kind, f.Nth = "close", pick(r, "EIO", "ENOSPC", "EDQUOT", "EINTR", "LOST"), r.In(1, 3)
			f.Arg = int64(r.N(30))
			f.Target = pick(r, "", in, out)
		default:
			f.Op, f.Kind, f.Nth = "stat", "EIO", r.In(1, 2)
		}
		sc.Faults = append(sc.Faults, f)
	}
}

func (sc *Scenario) argOut() string {
	for i, a := range sc.Args {
		if a == "-out" && i+1 < len(sc.Args) {
			return "/work/" + sc.Args[i+1]
		}
	}
	return "stdout"
}

// scriptCLI is a run of eval, fmt, fmt -b or gen on a text.
func scriptCLI(r *Rng, text string) *Scenario {
	s := genSched(r)
	s.Budget, s.Mem = 300_000_000, 3<<30
	sc := &Scenario{Kind: "cli", Sched: s, Files: map[string][]byte{}}
	switch r.N(7) {
	case 0, 1:
		sc.Args = []string{"eval"}
	case 2:
		sc.Args = []string{"fmt"}
	case 3:
		sc.Args = []string{"fmt", "-b"}
	default:
		sc.Args = []string{"gen"}
		switch r.N(7) {
		case 0, 1, 2, 3:
			sc.Args = append(sc.Args, "-type", pick(r, "listing", "chain", "ops", "script"))
		case 4:
			sc.Args = append(sc.Args, "-tmpl", "t.tmpl")
			sc.Files["t.tmpl"] = []byte(templates[r.N(len(templates))])
		}
		if r.P(1, 3) {
			sc.Args = append(sc.Args, "-out", "out.txt")
			if r.P(1, 3) {
				sc.Files["out.txt"] = []byte("previous content of the file\n")
			}
		}
	}
	if r.P(1, 2) {
		sc.Args = append(sc.Args, "in.acc")
		sc.Files["in.acc"] = []byte(text)
	} else {
		sc.Stdin = []byte(text)
		sc.Chunks = chunks(r)
	}
	return sc
}

// faultPlan adds benign and hard faults to a run.
func faultPlan(r *Rng, sc *Scenario) {
	in := "stdin"
	if len(sc.Args) > 0 && sc.Args[len(sc.Args)-1] == "in.acc" {
		in = "/work/in.acc"
	}
	if r.P(1, 3) {
		sc.Faults = benign(r, in)
	}
	if r.P(1, 2) {
		hardFaults(r, sc, in, sc.argOut())
	}
}

func searchCLI(r *Rng, expr string) *Scenario {
	s := genSched(r)
	s.Mean = pick(r, int64(0), 1000, 5000, 50000)
	s.Budget, s.Mem = 1_500_000_000, 3<<30
	sc := &Scenario{Kind: "cli", Sched: s, Args: []string{"search"}}
	if r.P(1, 4) {
		sc.Args = append(sc.Args, "-v")
	}
	if r.P(1, 2) {
		sc.Args = append(sc.Args, "-p", intSettings[r.N(len(intSettings))])
	}
	if r.P(1, 3) {
		sc.Args = append(sc.Args, "-add", floatSettings[r.N(len(floatSettings))])
	}
	if r.P(1, 3) {
		sc.Args = append(sc.Args, "-double", floatSettings[r.N(len(floatSettings))])
	}
	if strings.HasPrefix(expr, "-") && !r.P(1, 4) {
		sc.Args = append(sc.Args, "--")
	}
	sc.Args = append(sc.Args, expr)
	return sc
}

// known15 are the inputs of recorded findings, run first.
var known15 = []string{"2^1000000-1"}

func gen15(r *Rng, i int, tier string) *Case {
	one := func(kind string, sc *Scenario) *Case {
		return &Case{Kind: kind, Runs: []*Scenario{sc}}
	}
	if i < len(known15) {
		sc := &Scenario{Kind: "cli", Sched: Sched{Seed: 1, RandSeed: 1, Budget: 60_000_000_000, Mem: 1 << 30, CPUs: 4}, Args: []string{"search", known15[i]}}
		return one("recorded finding", sc)
	}
	i -= len(known15)
	if i < len(otherCommands) {
		sc := &Scenario{Kind: "cli", Sched: genSched(r), Args: otherCommands[i]}
		sc.Sched.Budget, sc.Sched.Mem = 1_500_000_000, 3<<30
		sc.Stdin = []byte("a = 1 + 1\nreturn a << 2\n")
		if r.P(1, 2) {
			faultPlan(r, sc)
		}
		return one("other commands", sc)
	}
	i -= len(otherCommands)
	if i < 2*len(oddExprs) {
		return one("odd expressions", searchCLI(r, oddExprs[i/2]))
	}
	i -= 2 * len(oddExprs)
	if i < len(intSettings)+len(floatSettings)*2 {
		sc := searchCLI(r, pick(r, "1", "2", "3", "7", "23"))
		e := sc.Args[len(sc.Args)-1]
		switch {
		case i < len(intSettings):
			sc.Args = []string{"search", "-p", intSettings[i], e}
		case i < len(intSettings)+len(floatSettings):
			sc.Args = []string{"search", "-add", floatSettings[i-len(intSettings)], e}
		default:
			sc.Args = []string{"search", "-double", floatSettings[i-len(intSettings)-len(floatSettings)], e}
		}
		return one("odd settings", sc)
	}
	i -= len(intSettings) + 2*len(floatSettings)
	cmds := [][]string{{"eval"}, {"fmt"}, {"fmt", "-b"}, {"gen"}, {"gen", "-type", "chain"}, {"gen", "-type", "ops"}, {"gen", "-type", "script"}}
	if i < len(oddScripts)*len(cmds) {
		sc := scriptCLI(r, oddScripts[i/len(cmds)])
		if sc.Args[len(sc.Args)-1] == "in.acc" {
			sc.Args = append(append([]string{}, cmds[i%len(cmds)]...), "in.acc")
		} else {
			sc.Args = cmds[i%len(cmds)]
		}
		return one("odd scripts", sc)
	}
	i -= len(oddScripts) * len(cmds)
	if i < 2 {
		// The same texts and expressions through the library.
		var items []LangItem
		if i == 0 {
			for _, s := range oddScripts {
				for _, op := range []string{"load", "fmt", "build", "gen"} {
					items = append(items, LangItem{Op: op, Src: []byte(s), Type: "listing"})
				}
			}
		} else {
			for _, s := range oddExprs {
				items = append(items, LangItem{Op: "calc", Src: []byte(s)})
			}
		}
		return one("odd inputs, library", langScenario(r, [][]LangItem{items}))
	}
	switch k := r.N(10); {
	case k == 0: // searches
		expr := ""
		for n := 0; ; n++ {
			if r.P(1, 3) {
				expr, _ = genExpr(r, 40)
			} else {
				expr = genCalc(r, false)
			}
			if searchSafe(expr) || n > 50 && len(expr) < 4 {
				break
			}
		}
		sc := searchCLI(r, expr)
		if r.P(1, 2) {
			faultPlan(r, sc)
		}
		return one("search", sc)
	case k <= 6:
		text, kind := genScript(r)
		sc := scriptCLI(r, text)
		faultPlan(r, sc)
		return one("script, "+kind, sc)
	}
	nc := pick(r, 1, 1, 2, 3, 4)
	callers := make([][]LangItem, nc)
	for c := range callers {
		for n := r.In(1, 24/nc); n > 0; n-- {
			if r.P(1, 5) {
				callers[c] = append(callers[c], LangItem{Op: "calc", Src: []byte(genCalc(r, r.P(1, 4)))})
				continue
			}
			text, _ := genScript(r)
			if len(text) > 3000 && !r.P(1, 10) {
				text = text[:3000]
			}
			it := LangItem{Op: pick(r, "load", "fmt", "build", "gen"), Src: []byte(text)}
			if it.Op == "gen" {
				it.Type = pick(r, "listing", "chain", "ops", "script", templates[r.N(len(templates))])
			}
			if r.P(1, 3) {
				it.In = genPlan(r, len(text), r.P(1, 3))
			}
			if r.P(1, 4) {
				it.Out = genPlan(r, r.N(200), r.P(1, 2))
			}
			callers[c] = append(callers[c], it)
		}
	}
	return one("library", history(r, langScenario(r, callers)))
}

var benignKinds = map[string]bool{"EINTR": true, "SHORT": true, "STALL": true}

func isBenign(f *Fault) bool {
	return benignKinds[f.Kind] && f.Op != "close" && f.Op != "stat" && f.Op != "seek"
}

// cleanOf removes the hard faults of a run.
func cleanOf(sc *Scenario) *Scenario {
	x := clone(sc)
	x.Faults, x.Chunks = nil, nil
	return x
}

// faultEffect compares a run under faults with the run without any.
func (v *Verdict) faultEffect(sc *Scenario, r, clean *Result, outFile string) {
	hard, hit := false, false
	stderrHit := len(sc.Args) > 1 && sc.Args[1] == "-v" // progress lines depend on timing
	for i, n := range r.Fired {
		if n == 0 {
			continue
		}
		hit = true
		if !isBenign(&sc.Faults[i]) {
			hard = true
			if sc.Faults[i].Target == "stderr" || sc.Faults[i].Target == "" {
				stderrHit = true
			}
		}
	}
	name := fmt.Sprintf("%q", sc.Args)
	same := string(r.Stdout) == string(clean.Stdout) && (outFile == "" || string(r.Files[outFile]) == string(clean.Files[outFile]))
	if !hard {
		if r.Status != clean.Status || !same || !stderrHit && string(r.Stderr) != string(clean.Stderr) {
			v.fail("benign-fault", "%s: chunked, interrupted, short or stalled calls changed the result: status %d, want %d\nstdout %s\n--- versus\n%s\nstderr %s\n--- versus\n%s", name, r.Status, clean.Status, clip(string(r.Stdout)), clip(string(clean.Stdout)), clip(string(r.Stderr)), clip(string(clean.Stderr)))
		}
		if hit {
			v.probe("benign_fault_runs", 1)
		}
		return
	}
	v.probe("hard_fault_runs", 1)
	if r.Status == 0 {
		v.probe("hard_fault_runs_status_0", 1)
		if clean.Status != 0 {
			v.fail("fault-hides-error", "%s exits with status 0 under a failing system call and with %d without", name, clean.Status)
		} else if !same {
			v.fail("lost-output", "%s exits with status 0 although a system call failed and its output is incomplete:\n%s\n--- want\n%s", name, clip(string(r.Stdout)), clip(string(clean.Stdout)))
		}
		for i, n := range r.Fired {
			f := &sc.Faults[i]
			if n > 0 && f.Op == "close" && outFile != "" && f.Target == outFile && f.Kind != "EINTR" {
				v.fail("lost-output", "%s exits with status 0 although closing %s failed with %s", name, outFile, f.Kind)
			}
		}
	}
}

func (v *Verdict) conventional(sc *Scenario, r *Result) {
	if r.Status < 0 || r.Status > 2 {
		v.fail("status", "%q exits with status %d", sc.Args, r.Status)
	}
	for i, n := range r.Fired {
		if n > 0 && sc.Faults[i].Op == "write" && !isBenign(&sc.Faults[i]) {
			return
		}
	}
	if r.Status != 0 && len(r.Stderr)+len(r.Stdout) == 0 {
		v.fail("no-diagnostic", "%q exits with status %d and says nothing", sc.Args, r.Status)
	}
	if r.Status == 0 && len(sc.Args) > 0 {
		switch sc.Args[0] {
		case "search", "eval", "fmt", "gen", "version", "cite":
			out := r.Stdout
			if f := sc.argOut(); f != "stdout" {
				out = r.Files[f]
			}
			for i, a := range sc.Args {
				if a == "-h" {
					return
				}
				if a == "-tmpl" && i+1 < len(sc.Args) {
					t, ok := sc.Files[sc.Args[i+1]]
					if !ok {
						v.fail("no-diagnostic", "%q exits with status 0 although the template cannot be read", sc.Args)
					} else if !strings.Contains(string(t), "{{") && string(out) != string(t) {
						v.fail("no-result", "%q exits with status 0 and writes %s for a template without actions: %s", sc.Args, clip(string(out)), clip(string(t)))
					}
					return
				}
			}
			if len(out) == 0 {
				v.fail("no-result", "%q exits with status 0 without a result", sc.Args)
			}
		}
	}
}

func exec15(w *worker, c *Case) *Verdict {
	v := &Verdict{}
	sc := c.Runs[0]
	if sc.Kind == "lang" {
		langRun(w, v, sc, 0, func(_ *Result, i, j int, it *LangItem, o *LangOut) {
			if o.Panic != "" {
				v.fail("panic", "library %s of %q: panic: %s", it.Op, clip(string(it.Src)), o.Panic)
			}
			if o.Err != "" {
				v.probe("library_errors", 1)
			} else {
				v.probe("library_results", 1)
			}
		})
		v.Sample = map[string]interface{}{"case": c.Index, "kind": c.Kind}
		return v
	}
	v.Sample = map[string]interface{}{"case": c.Index, "args": sc.Args, "faults": sc.Faults, "input": clip(string(sc.Stdin) + string(sc.Files["in.acc"]))}
	o := w.run(sc)
	v.absorb(o, sc, 0)
	if v.Infra != "" {
		return v
	}
	if !v.ended(o, sc) {
		v.Key = strings.Join(sc.Args, " ")
		return v
	}
	if _, ok := exited(o); !ok {
		v.fail("crash", "%q ended with %s", sc.Args, o.Res.Outcome)
		return v
	}
	v.conventional(sc, o.Res)
	v.probe("status_"+strconv.Itoa(o.Res.Status), 1)
	if len(sc.Faults) == 0 && len(sc.Chunks) == 0 || len(sc.Args) == 0 {
		return v
	}
	switch sc.Args[0] {
	case "search", "eval", "fmt", "gen", "version", "cite":
	default:
		return v
	}
	for _, a := range sc.Args {
		if a == "-h" {
			return v
		}
	}
	cl := cleanOf(sc)
	co := w.run(cl)
	v.absorb(co, cl, -1)
	if v.Infra != "" || !v.ended(co, cl) {
		return v
	}
	v.conventional(cl, co.Res)
	outFile := sc.argOut()
	if outFile == "stdout" {
		outFile = ""
	}
	v.faultEffect(sc, o.Res, co.Res, outFile)
	return v
}

func shrinkRuns(c *Case) []*Case {
	var out []*Case
	put := func(f func(x *Case)) {
		x := clone(c)
		f(x)
		out = append(out, x)
	}
	for k, sc := range c.Runs {
		if sc.Kind == "lang" {
			shrinkLang(sc, func(lab json.RawMessage) {
				put(func(x *Case) {
					x.Runs[k].Lab = lab
				})
			})
		}
		for j := range sc.Faults {
			put(func(x *Case) {
				x.Runs[k].Faults = append(x.Runs[k].Faults[:j:j], x.Runs[k].Faults[j+1:]...)
			})
		}
		if len(sc.Chunks) > 0 {
			put(func(x *Case) { x.Runs[k].Chunks = nil })
		}
		if sc.Kind == "cli" {
			for _, t := range shrinkText(string(sc.Stdin)) {
				put(func(x *Case) { x.Runs[k].Stdin = []byte(t) })
			}
			for _, t := range shrinkText(string(sc.Files["in.acc"])) {
				put(func(x *Case) { x.Runs[k].Files["in.acc"] = []byte(t) })
			}
		}
	}
	return out
}

var langReal = []string{"acc, acc/ast, acc/ir, acc/parse, acc/parse/internal/parser, acc/pass, acc/printer, internal/gen, internal/calc, internal/print", "cmd/addchain and internal/cli where a case runs the command", "Go runtime (scheduling decision replaced), os, bufio, fmt, text/template"}
var langStub = []string{"kernel: file system, standard streams, clock, randomness, NumCPU, pid", "the io.Reader and io.Writer given to library calls"}

func init() {
	props["C15"] = &Prop{
		ID: "C15", Level: "exploration", SelfN: 200,
		Count: func(tier string) int {
			if tier == "thorough" {
				return 600000
			}
			return 9000
		},
		Gen: gen15, Exec: exec15, Scheds: runScheds, Shrink: shrinkRuns,
		Rule: "a case is one command line with an input text, a schedule and a fault plan (and its fault-free twin), or one session of concurrent library calls; distinct by digest of everything observed",
		Real: append([]string{"the whole addchain command, with alg/* for searches"}, langReal...),
		Stub: langStub,
		Assume: []string{"script texts up to 70 KB with shift amounts up to 3000 each; accepted search targets up to 72 bits apart from the recorded finding",
			"a run counts as hung beyond 300 million steps (1500 million for a search, 1000 million for a session of library calls)"},
	}
}

func langSample(c *Case) interface{} {
	m := map[string]interface{}{"case": c.Index, "kind": c.Kind, "faults": c.Runs[0].Faults}
	var sp LangSpec
	json.Unmarshal(c.Runs[0].Lab, &sp)
	m["callers"] = len(sp.Callers)
	if len(sp.Callers) > 0 && len(sp.Callers[0]) > 0 {
		it := sp.Callers[0][0]
		m["first"] = clip(fmt.Sprint(it.Op, " ", strconv.Quote(string(it.Src)), it.Prog))
		m["plan"] = it.In
	}
	return m
}
