package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/format"
	"go/token"
	"regexp"
	"strconv"
	"strings"
)

// The wire types mirror inrepo/zzsim/meta.go.

type MetaProp struct {
	Name  string `json:"name"`
	Doc   string `json:"doc,omitempty"`
	Value []byte `json:"value,omitempty"`
}

type MetaStep struct {
	Op    string     `json:"op"`
	Slot  int        `json:"slot,omitempty"`
	Pkg   string     `json:"pkg,omitempty"`
	Props []MetaProp `json:"props,omitempty"`
	Path  string     `json:"path,omitempty"`
	In    *IOPlan    `json:"in,omitempty"`
	Out   *IOPlan    `json:"out,omitempty"`
}

type MetaFile struct {
	Pkg   string     `json:"pkg"`
	Props []MetaProp `json:"props,omitempty"`
}

type MetaOut struct {
	Err   string    `json:"err,omitempty"`
	Panic string    `json:"panic,omitempty"`
	OK    bool      `json:"ok,omitempty"`
	Value []byte    `json:"value,omitempty"`
	State *MetaFile `json:"state,omitempty"`
	Text  []byte    `json:"text,omitempty"`
	Gofmt string    `json:"gofmt,omitempty"`
	Read  *MetaFile `json:"read,omitempty"`
	RErr  string    `json:"rerr,omitempty"`
	Hit   int       `json:"hit,omitempty"`
}

type MetaSpec struct {
	Slots   int          `json:"slots"`
	Callers [][]MetaStep `json:"callers"`
}

func (m *MetaFile) find(name string) int {
	for i := range m.Props {
		if m.Props[i].Name == name {
			return i
		}
	}
	return -1
}

func sameMeta(a, b *MetaFile) string {
	if a == nil || b == nil {
		return "nothing"
	}
	if a.Pkg != b.Pkg {
		return fmt.Sprintf("package %q, want %q", a.Pkg, b.Pkg)
	}
	if len(a.Props) != len(b.Props) {
		return fmt.Sprintf("%d properties, want %d", len(a.Props), len(b.Props))
	}
	for i := range a.Props {
		x, y := a.Props[i], b.Props[i]
		if x.Name != y.Name || x.Doc != y.Doc || string(x.Value) != string(y.Value) {
			return fmt.Sprintf("property %d is {%q %q %q}, want {%q %q %q}", i, x.Name, x.Doc, x.Value, y.Name, y.Doc, y.Value)
		}
	}
	return ""
}

var metaNames = []string{"a", "A", "releaseversion", "releasedate", "doi", "x1", "_", "__", "_a", "é", "变量", "Ñandú", "string", "nil", "true", "init", "main", "iota", "Doc", "Var", "vars", "package1", "αβ", "a1b2", "VeryLongPropertyNameThatGoesOnAndOnToForceAlignment", "len", "error", "σ", "value", "buildversion", "zenodoid", "typ"}

// longName returns a long name; names share long prefixes.
func longName(r *Rng) string {
	b := bytes.Repeat([]byte("abcd"), r.In(4, pick(r, 8, 20, 64, 300)))
	b = append(b, "qrstuvwxyz"[r.N(10)])
	return string(b) + strconv.Itoa(r.N(3))
}

func metaName(r *Rng) string {
	if r.P(1, 30) {
		return longName(r)
	}
	if r.P(2, 3) {
		return metaNames[r.N(len(metaNames))]
	}
	const first = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
	for {
		b := []byte{first[r.N(len(first))]}
		for k := r.N(9); k > 0; k-- {
			b = append(b, (first + "0123456789")[r.N(len(first)+10)])
		}
		if !token.IsKeyword(string(b)) {
			return string(b)
		}
	}
}

var valueParts = []string{"\"", "\\", "\n", "\r", "\r\n", "\t", "\x00", "\xff", "\xc3", "\xed\xa0\x80", "\xef\xbb\xbf", "\u2028", "\u00a0", "é", "日本", "😀", "`", "'", "//", "/*", "*/", "%", "%d", "%s%!", "\\n", "\\\"", "\\x41", "\\u1234", "$", " ", "  ", "\v", "\f", "\a", "\b", "\x1b[0m", "\x7f", "\u200b", "\ufffd", "\U0010ffff", "\"\n)\nvar (\n", "= \"x\"", "0.4.0", "10.5281/zenodo.5622943", "word", "a", ")", "(", "package p", "{{", "&amp;", "\\\\"}

func metaValue(r *Rng) []byte {
	switch r.N(8) {
	case 0:
		return nil
	case 1:
		return []byte(fmt.Sprintf("%d.%d.%d", r.N(20), r.N(20), r.N(20)))
	case 2: // arbitrary bytes
		b := make([]byte, r.N(40))
		for i := range b {
			b[i] = byte(r.U64())
		}
		return b
	case 3: // one repeated part
		return []byte(strings.Repeat(valueParts[r.N(len(valueParts))], r.In(1, pick(r, 3, 10, 200, 5000, 30000))))
	case 4: // arbitrary runes
		var b []rune
		for k := r.N(20); k > 0; k-- {
			b = append(b, rune(r.N(pick(r, 0x80, 0x300, 0x3000, 0x110000))))
		}
		return []byte(string(b))
	}
	var b strings.Builder
	for k := r.In(1, 8); k > 0; k-- {
		b.WriteString(valueParts[r.N(len(valueParts))])
	}
	return []byte(b.String())
}

var docWords = []string{"the", "version", "of", "this", "release", "is", "a", "date", "in", "ISO", "format", "Zenodo", "DOI", "for", "concept", "build", "number", "see", "also", "don't", "naïve", "日本語", "v2", "100", "e.g.", "it's", "(optional)", "semi-colon;", "state-of-the-art", "Deprecated:", "var", "package", "x=1", "\"quoted\"", "50%", "%d", "and/or", "A", "I", "note:", "go", "type", "TODO"}

func metaDoc(r *Rng) string {
	if r.P(1, 2) {
		return ""
	}
	first := []string{"Release", "The", "Version", "Doc", "a", "Value", "is", "var", "Package", "éclair"}
	w := []string{first[r.N(len(first))]}
	n := pick(r, 3, 8, 20)
	if r.P(1, 40) {
		n = pick(r, 60, 300, 1500)
	}
	for k := r.N(n); k > 0; k-- {
		w = append(w, docWords[r.N(len(docWords))])
	}
	s := strings.Join(w, " ")
	if r.P(1, 2) {
		s += pick(r, ".", "!", "?", ",")
	}
	return s
}

func metaProps(r *Rng, n int) []MetaProp {
	var l []MetaProp
	if r.P(1, 60) {
		n *= pick(r, 5, 20, 60)
	}
	seen := map[string]bool{}
	for k := r.N(n + 1); k > 0; k-- {
		name := metaName(r)
		if seen[name] {
			continue
		}
		seen[name] = true
		l = append(l, MetaProp{name, metaDoc(r), metaValue(r)})
	}
	return l
}

func metaPkg(r *Rng) string {
	return pick(r, "meta", "p", "main", "testing", "x_y", "π", "A", "variables1", "string", "_a")
}

type spec20 struct {
	Init    *MetaFile `json:"init,omitempty"`
	Version string    `json:"version,omitempty"`
	Date    []byte    `json:"date,omitempty"`
}

var goodVersion = regexp.MustCompile(`\A[0-9]+\.[0-9]+\.[0-9]+\z`)

func metaText(r *Rng, m *MetaFile) string {
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nvar (\n", m.Pkg)
	for _, p := range m.Props {
		if p.Doc != "" {
			fmt.Fprintf(&b, "\t// %s\n", p.Doc)
		}
		fmt.Fprintf(&b, "\t%s = %s\n", p.Name, strconv.Quote(string(p.Value)))
	}
	b.WriteString(")\n")
	if src, err := format.Source([]byte(b.String())); err == nil && r.P(3, 4) {
		return string(src)
	}
	return b.String()
}

func gen20(r *Rng, i int, tier string) *Case {
	if r.P(1, 5) {
		// The release tool.
		m := &MetaFile{Pkg: metaPkg(r), Props: metaProps(r, 5)}
		have := func(n string) {
			if m.find(n) < 0 && !r.P(1, 8) {
				at := r.N(len(m.Props) + 1)
				m.Props = append(m.Props[:at:at], append([]MetaProp{{n, metaDoc(r), metaValue(r)}}, m.Props[at:]...)...)
			}
		}
		have("releaseversion")
		have("releasedate")
		sp := spec20{Init: m, Version: fmt.Sprintf("%d.%d.%d", r.N(30), r.N(30), r.N(3000))}
		if r.P(1, 8) {
			sp.Version = pick(r, "v1.2.3", "1.2", "1.2.3.4", "1.2.3-rc1", "", "1..2", "a.b.c", "1.2.3 ", " 1.2.3", "1.2.3\n")
		}
		sp.Date = metaValue(r)
		if r.P(1, 2) {
			sp.Date = []byte(fmt.Sprintf("20%02d-%02d-%02d", r.N(99), r.In(1, 12), r.In(1, 31)))
		}
		s := genSched(r)
		s.Budget, s.Mem = 400_000_000, 2<<30
		sc := &Scenario{Kind: "cli", Tool: "release", Sched: s, Args: []string{"bump", "-vars", "vars.go", "-date=" + strings.ReplaceAll(string(sp.Date), "\x00", ""), "--", sp.Version},
			Files: map[string][]byte{"vars.go": []byte(metaText(r, m))}}
		sp.Date = []byte(strings.ReplaceAll(string(sp.Date), "\x00", ""))
		// The wire is JSON: keep the argument valid UTF-8.
		sp.Date = []byte(strings.ToValidUTF8(string(sp.Date), "?"))
		sc.Args[3] = "-date=" + string(sp.Date)
		metaFaults(r, sc, []string{"/work/vars.go"})
		c := &Case{Kind: "release tool", Runs: []*Scenario{sc}}
		c.Spec, _ = json.Marshal(sp)
		return c
	}
	nc := pick(r, 1, 1, 2, 3)
	sp := MetaSpec{Slots: pick(r, 1, 2, 3)}
	var paths []string
	for c := 0; c < nc; c++ {
		mine := []string{fmt.Sprintf("c%d.go", c), fmt.Sprintf("/tmp/c%d.go", c)}
		paths = append(paths, "/work/"+mine[0], mine[1])
		var names []string
		var l []MetaStep
		name := func() string {
			if len(names) > 0 && !r.P(1, 3) {
				return names[r.N(len(names))]
			}
			return metaName(r)
		}
		l = append(l, MetaStep{Op: "new", Slot: r.N(sp.Slots), Pkg: metaPkg(r), Props: metaProps(r, 6)})
		for _, p := range l[0].Props {
			names = append(names, p.Name)
		}
		for k := r.In(2, pick(r, 6, 14, 30)); k > 0; k-- {
			st := MetaStep{Slot: r.N(sp.Slots)}
			switch r.N(14) {
			case 0:
				st.Op, st.Pkg, st.Props = "new", metaPkg(r), metaProps(r, 6)
				for _, p := range st.Props {
					names = append(names, p.Name)
				}
			case 1, 2, 3:
				st.Op, st.Props = "add", []MetaProp{{name(), metaDoc(r), metaValue(r)}}
				names = append(names, st.Props[0].Name)
			case 4, 5, 6:
				st.Op, st.Props = "set", []MetaProp{{Name: name(), Value: metaValue(r)}}
			case 7:
				st.Op, st.Props = "get", []MetaProp{{Name: name()}}
			case 8, 9:
				st.Op = "write"
				if r.P(1, 3) {
					st.Out = genPlan(r, r.N(300), r.P(1, 2))
				}
			case 10:
				st.Op = "read"
				if r.P(2, 3) {
					st.In = genPlan(r, r.N(300), r.P(1, 3))
				}
			case 11, 12:
				st.Op, st.Path = "writefile", mine[r.N(2)]
			default:
				st.Op, st.Path = "readfile", mine[r.N(2)]
			}
			l = append(l, st)
		}
		sp.Callers = append(sp.Callers, l)
	}
	s := genSched(r)
	s.Budget, s.Mem = 400_000_000, 2<<30
	lab, _ := json.Marshal(sp)
	sc := &Scenario{Kind: "meta", Sched: s, Lab: lab}
	metaFaults(r, sc, paths)
	return &Case{Kind: "histories", Runs: []*Scenario{sc}}
}

func metaFaults(r *Rng, sc *Scenario, paths []string) {
	if r.P(1, 3) {
		return
	}
	for n := r.In(1, 4); n > 0; n-- {
		f := Fault{Target: paths[r.N(len(paths))], Nth: r.In(1, pick(r, 1, 2, 4, 8))}
		switch r.N(12) {
		case 0, 1:
			f.Op, f.Kind = pick(r, "read", "write"), "EINTR"
		case 2, 3:
			f.Op, f.Kind, f.Arg = pick(r, "read", "write"), "SHORT", int64(r.In(1, 60))
		case 4:
			f.Op, f.Kind, f.Arg = pick(r, "read", "write"), "STALL", int64(r.N(1<<30))
		case 5:
			f.Op, f.Kind = "read", pick(r, "EIO", "ENOMEM")
		case 6, 7:
			f.Op, f.Kind, f.Arg = "write", pick(r, "EIO", "ENOSPC", "EDQUOT", "TORN"), int64(r.N(100))
		case 8, 9:
			f.Op, f.Kind = "open", pick(r, "EACCES", "EMFILE", "EIO", "EINTR", "EROFS")
		case 10:
			f.Op, f.Kind, f.Arg = "close", pick(r, "LOST", "LOST", "EIO", "ENOSPC"), int64(r.N(100))
		default:
			f.Op, f.Kind = "stat", "EIO"
		}
		sc.Faults = append(sc.Faults, f)
	}
}

func hardFired(sc *Scenario, res *Result) bool {
	for i, n := range res.Fired {
		if n > 0 && !isBenign(&sc.Faults[i]) {
			return true
		}
	}
	return false
}

func exec20(w *worker, c *Case) *Verdict {
	if c.Kind == "release tool" {
		return execBump(w, c)
	}
	v := &Verdict{}
	sc := c.Runs[0]
	var sp MetaSpec
	json.Unmarshal(sc.Lab, &sp)
	o := w.run(sc)
	v.absorb(o, sc, 0)
	if v.Infra != "" {
		return v
	}
	if o.Class != "ok" {
		v.fail(o.Class, "history: %s %s", crashLine(o.Stderr), crashSite(o.Stderr))
		v.Trace = o.Stderr
		return v
	}
	var outs [][]MetaOut
	if err := json.Unmarshal(o.Res.Data, &outs); err != nil {
		v.Infra = err.Error()
		return v
	}
	hard := hardFired(sc, o.Res)
	v.Sample = map[string]interface{}{"case": c.Index, "callers": len(sp.Callers), "steps": len(sp.Callers[0]), "faults": sc.Faults}
	for ci, steps := range sp.Callers {
		slots := make([]*MetaFile, sp.Slots)
		for i := range slots {
			slots[i] = &MetaFile{Pkg: "p"}
		}
		files := map[string]*MetaFile{} // nil entry: unknown
		var last *MetaFile
		for k, st := range steps {
			m := slots[st.Slot]
			x := outs[ci][k]
			at := func() string {
				d := ""
				if len(st.Props) > 0 && st.Op != "new" {
					d = fmt.Sprintf(" %q %q", st.Props[0].Name, st.Props[0].Value)
				}
				return fmt.Sprintf("caller %d step %d %s%s %s on %d properties", ci, k, st.Op, d, st.Path, len(m.Props))
			}
			if strings.HasPrefix(x.Panic, "harness:") {
				v.Infra = x.Panic
				return v
			}
			if x.Panic != "" {
				v.fail("panic", "%s: panic: %s", at(), x.Panic)
				return v
			}
			wrote := false
			excused := hard || x.Hit > 0
			switch st.Op {
			case "new":
				slots[st.Slot] = &MetaFile{Pkg: st.Pkg, Props: append([]MetaProp(nil), st.Props...)}
			case "add":
				if m.find(st.Props[0].Name) >= 0 {
					v.probe("add_existing", 1)
					if x.Err == "" {
						v.fail("add", "%s: adding an existing property is not an error", at())
					}
				} else {
					if x.Err != "" {
						v.fail("add", "%s: %s", at(), x.Err)
					}
					m.Props = append(m.Props, st.Props[0])
				}
			case "set":
				if i := m.find(st.Props[0].Name); i < 0 {
					v.probe("set_unknown", 1)
					if x.Err == "" {
						v.fail("set", "%s: setting an unknown property is not an error", at())
					}
				} else {
					if x.Err != "" {
						v.fail("set", "%s: %s", at(), x.Err)
					}
					m.Props[i].Value = st.Props[0].Value
				}
			case "get":
				i := m.find(st.Props[0].Name)
				if x.OK != (i >= 0) || i >= 0 && string(x.Value) != string(m.Props[i].Value) {
					v.fail("get", "%s: got %q %v", at(), x.Value, x.OK)
				}
			case "write":
				if x.Err != "" {
					if !excused {
						v.fail("write-fails", "%s: %s", at(), x.Err)
					}
					break
				}
				if x.Hit > 0 {
					v.fail("write-lost", "%s: the writer failed, Write reports success", at())
				}
				wrote = true
				last = clone(m)
			case "writefile":
				if x.Err != "" {
					files[st.Path] = nil
					v.probe("writefile_failed", 1)
					if !excused {
						v.fail("write-fails", "%s: %s", at(), x.Err)
					}
					break
				}
				wrote = true
				files[st.Path] = clone(m)
				v.probe("writefile_acknowledged", 1)
			case "read":
				if x.Err != "" {
					if last != nil && !excused {
						v.fail("read-fails", "%s: %s", at(), x.Err)
					}
					break
				}
				if last == nil {
					v.fail("read-nothing", "%s: reading an empty text succeeds", at())
					break
				}
				if x.Hit > 0 {
					v.fail("read-lost", "%s: the reader failed, Read reports success", at())
				}
				if d := sameMeta(x.Read, last); d != "" {
					v.fail("round-trip", "%s: read back %s", at(), d)
				}
				slots[st.Slot] = clone(last)
			case "readfile":
				f, known := files[st.Path]
				if x.Err != "" {
					if f != nil && !excused {
						v.fail("read-fails", "%s: %s", at(), x.Err)
					}
					break
				}
				if !known {
					v.fail("read-nothing", "%s: reading a missing file succeeds", at())
					break
				}
				if f == nil { // left by a failed write
					slots[st.Slot] = x.Read
					break
				}
				v.probe("acknowledged_read_back", 1)
				if d := sameMeta(x.Read, f); d != "" {
					v.fail("round-trip", "%s: read back %s", at(), d)
				}
				slots[st.Slot] = clone(f)
			}
			if wrote {
				v.probe("texts_checked", 1)
				if x.RErr != "" {
					v.fail("round-trip", "%s: the text does not read back: %s\n%s", at(), x.RErr, clip(string(x.Text)))
				} else if d := sameMeta(x.Read, m); d != "" {
					v.fail("round-trip", "%s: read back %s\n%s", at(), d, clip(string(x.Text)))
				}
				if x.Gofmt != "" {
					v.fail("gofmt", "%s: the text is not in gofmt form: %s\n--- text\n%s", at(), clip(x.Gofmt), clip(string(x.Text)))
				}
			}
			if v.Class != "" {
				return v
			}
			if d := sameMeta(x.State, slots[st.Slot]); d != "" {
				v.fail("state", "%s: the file then has %s", at(), d)
				return v
			}
			v.probe("steps_checked", 1)
		}
	}
	return v
}

// execBump judges a run of the release tool.
func execBump(w *worker, c *Case) *Verdict {
	v := &Verdict{}
	sc := c.Runs[0]
	var sp spec20
	json.Unmarshal(c.Spec, &sp)
	o := w.run(sc)
	v.absorb(o, sc, 0)
	v.Sample = map[string]interface{}{"case": c.Index, "args": sc.Args, "faults": sc.Faults, "vars": clip(string(sc.Files["vars.go"]))}
	if v.Infra != "" || !v.ended(o, sc) {
		return v
	}
	st, _ := exited(o)
	hard := hardFired(sc, o.Res)
	text := o.Res.Files["/work/vars.go"]
	before := string(sc.Files["vars.go"])
	vi, di := sp.Init.find("releaseversion"), sp.Init.find("releasedate")
	ok := goodVersion.MatchString(sp.Version) && vi >= 0 && di >= 0
	if st != 0 {
		v.probe("bump_refused", 1)
		if ok && !hard {
			v.fail("bump-fails", "%q exits with status %d: %s", sc.Args, st, clip(string(o.Res.Stderr)))
		}
		if !ok && !hard && (vi < 0 || !goodVersion.MatchString(sp.Version)) && string(text) != before {
			v.fail("bump-changes", "%q fails and changes the file to\n%s", sc.Args, clip(string(text)))
		}
		return v
	}
	v.probe("bump_done", 1)
	if !ok {
		v.fail("bump-accepts", "%q succeeds on\n%s", sc.Args, clip(before))
		return v
	}
	want := clone(sp.Init)
	want.Props[vi].Value = []byte(sp.Version)
	want.Props[di].Value = sp.Date
	src, err := format.Source(text)
	if err != nil || string(src) != string(text) {
		v.fail("gofmt", "%q: the file is not in gofmt form (%v):\n%s", sc.Args, err, clip(string(text)))
		return v
	}
	lab, _ := json.Marshal(MetaSpec{1, [][]MetaStep{{{Op: "readfile", Path: "vars.go"}}}})
	ro := w.run(&Scenario{Kind: "meta", Lab: lab, Files: map[string][]byte{"vars.go": text}})
	if ro.Class != "ok" {
		v.Infra = "readfile: " + ro.Class
		return v
	}
	var outs [][]MetaOut
	json.Unmarshal(ro.Res.Data, &outs)
	if x := outs[0][0]; x.Err != "" {
		v.fail("round-trip", "%q: the file does not read back: %s\n%s", sc.Args, x.Err, clip(string(text)))
	} else if d := sameMeta(x.Read, want); d != "" {
		v.fail("round-trip", "%q: the file has %s\n%s", sc.Args, d, clip(string(text)))
	}
	return v
}

func shrink20(c *Case) []*Case {
	var out []*Case
	put := func(f func(x *Case)) {
		x := clone(c)
		f(x)
		out = append(out, x)
	}
	sc := c.Runs[0]
	for j := range sc.Faults {
		put(func(x *Case) {
			x.Runs[0].Faults = append(x.Runs[0].Faults[:j:j], x.Runs[0].Faults[j+1:]...)
		})
	}
	if sc.Kind != "meta" {
		return out
	}
	var sp MetaSpec
	json.Unmarshal(sc.Lab, &sp)
	edit := func(f func(s *MetaSpec)) {
		s := clone(sp)
		f(&s)
		b, _ := json.Marshal(s)
		put(func(x *Case) { x.Runs[0].Lab = b })
	}
	for i := range sp.Callers {
		if len(sp.Callers) > 1 {
			edit(func(s *MetaSpec) { s.Callers = append(s.Callers[:i:i], s.Callers[i+1:]...) })
		}
		for j := range sp.Callers[i] {
			edit(func(s *MetaSpec) { s.Callers[i] = append(s.Callers[i][:j:j], s.Callers[i][j+1:]...) })
		}
		for j, st := range sp.Callers[i] {
			for k := range st.Props {
				if st.Op == "new" {
					edit(func(s *MetaSpec) {
						p := s.Callers[i][j].Props
						s.Callers[i][j].Props = append(p[:k:k], p[k+1:]...)
					})
				}
				if st.Props[k].Doc != "" {
					edit(func(s *MetaSpec) { s.Callers[i][j].Props[k].Doc = "" })
				}
				if n := len(st.Props[k].Value); n > 0 {
					edit(func(s *MetaSpec) { s.Callers[i][j].Props[k].Value = st.Props[k].Value[:n/2] })
					edit(func(s *MetaSpec) { s.Callers[i][j].Props[k].Value = st.Props[k].Value[(n+1)/2:] })
				}
			}
			if st.In != nil || st.Out != nil {
				edit(func(s *MetaSpec) { s.Callers[i][j].In, s.Callers[i][j].Out = nil, nil })
			}
		}
	}
	return out
}

func init() {
	props["C20"] = &Prop{
		ID: "C20", Level: "exploration", SelfN: 200, NeedRel: true,
		Count: func(tier string) int {
			if tier == "thorough" {
				return 1500000
			}
			return 25000
		},
		Gen: gen20, Exec: exec20, Scheds: runScheds, Shrink: shrink20,
		Rule: "a case is a set of concurrent histories of new/add/set/get/write/read/writefile/readfile steps on metadata files with stream and disk faults, checked step by step against an ordered-map model, or a run of the release tool's bump command under disk faults; distinct by digest of everything observed",
		Real: []string{"internal/metavars, internal/errutil, internal/print", "go/parser, go/format, strconv, os", "internal/tools/release bump command (release tool cases)"},
		Stub: []string{"kernel: file system with injected faults, clock", "the io.Reader and io.Writer given to Read and Write"},
		Assume: []string{"gofmt form is what go/format of the toolchain that builds the check produces", "documentation text is prose without gofmt comment syntax (lists, headings, directives)",
			"the content of a file after a failed WriteFile is unspecified"},
	}
}
