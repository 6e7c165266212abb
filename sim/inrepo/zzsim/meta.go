//go:build go1.21

package zzsim

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/format"
	"io"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"

	"github.com/mmcloughlin/addchain/internal/metavars"
)

func init() { labs["meta"] = labMeta }

// MetaProp is a property; text travels as bytes so that invalid UTF-8 does.
type MetaProp struct {
	Name  string `json:"name"`
	Doc   string `json:"doc,omitempty"`
	Value []byte `json:"value,omitempty"`
}

// MetaStep is one step of a history.
type MetaStep struct {
	Op    string     `json:"op"` // new add set get write read writefile readfile
	Slot  int        `json:"slot,omitempty"`
	Pkg   string     `json:"pkg,omitempty"`
	Props []MetaProp `json:"props,omitempty"`
	Path  string     `json:"path,omitempty"`
	In    *IOPlan    `json:"in,omitempty"`
	Out   *IOPlan    `json:"out,omitempty"`
}

// MetaFile is a file description.
type MetaFile struct {
	Pkg   string     `json:"pkg"`
	Props []MetaProp `json:"props,omitempty"`
}

// MetaOut is the outcome of a step.
type MetaOut struct {
	Err   string    `json:"err,omitempty"`
	Panic string    `json:"panic,omitempty"`
	OK    bool      `json:"ok,omitempty"`
	Value []byte    `json:"value,omitempty"`
	State *MetaFile `json:"state,omitempty"` // the slot after the step
	Text  []byte    `json:"text,omitempty"`
	Gofmt string    `json:"gofmt,omitempty"` // why Text is not canonical
	Read  *MetaFile `json:"read,omitempty"`  // Text read back
	RErr  string    `json:"rerr,omitempty"`
	Hit   int       `json:"hit,omitempty"`
}

type MetaSpec struct {
	Slots   int          `json:"slots"`
	Callers [][]MetaStep `json:"callers"`
}

func metaFile(f *metavars.File) *MetaFile {
	if f == nil {
		return nil
	}
	m := &MetaFile{Pkg: f.Package}
	for _, p := range f.Properties {
		m.Props = append(m.Props, MetaProp{p.Name, p.Doc, []byte(p.Value)})
	}
	return m
}

func (m *MetaStep) run(slots []*metavars.File, last *[]byte, o *MetaOut) {
	f := slots[m.Slot]
	defer func() {
		if v := recover(); v != nil {
			o.Panic = fmt.Sprint(v)
			for _, l := range strings.Split(string(debug.Stack()), "\n") {
				if strings.HasPrefix(l, "\t/repo/") && !strings.Contains(l, "/zzsim/") {
					o.Panic += " @ " + strings.Fields(l)[0]
					break
				}
			}
		}
		o.State = metaFile(slots[m.Slot])
	}()
	fail := func(err error) bool {
		if err != nil {
			o.Err = err.Error()
			if o.Err == "" {
				o.Err = "?"
			}
		}
		return err != nil
	}
	lo := &LangOut{}
	defer func() { o.Hit = lo.Hit }()
	var p metavars.Property
	if len(m.Props) > 0 {
		p = metavars.Property{Name: m.Props[0].Name, Doc: m.Props[0].Doc, Value: string(m.Props[0].Value)}
	}
	switch m.Op {
	case "new":
		n := &metavars.File{Package: m.Pkg}
		for _, q := range m.Props {
			n.Properties = append(n.Properties, metavars.Property{Name: q.Name, Doc: q.Doc, Value: string(q.Value)})
		}
		slots[m.Slot] = n
	case "add":
		fail(f.Add(p))
	case "set":
		fail(f.Set(p.Name, p.Value))
	case "get":
		v, ok := f.Get(p.Name)
		o.Value, o.OK = []byte(v), ok
	case "write":
		pl := m.Out
		if pl == nil {
			pl = &IOPlan{ErrAt: -1}
		}
		w := &simWriter{p: pl, out: lo}
		err := metavars.Write(w, f)
		o.Text = w.buf.Bytes()
		if fail(err) {
			return
		}
		*last = o.Text
		canonical(o)
		g, err := metavars.Read(bytes.NewReader(o.Text))
		if err != nil {
			o.RErr = err.Error()
		}
		o.Read = metaFile(g)
	case "read":
		var r io.Reader = bytes.NewReader(*last)
		if m.In != nil {
			r = &simReader{p: m.In, data: *last, out: lo}
		}
		g, err := metavars.Read(r)
		if !fail(err) {
			slots[m.Slot] = g
		}
		o.Read = metaFile(g)
	case "writefile":
		if fail(metavars.WriteFile(m.Path, f)) {
			return
		}
		// What the disk holds.
		o.Text, _ = metaKernel.GetFile(m.Path)
		canonical(o)
		g, err := metavars.Read(bytes.NewReader(o.Text))
		if err != nil {
			o.RErr = err.Error()
		}
		o.Read = metaFile(g)
	case "readfile":
		g, err := metavars.ReadFile(m.Path)
		if !fail(err) {
			slots[m.Slot] = g
		}
		o.Read = metaFile(g)
	default:
		panic("harness: bad op")
	}
}

func canonical(o *MetaOut) {
	src, err := format.Source(o.Text)
	if err != nil {
		o.Gofmt = err.Error()
	} else if !bytes.Equal(src, o.Text) {
		o.Gofmt = "gofmt rewrites it to:\n" + string(src)
	}
}

var metaKernel *Kernel

func labMeta(sc *Scenario, r *Result) {
	var sp MetaSpec
	if err := json.Unmarshal(sc.Lab, &sp); err != nil {
		r.Err = err.Error()
		return
	}
	outs := make([][]MetaOut, len(sp.Callers))
	for i := range sp.Callers {
		outs[i] = make([]MetaOut, len(sp.Callers[i]))
	}
	k := newKernelFor(sc)
	cfg := simConfig(&sc.Sched)
	syscall.SimOS = k
	metaKernel = k
	runtime.SimStart(cfg)
	run := func(i int) {
		slots := make([]*metavars.File, sp.Slots)
		for j := range slots {
			slots[j] = &metavars.File{Package: "p"}
		}
		var last []byte
		for j := range sp.Callers[i] {
			sp.Callers[i][j].run(slots, &last, &outs[i][j])
		}
	}
	done := make(chan int, len(sp.Callers))
	for i := range sp.Callers {
		i := i
		go func() {
			run(i)
			done <- i
		}()
	}
	for range sp.Callers {
		<-done
	}
	if !drain() {
		r.Leaked = true
	}
	st := runtime.SimStop()
	syscall.SimOS = nil
	r.fill(st)
	r.fillOS(k, sc.Events)
	r.Data, _ = json.Marshal(outs)
}
