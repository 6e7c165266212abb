package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"
)

// proc is a simulator process.
type proc struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	errBuf *capBuf
}

type capBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (c *capBuf) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.b.Len() < 1<<18 {
		c.b.Write(p)
	}
	return len(p), nil
}

func (c *capBuf) String() string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.b.String()
}

func startProc(bin string) (*proc, error) {
	p := &proc{errBuf: &capBuf{}}
	p.cmd = exec.Command(bin)
	p.cmd.Dir = "/"
	p.cmd.Env = []string{"GOMAXPROCS=1", "GOGC=off", "GODEBUG=asyncpreemptoff=1", "GOTRACEBACK=single",
		"GORACE=halt_on_error=0 atexit_sleep_ms=0", "HOME=/nonexistent", "PATH=/usr/bin:/bin"}
	p.cmd.Stderr = p.errBuf
	var err error
	if p.in, err = p.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	o, err := p.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	p.out = bufio.NewReaderSize(o, 1<<16)
	return p, p.cmd.Start()
}

func (p *proc) kill() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

// worker runs scenarios one at a time. Lab scenarios share a process.
type worker struct {
	plain, race string
	lab         map[string]*proc
	watchdog    time.Duration
	procs       int
	hist        []Past // lab scenarios run by the current processes
}

// Past is a scenario run earlier in the same process.
type Past struct {
	Race bool      `json:"race"`
	Sc   *Scenario `json:"scenario"`
}

// chunk is the number of consecutive cases a worker runs before it starts
// fresh processes. What a lab process ran before a case is therefore a
// function of the case index alone.
const chunk = 50

func newWorker(plain, race string) *worker {
	return &worker{plain: plain, race: race, lab: map[string]*proc{}, watchdog: 150 * time.Second}
}

func (w *worker) close() {
	for _, p := range w.lab {
		p.kill()
	}
	w.lab = map[string]*proc{}
	w.hist = nil
}

// fresh makes the next lab scenario start in a new process.
func (w *worker) fresh() { w.close() }

func (w *worker) run(sc *Scenario) *Outcome { return w.runBin(w.plain, sc) }

func (w *worker) runRace(sc *Scenario) *Outcome { return w.runBin(w.race, sc) }

func (w *worker) runBin(bin string, sc *Scenario) *Outcome {
	t := time.Now()
	o := w.runIn(bin, sc)
	o.Millis = int(time.Since(t).Milliseconds())
	if m, err := strconv.Atoi(os.Getenv("VSIM_SLOW")); err == nil && o.Millis >= m {
		b, _ := json.Marshal(sc)
		fmt.Fprintf(os.Stderr, "%d ms: %.3000s\n", o.Millis, b)
	}
	return o
}

func (w *worker) runIn(bin string, sc *Scenario) *Outcome {
	line, err := json.Marshal(sc)
	if err != nil {
		panic(err)
	}
	line = append(line, '\n')
	isLab := sc.Kind != "cli"
	if sc.Tool == "release" {
		bin = filepath.Join(buildDir(), "simrel")
	}
	var p *proc
	if isLab {
		p = w.lab[bin]
		w.hist = append(w.hist, Past{bin == w.race, sc})
	}
	if p == nil {
		if p, err = startProc(bin); err != nil {
			return &Outcome{Class: "harness", Stderr: "start: " + err.Error()}
		}
		w.procs++
		if isLab {
			w.lab[bin] = p
		}
	}
	go p.in.Write(line)
	type rd struct {
		b   []byte
		err error
	}
	ch := make(chan rd, 1)
	go func() {
		b, err := p.out.ReadBytes('\n')
		ch <- rd{b, err}
	}()
	var r rd
	timer := time.NewTimer(w.watchdog)
	select {
	case r = <-ch:
		timer.Stop()
	case <-timer.C:
		p.kill()
		delete(w.lab, bin)
		return &Outcome{Class: "watchdog", Stderr: p.errBuf.String()}
	}
	if r.err == nil {
		var res Result
		if err := json.Unmarshal(r.b, &res); err != nil {
			p.kill()
			delete(w.lab, bin)
			return &Outcome{Class: "harness", Stderr: fmt.Sprintf("result: %v: %.200s", err, r.b)}
		}
		o := &Outcome{Class: "ok", Res: &res}
		if res.Outcome == "error" || res.Err != "" {
			o.Class, o.Stderr = "harness", res.Err
		}
		if !isLab {
			p.in.Close()
			p.cmd.Wait()
			o.Stderr = p.errBuf.String()
		} else if bin == w.race && len(res.Violations) > 0 {
			time.Sleep(50 * time.Millisecond)
			o.Stderr = p.errBuf.String()
		}
		if isLab && res.Leaked {
			p.kill()
			delete(w.lab, bin)
		}
		return o
	}
	// The process ended without a result.
	p.in.Close()
	p.cmd.Wait()
	delete(w.lab, bin)
	o := &Outcome{Class: "crash", Code: p.cmd.ProcessState.ExitCode(), Stderr: p.errBuf.String()}
	switch o.Code {
	case 90:
		o.Class = "deadlock"
	case 91:
		o.Class = "steps"
	case 92:
		o.Class = "memory"
	case 99:
		o.Class = "harness"
	case -1:
		o.Class = "killed"
	}
	return o
}

// firstLine gives a short description of a crash from the runtime's trace.
func crashLine(stderr string) string {
	for _, l := range strings.Split(stderr, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "SIMSTOP:") || strings.HasPrefix(l, "runtime:") || strings.HasPrefix(l, "WARNING: DATA RACE") {
			return l
		}
	}
	if len(stderr) > 160 {
		stderr = stderr[:160]
	}
	return strings.TrimSpace(stderr)
}

// crashSite returns the innermost frames in the repository.
func crashSite(stderr string) string {
	var fs []string
	for _, l := range strings.Split(stderr, "\n") {
		if strings.HasPrefix(l, "\t/repo/") || strings.HasPrefix(l, "\t"+repoDir+"/") {
			f := strings.Fields(strings.TrimSpace(l))[0]
			fs = append(fs, strings.TrimPrefix(f, repoDir+"/"))
			if len(fs) == 3 {
				break
			}
		}
	}
	return strings.Join(fs, " < ")
}
