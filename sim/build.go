package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"
)

// The simulator is built from the working tree of /repo with "go build
// -overlay": every non-test Go file of the repository gets a call to
// runtime.SimY before each statement, a few files of the Go runtime and
// standard library are patched so that scheduling, time, randomness and
// system calls are decided by the simulator, and the harness packages under
// inrepo/ are added to the module. Nothing is written to /repo or GOROOT.

var (
	repoDir  = envOr("VSIM_REPO", "/repo")
	verifDir = envOr("VSIM_VERIF", "/verif")
)

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func buildDir() string { return filepath.Join(verifDir, "build") }

func goEnv() []string {
	env := []string{}
	drop := map[string]bool{"GOFLAGS": true, "GOCACHE": true, "GOPROXY": true, "GOWORK": true, "GOTOOLCHAIN": true,
		"GOEXPERIMENT": true, "CGO_ENABLED": true, "GOMAXPROCS": true, "GODEBUG": true, "GOGC": true, "GOSUMDB": true, "GOTMPDIR": true}
	for _, e := range os.Environ() {
		if i := strings.IndexByte(e, '='); i > 0 && drop[e[:i]] {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off", "GOTOOLCHAIN=local",
		"GOTELEMETRY=off", "CGO_ENABLED=1", "GOEXPERIMENT=norandomizedheapbase64",
		"GOCACHE="+filepath.Join(buildDir(), "gocache"))
}

func goTool() string {
	if p, err := exec.LookPath("go"); err == nil {
		return p
	}
	return "/usr/local/bin/go"
}

type insertion struct {
	off  int
	text string
}

func applyInsertions(src []byte, ins []insertion) []byte {
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].off < ins[j].off })
	var out bytes.Buffer
	last := 0
	for _, in := range ins {
		out.Write(src[last:in.off])
		out.WriteString(in.text)
		last = in.off
	}
	out.Write(src[last:])
	return out.Bytes()
}

const yieldCall = "zzsimrt.SimY();"

// instrument inserts yield points. With coarse set, only function entries and
// loop heads get one.
func instrument(name string, src []byte, coarse bool, renameMain bool) ([]byte, int, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, 0, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	tf := fset.File(f.Pos())
	off = func(p token.Pos) int { return tf.Offset(p) }
	var ins []insertion
	n := 0
	yieldAt := func(p token.Pos) {
		ins = append(ins, insertion{off(p), yieldCall})
		n++
	}
	head := map[*ast.BlockStmt]bool{}
	skip := map[*ast.BlockStmt]bool{}
	list := func(l []ast.Stmt, skipFirst bool) {
		if coarse {
			return
		}
		for i, s := range l {
			if i == 0 && skipFirst {
				continue
			}
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			yieldAt(s.Pos())
		}
	}
	ast.Inspect(f, func(nd ast.Node) bool {
		switch x := nd.(type) {
		case *ast.FuncDecl:
			if x.Doc != nil {
				for _, c := range x.Doc.List {
					if strings.HasPrefix(c.Text, "//go:nosplit") || strings.HasPrefix(c.Text, "//go:norace") {
						return false
					}
				}
			}
			if x.Body != nil {
				head[x.Body] = true
			}
			if renameMain && x.Recv == nil && x.Name.Name == "main" {
				o := off(x.Name.Pos())
				ins = append(ins, insertion{o, "zzOrig_"})
			}
		case *ast.FuncLit:
			head[x.Body] = true
		case *ast.ForStmt:
			head[x.Body] = true
		case *ast.RangeStmt:
			head[x.Body] = true
		case *ast.SwitchStmt:
			skip[x.Body] = true
		case *ast.TypeSwitchStmt:
			skip[x.Body] = true
		case *ast.SelectStmt:
			skip[x.Body] = true
		case *ast.BlockStmt:
			if skip[x] {
				return true
			}
			if head[x] {
				yieldAt(x.Lbrace + 1)
				list(x.List, true)
			} else {
				list(x.List, false)
			}
		case *ast.CaseClause:
			list(x.Body, false)
		case *ast.CommClause:
			list(x.Body, false)
		}
		return true
	})
	if n > 0 {
		ins = append(ins, insertion{off(f.Name.End()), ";import zzsimrt \"runtime\""})
	}
	return applyInsertions(src, ins), n, nil
}

type patch struct {
	file     string // relative to GOROOT/src
	old, new string
}

var stdPatches = []patch{
	{"runtime/proc.go", "\tpp := mp.p.ptr()\n\tif sched.gcwaiting.Load() {\n\t\tgcstopm()\n\t\tgoto top\n\t}\n\tif pp.runSafePointFn != 0 {\n\t\trunSafePointFn()\n\t}\n\n\t// now and pollUntil",
		"\tpp := mp.p.ptr()\n\tif sched.gcwaiting.Load() {\n\t\tgcstopm()\n\t\tgoto top\n\t}\n\tif pp.runSafePointFn != 0 {\n\t\trunSafePointFn()\n\t}\n\tif simOn && !simInGC {\n\t\treturn simFind(pp), false, false\n\t}\n\n\t// now and pollUntil"},
	{"runtime/proc.go", "\tnewg.startpc = fn.fn\n", "\tnewg.startpc = fn.fn\n\tsimNewG(newg)\n"},
	{"runtime/proc.go", "func retake(now int64) uint32 {\n", "func retake(now int64) uint32 {\n\tif simOn {\n\t\treturn 0\n\t}\n"},
	{"runtime/proc.go", "const randomizeScheduler = raceenabled", "const randomizeScheduler = false"},
	{"runtime/runtime2.go", "\tgoid         uint64\n", "\tgoid         uint64\n\tsimid        uint64\n\tsimprio      int64\n"},
	{"runtime/rand.go", "func rand() uint64 {\n", "func rand() uint64 {\n\tif simRandActive() {\n\t\treturn simMix(&simRndState)\n\t}\n"},
	{"runtime/rand.go", "func cheaprand() uint32 {\n", "func cheaprand() uint32 {\n\tif simRandActive() {\n\t\treturn uint32(simMix(&simRndState))\n\t}\n"},
	{"runtime/rand.go", "func cheaprandu64() uint64 {\n", "func cheaprandu64() uint64 {\n\tif simRandActive() {\n\t\treturn simMix(&simRndState)\n\t}\n"},
	{"runtime/rand.go", "\tglobalRand.state.Init(*seed)\n", "\tfor i := range seed {\n\t\tseed[i] = byte(i)\n\t}\n\tglobalRand.state.Init(*seed)\n"},
	{"runtime/debug.go", "func GOMAXPROCS(n int) int {\n", "func GOMAXPROCS(n int) int {\n\tif simOn {\n\t\told := simNumCPU\n\t\tif n > 0 {\n\t\t\tsimNumCPU = n\n\t\t}\n\t\treturn old\n\t}\n"},
	{"runtime/debug.go", "func NumCPU() int {\n", "func NumCPU() int {\n\tif simOn && simCfg.CPUs > 0 {\n\t\treturn simCfg.CPUs\n\t}\n"},
	{"runtime/panic.go", "func dopanic_m(gp *g, pc, sp uintptr, bubble *synctestBubble) bool {\n", "func dopanic_m(gp *g, pc, sp uintptr, bubble *synctestBubble) bool {\n\tsimDump()\n"},
	{"runtime/mgc.go", "func clearpools() {\n", "func clearpools() {\n\tif simInGC {\n\t\treturn\n\t}\n"},
	{"runtime/time.go", "\tnext := ts.wakeTime()\n\tif next == 0 {\n\t\t// No timers to run or adjust.\n", "\tnext := ts.wakeTime()\n\tif simInGC {\n\t\tnext = 0\n\t}\n\tif next == 0 {\n\t\t// No timers to run or adjust.\n"},
	{"runtime/malloc.go", "func mallocgcLarge(size uintptr, typ *_type, needzero bool) (unsafe.Pointer, uintptr) {\n", "func mallocgcLarge(size uintptr, typ *_type, needzero bool) (unsafe.Pointer, uintptr) {\n\tsimAlloc(size)\n"},
	{"runtime/time_nofake.go", "\treturn nanotime1()\n", "\tif getg().m.p != 0 {\n\t\treturn simClock()\n\t}\n\treturn nanotime1()\n"},
	{"runtime/timeasm.go", "func time_now() (sec int64, nsec int32, mono int64)\n", "func time_now() (sec int64, nsec int32, mono int64) {\n\tt := simClock()\n\treturn simWall() + t/1000000000, int32(t % 1000000000), t\n}\n"},

	{"os/proc.go", "func Exit(code int) {\n", "func Exit(code int) {\n\tif f := syscall.SimExit; f != nil {\n\t\tf(code)\n\t}\n"},
	{"os/zero_copy_linux.go", "func (f *File) writeTo(w io.Writer) (written int64, handled bool, err error) {\n", "func (f *File) writeTo(w io.Writer) (written int64, handled bool, err error) {\n\tif syscall.SimOS != nil {\n\t\treturn 0, false, nil\n\t}\n"},
	{"os/zero_copy_linux.go", "func (f *File) readFrom(r io.Reader) (written int64, handled bool, err error) {\n", "func (f *File) readFrom(r io.Reader) (written int64, handled bool, err error) {\n\tif syscall.SimOS != nil {\n\t\treturn 0, false, nil\n\t}\n"},
	{"internal/syscall/unix/fcntl_unix.go", "func Fcntl(fd int, cmd int, arg int) (int, error) {\n", "func Fcntl(fd int, cmd int, arg int) (int, error) {\n\tif k := syscall.SimOS; k != nil {\n\t\tif n, err, ok := k.Fcntl(fd, cmd, arg); ok {\n\t\t\treturn n, err\n\t\t}\n\t}\n"},

	{"internal/syscall/unix/getrandom.go", "func GetRandom(p []byte, flags GetRandomFlag) (n int, err error) {\n", "func GetRandom(p []byte, flags GetRandomFlag) (n int, err error) {\n\tif k := syscall.SimOS; k != nil {\n\t\treturn k.Random(p), nil\n\t}\n"},
	{zsyscall, "func Getpid() (pid int) {\n", "func Getpid() (pid int) {\n\tif k := SimOS; k != nil {\n\t\treturn k.Pid()\n\t}\n"},

	sys2("func read(fd int, p []byte) (n int, err error) {", "Read(fd, p)"),
	sys2("func write(fd int, p []byte) (n int, err error) {", "Write(fd, p)"),
	sys2("func pread(fd int, p []byte, offset int64) (n int, err error) {", "Pread(fd, p, offset)"),
	sys2("func pwrite(fd int, p []byte, offset int64) (n int, err error) {", "Pwrite(fd, p, offset)"),
	sys2("func openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {", "Openat(dirfd, path, flags, mode)"),
	sys2("func fcntl(fd int, cmd int, arg int) (val int, err error) {", "Fcntl(fd, cmd, arg)"),
	sys2("func Seek(fd int, offset int64, whence int) (off int64, err error) {", "Seek(fd, offset, whence)"),
	sys1("func Close(fd int) (err error) {", "Close(fd)"),
	sys1("func Fstat(fd int, stat *Stat_t) (err error) {", "Fstat(fd, stat)"),
	sys1("func fstatat(fd int, path string, stat *Stat_t, flags int) (err error) {", "Fstatat(fd, path, stat)"),
	sys1("func Fsync(fd int) (err error) {", "Fsync(fd)"),
	sys1("func Fdatasync(fd int) (err error) {", "Fsync(fd)"),
	sys1("func Ftruncate(fd int, length int64) (err error) {", "Ftruncate(fd, length)"),
	sys1("func unlinkat(dirfd int, path string, flags int) (err error) {", "Unlinkat(dirfd, path, flags)"),
	sys1("func Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) (err error) {", "Renameat(olddirfd, oldpath, newdirfd, newpath)"),
	sys1("func Mkdirat(dirfd int, path string, mode uint32) (err error) {", "Mkdirat(dirfd, path, mode)"),
	sys1("func Fchmod(fd int, mode uint32) (err error) {", "Fchmod(fd, mode)"),
	sys1("func fchmodat(dirfd int, path string, mode uint32) (err error) {", "Fchmodat(dirfd, path, mode)"),
	sys1("func faccessat(dirfd int, path string, mode uint32) (err error) {", "Faccessat(dirfd, path, mode)"),
}

const zsyscall = "syscall/zsyscall_linux_amd64.go"

func sys2(sig, call string) patch {
	return patch{zsyscall, sig + "\n", sig + "\n\tif k := SimOS; k != nil {\n\t\tif r, e, ok := k." + call + "; ok {\n\t\t\treturn r, e\n\t\t}\n\t}\n"}
}

func sys1(sig, call string) patch {
	return patch{zsyscall, sig + "\n", sig + "\n\tif k := SimOS; k != nil {\n\t\tif e, ok := k." + call + "; ok {\n\t\t\treturn e\n\t\t}\n\t}\n"}
}

// stdCoarse lists standard-library packages whose loops and function entries
// count as steps, so that a long computation is seen by the step budget.
var stdCoarse = []string{"math/big"}

type builder struct {
	out     string
	replace map[string]string
	yields  int
	files   int
}

func (b *builder) put(target string, data []byte) error {
	p := filepath.Join(b.out, "ov", strings.ReplaceAll(strings.TrimPrefix(target, "/"), "/", "~"))
	if old, err := os.ReadFile(p); err != nil || !bytes.Equal(old, data) {
		if err := os.WriteFile(p, data, 0o644); err != nil {
			return err
		}
	}
	b.replace[target] = p
	return nil
}

func goroot() (string, error) {
	cmd := exec.Command(goTool(), "env", "GOROOT")
	cmd.Env = goEnv()
	cmd.Dir = verifDir
	out, err := cmd.Output()
	return strings.TrimSpace(string(out)), err
}

// prepare writes the overlay for the current /repo working tree.
func prepare() (*builder, error) {
	b := &builder{out: buildDir(), replace: map[string]string{}}
	os.RemoveAll(filepath.Join(b.out, "ov"))
	if err := os.MkdirAll(filepath.Join(b.out, "ov"), 0o755); err != nil {
		return nil, err
	}
	root, err := goroot()
	if err != nil {
		return nil, fmt.Errorf("go env GOROOT: %v", err)
	}
	// Repository sources.
	err = filepath.Walk(repoDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repoDir, p)
		if fi.IsDir() {
			base := filepath.Base(p)
			if rel != "." && (strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") || base == "testdata") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || !fi.Mode().IsRegular() {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		isMain := filepath.Dir(rel) == "cmd/addchain" || filepath.Dir(rel) == "internal/tools/release"
		out, n, err := instrument(p, src, false, isMain)
		if err != nil {
			return fmt.Errorf("instrument %s: %v", p, err)
		}
		b.yields += n
		b.files++
		return b.put(p, out)
	})
	if err != nil {
		return nil, err
	}
	// Standard library patches.
	texts := map[string]string{}
	for _, p := range stdPatches {
		path := filepath.Join(root, "src", p.file)
		t, ok := texts[path]
		if !ok {
			d, err := os.ReadFile(path)
			if err != nil {
				return nil, err
			}
			t = string(d)
		}
		if strings.Count(t, p.old) != 1 {
			return nil, fmt.Errorf("patch anchor found %d times in %s: %q", strings.Count(t, p.old), p.file, p.old)
		}
		texts[path] = strings.Replace(t, p.old, p.new, 1)
	}
	texts[filepath.Join(root, "src/runtime/time_linux_amd64.s")] = "// replaced by the simulator\n"
	for path, t := range texts {
		if err := b.put(path, []byte(t)); err != nil {
			return nil, err
		}
	}
	for _, pkg := range stdCoarse {
		ms, _ := filepath.Glob(filepath.Join(root, "src", pkg, "*.go"))
		for _, m := range ms {
			if strings.HasSuffix(m, "_test.go") || strings.Contains(m, "gen") {
				continue
			}
			src, err := os.ReadFile(m)
			if err != nil {
				return nil, err
			}
			if bytes.Contains(src, []byte("//go:build ignore")) {
				continue
			}
			out, _, err := instrument(m, src, true, false)
			if err != nil {
				return nil, err
			}
			if err := b.put(m, out); err != nil {
				return nil, err
			}
		}
	}
	// Added files.
	pdir := filepath.Join(verifDir, "sim", "patch")
	adds := map[string]string{
		"runtime_zz_sim.go.txt": filepath.Join(root, "src/runtime/zz_sim.go"),
		"syscall_zz_sim.go.txt": filepath.Join(root, "src/syscall/zz_sim.go"),
		"cmd_zz_sim.go.txt":     filepath.Join(repoDir, "cmd/addchain/zz_sim.go"),
	}
	for from, to := range adds {
		d, err := os.ReadFile(filepath.Join(pdir, from))
		if err != nil {
			return nil, err
		}
		if err := b.put(to, d); err != nil {
			return nil, err
		}
		if from == "cmd_zz_sim.go.txt" {
			if err := b.put(filepath.Join(repoDir, "internal/tools/release/zz_sim.go"), d); err != nil {
				return nil, err
			}
		}
	}
	hs, _ := filepath.Glob(filepath.Join(verifDir, "sim", "inrepo", "*", "*.go"))
	for _, h := range hs {
		rel, _ := filepath.Rel(filepath.Join(verifDir, "sim", "inrepo"), h)
		d, err := os.ReadFile(h)
		if err != nil {
			return nil, err
		}
		if err := b.put(filepath.Join(repoDir, "internal", rel), d); err != nil {
			return nil, err
		}
	}
	js, _ := json.MarshalIndent(map[string]interface{}{"Replace": b.replace}, "", " ")
	if err := os.WriteFile(filepath.Join(b.out, "overlay.json"), js, 0o644); err != nil {
		return nil, err
	}
	return b, nil
}

// buildSim builds the simulator binary and returns its path.
func buildSim(race bool) (string, error) {
	return buildTool("simbin", "./cmd/addchain", race)
}

// buildTool builds the simulator around one of the commands.
func buildTool(name, pkg string, race bool) (string, error) {
	bin := filepath.Join(buildDir(), name)
	args := []string{"build", "-overlay", filepath.Join(buildDir(), "overlay.json"), "-buildvcs=false",
		"-modfile", filepath.Join(buildDir(), "go.mod")}
	if race {
		bin += "-race"
		args = append(args, "-race")
	}
	for _, f := range []string{"go.mod", "go.sum"} {
		d, err := os.ReadFile(filepath.Join(repoDir, f))
		if err != nil {
			return "", err
		}
		if err := os.WriteFile(filepath.Join(buildDir(), f), d, 0o644); err != nil {
			return "", err
		}
	}
	// A release build, so that the version and cite commands exist.
	if vars, err := os.ReadFile(filepath.Join(repoDir, "meta/vars.go")); err == nil {
		if m := regexp.MustCompile(`releaseversion\s*=\s*"([0-9.]+)"`).FindSubmatch(vars); m != nil {
			args = append(args, "-ldflags", "-X github.com/mmcloughlin/addchain/meta.buildversion="+string(m[1]))
		}
	}
	args = append(args, "-o", bin, pkg)
	cmd := exec.Command(goTool(), args...)
	cmd.Dir = repoDir
	cmd.Env = goEnv()
	t0 := time.Now()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("go build: %v\n%s", err, out)
	}
	logf("built %s in %.1fs", filepath.Base(bin), time.Since(t0).Seconds())
	return bin, nil
}
