//go:build go1.21

// Package zzsim is the in-process half of the simulator: the virtual kernel
// and the harnesses. It is added to the module by a build overlay.
package zzsim

import (
	"path"
	"runtime"
	"syscall"
	"time"
)

// Fault is one planned fault: the Nth system call matching Op and Target.
type Fault struct {
	Op     string `json:"op"`               // read write open close stat seek fsync rename unlink trunc
	Target string `json:"target,omitempty"` // stdin stdout stderr, a path, or "" for any
	Nth    int    `json:"nth"`              // 1-based
	Kind   string `json:"kind"`             // EINTR EIO ENOSPC EACCES ENOENT EMFILE SHORT TORN STALL
	Arg    int64  `json:"arg,omitempty"`    // bytes (SHORT, TORN) or nanoseconds (STALL)
	seen   int
	fired  int
}

type inode struct {
	path string
	data []byte
	dir  bool
	mode uint32
	live bool
	mod  int64 // last modification, virtual nanoseconds
}

type openFile struct {
	used  bool
	name  string // stdin, stdout, stderr or path
	nd    *inode
	off   int64
	flags int
	stdio bool
}

// Event is one system call of the run.
type Event struct {
	Step uint64
	Op   string
	Name string
	N    int64
	Err  int
}

const (
	fdBase  = 100
	maxFDs  = 64
	maxOut  = 8 << 20
	maxLog  = 4096
	atFDCWD = -100
)

// Kernel is the virtual kernel of one simulated process.
type Kernel struct {
	stdin   []byte
	chunks  []int // sizes of successive reads from stdin; 0 or missing: as asked
	chunkI  int
	stdinAt int
	out     []byte
	outN    int
	err     []byte
	errN    int
	nodes   []*inode
	fds     [maxFDs]openFile
	std     [3]openFile
	faults  []Fault
	log     []Event
	nlog    int
	cwd     string
	hash    uint64
	calls   uint64
	idle    int // successive calls that failed or delivered nothing
	pid     int
}

func NewKernel() *Kernel {
	k := &Kernel{cwd: "/work"}
	k.out = make([]byte, maxOut)
	k.err = make([]byte, maxOut)
	k.log = make([]Event, maxLog)
	k.std[0] = openFile{used: true, name: "stdin", stdio: true}
	k.std[1] = openFile{used: true, name: "stdout", stdio: true}
	k.std[2] = openFile{used: true, name: "stderr", stdio: true}
	for _, d := range []string{"/", "/work", "/tmp"} {
		k.nodes = append(k.nodes, &inode{path: d, dir: true, mode: 0o755, live: true})
	}
	return k
}

// PutFile creates a file.
func (k *Kernel) PutFile(p string, data []byte) {
	p = k.abs(p)
	if nd := k.lookup(p); nd != nil {
		nd.data = append([]byte(nil), data...)
		nd.mod = runtime.SimNow()
		return
	}
	for d := path.Dir(p); k.lookup(d) == nil; d = path.Dir(d) {
		k.nodes = append(k.nodes, &inode{path: d, dir: true, mode: 0o755, live: true})
	}
	k.nodes = append(k.nodes, &inode{path: p, data: append([]byte(nil), data...), mode: 0o644, live: true})
}

// GetFile returns the content of a file.
func (k *Kernel) GetFile(p string) ([]byte, bool) {
	if nd := k.lookup(k.abs(p)); nd != nil && !nd.dir {
		return nd.data, true
	}
	return nil, false
}

//go:norace
func (k *Kernel) abs(p string) string {
	if len(p) == 0 || p[0] != '/' {
		p = k.cwd + "/" + p
	}
	return path.Clean(p)
}

//go:norace
func (k *Kernel) lookup(p string) *inode {
	for i := len(k.nodes) - 1; i >= 0; i-- {
		if k.nodes[i].live && k.nodes[i].path == p {
			return k.nodes[i]
		}
	}
	return nil
}

//go:norace
func (k *Kernel) file(fd int) *openFile {
	if fd >= 0 && fd < 3 {
		return &k.std[fd]
	}
	if fd >= fdBase && fd < fdBase+maxFDs {
		return &k.fds[fd-fdBase]
	}
	return nil
}

// maxIdle bounds the successive system calls that make no progress.
const maxIdle = 1 << 17

//go:norace
func (k *Kernel) note(op, name string, n int64, e syscall.Errno) {
	h := k.hash
	for i := 0; i < len(op); i++ {
		h = (h ^ uint64(op[i])) * 1099511628211
	}
	for i := 0; i < len(name); i++ {
		h = (h ^ uint64(name[i])) * 1099511628211
	}
	h = (h ^ uint64(n)) * 1099511628211
	h = (h ^ uint64(e)) * 1099511628211
	k.hash = (h ^ runtime.SimStep()) * 1099511628211
	k.calls++
	if e != 0 || (n == 0 && op == "read") {
		if k.idle++; k.idle > maxIdle {
			runtime.SimHang("system calls without progress are repeated for ever")
		}
	} else {
		k.idle = 0
	}
	if k.nlog < len(k.log) {
		k.log[k.nlog] = Event{runtime.SimStep(), op, name, n, int(e)}
		k.nlog++
	}
}

var errnos = []struct {
	s string
	e syscall.Errno
}{{"EINTR", syscall.EINTR}, {"EIO", syscall.EIO}, {"ENOSPC", syscall.ENOSPC}, {"EACCES", syscall.EACCES},
	{"ENOENT", syscall.ENOENT}, {"EMFILE", syscall.EMFILE}, {"ENOMEM", syscall.ENOMEM}, {"EDQUOT", syscall.EDQUOT}, {"EROFS", syscall.EROFS}}

// fault returns the fault to inject into this call, if any.
//
//go:norace
func (k *Kernel) fault(op, name string) *Fault {
	for i := range k.faults {
		f := &k.faults[i]
		if f.Op != op || (f.Target != "" && f.Target != name) {
			continue
		}
		f.seen++
		if f.seen == f.Nth {
			f.fired++
			if f.Kind == "STALL" {
				time.Sleep(time.Duration(f.Arg))
				continue
			}
			return f
		}
	}
	return nil
}

//go:norace
func errOf(kind string) syscall.Errno {
	for i := range errnos {
		if errnos[i].s == kind {
			return errnos[i].e
		}
	}
	return syscall.EIO
}

//go:norace
func mkerr(e syscall.Errno) error {
	if e == 0 {
		return nil
	}
	return e
}

//go:norace
func (k *Kernel) Read(fd int, p []byte) (int, error, bool) {
	f := k.file(fd)
	if f == nil {
		return 0, nil, false
	}
	runtime.SimY()
	if !f.used {
		return 0, syscall.EBADF, true
	}
	if f.flags&syscall.O_ACCMODE == syscall.O_WRONLY {
		return -1, syscall.EBADF, true
	}
	limit := len(p)
	if flt := k.fault("read", f.name); flt != nil {
		if flt.Kind == "SHORT" {
			if int(flt.Arg) < limit && flt.Arg > 0 {
				limit = int(flt.Arg)
			}
		} else {
			e := errOf(flt.Kind)
			k.note("read", f.name, -1, e)
			return -1, e, true
		}
	}
	n := 0
	if f.stdio {
		if fd != 0 {
			return -1, syscall.EBADF, true
		}
		if k.chunkI < len(k.chunks) {
			if c := k.chunks[k.chunkI]; c > 0 && c < limit {
				limit = c
			}
			k.chunkI++
		}
		n = copy(p[:limit], k.stdin[k.stdinAt:])
		k.stdinAt += n
	} else {
		if f.nd.dir {
			return -1, syscall.EISDIR, true
		}
		if f.off < int64(len(f.nd.data)) {
			n = copy(p[:limit], f.nd.data[f.off:])
			f.off += int64(n)
		}
	}
	k.note("read", f.name, int64(n), 0)
	return n, nil, true
}

//go:norace
func (k *Kernel) Write(fd int, p []byte) (int, error, bool) {
	f := k.file(fd)
	if f == nil {
		return 0, nil, false
	}
	runtime.SimY()
	if !f.used {
		return -1, syscall.EBADF, true
	}
	if !f.stdio && f.flags&syscall.O_ACCMODE == syscall.O_RDONLY {
		return -1, syscall.EBADF, true
	}
	want := len(p)
	var after syscall.Errno
	if flt := k.fault("write", f.name); flt != nil {
		switch flt.Kind {
		case "SHORT":
			if int(flt.Arg) < want && flt.Arg > 0 {
				want = int(flt.Arg)
			}
		case "TORN": // some bytes reach the device, then the call fails
			after = syscall.EIO
			if int(flt.Arg) < want {
				want = int(flt.Arg)
			}
		default:
			e := errOf(flt.Kind)
			k.note("write", f.name, -1, e)
			return -1, e, true
		}
	}
	p = p[:want]
	switch {
	case fd == 1:
		k.outN += copy(k.out[k.outN:], p)
	case fd == 2:
		k.errN += copy(k.err[k.errN:], p)
	case f.stdio:
		return -1, syscall.EBADF, true
	default:
		if f.flags&syscall.O_APPEND != 0 {
			f.off = int64(len(f.nd.data))
		}
		k.store(f.nd, f.off, p)
		f.off += int64(len(p))
	}
	k.note("write", f.name, int64(want), after)
	if after != 0 {
		return -1, after, true
	}
	return want, nil, true
}

//go:norace
func (k *Kernel) store(nd *inode, off int64, p []byte) {
	for int64(len(nd.data)) < off {
		nd.data = append(nd.data, 0)
	}
	n := copy(nd.data[off:], p)
	nd.data = append(nd.data, p[n:]...)
	nd.mod = runtime.SimNow()
}

//go:norace
func (k *Kernel) Pread(fd int, p []byte, off int64) (int, error, bool) {
	f := k.file(fd)
	if f == nil {
		return 0, nil, false
	}
	runtime.SimY()
	if !f.used || f.stdio {
		return -1, syscall.ESPIPE, true
	}
	if flt := k.fault("read", f.name); flt != nil && flt.Kind != "SHORT" {
		return -1, errOf(flt.Kind), true
	}
	n := 0
	if off < int64(len(f.nd.data)) {
		n = copy(p, f.nd.data[off:])
	}
	k.note("pread", f.name, int64(n), 0)
	return n, nil, true
}

//go:norace
func (k *Kernel) Pwrite(fd int, p []byte, off int64) (int, error, bool) {
	f := k.file(fd)
	if f == nil {
		return 0, nil, false
	}
	runtime.SimY()
	if !f.used || f.stdio {
		return -1, syscall.ESPIPE, true
	}
	if flt := k.fault("write", f.name); flt != nil && flt.Kind != "SHORT" {
		return -1, errOf(flt.Kind), true
	}
	k.store(f.nd, off, p)
	k.note("pwrite", f.name, int64(len(p)), 0)
	return len(p), nil, true
}

//go:norace
func (k *Kernel) Openat(dirfd int, p string, flags int, mode uint32) (int, error, bool) {
	runtime.SimY()
	p = k.abs(p)
	if flt := k.fault("open", p); flt != nil {
		e := errOf(flt.Kind)
		k.note("open", p, -1, e)
		return -1, e, true
	}
	nd := k.lookup(p)
	e := syscall.Errno(0)
	switch {
	case nd == nil && flags&syscall.O_CREAT == 0:
		e = syscall.ENOENT
	case nd != nil && flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0:
		e = syscall.EEXIST
	case nd != nil && nd.dir && flags&syscall.O_ACCMODE != syscall.O_RDONLY:
		e = syscall.EISDIR
	case nd != nil && !nd.dir && flags&syscall.O_DIRECTORY != 0:
		e = syscall.ENOTDIR
	}
	if e == 0 && nd == nil {
		if par := k.lookup(path.Dir(p)); par == nil || !par.dir {
			e = syscall.ENOENT
		}
	}
	if e != 0 {
		k.note("open", p, -1, e)
		return -1, e, true
	}
	if nd == nil {
		nd = &inode{path: p, mode: mode & 0o777, live: true}
		k.nodes = append(k.nodes, nd)
	}
	if flags&syscall.O_TRUNC != 0 && !nd.dir {
		nd.data = nil
		nd.mod = runtime.SimNow()
	}
	for i := range k.fds {
		if !k.fds[i].used {
			k.fds[i] = openFile{used: true, name: p, nd: nd, flags: flags}
			k.note("open", p, int64(i), 0)
			return fdBase + i, nil, true
		}
	}
	k.note("open", p, -1, syscall.EMFILE)
	return -1, syscall.EMFILE, true
}

//go:norace
func (k *Kernel) Close(fd int) (error, bool) {
	f := k.file(fd)
	if f == nil {
		return nil, false
	}
	runtime.SimY()
	if !f.used {
		return syscall.EBADF, true
	}
	flt := k.fault("close", f.name)
	f.used = false
	if flt != nil {
		e := errOf(flt.Kind)
		if flt.Kind == "LOST" {
			// Written data did not reach the device.
			e = syscall.EIO
			if f.nd != nil && int(flt.Arg) < len(f.nd.data) && f.flags&syscall.O_ACCMODE != syscall.O_RDONLY {
				f.nd.data = f.nd.data[:flt.Arg]
			}
		}
		k.note("close", f.name, 0, e)
		return e, true
	}
	k.note("close", f.name, 0, 0)
	return nil, true
}

//go:norace
func (k *Kernel) Fcntl(fd, cmd, arg int) (int, error, bool) {
	f := k.file(fd)
	if f == nil {
		return 0, nil, false
	}
	if cmd == syscall.F_GETFL {
		return f.flags, nil, true
	}
	return 0, nil, true
}

//go:norace
func (k *Kernel) Seek(fd int, off int64, whence int) (int64, error, bool) {
	f := k.file(fd)
	if f == nil {
		return 0, nil, false
	}
	if f.stdio {
		return -1, syscall.ESPIPE, true
	}
	if flt := k.fault("seek", f.name); flt != nil {
		return -1, errOf(flt.Kind), true
	}
	switch whence {
	case 0:
		f.off = off
	case 1:
		f.off += off
	case 2:
		f.off = int64(len(f.nd.data)) + off
	}
	return f.off, nil, true
}

//go:norace
func fillStat(st *syscall.Stat_t, nd *inode) {
	*st = syscall.Stat_t{}
	st.Nlink = 1
	st.Blksize = 4096
	if nd == nil {
		st.Mode = syscall.S_IFIFO | 0o600
		return
	}
	st.Size = int64(len(nd.data))
	st.Mtim = syscall.NsecToTimespec(1_600_000_000_000_000_000 + nd.mod)
	if nd.dir {
		st.Mode = syscall.S_IFDIR | nd.mode
	} else {
		st.Mode = syscall.S_IFREG | nd.mode
	}
}

//go:norace
func (k *Kernel) Fstat(fd int, st *syscall.Stat_t) (error, bool) {
	f := k.file(fd)
	if f == nil {
		return nil, false
	}
	if !f.used {
		return syscall.EBADF, true
	}
	if flt := k.fault("stat", f.name); flt != nil {
		e := errOf(flt.Kind)
		k.note("fstat", f.name, 0, e)
		return e, true
	}
	fillStat(st, f.nd)
	return nil, true
}

//go:norace
func (k *Kernel) Fstatat(dirfd int, p string, st *syscall.Stat_t) (error, bool) {
	p = k.abs(p)
	if flt := k.fault("stat", p); flt != nil {
		return errOf(flt.Kind), true
	}
	nd := k.lookup(p)
	if nd == nil {
		return syscall.ENOENT, true
	}
	fillStat(st, nd)
	return nil, true
}

//go:norace
func (k *Kernel) Fsync(fd int) (error, bool) {
	f := k.file(fd)
	if f == nil {
		return nil, false
	}
	if flt := k.fault("fsync", f.name); flt != nil {
		return errOf(flt.Kind), true
	}
	if f.stdio {
		return syscall.EINVAL, true
	}
	return nil, true
}

//go:norace
func (k *Kernel) Ftruncate(fd int, n int64) (error, bool) {
	f := k.file(fd)
	if f == nil {
		return nil, false
	}
	if f.stdio {
		return syscall.EINVAL, true
	}
	if flt := k.fault("trunc", f.name); flt != nil {
		return errOf(flt.Kind), true
	}
	for int64(len(f.nd.data)) < n {
		f.nd.data = append(f.nd.data, 0)
	}
	f.nd.data = f.nd.data[:n]
	return nil, true
}

//go:norace
func (k *Kernel) Unlinkat(dirfd int, p string, flags int) (error, bool) {
	p = k.abs(p)
	if flt := k.fault("unlink", p); flt != nil {
		return errOf(flt.Kind), true
	}
	nd := k.lookup(p)
	if nd == nil {
		return syscall.ENOENT, true
	}
	nd.live = false
	k.note("unlink", p, 0, 0)
	return nil, true
}

//go:norace
func (k *Kernel) Renameat(od int, o string, nd int, n string) (error, bool) {
	o, n = k.abs(o), k.abs(n)
	if flt := k.fault("rename", n); flt != nil {
		return errOf(flt.Kind), true
	}
	src := k.lookup(o)
	if src == nil {
		return syscall.ENOENT, true
	}
	if dst := k.lookup(n); dst != nil && dst != src {
		dst.live = false
	}
	src.path = n
	k.note("rename", n, 0, 0)
	return nil, true
}

//go:norace
func (k *Kernel) Mkdirat(dirfd int, p string, mode uint32) (error, bool) {
	p = k.abs(p)
	if k.lookup(p) != nil {
		return syscall.EEXIST, true
	}
	k.nodes = append(k.nodes, &inode{path: p, dir: true, mode: mode & 0o777, live: true})
	return nil, true
}

//go:norace
func (k *Kernel) Fchmod(fd int, mode uint32) (error, bool) {
	f := k.file(fd)
	if f == nil {
		return nil, false
	}
	if f.nd != nil {
		f.nd.mode = mode & 0o777
	}
	return nil, true
}

//go:norace
func (k *Kernel) Fchmodat(dirfd int, p string, mode uint32) (error, bool) {
	nd := k.lookup(k.abs(p))
	if nd == nil {
		return syscall.ENOENT, true
	}
	nd.mode = mode & 0o777
	return nil, true
}

//go:norace
func (k *Kernel) Faccessat(dirfd int, p string, mode uint32) (error, bool) {
	if k.lookup(k.abs(p)) == nil {
		return syscall.ENOENT, true
	}
	return nil, true
}

//go:norace
func (k *Kernel) Random(p []byte) int {
	for i := range p {
		p[i] = byte(runtime.SimRandom())
	}
	return len(p)
}

func (k *Kernel) Pid() int { return k.pid }
