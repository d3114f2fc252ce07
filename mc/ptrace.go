//go:build linux && amd64

package main

// A small tracer: runs a child that performs one save and places faults on its file operations. A file operation is a
// system call that names a path, or uses a descriptor, inside the watched directory; they are numbered from the moment
// the child announces the save.

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"syscall"
	"time"
)

// Fault is what happens to the file operation with number At.
type Fault struct {
	At  int    `json:"at"`
	Act string `json:"act"` // kill | error | after (performed, then error) | sticky (this and every later one fails) | short (only N bytes are written) | torn (N bytes are written, then killed)
	Err int    `json:"errno,omitempty"`
	N   int    `json:"n,omitempty"`
}

func (f Fault) String() string {
	switch f.Act {
	case "kill":
		return fmt.Sprintf("killed before operation %d", f.At)
	case "torn":
		return fmt.Sprintf("killed when operation %d had written %d bytes", f.At, f.N)
	case "short":
		return fmt.Sprintf("operation %d writes only %d bytes", f.At, f.N)
	case "after":
		return fmt.Sprintf("operation %d is performed but reports %v", f.At, syscall.Errno(f.Err))
	case "sticky":
		return fmt.Sprintf("operation %d and all later ones fail with %v", f.At, syscall.Errno(f.Err))
	}
	return fmt.Sprintf("operation %d fails with %v", f.At, syscall.Errno(f.Err))
}

// FileOp is one file operation of the child.
type FileOp struct {
	Name string
	Path string
	Len  int // of a write
}

// Traced is how the child ended.
type Traced struct {
	Ops    []FileOp
	Killed bool // by a fault
	Exit   int
	Fired  int // faults that happened
	Stderr string
	Hung   bool
}

type scDesc struct {
	name        string
	path, path2 int // argument with a path, or -1
	dirfd       int // argument with the directory descriptor for path (path2 uses the one before it), or -1
	fd          int // argument with a descriptor, or -1
	length      int // argument with a length, or -1
}

var scTable = map[uint64]scDesc{
	0: {"read", -1, -1, -1, 0, -1}, 1: {"write", -1, -1, -1, 0, 2}, 2: {"open", 0, -1, -1, -1, -1}, 3: {"close", -1, -1, -1, 0, -1},
	4: {"stat", 0, -1, -1, -1, -1}, 5: {"fstat", -1, -1, -1, 0, -1}, 6: {"lstat", 0, -1, -1, -1, -1}, 8: {"lseek", -1, -1, -1, 0, -1},
	17: {"pread64", -1, -1, -1, 0, -1}, 18: {"pwrite64", -1, -1, -1, 0, 2}, 20: {"writev", -1, -1, -1, 0, -1}, 40: {"sendfile", -1, -1, -1, 0, -1},
	21: {"access", 0, -1, -1, -1, -1}, 73: {"flock", -1, -1, -1, 0, -1}, 74: {"fsync", -1, -1, -1, 0, -1}, 75: {"fdatasync", -1, -1, -1, 0, -1},
	76: {"truncate", 0, -1, -1, -1, -1}, 77: {"ftruncate", -1, -1, -1, 0, -1}, 78: {"getdents", -1, -1, -1, 0, -1},
	82: {"rename", 0, 1, -1, -1, -1}, 83: {"mkdir", 0, -1, -1, -1, -1}, 84: {"rmdir", 0, -1, -1, -1, -1}, 85: {"creat", 0, -1, -1, -1, -1},
	86: {"link", 0, 1, -1, -1, -1}, 87: {"unlink", 0, -1, -1, -1, -1}, 88: {"symlink", 0, 1, -1, -1, -1}, 89: {"readlink", 0, -1, -1, -1, -1},
	90: {"chmod", 0, -1, -1, -1, -1}, 91: {"fchmod", -1, -1, -1, 0, -1}, 92: {"chown", 0, -1, -1, -1, -1}, 93: {"fchown", -1, -1, -1, 0, -1},
	217: {"getdents64", -1, -1, -1, 0, -1}, 257: {"openat", 1, -1, 0, -1, -1}, 258: {"mkdirat", 1, -1, 0, -1, -1}, 260: {"fchownat", 1, -1, 0, -1, -1},
	262: {"newfstatat", 1, -1, 0, -1, -1}, 263: {"unlinkat", 1, -1, 0, -1, -1}, 264: {"renameat", 1, 3, 0, -1, -1}, 265: {"linkat", 1, 3, 0, -1, -1},
	266: {"symlinkat", 2, -1, 1, -1, -1}, 267: {"readlinkat", 1, -1, 0, -1, -1}, 268: {"fchmodat", 1, -1, 0, -1, -1}, 269: {"faccessat", 1, -1, 0, -1, -1},
	277: {"sync_file_range", -1, -1, -1, 0, -1}, 280: {"utimensat", 1, -1, 0, -1, -1}, 285: {"fallocate", -1, -1, -1, 0, -1},
	296: {"pwritev", -1, -1, -1, 0, -1}, 316: {"renameat2", 1, 3, 0, -1, -1}, 326: {"copy_file_range", -1, -1, -1, 2, -1},
	332: {"statx", 1, -1, 0, -1, -1}, 437: {"openat2", 1, -1, 0, -1, -1}, 439: {"faccessat2", 1, -1, 0, -1, -1}, 452: {"fchmodat2", 1, -1, 0, -1, -1},
}

func arg(r *syscall.PtraceRegs, i int) uint64 {
	return [...]uint64{r.Rdi, r.Rsi, r.Rdx, r.R10, r.R8, r.R9}[i]
}

func peekString(tid int, addr uint64) string {
	var out []byte
	buf := make([]byte, 64)
	for len(out) < 4096 {
		n, err := syscall.PtracePeekData(tid, uintptr(addr)+uintptr(len(out)), buf)
		if n <= 0 || err != nil && n == 0 {
			break
		}
		if i := bytes.IndexByte(buf[:n], 0); i >= 0 {
			return string(append(out, buf[:i]...))
		}
		out = append(out, buf[:n]...)
	}
	return string(out)
}

func fdPath(tid int, fd int32) string {
	if fd == -100 {
		p, _ := os.Readlink(fmt.Sprintf("/proc/%d/cwd", tid))
		return p
	}
	p, _ := os.Readlink(fmt.Sprintf("/proc/%d/fd/%d", tid, fd))
	return strings.TrimSuffix(p, " (deleted)")
}

// fileOpOf says which file operation inside dir a thread is about to perform; no paths: none.
func fileOpOf(tid int, r *syscall.PtraceRegs, dir string) (d scDesc, paths []string) {
	d, ok := scTable[r.Orig_rax]
	if !ok {
		return d, nil
	}
	at := func(arg0, dirfd int) {
		p := peekString(tid, arg(r, arg0))
		if !strings.HasPrefix(p, "/") {
			base := int32(-100)
			if dirfd >= 0 {
				base = int32(arg(r, dirfd))
			}
			p = fdPath(tid, base) + "/" + p
		}
		paths = append(paths, p)
	}
	if d.path >= 0 {
		at(d.path, d.dirfd)
	}
	if d.path2 >= 0 {
		second := -1
		if d.dirfd >= 0 {
			second = d.path2 - 1
		}
		at(d.path2, second)
	}
	if d.fd >= 0 {
		paths = append(paths, fdPath(tid, int32(arg(r, d.fd))))
	}
	inside := false
	for i, p := range paths {
		if strings.HasPrefix(p, dir) {
			inside = true
			paths[i] = strings.TrimPrefix(p, dir)
		}
	}
	if !inside {
		return d, nil
	}
	return d, paths
}

func fileOp(tid int, r *syscall.PtraceRegs, dir string) (string, []string) {
	d, paths := fileOpOf(tid, r, dir)
	return d.name, paths
}

const wNoThread = 0x20000000
const ptraceExitKill = 0x100000

// traceSave runs the command under the tracer. The child announces the save by access("<dir>/BEGIN").
func traceSave(args []string, dir string, faults []Fault) (t Traced, err error) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	errf, err := os.CreateTemp("", "mc-stderr-")
	if err != nil {
		return t, err
	}
	defer func() { errf.Close(); os.Remove(errf.Name()) }()
	cmd := exec.Command(args[0], args[1:]...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOTRACEBACK=single", "GODEBUG=asyncpreemptoff=1")
	cmd.Stderr = errf
	cmd.SysProcAttr = &syscall.SysProcAttr{Ptrace: true}
	if err := cmd.Start(); err != nil {
		return t, fmt.Errorf("cannot trace a child: %w", err)
	}
	pid := cmd.Process.Pid
	var ws syscall.WaitStatus
	if _, err := syscall.Wait4(pid, &ws, 0, nil); err != nil {
		return t, err
	}
	opts := syscall.PTRACE_O_TRACESYSGOOD | syscall.PTRACE_O_TRACECLONE | ptraceExitKill
	if err := syscall.PtraceSetOptions(pid, opts); err != nil {
		return t, err
	}
	type st struct {
		in  bool // inside a system call
		act *Fault
	}
	threads := map[int]*st{pid: {}}
	begun, sticky := false, 0
	byAt := map[int]*Fault{}
	for i := range faults {
		byAt[faults[i].At] = &faults[i]
	}
	start := time.Now()
	timer := time.AfterFunc(20*time.Second, func() { syscall.Kill(pid, syscall.SIGKILL) })
	defer timer.Stop()
	if err := syscall.PtraceSyscall(pid, 0); err != nil {
		return t, err
	}
	kill := func() {
		t.Killed = true
		syscall.Kill(pid, syscall.SIGKILL)
	}
	for {
		tid, err := syscall.Wait4(-1, &ws, syscall.WALL|wNoThread, nil)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			return t, fmt.Errorf("wait: %w", err)
		}
		if ws.Exited() || ws.Signaled() {
			delete(threads, tid)
			if tid == pid {
				t.Exit = ws.ExitStatus()
				if ws.Signaled() {
					t.Exit = 128 + int(ws.Signal())
				}
				t.Hung = !t.Killed && time.Since(start) > 19*time.Second
				b, _ := os.ReadFile(errf.Name())
				if len(b) > 4000 {
					b = b[len(b)-4000:]
				}
				t.Stderr = string(b)
				return t, nil
			}
			continue
		}
		s := threads[tid]
		if s == nil {
			s = &st{}
			threads[tid] = s
		}
		sig := 0
		switch {
		case ws.StopSignal() == syscall.SIGTRAP|0x80:
			if s.in {
				s.in = false
				if f := s.act; f != nil {
					s.act = nil
					var r syscall.PtraceRegs
					if syscall.PtraceGetRegs(tid, &r) == nil {
						switch f.Act {
						case "error", "after", "sticky":
							r.Rax = uint64(-int64(f.Err))
							syscall.PtraceSetRegs(tid, &r)
						case "torn":
							kill()
						}
					}
				}
				break
			}
			s.in = true
			var r syscall.PtraceRegs
			if syscall.PtraceGetRegs(tid, &r) != nil {
				break
			}
			d, paths := fileOpOf(tid, &r, dir)
			if paths == nil {
				break
			}
			if len(paths) == 1 && paths[0] == "/BEGIN" {
				begun = true
				break
			}
			if !begun {
				break
			}
			op := FileOp{Name: d.name, Path: strings.Join(paths, " -> ")}
			if d.length >= 0 {
				op.Len = int(arg(&r, d.length))
			}
			n := len(t.Ops)
			t.Ops = append(t.Ops, op)
			f := byAt[n]
			if f == nil && sticky != 0 {
				f = &Fault{At: n, Act: "sticky", Err: sticky}
			} else if f != nil {
				t.Fired++
			}
			if f == nil {
				break
			}
			switch f.Act {
			case "kill":
				kill()
			case "error", "sticky":
				if f.Act == "sticky" {
					sticky = f.Err
				}
				if d.name == "close" { // a descriptor is gone even when close fails
					s.act = f
					break
				}
				r.Orig_rax = ^uint64(0)
				syscall.PtraceSetRegs(tid, &r)
				s.act = f
			case "after":
				s.act = f
			case "short", "torn":
				r.Rdx = uint64(f.N)
				syscall.PtraceSetRegs(tid, &r)
				s.act = f
			}
		case ws.StopSignal() == syscall.SIGTRAP, ws.StopSignal() == syscall.SIGSTOP:
		default:
			sig = int(ws.StopSignal())
		}
		if err := syscall.PtraceSyscall(tid, sig); err != nil && err != syscall.ESRCH {
			return t, err
		}
	}
}
