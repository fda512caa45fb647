package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// Running a command under ptrace: its operations on the files in some directories are listed, and one of them may be made to
// fail, or the command be killed there.

// A sysop is an operation on files in the watched directories.
type sysop struct {
	Name  string // system call
	Role  string // directory and what the name adds to the usual one
	Mut   bool   // changes something
	Write bool   // can be cut short
}

func (o sysop) String() string { return o.Name + " " + o.Role }

// A fault is what happens at the N-th operation (from 1): "kill" before it, "torn" halfway, "after" it, an error ("EIO"),
// an error there and at all later writes ("ENOSPC+"), or a write cut short ("short").
type fault struct {
	N    int
	Kind string
}

var errnos = map[string]syscall.Errno{
	"EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC, "EACCES": syscall.EACCES, "EDQUOT": syscall.EDQUOT, "ENFILE": syscall.ENFILE,
	"ENOMEM": syscall.ENOMEM, "EROFS": syscall.EROFS, "EPERM": syscall.EPERM, "ENOSYS": syscall.ENOSYS, "ESTALE": syscall.ESTALE,
	"EINTR": syscall.EINTR,
}

type callKind struct {
	name     string
	fd, path int // arguments, or -1
	write    int // argument with the length
	mut      bool
}

var calls = map[int64]callKind{
	0: {"read", 0, -1, -1, false}, 1: {"write", 0, -1, 2, true}, 2: {"open", -1, 0, -1, false}, 4: {"stat", -1, 0, -1, false}, 5: {"fstat", 0, -1, -1, false},
	6: {"lstat", -1, 0, -1, false}, 8: {"lseek", 0, -1, -1, false}, 9: {"mmap", 4, -1, -1, false}, 17: {"pread", 0, -1, -1, false}, 18: {"pwrite", 0, -1, 2, true},
	19: {"readv", 0, -1, -1, false}, 20: {"writev", 0, -1, -1, true}, 40: {"sendfile", 0, -1, 3, true}, 74: {"fsync", 0, -1, -1, false}, 75: {"fdatasync", 0, -1, -1, false},
	76: {"truncate", -1, 0, -1, true}, 77: {"ftruncate", 0, -1, -1, true}, 82: {"rename", -1, 0, -1, true}, 84: {"rmdir", -1, 0, -1, true}, 85: {"creat", -1, 0, -1, true},
	86: {"link", -1, 0, -1, true}, 87: {"unlink", -1, 0, -1, true}, 90: {"chmod", -1, 0, -1, true}, 91: {"fchmod", 0, -1, -1, true}, 257: {"openat", 0, 1, -1, false},
	262: {"newfstatat", 0, 1, -1, false}, 263: {"unlinkat", 0, 1, -1, true}, 264: {"renameat", 0, 1, -1, true}, 265: {"linkat", 0, 1, -1, true}, 268: {"fchmodat", 0, 1, -1, true},
	269: {"faccessat", 0, 1, -1, false}, 275: {"splice", 2, -1, 4, true}, 285: {"fallocate", 0, -1, -1, true}, 296: {"pwritev", 0, -1, -1, true}, 316: {"renameat2", 0, 1, -1, true},
	326: {"copy_file_range", 2, -1, 4, true}, 332: {"statx", 0, 1, -1, false}, 439: {"faccessat2", 0, 1, -1, false},
}

type syscallInfo struct {
	op      uint8
	_       [3]byte
	arch    uint32
	ip, sp  uint64
	nr      int64
	args    [6]uint64
	padding [16]byte
}

func ptrace(req, pid int, addr, data uintptr) syscall.Errno {
	_, _, e := syscall.Syscall6(syscall.SYS_PTRACE, uintptr(req), uintptr(pid), addr, data, 0, 0)
	return e
}

// A tracee is a command to be run.
type tracee struct {
	dirs           map[string]string // roles of the watched directories
	cwd            string
	env, argv      []string
	stdout, stderr string // files
	fault          fault
	gate           func(n int, o sysop) // called before each operation
}

// tracers are threads that do nothing but tracing: a thread that had started other processes would wait for those, too.
var tracers = make(chan func())

func init() {
	for range 3 {
		go func() {
			runtime.LockOSThread()
			for f := range tracers {
				f()
			}
		}()
	}
}

// run returns the operations, the exit status (-1: killed by a signal), and whether the fault came to pass.
func (t *tracee) run() (ops []sysop, exit int, hit bool, err error) {
	done := make(chan bool)
	tracers <- func() {
		defer close(done)
		ops, exit, hit, err = t.here()
	}
	<-done
	return
}

func (t *tracee) here() (ops []sysop, exit int, hit bool, err error) {
	f := t.fault
	null, err := os.OpenFile("/dev/null", os.O_RDWR, 0)
	if err != nil {
		return
	}
	defer null.Close()
	outf := null
	if t.stdout != "" {
		if outf, err = os.Create(t.stdout); err != nil {
			return
		}
		defer outf.Close()
	}
	errf, err := os.Create(t.stderr)
	if err != nil {
		return
	}
	defer errf.Close()
	main, err := syscall.ForkExec(t.argv[0], t.argv, &syscall.ProcAttr{
		Dir: t.cwd, Env: t.env, Files: []uintptr{null.Fd(), outf.Fd(), errf.Fd()}, Sys: &syscall.SysProcAttr{Ptrace: true, Pdeathsig: syscall.SIGKILL}})
	if err != nil {
		return
	}
	var ws syscall.WaitStatus
	if _, err = syscall.Wait4(main, &ws, syscall.WALL, nil); err != nil {
		return
	}
	// system calls marked, threads followed, killed with this thread
	const opts = 1 | 8 | 0x100000
	if e := ptrace(0x4200, main, 0, opts); e != 0 {
		syscall.Kill(main, syscall.SIGKILL)
		syscall.Wait4(main, &ws, syscall.WALL, nil)
		return nil, 0, false, e
	}
	cont := func(pid int, sig syscall.Signal) { ptrace(syscall.PTRACE_SYSCALL, pid, 0, uintptr(sig)) }
	known := map[int]bool{main: true}
	failing := map[int]syscall.Errno{} // calls to be made to fail
	killing := map[int]bool{}          // killed when the call is over
	sticky := false
	kill := func() { syscall.Kill(main, syscall.SIGKILL) }
	timer := time.AfterFunc(patience(), func() { noteHang(); kill() })
	defer timer.Stop()
	cont(main, 0)
	for {
		pid, e := syscall.Wait4(-1, &ws, syscall.WALL|0x20000000, nil) // children of this thread
		if e == syscall.EINTR {
			continue
		}
		if e != nil {
			return ops, exit, hit, e
		}
		if ws.Exited() || ws.Signaled() {
			if pid == main {
				exit = -1
				if ws.Exited() {
					exit = ws.ExitStatus()
				}
				return ops, exit, hit, nil
			}
			continue
		}
		if !ws.Stopped() {
			continue
		}
		sig := ws.StopSignal()
		switch {
		case sig == syscall.SIGTRAP|0x80:
		case sig == syscall.SIGTRAP:
			cont(pid, 0) // an event
			continue
		case sig == syscall.SIGSTOP && !known[pid]:
			known[pid] = true
			cont(pid, 0)
			continue
		default:
			cont(pid, sig)
			continue
		}
		known[pid] = true
		var info syscallInfo
		if ptrace(0x420e, pid, unsafe.Sizeof(info), uintptr(unsafe.Pointer(&info))) != 0 {
			cont(pid, 0)
			continue
		}
		if info.op == 2 { // the call is over
			if killing[pid] {
				kill()
				continue
			}
			if errno, ok := failing[pid]; ok {
				delete(failing, pid)
				var regs syscall.PtraceRegs
				if syscall.PtraceGetRegs(pid, &regs) == nil {
					regs.Rax = uint64(-int64(errno))
					syscall.PtraceSetRegs(pid, &regs)
				}
			}
			cont(pid, 0)
			continue
		}
		if info.op != 1 {
			cont(pid, 0)
			continue
		}
		op, k, ok := decode(pid, &info, t.dirs)
		if !ok {
			cont(pid, 0)
			continue
		}
		ops = append(ops, op)
		if t.gate != nil {
			t.gate(len(ops), op)
		}
		inject := func(change func(*syscall.PtraceRegs)) {
			var regs syscall.PtraceRegs
			if syscall.PtraceGetRegs(pid, &regs) == nil {
				change(&regs)
				syscall.PtraceSetRegs(pid, &regs)
			}
		}
		refuse := func(errno syscall.Errno) {
			failing[pid] = errno
			inject(func(r *syscall.PtraceRegs) { r.Orig_rax = ^uint64(0) })
		}
		halve := func() {
			inject(func(r *syscall.PtraceRegs) {
				switch k.write {
				case 2:
					r.Rdx = (r.Rdx + 1) / 2
				case 3:
					r.R10 = 5
				case 4:
					r.R8 = 5
				}
			})
		}
		if len(ops) == f.N {
			hit = true
			switch f.Kind {
			case "kill":
				kill()
				continue
			case "torn":
				if op.Write {
					halve()
					killing[pid] = true
				} else {
					kill()
					continue
				}
			case "after":
				killing[pid] = true
			case "short":
				if op.Write {
					halve()
				}
			default:
				sticky = strings.HasSuffix(f.Kind, "+")
				refuse(errnos[strings.TrimSuffix(f.Kind, "+")])
			}
		} else if sticky && (op.Write || op.Name == "openat" && op.Mut) {
			refuse(errnos[strings.TrimSuffix(f.Kind, "+")])
		}
		cont(pid, 0)
	}
}

func decode(pid int, info *syscallInfo, dirs map[string]string) (sysop, callKind, bool) {
	k, ok := calls[info.nr]
	if !ok {
		return sysop{}, k, false
	}
	path := ""
	fdPath := func(fd int32) string {
		if fd == -100 {
			p, _ := os.Readlink(fmt.Sprintf("/proc/%d/cwd", pid))
			return p
		}
		p, _ := os.Readlink(fmt.Sprintf("/proc/%d/fd/%d", pid, fd))
		return strings.TrimSuffix(p, " (deleted)")
	}
	if k.path >= 0 {
		path = peekString(pid, uintptr(info.args[k.path]))
		if k.fd >= 0 && !filepath.IsAbs(path) {
			path = filepath.Join(fdPath(int32(info.args[k.fd])), path)
		}
	} else {
		if k.name == "mmap" && int32(info.args[4]) < 0 {
			return sysop{}, k, false
		}
		path = fdPath(int32(info.args[k.fd]))
	}
	for dir, name := range dirs {
		if path != dir && !strings.HasPrefix(path, dir+"/") {
			continue
		}
		op := sysop{Name: k.name, Mut: k.mut, Write: k.write >= 0}
		op.Role = name
		if name == "index" {
			op.Role = strings.TrimPrefix(strings.TrimPrefix(path, dir), "/")
		}
		flags := uint64(0)
		switch k.name {
		case "openat":
			flags = info.args[2]
		case "open":
			flags = info.args[1]
		}
		op.Mut = op.Mut || flags&(syscall.O_CREAT|syscall.O_TRUNC) != 0
		return op, k, true
	}
	return sysop{}, k, false
}

func peekString(pid int, addr uintptr) string {
	var s []byte
	for len(s) < 4096 {
		var b [8]byte
		if _, err := syscall.PtracePeekData(pid, addr, b[:]); err != nil {
			break
		}
		for _, x := range b {
			if x == 0 {
				return string(s)
			}
			s = append(s, x)
		}
		addr += 8
	}
	return string(s)
}
