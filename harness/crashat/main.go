// crashat runs a program and kills it (SIGKILL) right before its K-th system
// call that changes a file, or in the middle of it if that is a write:
//
//	crashat REPORT K MODE PROGRAM ARGS...
//
// MODE is clean, torn, once:ERRNO (the K-th call fails with that error instead,
// and the program goes on) or full (from the K-th call on, nothing more can be
// written: the disk is full) or under:PATH (from the K-th call on, nothing below
// PATH can be changed: it is read-only). Only the program itself is traced, not the
// processes it starts. REPORT receives the number of such calls seen and the
// ones that were hit. Calls that concern files below $CRASHAT_SKIP do not count,
// and where $CRASHAT_ONLY is set only those that concern files below it do.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"unsafe"
)

// Report is what is written to REPORT.
type Report struct {
	Seen int    `json:"seen"`
	Hit  string `json:"hit,omitempty"`
	// further calls that failed
	More []string `json:"more,omitempty"`
}

type info struct {
	op   uint8
	_    [3]uint8
	arch uint32
	ip   uint64
	sp   uint64
	nr   uint64
	args [6]uint64
	_    [32]byte
}

func sysInfo(tid int) (info, bool) {
	var x info
	_, _, e := syscall.RawSyscall6(syscall.SYS_PTRACE, 0x420e, uintptr(tid), unsafe.Sizeof(x), uintptr(unsafe.Pointer(&x)), 0, 0)
	return x, e == 0
}

func peekString(tid int, addr uint64) string {
	var out []byte
	buf := make([]byte, 8)
	for len(out) < 4096 {
		n, err := syscall.PtracePeekData(tid, uintptr(addr)+uintptr(len(out)), buf)
		if err != nil || n == 0 {
			break
		}
		for _, c := range buf[:n] {
			if c == 0 {
				return string(out)
			}
			out = append(out, c)
		}
	}
	return string(out)
}

func main() {
	runtime.LockOSThread()
	report := os.Args[1]
	k, _ := strconv.Atoi(os.Args[2])
	torn := os.Args[3] == "torn"
	full := os.Args[3] == "full"
	once := 0
	if strings.HasPrefix(os.Args[3], "once:") {
		once, _ = strconv.Atoi(os.Args[3][5:])
	}
	under := ""
	if strings.HasPrefix(os.Args[3], "under:") {
		under, full = os.Args[3][6:], true
	}
	skip, only := os.Getenv("CRASHAT_SKIP"), os.Getenv("CRASHAT_ONLY")
	failing := map[int]int{} // threads in a call that fails, and how
	prog := os.Args[4:]
	pid, err := syscall.ForkExec(prog[0], prog, &syscall.ProcAttr{Env: os.Environ(), Files: []uintptr{0, 1, 2}, Sys: &syscall.SysProcAttr{Ptrace: true}})
	if err != nil {
		fmt.Fprintln(os.Stderr, "crashat:", err)
		os.Exit(96)
	}
	var rep Report
	done := func() {
		b, _ := json.Marshal(rep)
		_ = os.WriteFile(report, b, 0644)
	}
	var ws syscall.WaitStatus
	if _, err := syscall.Wait4(pid, &ws, 0, nil); err != nil || !ws.Stopped() {
		fmt.Fprintln(os.Stderr, "crashat: cannot trace:", err)
		os.Exit(96)
	}
	const exitkill, sysgood, clone = 0x100000, 1, 8
	if err := syscall.PtraceSetOptions(pid, exitkill|sysgood|clone); err != nil {
		fmt.Fprintln(os.Stderr, "crashat: cannot trace:", err)
		os.Exit(96)
	}
	_ = syscall.PtraceSyscall(pid, 0)
	tornTid := 0
	for {
		tid, err := syscall.Wait4(-1, &ws, syscall.WALL, nil)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "crashat: lost the program:", err)
			os.Exit(96)
		}
		if ws.Exited() || ws.Signaled() {
			if tid != pid {
				continue
			}
			done()
			if ws.Signaled() {
				if ws.Signal() == syscall.SIGKILL {
					_ = syscall.Kill(os.Getpid(), syscall.SIGKILL)
				}
				os.Exit(128 + int(ws.Signal()))
			}
			os.Exit(ws.ExitStatus())
		}
		if !ws.Stopped() {
			continue
		}
		sig := ws.StopSignal()
		switch {
		case sig == syscall.SIGTRAP|0x80:
			if tid == tornTid {
				_ = syscall.Kill(pid, syscall.SIGKILL)
				break
			}
			x, ok := sysInfo(tid)
			if ok && x.op == 2 && failing[tid] != 0 {
				var r syscall.PtraceRegs
				if syscall.PtraceGetRegs(tid, &r) == nil {
					r.Rax = uint64(-int64(failing[tid]))
					_ = syscall.PtraceSetRegs(tid, &r)
				}
				delete(failing, tid)
				break
			}
			if !ok || x.op != 1 {
				break
			}
			what := changes(tid, pid, x)
			if what == "" || skip != "" && strings.Contains(what, skip) {
				break
			}
			if _, p, _ := strings.Cut(what, " "); only != "" && !strings.HasPrefix(p, only+"/") {
				break
			}
			rep.Seen++
			fail := func(errno int) {
				var r syscall.PtraceRegs
				if syscall.PtraceGetRegs(tid, &r) == nil {
					r.Orig_rax = ^uint64(0)
					if syscall.PtraceSetRegs(tid, &r) == nil {
						failing[tid] = errno
					}
				}
			}
			if full && k > 0 && rep.Seen >= k {
				if under == "" && !grows(what) {
					break
				}
				if _, p, _ := strings.Cut(what, " "); under != "" && p != under && !strings.HasPrefix(p, under+"/") {
					break
				}
				if rep.Hit == "" {
					rep.Hit = what
					// R has no room either
					_ = os.WriteFile(os.Getenv("CRASHAT_FULL"), []byte(under), 0644)
					if under == "" && x.nr == syscall.SYS_WRITE && x.args[2] > 1 {
						// there was still room for a part of it
						var r syscall.PtraceRegs
						if syscall.PtraceGetRegs(tid, &r) == nil {
							r.Rdx /= 2
							_ = syscall.PtraceSetRegs(tid, &r)
						}
						break
					}
				} else if len(rep.More) < 8 {
					rep.More = append(rep.More, what)
				}
				if under != "" {
					fail(int(syscall.EROFS))
				} else {
					fail(int(syscall.ENOSPC))
				}
				break
			}
			if rep.Seen != k {
				break
			}
			rep.Hit = what
			if once != 0 {
				fail(once)
				break
			}
			if torn && x.nr == syscall.SYS_WRITE && x.args[2] > 1 {
				var r syscall.PtraceRegs
				if syscall.PtraceGetRegs(tid, &r) == nil {
					r.Rdx /= 2
					if syscall.PtraceSetRegs(tid, &r) == nil {
						rep.Hit += " torn"
						tornTid = tid
						break
					}
				}
			}
			done()
			_ = syscall.Kill(pid, syscall.SIGKILL)
		case sig == syscall.SIGTRAP && int(ws)>>16 != 0:
			// a new thread
		case sig == syscall.SIGSTOP && tid != pid:
			// its first stop
		case sig == syscall.SIGTRAP:
		default:
			_ = syscall.PtraceSyscall(tid, int(sig))
			continue
		}
		_ = syscall.PtraceSyscall(tid, 0)
	}
}

// changes names the change a system call is about to make to a file.
func changes(tid, pid int, x info) string {
	path := func(dirArg, arg int) string {
		p := peekString(tid, x.args[arg])
		if !strings.HasPrefix(p, "/") {
			d := ""
			if dirArg < 0 || int32(x.args[dirArg]) == -100 {
				d, _ = os.Readlink(fmt.Sprintf("/proc/%d/cwd", pid))
			} else {
				d, _ = os.Readlink(fmt.Sprintf("/proc/%d/fd/%d", pid, x.args[dirArg]))
			}
			p = filepath.Join(d, p)
		}
		return p
	}
	fd := func(n uint64) string {
		if n <= 2 {
			return ""
		}
		l, _ := os.Readlink(fmt.Sprintf("/proc/%d/fd/%d", pid, n))
		if !strings.HasPrefix(l, "/") || strings.HasPrefix(l, "/dev/") || strings.HasPrefix(l, "/proc/") {
			return ""
		}
		return l
	}
	named := func(name, p string) string {
		if p == "" || strings.HasPrefix(p, "/dev/") || strings.HasPrefix(p, "/proc/") || strings.HasPrefix(p, "/sys/") {
			return ""
		}
		return name + " " + p
	}
	switch x.nr {
	case syscall.SYS_WRITE, syscall.SYS_PWRITE64, syscall.SYS_WRITEV:
		return named("write", fd(x.args[0]))
	case syscall.SYS_FTRUNCATE:
		return named("ftruncate", fd(x.args[0]))
	case 326: // copy_file_range
		return named("copy", fd(x.args[2]))
	case syscall.SYS_SENDFILE:
		return named("sendfile", fd(x.args[0]))
	case syscall.SYS_OPENAT:
		if x.args[2]&(syscall.O_CREAT|syscall.O_TRUNC) != 0 {
			return named("create", path(0, 1))
		}
	case syscall.SYS_OPEN:
		if x.args[1]&(syscall.O_CREAT|syscall.O_TRUNC) != 0 {
			return named("create", path(-1, 0))
		}
	case syscall.SYS_MKDIRAT:
		return named("mkdir", path(0, 1))
	case syscall.SYS_UNLINKAT:
		return named("unlink", path(0, 1))
	case syscall.SYS_RENAMEAT, 316:
		return named("rename", path(0, 1))
	case syscall.SYS_LINKAT:
		return named("link", path(2, 3))
	case syscall.SYS_SYMLINKAT:
		return named("symlink", path(1, 2))
	case syscall.SYS_MKDIR:
		return named("mkdir", path(-1, 0))
	case syscall.SYS_UNLINK, syscall.SYS_RMDIR:
		return named("unlink", path(-1, 0))
	case syscall.SYS_RENAME:
		return named("rename", path(-1, 0))
	case syscall.SYS_FCHMODAT, 452:
		return named("chmod", path(0, 1))
	case syscall.SYS_FCHMOD:
		return named("chmod", fd(x.args[0]))
	case syscall.SYS_UTIMENSAT:
		return named("utimens", path(0, 1))
	}
	return ""
}

// grows tells whether a change needs room on the disk.
func grows(what string) bool {
	kind, path, _ := strings.Cut(what, " ")
	switch kind {
	case "write", "copy", "sendfile", "mkdir", "link", "symlink":
		return true
	case "create":
		_, err := os.Lstat(path)
		return err != nil
	}
	return false
}
