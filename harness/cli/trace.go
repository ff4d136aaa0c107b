package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
	"time"
)

// proc is a traced process which stops before every system call that touches
// the files of the scratch directory.
type proc struct {
	pid     int
	home    string
	out     *os.File
	threads map[int]bool // stopped at entry of a system call
	done    bool
	killed  bool
	status  int
	atTid   int    // the thread stopped before a relevant call
	at      string // what it is about to do
	size    int    // the bytes it is about to write, -1: no write
	skip    map[int]int
}

const wall = 0x40000000 | 0x20000000 // __WALL | __WNOTHREAD

func str(pid int, addr uintptr) string {
	var out []byte
	buf := make([]byte, 8)
	for len(out) < 4096 {
		n, err := syscall.PtracePeekData(pid, addr+uintptr(len(out)), buf)
		if err != nil || n == 0 {
			break
		}
		if i := bytes.IndexByte(buf[:n], 0); i >= 0 {
			return string(append(out, buf[:i]...))
		}
		out = append(out, buf[:n]...)
	}
	return string(out)
}

// start runs the program up to its exec.
func start(bin, home string, uid uint32, args ...string) (*proc, error) {
	out, err := os.CreateTemp(home, ".out-")
	if err != nil {
		return nil, err
	}
	null, err := os.Open("/dev/null")
	if err != nil {
		return nil, err
	}
	defer null.Close()
	pid, err := syscall.ForkExec(bin, append([]string{"neutrino"}, args...), &syscall.ProcAttr{
		Dir: home, Env: []string{"HOME=" + home, "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1"},
		Files: []uintptr{null.Fd(), out.Fd(), out.Fd()},
		Sys:   &syscall.SysProcAttr{Ptrace: true, Credential: &syscall.Credential{Uid: uid, Gid: uid}},
	})
	if err != nil {
		return nil, err
	}
	p := &proc{pid: pid, home: home, out: out, threads: map[int]bool{}, skip: map[int]int{}, size: -1}
	var ws syscall.WaitStatus
	if _, err := syscall.Wait4(pid, &ws, wall, nil); err != nil {
		return nil, err
	}
	// sysgood, clone, exitkill
	if err := syscall.PtraceSetOptions(pid, 1|8|0x100000); err != nil {
		return nil, err
	}
	p.threads[pid] = false
	return p, syscall.PtraceSyscall(pid, 0)
}

// relevant describes the system call if it touches the scratch directory.
func (p *proc) relevant(tid int, r *syscall.PtraceRegs, reads bool) (string, int) {
	in := func(s string) bool { return strings.HasPrefix(s, p.home) && !strings.Contains(s, "/.out-") }
	fd := func(n uint64) string {
		s, _ := os.Readlink(fmt.Sprintf("/proc/%d/fd/%d", p.pid, int32(n)))
		return s
	}
	rel := func(s string) string { return strings.TrimPrefix(s, p.home) }
	switch r.Orig_rax {
	case syscall.SYS_OPEN, syscall.SYS_OPENAT, syscall.SYS_CREAT, 437:
		a, f := r.Rsi, r.Rdx
		if r.Orig_rax == syscall.SYS_OPEN {
			a, f = r.Rdi, r.Rsi
		}
		if r.Orig_rax == syscall.SYS_CREAT {
			a, f = r.Rdi, syscall.O_CREAT
		}
		s := str(tid, uintptr(a))
		if in(s) && (reads || f&(syscall.O_WRONLY|syscall.O_RDWR|syscall.O_CREAT|syscall.O_TRUNC) != 0 || r.Orig_rax == 437) {
			return fmt.Sprintf("open %s %#x", rel(s), f), -1
		}
	case syscall.SYS_WRITE, syscall.SYS_PWRITE64:
		if s := fd(r.Rdi); in(s) {
			return fmt.Sprintf("write %s %d", rel(s), r.Rdx), int(r.Rdx)
		}
	case syscall.SYS_READ:
		if s := fd(r.Rdi); reads && in(s) {
			return "read " + rel(s), -1
		}
	case syscall.SYS_FTRUNCATE, syscall.SYS_FSYNC, syscall.SYS_FDATASYNC, syscall.SYS_FCHMOD, syscall.SYS_WRITEV, 296, 326, 40:
		if s := fd(r.Rdi); in(s) {
			return fmt.Sprintf("call %d on %s", r.Orig_rax, rel(s)), -1
		}
	case syscall.SYS_MKDIR, syscall.SYS_UNLINK, syscall.SYS_RMDIR, syscall.SYS_TRUNCATE, syscall.SYS_CHMOD, syscall.SYS_RENAME, syscall.SYS_LINK, syscall.SYS_SYMLINK:
		if s := str(tid, uintptr(r.Rdi)); in(s) {
			return fmt.Sprintf("call %d on %s", r.Orig_rax, rel(s)), -1
		}
	case syscall.SYS_MKDIRAT, syscall.SYS_UNLINKAT, syscall.SYS_FCHMODAT, syscall.SYS_RENAMEAT, 316, syscall.SYS_LINKAT, syscall.SYS_SYMLINKAT:
		if s := str(tid, uintptr(r.Rsi)); in(s) {
			return fmt.Sprintf("call %d on %s", r.Orig_rax, rel(s)), -1
		}
	}
	return "", -1
}

// next continues until the process is about to make a relevant call (true) or
// has ended (false).
func (p *proc) next(reads bool) bool {
	if p.done {
		return false
	}
	if p.atTid != 0 {
		t := p.atTid
		p.atTid = 0
		if syscall.PtraceSyscall(t, 0) != nil && p.killed {
			// it dies
		}
	}
	for {
		var ws syscall.WaitStatus
		tid, err := p.wait(&ws)
		if err != nil {
			p.done = true
			return false
		}
		if ws.Exited() || ws.Signaled() {
			if tid == p.pid {
				p.done = true
				p.status = ws.ExitStatus()
				return false
			}
			delete(p.threads, tid)
			continue
		}
		if !ws.Stopped() {
			continue
		}
		sig := ws.StopSignal()
		switch {
		case sig == syscall.SIGTRAP|0x80:
			p.threads[tid] = !p.threads[tid]
			if p.threads[tid] {
				var r syscall.PtraceRegs
				if syscall.PtraceGetRegs(tid, &r) == nil {
					if s, n := p.relevant(tid, &r, reads); s != "" {
						p.atTid, p.at, p.size = tid, s, n
						return true
					}
				}
			} else if e, ok := p.skip[tid]; ok {
				delete(p.skip, tid)
				var r syscall.PtraceRegs
				if syscall.PtraceGetRegs(tid, &r) == nil {
					if e < 0 {
						r.Rax = uint64(int64(e))
						syscall.PtraceSetRegs(tid, &r)
					} else {
						p.kill()
						continue
					}
				}
			}
			syscall.PtraceSyscall(tid, 0)
		case sig == syscall.SIGTRAP:
			if c := ws.TrapCause(); c == 3 { // clone
				if n, err := syscall.PtraceGetEventMsg(tid); err == nil {
					if _, ok := p.threads[int(n)]; !ok {
						p.threads[int(n)] = false
					}
				}
			}
			syscall.PtraceSyscall(tid, 0)
		case sig == syscall.SIGSTOP:
			if _, ok := p.threads[tid]; !ok {
				p.threads[tid] = false
			}
			syscall.PtraceSyscall(tid, 0)
		default:
			syscall.PtraceSyscall(tid, int(sig))
		}
	}
}

// wait waits for any thread of the process.
func (p *proc) wait(ws *syscall.WaitStatus) (int, error) {
	end := time.Now().Add(30 * time.Second)
	for spin := 0; ; spin++ {
		for t := range p.threads {
			tid, err := syscall.Wait4(t, ws, wall|syscall.WNOHANG, nil)
			if err == syscall.ECHILD && t != p.pid {
				delete(p.threads, t)
				continue
			}
			if err != nil && err != syscall.EINTR {
				return 0, err
			}
			if tid == t {
				return tid, nil
			}
		}
		if time.Now().After(end) {
			p.kill()
			return 0, fmt.Errorf("the process hangs")
		}
		if spin > 200 {
			time.Sleep(50 * time.Microsecond)
		} else {
			runtime.Gosched()
		}
	}
}

// fail makes the call the process is stopped at fail with the error.
func (p *proc) fail(errno syscall.Errno) {
	var r syscall.PtraceRegs
	if syscall.PtraceGetRegs(p.atTid, &r) != nil {
		return
	}
	r.Orig_rax = ^uint64(0)
	syscall.PtraceSetRegs(p.atTid, &r)
	p.skip[p.atTid] = -int(errno)
}

// tear shortens the write the process is stopped at and kills it afterwards.
func (p *proc) tear(n int) {
	var r syscall.PtraceRegs
	if syscall.PtraceGetRegs(p.atTid, &r) != nil {
		return
	}
	r.Rdx = uint64(n)
	syscall.PtraceSetRegs(p.atTid, &r)
	p.skip[p.atTid] = 1
}

// kill ends the process before the call it is stopped at.
func (p *proc) kill() {
	p.killed = true
	syscall.Kill(p.pid, syscall.SIGKILL)
}

// finish lets the process run to its end.
func (p *proc) finish() {
	for p.next(false) {
	}
	p.reap()
}

func (p *proc) reap() {
	if !p.done {
		p.kill()
		for p.next(false) {
		}
	}
	for t := range p.threads {
		var ws syscall.WaitStatus
		syscall.Wait4(t, &ws, wall|syscall.WNOHANG, nil)
	}
	p.out.Close()
	os.Remove(p.out.Name())
}

// output is what the process has printed.
func (p *proc) output() string {
	b, _ := os.ReadFile(p.out.Name())
	return string(b)
}

func files(home string) (out []string) {
	filepath.Walk(home, func(f string, i os.FileInfo, err error) error {
		if err == nil && i.Mode().IsRegular() && !strings.Contains(f, "/.out-") {
			out = append(out, strings.TrimPrefix(f, home))
		}
		return nil
	})
	return
}
