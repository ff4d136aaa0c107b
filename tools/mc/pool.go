package main

import (
	"encoding/gob"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync/atomic"
	"time"

	"verif/vs"
)

// worker is one harness process.
type worker struct {
	bin    string
	dir    string
	cmd    *exec.Cmd
	in     io.WriteCloser
	enc    *gob.Encoder
	dec    *gob.Decoder
	errf   string
	status string
	id     int64
	runs   int
}

var workerSeq int64

func startWorker(bin, dir string) (*worker, error) {
	id := atomic.AddInt64(&workerSeq, 1)
	w := &worker{bin: bin, dir: dir, id: id}
	w.errf = filepath.Join(dir, fmt.Sprintf("w%d.err", id))
	w.status = filepath.Join(dir, fmt.Sprintf("w%d.st", id))
	scratch := filepath.Join(dir, fmt.Sprintf("w%d.d", id))
	os.MkdirAll(scratch, 0o755)
	ef, err := os.Create(w.errf)
	if err != nil {
		return nil, err
	}
	defer ef.Close()
	// the address space of a plain build is limited, so that an absurd
	// allocation ends the worker and not the sandbox
	sh := "ulimit -c 0; exec \"$0\""
	if !strings.HasSuffix(bin, ".race") {
		sh = "ulimit -c 0; ulimit -v 12000000; exec \"$0\""
	}
	cmd := exec.Command("/bin/bash", "-c", sh, bin)
	cmd.Dir = scratch
	cmd.Env = append(goEnv(), "GOMAXPROCS=1", "VS_STATUS="+w.status, "GORACE=halt_on_error=1 atexit_sleep_ms=0 history_size=2", "HOME="+scratch, "GOTRACEBACK=single")
	cmd.Stderr = ef
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	w.cmd, w.in = cmd, in
	w.enc, w.dec = gob.NewEncoder(in), gob.NewDecoder(out)
	return w, nil
}

type deadErr struct {
	code   int
	stderr string
	last   int
	late   bool // killed because it took too long
}

func (d *deadErr) Error() string { return fmt.Sprintf("worker ended with code %d", d.code) }

func (w *worker) call(q *vs.Req, limit time.Duration) (*vs.Resp, error) {
	w.runs++
	late := int32(0)
	timer := time.AfterFunc(limit, func() {
		atomic.StoreInt32(&late, 1)
		w.cmd.Process.Kill()
	})
	defer timer.Stop()
	dead := func() error {
		d := w.dead()
		d.late = atomic.LoadInt32(&late) == 1
		return d
	}
	if err := w.enc.Encode(q); err != nil {
		return nil, dead()
	}
	p := new(vs.Resp)
	if err := w.dec.Decode(p); err != nil {
		return nil, dead()
	}
	return p, nil
}

func (w *worker) dead() *deadErr {
	w.in.Close()
	err := w.cmd.Wait()
	code := 0
	if ee, ok := err.(*exec.ExitError); ok {
		code = ee.ExitCode()
	}
	b, _ := os.ReadFile(w.errf)
	if len(b) > 12000 {
		b = append(b[:8000:8000], b[len(b)-4000:]...)
	}
	last := 0
	if s, err := os.ReadFile(w.status); err == nil {
		f := strings.Fields(string(s))
		if len(f) > 0 {
			fmt.Sscan(f[len(f)-1], &last)
		}
	}
	return &deadErr{code: code, stderr: string(b), last: last}
}

func (w *worker) stop() {
	w.in.Close()
	done := make(chan struct{})
	go func() { w.cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(time.Second):
		w.cmd.Process.Kill()
		<-done
	}
	os.Remove(w.errf)
	os.Remove(w.status)
}
