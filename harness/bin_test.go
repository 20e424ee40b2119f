package main_test

// The real program as a child process.

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"time"
)

type lockedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}

func (l *lockedBuf) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

type vProc struct {
	c    *vc
	cmd  *exec.Cmd
	out  lockedBuf // standard output
	err  lockedBuf // standard error
	done chan struct{}
	rc   int
	args []string
}

// vExec starts the program; wd is its working folder.
func vExec(c *vc, wd string, args ...string) *vProc {
	p := &vProc{c: c, cmd: exec.Command(os.Getenv("VERIF_BIN"), args...), done: make(chan struct{}), args: args}
	p.cmd.Dir = wd
	p.cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "GORACE=halt_on_error=0 exitcode=66 atexit_sleep_ms=100")
	p.cmd.Stdout, p.cmd.Stderr = &p.out, &p.err
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	c.must(p.cmd.Start())
	go func() {
		err := p.cmd.Wait()
		var ee *exec.ExitError
		if err != nil && !errors.As(err, &ee) {
			p.rc = -1
		} else {
			p.rc = p.cmd.ProcessState.ExitCode()
		}
		close(p.done)
	}()
	return p
}

func (p *vProc) exited(within time.Duration) bool {
	select {
	case <-p.done:
		return true
	case <-time.After(within):
		return false
	}
}

func (p *vProc) running() bool { return !p.exited(0) }

func (p *vProc) kill() {
	_ = p.cmd.Process.Kill()
	<-p.done
}

func (p *vProc) text() string { return p.out.String() + p.err.String() }

func (p *vProc) tail(n int) string {
	t := p.text()
	if len(t) > n {
		t = "..." + t[len(t)-n:]
	}
	return t
}

// healthy looks for crashes and races in the output.
func (p *vProc) healthy() {
	t := p.text()
	for _, s := range []string{"panic: ", "fatal error: ", "WARNING: DATA RACE", "\ngoroutine 1 ["} {
		if i := strings.Index(t, s); i >= 0 {
			p.kill()
			p.c.fail("crash", "%q: %s", p.args, t[max(0, i-300):min(len(t), i+6000)])
		}
	}
}

// started waits until the program reports its start; false: it ended instead.
func (p *vProc) started(api string, within time.Duration) bool {
	end := time.Now().Add(within)
	for time.Now().Before(end) {
		if !p.running() {
			return false
		}
		if st, _, err := vGet(api, "/api/status", 5*time.Second, nil); err == nil && st == 200 {
			return p.running()
		}
		time.Sleep(15 * time.Millisecond)
	}
	p.dump("start", within)
	return false
}

// dump ends a process that doesn't do what it should and reports its goroutines.
func (p *vProc) dump(what string, after time.Duration) {
	_ = p.cmd.Process.Signal(syscall.SIGQUIT)
	if !p.exited(10 * time.Second) {
		p.kill()
	}
	p.c.fail("hang", "%q: no %s within %s:\n%s", p.args, what, after, p.tail(60000))
}

// stop sends the signal and demands a clean end.
func (p *vProc) stop(sig syscall.Signal, within time.Duration) time.Duration {
	at := time.Now()
	_ = p.cmd.Process.Signal(sig)
	if !p.exited(within) {
		p.dump(fmt.Sprintf("end after %s", sig), within)
	}
	p.healthy()
	p.c.check(p.rc == 0, "exit-status", "%q ends with status %d after %s: %s", p.args, p.rc, sig, p.tail(3000))
	return time.Since(at)
}
