package main

// Execution of the real code: transpilation in a supervised worker process (so that crashes and hangs of the
// code under test are observed and not suffered) and execution of emitted scripts by /bin/bash.

import (
	"bufio"
	"bytes"
	"context"
	"encoding/gob"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/monstermichl/typeshell/converters/bash"
	"github.com/monstermichl/typeshell/converters/batch"
	"github.com/monstermichl/typeshell/lexer"
	"github.com/monstermichl/typeshell/transpiler"
)

type req struct {
	Files   map[string]string // relative path -> content
	Dirs    []string
	Links   map[string]string
	Main    string
	Targets []string // "bash", "batch"
	Lex     string   // tokenize only
	DoLex   bool
	Script  []step // several transpilations with one transpiler object
	Keep    string // use this directory instead of a fresh one
}

type step struct{ Main, Target string }

type tok struct {
	T    int
	V    string
	R, C int
}

type res struct {
	Out    []string
	Err    []string
	IsErr  []bool
	Toks   []tok
	Panic  string
	Crash  string // the worker died or hung
	WasErr bool
}

func newConv(t string) transpiler.Converter {
	if t == "batch" {
		return batch.New()
	}
	return bash.New()
}

func writeTree(dir string, r *req) error {
	for _, d := range r.Dirs {
		os.MkdirAll(filepath.Join(dir, d), 0777)
	}
	for n, c := range r.Files {
		f := filepath.Join(dir, n)
		os.MkdirAll(filepath.Dir(f), 0777)
		if err := os.WriteFile(f, []byte(c), 0666); err != nil {
			return err
		}
	}
	for n, to := range r.Links {
		f := filepath.Join(dir, n)
		os.MkdirAll(filepath.Dir(f), 0777)
		os.Symlink(to, f)
	}
	return nil
}

func handle(r *req, dir string) (o res) {
	defer func() {
		if p := recover(); p != nil {
			o.Panic = fmt.Sprintf("%v\n%s", p, debug.Stack())
		}
	}()
	if r.DoLex {
		ts, err := lexer.Tokenize(r.Lex)
		o.WasErr = err != nil
		if err != nil {
			o.Err = []string{err.Error()}
		}
		for _, t := range ts {
			o.Toks = append(o.Toks, tok{int(t.Type()), t.Value(), t.Row(), t.Column()})
		}
		return
	}
	if r.Keep != "" {
		dir = r.Keep
	}
	if err := writeTree(dir, r); err != nil {
		o.Crash = err.Error()
		return
	}
	add := func(s string, err error) {
		o.Out = append(o.Out, s)
		e := ""
		if err != nil {
			e = err.Error()
		}
		o.Err = append(o.Err, e)
		o.IsErr = append(o.IsErr, err != nil)
	}
	if len(r.Script) > 0 {
		t := transpiler.New()
		for _, s := range r.Script {
			add(t.Transpile(filepath.Join(dir, s.Main), newConv(s.Target)))
		}
		return
	}
	for _, tg := range r.Targets {
		t := transpiler.New()
		add(t.Transpile(filepath.Join(dir, r.Main), newConv(tg)))
	}
	return
}

func workerMain() {
	debug.SetMaxStack(512 << 20)
	in := gob.NewDecoder(bufio.NewReader(os.Stdin))
	out := gob.NewEncoder(os.Stdout)
	base := os.Args[2]
	for {
		var r req
		if err := in.Decode(&r); err != nil {
			return
		}
		dir, err := os.MkdirTemp(base, "t")
		if err != nil {
			return
		}
		o := handle(&r, dir)
		os.RemoveAll(dir)
		for i := range o.Err {
			o.Err[i] = strings.ReplaceAll(o.Err[i], dir, "")
		}
		if out.Encode(&o) != nil {
			return
		}
	}
}

type worker struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	enc  *gob.Encoder
	dec  *gob.Decoder
	errb *bytes.Buffer
	base string
}

func startWorker(base string) *worker {
	exe, _ := os.Executable()
	w := &worker{base: base, errb: &bytes.Buffer{}}
	w.cmd = exec.Command(exe, "worker", base)
	w.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	w.in, _ = w.cmd.StdinPipe()
	so, _ := w.cmd.StdoutPipe()
	w.cmd.Stderr = w.errb
	if err := w.cmd.Start(); err != nil {
		fatal("cannot start worker: %v", err)
	}
	w.enc = gob.NewEncoder(w.in)
	w.dec = gob.NewDecoder(bufio.NewReader(so))
	return w
}

func (w *worker) stop() {
	w.in.Close()
	syscall.Kill(-w.cmd.Process.Pid, syscall.SIGKILL)
	w.cmd.Wait()
}

type lane struct {
	id   int
	dir  string
	w    *worker
	h    *harness
	slow time.Duration
}

func (l *lane) do(r *req) *res { return l.doT(r, 20*time.Second) }

func (l *lane) doT(r *req, limit time.Duration) *res {
	l.h.note(r)
	if l.w == nil {
		l.w = startWorker(l.dir)
	}
	w := l.w
	type ans struct {
		o   res
		err error
	}
	ch := make(chan ans, 1)
	start := time.Now()
	go func() {
		var a ans
		if a.err = w.enc.Encode(r); a.err == nil {
			a.err = w.dec.Decode(&a.o)
		}
		ch <- a
	}()
	select {
	case a := <-ch:
		l.slow = time.Since(start)
		if a.err != nil {
			w.cmd.Process.Kill()
			w.cmd.Wait()
			l.w = nil
			m := w.errb.String()
			if len(m) > 600 {
				m = m[:600]
			}
			return &res{Crash: "the process died: " + m}
		}
		return &a.o
	case <-time.After(limit):
		w.stop()
		l.w = nil
		return &res{Crash: fmt.Sprintf("no answer within %v", limit)}
	}
}

// tr transpiles one source text for Bash.
func (l *lane) tr(src string) (script string, err string) {
	return l.trFiles(map[string]string{"main.tsh": src}, "main.tsh", "bash")
}

func (l *lane) trFiles(files map[string]string, main string, target string) (string, string) {
	o := l.do(&req{Files: files, Main: main, Targets: []string{target}})
	if o.Crash != "" {
		return "", "CRASH " + o.Crash
	}
	if o.Panic != "" {
		return "", "PANIC " + o.Panic
	}
	if o.IsErr[0] {
		return "", "ERROR " + o.Err[0]
	}
	return o.Out[0], ""
}

type run struct {
	Out, Err string
	Code     int
	Timeout  bool
}

func (r run) String() string {
	s := fmt.Sprintf("exit status %d\nstdout: %q\nstderr: %q", r.Code, r.Out, r.Err)
	if r.Timeout {
		s += "\n(timeout)"
	}
	return s
}

var unprivOnce sync.Once
var unpriv bool

// credential returns the attributes of an unprivileged user if processes may be started as such.
func credential() *syscall.SysProcAttr {
	unprivOnce.Do(func() {
		if os.Geteuid() != 0 {
			return
		}
		c := exec.Command("/bin/true")
		c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
		unpriv = c.Run() == nil
	})
	a := &syscall.SysProcAttr{Setpgid: true}
	if unpriv {
		a.Credential = &syscall.Credential{Uid: 65534, Gid: 65534, NoSetGroups: false}
	}
	return a
}

type limited struct {
	b   bytes.Buffer
	max int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < l.max {
		l.b.Write(p[:min(len(p), l.max-l.b.Len())])
	}
	return len(p), nil
}

// sh runs a script in a fresh empty directory with an empty environment. prep may populate the directory, look
// may inspect it afterwards.
func (l *lane) sh(script, stdin string, prep, look func(dir string)) run {
	dir, err := os.MkdirTemp(l.dir, "r")
	if err != nil {
		fatal("%v", err)
	}
	os.Chmod(dir, 0777)
	defer os.RemoveAll(dir)
	f := filepath.Join(l.dir, fmt.Sprintf("s%d.sh", l.id))
	os.WriteFile(f, []byte(script), 0755)
	if prep != nil {
		prep(dir)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 15*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, "/bin/bash", f)
	c.Dir = dir
	c.Env = []string{}
	c.Stdin = strings.NewReader(stdin)
	so, se := &limited{max: 1 << 20}, &limited{max: 1 << 16}
	c.Stdout, c.Stderr = so, se
	c.SysProcAttr = credential()
	c.Cancel = func() error { return syscall.Kill(-c.Process.Pid, syscall.SIGKILL) }
	c.WaitDelay = time.Second
	err = c.Run()
	r := run{Out: so.b.String(), Err: strings.ReplaceAll(se.b.String(), f, "SCRIPT")}
	if ctx.Err() != nil {
		r.Timeout = true
	}
	if x, ok := err.(*exec.ExitError); ok {
		r.Code = x.ExitCode()
	} else if err != nil && !r.Timeout {
		r.Code = -1
		r.Err += err.Error()
	}
	if look != nil {
		look(dir)
	}
	return r
}
