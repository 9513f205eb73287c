// Command drv exercises the real code of /repo through its exported API and
// reports what it did as JSON lines.  It judges nothing: every verdict is taken
// by TLC from these lines.
//
//	drv pool [-j N] [-timeout SECONDS] [-mod P]   requests on stdin, replies on stdout
//	drv worker [-mod P]                           one worker of the pool
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	bn256 "github.com/mottla/go-AlgebraicProgram-SNARK/pairing"
)

type Req map[string]json.RawMessage

func (r Req) str(k string) string {
	var s string
	if v, ok := r[k]; ok {
		if err := json.Unmarshal(v, &s); err != nil {
			panic("driver: bad string field " + k)
		}
	}
	return s
}
func (r Req) num(k string, def int) int {
	n := def
	if v, ok := r[k]; ok {
		if err := json.Unmarshal(v, &n); err != nil {
			panic("driver: bad int field " + k)
		}
	}
	return n
}
func (r Req) flag(k string) bool {
	b := false
	if v, ok := r[k]; ok {
		if err := json.Unmarshal(v, &b); err != nil {
			panic("driver: bad bool field " + k)
		}
	}
	return b
}
func (r Req) get(k string, into interface{}) {
	v, ok := r[k]
	if !ok {
		return
	}
	if err := json.Unmarshal(v, into); err != nil {
		panic("driver: bad field " + k + ": " + err.Error())
	}
}

type Rep map[string]interface{}

var handlers = map[string]func(Req) Rep{}

// guard runs f and turns a panic of the code under test into a value.
func guard(f func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			s := fmt.Sprint(e)
			if strings.HasPrefix(s, "driver:") {
				panic(e)
			}
			msg = "panic: " + clip(s)
		}
	}()
	f()
	return ""
}

func clip(s string) string {
	if len(s) > 400 {
		s = s[:400]
	}
	return s
}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	mod := fs.String("mod", "", "replace the scalar field order by this prime")
	fs.Parse(args)
	debug.SetMaxStack(256 << 20)
	out := os.Stdout
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	os.Stdout = null
	if *mod != "" {
		bn256.Order.SetString(*mod, 10)
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	w := bufio.NewWriter(out)
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 1 {
			var r Req
			if e := json.Unmarshal(line, &r); e != nil {
				panic("driver: bad request: " + e.Error())
			}
			h, ok := handlers[r.str("cmd")]
			if !ok {
				panic("driver: unknown command " + r.str("cmd"))
			}
			rep := h(r)
			b, e := json.Marshal(rep)
			if e != nil {
				panic(e)
			}
			w.Write(b)
			w.WriteByte('\n')
			w.Flush()
		}
		if err != nil {
			return
		}
	}
}

type job struct {
	idx  int
	line []byte
}

type child struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	stderr *tail
	raw    io.ReadCloser
}

// tail keeps the head of what a worker wrote to its error stream.
type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 4096 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

func spawn(mod string) *child {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	c := &child{cmd: exec.Command(self, "worker", "-mod", mod), stderr: &tail{}}
	c.cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GOMEMLIMIT=2500MiB")
	c.in, err = c.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	c.raw, err = c.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	c.cmd.Stderr = c.stderr
	c.out = bufio.NewReaderSize(c.raw, 1<<20)
	if err := c.cmd.Start(); err != nil {
		panic(err)
	}
	return c
}

func (c *child) stop() {
	c.in.Close()
	if os.Getenv("GOCOVERDIR") != "" { // coverage is written at the end of the process
		time.AfterFunc(3*time.Second, func() { c.cmd.Process.Kill() })
	} else {
		c.cmd.Process.Kill()
	}
	c.cmd.Wait()
}

func pool(args []string) {
	fs := flag.NewFlagSet("pool", flag.ExitOnError)
	n := fs.Int("j", 8, "workers")
	to := fs.Float64("timeout", 30, "seconds per request")
	mod := fs.String("mod", "", "field order")
	fresh := fs.Bool("fresh", false, "one process per request")
	fs.Parse(args)
	jobs := make(chan job)
	type res struct {
		idx  int
		line []byte
	}
	results := make(chan res, 64)
	var wg sync.WaitGroup
	for i := 0; i < *n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var c *child
			for j := range jobs {
				if c == nil {
					c = spawn(*mod)
				}
				line, dead := c.run(j.line, time.Duration(*to*float64(time.Second)))
				if dead || *fresh {
					c.stop()
					c = nil
				}
				results <- res{j.idx, line}
			}
			if c != nil {
				c.stop()
			}
		}()
	}
	go func() {
		in := bufio.NewReaderSize(os.Stdin, 1<<20)
		for i := 0; ; {
			line, err := in.ReadBytes('\n')
			if len(line) > 1 {
				if line[len(line)-1] != '\n' {
					line = append(line, '\n')
				}
				jobs <- job{i, line}
				i++
			}
			if err != nil {
				break
			}
		}
		close(jobs)
		wg.Wait()
		close(results)
	}()
	pend := map[int][]byte{}
	next := 0
	w := bufio.NewWriter(os.Stdout)
	for r := range results {
		pend[r.idx] = r.line
		for {
			l, ok := pend[next]
			if !ok {
				break
			}
			w.Write(l)
			delete(pend, next)
			next++
		}
	}
	w.Flush()
}

func (c *child) run(line []byte, limit time.Duration) (rep []byte, dead bool) {
	type r struct {
		b   []byte
		err error
	}
	ch := make(chan r, 1)
	go func() {
		if _, err := c.in.Write(line); err != nil {
			// the worker is gone: reading tells why
		}
		b, err := c.out.ReadBytes('\n')
		ch <- r{b, err}
	}()
	select {
	case x := <-ch:
		if x.err != nil {
			c.cmd.Process.Kill()
			err := c.cmd.Wait()
			b, _ := json.Marshal(Rep{"crash": crashText(c.stderr.String()), "exit": fmt.Sprint(err)})
			return append(b, '\n'), true
		}
		return x.b, false
	case <-time.After(limit):
		b, _ := json.Marshal(Rep{"timeout": true})
		return append(b, '\n'), true
	}
}

// crashText keeps the line that says why the runtime gave up.
func crashText(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "runtime:") {
			return clip(l)
		}
	}
	return clip(s)
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: drv pool|worker")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		worker(os.Args[2:])
	case "pool":
		pool(os.Args[2:])
	default:
		os.Exit(2)
	}
}
