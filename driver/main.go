// verifdriver runs scenarios on the real packages and writes down what they
// do.  It is compiled into the module with an overlay.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime/debug"
	"strings"
	"sync"
	"time"
)

func fatal(args ...any) {
	fmt.Fprintln(os.Stderr, append([]any{"driver:"}, args...)...)
	os.Exit(3)
}

// An engine answers one scenario line with one event line.
type engine func(line []byte) (any, error)

// setups are called once in every worker and return its engine.
var setups = map[string]func() engine{}

// gens write scenarios.
var gens = map[string]func(seed int64, n int, out func(any)){}

var opts string

func main() {
	if len(os.Args) < 2 {
		fatal("no command")
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	mode := fs.String("mode", "", "engine")
	par := fs.Int("par", 8, "workers")
	limit := fs.Duration("limit", 60*time.Second, "time limit of one scenario")
	in := fs.String("in", "", "scenario file")
	out := fs.String("out", "", "event file")
	seed := fs.Int64("seed", 1, "seed")
	n := fs.Int("n", 100, "number of scenarios")
	fs.StringVar(&opts, "opts", "", "options of the engine")
	fs.Parse(os.Args[2:])
	switch cmd {
	case "gen":
		g := gens[*mode]
		if g == nil {
			fatal("unknown generator", *mode)
		}
		f, err := os.Create(*out)
		if err != nil {
			fatal(err)
		}
		w := bufio.NewWriter(f)
		g(*seed, *n, func(v any) {
			b, err := json.Marshal(v)
			if err != nil {
				fatal(err)
			}
			w.Write(append(b, '\n'))
		})
		if w.Flush() != nil || f.Close() != nil {
			fatal("cannot write", *out)
		}
	case "run":
		supervise(*mode, *par, *limit, *in, *out)
	case "worker":
		work(*mode)
	case "serve":
		serve()
	case "creators":
		creators()
	default:
		fatal("unknown command", cmd)
	}
}

// work answers the scenarios on stdin through file descriptor 3; stdout
// belongs to the code under test.
func work(mode string) {
	setup := setups[mode]
	if setup == nil {
		fatal("unknown engine", mode)
	}
	e := setup()
	answers := os.NewFile(3, "answers")
	r := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := r.ReadBytes('\n')
		if len(line) > 0 {
			v, err := e(line)
			if err != nil {
				fatal(err)
			}
			b, err := json.Marshal(v)
			if err != nil {
				fatal(err)
			}
			if _, err := answers.Write(append(b, '\n')); err != nil {
				fatal(err)
			}
		}
		if err != nil {
			if err == io.EOF {
				return
			}
			fatal(err)
		}
	}
}

// guarded runs f and turns a panic of the code under test into a message.
func guarded(f func()) (crash string) {
	defer func() {
		if r := recover(); r != nil {
			stack := string(debug.Stack())
			if !blames(stack) {
				fatal("panic in the driver: ", r, stack)
			}
			crash = fmt.Sprint(r) + "\n" + stack
		}
	}()
	f()
	return ""
}

// blames tells whether a stack goes through the code under test.
func blames(stack string) bool {
	return strings.Contains(stack, "ecksbee.com/telefacts/pkg/") || strings.Contains(stack, "ecksbee.com/telefacts/internal/")
}

type child struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	outf   *os.File
	stderr *bytes.Buffer
	home   string
}

func startChild(mode string, raceLog string) *child {
	home, err := os.MkdirTemp("", "verif-work-")
	if err != nil {
		fatal(err)
	}
	c := &child{stderr: &bytes.Buffer{}, home: home}
	c.cmd = exec.Command("/proc/self/exe", "worker", "-mode", mode, "-opts", opts)
	c.cmd.Dir = home
	c.cmd.Env = append(os.Environ(), "VERIF_HOME="+home, "GOTRACEBACK=all")
	c.cmd.Stderr = c.stderr
	c.in, err = c.cmd.StdinPipe()
	if err != nil {
		fatal(err)
	}
	r, w, err := os.Pipe()
	if err != nil {
		fatal(err)
	}
	c.cmd.ExtraFiles = []*os.File{w}
	c.outf = r
	c.out = bufio.NewReaderSize(r, 1<<20)
	if err := c.cmd.Start(); err != nil {
		fatal(err)
	}
	w.Close()
	return c
}

func (c *child) stop(kill bool) {
	c.in.Close()
	if kill {
		c.cmd.Process.Kill()
	}
	c.cmd.Wait()
	c.outf.Close()
	if strings.HasPrefix(c.home, os.TempDir()) && strings.Contains(c.home, "verif-work-") {
		os.RemoveAll(c.home)
	}
}

// ask sends a scenario; crash tells that the worker died in the code under
// test, hang that it did not answer.
func (c *child) ask(line []byte, limit time.Duration) (answer []byte, crash string, hang bool) {
	type reply struct {
		b   []byte
		err error
	}
	ch := make(chan reply, 1)
	go func() {
		c.in.Write(append(append([]byte{}, line...), '\n'))
		b, err := c.out.ReadBytes('\n')
		ch <- reply{b, err}
	}()
	select {
	case r := <-ch:
		if r.err == nil {
			return bytes.TrimSpace(r.b), "", false
		}
		c.cmd.Wait()
		text := c.stderr.String()
		if (strings.Contains(text, "panic:") || strings.Contains(text, "fatal error:") || strings.Contains(text, "goroutine stack exceeds")) && blames(text) && !strings.Contains(text, "driver:") {
			return nil, text, false
		}
		fatal("worker died: ", head(text, 3000))
	case <-time.After(limit):
		return nil, "", true
	}
	return nil, "", false
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// supervise spreads the scenarios over worker processes.  A worker that dies
// or hangs in the code under test is an observation, not an error.
func supervise(mode string, par int, limit time.Duration, in string, out string) {
	f, err := os.Open(in)
	if err != nil {
		fatal(err)
	}
	var lines [][]byte
	r := bufio.NewReaderSize(f, 1<<20)
	for {
		line, err := r.ReadBytes('\n')
		line = bytes.TrimSpace(line)
		if len(line) > 0 {
			lines = append(lines, line)
		}
		if err != nil {
			break
		}
	}
	f.Close()
	type event struct {
		In    json.RawMessage `json:"in"`
		Out   json.RawMessage `json:"out"`
		Crash bool            `json:"crash"`
		Hang  bool            `json:"hang"`
		Msg   string          `json:"msg"`
	}
	events := make([][]byte, len(lines))
	next, deaths := 0, 0
	var lock sync.Mutex
	var wg sync.WaitGroup
	for i := 0; i < par; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var c *child
			for {
				lock.Lock()
				i := next
				if i >= len(lines) {
					lock.Unlock()
					break
				}
				next++
				line := lines[i]
				lock.Unlock()
				if c == nil {
					c = startChild(mode, "")
				}
				answer, crash, hang := c.ask(line, limit)
				if hang {
					// once more, alone in a fresh process and with more time
					c.stop(true)
					c = startChild(mode, "")
					answer, crash, hang = c.ask(line, 2*limit)
				}
				e := event{In: line, Out: json.RawMessage(`{}`), Crash: crash != "", Hang: hang, Msg: head(crash, 4000)}
				if crash != "" || hang {
					c.stop(true)
					c = nil
					// enough to judge: the scenarios not yet begun are left out
					lock.Lock()
					if deaths++; deaths >= 3 || hang {
						lines = lines[:min(next, len(lines))]
					}
					lock.Unlock()
				} else {
					// an answer is {"in":…,"out":…} or just the observation
					var whole struct {
						In  json.RawMessage `json:"in"`
						Out json.RawMessage `json:"out"`
					}
					if json.Unmarshal(answer, &whole) == nil && whole.In != nil && whole.Out != nil {
						e.In, e.Out = whole.In, whole.Out
					} else {
						e.Out = answer
					}
				}
				b, err := json.Marshal(e)
				if err != nil {
					fatal(err)
				}
				events[i] = b
			}
			if c != nil {
				c.stop(false)
			}
		}()
	}
	wg.Wait()
	o, err := os.Create(out)
	if err != nil {
		fatal(err)
	}
	w := bufio.NewWriter(o)
	for _, e := range events[:len(lines)] {
		w.Write(append(e, '\n'))
	}
	if w.Flush() != nil || o.Close() != nil {
		fatal("cannot write", out)
	}
}
