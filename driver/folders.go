package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"

	"ecksbee.com/telefacts/pkg/serializables"
)

func init() {
	setups["folders"] = setupFolders
	gens["folders"] = genFolders
}

// Creations of folders, see spec/Folders.tla.  The creators of a round are
// threads of a process of their own.  Unless the round is free, the process is
// traced: a creator stops before every call that concerns the file system,
// and goes on when the schedule names it; the process is killed or a call
// refused where the fault says so.

type creation struct {
	Key   string `json:"key"`
	Entry string `json:"entry"`
}

type creationFault struct {
	Who  int    `json:"who"` // creator, from 1; 0 is none
	At   int    `json:"at"`  // before its at-th call, from 1
	Kind string `json:"kind"`
}

type creationRound struct {
	Creators [][]creation  `json:"creators"`
	Sched    []int         `json:"sched"`
	Fault    creationFault `json:"fault"`
	Free     bool          `json:"free"`
}

type foldersIn struct {
	Rounds []creationRound `json:"rounds"`
}

type creationCall struct {
	Key     string `json:"key"`
	Entry   string `json:"entry"`
	From    int    `json:"from"`
	To      int    `json:"to"`
	Res     string `json:"res"`
	ID      string `json:"id"`
	Faulted bool   `json:"faulted"`
}

type createdFolder struct {
	ID    string `json:"id"`
	OK    bool   `json:"ok"`
	Entry string `json:"entry"`
}

type foldersOut struct {
	Crash   bool            `json:"crash"`
	Msg     string          `json:"msg"`
	Calls   []creationCall  `json:"calls"`
	Folders []createdFolder `json:"folders"`
	Count   map[string]int  `json:"count"`
}

const (
	markBegin = 7700
	markEnd   = 7701
	noteFd    = 3
)

// creators is the process of a round.
func creators() {
	var job struct {
		Dir      string
		Traced   bool
		Creators [][]creation
	}
	if err := json.NewDecoder(os.Stdin).Decode(&job); err != nil {
		fatal(err)
	}
	serializables.WorkingDirectoryPath = job.Dir
	var wg sync.WaitGroup
	for i, list := range job.Creators {
		wg.Add(1)
		go func() {
			defer wg.Done()
			runtime.LockOSThread()
			if job.Traced {
				// from here on the thread stops at its calls
				syscall.RawSyscall(syscall.SYS_TGKILL, uintptr(os.Getpid()), uintptr(syscall.Gettid()), uintptr(syscall.SIGUSR2))
			}
			for j, c := range list {
				at := uintptr(i<<16 | j)
				syscall.RawSyscall(syscall.SYS_GETPRIORITY, markBegin, at, 0)
				id, err := serializables.NewFolder(c.Key, serializables.Underscore{Entry: c.Entry, Note: "verif"})
				res := "ok"
				if errors.Is(err, fs.ErrExist) {
					res = "exists"
				} else if err != nil {
					res = "fail"
				}
				note, _ := json.Marshal([]any{i, j, res, id})
				syscall.Write(noteFd, append(note, '\n'))
				syscall.RawSyscall(syscall.SYS_GETPRIORITY, markEnd, at, 0)
			}
		}()
	}
	wg.Wait()
}

var fileCalls = map[uint64]string{
	syscall.SYS_ACCESS: "look", syscall.SYS_STAT: "look", syscall.SYS_LSTAT: "look", syscall.SYS_OPEN: "open", syscall.SYS_WRITE: "write",
	syscall.SYS_PWRITE64: "write", syscall.SYS_WRITEV: "write", syscall.SYS_FSYNC: "sync", syscall.SYS_FDATASYNC: "sync",
	syscall.SYS_TRUNCATE: "write", syscall.SYS_FTRUNCATE: "write", syscall.SYS_RENAME: "make", syscall.SYS_MKDIR: "make", syscall.SYS_RMDIR: "remove",
	syscall.SYS_CREAT: "make", syscall.SYS_LINK: "make", syscall.SYS_UNLINK: "remove", syscall.SYS_SYMLINK: "make", syscall.SYS_OPENAT: "open",
	syscall.SYS_MKDIRAT: "make", syscall.SYS_NEWFSTATAT: "look", syscall.SYS_UNLINKAT: "remove", syscall.SYS_RENAMEAT: "make",
	syscall.SYS_LINKAT: "make", syscall.SYS_SYMLINKAT: "make", syscall.SYS_FACCESSAT: "look", 316: "make", 332: "look", 439: "look",
	syscall.SYS_FLOCK: "look", syscall.SYS_GETDENTS64: "look",
}

var faultErrors = map[string]syscall.Errno{"eio": syscall.EIO, "enospc": syscall.ENOSPC, "eacces": syscall.EACCES, "emfile": syscall.EMFILE}

type tracedThread struct {
	traced  bool
	inside  bool
	creator int // from 1
	parked  string
	file    int // calls that concern files so far
	refuse  syscall.Errno
}

type tracer struct {
	pid     int
	threads map[int]*tracedThread
	of      map[int]int // creator -> thread
	ended   map[int]bool
	round   *creationRound
	calls   map[[2]int]*creationCall
	current map[int]int
	clock   *int
	gone    bool
	killed  bool
	status  syscall.WaitStatus
	count   map[string]int
}

func (t *tracer) resume(tid int, sig int) {
	if th := t.threads[tid]; th != nil && th.traced {
		syscall.PtraceSyscall(tid, sig)
	} else {
		syscall.PtraceCont(tid, sig)
	}
}

// pump handles what the threads report until done or nothing happens for a
// while; patience 0 waits.
func (t *tracer) pump(done func() bool, patience time.Duration) bool {
	begin := time.Now()
	idle := 0
	for !done() && !t.gone {
		var ws syscall.WaitStatus
		how := syscall.WALL | syscall.WNOHANG
		if patience == 0 {
			how = syscall.WALL
		}
		tid, err := syscall.Wait4(-1, &ws, how, nil)
		if err == syscall.ECHILD {
			t.gone = true
			break
		}
		if err != nil || tid <= 0 {
			if time.Since(begin) > patience {
				return false
			}
			idle++
			if idle > 200 {
				time.Sleep(50 * time.Microsecond)
			} else {
				runtime.Gosched()
			}
			continue
		}
		idle = 0
		t.stopped(tid, ws)
	}
	return done()
}

func (t *tracer) stopped(tid int, ws syscall.WaitStatus) {
	if ws.Exited() || ws.Signaled() {
		delete(t.threads, tid)
		if tid == t.pid {
			t.gone, t.status = true, ws
		}
		return
	}
	if !ws.Stopped() {
		return
	}
	th := t.threads[tid]
	if th == nil {
		th = &tracedThread{}
		t.threads[tid] = th
		if ws.StopSignal() == syscall.SIGSTOP {
			t.resume(tid, 0)
			return
		}
	}
	sig := ws.StopSignal()
	switch {
	case sig == syscall.SIGTRAP|0x80:
		var regs syscall.PtraceRegs
		if syscall.PtraceGetRegs(tid, &regs) != nil {
			return // being killed
		}
		th.inside = !th.inside
		if !th.inside {
			if th.refuse != 0 {
				regs.Rax = uint64(-int64(th.refuse))
				th.refuse = 0
				syscall.PtraceSetRegs(tid, &regs)
			}
			t.resume(tid, 0)
			return
		}
		if regs.Orig_rax == syscall.SYS_GETPRIORITY && (regs.Rdi == markBegin || regs.Rdi == markEnd) {
			creator, call := 1+int(regs.Rsi>>16), int(regs.Rsi&0xffff)
			th.creator = creator
			t.of[creator] = tid
			if regs.Rdi == markEnd {
				*t.clock++
				c := t.calls[[2]int{creator, call}]
				c.To = *t.clock
				if call+1 == len(t.round.Creators[creator-1]) {
					t.ended[creator] = true
				}
				t.current[creator] = -1
				t.resume(tid, 0)
				return
			}
			t.current[creator] = call
			th.parked = "begin"
			return
		}
		kind := fileCalls[regs.Orig_rax]
		if th.creator == 0 || kind == "" || (kind == "write" && regs.Rdi == noteFd) || t.ended[th.creator] || t.current[th.creator] < 0 {
			t.resume(tid, 0)
			return
		}
		if kind == "open" {
			flags := regs.Rdx
			if regs.Orig_rax == syscall.SYS_OPEN {
				flags = regs.Rsi
			}
			if flags&syscall.O_CREAT != 0 {
				kind = "make"
			} else {
				kind = "look"
			}
		}
		th.file++
		th.parked = kind
	case sig == syscall.SIGTRAP && ws.TrapCause() > 0:
		t.resume(tid, 0)
	case sig == syscall.SIGUSR2:
		th.traced = true
		t.resume(tid, 0)
	case sig == syscall.SIGSTOP || sig == syscall.SIGTRAP:
		t.resume(tid, 0)
	default:
		t.resume(tid, int(sig))
	}
}

// step lets a creator go on to its next stop.
func (t *tracer) step(creator int) {
	if t.gone || t.ended[creator] {
		return
	}
	tid := t.of[creator]
	th := t.threads[tid]
	if th == nil || th.parked == "" {
		// waits for another creator
		t.pump(func() bool { x := t.threads[t.of[creator]]; return x != nil && x.parked != "" || t.ended[creator] }, 20*time.Millisecond)
		th = t.threads[t.of[creator]]
		if t.gone || t.ended[creator] || th == nil || th.parked == "" {
			return
		}
	}
	call := t.calls[[2]int{creator, t.current[creator]}]
	kind := th.parked
	th.parked = ""
	t.count["steps"]++
	if kind == "begin" {
		*t.clock++
		call.From = *t.clock
	} else if f := t.round.Fault; f.Who == creator {
		if f.Kind == "kill" && th.file == f.At {
			t.count["kills"]++
			t.killed = true
			syscall.Kill(t.pid, syscall.SIGKILL)
			t.pump(func() bool { return t.gone }, 0)
			return
		}
		refuse := syscall.Errno(0)
		switch f.Kind {
		case "full", "short":
			if th.file >= f.At && (kind == "make" || kind == "write") {
				refuse = syscall.ENOSPC
			}
		default:
			if th.file == f.At {
				refuse = faultErrors[f.Kind]
			}
		}
		if refuse != 0 {
			var regs syscall.PtraceRegs
			if err := syscall.PtraceGetRegs(tid, &regs); err != nil {
				fatal("ptrace", err)
			}
			if f.Kind == "short" && th.file == f.At && kind == "write" {
				regs.Rdx /= 2
			} else {
				th.refuse = refuse
				regs.Orig_rax = ^uint64(0)
			}
			if err := syscall.PtraceSetRegs(tid, &regs); err != nil {
				fatal("ptrace", err)
			}
			t.count["refused"]++
			call.Faulted = true
		}
	}
	t.resume(tid, 0)
	t.pump(func() bool { return th.parked != "" || t.ended[creator] }, 20*time.Millisecond)
}

func playRound(dir string, round *creationRound, clock *int, out *foldersOut) {
	job, _ := json.Marshal(map[string]any{"Dir": dir, "Traced": !round.Free, "Creators": round.Creators})
	stdin, err := os.CreateTemp(filepath.Dir(dir), "job")
	if err != nil {
		fatal(err)
	}
	defer stdin.Close()
	stdin.Write(job)
	stdin.Seek(0, 0)
	notes, w, err := os.Pipe()
	if err != nil {
		fatal(err)
	}
	defer notes.Close()
	stderr, err := os.CreateTemp(filepath.Dir(dir), "stderr")
	if err != nil {
		fatal(err)
	}
	defer stderr.Close()
	attr := &os.ProcAttr{Dir: filepath.Dir(dir), Files: []*os.File{stdin, stderr, stderr, w},
		Env: append(os.Environ(), "GOMAXPROCS=12", "GOGC=off", "GODEBUG=asyncpreemptoff=1"),
		Sys: &syscall.SysProcAttr{Ptrace: !round.Free, Pdeathsig: syscall.SIGKILL}}
	p, err := os.StartProcess("/proc/self/exe", []string{"driver", "creators"}, attr)
	if err != nil {
		fatal(err)
	}
	w.Close()
	t := &tracer{pid: p.Pid, threads: map[int]*tracedThread{}, of: map[int]int{}, ended: map[int]bool{}, round: round,
		calls: map[[2]int]*creationCall{}, current: map[int]int{}, clock: clock, count: out.Count}
	order := []*creationCall{}
	for i, list := range round.Creators {
		for j, c := range list {
			call := &creationCall{Key: c.Key, Entry: c.Entry, Res: "killed"}
			t.calls[[2]int{i + 1, j}] = call
			order = append(order, call)
		}
	}
	if round.Free {
		*clock++
		for _, c := range order {
			c.From = *clock
		}
		var ws syscall.WaitStatus
		for {
			tid, err := syscall.Wait4(p.Pid, &ws, 0, nil)
			if err == syscall.EINTR {
				continue
			}
			if err != nil || tid != p.Pid {
				fatal("wait", err)
			}
			break
		}
		t.gone, t.status = true, ws
		*clock++
		for _, c := range order {
			c.To = *clock
		}
	} else {
		var ws syscall.WaitStatus
		if _, err := syscall.Wait4(p.Pid, &ws, syscall.WALL, nil); err != nil || !ws.Stopped() {
			fatal("traced process", err, ws)
		}
		// 0x100000: the process ends with its tracer
		if err := syscall.PtraceSetOptions(p.Pid, syscall.PTRACE_O_TRACECLONE|syscall.PTRACE_O_TRACESYSGOOD|0x100000); err != nil {
			fatal("ptrace", err)
		}
		t.threads[p.Pid] = &tracedThread{}
		t.resume(p.Pid, 0)
		ready := func() bool {
			for i := range round.Creators {
				th := t.threads[t.of[i+1]]
				if th == nil || th.parked == "" {
					return false
				}
			}
			return true
		}
		if !t.pump(ready, 0) {
			fatal("the creators did not begin")
		}
		for _, c := range round.Sched {
			if c >= 1 && c <= len(round.Creators) {
				t.step(c)
			}
		}
		begin := time.Now()
		for !t.gone && len(t.ended) < len(round.Creators) && time.Since(begin) < 10*time.Second {
			for i := range round.Creators {
				for !t.gone && !t.ended[i+1] {
					before := *clock + t.count["steps"]
					t.step(i + 1)
					if *clock+t.count["steps"] == before {
						break // waits for another
					}
				}
			}
		}
		if !t.gone && len(t.ended) < len(round.Creators) {
			out.Crash, out.Msg = true, "creations do not end"
			syscall.Kill(p.Pid, syscall.SIGKILL)
		}
		if !t.pump(func() bool { return t.gone }, 0) {
			fatal("the creators do not leave")
		}
	}
	p.Release()
	if !t.killed && !out.Crash && (!t.status.Exited() || t.status.ExitStatus() != 0) {
		text, _ := os.ReadFile(stderr.Name())
		if !blames(string(text)) {
			fatal("creators died", t.status, string(text))
		}
		out.Crash, out.Msg = true, head(string(text), 2000)
	}
	dec := json.NewDecoder(notes)
	for {
		var note []any
		if dec.Decode(&note) != nil {
			break
		}
		c := t.calls[[2]int{1 + int(note[0].(float64)), int(note[1].(float64))}]
		c.Res, c.ID = note[2].(string), note[3].(string)
	}
	*clock++
	for _, c := range order {
		if c.From == 0 {
			continue
		}
		if c.To == 0 {
			c.To = *clock
			c.Faulted = true
		}
		out.Calls = append(out.Calls, *c)
	}
}

func setupFolders() engine {
	room := rooms()
	runtime.LockOSThread()
	return func(line []byte) (any, error) {
		in := &foldersIn{}
		if err := json.Unmarshal(line, in); err != nil {
			return nil, err
		}
		dir := filepath.Join(room(), "wd")
		if err := os.MkdirAll(filepath.Join(dir, "folders"), 0o755); err != nil {
			fatal(err)
		}
		out := &foldersOut{Count: map[string]int{"steps": 0, "kills": 0, "refused": 0}}
		clock := 0
		for i := range in.Rounds {
			playRound(dir, &in.Rounds[i], &clock, out)
		}
		serializables.WorkingDirectoryPath = dir
		seen := map[string]bool{}
		for _, c := range out.Calls {
			if c.ID == "" || seen[c.ID] {
				continue
			}
			seen[c.ID] = true
			f := createdFolder{ID: c.ID}
			if crash := guarded(func() {
				entry, err := serializables.GetEntryFileName(c.ID)
				f.OK, f.Entry = err == nil, entry
			}); crash != "" {
				out.Crash, out.Msg = true, head(crash, 2000)
			}
			out.Folders = append(out.Folders, f)
		}
		solid(out)
		return out, nil
	}
}

// alike are two keys that differ in one place.
func alike(rng *rand.Rand) []string {
	n := 1 + rng.Intn(1<<uint(rng.Intn(13)))
	key := make([]rune, n)
	for i := range key {
		key[i] = []rune("aZ09-_ .:/é日\t%")[rng.Intn(14)]
	}
	other := append([]rune{}, key...)
	at := rng.Intn(n)
	switch rng.Intn(4) {
	case 0:
		other[at] = 'b'
	case 1:
		other = append(other[:at], other[at+1:]...)
	case 2:
		other[at] = other[at] ^ 0x20
	case 3:
		other = append(other, 'x')
	}
	return []string{string(key), string(other)}
}

func genFolders(seed int64, n int, out func(any)) {
	rng := rand.New(rand.NewSource(seed))
	alphabet := []string{"k", "k", "K", "k ", "", "", "kk", "é", "é", "k/k", "..", "_", "0", "null", strings.Repeat("long", 200), "k\n", "k\x00", "\"k\""}
	entries := []string{"e.xml", "", "e\"x\".xml", "e\\x.xml", "<e>&amp;.xml", "é .xml", "dir/e.xml", strings.Repeat("e", 5000), "{}", "null\n"}
	kinds := []string{"kill", "kill", "eio", "enospc", "eacces", "emfile", "full", "short"}
	for i := 0; i < n; i++ {
		in := &foldersIn{}
		number := 0
		pool := []string{"k"}
		for j := rng.Intn(4); j > 0; j-- {
			pool = append(pool, alphabet[rng.Intn(len(alphabet))])
		}
		if rng.Intn(3) == 0 {
			pool = append(pool, alike(rng)...)
		}
		call := func() creation {
			number++
			return creation{pool[rng.Intn(len(pool))], fmt.Sprintf("%d-%s", number, entries[rng.Intn(len(entries))])}
		}
		for r := 1 + rng.Intn(3); r > 0; r-- {
			round := creationRound{Free: rng.Intn(5) == 0}
			size := 1 + rng.Intn(3)
			if round.Free {
				size = 4 + rng.Intn(12)
			}
			for j := 0; j < size; j++ {
				list := []creation{}
				for k := 1 + rng.Intn(2); k > 0; k-- {
					list = append(list, call())
				}
				round.Creators = append(round.Creators, list)
			}
			for j := rng.Intn(40); j > 0; j-- {
				round.Sched = append(round.Sched, 1+rng.Intn(size))
			}
			if rng.Intn(2) == 0 && !round.Free {
				round.Fault = creationFault{1 + rng.Intn(size), 1 + rng.Intn(12), kinds[rng.Intn(len(kinds))]}
			}
			in.Rounds = append(in.Rounds, round)
		}
		last := creationRound{Creators: [][]creation{{}}}
		used := map[string]bool{}
		for _, k := range pool {
			if !used[k] {
				used[k] = true
				number++
				last.Creators[0] = append(last.Creators[0], creation{k, fmt.Sprintf("%d-last.xml", number)})
			}
		}
		in.Rounds = append(in.Rounds, last)
		solid(in)
		out(in)
	}
}
