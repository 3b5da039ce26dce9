package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"

	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"time"

	"ecksbee.com/telefacts/internal/web"
	"ecksbee.com/telefacts/pkg/cache"
	"ecksbee.com/telefacts/pkg/hydratables"
	gocache "github.com/patrickmn/go-cache"
)

func init() {
	setups["service"] = setupService
	gens["service"] = func(seed int64, n int, out func(any)) { genService(seed, n, out, false) }
	gens["service-http"] = func(seed int64, n int, out func(any)) { genService(seed, n, out, true) }
	gens["service-busy"] = genBusy
}

// Histories of requests, see spec/Service.tla.

type svcFolder struct {
	ID   string `json:"id"`
	Seed int    `json:"seed"`
	Kind string `json:"kind"`
}

// svcReq names a request: the n-th catalog, address, document or fact of a
// folder, as it is or bent.
type svcReq struct {
	K      string `json:"k"`
	F      int    `json:"f"`
	N      int    `json:"n"`
	Bent   string `json:"bent"`
	Via    string `json:"via"`
	Method string `json:"method"`
}

type svcStep struct {
	Reqs   []svcReq `json:"reqs"`
	Settle bool     `json:"settle"`
}

type svcIn struct {
	Folders []svcFolder `json:"folders"`
	Steps   []svcStep   `json:"steps"`
}

type svcAnswer struct {
	Status int    `json:"status"`
	Body   string `json:"body"`
	Len    int    `json:"len"`
}

type svcAnswered struct {
	Step     int       `json:"step"`
	Req      string    `json:"req"`
	Via      string    `json:"via"`
	Method   string    `json:"method"`
	Odd      bool      `json:"odd"`
	Got      svcAnswer `json:"got"`
	Fresh    svcAnswer `json:"fresh"`    // of an instance without cache
	Produced svcAnswer `json:"produced"` // without HTTP, too
}

type svcOut struct {
	Crash   bool           `json:"crash"`
	Msg     string         `json:"msg"`
	Races   int            `json:"races"`
	Answers []svcAnswered  `json:"answers"`
	Count   map[string]int `json:"count"`
}

// plainReq is what is really asked.
type plainReq struct {
	K, ID, A, B string
	Via, Method string
	Raw         string // path of an odd HTTP request
	Whole       bool   // return the bytes
}

func (r plainReq) name() string {
	return fmt.Sprintf("%s %q %q %q %s %s %q", r.K, r.ID, r.A, r.B, r.Via, r.Method, r.Raw)
}

type servedStep struct {
	Reqs   []plainReq
	Settle bool
}

type servedAnswer struct {
	Status int
	Body   string
	Len    int
	Whole  []byte
	Crash  string
}

type serveJob struct {
	WD, GTS string
	Dry     bool
	Steps   []servedStep
}

func answerOf(status int, body []byte, whole bool) servedAnswer {
	ret := servedAnswer{Status: status, Len: len(body)}
	if len(body) > 0 {
		sum := sha256.Sum256(body)
		ret.Body = hex.EncodeToString(sum[:8])
	}
	if whole {
		ret.Whole = append([]byte{}, body...)
	}
	return ret
}

func perform(r plainReq, router http.Handler) (ret servedAnswer) {
	defer func() {
		if x := recover(); x != nil {
			buf := make([]byte, 1<<16)
			stack := string(buf[:runtime.Stack(buf, false)])
			ret = servedAnswer{Crash: head(fmt.Sprint(x, "\n", stack), 3000)}
		}
	}()
	if r.Via == "api" {
		var data []byte
		var err error
		switch r.K {
		case "cat":
			data, err = cache.MarshalCatalog(r.ID)
		case "ren":
			data, err = cache.MarshalRenderable(r.ID, r.A)
		case "fact":
			data, err = cache.MarshalExpressable(r.ID, r.A, r.B)
		default:
			fatal("unknown request", r.K)
		}
		if err != nil {
			return servedAnswer{Status: 500}
		}
		return answerOf(200, data, r.Whole)
	}
	req, err := http.NewRequest(r.Method, "http://localhost"+target(r), nil)
	if err != nil {
		return servedAnswer{Status: 400}
	}
	rec := httptest.NewRecorder()
	router.ServeHTTP(rec, req)
	return answerOf(rec.Code, rec.Body.Bytes(), r.Whole)
}

func target(r plainReq) string {
	if r.Raw != "" {
		return r.Raw
	}
	path := "/folders/" + url.PathEscape(r.ID)
	switch r.K {
	case "ren":
		path += "/" + url.PathEscape(r.A)
	case "fact":
		path += "/facts?name=" + url.QueryEscape(r.A) + "&contextref=" + url.QueryEscape(r.B)
	}
	return path
}

// serve is the process of an instance; it answers step by step.
func serve() {
	var job serveJob
	if err := json.NewDecoder(os.Stdin).Decode(&job); err != nil {
		fatal(err)
	}
	answers := os.NewFile(3, "answers")
	appCache := cache.NewCache(job.Dry)
	dirs(job.WD, job.GTS)
	if appCache == nil {
		appCache = gocache.New(gocache.NoExpiration, gocache.NoExpiration)
	}
	hydratables.InjectCache(appCache)
	hydratables.HydrateEntityNames()
	hydratables.HydrateFundamentalSchema()
	hydratables.HydrateUnitTypeRegistry()
	router := web.NewRouter()
	base := runtime.NumGoroutine()
	for _, s := range job.Steps {
		got := make([]servedAnswer, len(s.Reqs))
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i, r := range s.Reqs {
			if len(s.Reqs) == 1 {
				got[i] = perform(r, router)
				continue
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				got[i] = perform(r, router)
			}()
		}
		close(start)
		wg.Wait()
		if s.Settle {
			settled(base)
		}
		b, err := json.Marshal(got)
		if err != nil {
			fatal(err)
		}
		answers.Write(append(b, '\n'))
	}
	settled(base)
}

const svcPatience = 20 * time.Second

// instance runs a job in a process of its own.
func instance(job serveJob, dir string) (answers [][]servedAnswer, crash string, races int) {
	cmd := exec.Command("/proc/self/exe", "serve")
	cmd.Dir = dir
	in, _ := json.Marshal(job)
	cmd.Stdin = bytes.NewReader(in)
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	cmd.Env = append(os.Environ(), "GORACE=exitcode=0 halt_on_error=0 atexit_sleep_ms=5")
	r, w, err := os.Pipe()
	if err != nil {
		fatal(err)
	}
	defer r.Close()
	cmd.ExtraFiles = []*os.File{w}
	if err := cmd.Start(); err != nil {
		fatal(err)
	}
	w.Close()
	done := make(chan struct{})
	go func() {
		select {
		case <-done:
		case <-time.After(svcPatience + time.Duration(len(job.Steps))*100*time.Millisecond):
			crash = "no answer in time"
			cmd.Process.Kill()
		}
	}()
	lines := bufio.NewReader(r)
	for {
		line, err := lines.ReadBytes('\n')
		if err == nil {
			var got []servedAnswer
			if err := json.Unmarshal(line, &got); err != nil {
				fatal(err)
			}
			answers = append(answers, got)
			for _, g := range got {
				if g.Crash != "" && crash == "" {
					if !blames(g.Crash) {
						fatal("panic in the driver: ", g.Crash)
					}
					crash = g.Crash
				}
			}
			continue
		}
		break
	}
	err = cmd.Wait()
	close(done)
	text := stderr.String()
	races = strings.Count(text, "WARNING: DATA RACE")
	if races > 0 && !blames(text) {
		fatal("race in the driver: ", head(text, 3000))
	}
	if races > 0 {
		raceText(text[strings.Index(text, "WARNING: DATA RACE"):])
	}
	if err != nil && crash == "" {
		if !blames(text) || strings.Contains(text, "driver:") {
			fatal("instance died: ", err, head(text, 3000))
		}
		crash = head(text, 3000)
	}
	return answers, crash, races
}

var lastRace string

func raceText(text string) {
	lastRace = head(text, 3000)
}

// worldFiling draws filings until one offers something to every request.
func worldFiling(seed int, id string, kind string) *Filing {
	if kind == "rich" {
		return richFiling(seed, id)
	}
	for i := 0; ; i++ {
		rng := rand.New(rand.NewSource(int64(seed)*1000 + int64(i)))
		p := profiles["mix"]
		p.name = "mix"
		f := randomFiling(rng, p)
		f.ID = id
		solid(f)
		if (kind == "plain") == f.Inline || (kind != "plain" && len(f.Tags) == 0) || len(f.Roles) < 2 || len(f.Pre) == 0 || len(f.Facts) < 4 {
			continue
		}
		f.Tag = fmt.Sprintf("world-%d", seed)
		return f
	}
}

// breakFolder spoils a folder in the way its kind says.
func breakFolder(f *Filing, kind string, dir string) {
	switch kind {
	case "good", "plain":
	case "rich":
		writeRich(f, dir)
	case "noentry":
		os.Remove(filepath.Join(dir, "entry.htm.xml"))
		os.Remove(filepath.Join(dir, "entry.xml"))
	case "badentry":
		writeFile(filepath.Join(dir, "entry.htm.xml"), "<xbrl")
		writeFile(filepath.Join(dir, "entry.htm"), "<html")
	case "badmeta":
		writeFile(filepath.Join(dir, "_"), "{")
	case "nofacts":
		writeFile(filepath.Join(dir, "entry.htm.xml"), xmlHead+`<xbrli:xbrl xmlns:xbrli="http://www.xbrl.org/2003/instance" `+xlinkNS+`></xbrli:xbrl>`)
	default:
		fatal("unknown kind of folder", kind)
	}
}

var slugPattern = regexp.MustCompile(`[0-9a-f]{32}`)

type svcWorld struct {
	filings []*Filing
	slugs   [][]string
}

func (w *svcWorld) plain(q svcReq) (plainReq, bool) {
	f := w.filings[q.F%len(w.filings)]
	slugs := w.slugs[q.F%len(w.filings)]
	r := plainReq{K: q.K, ID: f.ID, Via: q.Via, Method: q.Method}
	if r.Via == "" {
		r.Via = "http"
	}
	if r.Method == "" {
		r.Method = "GET"
	}
	switch q.K {
	case "cat":
	case "ren":
		if len(slugs) > 0 {
			r.A = slugs[q.N%len(slugs)]
		} else {
			r.A = "0123456789abcdef0123456789abcdef"
		}
	case "doc":
		r.K, r.A = "ren", "entry.htm"
		if !f.Inline {
			r.A = "entry.xml"
		}
	case "fact":
		tags := append(append([]Tag{}, f.Tags...), f.Queries...)
		if len(tags) > 0 {
			t := tags[q.N%len(tags)]
			r.A, r.B = inlineName(t.K), contextID(t.X)
		} else {
			r.A, r.B = "ix1:none", "none"
		}
	default:
		fatal("unknown request", q.K)
	}
	odd := false
	other := w.filings[(q.F+1)%len(w.filings)]
	swap := func(c string) {
		switch {
		case r.K == "fact":
			r.B = c
		case r.K == "ren":
			r.A = c
		default:
			r.ID = c
		}
	}
	switch q.Bent {
	case "":
	case "unknown":
		swap("unknown")
	case "upper":
		swap(strings.ToUpper(r.A + r.B))
	case "shift":
		// the boundary between two parts moves
		switch {
		case r.K == "fact" && len(r.B) > 1:
			r.A, r.B = r.A+r.B[:1], r.B[1:]
		case r.K == "ren" && len(r.A) > 1:
			r.ID, r.A = r.ID+r.A[:1], r.A[1:]
		default:
			odd = true
		}
	case "unshift":
		switch {
		case r.K == "fact" && len(r.A) > 1:
			r.A, r.B = r.A[:len(r.A)-1], r.A[len(r.A)-1:]+r.B
		case r.K == "ren" && len(r.ID) > 1:
			r.ID, r.A = r.ID[:len(r.ID)-1], r.ID[len(r.ID)-1:]+r.A
		case r.K == "cat" && len(r.ID) > 1:
			r.K, r.ID, r.A = "ren", r.ID[:1], r.ID[1:]
		default:
			odd = true
		}
	case "resplit":
		// a part ends at a separator it holds
		if i := strings.IndexFunc(r.A, isSeparator); r.K == "fact" && i > 0 {
			r.A, r.B = r.A[:i], r.A[i+1:]+r.A[i:i+1]+r.B
		} else if i := strings.IndexFunc(r.ID, isSeparator); i > 0 {
			sep := r.ID[i : i+1]
			if r.K == "cat" {
				r.K, r.ID, r.A = "ren", r.ID[:i], r.ID[i+1:]
			} else {
				r.ID, r.A = r.ID[:i], r.ID[i+1:]+sep+r.A
			}
		} else {
			odd = true
		}
	case "crossid":
		r.ID = other.ID
	case "asaddress":
		// what another request asks, as an address
		r.K, r.A, r.B = "ren", r.A, ""
		if q.K == "cat" || r.A == "" {
			r.A = "facts"
			odd = true
		}
	case "joined":
		odd = true
		if r.K == "cat" {
			r.ID += "/"
		} else {
			r.ID, r.A = r.ID+"/"+r.A, r.B
			if r.A == "" {
				r.K = "cat"
			}
		}
	case "faced":
		// a fact request whose parts hold separators
		odd = true
		r.K, r.A, r.B = "fact", r.A+":"+r.B, ""
	case "slash":
		odd = true
		r.Raw = target(r) + "/"
	case "double":
		odd = true
		r.Raw = strings.Replace(target(r), "/folders/", "/folders//", 1)
	case "dots":
		odd = true
		r.Raw = strings.Replace(target(r), "/folders/", "/folders/../folders/", 1)
	case "encoded":
		// escapes nothing needs
		if r.Via == "http" {
			r.Raw = strings.Replace(target(r), "/folders/"+url.PathEscape(r.ID), "/folders/"+percent(r.ID), 1)
		}
	case "extra":
		r.Raw = target(r)
		if strings.Contains(r.Raw, "?") {
			r.Raw += "&x=1"
		} else {
			r.Raw += "?x=1"
		}
	case "noargs":
		odd = true
		r.Raw = "/folders/" + url.PathEscape(r.ID) + "/facts"
	case "badquery":
		odd = true
		r.Raw = "/folders/" + url.PathEscape(r.ID) + "/facts?name=%zz;&contextref=%"
	case "percent":
		odd = true
		r.Raw = "/folders/" + url.PathEscape(r.ID) + "/facts?name=%25zz&contextref=c"
	case "root":
		odd = true
		r.Raw = "/folders"
	case "empty":
		odd = true
		r.ID = ""
	case "up":
		odd = true
		r.ID = ".."
	case "meta":
		swap("_")
	case "long":
		swap(strings.Repeat("a", 5000))
	case "nul":
		swap("a\x00b")
	case "colons":
		r.A, r.B = ":"+r.A+"::", r.B+":"
	case "entry":
		swap("entry.htm.xml")
	default:
		// "part:how" writes one part a little differently
		part, how, ok := strings.Cut(q.Bent, ":")
		if !ok {
			fatal("unknown bend", q.Bent)
		}
		switch part {
		case "id":
			r.ID = respell(r.ID, how)
		case "a":
			r.A = respell(r.A, how)
		case "b":
			r.B = respell(r.B, how)
		default:
			fatal("unknown part", q.Bent)
		}
		if r.ID == "" || (r.K == "ren" && r.A == "") || strings.Contains(r.ID+r.A, "/") || strings.ContainsAny(r.A+r.B, "%+") {
			odd = true
		}
	}
	if r.Raw != "" && r.Via == "api" {
		r.Raw = ""
	}
	return r, odd
}

func isSeparator(c rune) bool {
	return strings.ContainsRune(":|-_,.; ", c)
}

// respell writes a text in a way that some would take for the same.
func respell(s string, how string) string {
	switch how {
	case "padl":
		return " " + s
	case "padr":
		return s + " "
	case "tab":
		return s + "\t"
	case "upper":
		return strings.ToUpper(s)
	case "lower":
		return strings.ToLower(s)
	case "cut":
		return s[:len(s)*3/4]
	case "chop":
		return s[:max(len(s)-1, 0)]
	case "more":
		return s + "0"
	case "twice":
		return s + s
	case "local":
		return s[strings.IndexByte(s, ':')+1:]
	case "nul":
		return s + "\x00"
	case "hash":
		return s + "#"
	case "slash":
		return s + "/"
	case "plus":
		return s + "+"
	case "quote":
		return "\"" + s + "\""
	case "json":
		return s + ".json"
	case "none":
		return ""
	}
	fatal("unknown spelling", how)
	return ""
}

var respellings = []string{"padl", "padr", "tab", "upper", "lower", "cut", "chop", "more", "twice", "local", "nul", "hash", "slash", "plus", "quote", "json", "none"}

func percent(s string) string {
	var b strings.Builder
	for _, c := range []byte(s) {
		fmt.Fprintf(&b, "%%%02X", c)
	}
	return b.String()
}

func setupService() engine {
	room := rooms()
	want := parts()
	gts := filepath.Join(workHome(), "gts")
	writeGlobal(gts)
	return func(line []byte) (any, error) {
		in := &svcIn{}
		if err := json.Unmarshal(line, in); err != nil {
			return nil, err
		}
		top := room()
		wd := filepath.Join(top, "wd")
		w := &svcWorld{}
		out := &svcOut{Count: map[string]int{"answers": 0}}
		all := &Filing{}
		for _, f := range in.Folders {
			filing := worldFiling(f.Seed, f.ID, f.Kind)
			materialise(filing, wd)
			breakFolder(filing, f.Kind, filepath.Join(wd, "folders", f.ID))
			w.filings = append(w.filings, filing)
			all.Names = append(all.Names, filing.Names...)
		}
		writeNames(all, wd)
		crashed := func(text string) any {
			out.Crash, out.Msg = true, head(text, 2000)
			solid(out)
			return out
		}
		// addresses
		for _, f := range w.filings {
			got, crash, races := instance(serveJob{wd, gts, true, []servedStep{{Reqs: []plainReq{{K: "cat", ID: f.ID, Via: "api", Whole: true}}}}}, top)
			if crash != "" {
				return crashed(crash), nil
			}
			if races > 0 {
				out.Races, out.Msg = races, lastRace
			}
			slugs := []string{}
			seen := map[string]bool{}
			if len(got) == 1 && got[0][0].Status == 200 {
				for _, s := range slugPattern.FindAllString(string(got[0][0].Whole), -1) {
					if !seen[s] {
						seen[s] = true
						slugs = append(slugs, s)
					}
				}
			}
			w.slugs = append(w.slugs, slugs)
		}
		job := serveJob{WD: wd, GTS: gts}
		odds := [][]bool{}
		for _, s := range in.Steps {
			step := servedStep{Settle: s.Settle}
			odd := []bool{}
			for _, q := range s.Reqs {
				r, o := w.plain(q)
				step.Reqs = append(step.Reqs, r)
				odd = append(odd, o)
			}
			job.Steps = append(job.Steps, step)
			odds = append(odds, odd)
		}
		got, crash, races := instance(job, top)
		if races > 0 {
			out.Races, out.Msg = out.Races+races, lastRace
		}
		if crash != "" {
			return crashed(crash), nil
		}
		if len(got) != len(job.Steps) {
			fatal("steps without answers")
		}
		fresh := map[string]svcAnswer{}
		ask := func(r plainReq) (svcAnswer, string) {
			if a, ok := fresh[r.name()]; ok {
				return a, ""
			}
			got, crash, _ := instance(serveJob{wd, gts, true, []servedStep{{Reqs: []plainReq{r}}}}, top)
			if crash != "" {
				return svcAnswer{}, crash
			}
			a := svcAnswer{got[0][0].Status, got[0][0].Body, got[0][0].Len}
			fresh[r.name()] = a
			return a, ""
		}
		for i, s := range job.Steps {
			for j, r := range s.Reqs {
				out.Count["answers"]++
				if want["race"] {
					continue
				}
				g := got[i][j]
				a := svcAnswered{Step: i + 1, Req: r.K, Via: r.Via, Method: r.Method, Odd: odds[i][j], Got: svcAnswer{g.Status, g.Body, g.Len}}
				if a.Fresh, crash = ask(r); crash != "" {
					return crashed(crash), nil
				}
				p := r
				p.Via, p.Method, p.Raw = "api", "", ""
				if a.Produced, crash = ask(p); crash != "" {
					return crashed(crash), nil
				}
				out.Answers = append(out.Answers, a)
			}
		}
		solid(out)
		return out, nil
	}
}

var bends = []string{"unknown", "upper", "shift", "unshift", "resplit", "crossid", "asaddress", "joined", "faced", "meta", "long", "nul", "colons", "entry", "empty", "up"}

func init() {
	for _, part := range []string{"id", "a", "b"} {
		for _, how := range respellings {
			bends = append(bends, part+":"+how)
		}
	}
}

var httpBends = []string{"slash", "double", "dots", "encoded", "extra", "noargs", "badquery", "percent", "root"}

func genService(seed int64, n int, out func(any), overHTTP bool) {
	rng := rand.New(rand.NewSource(seed*7 + 1))
	ids := []string{"a", "ab", "aa", "b", "A", "facts", "catalog", "a b", "é", "a.htm", "hydratable", "folders", "a\"b", "0", "a:b", "a-b", "a_b", "a|b", "a,b"}
	kinds := []string{"good", "good", "rich", "rich", "plain", "noentry", "badentry", "badmeta", "nofacts"}
	methods := []string{"POST", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH", "TRACE", "get"}
	for i := 0; i < n; i++ {
		in := &svcIn{}
		perm := rng.Perm(len(ids))
		for j, k := 0, 1+rng.Intn(3); j < k; j++ {
			kind := []string{"good", "good", "rich"}[rng.Intn(3)]
			if j > 0 || rng.Intn(6) == 0 {
				kind = kinds[rng.Intn(len(kinds))]
			}
			in.Folders = append(in.Folders, svcFolder{ids[perm[j]], 1 + rng.Intn(40), kind})
			if rng.Intn(3) == 0 {
				in.Folders[j].Seed = in.Folders[0].Seed
			}
		}
		pool := []svcReq{}
		for j := 0; j < 4+rng.Intn(4); j++ {
			q := svcReq{K: []string{"cat", "ren", "ren", "doc", "fact", "fact"}[rng.Intn(6)], F: rng.Intn(len(in.Folders)), N: rng.Intn(6), Via: "api"}
			if overHTTP || rng.Intn(3) == 0 {
				q.Via = "http"
			}
			if rng.Intn(3) == 0 {
				q.Bent = bends[rng.Intn(len(bends))]
				if q.Via == "http" && rng.Intn(2) == 0 {
					q.Bent = httpBends[rng.Intn(len(httpBends))]
				}
			}
			if q.Via == "http" && rng.Intn(8) == 0 {
				q.Method = methods[rng.Intn(len(methods))]
			}
			pool = append(pool, q)
			// its neighbours, too
			if rng.Intn(2) == 0 {
				q.Bent = bends[rng.Intn(len(bends))]
				pool = append(pool, q)
			}
		}
		for j := 2 + rng.Intn(5); j > 0; j-- {
			s := svcStep{Settle: rng.Intn(2) == 0}
			k := 1
			if rng.Intn(2) == 0 {
				k = 2 + rng.Intn(4)
			}
			for ; k > 0; k-- {
				s.Reqs = append(s.Reqs, pool[rng.Intn(len(pool))])
			}
			in.Steps = append(in.Steps, s)
		}
		solid(in)
		out(in)
	}
}

// genBusy asks for much at the same time.
func genBusy(seed int64, n int, out func(any)) {
	rng := rand.New(rand.NewSource(seed*7 + 2))
	kinds := []string{"good", "good", "rich", "rich", "plain", "nofacts"}
	for i := 0; i < n; i++ {
		in := &svcIn{}
		for j, k := 0, 1+rng.Intn(2); j < k; j++ {
			in.Folders = append(in.Folders, svcFolder{[]string{"a", "b"}[j], 1 + rng.Intn(400), kinds[rng.Intn(len(kinds))]})
		}
		for j := 1 + rng.Intn(3); j > 0; j-- {
			s := svcStep{Settle: rng.Intn(3) == 0}
			for k := 3 + rng.Intn(6); k > 0; k-- {
				s.Reqs = append(s.Reqs, svcReq{K: []string{"cat", "ren", "ren", "doc", "fact", "fact"}[rng.Intn(6)], F: rng.Intn(len(in.Folders)), N: rng.Intn(6), Via: []string{"api", "http"}[rng.Intn(2)]})
			}
			in.Steps = append(in.Steps, s)
		}
		solid(in)
		out(in)
	}
}
