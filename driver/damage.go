package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"syscall"
	"time"

	"ecksbee.com/telefacts/internal/web"
	"ecksbee.com/telefacts/pkg/cache"
	"ecksbee.com/telefacts/pkg/hydratables"
)

func init() {
	setups["damage"] = setupDamage
	gens["damage"] = genDamage
}

// Folders that were damaged, see spec/Damage.tla.

type damageOp struct {
	Op string `json:"op"`
	At int    `json:"at"` // which file, tag, attribute, text
	V  int    `json:"v"`  // which value
}

type damageIn struct {
	Seed    int        `json:"seed"`
	Kind    string     `json:"kind"`
	Ops     []damageOp `json:"ops"`
	Request svcReq     `json:"request"` // a bent request, if any
}

type damageOut struct {
	Crash  bool           `json:"crash"`
	Msg    string         `json:"msg"`
	Before []svcAnswer    `json:"before"`
	After  []svcAnswer    `json:"after"`
	What   string         `json:"what"` // digest of the damaged folder, empty if it is as it was
	Count  map[string]int `json:"count"`
}

var (
	tagPattern  = regexp.MustCompile(`<[^<>]+>`)
	attrPattern = regexp.MustCompile(`\s[\w:.-]+="[^"]*"`)
	textPattern = regexp.MustCompile(`>[^<>]*[^<>\s][^<>]*<`)
)

type spot struct {
	file     string
	from, to int
}

func spots(files []string, pattern *regexp.Regexp, keep func(string) bool) []spot {
	ret := []spot{}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, m := range pattern.FindAllIndex(b, -1) {
			if keep == nil || keep(string(b[m[0]:m[1]])) {
				ret = append(ret, spot{f, m[0], m[1]})
			}
		}
	}
	return ret
}

func (s spot) text() string {
	b, err := os.ReadFile(s.file)
	if err != nil {
		fatal(err)
	}
	return string(b[s.from:s.to])
}

func (s spot) replace(text string) {
	b, err := os.ReadFile(s.file)
	if err != nil {
		fatal(err)
	}
	if err := os.WriteFile(s.file, []byte(string(b[:s.from])+text+string(b[s.to:])), 0o644); err != nil {
		fatal(err)
	}
}

// subtree is the element that begins with a tag.
func subtree(s spot) spot {
	b, err := os.ReadFile(s.file)
	if err != nil {
		fatal(err)
	}
	if strings.HasSuffix(string(b[s.from:s.to]), "/>") {
		return s
	}
	depth := 0
	for _, m := range tagPattern.FindAllIndex(b[s.from:], -1) {
		t := string(b[s.from+m[0] : s.from+m[1]])
		switch {
		case strings.HasPrefix(t, "</"):
			depth--
		case strings.HasPrefix(t, "<?") || strings.HasPrefix(t, "<!") || strings.HasSuffix(t, "/>"):
		default:
			depth++
		}
		if depth == 0 {
			return spot{s.file, s.from, s.from + m[1]}
		}
	}
	return s
}

func opening(t string) bool {
	return !strings.HasPrefix(t, "</") && !strings.HasPrefix(t, "<?") && !strings.HasPrefix(t, "<!")
}

// filesOf lists the files of a folder.
func filesOf(dir string) []string {
	ret := []string{}
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err == nil && info.Mode().IsRegular() {
			ret = append(ret, p)
		}
		return nil
	})
	sort.Strings(ret)
	return ret
}

func digest(dir string) string {
	sum := sha256.New()
	for _, f := range filesOf(dir) {
		b, _ := os.ReadFile(f)
		fmt.Fprintf(sum, "%s %d ", strings.TrimPrefix(f, dir), len(b))
		sum.Write(b)
	}
	return hex.EncodeToString(sum.Sum(nil)[:8])
}

func damage(dir string, op damageOp) {
	files := filesOf(dir)
	if len(files) == 0 {
		return
	}
	pick := func(list []spot) (spot, bool) {
		if len(list) == 0 {
			return spot{}, false
		}
		return list[op.At%len(list)], true
	}
	file := files[op.At%len(files)]
	read := func() []byte {
		b, err := os.ReadFile(file)
		if err != nil {
			fatal(err)
		}
		return b
	}
	switch op.Op {
	case "rmfile":
		os.Remove(file)
	case "dirfile":
		os.Remove(file)
		os.Mkdir(file, 0o755)
	case "content":
		contents := []string{"", "\n", "x", "<", "<a>", "<a/>", "<?xml version=\"1.0\"?>", "{}", "null", "[]", "{\"Entry\":1}", "\x00", "\xef\xbb\xbf<a/>", "\xff\xfe<\x00a\x00/\x00>\x00",
			"<?xml version=\"1.0\" encoding=\"utf-16\"?><a/>", "<?xml version=\"1.0\" encoding=\"x\"?><a/>", "<!DOCTYPE a [<!ENTITY e \"e\">]><a>&e;</a>",
			strings.Repeat("<a>", 20000), strings.Repeat("<a>", 20000) + strings.Repeat("</a>", 20000), "<xbrl/>", "<schema/>", "<linkbase/>", "<html/>",
			"<xbrli:xbrl xmlns:xbrli=\"http://www.xbrl.org/2003/instance\"/>", "<html xmlns=\"http://www.w3.org/1999/xhtml\"><body/></html>", "{\"Entry\":\"_\"}", "{\"Entry\":\"\"}", "{\"Entry\":\".htm\"}", "{\"Entry\":\"s1.xsd\"}", "{\"Entry\":\"entry.xhtml\"}"}
		os.WriteFile(file, []byte(contents[op.V%len(contents)]), 0o644)
	case "copyfile":
		// the content of another file
		other := files[(op.At+1+op.V)%len(files)]
		b, err := os.ReadFile(other)
		if err == nil {
			os.WriteFile(file, b, 0o644)
		}
	case "trunc":
		b := read()
		os.WriteFile(file, b[:len(b)*(op.V%64)/64], 0o644)
	case "byte":
		b := read()
		if len(b) > 0 {
			b[(op.V*7919)%len(b)] = []byte{'<', '>', '&', '"', 0, 0xff, ' ', '/'}[op.V%8]
			os.WriteFile(file, b, 0o644)
		}
	case "deltag":
		if s, ok := pick(spots(files, tagPattern, nil)); ok {
			s.replace("")
		}
	case "deltree":
		if s, ok := pick(spots(files, tagPattern, opening)); ok {
			subtree(s).replace("")
		}
	case "duptree":
		if s, ok := pick(spots(files, tagPattern, opening)); ok {
			t := subtree(s)
			t.replace(t.text() + t.text())
		}
	case "nest":
		// an element around or inside itself
		if s, ok := pick(spots(files, tagPattern, opening)); ok && !strings.HasSuffix(s.text(), "/>") {
			t := subtree(s)
			whole := t.text()
			t.replace(s.text() + whole + whole[len(s.text()):])
		}
	case "hollow":
		if s, ok := pick(spots(files, tagPattern, opening)); ok && !strings.HasSuffix(s.text(), "/>") {
			subtree(s).replace(strings.TrimSuffix(s.text(), ">") + "/>")
		}
	case "bare":
		// an element without attributes
		if s, ok := pick(spots(files, tagPattern, opening)); ok {
			s.replace(attrPattern.ReplaceAllString(s.text(), ""))
		}
	case "retag":
		names := []string{"x", "xbrli:xbrl", "link:loc", "link:label", "xbrli:context", "xbrli:entity", "link:presentationArc", "xs:element", "xs:import", "xbrldi:typedMember", "a:b", "link:footnoteLink", "ix:nonFraction"}
		if s, ok := pick(spots(files, tagPattern, opening)); ok {
			t := s.text()
			end := strings.IndexAny(t[1:], " \n\t/>") + 1
			s.replace("<" + names[op.V%len(names)] + t[end:])
		}
	case "delattr":
		if s, ok := pick(spots(files, attrPattern, nil)); ok {
			s.replace("")
		}
	case "attr":
		list := spots(files, attrPattern, nil)
		if s, ok := pick(list); ok {
			t := s.text()
			eq := strings.Index(t, "=")
			other := list[(op.At+op.V)%len(list)].text()
			other = other[strings.Index(other, "=")+2 : len(other)-1]
			s.replace(t[:eq] + `="` + attrValue(op.V, t[eq+2:len(t)-1], other, filepath.Base(s.file)) + `"`)
		}
	case "attrname":
		if s, ok := pick(spots(files, attrPattern, nil)); ok {
			t := s.text()
			names := []string{"x", "id", "xmlns", "xlink:href", "xmlns:xlink", "name", "order", "contextRef"}
			s.replace(" " + names[op.V%len(names)] + t[strings.Index(t, "="):])
		}
	case "text":
		if s, ok := pick(spots(files, textPattern, nil)); ok {
			t := s.text()
			s.replace(">" + attrValue(op.V, t[1:len(t)-1], "other", filepath.Base(s.file)) + "<")
		}
	case "extra":
		extras := []string{"s1.xsd/x", "names.json", "pic.png", "a.htm", "é.xml", "entry.htm.xml.xml", "_.xml"}
		writeFileSoft(filepath.Join(dir, extras[op.V%len(extras)]), "\x89PNG\r\n\x1a\n")
	default:
		fatal("unknown damage", op.Op)
	}
}

func writeFileSoft(path string, text string) {
	os.MkdirAll(filepath.Dir(path), 0o755)
	os.WriteFile(path, []byte(text), 0o644)
}

func attrValue(n int, old string, other string, file string) string {
	switch n % 32 {
	case 0:
		return ""
	case 1:
		return "x"
	case 2:
		return "#"
	case 3:
		return "#x"
	case 4:
		return "-1"
	case 5:
		return "1e309"
	case 6:
		return "NaN"
	case 7:
		return "nosuch.xsd#y"
	case 8:
		return file
	case 9:
		return file + "#" + old
	case 10:
		return "http://nosuch.example.com/x.xsd"
	case 11:
		return "http://nosuch.example.com/x.xsd#y"
	case 12:
		return ":"
	case 13:
		return "a:b:c"
	case 14:
		return " "
	case 15:
		return strings.Repeat("x", 20000)
	case 16:
		return other
	case 17:
		return old + old
	case 18:
		return old[:len(old)/2]
	case 19:
		return strings.ToUpper(old)
	case 20:
		return "%zz"
	case 21:
		return "://"
	case 22:
		return "INF"
	case 23:
		return "99999999999999999999999999"
	case 24:
		return ":" + old
	case 25:
		return old + ":"
	case 26:
		return "/"
	case 27:
		return "#" + old
	case 28:
		return "."
	case 29:
		return "0.000000000000000000000000000000000000001"
	case 30:
		return "&#x10FFFF;"
	}
	return " " + old + " "
}

// unsound answers for a service that dies of a sound folder already.
func unsound(crash string) engine {
	return func([]byte) (any, error) {
		out := &damageOut{Crash: true, Msg: head(crash, 2000)}
		solid(out)
		return out, nil
	}
}

func setupDamage() engine {
	// a folder that makes the service eat all memory kills this process only
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30})
	home := workHome()
	wd := filepath.Join(home, "wd")
	gts := filepath.Join(home, "gts")
	writeGlobal(gts)
	dirs(wd, gts)
	healthy := worldFiling(5, "healthy", "good")
	materialise(healthy, wd)
	writeNames(healthy, wd)
	world := &svcWorld{filings: []*Filing{healthy}, slugs: [][]string{nil}}
	// an instance that never sees a damaged folder says what is right
	ask := []plainReq{{K: "cat", ID: "healthy", Via: "api", Whole: true}}
	first, crash, _ := instance(serveJob{wd, gts, true, []servedStep{{Reqs: ask}}}, home)
	if crash != "" {
		return unsound(crash)
	}
	if first[0][0].Status != 200 {
		fatal("the healthy folder is not served")
	}
	world.slugs[0] = slugPattern.FindAllString(string(first[0][0].Whole), -1)
	reqs := []plainReq{}
	for _, q := range []svcReq{{K: "cat", Via: "http"}, {K: "ren", Via: "http"}, {K: "doc", Via: "http"}, {K: "fact", Via: "http"}} {
		r, _ := world.plain(q)
		reqs = append(reqs, r)
	}
	steps := []servedStep{}
	for _, r := range reqs {
		steps = append(steps, servedStep{Reqs: []plainReq{r}})
	}
	right, crash, _ := instance(serveJob{wd, gts, true, steps}, home)
	if crash != "" {
		return unsound(crash)
	}
	before := []svcAnswer{}
	for _, r := range right {
		before = append(before, svcAnswer{r[0].Status, r[0].Body, r[0].Len})
	}
	appCache := cache.NewCache(false)
	hydratables.InjectCache(appCache)
	hydratables.HydrateEntityNames()
	hydratables.HydrateFundamentalSchema()
	hydratables.HydrateUnitTypeRegistry()
	router := web.NewRouter()
	count := 0
	bases := map[string]*Filing{}
	return func(line []byte) (any, error) {
		in := &damageIn{}
		if err := json.Unmarshal(line, in); err != nil {
			return nil, err
		}
		out := &damageOut{Before: before, Count: map[string]int{"requests": 0}}
		count++
		id := fmt.Sprintf("d%d", count)
		key := fmt.Sprintf("%d %s", in.Seed, in.Kind)
		f := bases[key]
		if f == nil {
			f = worldFiling(in.Seed, id, in.Kind)
			bases[key] = f
		}
		f.ID = id
		dir := filepath.Join(wd, "folders", id)
		materialise(f, wd)
		breakFolder(f, in.Kind, dir)
		was := digest(dir)
		for _, op := range in.Ops {
			damage(dir, op)
		}
		if out.What = digest(dir); out.What == was {
			out.What = ""
		}
		w := &svcWorld{filings: []*Filing{f, healthy}, slugs: [][]string{nil, world.slugs[0]}}
		try := func(r plainReq) []byte {
			out.Count["requests"]++
			r.Whole = true
			begin := time.Now()
			a := perform(r, router)
			if a.Crash != "" {
				if !blames(a.Crash) {
					fatal("panic in the driver: ", a.Crash)
				}
				out.Crash, out.Msg = true, head(a.Crash, 2000)
			}
			if time.Since(begin) > svcPatience {
				out.Crash, out.Msg = true, "slow: "+r.name()
			}
			if a.Status == 200 {
				return a.Whole
			}
			return nil
		}
		get := func(q svcReq) []byte {
			q.Via = "http"
			r, _ := w.plain(q)
			return try(r)
		}
		w.slugs[0] = slugPattern.FindAllString(string(get(svcReq{K: "cat"})), -1)
		for i := range w.slugs[0] {
			if i < 8 {
				get(svcReq{K: "ren", N: i})
			}
		}
		get(svcReq{K: "doc"})
		for i := 0; i < len(f.Tags) && i < 7; i++ {
			get(svcReq{K: "fact", N: i})
		}
		if in.Request.K != "" {
			get(in.Request)
			in.Request.Via = "api"
			r, _ := w.plain(in.Request)
			try(r)
		}
		for _, r := range reqs {
			a := perform(r, router)
			if a.Crash != "" {
				out.Crash, out.Msg = true, head(a.Crash, 2000)
			}
			out.After = append(out.After, svcAnswer{a.Status, a.Body, a.Len})
		}
		if dir != filepath.Join(wd, "folders") {
			os.RemoveAll(dir)
		}
		if appCache.ItemCount() > 2000 {
			settled(3)
			for k := range appCache.Items() {
				if strings.Contains(k, `"d`) {
					appCache.Delete(k)
				}
			}
		}
		solid(out)
		return out, nil
	}
}

func genDamage(seed int64, n int, out func(any)) {
	rng := rand.New(rand.NewSource(seed*7 + 3))
	ops := []string{"rmfile", "dirfile", "content", "copyfile", "trunc", "byte", "deltag", "deltree", "deltree", "duptree", "duptree", "nest", "hollow", "bare", "retag", "delattr", "delattr", "attr", "attr", "attr", "attr", "attrname", "text", "text", "extra"}
	for i := 0; i < n; i++ {
		in := &damageIn{Seed: 1 + rng.Intn(60), Kind: []string{"good", "good", "rich", "rich", "plain", "nofacts"}[rng.Intn(6)]}
		for j := 1 + rng.Intn(4); j > 0; j-- {
			in.Ops = append(in.Ops, damageOp{ops[rng.Intn(len(ops))], rng.Intn(5000), rng.Intn(1000)})
		}
		if rng.Intn(2) == 0 {
			all := append(append([]string{}, bends...), httpBends...)
			in.Request = svcReq{K: []string{"cat", "ren", "doc", "fact"}[rng.Intn(4)], N: rng.Intn(5), Bent: all[rng.Intn(len(all))]}
		}
		solid(in)
		out(in)
	}
}
