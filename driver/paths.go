package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/url"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"ecksbee.com/telefacts/pkg/cache"
	"ecksbee.com/telefacts/pkg/hydratables"
	"ecksbee.com/telefacts/pkg/serializables"
	gocache "github.com/patrickmn/go-cache"
)

func init() {
	setups["paths"] = setupPaths
	gens["urls"] = genURLs
	gens["refs"] = genRefs
}

// References and URLs, see spec/Paths.tla.

type taxURL struct {
	Scheme string   `json:"scheme"`
	Host   string   `json:"host"`
	Steps  []string `json:"steps"`
}

type pathRef struct {
	K     string   `json:"k"`
	Steps []string `json:"steps"`
}

type pathsIn struct {
	Urls  []taxURL   `json:"urls"`
	Files [][]string `json:"files"`
	Refs  []pathRef  `json:"refs"`
	Style int        `json:"style"`
}

type urlOut struct {
	OK    bool   `json:"ok"`
	Below bool   `json:"below"`
	File  string `json:"file"`
	Empty bool   `json:"empty"` // it loaded before there were files
	Made  bool   `json:"made"`  // there was then a file
	Own   bool   `json:"own"`   // it loaded what the file says
	Other bool   `json:"other"` // it loaded something else
}

type pathsOut struct {
	Crash   bool         `json:"crash"`
	Err     bool         `json:"err"`
	Msg     string       `json:"msg"`
	Urls    []urlOut     `json:"urls"`
	Touched []string     `json:"touched"`
	Loaded  [][][]string `json:"loaded"`
}

// A sentry tells which files of some directories are opened.
type sentry struct {
	fd    int
	names map[int32]string
}

func newSentry(dirs ...string) *sentry {
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
	if err != nil {
		fatal("inotify", err)
	}
	s := &sentry{fd, map[int32]string{}}
	for _, d := range dirs {
		wd, err := syscall.InotifyAddWatch(fd, d, syscall.IN_OPEN|syscall.IN_ACCESS)
		if err != nil {
			fatal("inotify", err)
		}
		s.names[int32(wd)] = d
	}
	return s
}

func (s *sentry) leave() []string {
	defer syscall.Close(s.fd)
	seen := map[string]bool{}
	buf := make([]byte, 1<<16)
	for {
		n, err := syscall.Read(s.fd, buf)
		if err == syscall.EINTR {
			continue
		}
		if n <= 0 {
			break
		}
		for at := 0; at+syscall.SizeofInotifyEvent <= n; {
			e := (*syscall.InotifyEvent)(unsafe.Pointer(&buf[at]))
			name := strings.TrimRight(string(buf[at+syscall.SizeofInotifyEvent:at+syscall.SizeofInotifyEvent+int(e.Len)]), "\x00")
			at += syscall.SizeofInotifyEvent + int(e.Len)
			if e.Mask&syscall.IN_ISDIR != 0 {
				continue
			}
			seen[filepath.Join(s.names[e.Wd], name)] = true
		}
	}
	ret := []string{}
	for n := range seen {
		ret = append(ret, n)
	}
	sort.Strings(ret)
	return ret
}

// settled waits for what the code under test left running.
func settled(base int) {
	for i := 0; i < 400 && runtime.NumGoroutine() > base; i++ {
		time.Sleep(5 * time.Millisecond)
	}
}

func spellURL(u taxURL, style int) string {
	var b strings.Builder
	scheme := u.Scheme
	if style%5 == 1 {
		scheme = strings.ToUpper(scheme)
	}
	b.WriteString(scheme + "://")
	if style%7 == 2 {
		b.WriteString("user@")
	}
	b.WriteString(u.Host)
	if style%11 == 3 {
		b.WriteString(":8080")
	}
	for i, s := range u.Steps {
		b.WriteString("/")
		for j, c := range []byte(s) {
			switch {
			case c == '%' || c == ' ' || c == '?' || c == '#' || c < 32 || c > 126 || c == '/' || c == '\\':
				fmt.Fprintf(&b, "%%%02X", c)
			case (style/3+i+j)%4 == 1 && style%3 == 1:
				fmt.Fprintf(&b, "%%%02x", c)
			default:
				b.WriteByte(c)
			}
		}
	}
	if style%13 == 4 {
		b.WriteString("?q=/../../x")
	}
	if style%17 == 5 {
		b.WriteString("#/../../x")
	}
	return b.String()
}

// pathContent is a file of the kind a reference is for, marked with a name.
func pathContent(kind string, mark string) string {
	switch kind {
	case "base":
		return xmlHead + `<link:linkbase ` + xlinkNS + `><link:presentationLink xlink:type="extended" xlink:role="` + esc(mark) + `"></link:presentationLink></link:linkbase>` + "\n"
	case "image":
		return "\x89PNG\r\n\x1a\n" + mark
	case "entry", "id":
		return xmlHead + `<xbrli:xbrl xmlns:xbrli="http://www.xbrl.org/2003/instance" id="` + esc(mark) + `" ` + xlinkNS + "></xbrli:xbrl>\n"
	}
	return xmlHead + `<xs:schema ` + schemaNS + ` targetNamespace="http://paths.example.com"><xs:element id="e1" name="` + esc(mark) + `"/></xs:schema>` + "\n"
}

func setupPaths() engine {
	room := rooms()
	cache.NewCache(true)
	return func(line []byte) (any, error) {
		in := &pathsIn{}
		if err := json.Unmarshal(line, in); err != nil {
			return nil, err
		}
		if in.Style == 0 {
			in.Style = spellingOf(line)
		}
		top := room()
		out := &pathsOut{}
		crash := guarded(func() {
			if len(in.Urls) > 0 {
				resolveURLs(in, out, top)
			}
			if len(in.Refs) > 0 {
				followRefs(in, out, top)
			}
		})
		if crash != "" {
			out.Crash, out.Msg = true, head(crash, 2000)
		}
		solid(out)
		return out, nil
	}
}

func resolveURLs(in *pathsIn, out *pathsOut, top string) {
	gts := filepath.Join(top, "gts")
	dirs(top, gts)
	for i, u := range in.Urls {
		text := spellURL(u, in.Style+i)
		file, err := serializables.UrlToFilename(text)
		o := urlOut{OK: err == nil, File: ""}
		if err == nil {
			rel, err := filepath.Rel(gts, file)
			o.Below = err == nil && filepath.IsLocal(rel) && rel != "." && filepath.Clean(file) == filepath.Join(gts, rel)
			o.File = filepath.Clean(file)
			if err == nil {
				o.File = rel
			}
		}
		_, err = serializables.DiscoverGlobalFile(text)
		o.Empty = err == nil
		out.Urls = append(out.Urls, o)
	}
	for i := range out.Urls {
		o := &out.Urls[i]
		if !o.OK || !o.Below {
			continue
		}
		file := filepath.Join(gts, o.File)
		if os.MkdirAll(filepath.Dir(file), 0755) == nil {
			o.Made = os.WriteFile(file, []byte(o.File), 0644) == nil
		}
	}
	for i, u := range in.Urls {
		o := &out.Urls[i]
		data, err := serializables.DiscoverGlobalFile(spellURL(u, in.Style+i))
		if err == nil {
			o.Own = o.OK && string(data) == o.File
			o.Other = !o.Own
		}
	}
}

func followRefs(in *pathsIn, out *pathsOut, top string) {
	kind := in.Refs[0].K
	wd := filepath.Join(top, "wd")
	gts := filepath.Join(top, "gts")
	dir := filepath.Join(wd, "folders", "folder")
	writeGlobal(gts)
	dirs(wd, gts)
	hydratables.InjectCache(gocache.New(gocache.NoExpiration, gocache.NoExpiration))
	writeFile(filepath.Join(wd, "names.json"), "{}")
	step := func(s string) string {
		s = strings.ReplaceAll(s, "@top", top)
		if kind == "entry" {
			s = strings.ReplaceAll(s, ".xsd", ".xml")
		}
		return s
	}
	text := func(steps []string) string {
		parts := make([]string, len(steps))
		for i, s := range steps {
			parts[i] = step(s)
		}
		return strings.Join(parts, "/")
	}
	marks := map[string][]string{}
	for _, f := range in.Files {
		mark := strings.Join(f, "/")
		marks[mark] = f
		writeFile(filepath.Join(dir, text(f)), pathContent(kind, mark))
	}
	// what must not be opened
	canaries := []string{filepath.Join(wd, "folders", "other"), filepath.Join(wd, "outside"), filepath.Join(top, "outside"), filepath.Join(top, "gts2")}
	if kind == "id" {
		canaries[0] = filepath.Join(wd, "other")
	}
	for _, c := range append(canaries, filepath.Join(wd, "folders"), wd, top) {
		for _, n := range []string{"s.xsd", "s.xml", "_", "l.xml", "dir/s.xsd"} {
			body := pathContent(kind, "canary")
			if n == "_" {
				body = `{"Entry":"s.xml","Note":"canary"}` + "\n"
			}
			if n == "_" && c == filepath.Join(wd, "folders") {
				continue
			}
			writeFile(filepath.Join(c, n), body)
		}
		if _, err := os.Stat(filepath.Join(c, "dir")); err == nil && c != top && c != wd {
			canaries = append(canaries, filepath.Join(c, "dir"))
		}
	}
	watch := append(append([]string{}, canaries...), wd, top)
	if kind != "id" {
		watch = append(watch, filepath.Join(wd, "folders"))
	}
	run := func(refs []pathRef) {
		var m strings.Builder
		inst := `<link:schemaRef xlink:type="simple" xlink:href="m.xsd"/>` + "\n"
		m.WriteString(xmlHead + `<xs:schema ` + schemaNS + ` targetNamespace="http://main.example.com">` + "\n")
		entry := "entry.xml"
		id := "folder"
		doc := ""
		for i, r := range refs {
			h := text(r.Steps)
			switch r.K {
			case "schema":
				inst += `<link:schemaRef xlink:type="simple" xlink:href="` + esc(h) + `"/>` + "\n"
			case "include":
				m.WriteString(`<xs:include schemaLocation="` + esc(h) + `"/>` + "\n")
			case "import":
				fmt.Fprintf(&m, `<xs:import namespace="http://n%d.example.com" schemaLocation="%s"/>`+"\n", i, esc(h))
			case "base":
				m.WriteString(`<xs:annotation><xs:appinfo>` + folderRefXML(folderRef{K: "base", H: h, B: "pre"}, 0) + "</xs:appinfo></xs:annotation>\n")
			case "entry":
				entry = h
			case "id":
				id = h
			case "image":
				if entry != "entry.htm" {
					entry = "entry.htm"
					doc = xmlHead + `<html xmlns="http://www.w3.org/1999/xhtml"><body>`
				}
				doc += `<img src="` + esc(h) + `"/>`
			default:
				fatal("unknown reference", r.K)
			}
		}
		writeFile(filepath.Join(dir, "m.xsd"), m.String()+"</xs:schema>\n")
		writeFile(filepath.Join(dir, "entry.xml"), xmlHead+`<xbrli:xbrl xmlns:xbrli="http://www.xbrl.org/2003/instance" `+xlinkNS+">\n"+inst+"</xbrli:xbrl>\n")
		if doc != "" {
			writeFile(filepath.Join(dir, "entry.htm"), doc+"</body></html>\n")
			writeFile(filepath.Join(dir, "entry.htm.xml"), xmlHead+`<xbrli:xbrl xmlns:xbrli="http://www.xbrl.org/2003/instance" `+xlinkNS+">\n"+inst+"</xbrli:xbrl>\n")
		}
		quoted, _ := json.Marshal(entry)
		writeFile(filepath.Join(dir, "_"), `{"Entry":`+string(quoted)+`,"Note":"verif"}`+"\n")
		base := runtime.NumGoroutine()
		guard := newSentry(watch...)
		folder, err := serializables.Discover(id)
		if err != nil {
			folder = nil
		}
		cache.MarshalCatalog(id)
		cache.MarshalRenderable(id, "0")
		cache.MarshalRenderable(id, entry)
		settled(base)
		for _, t := range guard.leave() {
			if filepath.Base(t) != "names.json" {
				out.Touched = append(out.Touched, strings.Replace(t, top, "@top", 1))
			}
		}
		for _, r := range refs {
			h := text(r.Steps)
			mark, found := "", false
			if folder != nil {
				switch r.K {
				case "schema", "include", "import":
					if s, ok := folder.Schemas[h]; ok && len(s.Element) == 1 {
						mark, found = namedAttr(s.Element[0].XMLAttrs, "name"), true
					}
				case "base":
					if l, ok := folder.PresentationLinkbases[h]; ok && len(l.PresentationLink) == 1 {
						mark, found = namedAttr(l.PresentationLink[0].XMLAttrs, "role"), true
					}
				case "entry":
					for _, i := range folder.Instances {
						mark, found = namedAttr(i.XMLAttrs, "id"), true
					}
					if mark == "" {
						found = false
					}
				}
			}
			loaded := [][]string{}
			if found {
				f, ok := marks[mark]
				if !ok {
					f = []string{mark}
				}
				loaded = append(loaded, f)
			}
			out.Loaded = append(out.Loaded, loaded)
		}
	}
	if kind == "entry" || kind == "id" {
		for i := range in.Refs {
			run(in.Refs[i : i+1])
		}
	} else {
		run(in.Refs)
	}
}

func genURLs(seed int64, n int, out func(any)) {
	rng := rand.New(rand.NewSource(seed))
	schemes := []string{"http", "https", "ftp", "file", "urn", "a", "concepts"}
	hosts := []string{"h", "h.example.com", "a", "..", ".", "http", "127.0.0.1", "127.0.0.2", "www.h", "h.a", "h.example.org", "[::1]", "[::2]", "[2001:db8::1]", "[2001:db8::2]", "concepts", "h..", "..h", "xn--bcher-kva", "h-"}
	steps := []string{"a", "b", "..", ".", "", "h", "x.xsd", "X.xsd", "...", "b c", "%2e%2e", "é", "..\\..", "a?b", "a#b", "concepts", "a:b", "~", "a;b=c", "a&b", "+"}
	for i := 0; i < n; i++ {
		in := &pathsIn{Style: 1 + rng.Intn(1000000)}
		// neighbours of a few URLs
		for j := 0; j < 40; j++ {
			u := taxURL{schemes[rng.Intn(len(schemes))], hosts[rng.Intn(len(hosts))], nil}
			for k := rng.Intn(6); k > 0; k-- {
				u.Steps = append(u.Steps, steps[rng.Intn(len(steps))])
			}
			if j > 0 && rng.Intn(2) == 0 {
				v := in.Urls[rng.Intn(len(in.Urls))]
				switch rng.Intn(4) {
				case 0:
					u.Steps = v.Steps
				case 1:
					u.Scheme, u.Host = v.Scheme, v.Host
				case 2:
					// host and steps exchanged
					u.Scheme = v.Scheme
					if len(v.Steps) > 0 && !strings.ContainsAny(v.Steps[0], " %\\é?#:;&~+=") && v.Steps[0] != "" {
						u.Host, u.Steps = strings.ToLower(v.Steps[0]), append([]string{v.Host}, v.Steps[1:]...)
						if strings.ContainsAny(v.Host, "[") {
							u.Steps[0] = "h"
						}
					}
				}
			}
			if _, err := url.Parse(spellURL(u, 0)); err != nil {
				continue
			}
			in.Urls = append(in.Urls, u)
		}
		solid(in)
		out(in)
	}
}

func genRefs(seed int64, n int, out func(any)) {
	rng := rand.New(rand.NewSource(seed))
	steps := []string{"s.xsd", "dir", "..", "..", "..", ".", "", "folder", "outside", "other", "folders", "wd", "gts2", "@top", "@top/outside", "...", "%2e%2e", "..\\", "..\\..\\other\\s.xsd", " ..", ".. ", "~", "file:", "s.xsd?x", "s.xsd#..", "‥", "..%2f..", "dir2", "folder2", "l.xml", "http:", "http://h", "http://..", "file:///@top/outside", "file://localhost/@top", "http://h/%2e%2e/%2e%2e/%2e%2e", "//", "*"}
	names := []string{"s.xsd", "dir", "outside", "other", "folder", "dir2", "a b", "...", "é"}
	kinds := []string{"schema", "include", "import", "base", "entry", "id", "image"}
	for i := 0; i < n; i++ {
		in := &pathsIn{Style: 1 + rng.Intn(1000)}
		kind := kinds[rng.Intn(len(kinds))]
		used := map[string]bool{}
		for j := rng.Intn(5); j >= 0; j-- {
			f := []string{}
			for k := rng.Intn(3); k > 0; k-- {
				f = append(f, names[1+rng.Intn(len(names)-1)])
			}
			f = append(f, "s.xsd")
			if key := strings.Join(f, "/"); !used[key] {
				used[key] = true
				in.Files = append(in.Files, f)
			}
		}
		count := 12
		if kind == "entry" || kind == "id" {
			count = 5
		}
		for j := 0; j < count; j++ {
			r := pathRef{K: kind}
			if rng.Intn(4) == 0 {
				r.Steps = append(r.Steps, in.Files[rng.Intn(len(in.Files))]...)
				at := rng.Intn(len(r.Steps))
				more := [][]string{{"."}, {""}, {"dir", ".."}, {".."}, {"..", "folder"}, {"..", "other"}}[rng.Intn(6)]
				r.Steps = append(append(append([]string{}, r.Steps[:at]...), more...), r.Steps[at:]...)
			} else {
				for k := 1 + rng.Intn(7); k > 0; k-- {
					r.Steps = append(r.Steps, steps[rng.Intn(len(steps))])
				}
				if rng.Intn(2) == 0 {
					r.Steps = append(r.Steps, "s.xsd")
				}
			}
			r.Steps = strings.Split(strings.Join(r.Steps, "/"), "/")
			in.Refs = append(in.Refs, r)
		}
		solid(in)
		out(in)
	}
}
