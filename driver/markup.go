package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"html"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"ecksbee.com/telefacts/pkg/cache"
	"ecksbee.com/telefacts/pkg/hydratables"
	gocache "github.com/patrickmn/go-cache"
)

func init() {
	setups["blocks"] = setupBlocks
	setups["documents"] = setupDocuments
	gens["blocks"] = genBlocks
	gens["documents"] = genDocuments
}

// Text blocks, see spec/Markup.tla.

type token struct {
	K string   `json:"k"`
	N string   `json:"n"`
	T []string `json:"t"`
}

type blocksIn struct {
	Blocks [][]token `json:"blocks"`
	Style  int       `json:"style"`
}

type blocksOut struct {
	Crash  bool        `json:"crash"`
	Err    bool        `json:"err"`
	Msg    string      `json:"msg"`
	Blocks [][][]token `json:"blocks"` // of every block what each place shows
}

func firstWord(s string) string { return strings.Fields(s + " x")[0] }

func textSource(t []string, style int) string {
	var b strings.Builder
	for i, c := range t {
		next := ""
		if i+1 < len(t) {
			next = t[i+1]
		}
		switch {
		case style%4 == 1 && strings.Contains(`<>&"'`, c):
			fmt.Fprintf(&b, "&#%d;", c[0])
		case style%4 == 2 && strings.Contains(`<>&"'`, c):
			fmt.Fprintf(&b, "&#x%X;", c[0])
		case style%4 == 3 && (c == ">" || c == `"` || c == "'"):
			b.WriteString(c)
		case style%4 == 3 && (c == "&" || c == "<") && next == " ":
			b.WriteString(c)
		default:
			b.WriteString(html.EscapeString(c))
		}
	}
	return b.String()
}

func blockSource(tokens []token, style int) string {
	var b strings.Builder
	for _, t := range tokens {
		n := t.N
		if style/4%3 == 1 {
			n = strings.Replace(n, firstWord(n), strings.ToUpper(firstWord(n)), 1)
		}
		switch t.K {
		case "text":
			b.WriteString(textSource(t.T, style))
		case "open":
			b.WriteString("<" + n + ">")
		case "close":
			b.WriteString("</" + firstWord(n) + ">")
		case "void":
			b.WriteString("<" + n + "/>")
		case "raw":
			b.WriteString("<" + n + ">" + word(t.T) + "</" + firstWord(n) + ">")
		case "comment":
			b.WriteString("<!--" + t.N + "-->")
		default:
			fatal("unknown token", t.K)
		}
	}
	src := b.String()
	switch style / 12 % 3 {
	case 1:
		return "<![CDATA[" + strings.ReplaceAll(src, "]]>", "]]]]><![CDATA[>") + "]]>"
	case 2:
		// one half each
		if i := strings.IndexByte(src, '>'); i >= 0 {
			return html.EscapeString(src[:i]) + "<![CDATA[" + strings.ReplaceAll(src[i:], "]]>", "]]]]><![CDATA[>") + "]]>"
		}
	}
	return html.EscapeString(src)
}

var bareTag = regexp.MustCompile(`^<(/?)(table|tr|th|td)>`)
var brTag = regexp.MustCompile(`^<br ?/?>`)

// shownTokens takes the markup shown for a text block apart.
func shownTokens(s string) []token {
	ret := []token{}
	for len(s) > 0 {
		if s[0] != '<' {
			i := strings.IndexByte(s, '<')
			if i < 0 {
				i = len(s)
			}
			ret = append(ret, token{K: "text", T: chars(html.UnescapeString(s[:i]))})
			s = s[i:]
			continue
		}
		if m := bareTag.FindStringSubmatch(s); m != nil {
			k := "open"
			if m[1] != "" {
				k = "close"
			}
			ret = append(ret, token{K: k, N: m[2], T: []string{}})
			s = s[len(m[0]):]
			continue
		}
		if m := brTag.FindString(s); m != "" {
			ret = append(ret, token{K: "br", T: []string{}})
			s = s[len(m):]
			continue
		}
		i := strings.IndexByte(s, '>')
		if i < 0 {
			i = len(s) - 1
		}
		ret = append(ret, token{K: "other", N: s[:i+1], T: []string{}})
		s = s[i+1:]
	}
	return ret
}

func setupBlocks() engine {
	room := rooms()
	return func(line []byte) (any, error) {
		in := &blocksIn{}
		if err := json.Unmarshal(line, in); err != nil {
			return nil, err
		}
		wd := room()
		writeGlobal(filepath.Join(wd, "gts"))
		s := &sheet{}
		s.contexts = `<xbrli:context id="c1"><xbrli:entity><xbrli:identifier scheme="http://e.example.com">E</xbrli:identifier></xbrli:entity><xbrli:period><xbrli:instant>2020-12-31</xbrli:instant></xbrli:period></xbrli:context>` + "\n"
		for i, b := range in.Blocks {
			style := in.Style
			if style == 0 {
				style = spellingOf(line) + i
			}
			s.types = append(s.types, "nonnum:textBlockItemType")
			s.facts = append(s.facts, sheetFact{concept: i, context: "c1", inner: blockSource(b, style)})
		}
		s.write(wd)
		out := &blocksOut{}
		var r *renderableJSON
		var ones []expressableJSON
		var err error
		crash := guarded(func() { r, ones, err = s.show(wd, filepath.Join(wd, "gts")) })
		switch {
		case crash != "":
			out.Crash, out.Msg = true, head(crash, 2000)
		case err != nil:
			out.Err, out.Msg = true, err.Error()
		default:
			q := r.PGrid.FactualQuadrant
			if len(r.PGrid.IndentedLabels) != len(q) {
				out.Err = true
				break
			}
			byName := map[string]map[string]exprJSON{}
			for i, row := range q {
				if len(row) != 1 {
					out.Err = true
					break
				}
				byName[strings.TrimPrefix(r.PGrid.IndentedLabels[i].Href, "sheet.xsd#own_")] = row[0]
			}
			for i := range in.Blocks {
				m := byName[sheetName(i)]
				whole := func(e exprJSON) string { return e.Head + e.Core + e.Tail + e.InnerHtml }
				texts := []string{whole(m[langPure]), whole(m[langEn]), whole(m[langEs]), whole(ones[i].Expression[langPure])}
				shown := [][]token{}
				for j, t := range texts {
					known := false
					for _, u := range texts[:j] {
						known = known || t == u
					}
					if !known {
						shown = append(shown, shownTokens(t))
					}
				}
				out.Blocks = append(out.Blocks, shown)
			}
		}
		solid(out)
		return out, nil
	}
}

func genBlocks(seed int64, n int, out func(any)) {
	rng := rand.New(rand.NewSource(seed))
	texts := []string{"a", "Revenue & cost", "1 < 2", "x > y", "<td>", "</table>", "&lt;b&gt;", "&amp;", "\"q\" 'r'", "<script>alert(1)</script>", "<!-- no -->", "]]>", "é ü 中", "&nbsp;", "&#60;", "a\n  b", " ", "&copy", "AT&T", "<", "<<", "&", "&&lt;", "<br />", "{{x}}", "\\u003c", "%3Cb%3E"}
	names := []string{"p", "div", "h1", "h6", "span", "b", "a href=\"http://x\"", "table", "table border=1", "tbody", "tr", "tr style='x'", "td", "td colspan=\"2\"", "td colspan=3 rowspan=2", "td colspan=\"0\"", "td colspan=\"-4\"", "td colspan=\"x\"", "td colspan=\"1000000\"", "th", "th colspan='2'", "td class=\"<td>\"", "ul", "li", "font color=red", "svg onload=alert(1)", "math", "td-x", "table2", "br", "tablex", "trtd"}
	voids := []string{"br", "hr", "img src=\"x\" onerror=\"alert('<td>')\"", "p", "td", "tr", "table", "input value=\">\"", "meta", "td colspan=\"2\""}
	raws := []string{"script", "style", "script type=\"x\"", "xmp", "noframes", "iframe", "noembed"}
	for i := 0; i < n; i++ {
		in := &blocksIn{Style: 1 + rng.Intn(36)}
		for j := 0; j < 5+rng.Intn(20); j++ {
			b := []token{}
			big := false
			for k := rng.Intn(14); k >= 0; k-- {
				switch x := rng.Intn(20); {
				case x < 8:
					t := texts[rng.Intn(len(texts))]
					for rng.Intn(3) == 0 {
						t += texts[rng.Intn(len(texts))]
					}
					b = append(b, token{K: "text", T: chars(t)})
				case x < 13:
					name := names[rng.Intn(len(names))]
					if strings.Contains(name, "1000000") {
						if big || rng.Intn(4) > 0 {
							name = "td"
						}
						big = true
					}
					b = append(b, token{K: "open", N: name})
				case x < 17:
					b = append(b, token{K: "close", N: firstWord(names[rng.Intn(len(names))])})
				case x < 18:
					b = append(b, token{K: "void", N: voids[rng.Intn(len(voids))]})
				case x < 19:
					t := strings.ReplaceAll(texts[rng.Intn(len(texts))], "</", "")
					t = strings.ReplaceAll(t, "<!--", "")
					b = append(b, token{K: "raw", N: raws[rng.Intn(len(raws))], T: chars(t)})
				default:
					t := strings.ReplaceAll(texts[rng.Intn(len(texts))], "--", "")
					b = append(b, token{K: "comment", N: " " + strings.ReplaceAll(t, "]]>", "") + " "})
				}
			}
			in.Blocks = append(in.Blocks, b)
		}
		solid(in)
		out(in)
	}
}

// Source documents, see spec/Markup.tla.

type docAttr struct {
	N string   `json:"n"`
	V []string `json:"v"`
}

type docItem struct {
	K string    `json:"k"`
	N string    `json:"n"`
	A []docAttr `json:"a"`
	T string    `json:"t"`
}

type docFile struct {
	N    string `json:"n"`
	Kind string `json:"kind"`
}

type docIn struct {
	Files []docFile `json:"files"`
	Doc   []docItem `json:"doc"`
}

type documentsIn struct {
	Docs  []docIn `json:"docs"`
	Style int     `json:"style"`
}

type docOut struct {
	Same bool      `json:"same"`
	Doc  []docItem `json:"doc"`
}

type documentsOut struct {
	Crash bool     `json:"crash"`
	Err   bool     `json:"err"`
	Msg   string   `json:"msg"`
	Docs  []docOut `json:"docs"`
}

func fileContent(f docFile) []byte {
	switch f.Kind {
	case "png":
		return append([]byte("\x89PNG\x0d\x0a\x1a\x0a"), f.N...)
	case "jpeg":
		return append([]byte("\xff\xd8\xff\xe0"), f.N...)
	case "gif":
		return append([]byte("GIF89a"), f.N...)
	case "svg":
		return []byte(`<svg xmlns="http://www.w3.org/2000/svg"><!-- ` + f.N + ` --></svg>`)
	}
	return []byte("text " + f.N)
}

// elements whose content HTML takes for text
var rawElements = map[string]bool{"script": true, "style": true, "title": true, "textarea": true}

// writeDocument gives the body of a document; comments and elements of class
// "t" are not part of it.
func writeDocument(d docIn, style int) string {
	var b strings.Builder
	open := []string{}
	for i, item := range d.Doc {
		s := style + i
		if item.K == "text" {
			text := textSource(chars(item.T), s%3)
			if s%5 == 0 && !strings.Contains(item.T, "]]>") {
				text = "<![CDATA[" + item.T + "]]>"
			}
			b.WriteString(`<span class="t">` + text + "</span>")
			continue
		}
		b.WriteString("<" + item.N)
		for _, a := range item.A {
			q := `"`
			if s%2 == 0 {
				q = "'"
			}
			fmt.Fprintf(&b, " %s=%s%s%s", a.N, q, html.EscapeString(strings.Join(a.V, "/")), q)
		}
		switch {
		case item.N == "img" || item.N == "input" || s%7 == 1:
			b.WriteString("/>")
		case s%3 == 0 && !rawElements[item.N]:
			b.WriteString(">")
			open = append(open, item.N)
		default:
			b.WriteString("></" + item.N + ">")
		}
		if s%4 == 0 {
			b.WriteString("<!-- <img src=\"pic.png\"/> -->\n")
		}
	}
	for i := len(open) - 1; i >= 0; i-- {
		b.WriteString("</" + open[i] + ">")
	}
	return b.String()
}

// readDocument takes a served document apart: before, within and after the
// body.
func readDocument(data []byte, files []docFile) (items []docItem, frame []docItem, err error) {
	d := xml.NewDecoder(bytes.NewReader(data))
	d.Strict = false
	d.Entity = xml.HTMLEntity
	d.CharsetReader = func(charset string, input io.Reader) (io.Reader, error) { return input, nil }
	within := false
	text := ""
	add := func(i docItem) {
		if within {
			items = append(items, i)
		} else {
			frame = append(frame, i)
		}
	}
	flush := func() {
		if strings.TrimSpace(text) != "" {
			add(docItem{K: "text", A: []docAttr{}, T: text})
		}
		text = ""
	}
	for {
		t, err := d.RawToken()
		if err == io.EOF {
			flush()
			return items, frame, nil
		}
		if err != nil {
			return nil, nil, err
		}
		switch x := t.(type) {
		case xml.CharData:
			text += string(x)
		case xml.EndElement:
			flush()
		case xml.StartElement:
			flush()
			name := func(n xml.Name) string {
				if n.Space != "" {
					return strings.ToLower(n.Space + ":" + n.Local)
				}
				return strings.ToLower(n.Local)
			}
			item := docItem{K: "el", N: name(x.Name), A: []docAttr{}}
			skip := false
			for _, a := range x.Attr {
				v := strings.Split(a.Value, "/")
				for _, f := range files {
					if a.Value == "data:image/"+f.Kind+";base64,"+base64.StdEncoding.EncodeToString(fileContent(f)) {
						v = []string{"content of", f.N}
					}
				}
				item.A = append(item.A, docAttr{name(a.Name), v})
				if name(a.Name) == "class" && a.Value == "t" {
					skip = true
				}
				if name(a.Name) == "class" && a.Value == "begin" {
					within, skip = true, true
				}
				if name(a.Name) == "class" && a.Value == "end" {
					within, skip = false, true
				}
			}
			if !skip {
				add(item)
			}
		}
	}
}

func setupDocuments() engine {
	room := rooms()
	cache.NewCache(true)
	return func(line []byte) (any, error) {
		in := &documentsIn{}
		if err := json.Unmarshal(line, in); err != nil {
			return nil, err
		}
		wd := room()
		gts := filepath.Join(wd, "gts")
		writeGlobal(gts)
		dirs(wd, gts)
		hydratables.InjectCache(gocache.New(gocache.NoExpiration, gocache.NoExpiration))
		s := &sheet{types: []string{"xbrli:stringItemType"}}
		s.contexts = `<xbrli:context id="c1"><xbrli:entity><xbrli:identifier scheme="http://e.example.com">E</xbrli:identifier></xbrli:entity><xbrli:period><xbrli:instant>2020-12-31</xbrli:instant></xbrli:period></xbrli:context>` + "\n"
		s.facts = []sheetFact{{context: "c1", inner: "v"}}
		out := &documentsOut{}
		dir := filepath.Join(wd, "folders", "folder")
		for i, doc := range in.Docs {
			style := in.Style
			if style == 0 {
				style = spellingOf(line) + i
			}
			os.RemoveAll(dir)
			s.write(wd)
			for _, f := range doc.Files {
				if f.Kind == "dir" {
					// a directory with an image of the same name
					writeFile(filepath.Join(dir, f.N, f.N), string(fileContent(docFile{f.N, "png"})))
					continue
				}
				writeFile(filepath.Join(dir, f.N), string(fileContent(f)))
			}
			filed, err := os.ReadFile(filepath.Join(dir, "entry.htm"))
			if err != nil {
				return nil, err
			}
			filed = bytes.Replace(filed, []byte("</body>"), []byte(`<hr class="begin"/>`+writeDocument(doc, style)+`<hr class="end"/><p>the end</p></body>`), 1)
			writeFile(filepath.Join(dir, "entry.htm"), string(filed))
			var served []byte
			crash := guarded(func() { served, err = cache.MarshalRenderable("folder", "entry.htm") })
			if crash != "" {
				out.Crash, out.Msg = true, head(crash, 2000)
				break
			}
			if err != nil {
				out.Err, out.Msg = true, err.Error()
				break
			}
			items, frame, err := readDocument(served, doc.Files)
			if err != nil {
				items = []docItem{{K: "unreadable", T: err.Error()}}
			}
			_, expected, err := readDocument(filed, doc.Files)
			if err != nil {
				return nil, err
			}
			a, _ := json.Marshal(frame)
			b, _ := json.Marshal(expected)
			if !bytes.Equal(a, b) {
				items = append(items, docItem{K: "frame differs"})
			}
			out.Docs = append(out.Docs, docOut{Same: bytes.Equal(filed, served), Doc: items})
		}
		solid(out)
		return out, nil
	}
}

func genDocuments(seed int64, n int, out func(any)) {
	rng := rand.New(rand.NewSource(seed))
	names := []string{"pic.png", "pic.jpg", "Pic.png", "photo", "a b.png", "a&b.jpg", "é.png", "x.y.z.png", "anim.gif", "draw.svg", "fake.png", "pic", "png", "dir.png", "noext.htm2", "img.jpeg", "pic.png.png", "data"}
	kinds := []string{"png", "png", "jpeg", "jpeg", "gif", "svg", "text", "dir"}
	els := []string{"img", "img", "img", "img", "img", "input", "a", "div", "ix:nonnumeric", "script", "p", "td", "source", "video", "imgx", "title", "style", "textarea", "br"}
	ats := []string{"src", "src", "src", "alt", "href", "title", "data-src", "srcset", "longdesc", "id", "width", "style", "xlink:href", "poster", "ix:src"}
	texts := []string{"plain", "a < b & c", "<img src=\"pic.png\"/>", "pic.png", "]]>", "é 中", "\u00a0x", "&lt;", "'q' \"r\"", "src=\"pic.png\"", "-->", "</html>"}
	for i := 0; i < n; i++ {
		in := &documentsIn{Style: 1 + rng.Intn(420)}
		for j := 0; j < 12; j++ {
			d := docIn{}
			used := map[string]bool{}
			for k := rng.Intn(6); k > 0; k-- {
				f := docFile{names[rng.Intn(len(names))], kinds[rng.Intn(len(kinds))]}
				if !used[f.N] {
					used[f.N] = true
					d.Files = append(d.Files, f)
				}
			}
			for k := rng.Intn(12); k > 0; k-- {
				if rng.Intn(4) == 0 {
					d.Doc = append(d.Doc, docItem{K: "text", T: texts[rng.Intn(len(texts))]})
					continue
				}
				item := docItem{K: "el", N: els[rng.Intn(len(els))]}
				has := map[string]bool{}
				for m := rng.Intn(4); m > 0; m-- {
					a := docAttr{N: ats[rng.Intn(len(ats))]}
					if has[a.N] {
						continue
					}
					has[a.N] = true
					name := names[rng.Intn(len(names))]
					if len(d.Files) > 0 && rng.Intn(2) == 0 {
						name = d.Files[rng.Intn(len(d.Files))].N
					}
					switch rng.Intn(10) {
					case 0:
						a.V = []string{"dir", name}
					case 1:
						a.V = []string{"..", name}
					case 2:
						a.V = []string{"http:", "", "host", name}
					case 3:
						a.V = []string{name + "?x=1"}
					case 4:
						a.V = []string{name, "x"}
					case 5:
						a.V = []string{texts[rng.Intn(4)]}
					default:
						a.V = []string{name}
					}
					a.V = strings.Split(strings.Join(a.V, "/"), "/")
					item.A = append(item.A, a)
				}
				d.Doc = append(d.Doc, item)
			}
			in.Docs = append(in.Docs, d)
		}
		solid(in)
		out(in)
	}
}
