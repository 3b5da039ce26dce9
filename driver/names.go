package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"path/filepath"
	"strings"

	"ecksbee.com/telefacts/pkg/attr"
	"ecksbee.com/telefacts/pkg/hydratables"
	"ecksbee.com/telefacts/pkg/serializables"
	gocache "github.com/patrickmn/go-cache"
)

func init() {
	setups["names"] = setupNames
	gens["names"] = genNames
	gens["prefixes"] = genPrefixes
}

// Concept names, see spec/Names.tla.

type nameElement struct {
	Name string `json:"name"`
	ID   string `json:"id"`
	D    int    `json:"d"`
}

type nameFile struct {
	N     string        `json:"n"`
	Far   bool          `json:"far"`
	State string        `json:"state"`
	Ns    int           `json:"ns"`
	As    int           `json:"as"` // imported for this namespace, 0 for its own
	Els   []nameElement `json:"els"`
}

type nameQuery struct {
	Ns   int    `json:"ns"`
	Name string `json:"name"`
}

type hrefQuery struct {
	N  string `json:"n"`
	ID string `json:"id"`
}

type binding struct {
	P  string `json:"p"`
	Ns int    `json:"ns"`
}

type namesIn struct {
	Files []nameFile  `json:"files"`
	Names []nameQuery `json:"names"`
	Hrefs []hrefQuery `json:"hrefs"`
	Binds []binding   `json:"binds"`
	Style int         `json:"style"`
}

type nameAnswer struct {
	Found bool   `json:"found"`
	N     string `json:"n"`
	ID    string `json:"id"`
	Ns    int    `json:"ns"`
	Name  string `json:"name"`
	D     int    `json:"d"`
}

type boundAnswer struct {
	Ns    int    `json:"ns"`
	Local bool   `json:"local"`
	Q     string `json:"q"`
	M     string `json:"m"`
}

type namesOut struct {
	Crash bool          `json:"crash"`
	Err   bool          `json:"err"`
	Msg   string        `json:"msg"`
	Names []nameAnswer  `json:"names"`
	Again []nameAnswer  `json:"again"`
	Hrefs []nameAnswer  `json:"hrefs"`
	Binds []boundAnswer `json:"binds"`
	Stray bool          `json:"stray"`
}

// the namespaces of schemas are easily confused
var nameSpaces = []string{"", "http://ns.example.com/a", "http://ns.example.com/A", "http://ns.example.com/a/", "http://ns.example.com/a#", "urn:a", "a.xsd", "http://ns.example.com/a b", "https://ns.example.com/a"}

// the namespaces of prefixes: the reserved ones first
var bindSpaces = []string{"", "http://www.xbrl.org/2003/instance", "http://xbrl.org/2006/xbrldi", "http://www.w3.org/1999/xlink", "http://www.w3.org/2001/XMLSchema-instance", "http://www.xbrl.org/2003/iso4217", "http://www.xbrl.org/2003/linkbase"}

func bindSpace(n int) string {
	if n < len(bindSpaces) {
		return bindSpaces[n]
	}
	return fmt.Sprintf("http://bound%d.example.com/", n)
}

// the declarations: type, substitution group, abstract, nillable, period
// type and balance all follow from the number
const declarations = 48

func declaration(d int) (typ, sub, rest string) {
	d--
	typ = []string{"xbrli:stringItemType", "own:stringItemType", "num:percentItemType"}[d%3]
	d /= 3
	sub = []string{"xbrli:item", "xbrldt:dimensionItem"}[d%2]
	d /= 2
	rest = fmt.Sprintf(`abstract="%t" nillable="%t"`, d%2 == 1, d/2%2 == 1)
	d /= 4
	rest += []string{` xbrli:periodType="instant"`, ` xbrli:periodType="duration" xbrli:balance="debit"`}[d%2]
	return
}

// whichDeclaration reads a concept back.
func whichDeclaration(c *hydratables.Concept, ns string) int {
	for d := 1; d <= declarations; d++ {
		typ, sub, rest := declaration(d)
		spaces := map[string]string{"xbrli": attr.XBRLI, "own": ns, "num": attr.NUM, "xbrldt": attr.XBRLDT}
		q := func(s string) [2]string {
			i := strings.IndexByte(s, ':')
			return [2]string{spaces[s[:i]], s[i+1:]}
		}
		if q(typ) == [2]string{c.Type.Space, c.Type.Local} && q(sub) == [2]string{c.SubstitutionGroup.Space, c.SubstitutionGroup.Local} &&
			strings.Contains(rest, fmt.Sprintf(`abstract="%t" nillable="%t"`, c.Abstract, c.Nillable)) &&
			strings.Contains(rest, `periodType="`+c.PeriodType+`"`) && strings.Contains(rest, `balance="debit"`) == (c.Balance == "debit") {
			return d
		}
	}
	return -1
}

func nameElementXML(e nameElement, style int) string {
	if e.D == 0 {
		id, name := esc(e.ID), esc(e.Name)
		return []string{
			`<xs:element name="` + name + `" type="xbrli:stringItemType"/>`,
			`<xs:element id="` + id + `" type="xbrli:stringItemType"/>`,
			`<other:element xmlns:other="http://other.example.com" id="` + id + `" name="` + name + `" type="xbrli:stringItemType"/>`,
			`<xs:complexType name="` + name + `" id="` + id + `"><xs:sequence><xs:element id="` + id + `" name="` + name + `" type="xbrli:stringItemType"/></xs:sequence></xs:complexType>`,
			`<!-- <xs:element id="` + id + `" name="` + name + `" type="xbrli:stringItemType"/> -->`,
		}[style%5] + "\n"
	}
	typ, sub, rest := declaration(e.D)
	return fmt.Sprintf(`<xs:element id="%s" name="%s" type="%s" substitutionGroup="%s" %s/>`+"\n", esc(e.ID), esc(e.Name), typ, sub, rest)
}

func setupNames() engine {
	room := rooms()
	count := 0
	return func(line []byte) (any, error) {
		in := &namesIn{}
		if err := json.Unmarshal(line, in); err != nil {
			return nil, err
		}
		if in.Style == 0 {
			in.Style = spellingOf(line)
		}
		count++
		out := &namesOut{}
		if len(in.Files) > 0 {
			lookUp(in, out, room(), count)
		}
		if len(in.Binds) > 0 && !out.Crash && !out.Err {
			crash := guarded(func() { bind(in, out) })
			if crash != "" {
				out.Crash, out.Msg = true, head(crash, 2000)
			}
		}
		solid(out)
		return out, nil
	}
}

func lookUp(in *namesIn, out *namesOut, wd string, count int) {
	gts := filepath.Join(wd, "gts")
	writeGlobal(gts)
	dirs(wd, gts)
	hydratables.InjectCache(gocache.New(gocache.NoExpiration, gocache.NoExpiration))
	dir := filepath.Join(wd, "folders", "folder")
	// URLs are of this scenario only, the system remembers what they hold
	unique := fmt.Sprintf("/%d/", count)
	location := func(n string) string {
		if i := strings.Index(n, "://"); i >= 0 {
			j := strings.IndexByte(n[i+3:], '/') + i + 3
			return n[:j] + unique + n[j+1:]
		}
		return n
	}
	spaceNumber := map[string]int{}
	for i, n := range nameSpaces {
		spaceNumber[n] = i
	}
	var refs, imports strings.Builder
	for i, f := range in.Files {
		if f.State == "ok" {
			var x strings.Builder
			ns := nameSpaces[f.Ns]
			x.WriteString(xmlHead + `<xs:schema ` + schemaNS + ` xmlns:own="` + ns + `" targetNamespace="` + ns + `">` + "\n")
			if i == 0 {
				x.WriteString("%IMPORTS%")
			}
			for j, e := range f.Els {
				x.WriteString(nameElementXML(e, in.Style+i+j))
			}
			x.WriteString("</xs:schema>\n")
			text := x.String()
			if i == 0 {
				for _, g := range in.Files {
					as := g.As
					if as == 0 {
						as = g.Ns
					}
					if g.Far || g.As != 0 {
						fmt.Fprintf(&imports, `<xs:import namespace="%s" schemaLocation="%s"/>`+"\n", nameSpaces[as], esc(location(g.N)))
					}
				}
				text = strings.Replace(text, "%IMPORTS%", imports.String(), 1)
			}
			if f.Far {
				writeFile(globalPath(gts, location(f.N)), text)
			} else {
				writeFile(filepath.Join(dir, f.N), text)
			}
		}
		if !f.Far {
			fmt.Fprintf(&refs, `<link:schemaRef xlink:type="simple" xlink:href="%s"/>`+"\n", esc(f.N))
		}
	}
	writeFile(filepath.Join(dir, "entry.xml"), xmlHead+`<xbrli:xbrl xmlns:xbrli="http://www.xbrl.org/2003/instance" `+xlinkNS+">\n"+refs.String()+"</xbrli:xbrl>\n")
	writeFile(filepath.Join(dir, "_"), `{"Entry":"entry.xml","Note":"verif"}`+"\n")
	writeFile(filepath.Join(wd, "names.json"), "{}")
	crash := guarded(func() {
		folder, err := serializables.Discover("folder")
		var h *hydratables.Hydratable
		if err == nil {
			h, err = hydratables.Hydrate(folder)
		}
		if err != nil {
			out.Err, out.Msg = true, err.Error()
			return
		}
		answer := func(href string, c *hydratables.Concept) nameAnswer {
			i := strings.IndexByte(href, '#')
			if c == nil || i < 0 {
				return nameAnswer{}
			}
			a := nameAnswer{Found: true, N: strings.Replace(href[:i], unique, "/", 1), ID: c.ID, Name: c.XMLName.Local, D: whichDeclaration(c, c.XMLName.Space)}
			if href[i+1:] != c.ID {
				a.ID = "not the reference"
			}
			ok := false
			if a.Ns, ok = spaceNumber[c.XMLName.Space]; !ok {
				a.Ns = -1
			}
			return a
		}
		for _, q := range in.Names {
			href, c, err := h.NameQuery(nameSpaces[q.Ns], q.Name)
			a, again := nameAnswer{}, nameAnswer{}
			if err == nil {
				a = answer(href, c)
				if a.Found {
					_, c, err := h.HashQuery(href)
					if err == nil {
						again = answer(href, c)
					}
				}
			}
			out.Names = append(out.Names, a)
			out.Again = append(out.Again, again)
		}
		for _, q := range in.Hrefs {
			href := location(q.N) + "#" + q.ID
			_, c, err := h.HashQuery(href)
			a := nameAnswer{}
			if err == nil {
				a = answer(href, c)
			}
			out.Hrefs = append(out.Hrefs, a)
		}
	})
	if crash != "" {
		out.Crash, out.Msg = true, head(crash, 2000)
	}
}

func bind(in *namesIn, out *namesOut) {
	var b strings.Builder
	b.WriteString(xmlHead + `<html`)
	if in.Style%2 == 0 {
		b.WriteString(` xmlns="http://www.w3.org/1999/xhtml"`)
	}
	for i, x := range in.Binds {
		fmt.Fprintf(&b, ` xmlns:%s="%s"`, x.P, bindSpace(x.Ns))
		if (in.Style+i)%5 == 0 {
			fmt.Fprintf(&b, ` a%d="http://bound7.example.com/"`, i)
		}
	}
	b.WriteString("><head/><body/></html>\n")
	doc := serializables.DecodeIxbrlFile([]byte(b.String()))
	if doc == nil {
		out.Err, out.Msg = true, "no document"
		return
	}
	np, err := attr.NewNameProvider(doc.Html.Attr)
	if err != nil {
		out.Err, out.Msg = true, err.Error()
		return
	}
	number := map[string]int{}
	for i := 1; i < 200; i++ {
		number[bindSpace(i)] = i
	}
	split := func(s string) (string, string) {
		if i := strings.IndexByte(s, ':'); i >= 0 {
			return s[:i], s[i+1:]
		}
		return "", s
	}
	for i, x := range in.Binds {
		local := []string{"Item", "item.x-y_1", "É"}[i%3]
		o := boundAnswer{Ns: -1, Local: true}
		name, err := np.ProvideXmlName(x.P + ":" + local)
		if err == nil {
			if n, ok := number[name.Space]; ok {
				o.Ns = n
			}
			o.Local = name.Local == local
		}
		l := ""
		o.Q, l = split(np.ProvideConceptName(x.P + ":" + local))
		o.Local = o.Local && l == local
		o.M, l = split(np.ProvideName(bindSpace(x.Ns), local))
		o.Local = o.Local && l == local
		out.Binds = append(out.Binds, o)
	}
	if _, err := np.ProvideXmlName("unbound-prefix:Item"); err == nil {
		out.Stray = true
	}
}

func genNames(seed int64, n int, out func(any)) {
	rng := rand.New(rand.NewSource(seed))
	locals := []string{"A", "a", "AB", "B", "Cash", "cash", "CashAndMore", "É", "A-1", "A.1", "A_1", "Item1", "Item10", "Item11"}
	ids := []string{"A", "x_A", "x_a", "own_Cash", "own_cash", "B", "Item1", "É", "a-b", "a.b", "a#b", "x_Item1", "x_Item10"}
	places := []string{"a.xsd", "A.xsd", "dir/a.xsd", "b.xsd", "a.xsd.xsd", "z.xsd", "a b.xsd", "http.xsd"}
	fars := []string{"http://far.example.com/a.xsd", "https://far.example.com/a.xsd", "http://far.example.com/A.xsd", "http://a.xsd/a.xsd"}
	for i := 0; i < n; i++ {
		in := &namesIn{Style: 1 + rng.Intn(1000)}
		used := map[string]bool{}
		for j := 1 + rng.Intn(5); j > 0; j-- {
			f := nameFile{N: places[rng.Intn(len(places))], State: "ok", Ns: 1 + rng.Intn(len(nameSpaces)-1)}
			if rng.Intn(2) == 0 {
				f.Ns = 1 + rng.Intn(2)
			}
			if len(in.Files) > 0 && rng.Intn(3) == 0 {
				f.N, f.Far = fars[rng.Intn(len(fars))], true
				if rng.Intn(4) == 0 {
					f.State = "missing"
				}
			}
			if len(in.Files) > 0 && rng.Intn(5) == 0 {
				f.As = 1 + rng.Intn(len(nameSpaces)-1)
			}
			// a namespace from far away has no other schema, except that a
			// missing one far away does not matter
			clash := false
			for _, g := range in.Files {
				same := g.Ns == f.Ns || f.As != 0 && (f.As == g.Ns || f.As == g.As) || g.As != 0 && g.As == f.Ns
				clash = clash || same && (g.Far && f.Far || g.Far && g.State == "ok" || f.Far && f.State == "ok")
			}
			if clash {
				continue
			}
			if used[f.N] {
				continue
			}
			used[f.N] = true
			ids1 := map[string]bool{}
			for k := rng.Intn(7); k > 0; k-- {
				e := nameElement{locals[rng.Intn(len(locals))], ids[rng.Intn(len(ids))], 1 + rng.Intn(declarations)}
				if rng.Intn(6) == 0 {
					e.D = 0
				}
				if e.D != 0 && ids1[e.ID] {
					continue
				}
				ids1[e.ID] = e.D != 0
				f.Els = append(f.Els, e)
			}
			in.Files = append(in.Files, f)
		}
		if len(in.Files) == 0 {
			continue
		}
		for j := 0; j < 25; j++ {
			f := in.Files[rng.Intn(len(in.Files))]
			q := nameQuery{1 + rng.Intn(len(nameSpaces)-1), locals[rng.Intn(len(locals))]}
			h := hrefQuery{f.N, ids[rng.Intn(len(ids))]}
			if len(f.Els) > 0 && rng.Intn(3) > 0 {
				e := f.Els[rng.Intn(len(f.Els))]
				q.Name = e.Name
				h.ID = e.ID
				if rng.Intn(3) > 0 {
					q.Ns = f.Ns
				}
			}
			if rng.Intn(8) == 0 {
				h.N = places[rng.Intn(len(places))]
			}
			in.Names = append(in.Names, q)
			in.Hrefs = append(in.Hrefs, h)
		}
		solid(in)
		out(in)
	}
}

func genPrefixes(seed int64, n int, out func(any)) {
	rng := rand.New(rand.NewSource(seed))
	stems := []string{"link", "xlink", "xsi", "iso4217", "xbrldi", "xbrli", "x", "X", "us-gaap", "dei", "link-a", "ix", "z"}
	for i := 0; i < n; i++ {
		in := &namesIn{Style: 1 + rng.Intn(1000)}
		used := map[string]bool{"unbound-prefix": true, "xml": true, "xmlns": true}
		add := func(p string, ns int) {
			if !used[p] {
				used[p] = true
				in.Binds = append(in.Binds, binding{p, ns})
			}
		}
		stem := stems[rng.Intn(len(stems))]
		if rng.Intn(3) == 0 {
			// all that could be tried are taken
			long := ""
			for k := 0; k < rng.Intn(70); k++ {
				letter := string(rune('a' + k%26))
				add(stem+"-"+long+letter, 7+rng.Intn(60))
				if k%26 == 25 {
					long += "z"
				}
			}
		}
		for j := rng.Intn(12); j >= 0; j-- {
			p := stems[rng.Intn(len(stems))]
			for rng.Intn(3) == 0 {
				p += "-" + string(rune('a'+rng.Intn(4)))
			}
			ns := 1 + rng.Intn(12)
			add(p, ns)
		}
		rng.Shuffle(len(in.Binds), func(a, b int) {
			if rng.Intn(2) == 0 {
				in.Binds[a], in.Binds[b] = in.Binds[b], in.Binds[a]
			}
		})
		solid(in)
		out(in)
	}
}
