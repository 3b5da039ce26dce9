package main

import (
	"encoding/json"
	"encoding/xml"
	"fmt"
	"math/rand"
	"path/filepath"
	"runtime"
	"sort"
	"strings"

	"ecksbee.com/telefacts/pkg/serializables"
)

func init() {
	setups["discovery"] = setupDiscovery
	gens["discovery"] = genDiscovery
}

// Folders and what is loaded from them, see spec/Discovery.tla.

type folderRef struct {
	K   string `json:"k"`
	H   string `json:"h"`
	To  string `json:"to"`
	Far bool   `json:"far"`
	Ns  int    `json:"ns"`
	B   string `json:"b"`
}

type folderFile struct {
	N    string      `json:"n"`
	Kind string      `json:"kind"`
	Ns   int         `json:"ns"`
	Refs []folderRef `json:"refs"`
}

type folderIn struct {
	Refs  []folderRef  `json:"refs"`
	Files []folderFile `json:"files"`
	Style int          `json:"style"`
}

type loadedEntry struct {
	H string `json:"h"`
	C string `json:"c"`
}

type loadedNs struct {
	Ns int    `json:"ns"`
	H  string `json:"h"`
}

type loadedOut struct {
	Schemas []loadedEntry `json:"schemas"`
	Pre     []loadedEntry `json:"pre"`
	Def     []loadedEntry `json:"def"`
	Cal     []loadedEntry `json:"cal"`
	Lab     []loadedEntry `json:"lab"`
	Ns      []loadedNs    `json:"ns"`
}

type discoveryOut struct {
	Crash bool        `json:"crash"`
	Err   bool        `json:"err"`
	Msg   string      `json:"msg"`
	Loads []loadedOut `json:"loads"`
}

func folderNs(n int) string { return fmt.Sprintf("http://ns%d.example.com/", n) }

var baseRoles = map[string]string{"pre": "presentation", "def": "definition", "cal": "calculation", "lab": "label"}

// folderRefXML writes a reference; unusable ones lack something.
func folderRefXML(r folderRef, style int) string {
	h := esc(r.H)
	switch r.K {
	case "schema":
		return `<link:schemaRef xlink:type="simple" xlink:href="` + h + `"/>` + "\n"
	case "include":
		return `<xs:include schemaLocation="` + h + `"/>` + "\n"
	case "import":
		if style%2 == 1 {
			return `<xs:import schemaLocation="` + h + `" namespace="` + folderNs(r.Ns) + `"/>` + "\n"
		}
		return `<xs:import namespace="` + folderNs(r.Ns) + `" schemaLocation="` + h + `"/>` + "\n"
	case "base":
		return `<link:linkbaseRef xlink:type="simple" xlink:arcrole="http://www.w3.org/1999/xlink/properties/linkbase" xlink:role="http://www.xbrl.org/2003/role/` + baseRoles[r.B] + `LinkbaseRef" xlink:href="` + h + `"/>` + "\n"
	}
	fatal("unknown reference", r.K)
	return ""
}

// noiseXML is a reference that lacks something or is of another language.
func noiseXML(r folderRef, where string) string {
	h := esc(r.H)
	lists := map[string][]string{
		"instance": {
			`<link:schemaRef xlink:type="simple" xlink:href=""/>`,
			`<link:schemaRef xlink:type="simple"/>`,
			`<other:schemaRef xmlns:other="http://other.example.com" xlink:type="simple" xlink:href="` + h + `"/>`,
			`<!-- <link:schemaRef xlink:type="simple" xlink:href="` + h + `"/> -->`,
		},
		"schema": {
			`<xs:include/>`,
			`<xs:include schemaLocation=""/>`,
			`<xs:import namespace="http://ns9.example.com/"/>`,
			`<xs:import schemaLocation="` + h + `"/>`,
			`<xs:import namespace="" schemaLocation="` + h + `"/>`,
			`<other:import xmlns:other="http://other.example.com" namespace="http://ns9.example.com/" schemaLocation="` + h + `"/>`,
			`<other:include xmlns:other="http://other.example.com" schemaLocation="` + h + `"/>`,
			`<!-- <xs:include schemaLocation="` + h + `"/> -->`,
		},
		"base": {
			`<link:linkbaseRef xlink:type="simple" xlink:arcrole="http://www.w3.org/1999/xlink/properties/linkbase" xlink:href="` + h + `"/>`,
			`<link:linkbaseRef xlink:type="extended" xlink:arcrole="http://www.w3.org/1999/xlink/properties/linkbase" xlink:role="http://www.xbrl.org/2003/role/labelLinkbaseRef" xlink:href="` + h + `"/>`,
			`<link:linkbaseRef xlink:type="simple" xlink:arcrole="http://other.example.com" xlink:role="http://www.xbrl.org/2003/role/labelLinkbaseRef" xlink:href="` + h + `"/>`,
			`<link:linkbaseRef xlink:type="simple" xlink:arcrole="http://www.w3.org/1999/xlink/properties/linkbase" xlink:role="http://www.xbrl.org/2003/role/referenceLinkbaseRef" xlink:href="` + h + `"/>`,
			`<other:linkbaseRef xmlns:other="http://other.example.com" xlink:type="simple" xlink:arcrole="http://www.w3.org/1999/xlink/properties/linkbase" xlink:role="http://www.xbrl.org/2003/role/labelLinkbaseRef" xlink:href="` + h + `"/>`,
			`<link:linkbaseRef xlink:type="simple" xlink:arcrole="http://www.w3.org/1999/xlink/properties/linkbase" xlink:role="http://www.xbrl.org/2003/role/labelLinkbaseRef"/>`,
		},
	}
	l := lists[where]
	return l[r.Ns%len(l)] + "\n"
}

func writeFolder(in *folderIn, dir string) {
	var b strings.Builder
	b.WriteString(xmlHead + `<xbrli:xbrl xmlns:xbrli="http://www.xbrl.org/2003/instance" ` + xlinkNS + ">\n")
	for _, r := range in.Refs {
		if r.K == "noise" {
			b.WriteString(noiseXML(r, "instance"))
		} else {
			b.WriteString(folderRefXML(r, in.Style))
		}
	}
	b.WriteString("</xbrli:xbrl>\n")
	writeFile(filepath.Join(dir, "entry.xml"), b.String())
	writeFile(filepath.Join(dir, "_"), `{"Entry":"entry.xml","Note":"verif"}`+"\n")
	for i, f := range in.Files {
		marker := func(n int) string {
			return fmt.Sprintf(`<xs:element id="e%d" name="%s"/>`+"\n", n, esc(f.N))
		}
		var x strings.Builder
		switch f.Kind {
		case "schema":
			x.WriteString(xmlHead + `<xs:schema ` + schemaNS + ` targetNamespace="` + folderNs(f.Ns) + `">` + "\n")
			// references before, between and after other content, linkbase
			// references in one annotation or several
			style := in.Style + i
			var plain, bases []string
			for _, r := range f.Refs {
				switch {
				case r.K == "base":
					bases = append(bases, folderRefXML(r, style))
				case r.K == "noise" && r.Ns/10%2 == 0:
					plain = append(plain, noiseXML(r, "schema"))
				case r.K == "noise":
					bases = append(bases, noiseXML(r, "base"))
				default:
					plain = append(plain, folderRefXML(r, style))
				}
			}
			x.WriteString(marker(1))
			annotate := func(refs []string) {
				x.WriteString("<xs:annotation><xs:appinfo>\n" + strings.Join(refs, "") + "</xs:appinfo></xs:annotation>\n")
			}
			if style%3 == 0 && len(bases) > 1 {
				annotate(bases[:1])
				bases = bases[1:]
			}
			half := 0
			if len(plain) > 0 {
				half = style % (len(plain) + 1)
			}
			x.WriteString(strings.Join(plain[:half], ""))
			if style%4 == 1 && len(bases) > 1 {
				x.WriteString("<xs:annotation><xs:appinfo>\n" + bases[0] + "</xs:appinfo><xs:appinfo>\n" + strings.Join(bases[1:], "") + "</xs:appinfo></xs:annotation>\n")
			} else if len(bases) > 0 {
				annotate(bases)
			}
			x.WriteString(strings.Join(plain[half:], ""))
			x.WriteString(marker(2) + "</xs:schema>\n")
		case "base":
			x.WriteString(xmlHead + `<link:linkbase ` + xlinkNS + `><link:roleRef xlink:type="simple" roleURI="` + esc(f.N) + `" xlink:href="x#y"/>`)
			for _, k := range []string{"presentation", "definition", "calculation", "label"} {
				x.WriteString(`<link:` + k + `Link xlink:type="extended" xlink:role="` + esc(f.N) + `"></link:` + k + "Link>\n")
			}
			x.WriteString("</link:linkbase>\n")
		case "broken":
			x.WriteString([]string{"", "not a schema", xmlHead + `<xs:schema ` + schemaNS + ` targetNamespace="` + folderNs(f.Ns) + `"><xs:element`, xmlHead + "<html></html>\n", "\x00\x01\x02"}[(f.Ns+in.Style)%5])
		default:
			fatal("unknown file", f.Kind)
		}
		writeFile(filepath.Join(dir, f.N), x.String())
	}
}

func namedAttr(attrs []xml.Attr, name string) string {
	for _, a := range attrs {
		if a.Name.Local == name {
			return a.Value
		}
	}
	return ""
}

func loaded(f *serializables.Folder, nss map[string]int) loadedOut {
	o := loadedOut{}
	agree := func(a ...string) string {
		for _, x := range a {
			if x != a[0] {
				return "mixed"
			}
		}
		return a[0]
	}
	for h, s := range f.Schemas {
		c := "incomplete"
		if len(s.Element) == 2 {
			c = agree(namedAttr(s.Element[0].XMLAttrs, "name"), namedAttr(s.Element[1].XMLAttrs, "name"))
		}
		o.Schemas = append(o.Schemas, loadedEntry{h, c})
	}
	for h, l := range f.PresentationLinkbases {
		c := "incomplete"
		if len(l.RoleRef) == 1 && len(l.PresentationLink) == 1 {
			c = agree(namedAttr(l.RoleRef[0].XMLAttrs, "roleURI"), namedAttr(l.PresentationLink[0].XMLAttrs, "role"))
		}
		o.Pre = append(o.Pre, loadedEntry{h, c})
	}
	for h, l := range f.DefinitionLinkbases {
		c := "incomplete"
		if len(l.RoleRef) == 1 && len(l.DefinitionLink) == 1 {
			c = agree(namedAttr(l.RoleRef[0].XMLAttrs, "roleURI"), namedAttr(l.DefinitionLink[0].XMLAttrs, "role"))
		}
		o.Def = append(o.Def, loadedEntry{h, c})
	}
	for h, l := range f.CalculationLinkbases {
		c := "incomplete"
		if len(l.RoleRef) == 1 && len(l.CalculationLink) == 1 {
			c = agree(namedAttr(l.RoleRef[0].XMLAttrs, "roleURI"), namedAttr(l.CalculationLink[0].XMLAttrs, "role"))
		}
		o.Cal = append(o.Cal, loadedEntry{h, c})
	}
	for h, l := range f.LabelLinkbases {
		c := "incomplete"
		if len(l.LabelLink) == 1 {
			c = namedAttr(l.LabelLink[0].XMLAttrs, "role")
		}
		o.Lab = append(o.Lab, loadedEntry{h, c})
	}
	for n, h := range f.Namespaces {
		k, ok := nss[n]
		if !ok {
			k = -1
		}
		o.Ns = append(o.Ns, loadedNs{k, h})
	}
	for _, l := range [][]loadedEntry{o.Schemas, o.Pre, o.Def, o.Cal, o.Lab} {
		sort.Slice(l, func(i, j int) bool { return l[i].H < l[j].H })
	}
	sort.Slice(o.Ns, func(i, j int) bool { return o.Ns[i].Ns < o.Ns[j].Ns })
	return o
}

func setupDiscovery() engine {
	room := rooms()
	return func(line []byte) (any, error) {
		in := &folderIn{}
		if err := json.Unmarshal(line, in); err != nil {
			return nil, err
		}
		if in.Style == 0 {
			in.Style = spellingOf(line)
		}
		wd := room()
		gts := filepath.Join(wd, "gts")
		dirs(wd, gts)
		writeFile(globalPath(gts, "http://far.example.com/x.xsd"), xmlHead+`<xs:schema `+schemaNS+` targetNamespace="http://far.example.com/"><xs:include schemaLocation="a.xsd"/></xs:schema>`)
		writeFolder(in, filepath.Join(wd, "folders", "folder"))
		nss := map[string]int{}
		for n := 0; n < 40; n++ {
			nss[folderNs(n)] = n
		}
		out := &discoveryOut{}
		for i := 0; i < 3; i++ {
			runtime.GOMAXPROCS([]int{4, 1, 8}[i])
			var f *serializables.Folder
			var err error
			crash := guarded(func() { f, err = serializables.Discover("folder") })
			if crash != "" {
				out.Crash, out.Msg = true, head(crash, 2000)
				break
			}
			if err != nil {
				out.Err, out.Msg = true, err.Error()
				break
			}
			out.Loads = append(out.Loads, loaded(f, nss))
		}
		solid(out)
		return out, nil
	}
}

func genDiscovery(seed int64, n int, out func(any)) {
	rng := rand.New(rand.NewSource(seed))
	stems := []string{"a", "b", "c", "d e", "f.g", "é", "H", "h", "i&j", "k%20l", "m+n", "long-name_2020", "x.xsd", "UP"}
	for i := 0; i < n; i++ {
		in := &folderIn{Style: 1 + rng.Intn(1000)}
		var names []string
		used := map[string]bool{"entry.xml": true, "_": true}
		for j := 1 + rng.Intn(10); j > 0; j-- {
			name := stems[rng.Intn(len(stems))]
			kind := []string{"schema", "schema", "schema", "base", "base", "broken"}[rng.Intn(6)]
			if len(in.Files) == 0 {
				kind = "schema"
			}
			name += map[string]string{"schema": ".xsd", "base": ".xml", "broken": ".xsd"}[kind]
			if rng.Intn(6) == 0 {
				name = "dir/" + name
			}
			if used[name] {
				continue
			}
			used[name] = true
			names = append(names, name)
			in.Files = append(in.Files, folderFile{N: name, Kind: kind, Ns: 1 + rng.Intn(4)})
		}
		names = append(names, "missing.xsd", "missing.xml")
		ref := func(kinds ...string) folderRef {
			r := folderRef{K: kinds[rng.Intn(len(kinds))], To: names[rng.Intn(len(names))]}
			if rng.Intn(3) > 0 { // mostly to files that fit
				for try := 0; try < 4; try++ {
					if (r.K == "base") == strings.HasSuffix(r.To, ".xml") {
						break
					}
					r.To = names[rng.Intn(len(names))]
				}
			}
			r.H = r.To
			switch rng.Intn(12) {
			case 0:
				r.H = "./" + r.To
			case 1:
				r.H = "dir/../" + r.To
			case 2:
				r.H, r.To, r.Far = []string{"http://far.example.com/x.xsd", "https://far.example.com/y.xml", "ftp://host/z"}[rng.Intn(3)], "", true
			}
			if r.K == "import" || r.K == "noise" {
				r.Ns = 1 + rng.Intn(30)
				if r.K == "import" && rng.Intn(2) == 0 {
					r.Ns = 1 + rng.Intn(5)
				}
			}
			if r.K == "base" {
				r.B = []string{"pre", "def", "cal", "lab"}[rng.Intn(4)]
			}
			return r
		}
		for j := 1 + rng.Intn(3); j > 0; j-- {
			in.Refs = append(in.Refs, ref("schema", "schema", "schema", "noise"))
		}
		for k := range in.Files {
			if in.Files[k].Kind == "schema" {
				for j := rng.Intn(6); j > 0; j-- {
					in.Files[k].Refs = append(in.Files[k].Refs, ref("include", "include", "import", "import", "base", "base", "noise"))
				}
			}
		}
		solid(in)
		out(in)
	}
}
