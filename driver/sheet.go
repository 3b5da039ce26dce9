package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"strings"

	"ecksbee.com/telefacts/pkg/hydratables"
	"ecksbee.com/telefacts/pkg/renderables"
	"ecksbee.com/telefacts/pkg/serializables"
	gocache "github.com/patrickmn/go-cache"
)

// A sheet is a filing of one role whose facts are given as XML: the engines
// that look at values rather than at relationships use it.
type sheet struct {
	types    []string // of the concepts, with prefix
	contexts string
	units    string
	nsDecls  string
	facts    []sheetFact
	calc     bool // the first concept is also the sum of a calculation and in a table
}

type sheetFact struct {
	concept int
	context string
	attrs   string
	inner   string
}

const sheetNS = "http://sheet.example.com/ns"

func sheetName(i int) string { return fmt.Sprintf("Item%d", i) }

func (s *sheet) write(wd string) {
	dir := filepath.Join(wd, "folders", "folder")
	var x, labs, locs, arcs strings.Builder
	x.WriteString(xmlHead + `<xs:schema ` + schemaNS + ` xmlns:own="` + sheetNS + `" targetNamespace="` + sheetNS + `"><xs:annotation><xs:appinfo>` + "\n")
	for _, kind := range []string{"presentation", "label", "calculation", "definition"} {
		fmt.Fprintf(&x, `<link:linkbaseRef xlink:type="simple" xlink:arcrole="http://www.w3.org/1999/xlink/properties/linkbase" xlink:role="http://www.xbrl.org/2003/role/%sLinkbaseRef" xlink:href="%s.xml"/>`+"\n", kind, kind)
	}
	x.WriteString(`<link:roleType id="R1" roleURI="http://sheet.example.com/role"><link:definition>1 - Statement - Sheet</link:definition></link:roleType></xs:appinfo></xs:annotation>` + "\n")
	loc := func(name string) string {
		return fmt.Sprintf(`<link:loc xlink:type="locator" xlink:href="sheet.xsd#own_%s" xlink:label="%s"/>`+"\n", name, name)
	}
	element := func(name string, typ string, sub string, abstract bool) {
		fmt.Fprintf(&x, `<xs:element id="own_%s" name="%s" type="%s" substitutionGroup="%s" abstract="%t" nillable="true" xbrli:periodType="duration"/>`+"\n", name, name, typ, sub, abstract)
	}
	element("Top", "xbrli:stringItemType", "xbrli:item", true)
	element("Table", "xbrli:stringItemType", "xbrldt:hypercubeItem", true)
	element("Axis", "xbrli:stringItemType", "xbrldt:dimensionItem", true)
	element("Domain", "xbrli:stringItemType", "xbrli:item", true)
	element("Other", "xbrli:monetaryItemType", "xbrli:item", false)
	locs.WriteString(loc("Top"))
	for i, t := range s.types {
		n := sheetName(i)
		element(n, t, "xbrli:item", false)
		locs.WriteString(loc(n))
		fmt.Fprintf(&arcs, `<link:presentationArc xlink:type="arc" xlink:arcrole="http://www.xbrl.org/2003/arcrole/parent-child" xlink:from="Top" xlink:to="%s" order="%d"/>`+"\n", n, i+1)
		labs.WriteString(loc(n))
		for _, lang := range []string{"en", "es"} {
			fmt.Fprintf(&labs, `<link:label xlink:type="resource" xlink:label="lab_%s" xlink:role="http://www.xbrl.org/2003/role/label" xml:lang="%s">%s %s</link:label>`+"\n", n, lang, n, lang)
		}
		fmt.Fprintf(&labs, `<link:labelArc xlink:type="arc" xlink:arcrole="http://www.xbrl.org/2003/arcrole/concept-label" xlink:from="%s" xlink:to="lab_%s"/>`+"\n", n, n)
	}
	writeFile(filepath.Join(dir, "sheet.xsd"), x.String()+"</xs:schema>\n")
	base := func(kind string, role string, body string) string {
		return xmlHead + `<link:linkbase ` + xlinkNS + ` xmlns:xbrldt="http://xbrl.org/2005/xbrldt"><link:roleRef xlink:type="simple" roleURI="http://sheet.example.com/role" xlink:href="sheet.xsd#R1"/><link:` + kind + `Link xlink:type="extended" xlink:role="` + role + `">` + "\n" + body + `</link:` + kind + "Link></link:linkbase>\n"
	}
	role := "http://sheet.example.com/role"
	writeFile(filepath.Join(dir, "presentation.xml"), base("presentation", role, locs.String()+arcs.String()))
	writeFile(filepath.Join(dir, "label.xml"), base("label", "http://www.xbrl.org/2003/role/link", labs.String()))
	if s.calc {
		first := sheetName(0)
		writeFile(filepath.Join(dir, "calculation.xml"), base("calculation", role, loc(first)+loc("Other")+
			`<link:calculationArc xlink:type="arc" xlink:arcrole="http://www.xbrl.org/2003/arcrole/summation-item" xlink:from="`+first+`" xlink:to="Other" order="1" weight="1"/>`+"\n"))
		def := func(arcrole string, from string, to string, extra string) string {
			return fmt.Sprintf(`<link:definitionArc xlink:type="arc" xlink:arcrole="http://xbrl.org/int/dim/arcrole/%s" xlink:from="%s" xlink:to="%s" order="1"%s/>`+"\n", arcrole, from, to, extra)
		}
		writeFile(filepath.Join(dir, "definition.xml"), base("definition", role, loc("Other")+loc(first)+loc("Table")+loc("Axis")+loc("Domain")+
			def("all", "Other", "Table", ` xbrldt:contextElement="segment"`)+def("domain-member", "Other", first, "")+
			def("hypercube-dimension", "Table", "Axis", "")+def("dimension-domain", "Axis", "Domain", "")))
	} else {
		writeFile(filepath.Join(dir, "calculation.xml"), base("calculation", role, ""))
		writeFile(filepath.Join(dir, "definition.xml"), base("definition", role, ""))
	}
	var ins, doc strings.Builder
	ins.WriteString(xmlHead + `<xbrli:xbrl xmlns:xbrli="http://www.xbrl.org/2003/instance" xmlns:own="` + sheetNS + `" ` + xlinkNS + s.nsDecls + `>` + "\n" +
		`<link:schemaRef xlink:type="simple" xlink:href="sheet.xsd"/>` + "\n" + s.contexts + s.units)
	doc.WriteString(xmlHead + `<html xmlns="http://www.w3.org/1999/xhtml" xmlns:ix="http://www.xbrl.org/2013/inlineXBRL" xmlns:xbrli="http://www.xbrl.org/2003/instance" xmlns:own="` + sheetNS + `" ` + xlinkNS + `><head><title>doc</title></head><body><ix:header><ix:hidden></ix:hidden><ix:references><link:schemaRef xlink:type="simple" xlink:href="sheet.xsd"/></ix:references></ix:header>` + "\n")
	for i, f := range s.facts {
		n := sheetName(f.concept)
		fmt.Fprintf(&ins, `<own:%s id="f%d" contextRef="%s"%s>%s</own:%s>`+"\n", n, i, f.context, f.attrs, f.inner, n)
		fmt.Fprintf(&doc, `<p><ix:nonFraction name="own:%s" contextRef="%s">1</ix:nonFraction></p>`+"\n", n, f.context)
	}
	writeFile(filepath.Join(dir, "entry.htm"), doc.String()+"</body></html>\n")
	writeFile(filepath.Join(dir, "entry.htm.xml"), ins.String()+"</xbrli:xbrl>\n")
	writeFile(filepath.Join(dir, "_"), `{"Entry":"entry.htm","Note":"verif"}`+"\n")
	writeFile(filepath.Join(wd, "names.json"), "{}")
}

// show renders the only view of the sheet and its single facts.
func (s *sheet) show(wd string, gts string) (*renderableJSON, []expressableJSON, error) {
	dirs(wd, gts)
	hydratables.InjectCache(gocache.New(gocache.NoExpiration, gocache.NoExpiration))
	folder, err := serializables.Discover("folder")
	if err != nil {
		return nil, nil, err
	}
	h, err := hydratables.Hydrate(folder)
	if err != nil {
		return nil, nil, err
	}
	b, err := renderables.MarshalCatalog(h)
	if err != nil {
		return nil, nil, err
	}
	cat := catalogJSON{}
	if err := json.Unmarshal(b, &cat); err != nil {
		return nil, nil, err
	}
	slug := ""
	for _, m := range cat.Networks {
		for _, v := range m {
			slug = v
		}
	}
	b, err = renderables.MarshalRenderable(slug, h)
	if err != nil {
		return nil, nil, err
	}
	r := &renderableJSON{}
	if err := json.Unmarshal(b, r); err != nil {
		return nil, nil, err
	}
	singles := make([]expressableJSON, len(s.facts))
	for i, f := range s.facts {
		b, err := renderables.MarshalExpressable("own:"+sheetName(f.concept), f.context, h)
		if err != nil {
			return nil, nil, err
		}
		if len(b) == 0 {
			continue
		}
		if err := json.Unmarshal(b, &singles[i]); err != nil {
			return nil, nil, err
		}
	}
	return r, singles, nil
}

// spellingOf chooses how to write a scenario that leaves it open.
func spellingOf(line []byte) int {
	sum := fnv.New32a()
	sum.Write(bytes.TrimSpace(line))
	return 1 + int(sum.Sum32()>>4)
}

func chars(s string) []string {
	ret := make([]string, 0, len(s))
	for _, r := range s {
		ret = append(ret, string(r))
	}
	return ret
}

func word(c []string) string { return strings.Join(c, "") }

// rooms gives an engine a fresh working directory for every scenario.
func rooms() func() string {
	home := workHome()
	count := 0
	last := ""
	return func() string {
		if last != "" {
			os.RemoveAll(last)
		}
		count++
		last = filepath.Join(home, fmt.Sprintf("room%d", count))
		if err := os.MkdirAll(last, 0o755); err != nil {
			fatal(err)
		}
		return last
	}
}
