package main

import (
	"encoding/json"
	"fmt"
	"html"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Two roles whose URI and title have the same concatenation (spec/Filing.tla).
const (
	alikeA = 91
	alikeB = 92
)

const (
	globalURL = "http://g.example.com/tax/g.xsd"
	globalNS  = "http://g.example.com/ns"
)

// Styles that change the spelling of a filing but not its meaning.
const (
	stylePrefix = 1 << iota
	styleSpace
	styleArcsFirst
	styleNamedLocs
	styleShuffle
	styleManyAnnotations
	styleBareLang
	styleBroken
)

// spell is the way the names and texts of the filing at hand are spelled;
// every spelling keeps the order of the tokens.  A worker has one filing at
// a time.
var spell int

const (
	spellPlain   = iota
	spellNested  // one the beginning of the next
	spellCase    // equal but for upper and lower case
	spellExotic  // beyond ASCII, and with characters that need escaping
	spellNumeric // numbers whose text order is not their order
	spellLong    // long, with the same beginning and end
	spellShrink  // the later ones are shorter
	spellings
)

var numeric = func() []string {
	ret := make([]string, 1200)
	for i := range ret {
		ret[i] = strconv.Itoa(i + 1)
	}
	sort.Strings(ret)
	return ret
}()

var longText = strings.Repeat("abcdefghijklmno", 12)

// code spells a token inside a name.
func code(i int) string {
	switch spell {
	case spellNested:
		return fmt.Sprintf("%02d", i/25) + strings.Repeat("x", i%25)
	case spellCase:
		s := fmt.Sprintf("%03d", i/16)
		for bit := 3; bit >= 0; bit-- {
			letter := "QWER"[bit : bit+1]
			if i>>bit&1 != 0 {
				letter = strings.ToLower(letter)
			}
			s += letter
		}
		return s
	case spellExotic:
		return fmt.Sprintf("é%04d.ßñ-_", i)
	case spellNumeric:
		return numeric[i%len(numeric)]
	case spellLong:
		return longText + fmt.Sprintf("%04d", i) + longText
	case spellShrink:
		return fmt.Sprintf("%04d", i) + strings.Repeat("x", 29-i%30)
	}
	return fmt.Sprintf("%04d", i)
}

// phrase spells a token inside a text.
func phrase(i int) string {
	if spell == spellExotic {
		return "\"" + code(i) + "\" & <b>'ü'</b> 100% \\ 日本 😀"
	}
	return code(i)
}

func schemaName(f int) string { return fmt.Sprintf("s%d.xsd", f) }
func namespace(f int) string {
	if f == 0 {
		return globalNS
	}
	return fmt.Sprintf("http://ns.example.com/f%d", f)
}
func prefix(f int, style int) string {
	if style&stylePrefix != 0 {
		return fmt.Sprintf("ext-%d", 9-f)
	}
	if f == 0 {
		return "g"
	}
	return fmt.Sprintf("s%d", f)
}
func localName(k int) string {
	if k < 1000 {
		return fmt.Sprintf("K%04d", k)
	}
	return fmt.Sprintf("K%d", k/1000) + code(k%1000)
}
func qname(k int, style int) string {
	return prefix(k/1000, style) + ":" + localName(k)
}
func conceptID(k int) string {
	return prefix(k/1000, 0) + "_" + localName(k)
}
func href(k int) string {
	if k/1000 == 0 {
		return globalURL + "#" + conceptID(k)
	}
	return schemaName(k/1000) + "#" + conceptID(k)
}
func roleURI(r int) string {
	if r == alikeA || r == alikeB {
		return "http://role.example.com/alike" + strings.Repeat("9", r-alikeA)
	}
	if spell == spellExotic {
		return "http://role.example.com/r?a=1&b=%20#" + code(r)
	}
	return "http://role.example.com/r" + code(r)
}
func roleTitle(t int) string {
	if t == alikeA || t == alikeB {
		return strings.Repeat("9", t-alikeA) + "11 - Statement - Title"
	}
	return "0 - " + phrase(t) + " - Title"
}
func entityScheme(e int) string {
	if spell == spellExotic {
		return "http://e.example.com/cik?a=1&b=2/" + code(e/10)
	}
	return "http://e.example.com/cik" + code(e/10)
}
func entityID(e int) string {
	if spell == spellExotic {
		return "ID/" + phrase(e%10)
	}
	return "ID" + code(e%10)
}
func entityName(e int) string       { return "Registrant " + phrase(e) }
func contextID(x int) string        { return "c" + code(x) }
func factID(i int) string           { return "f" + code(i) }
func noteID(i int) string           { return "fn" + code(i) }
func labelText(t int) string        { return "label " + phrase(t) }
func typedText(v int) string        { return "typed " + phrase(v) }
func factValue(v int) string        { return strconv.Itoa(1000000 + v) }
func isNumericType(typ string) bool { return typ == "mon" || typ == "num" }

// noteText and textValue are shown as they are in the file, as XML.
func noteText(i int) string  { return "note " + esc(phrase(i)) }
func textValue(v int) string { return "value " + esc(phrase(v)) }

func esc(s string) string { return html.EscapeString(s) }

// broken writes a text, in pieces if the style says so.
func broken(f *Filing, s string) string {
	if f.Style&styleBroken == 0 || len(s) == 0 {
		return esc(s)
	}
	runes := []rune(s)
	at := len(runes) * (len(s) % 5) / 4
	a, b := string(runes[:at]), string(runes[at:])
	switch len(s) % 4 {
	case 0:
		return esc(a) + "<!-- - -->" + esc(b)
	case 1:
		return esc(a) + "<![CDATA[" + b + "]]>"
	case 2:
		return "<![CDATA[" + a + "]]>" + esc(b)
	}
	return esc(a) + "<?cut here?>" + esc(b)
}

// orderValue keeps the order of the tokens, in tenths unless spelled; weights
// are written in the same way.
func orderValue(o int) float64 {
	if o == orderMalformed {
		return math.MaxFloat64
	}
	switch spell {
	case spellNested:
		return float64(o) / 1000
	case spellNumeric:
		return float64(o) * 12345
	case spellLong:
		return float64(o) / 1000000
	}
	return float64(o) / 10
}

// orderMalformed stands for an order that is no number, which comes after
// all numbers.
const orderMalformed = 9000

var malformedOrders = []string{"NaN", "INF", "-INF", "first", "1e999", "1,5", "0x"}

func arcOrder(a Arc) string {
	if a.O == orderMalformed {
		return malformedOrders[(a.A*3+a.B)%len(malformedOrders)]
	}
	return order(a.O)
}
func order(o int) string {
	switch spell {
	case spellCase:
		return strconv.FormatFloat(orderValue(o), 'E', -1, 64)
	case spellExotic:
		return strconv.FormatFloat(orderValue(o), 'f', 6, 64)
	}
	return strconv.FormatFloat(orderValue(o), 'f', -1, 64)
}

func xsdType(typ string) string {
	switch typ {
	case "mon":
		return "xbrli:monetaryItemType"
	case "num":
		return "xbrli:decimalItemType"
	case "pct":
		return "num:percentItemType"
	case "txt":
		return "nonnum:textBlockItemType"
	case "td":
		return "xs:string"
	}
	return "xbrli:stringItemType"
}

var xmlHead = `<?xml version="1.0" encoding="UTF-8"?>` + "\n"

const xlinkNS = `xmlns:link="http://www.xbrl.org/2003/linkbase" xmlns:xlink="http://www.w3.org/1999/xlink"`

// globalConcepts are the concepts of the one schema of the global taxonomy
// set; the system keeps global schemas for its lifetime, so they are the same
// in all filings of a process.
func globalConcepts() []Concept {
	ret := make([]Concept, 0)
	for k := 1; k <= 12; k++ {
		c := Concept{K: k, Typ: "mon", Bal: k % 3}
		if k == 12 {
			c.Abs, c.Typ, c.Bal = true, "str", 0
		}
		if k == 11 {
			c.Typ, c.Bal = "str", 0
		}
		ret = append(ret, c)
	}
	return ret
}

func elementXML(c Concept) string {
	bal := ""
	if c.Bal == 1 {
		bal = ` xbrli:balance="debit"`
	} else if c.Bal == 2 {
		bal = ` xbrli:balance="credit"`
	}
	td := ""
	sub := "xbrli:item"
	if c.TD != 0 {
		td = fmt.Sprintf(` xbrldt:typedDomainRef="%s"`, html.EscapeString(href(c.TD)))
		sub = "xbrldt:dimensionItem"
	}
	if c.Typ == "td" {
		return fmt.Sprintf(`<xs:element id="%s" name="%s" type="%s"/>`+"\n", conceptID(c.K), localName(c.K), xsdType(c.Typ))
	}
	return fmt.Sprintf(`<xs:element id="%s" name="%s" type="%s" substitutionGroup="%s" abstract="%t" nillable="true" xbrli:periodType="duration"%s%s/>`+"\n",
		conceptID(c.K), localName(c.K), xsdType(c.Typ), sub, c.Abs, bal, td)
}

const schemaNS = `xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:xbrli="http://www.xbrl.org/2003/instance" xmlns:xbrldt="http://xbrl.org/2005/xbrldt" xmlns:num="http://www.xbrl.org/dtr/type/numeric" xmlns:nonnum="http://www.xbrl.org/dtr/type/non-numeric" ` + xlinkNS

func writeFile(path string, text string) {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		fatal(err)
	}
	if err := os.WriteFile(path, []byte(text), 0o644); err != nil {
		fatal(err)
	}
}

func globalPath(gts string, url string) string {
	return filepath.Join(gts, "concepts", strings.Replace(url, "://", "/", 1))
}

// writeGlobal fills a taxonomy set with a unit registry, the role registry
// and the global schema.
func writeGlobal(gts string) {
	s := xmlHead + `<xs:schema ` + schemaNS + ` targetNamespace="` + globalNS + `">` + "\n"
	for _, c := range globalConcepts() {
		s += elementXML(c)
	}
	writeFile(globalPath(gts, globalURL), s+"</xs:schema>\n")
	writeFile(globalPath(gts, "http://www.xbrl.org/2003/xbrl-role-2003-07-31.xsd"),
		xmlHead+`<xs:schema `+schemaNS+` targetNamespace="http://www.xbrl.org/2003/role">`+"\n</xs:schema>\n")
	writeFile(globalPath(gts, "http://www.xbrl.org/utr/utr.xml"), utrXML())
	writeEditions(gts)
}

type unitDef struct{ id, name, ns, symbol string }

var registry = []unitDef{
	{"USD", "US Dollar", "http://www.xbrl.org/2003/iso4217", "$"},
	{"EUR", "Euro", "http://www.xbrl.org/2003/iso4217", "€"},
	{"CHF", "Swiss Franc", "http://www.xbrl.org/2003/iso4217", ""},
	{"shares", "Shares", "http://www.xbrl.org/2003/instance", ""},
	{"pure", "Pure", "http://www.xbrl.org/2003/instance", ""},
	{"sqft", "Square Foot", "http://www.xbrl.org/2009/utr", "ft²"},
	{"MWh", "Megawatt Hour", "http://www.xbrl.org/2009/utr", ""},
}

func utrXML() string {
	s := xmlHead + `<utr xmlns="http://www.xbrl.org/2009/utr"><units>` + "\n"
	for i, u := range registry {
		sym := ""
		if u.symbol != "" {
			sym = "<symbol>" + html.EscapeString(u.symbol) + "</symbol>"
		}
		s += fmt.Sprintf(`<unit id="u%05d"><unitId>%s</unitId><unitName>%s</unitName><nsUnit>%s</nsUnit><itemType>decimalItemType</itemType>%s<definition>d</definition><status>REC</status></unit>`+"\n",
			i+1, u.id, html.EscapeString(u.name), u.ns, sym)
	}
	return s + "</units></utr>\n"
}

// materialise writes the filing as a folder below wd and returns its id.
func materialise(f *Filing, wd string) string {
	spell = f.Style >> 8 % spellings
	id := f.ID
	dir := filepath.Join(wd, "folders", id)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		fatal(err)
	}
	noise := map[string]bool{}
	for _, n := range f.Noise {
		noise[n] = true
	}
	put := func(path string, text string) {
		for _, n := range f.Noise {
			if seed, ok := strings.CutPrefix(n, "litter"); ok {
				k, _ := strconv.Atoi(seed)
				text = litter(text, rand.New(rand.NewSource(int64(k)*31+int64(len(path)-len(dir)))))
			}
		}
		writeFile(path, text)
	}
	files := map[int]bool{1: true}
	for _, c := range f.Concepts {
		if c.K >= 1000 {
			files[c.K/1000] = true
		}
	}
	for _, r := range f.Roles {
		if r.F > 0 {
			files[r.F] = true
		}
	}
	nfiles := make([]int, 0)
	for n := range files {
		nfiles = append(nfiles, n)
	}
	sort.Ints(nfiles)
	for _, n := range nfiles {
		put(filepath.Join(dir, schemaName(n)), schemaXML(f, n, nfiles, noise))
	}
	for n, links := range byFile(f.Pre) {
		put(filepath.Join(dir, fmt.Sprintf("pre%d.xml", n)), linkbaseXML(f, "presentation", links, noise))
	}
	for n, links := range byFile(f.Cal) {
		put(filepath.Join(dir, fmt.Sprintf("cal%d.xml", n)), linkbaseXML(f, "calculation", links, noise))
	}
	for n, links := range byFile(f.Def) {
		put(filepath.Join(dir, fmt.Sprintf("def%d.xml", n)), linkbaseXML(f, "definition", links, noise))
	}
	labs := map[int][]LabLink{}
	for _, l := range f.Lab {
		labs[l.F] = append(labs[l.F], l)
	}
	for n, links := range labs {
		put(filepath.Join(dir, fmt.Sprintf("lab%d.xml", n)), labelXML(f, links, noise))
	}
	entry := "entry.xml"
	if f.Inline {
		entry = "entry.htm"
		writeFile(filepath.Join(dir, entry), inlineXML(f, noise))
		put(filepath.Join(dir, entry+".xml"), instanceXML(f, noise))
	} else {
		put(filepath.Join(dir, entry), instanceXML(f, noise))
	}
	u, _ := json.Marshal(map[string]string{"Entry": entry, "Note": "verif"})
	writeFile(filepath.Join(dir, "_"), string(u)+"\n")
	return id
}

func writeNames(f *Filing, wd string) {
	names := map[string]map[string]string{}
	for _, e := range f.Names {
		if names[entityScheme(e)] == nil {
			names[entityScheme(e)] = map[string]string{}
		}
		names[entityScheme(e)][entityID(e)] = entityName(e)
	}
	b, _ := json.Marshal(names)
	writeFile(filepath.Join(wd, "names.json"), string(b))
}

func byFile(links []Link) map[int][]Link {
	ret := map[int][]Link{}
	for _, l := range links {
		ret[l.F] = append(ret[l.F], l)
	}
	return ret
}

func schemaXML(f *Filing, n int, files []int, noise map[string]bool) string {
	var b strings.Builder
	b.WriteString(xmlHead)
	fmt.Fprintf(&b, `<xs:schema %s targetNamespace="%s" elementFormDefault="qualified">`+"\n", schemaNS, namespace(n))
	refs := make([]string, 0)
	ref := func(kind string, name string) {
		refs = append(refs, fmt.Sprintf(`<link:linkbaseRef xlink:type="simple" xlink:arcrole="http://www.w3.org/1999/xlink/properties/linkbase" xlink:role="http://www.xbrl.org/2003/role/%sLinkbaseRef" xlink:href="%s"/>`+"\n", kind, name))
	}
	if n == 1 {
		for _, k := range sortedInts(byFile(f.Pre)) {
			ref("presentation", fmt.Sprintf("pre%d.xml", k))
		}
		for _, k := range sortedInts(byFile(f.Cal)) {
			ref("calculation", fmt.Sprintf("cal%d.xml", k))
		}
		for _, k := range sortedInts(byFile(f.Def)) {
			ref("definition", fmt.Sprintf("def%d.xml", k))
		}
		labs := map[int]bool{}
		for _, l := range f.Lab {
			labs[l.F] = true
		}
		for _, k := range sortedInts(labs) {
			ref("label", fmt.Sprintf("lab%d.xml", k))
		}
		if noise["missing-linkbase"] {
			ref("label", "nolab.xml")
			ref("presentation", "nopre.xml")
			ref("reference", "noref.xml")
			refs = append(refs, `<link:linkbaseRef xlink:type="simple" xlink:href="nothing.xml"/>`+"\n")
		}
	}
	for _, r := range f.Roles {
		home := r.F
		if home == 0 {
			home = 1
		}
		if home == n {
			refs = append(refs, fmt.Sprintf(`<link:roleType id="R%02d" roleURI="%s"><link:definition>%s</link:definition><link:usedOn>link:presentationLink</link:usedOn><link:usedOn>link:calculationLink</link:usedOn></link:roleType>`+"\n",
				r.R, esc(roleURI(r.R)), broken(f, roleTitle(r.T))))
		}
	}
	if noise["bad-roletype"] && n == 1 {
		refs = append(refs, `<link:roleType id="RX"><link:definition>zzz</link:definition></link:roleType>`+"\n")
	}
	if f.Style&styleManyAnnotations != 0 {
		for _, r := range refs {
			b.WriteString("<xs:annotation><xs:appinfo>\n" + r + "</xs:appinfo></xs:annotation>\n")
		}
	} else {
		b.WriteString("<xs:annotation><xs:appinfo>\n" + strings.Join(refs, "") + "</xs:appinfo></xs:annotation>\n")
	}
	if n == 1 {
		fmt.Fprintf(&b, `<xs:import namespace="%s" schemaLocation="%s"/>`+"\n", globalNS, globalURL)
		for _, m := range files {
			if m != 1 {
				fmt.Fprintf(&b, `<xs:import namespace="%s" schemaLocation="%s"/>`+"\n", namespace(m), schemaName(m))
			}
		}
		if noise["missing-schema"] {
			b.WriteString(`<xs:import namespace="http://ns.example.com/none" schemaLocation="none.xsd"/>` + "\n")
			b.WriteString(`<xs:import namespace="http://ns.example.com/none2" schemaLocation="http://missing.example.com/none2.xsd"/>` + "\n")
			b.WriteString(`<xs:import namespace="http://ns.example.com/none3"/>` + "\n")
		}
	}
	for _, c := range f.Concepts {
		if c.K/1000 == n {
			b.WriteString(elementXML(c))
		}
	}
	if noise["bad-concept"] {
		b.WriteString(`<xs:element name="Bad" type="xbrli:stringItemType" substitutionGroup="xbrli:item"/>` + "\n")
		b.WriteString(`<xs:element id="b2" type="xbrli:stringItemType" substitutionGroup="xbrli:item"/>` + "\n")
		b.WriteString(`<xs:element id="b3" name="b3" substitutionGroup="xbrli:item"/>` + "\n")
	}
	b.WriteString("</xs:schema>\n")
	return b.String()
}

func sortedInts[T any](m map[int]T) []int {
	ret := make([]int, 0)
	for k := range m {
		ret = append(ret, k)
	}
	sort.Ints(ret)
	return ret
}

func locLabel(f *Filing, l int, k int) string {
	if f.Style&styleNamedLocs != 0 {
		return fmt.Sprintf("loc_%s_%d", localName(k), l)
	}
	return "l" + code(l)
}

func labelOf(f *Filing, locs []Loc, l int) string {
	for _, loc := range locs {
		if loc.L == l {
			return locLabel(f, l, loc.K)
		}
	}
	return "l" + code(l)
}

var arcroles = map[string]string{
	"dm": "http://xbrl.org/int/dim/arcrole/domain-member", "dd": "http://xbrl.org/int/dim/arcrole/dimension-domain",
	"df": "http://xbrl.org/int/dim/arcrole/dimension-default", "hd": "http://xbrl.org/int/dim/arcrole/hypercube-dimension",
	"all": "http://xbrl.org/int/dim/arcrole/all", "not": "http://xbrl.org/int/dim/arcrole/notAll",
	"other": "http://www.xbrl.org/2003/arcrole/general-special",
}

func linkbaseXML(f *Filing, kind string, links []Link, noise map[string]bool) string {
	var b strings.Builder
	b.WriteString(xmlHead + `<link:linkbase ` + xlinkNS + ` xmlns:xbrldt="http://xbrl.org/2005/xbrldt">` + "\n")
	seen := map[int]bool{}
	for _, l := range links {
		if !seen[l.R] {
			seen[l.R] = true
			home := 1
			for _, r := range f.Roles {
				if r.R == l.R && r.F != 0 {
					home = r.F
				}
			}
			fmt.Fprintf(&b, `<link:roleRef roleURI="%s" xlink:type="simple" xlink:href="%s#R%02d"/>`+"\n", esc(roleURI(l.R)), schemaName(home), l.R)
		}
	}
	for _, l := range links {
		fmt.Fprintf(&b, `<link:%sLink xlink:type="extended" xlink:role="%s">`+"\n", kind, esc(roleURI(l.R)))
		locs, arcs := "", ""
		for _, loc := range l.Locs {
			locs += fmt.Sprintf(`<link:loc xlink:type="locator" xlink:href="%s" xlink:label="%s"/>`+"\n", href(loc.K), locLabel(f, loc.L, loc.K))
		}
		for _, a := range l.Arcs {
			arcrole, extra := "http://www.xbrl.org/2003/arcrole/parent-child", ""
			switch kind {
			case "calculation":
				arcrole = "http://www.xbrl.org/2003/arcrole/summation-item"
				extra = fmt.Sprintf(` weight="%s"`, order(a.W))
			case "definition":
				arcrole = arcroles[a.T]
				if a.Closed > 0 {
					extra += fmt.Sprintf(` xbrldt:closed="%s"`, []string{"", "true", "false"}[a.Closed])
				}
				if a.Usable > 0 {
					extra += fmt.Sprintf(` xbrldt:usable="%s"`, []string{"", "true", "false"}[a.Usable])
				}
				if a.Ce > 0 {
					extra += fmt.Sprintf(` xbrldt:contextElement="%s"`, []string{"", "segment", "scenario"}[a.Ce])
				}
				if a.Tr > 0 {
					extra += fmt.Sprintf(` xbrldt:targetRole="%s"`, esc(roleURI(a.Tr)))
				}
			}
			arcs += fmt.Sprintf(`<link:%sArc xlink:type="arc" xlink:arcrole="%s" xlink:from="%s" xlink:to="%s" order="%s"%s/>`+"\n",
				kind, arcrole, labelOf(f, l.Locs, a.A), labelOf(f, l.Locs, a.B), arcOrder(a), extra)
		}
		if noise["bad-arc"] && len(l.Locs) > 1 {
			p, q := labelOf(f, l.Locs, l.Locs[0].L), labelOf(f, l.Locs, l.Locs[1].L)
			arcs += fmt.Sprintf(`<link:%sArc xlink:type="arc" xlink:from="%s" xlink:to="%s" order="1"/>`+"\n", kind, p, q)
			arcs += fmt.Sprintf(`<link:%sArc xlink:arcrole="x" xlink:from="%s" xlink:to="%s" order="1"/>`+"\n", kind, p, q)
			arcs += fmt.Sprintf(`<link:%sArc xlink:type="arc" xlink:arcrole="http://www.xbrl.org/2003/arcrole/parent-child" xlink:from="%s" order="1"/>`+"\n", kind, p)
			arcs += fmt.Sprintf(`<other:thing xmlns:other="http://other.example.com" xlink:type="arc" xlink:arcrole="http://www.xbrl.org/2003/arcrole/parent-child" xlink:from="%s" xlink:to="%s" order="1"/>`+"\n", p, q)
		}
		if noise["bad-loc"] {
			locs += `<link:loc xlink:type="locator" xlink:label="zz1"/>` + "\n" + `<link:loc xlink:type="locator" xlink:href="s1.xsd#zz"/>` + "\n"
			locs += `<link:loc xlink:type="locator" xlink:href="s1.xsd#zz" xlink:label="unused"/>` + "\n"
		}
		if f.Style&styleArcsFirst != 0 {
			b.WriteString(arcs + locs)
		} else {
			b.WriteString(locs + arcs)
		}
		fmt.Fprintf(&b, "</link:%sLink>\n", kind)
	}
	if noise["bad-link"] {
		fmt.Fprintf(&b, `<link:%sLink xlink:type="extended"><link:loc xlink:type="locator" xlink:href="s1.xsd#zz" xlink:label="a"/></link:%sLink>`+"\n", kind, kind)
		fmt.Fprintf(&b, `<link:roleRef xlink:type="simple"/>`+"\n")
	}
	b.WriteString("</link:linkbase>\n")
	return b.String()
}

var labelRoles = map[int]string{1: "http://www.xbrl.org/2003/role/label", 2: "http://www.xbrl.org/2003/role/terseLabel",
	3: "http://www.xbrl.org/2003/role/verboseLabel", 4: "http://www.xbrl.org/2003/role/documentation", 5: "http://www.xbrl.org/2003/role/totalLabel"}
var labelLangs = map[int]string{1: "en-US", 2: "en", 3: "es"}

// langOf spells the language of a label; the unsupported ones begin like the
// supported ones or not.
func langOf(r Res) string {
	if lang, found := labelLangs[r.Lang]; found {
		return lang
	}
	return []string{"fr", "en-GB", "es-MX", "eng", "e"}[r.T%5]
}

func labelXML(f *Filing, links []LabLink, noise map[string]bool) string {
	var b strings.Builder
	b.WriteString(xmlHead + `<link:linkbase ` + xlinkNS + `>` + "\n")
	for _, l := range links {
		b.WriteString(`<link:labelLink xlink:type="extended" xlink:role="http://www.xbrl.org/2003/role/link">` + "\n")
		locs, arcs, res := "", "", ""
		for _, loc := range l.Locs {
			locs += fmt.Sprintf(`<link:loc xlink:type="locator" xlink:href="%s" xlink:label="%s"/>`+"\n", href(loc.K), locLabel(f, loc.L, loc.K))
		}
		for _, a := range l.Arcs {
			arcs += fmt.Sprintf(`<link:labelArc xlink:type="arc" xlink:arcrole="http://www.xbrl.org/2003/arcrole/concept-label" xlink:from="%s" xlink:to="lab_%s"/>`+"\n", labelOf(f, l.Locs, a.A), code(a.B))
		}
		for _, r := range l.Res {
			res += fmt.Sprintf(`<link:label xlink:type="resource" xlink:label="lab_%s" xlink:role="%s" xml:lang="%s">%s</link:label>`+"\n", code(r.L), labelRoles[r.Role], langOf(r), broken(f, labelText(r.T)))
		}
		if f.Style&stylePrefix != 0 {
			// relations of another kind give no labels
			for _, loc := range l.Locs {
				for _, r := range l.Res {
					arcs = fmt.Sprintf(`<link:labelArc xlink:type="arc" xlink:arcrole="http://example.com/arcrole/other" xlink:from="%s" xlink:to="lab_%s"/>`+"\n", locLabel(f, loc.L, loc.K), code(r.L)) + arcs
				}
			}
		}
		if noise["bad-label"] {
			locs += `<link:loc xlink:type="locator" xlink:href="s1.xsd#zz" xlink:label="zz"/>` + "\n"
			locs += `<link:loc xlink:type="locator" xlink:href="nowhere" xlink:label="zz2"/>` + "\n"
			res += `<link:label xlink:type="resource" xlink:label="lab_zz" xlink:role="http://www.xbrl.org/2003/role/label" xml:lang="en-US">nobody</link:label>` + "\n"
			res += `<link:label xlink:type="resource" xlink:role="http://www.xbrl.org/2003/role/label" xml:lang="en-US">nolabel</link:label>` + "\n"
			res += `<link:label xlink:type="resource" xlink:label="lab_zz">norole</link:label>` + "\n"
			arcs += `<link:labelArc xlink:type="arc" xlink:arcrole="http://www.xbrl.org/2003/arcrole/concept-label" xlink:from="zz" xlink:to="lab_zz"/>` + "\n"
			arcs += `<link:labelArc xlink:type="arc" xlink:arcrole="http://www.xbrl.org/2003/arcrole/concept-label" xlink:from="zz2" xlink:to="lab_zz"/>` + "\n"
			if len(l.Locs) > 0 {
				p := labelOf(f, l.Locs, l.Locs[0].L)
				arcs += fmt.Sprintf(`<link:labelArc xlink:type="arc" xlink:arcrole="http://www.xbrl.org/2003/arcrole/concept-label" xlink:from="%s" xlink:to="lab_none"/>`+"\n", p)
				arcs += fmt.Sprintf(`<link:labelArc xlink:type="arc" xlink:from="%s" xlink:to="lab_zz"/>`+"\n", p)
			}
		}
		if f.Style&styleArcsFirst != 0 {
			b.WriteString(arcs + res + locs)
		} else {
			b.WriteString(locs + arcs + res)
		}
		b.WriteString("</link:labelLink>\n")
	}
	b.WriteString("</link:linkbase>\n")
	return b.String()
}

func memberXML(f *Filing, m Mem) string {
	sp := ""
	if f.Style&styleSpace != 0 {
		sp = "\n  "
	}
	return fmt.Sprintf(`<xbrldi:explicitMember dimension="%s">%s%s%s</xbrldi:explicitMember>`, qname(m.D, f.Style), sp, broken(f, qname(m.M, f.Style)), sp)
}

func typedXML(f *Filing, t TMem) string {
	var inner func(up int) string
	inner = func(up int) string {
		s := ""
		for i, el := range t.Els {
			if el.Up == up {
				text := ""
				if el.V != 0 {
					text = broken(f, typedText(el.V))
				}
				s += fmt.Sprintf("<%s>%s%s</%s>", qname(el.K, f.Style), text, inner(i+1), qname(el.K, f.Style))
			}
		}
		return s
	}
	return fmt.Sprintf(`<xbrldi:typedMember dimension="%s">%s</xbrldi:typedMember>`, qname(t.D, f.Style), inner(0))
}

func contextXML(f *Filing, x Ctx) string {
	sp := ""
	if f.Style&styleSpace != 0 {
		sp = "\n "
	}
	dims := func(ms []Mem, ts []TMem) string {
		s := ""
		for _, m := range ms {
			s += memberXML(f, m)
		}
		for _, t := range ts {
			s += typedXML(f, t)
		}
		return s
	}
	s := fmt.Sprintf(`<xbrli:context id="%s"><xbrli:entity><xbrli:identifier scheme="%s">%s%s%s</xbrli:identifier>`, contextID(x.ID), esc(entityScheme(x.E)), sp, broken(f, entityID(x.E)), sp)
	if len(x.Seg)+len(x.Tseg) > 0 {
		s += "<xbrli:segment>" + dims(x.Seg, x.Tseg) + "</xbrli:segment>"
	}
	s += "</xbrli:entity>"
	p := ""
	if x.P >= 1 && x.P <= len(f.Periods) {
		p = f.Periods[x.P-1]
	}
	if i := strings.IndexByte(p, '/'); i >= 0 {
		s += fmt.Sprintf("<xbrli:period><xbrli:startDate>%s%s%s</xbrli:startDate><xbrli:endDate>%s%s%s</xbrli:endDate></xbrli:period>", sp, broken(f, p[:i]), sp, sp, broken(f, p[i+1:]), sp)
	} else if p != "" {
		s += fmt.Sprintf("<xbrli:period><xbrli:instant>%s%s%s</xbrli:instant></xbrli:period>", sp, broken(f, p), sp)
	}
	if len(x.Scen)+len(x.Tscen) > 0 {
		s += "<xbrli:scenario>" + dims(x.Scen, x.Tscen) + "</xbrli:scenario>"
	}
	return s + "</xbrli:context>\n"
}

func conceptByK(f *Filing, k int) *Concept {
	for i := range f.Concepts {
		if f.Concepts[i].K == k {
			return &f.Concepts[i]
		}
	}
	return nil
}

func instanceXML(f *Filing, noise map[string]bool) string {
	var b strings.Builder
	b.WriteString(xmlHead + `<xbrli:xbrl xmlns:xbrli="http://www.xbrl.org/2003/instance" xmlns:xbrldi="http://xbrl.org/2006/xbrldi" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xmlns:iso4217="http://www.xbrl.org/2003/iso4217" ` + xlinkNS)
	for n := 0; n <= 9; n++ {
		fmt.Fprintf(&b, ` xmlns:%s="%s"`, prefix(n, f.Style), namespace(n))
	}
	b.WriteString(` xmlns:zz="http://zz.example.com/none">` + "\n")
	b.WriteString(`<link:schemaRef xlink:type="simple" xlink:href="s1.xsd"/>` + "\n")
	ctxs := ""
	for i := range f.Ctx {
		x := f.Ctx[i]
		if f.Style&styleShuffle != 0 {
			x = f.Ctx[len(f.Ctx)-1-i]
		}
		ctxs += contextXML(f, x)
	}
	if noise["bad-context"] {
		ctxs += `<xbrli:context id="cz1"><xbrli:period><xbrli:instant>2020-01-01</xbrli:instant></xbrli:period></xbrli:context>` + "\n"
		ctxs += `<xbrli:context><xbrli:entity><xbrli:identifier scheme="http://zz.example.com">ZZ</xbrli:identifier></xbrli:entity></xbrli:context>` + "\n"
		ctxs += `<xbrli:context id="cz2"><xbrli:entity><xbrli:identifier>ZZ</xbrli:identifier></xbrli:entity></xbrli:context>` + "\n"
		ctxs += `<xbrli:context id="cz3"><xbrli:entity><xbrli:identifier scheme="http://zz.example.com"></xbrli:identifier></xbrli:entity></xbrli:context>` + "\n"
	}
	units := `<xbrli:unit id="usd"><xbrli:measure>iso4217:USD</xbrli:measure></xbrli:unit>` + "\n"
	if noise["bad-unit"] {
		units += `<xbrli:unit><xbrli:measure>iso4217:USD</xbrli:measure></xbrli:unit><xbrli:unit id="uz"></xbrli:unit><xbrli:unit id="uy"><xbrli:divide><xbrli:unitNumerator><xbrli:measure>iso4217:USD</xbrli:measure></xbrli:unitNumerator></xbrli:divide></xbrli:unit>` + "\n"
	}
	facts := ""
	for _, ft := range f.Facts {
		c := conceptByK(f, ft.C)
		id, extra, val := "", "", textValue(ft.V)
		if ft.ID != 0 {
			id = fmt.Sprintf(` id="%s"`, factID(ft.ID))
		}
		if c != nil && isNumericType(c.Typ) {
			extra = ` unitRef="usd" decimals="0"`
			val = factValue(ft.V)
		}
		if ft.N {
			extra = fmt.Sprintf(` xsi:nil="%s"`, []string{"true", "1"}[(ft.ID+ft.X+ft.C)%2])
			val = ""
		} else if ft.V%5 == 0 {
			extra += fmt.Sprintf(` xsi:nil="%s"`, []string{"false", "0"}[ft.X%2])
		}
		facts += fmt.Sprintf(`<%s%s contextRef="%s"%s>%s</%s>`+"\n", qname(ft.C, f.Style), id, contextID(ft.X), extra, val, qname(ft.C, f.Style))
	}
	if noise["bad-fact"] {
		if len(f.Ctx) > 0 {
			x := contextID(f.Ctx[0].ID)
			facts += fmt.Sprintf(`<%s:Nothing id="fz1" contextRef="%s">nothing</%s:Nothing>`+"\n", prefix(1, f.Style), x, prefix(1, f.Style))
			facts += fmt.Sprintf(`<zz:Nothing id="fz2" contextRef="%s">nothing</zz:Nothing>`+"\n", x)
		}
		for _, c := range f.Concepts {
			if c.Typ != "td" {
				q := qname(c.K, f.Style)
				facts += fmt.Sprintf(`<%s id="fz3%d" contextRef="cNone">nowhere</%s>`+"\n", q, c.K, q)
				facts += fmt.Sprintf(`<%s id="fz4%d">nowhere</%s>`+"\n", q, c.K, q)
			}
		}
	}
	if noise["comments"] {
		facts += "<!-- comment --><?pi data?>\n"
		ctxs += "<!-- <xbrli:context id=\"cNone2\"/> -->\n"
	}
	notes := footnoteXML(f, noise)
	if f.Style&styleShuffle != 0 {
		b.WriteString(notes + facts + units + ctxs)
	} else {
		b.WriteString(ctxs + units + facts + notes)
	}
	b.WriteString("</xbrli:xbrl>\n")
	return b.String()
}

func footnoteXML(f *Filing, noise map[string]bool) string {
	var b strings.Builder
	for i, l := range f.Fn {
		fmt.Fprintf(&b, `<link:footnoteLink xlink:type="extended" xlink:role="http://www.xbrl.org/2003/role/link" xlink:title="%d">`+"\n", i)
		for _, loc := range l.Locs {
			fmt.Fprintf(&b, `<link:loc xlink:type="locator" xlink:href="#%s" xlink:label="fl%s"/>`+"\n", factID(loc.F), code(loc.L))
		}
		for _, a := range l.Arcs {
			fmt.Fprintf(&b, `<link:footnoteArc xlink:type="arc" xlink:arcrole="http://www.xbrl.org/2003/arcrole/fact-footnote" xlink:from="fl%s" xlink:to="nl%s" order="1.0"/>`+"\n", code(a.A), code(a.B))
		}
		for _, n := range l.Notes {
			fmt.Fprintf(&b, `<link:footnote id="%s" xlink:type="resource" xlink:label="nl%s" xlink:role="http://www.xbrl.org/2003/role/footnote" xml:lang="en-US">%s</link:footnote>`+"\n", noteID(n.ID), code(n.L), noteText(n.ID))
		}
		if noise["bad-footnote"] {
			b.WriteString(`<link:loc xlink:type="locator" xlink:href="#fNone" xlink:label="flz"/>` + "\n")
			b.WriteString(`<link:loc xlink:type="locator" xlink:label="flz"/>` + "\n")
			b.WriteString(`<link:footnote id="fnz" xlink:type="resource" xlink:label="fnz" xlink:role="http://www.xbrl.org/2003/role/footnote" xml:lang="en-US">nobody</link:footnote>` + "\n")
			b.WriteString(`<link:footnote xlink:type="resource" xlink:label="fnz" xml:lang="en-US">nobody</link:footnote>` + "\n")
			b.WriteString(`<link:footnoteArc xlink:type="arc" xlink:arcrole="http://www.xbrl.org/2003/arcrole/fact-footnote" xlink:from="flz" xlink:to="fnz"/>` + "\n")
			b.WriteString(`<link:footnoteArc xlink:type="arc" xlink:arcrole="http://www.xbrl.org/2003/arcrole/fact-footnote" xlink:from="flnone" xlink:to="fnz"/>` + "\n")
			b.WriteString(`<link:footnoteArc xlink:type="arc" xlink:to="fnz"/>` + "\n")
		}
		b.WriteString("</link:footnoteLink>\n")
	}
	return b.String()
}

// inlineXML tags the concepts and contexts of f.Tags.  Its prefixes differ
// from those of the extracted instance.
func inlineXML(f *Filing, noise map[string]bool) string {
	var b strings.Builder
	b.WriteString(xmlHead + `<html xmlns="http://www.w3.org/1999/xhtml" xmlns:ix="http://www.xbrl.org/2013/inlineXBRL" xmlns:xbrli="http://www.xbrl.org/2003/instance" ` + xlinkNS)
	for n := 0; n <= 9; n++ {
		fmt.Fprintf(&b, ` xmlns:%s="%s"`, inlinePrefix(n), namespace(n))
	}
	b.WriteString(`><head><title>doc</title></head><body><div style="display:none"><ix:header><ix:hidden></ix:hidden><ix:references><link:schemaRef xlink:type="simple" xlink:href="s1.xsd"/></ix:references><ix:resources></ix:resources></ix:header></div>` + "\n")
	for i, t := range f.Tags {
		c := conceptByK(f, t.K)
		id := ""
		if i%4 != 3 {
			id = fmt.Sprintf(` id="tag%d"`, i)
		}
		if c != nil && isNumericType(c.Typ) {
			fmt.Fprintf(&b, `<p><ix:nonFraction%s name="%s" contextRef="%s" unitRef="usd" decimals="0">1</ix:nonFraction></p>`+"\n", id, inlineName(t.K), contextID(t.X))
		} else {
			fmt.Fprintf(&b, `<p><ix:nonNumeric%s name="%s" contextRef="%s">x</ix:nonNumeric></p>`+"\n", id, inlineName(t.K), contextID(t.X))
		}
	}
	if noise["bad-fact"] {
		b.WriteString(`<p><ix:nonNumeric contextRef="cNone2">x</ix:nonNumeric><ix:nonFraction name="nope:X">1</ix:nonFraction><ix:nonNumeric name="nope:X" contextRef="cNone">x</ix:nonNumeric></p>` + "\n")
	}
	b.WriteString("</body></html>\n")
	return b.String()
}

func inlinePrefix(n int) string { return fmt.Sprintf("ix%d", n) }
func inlineName(k int) string   { return inlinePrefix(k/1000) + ":" + localName(k) }
