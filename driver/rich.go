package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// A folder written by hand that has a little of everything: text blocks,
// divided units, nested typed members, all kinds of periods, footnotes,
// images, local, included and global schemas.

// richYear is the edition of the global taxonomy that a folder uses; the
// files of the editions differ by a step of their path only.
func richYear(seed int) int { return 2019 + seed%2 }

func editionURL(year int) string {
	return fmt.Sprintf("http://tax.example.com/%d/core.xsd", year)
}

func editionNS(year int) string { return fmt.Sprintf("http://tax.example.com/%d", year) }

func writeEditions(gts string) {
	for year := 2019; year <= 2020; year++ {
		s := xmlHead + `<xs:schema ` + schemaNS + ` targetNamespace="` + editionNS(year) + `">` + "\n"
		s += fmt.Sprintf(`<xs:element id="core_%s" name="%s" type="xbrli:monetaryItemType" substitutionGroup="xbrli:item" nillable="true" xbrli:periodType="duration"/>`+"\n", localName(1), localName(1))
		s += fmt.Sprintf(`<xs:element id="core_Only%d" name="Only%d" type="xbrli:stringItemType" substitutionGroup="xbrli:item" abstract="true" nillable="true" xbrli:periodType="duration"/>`+"\n", year, year)
		writeFile(globalPath(gts, editionURL(year)), s+"</xs:schema>\n")
	}
}

// richFiling names what can be asked of the folder.
func richFiling(seed int, id string) *Filing {
	f := &Filing{ID: id, Inline: true, Tag: fmt.Sprintf("rich-%d", seed)}
	f.Tags = []Tag{{K: 1006, X: 1}, {K: 1002, X: 1}, {K: 1005, X: 1}, {K: 1, X: 1}, {K: 1013, X: 3}, {K: 1002, X: 4}, {K: 1004, X: 2}}
	f.Names = []int{1, 11}
	solid(f)
	return f
}

const richPNG = "iVBORw0KGgoAAAANSUhEUgAAAAEAAAABCAYAAAAfFcSJAAAADUlEQVR42mNk+M9QDwADhgGAWjR9awAAAABJRU5ErkJggg=="

func writeRich(f *Filing, dir string) {
	seed := 0
	fmt.Sscanf(f.Tag, "rich-%d", &seed)
	year := richYear(seed)
	if files := filesOf(dir); len(files) > 0 {
		for _, old := range files {
			os.Remove(old)
		}
	}
	n := func(i int) string { return localName(1000 + i) }
	el := func(i int, typ string, more string) string {
		return fmt.Sprintf(`<xs:element id="s1_%s" name="%s" type="%s" %s nillable="true" xbrli:periodType="duration"/>`+"\n", n(i), n(i), typ, more)
	}
	const item, dimension, cube = `substitutionGroup="xbrli:item"`, `substitutionGroup="xbrldt:dimensionItem" abstract="true"`, `substitutionGroup="xbrldt:hypercubeItem" abstract="true"`
	ref := func(kind string) string {
		return fmt.Sprintf(`<link:linkbaseRef xlink:type="simple" xlink:arcrole="http://www.w3.org/1999/xlink/properties/linkbase" xlink:role="http://www.xbrl.org/2003/role/%sLinkbaseRef" xlink:href="%s.xml"/>`+"\n", kind, kind)
	}
	role := func(r int) string {
		return fmt.Sprintf(`<link:roleType id="R%02d" roleURI="%s"><link:definition>%s</link:definition><link:usedOn>link:presentationLink</link:usedOn></link:roleType>`+"\n", r, roleURI(r), roleTitle(r))
	}
	schema := xmlHead + fmt.Sprintf(`<xs:schema %s xmlns:s1="%s" targetNamespace="%s" elementFormDefault="qualified">`+"\n", schemaNS, namespace(1), namespace(1))
	schema += "<xs:annotation><xs:appinfo>\n" + ref("presentation") + ref("calculation") + ref("definition") + ref("label") + role(1) + role(2) + "</xs:appinfo></xs:annotation>\n"
	schema += fmt.Sprintf(`<xs:import namespace="%s" schemaLocation="%s"/>`+"\n", editionNS(year), editionURL(year))
	schema += fmt.Sprintf(`<xs:import namespace="%s" schemaLocation="s2.xsd"/>`+"\n"+`<xs:include schemaLocation="part.xsd"/>`+"\n", namespace(2))
	schema += el(1, "xbrli:stringItemType", item+` abstract="true"`) + el(2, "xbrli:monetaryItemType", item+` xbrli:balance="debit"`) + el(3, "xbrli:monetaryItemType", item+` xbrli:balance="credit"`) +
		el(4, "num:percentItemType", item) + el(5, "num:perShareItemType", item) + el(6, "nonnum:textBlockItemType", item) +
		el(7, "xbrli:stringItemType", dimension+fmt.Sprintf(` xbrldt:typedDomainRef="#s1_%s"`, n(12))) + el(8, "xbrli:stringItemType", dimension) +
		el(9, "nonnum:domainItemType", item+` abstract="true"`) + el(10, "nonnum:domainItemType", item+` abstract="true"`) + el(11, "xbrli:stringItemType", cube)
	schema += fmt.Sprintf(`<xs:element id="s1_%s" name="%s"><xs:complexType><xs:sequence><xs:element name="Inner" type="xs:string"/></xs:sequence></xs:complexType></xs:element>`+"\n", n(12), n(12))
	writeFile(filepath.Join(dir, "s1.xsd"), schema+"</xs:schema>\n")
	writeFile(filepath.Join(dir, "part.xsd"), xmlHead+fmt.Sprintf(`<xs:schema %s targetNamespace="%s">`+"\n", schemaNS, namespace(1))+
		el(13, "xbrli:stringItemType", item)+el(14, "nonnum:domainItemType", item+` abstract="true"`)+"</xs:schema>\n")
	writeFile(filepath.Join(dir, "s2.xsd"), xmlHead+fmt.Sprintf(`<xs:schema %s targetNamespace="%s">`+"\n", schemaNS, namespace(2))+
		`<xs:element id="s2_D" name="D" type="xbrli:decimalItemType" substitutionGroup="xbrli:item" nillable="true" xbrli:periodType="instant"/>`+"\n</xs:schema>\n")
	file := map[int]string{13: "part.xsd", 14: "part.xsd"}
	loc := func(i int) string {
		href := file[i]
		switch {
		case i == 0:
			href = editionURL(year) + "#core_" + localName(1)
		case i == 20:
			href = "s2.xsd#s2_D"
		case href == "":
			href = "s1.xsd#s1_" + n(i)
		default:
			href += "#s1_" + n(i)
		}
		return fmt.Sprintf(`<link:loc xlink:type="locator" xlink:href="%s" xlink:label="l%d"/>`+"\n", href, i)
	}
	link := func(kind string, r int, locs []int, arcs string) string {
		s := fmt.Sprintf(`<link:%sLink xlink:type="extended" xlink:role="%s">`+"\n", kind, roleURI(r))
		for _, l := range locs {
			s += loc(l)
		}
		return s + arcs + fmt.Sprintf("</link:%sLink>\n", kind)
	}
	arc := func(kind string, arcrole string, from int, to int, more string) string {
		return fmt.Sprintf(`<link:%sArc xlink:type="arc" xlink:arcrole="%s" xlink:from="l%d" xlink:to="l%d" order="%d" %s/>`+"\n", kind, arcrole, from, to, to, more)
	}
	base := func(links string) string {
		s := xmlHead + `<link:linkbase ` + xlinkNS + ` xmlns:xbrldt="http://xbrl.org/2005/xbrldt">` + "\n"
		for r := 1; r <= 2; r++ {
			s += fmt.Sprintf(`<link:roleRef roleURI="%s" xlink:type="simple" xlink:href="s1.xsd#R%02d"/>`+"\n", roleURI(r), r)
		}
		return s + links + "</link:linkbase>\n"
	}
	const child, sum = "http://www.xbrl.org/2003/arcrole/parent-child", "http://www.xbrl.org/2003/arcrole/summation-item"
	pc := func(from int, to int, more string) string { return arc("presentation", child, from, to, more) }
	writeFile(filepath.Join(dir, "presentation.xml"), base(
		link("presentation", 1, []int{1, 2, 3, 4, 5, 6, 0, 13, 20}, pc(1, 2, "")+pc(1, 3, "")+pc(2, 4, "")+pc(1, 5, `preferredLabel="http://www.xbrl.org/2003/role/terseLabel"`)+pc(1, 6, "")+pc(1, 0, "")+pc(1, 13, "")+pc(1, 20, ""))+
			link("presentation", 2, []int{1, 6, 2}, pc(1, 6, "")+pc(1, 2, ""))))
	writeFile(filepath.Join(dir, "calculation.xml"), base(link("calculation", 1, []int{2, 3, 0}, arc("calculation", sum, 2, 3, `weight="-1.0"`)+arc("calculation", sum, 2, 0, `weight="1.0"`))))
	da := func(t string, from int, to int, more string) string {
		return arc("definition", arcroles[t], from, to, more)
	}
	writeFile(filepath.Join(dir, "definition.xml"), base(
		link("definition", 1, []int{1, 2, 3, 13, 11, 7, 8, 9, 10, 14}, da("all", 1, 11, `xbrldt:closed="true" xbrldt:contextElement="segment"`)+da("dm", 1, 2, "")+da("dm", 1, 3, "")+da("dm", 1, 13, "")+
			da("hd", 11, 7, "")+da("hd", 11, 8, fmt.Sprintf(`xbrldt:targetRole="%s"`, roleURI(2)))+da("df", 8, 9, ""))+
			link("definition", 2, []int{8, 9, 10, 14, 1, 11}, da("dd", 8, 9, `xbrldt:usable="true"`)+da("dm", 9, 10, "")+da("dm", 9, 14, `xbrldt:usable="false"`)+da("not", 1, 11, `xbrldt:contextElement="scenario"`))))
	labels := `<link:labelLink xlink:type="extended" xlink:role="http://www.xbrl.org/2003/role/link">` + "\n"
	for _, i := range []int{1, 2, 5, 6, 8, 10, 0} {
		labels += loc(i) + fmt.Sprintf(`<link:labelArc xlink:type="arc" xlink:arcrole="http://www.xbrl.org/2003/arcrole/concept-label" xlink:from="l%d" xlink:to="t%d"/>`+"\n", i, i)
		labels += fmt.Sprintf(`<link:label xlink:type="resource" xlink:label="t%d" xlink:role="http://www.xbrl.org/2003/role/label" xml:lang="en-US">Label %d</link:label>`+"\n", i, i)
	}
	labels += `<link:label xlink:type="resource" xlink:label="t5" xlink:role="http://www.xbrl.org/2003/role/terseLabel" xml:lang="es">Corto</link:label>` + "\n</link:labelLink>\n"
	writeFile(filepath.Join(dir, "label.xml"), base(labels))

	ns := func(p func(int) string) string {
		return fmt.Sprintf(` xmlns:%s="%s" xmlns:%s="%s" xmlns:%s="%s"`, p(0), editionNS(year), p(1), namespace(1), p(2), namespace(2))
	}
	ctx := func(id int, seg string, period string, scen string) string {
		if seg != "" {
			seg = "<xbrli:segment>" + seg + "</xbrli:segment>"
		}
		if scen != "" {
			scen = "<xbrli:scenario>" + scen + "</xbrli:scenario>"
		}
		return fmt.Sprintf(`<xbrli:context id="%s"><xbrli:entity><xbrli:identifier scheme="%s">%s</xbrli:identifier>%s</xbrli:entity><xbrli:period>%s</xbrli:period>%s</xbrli:context>`+"\n",
			contextID(id), entityScheme(1), entityID(1), seg, period, scen)
	}
	p := func(i int) string { return prefix(i, 0) }
	explicit := func(d int, m int) string {
		return fmt.Sprintf(`<xbrldi:explicitMember dimension="s1:%s">s1:%s</xbrldi:explicitMember>`, n(d), n(m))
	}
	typed := fmt.Sprintf(`<xbrldi:typedMember dimension="s1:%s"><s1:%s><s1:Inner>typed</s1:Inner></s1:%s></xbrldi:typedMember>`, n(7), n(12), n(12))
	const duration = `<xbrli:startDate>2020-01-01</xbrli:startDate><xbrli:endDate>2020-12-31</xbrli:endDate>`
	const instant = `<xbrli:instant>2020-12-31</xbrli:instant>`
	resources := ctx(1, "", duration, "") + ctx(2, explicit(8, 10), duration, "") + ctx(3, typed, instant, "") + ctx(4, "", "<xbrli:forever/>", explicit(8, 14)) + ctx(5, explicit(8, 10)+typed, duration, typed)
	resources += `<xbrli:unit id="usd"><xbrli:measure>iso4217:USD</xbrli:measure></xbrli:unit>` + "\n" +
		`<xbrli:unit id="each"><xbrli:divide><xbrli:unitNumerator><xbrli:measure>iso4217:USD</xbrli:measure></xbrli:unitNumerator><xbrli:unitDenominator><xbrli:measure>xbrli:shares</xbrli:measure></xbrli:unitDenominator></xbrli:divide></xbrli:unit>` + "\n" +
		`<xbrli:unit id="pure"><xbrli:measure>xbrli:pure</xbrli:measure></xbrli:unit>` + "\n"
	fact := func(name string, id int, x int, more string, text string) string {
		return fmt.Sprintf(`<%s id="%s" contextRef="%s" %s>%s</%s>`+"\n", name, factID(id), contextID(x), more, text, name)
	}
	s1 := func(i int) string { return "s1:" + n(i) }
	facts := fact(s1(2), 1, 1, `unitRef="usd" decimals="-3"`, "1234000") + fact(s1(2), 2, 4, `unitRef="usd" decimals="INF"`, "-5.25") + fact(s1(3), 3, 2, `unitRef="usd" decimals="0"`, "77") +
		fact(s1(4), 4, 2, `unitRef="pure" decimals="2"`, "0.25") + fact(s1(5), 5, 1, `unitRef="each" decimals="2"`, "1.50") +
		fact(s1(6), 6, 1, "", `&lt;p&gt;A &lt;b&gt;block&lt;/b&gt; &lt;img src="pic.png"/&gt;&lt;/p&gt;`) + fact(p(0)+":"+localName(1), 7, 1, `unitRef="usd" precision="3"`, "9000") +
		fact(s1(13), 8, 3, "", "text") + fact(s1(13), 9, 5, `xsi:nil="true"`, "") + fact("s2:D", 10, 3, `unitRef="pure" decimals="0"`, "3")
	notes := `<link:footnoteLink xlink:type="extended" xlink:role="http://www.xbrl.org/2003/role/link">` + "\n" +
		fmt.Sprintf(`<link:loc xlink:type="locator" xlink:href="#%s" xlink:label="f"/>`+"\n", factID(1)) +
		`<link:footnoteArc xlink:type="arc" xlink:arcrole="http://www.xbrl.org/2003/arcrole/fact-footnote" xlink:from="f" xlink:to="n" order="1.0"/>` + "\n" +
		fmt.Sprintf(`<link:footnote id="%s" xlink:type="resource" xlink:label="n" xlink:role="http://www.xbrl.org/2003/role/footnote" xml:lang="en-US">A <xhtml:b xmlns:xhtml="http://www.w3.org/1999/xhtml">note</xhtml:b></link:footnote>`+"\n", noteID(1)) + "</link:footnoteLink>\n"
	common := ` xmlns:xbrli="http://www.xbrl.org/2003/instance" xmlns:xbrldi="http://xbrl.org/2006/xbrldi" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xmlns:iso4217="http://www.xbrl.org/2003/iso4217" ` + xlinkNS
	writeFile(filepath.Join(dir, "entry.htm.xml"), xmlHead+`<xbrli:xbrl`+common+ns(p)+">\n"+`<link:schemaRef xlink:type="simple" xlink:href="s1.xsd"/>`+"\n"+resources+facts+notes+"</xbrli:xbrl>\n")

	doc := xmlHead + `<html xmlns="http://www.w3.org/1999/xhtml" xmlns:ix="http://www.xbrl.org/2013/inlineXBRL" xmlns:ixt="http://www.xbrl.org/inlineXBRL/transformation/2015-02-26"` + common + ns(inlinePrefix) +
		`><head><title>doc</title><style>p{color:red}</style></head><body><div style="display:none"><ix:header><ix:hidden>` +
		fmt.Sprintf(`<ix:nonNumeric name="%s" contextRef="%s" id="h1">text</ix:nonNumeric>`, inlineName(1013), contextID(3)) +
		`</ix:hidden><ix:references><link:schemaRef xlink:type="simple" xlink:href="s1.xsd"/></ix:references><ix:resources></ix:resources></ix:header></div>` + "\n"
	frac := func(k int, x int, unit string, more string, text string) string {
		return fmt.Sprintf(`<p>About <ix:nonFraction name="%s" contextRef="%s" unitRef="%s" %s>%s</ix:nonFraction> &amp; more</p>`+"\n", inlineName(k), contextID(x), unit, more, text)
	}
	doc += frac(1002, 1, "usd", `decimals="-3" scale="3" format="ixt:numdotdecimal"`, "1,234") + frac(1002, 4, "usd", `decimals="INF" sign="-"`, "5.25") + frac(1005, 1, "each", `decimals="2"`, "1.50") + frac(1, 1, "usd", `precision="3"`, "9000") +
		frac(1004, 2, "pure", `decimals="2" scale="-2"`, "25")
	doc += fmt.Sprintf(`<div><ix:nonNumeric name="%s" contextRef="%s" escape="true" continuedAt="k"><p>A <b>block</b> <img src="pic.png" alt="x"/></p></ix:nonNumeric><ix:continuation id="k"><p>more</p></ix:continuation></div>`+"\n", inlineName(1006), contextID(1))
	doc += `<table><tr><td><img src="sub/pic.png"/></td><td>` + strings.Repeat("x", 20) + `</td></tr></table>` + "\n"
	writeFile(filepath.Join(dir, "entry.htm"), doc+"</body></html>\n")
	png, err := base64.StdEncoding.DecodeString(richPNG)
	if err != nil {
		fatal(err)
	}
	writeFile(filepath.Join(dir, "pic.png"), string(png))
	u, _ := json.Marshal(map[string]string{"Entry": "entry.htm", "Note": "verif"})
	writeFile(filepath.Join(dir, "_"), string(u)+"\n")
}
