package main

import (
	"encoding/json"
	"fmt"
	"html"
	"math/rand"
	"path/filepath"
	"strconv"
	"strings"
)

func init() {
	setups["numbers"] = setupNumbers
	setups["periods"] = setupPeriods
	gens["numbers"] = genNumbers
	gens["periods"] = genPeriods
}

// Numbers, see spec/Numbers.tla.

type measureRef struct {
	NS int    `json:"ns"`
	ID string `json:"id"`
}

type numbersIn struct {
	Registry []struct {
		NS   int      `json:"ns"`
		ID   string   `json:"id"`
		Name []string `json:"name"`
		Sym  []string `json:"sym"`
	} `json:"registry"`
	Units []struct {
		ID  string     `json:"id"`
		Num measureRef `json:"num"`
		Den measureRef `json:"den"`
	} `json:"units"`
	Facts []numberFact `json:"facts"`
}

type numberFact struct {
	Text []string `json:"text"`
	Dec  []string `json:"dec"`
	Pct  bool     `json:"pct"`
	U    string   `json:"u"`
}

type numberShown struct {
	Pure []string `json:"pure"`
	En   []string `json:"en"`
	Es   []string `json:"es"`
	One  []string `json:"one"`
}

type numbersOut struct {
	Crash bool          `json:"crash"`
	Err   bool          `json:"err"`
	Msg   string        `json:"msg"`
	Shown []numberShown `json:"shown"`
}

var unitNS = []string{"", "http://www.xbrl.org/2003/iso4217", "http://www.xbrl.org/2003/instance", "http://www.xbrl.org/2009/utr"}
var unitPrefix = []string{"", "cur", "xbrli", "utr"}

const langEn, langEs, langPure = "en - english", "es - español", "Unlabelled"

var plainTypes = []string{"xbrli:monetaryItemType", "xbrli:decimalItemType", "xbrli:sharesItemType", "xbrli:pureItemType", "own:percentItemType"}

func setupNumbers() engine {
	room := rooms()
	return func(line []byte) (any, error) {
		in := &numbersIn{}
		if err := json.Unmarshal(line, in); err != nil {
			return nil, err
		}
		wd := room()
		gts := filepath.Join(wd, "gts")
		utr := xmlHead + `<utr xmlns="http://www.xbrl.org/2009/utr"><units>` + "\n"
		for i, u := range in.Registry {
			sym := ""
			if len(u.Sym) > 0 {
				sym = "<symbol>" + html.EscapeString(word(u.Sym)) + "</symbol>"
			}
			utr += fmt.Sprintf(`<unit id="u%05d"><unitId>%s</unitId><unitName>%s</unitName><nsUnit>%s</nsUnit><itemType>decimalItemType</itemType>%s<definition>d</definition><status>REC</status></unit>`+"\n",
				i+1, u.ID, html.EscapeString(word(u.Name)), unitNS[u.NS], sym)
		}
		writeFile(globalPath(gts, "http://www.xbrl.org/utr/utr.xml"), utr+"</units></utr>\n")
		s := &sheet{}
		s.nsDecls = fmt.Sprintf(` xmlns:%s="%s" xmlns:%s="%s"`, unitPrefix[1], unitNS[1], unitPrefix[3], unitNS[3])
		s.contexts = `<xbrli:context id="c1"><xbrli:entity><xbrli:identifier scheme="http://e.example.com">E</xbrli:identifier></xbrli:entity><xbrli:period><xbrli:instant>2020-12-31</xbrli:instant></xbrli:period></xbrli:context>` + "\n"
		measure := func(m measureRef) string {
			return "<xbrli:measure>" + unitPrefix[m.NS] + ":" + m.ID + "</xbrli:measure>"
		}
		for _, u := range in.Units {
			s.units += `<xbrli:unit id="` + u.ID + `">`
			if u.Den.ID == "" {
				s.units += measure(u.Num)
			} else {
				s.units += "<xbrli:divide><xbrli:unitNumerator>" + measure(u.Num) + "</xbrli:unitNumerator><xbrli:unitDenominator>" + measure(u.Den) + "</xbrli:unitDenominator></xbrli:divide>"
			}
			s.units += "</xbrli:unit>\n"
		}
		for i, f := range in.Facts {
			if f.Pct {
				s.types = append(s.types, "num:percentItemType")
			} else {
				s.types = append(s.types, plainTypes[i%len(plainTypes)])
			}
			attrs := ` unitRef="` + f.U + `"`
			if d := word(f.Dec); d != "none" {
				attrs += ` decimals="` + html.EscapeString(d) + `"`
			}
			s.facts = append(s.facts, sheetFact{concept: i, context: "c1", attrs: attrs, inner: word(f.Text)})
		}
		s.write(wd)
		out := &numbersOut{}
		var r *renderableJSON
		var ones []expressableJSON
		var err error
		crash := guarded(func() { r, ones, err = s.show(wd, gts) })
		switch {
		case crash != "":
			out.Crash, out.Msg = true, head(crash, 2000)
		case err != nil:
			out.Err, out.Msg = true, err.Error()
		default:
			q := r.PGrid.FactualQuadrant
			if len(r.PGrid.IndentedLabels) != len(q) {
				out.Err = true
				break
			}
			byName := map[string]map[string]exprJSON{}
			for i, row := range q {
				if len(row) != 1 {
					out.Err = true
					break
				}
				byName[strings.TrimPrefix(r.PGrid.IndentedLabels[i].Href, "sheet.xsd#own_")] = row[0]
			}
			text := func(e exprJSON) []string { return chars(e.Head + e.Core + e.Tail) }
			for i := range in.Facts {
				m := byName[sheetName(i)]
				out.Shown = append(out.Shown, numberShown{text(m[langPure]), text(m[langEn]), text(m[langEs]), text(ones[i].Expression[langPure])})
			}
		}
		solid(out)
		return out, nil
	}
}

func genNumbers(seed int64, n int, out func(any)) {
	rng := rand.New(rand.NewSource(seed))
	digits := func(n int) string {
		s := ""
		for i := 0; i < n; i++ {
			switch rng.Intn(4) {
			case 0:
				s += "0"
			case 1:
				s += "9"
			default:
				s += strconv.Itoa(rng.Intn(10))
			}
		}
		return s
	}
	odd := []string{"", "1e5", "1,000", "--1", "+-1", "0x10", "1_000", "Inf", "NaN", "1/2", "1.2.3", ".", "-", "+", "-.", "abc", "1 000", "(1)", "１２", "1.0E2", "0b1", "1 2", "$5"}
	value := func() string {
		if rng.Intn(12) == 0 {
			return odd[rng.Intn(len(odd))]
		}
		long := 3
		switch rng.Intn(3) {
		case 0:
			long = 12
		case 1:
			long = 40
		}
		s := digits(rng.Intn(long + 1))
		if rng.Intn(3) > 0 {
			s += "." + digits(rng.Intn(long))
		}
		s = []string{"", "", "-", "+"}[rng.Intn(4)] + s
		if rng.Intn(10) == 0 {
			s = []string{" ", "\n", "\t"}[rng.Intn(3)] + s
		}
		if rng.Intn(10) == 0 {
			s += []string{" ", "\n", "\n\t "}[rng.Intn(3)]
		}
		return s
	}
	decs := []string{"INF", "INF", "none", "inf", "-INF", "", "2", "2", "+3", "-0", "007", "1.5", " 2", "2 ", "1e1", "12", "-12", "13", "100", "-100", "2147483647", "-2147483648", "-2147483647", "2147483648", "99999999999999999999", "x"}
	for i := 0; i < n; i++ {
		in := &numbersIn{}
		syms := []string{"", "", "$", "€", "ft²", "kr.", "U S"}
		names := []string{"Dollar", "Franc", "Square Foot", "Shares", "Ñandú", "Metre & Co"}
		var refs []measureRef
		ids := []string{"USD", "usd", "shares", "a1", "B"}
		for ns := 1; ns <= 3; ns++ {
			for _, id := range ids {
				refs = append(refs, measureRef{ns, id})
				if rng.Intn(4) == 0 {
					continue
				}
				in.Registry = append(in.Registry, struct {
					NS   int      `json:"ns"`
					ID   string   `json:"id"`
					Name []string `json:"name"`
					Sym  []string `json:"sym"`
				}{ns, id, chars(fmt.Sprintf("%s %s%d", names[rng.Intn(len(names))], id, ns)), chars(syms[rng.Intn(len(syms))])})
			}
		}
		rng.Shuffle(len(in.Registry), func(a, b int) { in.Registry[a], in.Registry[b] = in.Registry[b], in.Registry[a] })
		for j := 0; j < 1+rng.Intn(8); j++ {
			u := struct {
				ID  string     `json:"id"`
				Num measureRef `json:"num"`
				Den measureRef `json:"den"`
			}{ID: fmt.Sprintf("u%d", j), Num: refs[rng.Intn(len(refs))]}
			if rng.Intn(2) == 0 {
				u.Den = refs[rng.Intn(len(refs))]
			}
			in.Units = append(in.Units, u)
		}
		rng.Shuffle(len(in.Units), func(a, b int) { in.Units[a], in.Units[b] = in.Units[b], in.Units[a] })
		for j := 0; j < 10+rng.Intn(40); j++ {
			d := strconv.Itoa(rng.Intn(25) - 12)
			if rng.Intn(2) == 0 {
				d = decs[rng.Intn(len(decs))]
			}
			in.Facts = append(in.Facts, numberFact{chars(value()), chars(d), rng.Intn(4) == 0, fmt.Sprintf("u%d", rng.Intn(len(in.Units)+1))})
		}
		solid(in)
		out(in)
	}
}

// Periods, see spec/Periods.tla.

type periodIn struct {
	Kind string   `json:"kind"`
	S    []string `json:"s"`
	E    []string `json:"e"`
}

type periodsIn struct {
	Periods []periodIn `json:"periods"`
}

type header struct {
	Pure string `json:"pure"`
	En   string `json:"en"`
	Es   string `json:"es"`
}

type periodsOut struct {
	Crash bool          `json:"crash"`
	Err   bool          `json:"err"`
	Msg   string        `json:"msg"`
	Shown []periodShown `json:"shown"`
}

type periodShown struct {
	Grids []header `json:"grids"`
	One   header   `json:"one"`
}

func setupPeriods() engine {
	room := rooms()
	return func(line []byte) (any, error) {
		in := &periodsIn{}
		if err := json.Unmarshal(line, in); err != nil {
			return nil, err
		}
		wd := room()
		s := &sheet{types: []string{"xbrli:stringItemType"}, calc: true}
		for i, p := range in.Periods {
			s.contexts += fmt.Sprintf(`<xbrli:context id="c%d"><xbrli:entity><xbrli:identifier scheme="http://e.example.com">E</xbrli:identifier></xbrli:entity><xbrli:period>`, i)
			a, b := html.EscapeString(word(p.S)), html.EscapeString(word(p.E))
			if p.Kind == "i" {
				s.contexts += "<xbrli:instant>" + b + "</xbrli:instant>"
			} else {
				s.contexts += "<xbrli:startDate>" + a + "</xbrli:startDate><xbrli:endDate>" + b + "</xbrli:endDate>"
			}
			s.contexts += "</xbrli:period></xbrli:context>\n"
			s.facts = append(s.facts, sheetFact{context: fmt.Sprintf("c%d", i), inner: fmt.Sprintf("value %d", i)})
		}
		s.write(wd)
		writeGlobal(filepath.Join(wd, "gts"))
		out := &periodsOut{}
		var r *renderableJSON
		var ones []expressableJSON
		var err error
		crash := guarded(func() { r, ones, err = s.show(wd, filepath.Join(wd, "gts")) })
		switch {
		case crash != "":
			out.Crash, out.Msg = true, head(crash, 2000)
		case err != nil:
			out.Err, out.Msg = true, err.Error()
		default:
			out.Shown = make([]periodShown, len(in.Periods))
			get := func(m map[string]string) header { return header{m[langPure], m[langEn], m[langEs]} }
			take := func(g gridJSON, row int) {
				if row >= len(g.FactualQuadrant) || len(g.FactualQuadrant[row]) != len(g.PeriodHeaders) || len(g.PeriodHeaders) != len(in.Periods) {
					out.Err = true
					out.Msg = "grid of unexpected size"
					return
				}
				for j, m := range g.PeriodHeaders {
					i, err := strconv.Atoi(strings.TrimPrefix(g.FactualQuadrant[row][j][langPure].Core, "value "))
					if err != nil || i < 0 || i >= len(in.Periods) {
						out.Err = true
						out.Msg = "unexpected cell"
						return
					}
					out.Shown[i].Grids = append(out.Shown[i].Grids, get(m))
				}
			}
			take(r.PGrid.gridJSON, 1)
			if len(r.CGrid.SummationItems) == 1 && len(r.DGrid.RootDomains) == 1 {
				take(r.CGrid.SummationItems[0].gridJSON, 1)
				take(r.DGrid.RootDomains[0].gridJSON, 1)
			} else {
				out.Err = true
				out.Msg = "no calculation or table"
			}
			for i := range in.Periods {
				out.Shown[i].One = get(ones[i].Context.Period)
			}
		}
		solid(out)
		return out, nil
	}
}

func genPeriods(seed int64, n int, out func(any)) {
	rng := rand.New(rand.NewSource(seed))
	date := func() string {
		y := 1900 + rng.Intn(250)
		if rng.Intn(10) == 0 {
			y = rng.Intn(10000)
		}
		d := 1 + rng.Intn(28)
		if rng.Intn(3) == 0 {
			d = 26 + rng.Intn(6)
		}
		return fmt.Sprintf("%04d-%02d-%02d", y, 1+rng.Intn(12), d)
	}
	near := func(s string) string {
		y, _ := strconv.Atoi(s[:4])
		m, _ := strconv.Atoi(s[5:7])
		m += rng.Intn(28) - 2
		for m > 12 {
			m -= 12
			y++
		}
		if m < 1 {
			m += 12
			y--
		}
		if y < 0 {
			y = 0
		}
		d := 1 + rng.Intn(31)
		return fmt.Sprintf("%04d-%02d-%02d", y%10000, m, d)
	}
	odd := []string{"2020-1-01", "2020-01-1", "20-01-01", "2020/01/01", "01-01-2020", "2020-13-01", "2020-00-10", "2020-01-00", "2020-01-32", "2021-02-29",
		"2020-12-31T00:00:00", "2020-12-31Z", "forever", "-2020-01-01", "02020-01-01", "2020-01-01x", "x2020-01-01", "２０２０-01-01", "2020 01 01", "20200101", "2020-01", "2020",
		"2020-01-01/2020-12-31", "/2020-12-31", "2020-12-31/"}
	text := func(s string) []string {
		if rng.Intn(12) == 0 {
			s = "\n  " + s
		}
		if rng.Intn(12) == 0 {
			s += " \t\n"
		}
		return chars(s)
	}
	for i := 0; i < n; i++ {
		in := &periodsIn{}
		for j := 0; j < 5+rng.Intn(30); j++ {
			a, b := date(), date()
			if rng.Intn(2) == 0 {
				b = near(a)
			}
			if rng.Intn(10) == 0 {
				b = odd[rng.Intn(len(odd))]
			}
			if rng.Intn(12) == 0 {
				a = odd[rng.Intn(len(odd))]
			}
			p := periodIn{Kind: "d", S: text(a), E: text(b)}
			if rng.Intn(3) == 0 {
				p.Kind, p.S = "i", []string{}
			}
			if rng.Intn(60) == 0 {
				p.E = []string{}
			}
			in.Periods = append(in.Periods, p)
		}
		out(in)
	}
}
