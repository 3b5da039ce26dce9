package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// The JSON that the service answers with, as far as it is looked at.

type packJSON map[string]map[string]string

type hdrJSON struct {
	IsParenthesized bool
	Indentation     int
	Dimension       struct {
		Href  string
		Label packJSON
	}
	TypedDomain *struct {
		Href  string
		Label packJSON
	}
}

type memJSON struct {
	ExplicitMember *struct {
		Href  string
		Label packJSON
	}
	TypedMember string
}

type exprJSON struct{ Head, Core, Tail, InnerHtml string }

type gridJSON struct {
	PeriodHeaders        []map[string]string
	ContextualMemberGrid [][]*memJSON
	VoidQuadrant         []*hdrJSON
	FactualQuadrant      [][]map[string]exprJSON
	FootnoteGrid         [][][]int
	Footnotes            []string
}

type renderableJSON struct {
	RelationshipSet struct{ Title, RoleURI string }
	Subject         struct {
		Name   string
		Entity struct{ Scheme, CharData string }
	}
	Lang       []string
	LabelRoles []string
	PGrid      struct {
		IndentedLabels []struct {
			Href        string
			Label       packJSON
			Indentation int
		}
		gridJSON
	}
	DGrid struct {
		RootDomains []struct {
			Href         string
			Label        packJSON
			PrimaryItems []struct {
				Href  string
				Label packJSON
				Level int
			}
			gridJSON
			EffectiveDomainGrid [][][]struct {
				Href            string
				Label           packJSON
				IsDefault       bool
				IsStrikethrough bool
			}
			EffectiveDimensions []struct {
				Href  string
				Label packJSON
			}
		}
		DRS struct {
			Nodes []struct {
				Href  string
				Label packJSON
			}
			Links []struct {
				SourceHref, TargetHref string
				HypercubeConnection    *struct {
					IsClosed, IsInclusive    bool
					ContextElement, External string
				}
				HypercubeDimensionConnection *struct{ Order, External string }
				DimensionDomainConnection    *struct {
					Order, External string
					Default, Usable bool
				}
				DomainMemberConnection *struct {
					Order, External string
					Usable          bool
				}
			}
		}
	}
	CGrid struct {
		SummationItems []struct {
			Href        string
			Label       packJSON
			BalanceType string
			gridJSON
			ContributingConcepts []struct {
				Sign, Scale, BalanceType, Href string
				Label                          packJSON
				IsSummationItem                bool
			}
		}
	}
}

type catalogJSON struct {
	Subjects []struct {
		Name   string
		Entity struct{ Scheme, CharData string }
	}
	RelationshipSets []struct{ Title, RoleURI string }
	Networks         map[string]map[string]string
	DocumentName     string
}

type expressableJSON struct {
	Href    string
	Labels  packJSON
	Context struct {
		Period               map[string]string
		VoidQuadrant         []*hdrJSON
		ContextualMemberGrid [][]*memJSON
	}
	Expression map[string]exprJSON
	Footnotes  []string
}

// The observations of spec/Filing.tla.

type oLab struct {
	Role int `json:"role"`
	Lang int `json:"lang"`
	T    int `json:"t"`
}
type oPack struct {
	K    int    `json:"k"`
	Head bool   `json:"head"`
	Lab  []oLab `json:"lab"`
}
type oHdr struct {
	D   int  `json:"d"`
	TD  int  `json:"td"`
	Par bool `json:"par"`
	Ind int  `json:"ind"`
}
type oGrid struct {
	Cols  []int     `json:"cols"`
	Hdr   []oHdr    `json:"hdr"`
	Mem   [][]int   `json:"mem"`
	Cells [][]int   `json:"cells"`
	Fn    [][][]int `json:"fn"`
	Notes []int     `json:"notes"`
}
type oRow struct {
	K  int `json:"k"`
	Lv int `json:"lv"`
}
type oCon struct {
	K     int  `json:"k"`
	Neg   bool `json:"neg"`
	Scale int  `json:"scale"`
	Bal   int  `json:"bal"`
	Sum   bool `json:"sum"`
}
type oSum struct {
	K   int    `json:"k"`
	Bal int    `json:"bal"`
	Con []oCon `json:"con"`
	G   oGrid  `json:"g"`
}
type oEff struct {
	K   int  `json:"k"`
	Def bool `json:"def"`
	Str bool `json:"str"`
}
type oTab struct {
	K     int        `json:"k"`
	Items []oRow     `json:"items"`
	Dims  []int      `json:"dims"`
	Ed    [][][]oEff `json:"ed"`
	G     oGrid      `json:"g"`
}
type oLink struct {
	A      int    `json:"a"`
	B      int    `json:"b"`
	T      string `json:"t"`
	O      int    `json:"o"`
	Def    bool   `json:"def"`
	Usable bool   `json:"usable"`
	Closed bool   `json:"closed"`
	Ce     int    `json:"ce"`
	Tr     int    `json:"tr"`
}
type oView struct {
	E     int     `json:"e"`
	R     int     `json:"r"`
	Err   bool    `json:"err"`
	Subj  int     `json:"subj"`
	Name  int     `json:"name"`
	RS    int     `json:"rs"`
	Title int     `json:"title"`
	Kinds []int   `json:"kinds"`
	Langs []int   `json:"langs"`
	Rows  []oRow  `json:"rows"`
	G     oGrid   `json:"g"`
	Sums  []oSum  `json:"sums"`
	Tabs  []oTab  `json:"tabs"`
	Nodes []int   `json:"nodes"`
	Links []oLink `json:"links"`
	Labs  []oPack `json:"labs"`
}
type oSub struct {
	E    int `json:"e"`
	Name int `json:"name"`
}
type oNet struct {
	E    int    `json:"e"`
	R    int    `json:"r"`
	Slug string `json:"slug"`
}
type oRset struct {
	R int `json:"r"`
	T int `json:"t"`
}
type oCat struct {
	Err   bool    `json:"err"`
	Subs  []oSub  `json:"subs"`
	Rsets []oRset `json:"rsets"`
	Nets  []oNet  `json:"nets"`
	Doc   bool    `json:"doc"`
}
type oSingle struct {
	Q     Tag    `json:"q"`
	Found bool   `json:"found"`
	Err   bool   `json:"err"`
	K     int    `json:"k"`
	Lab   []oLab `json:"lab"`
	P     int    `json:"p"`
	G     oGrid  `json:"g"`
	Tok   int    `json:"tok"`
	Notes []int  `json:"notes"`
}
type oFiling struct {
	Crash    bool      `json:"crash"`
	Err      bool      `json:"err"`
	Msg      string    `json:"msg"`
	Cat      oCat      `json:"cat"`
	Views    []oView   `json:"views"`
	Unlisted bool      `json:"unlisted"` // an address that is not listed was refused
	Singles  []oSingle `json:"singles"`
	Stray    bool      `json:"stray"` // a name or context that is not tagged gave a fact
	Same     bool      `json:"same"`  // all repetitions gave the same bytes
}

type decoder struct {
	hrefs   map[string]int
	brief   map[string]int
	periods map[string]int
	labels  map[string]int
	typed   map[string]int
	values  map[string]int
	notes   map[string]int
	roles   map[string]int
	titles  map[string]int
	ents    map[string]int
	orders  map[string]int
}

func newDecoder(f *Filing) *decoder {
	spell = f.Style >> 8 % spellings
	d := &decoder{hrefs: map[string]int{}, brief: map[string]int{}, periods: map[string]int{}, labels: map[string]int{}, typed: map[string]int{},
		values: map[string]int{}, notes: map[string]int{}, roles: map[string]int{}, titles: map[string]int{}, ents: map[string]int{}, orders: map[string]int{}}
	add := func(k int) {
		d.hrefs[href(k)] = k
		d.brief["#"+conceptID(k)] = k
	}
	for _, c := range f.Concepts {
		add(c.K)
	}
	for _, ls := range [][]Link{f.Pre, f.Cal, f.Def} {
		for _, l := range ls {
			for _, loc := range l.Locs {
				add(loc.K)
			}
			for _, a := range l.Arcs {
				for _, o := range []int{a.O, a.W, -a.W} {
					d.orders[strconv.FormatFloat(orderValue(o), 'f', -1, 64)] = o
				}
			}
		}
	}
	for i, p := range f.Periods {
		d.periods[p] = i + 1
	}
	for _, l := range f.Lab {
		for _, r := range l.Res {
			d.labels[labelText(r.T)] = r.T
		}
	}
	for _, x := range f.Ctx {
		for _, ts := range [][]TMem{x.Tseg, x.Tscen} {
			for _, t := range ts {
				for _, el := range t.Els {
					if el.V != 0 {
						d.typed[typedText(el.V)] = el.V
					}
				}
			}
		}
		d.ents[entityScheme(x.E)+" "+entityID(x.E)] = x.E
	}
	for _, ft := range f.Facts {
		d.values[textValue(ft.V)] = ft.V
		d.values[factValue(ft.V)] = ft.V
	}
	for _, l := range f.Fn {
		for _, n := range l.Notes {
			d.notes[noteText(n.ID)] = n.ID
		}
	}
	for _, r := range f.Roles {
		d.roles[roleURI(r.R)] = r.R
		d.titles[roleTitle(r.T)] = r.T
	}
	return d
}

func look(m map[string]int, s string) int {
	if v, ok := m[s]; ok {
		return v
	}
	return -1
}

var kindNames = map[string]int{"Default": 1, "Terse": 2, "Verbose": 3}
var langNames = map[string]int{"Unlabelled": 1, "Truncated": 2, "en - english": 3, "es - español": 4}

func (d *decoder) pack(p packJSON) []oLab {
	ret := make([]oLab, 0)
	for role, langs := range p {
		for lang, text := range langs {
			l := oLab{Role: look(kindNames, role), Lang: look(langNames, lang)}
			switch l.Lang {
			case 1:
				l.T = look(d.hrefs, text)
			case 2:
				l.T = look(d.brief, text)
			default:
				l.T = look(d.labels, text)
			}
			ret = append(ret, l)
		}
	}
	sort.Slice(ret, func(i, j int) bool {
		a, b := ret[i], ret[j]
		if a.Role != b.Role {
			return a.Role < b.Role
		}
		if a.Lang != b.Lang {
			return a.Lang < b.Lang
		}
		return a.T < b.T
	})
	return ret
}

// token reads a cell back: the token of the fact it expresses, 0 for an empty
// cell, -2 for nil, -1 for anything else, -9 when languages disagree.
func (d *decoder) token(cell map[string]exprJSON) int {
	if len(cell) == 0 {
		return -8
	}
	if _, ok := cell["Unlabelled"]; !ok {
		return -8
	}
	first, tok := true, 0
	for _, e := range cell {
		t := d.expr(e)
		if !first && t != tok {
			return -9
		}
		first, tok = false, t
	}
	return tok
}

func (d *decoder) expr(e exprJSON) int {
	if e.Head == "" && e.Core == "" && e.Tail == "" && e.InnerHtml == "" {
		return 0
	}
	if e.Core == "nil" && e.Head == "" && e.Tail == "" && e.InnerHtml == "" {
		return -2
	}
	if e.InnerHtml != "" && e.Head == "" && e.Core == "" && e.Tail == "" {
		return look(d.values, strings.TrimSpace(e.InnerHtml))
	}
	s := e.Head + e.Core + e.Tail
	if v, ok := d.values[s]; ok {
		return v
	}
	s = strings.NewReplacer(",", "", " ", "", "$", "").Replace(s)
	s = strings.TrimSuffix(s, ".00")
	return look(d.values, s)
}

func (d *decoder) period(m map[string]string) int {
	p, ok := m["Unlabelled"]
	if !ok {
		return -8
	}
	return look(d.periods, p)
}

func (d *decoder) header(hdr []*hdrJSON, mem [][]*memJSON) ([]oHdr, [][]int) {
	oh, om := make([]oHdr, 0), make([][]int, 0)
	for _, h := range hdr {
		if h == nil {
			oh = append(oh, oHdr{D: -8})
			continue
		}
		o := oHdr{D: look(d.hrefs, h.Dimension.Href), Par: h.IsParenthesized, Ind: h.Indentation}
		if h.TypedDomain != nil {
			o.TD = look(d.hrefs, h.TypedDomain.Href)
		}
		oh = append(oh, o)
	}
	for _, row := range mem {
		or := make([]int, 0)
		for _, c := range row {
			v := 0
			if c != nil && c.ExplicitMember != nil && c.TypedMember == "" {
				v = look(d.hrefs, c.ExplicitMember.Href)
			} else if c != nil && c.ExplicitMember == nil && c.TypedMember != "" {
				v = look(d.typed, c.TypedMember)
			} else if c != nil && c.ExplicitMember != nil {
				v = -7
			}
			or = append(or, v)
		}
		om = append(om, or)
	}
	return oh, om
}

func (d *decoder) grid(g gridJSON) oGrid {
	o := oGrid{}
	for _, p := range g.PeriodHeaders {
		o.Cols = append(o.Cols, d.period(p))
	}
	o.Hdr, o.Mem = d.header(g.VoidQuadrant, g.ContextualMemberGrid)
	for _, row := range g.FactualQuadrant {
		or := make([]int, 0)
		for _, c := range row {
			or = append(or, d.token(c))
		}
		o.Cells = append(o.Cells, or)
	}
	o.Fn = g.FootnoteGrid
	for _, n := range g.Footnotes {
		o.Notes = append(o.Notes, look(d.notes, n))
	}
	return o
}

func (d *decoder) gridLabs(g gridJSON, packs *[]oPack) {
	for _, h := range g.VoidQuadrant {
		if h == nil {
			continue
		}
		*packs = append(*packs, oPack{K: look(d.hrefs, h.Dimension.Href), Head: true, Lab: d.pack(h.Dimension.Label)})
		if h.TypedDomain != nil {
			*packs = append(*packs, oPack{K: look(d.hrefs, h.TypedDomain.Href), Head: true, Lab: d.pack(h.TypedDomain.Label)})
		}
	}
	for _, row := range g.ContextualMemberGrid {
		for _, c := range row {
			if c != nil && c.ExplicitMember != nil {
				*packs = append(*packs, oPack{K: look(d.hrefs, c.ExplicitMember.Href), Head: true, Lab: d.pack(c.ExplicitMember.Label)})
			}
		}
	}
}

func balance(s string) int {
	switch s {
	case "":
		return 0
	case "debit":
		return 1
	case "credit":
		return 2
	}
	return -1
}

// order reads back an order value, which may be written in any way.
func (d *decoder) order(s string) int {
	v, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return -99999
	}
	o, ok := d.orders[strconv.FormatFloat(v, 'f', -1, 64)]
	if !ok {
		return -99998
	}
	return o
}

func (d *decoder) role(s string) int {
	if s == "" {
		return 0
	}
	return look(d.roles, s)
}

func (d *decoder) name(name string, scheme string, id string, e int) int {
	if e >= 0 && name == entityName(e) {
		return 1
	}
	if name == scheme+"/"+id {
		return 0
	}
	return -1
}

func (d *decoder) view(data []byte, e int, r int) (oView, error) {
	v := oView{E: e, R: r}
	j := renderableJSON{}
	if err := json.Unmarshal(data, &j); err != nil {
		return v, err
	}
	v.Subj = look(d.ents, j.Subject.Entity.Scheme+" "+j.Subject.Entity.CharData)
	v.Name = d.name(j.Subject.Name, j.Subject.Entity.Scheme, j.Subject.Entity.CharData, v.Subj)
	v.RS = look(d.roles, j.RelationshipSet.RoleURI)
	v.Title = look(d.titles, j.RelationshipSet.Title)
	for _, k := range j.LabelRoles {
		v.Kinds = append(v.Kinds, look(kindNames, k))
	}
	for _, l := range j.Lang {
		v.Langs = append(v.Langs, look(langNames, l))
	}
	see := func(head bool, href string, p packJSON) {
		v.Labs = append(v.Labs, oPack{K: look(d.hrefs, href), Head: head, Lab: d.pack(p)})
	}
	for _, row := range j.PGrid.IndentedLabels {
		v.Rows = append(v.Rows, oRow{K: look(d.hrefs, row.Href), Lv: row.Indentation})
		see(true, row.Href, row.Label)
	}
	v.G = d.grid(j.PGrid.gridJSON)
	d.gridLabs(j.PGrid.gridJSON, &v.Labs)
	for _, s := range j.CGrid.SummationItems {
		o := oSum{K: look(d.hrefs, s.Href), Bal: balance(s.BalanceType), G: d.grid(s.gridJSON)}
		see(true, s.Href, s.Label)
		d.gridLabs(s.gridJSON, &v.Labs)
		for _, c := range s.ContributingConcepts {
			see(true, c.Href, c.Label)
			oc := oCon{K: look(d.hrefs, c.Href), Neg: c.Sign == "-", Scale: d.order(c.Scale), Bal: balance(c.BalanceType), Sum: c.IsSummationItem}
			if c.Sign != "-" && c.Sign != "+" {
				oc.Scale = -99998
			}
			o.Con = append(o.Con, oc)
		}
		v.Sums = append(v.Sums, o)
	}
	for _, t := range j.DGrid.RootDomains {
		o := oTab{K: look(d.hrefs, t.Href), G: d.grid(t.gridJSON)}
		see(true, t.Href, t.Label)
		d.gridLabs(t.gridJSON, &v.Labs)
		for _, p := range t.PrimaryItems {
			see(true, p.Href, p.Label)
			o.Items = append(o.Items, oRow{K: look(d.hrefs, p.Href), Lv: p.Level})
		}
		for _, p := range t.EffectiveDimensions {
			see(true, p.Href, p.Label)
			o.Dims = append(o.Dims, look(d.hrefs, p.Href))
		}
		for _, row := range t.EffectiveDomainGrid {
			or := make([][]oEff, 0)
			for _, c := range row {
				oc := make([]oEff, 0)
				for _, m := range c {
					see(false, m.Href, m.Label)
					oc = append(oc, oEff{K: look(d.hrefs, m.Href), Def: m.IsDefault, Str: m.IsStrikethrough})
				}
				or = append(or, oc)
			}
			o.Ed = append(o.Ed, or)
		}
		v.Tabs = append(v.Tabs, o)
	}
	for _, n := range j.DGrid.DRS.Nodes {
		see(false, n.Href, n.Label)
		v.Nodes = append(v.Nodes, look(d.hrefs, n.Href))
	}
	for _, l := range j.DGrid.DRS.Links {
		o := oLink{A: look(d.hrefs, l.SourceHref), B: look(d.hrefs, l.TargetHref), T: "other", Usable: true}
		n := 0
		if c := l.HypercubeConnection; c != nil {
			n++
			o.T = "not"
			if c.IsInclusive {
				o.T = "all"
			}
			o.Closed = c.IsClosed
			o.Ce = map[string]int{"": 0, "segment": 1, "scenario": 2}[c.ContextElement]
			o.Tr = d.role(c.External)
		}
		if c := l.HypercubeDimensionConnection; c != nil {
			n++
			o.T, o.O, o.Tr = "hd", d.order(c.Order), d.role(c.External)
		}
		if c := l.DimensionDomainConnection; c != nil {
			n++
			o.T, o.O, o.Tr, o.Def, o.Usable = "dd", d.order(c.Order), d.role(c.External), c.Default, c.Usable
			if c.Default {
				o.T = "df"
			}
		}
		if c := l.DomainMemberConnection; c != nil {
			n++
			o.T, o.O, o.Tr, o.Usable = "dm", d.order(c.Order), d.role(c.External), c.Usable
		}
		if n > 1 {
			o.T = "several"
		}
		v.Links = append(v.Links, o)
	}
	return v, nil
}

func (d *decoder) catalog(data []byte) (oCat, error) {
	o := oCat{}
	j := catalogJSON{}
	if err := json.Unmarshal(data, &j); err != nil {
		return o, err
	}
	for _, s := range j.Subjects {
		e := look(d.ents, s.Entity.Scheme+" "+s.Entity.CharData)
		o.Subs = append(o.Subs, oSub{E: e, Name: d.name(s.Name, s.Entity.Scheme, s.Entity.CharData, e)})
	}
	for _, r := range j.RelationshipSets {
		o.Rsets = append(o.Rsets, oRset{R: look(d.roles, r.RoleURI), T: look(d.titles, r.Title)})
	}
	ents := map[string]int{}
	for s, e := range d.ents {
		ents[strings.Replace(s, " ", "/", 1)] = e
	}
	for ent, roles := range j.Networks {
		for role, slug := range roles {
			o.Nets = append(o.Nets, oNet{E: look(ents, ent), R: look(d.roles, role), Slug: slug})
		}
	}
	sort.Slice(o.Nets, func(i, k int) bool {
		if o.Nets[i].E != o.Nets[k].E {
			return o.Nets[i].E < o.Nets[k].E
		}
		return o.Nets[i].R < o.Nets[k].R
	})
	o.Doc = j.DocumentName != ""
	return o, nil
}

func (d *decoder) single(data []byte, q Tag) (oSingle, error) {
	o := oSingle{Q: q}
	if len(data) == 0 || string(data) == "null" {
		return o, nil
	}
	j := expressableJSON{}
	if err := json.Unmarshal(data, &j); err != nil {
		return o, fmt.Errorf("%v in %q", err, string(data))
	}
	o.Found = true
	o.K = look(d.hrefs, j.Href)
	o.Lab = d.pack(j.Labels)
	o.P = d.period(j.Context.Period)
	o.G.Hdr, o.G.Mem = d.header(j.Context.VoidQuadrant, j.Context.ContextualMemberGrid)
	o.Tok = d.token(j.Expression)
	for _, n := range j.Footnotes {
		o.Notes = append(o.Notes, look(d.notes, n))
	}
	return o, nil
}
