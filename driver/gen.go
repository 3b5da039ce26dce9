package main

import (
	"fmt"
	"math/rand"
	"sort"
)

// Random filings.  The shape restrictions (a concept with children has one
// locator per network, no shared subtrees, one locator per concept in
// calculation and definition links) are those of spec/Filing.tla.

type profile struct {
	name                     string
	roles, ents, ctxs, facts int // upper bounds
	items, dims              int
	pre, cal, def            int // per cent of the roles that have such a network
	lab, fn                  int // per cent
	single                   bool
	noise                    bool
	long                     bool // large trees
	split                    int  // per cent of the networks spread over two links
}

var profiles = map[string]profile{
	"pre":    {roles: 3, ents: 1, ctxs: 2, facts: 6, items: 14, pre: 100, split: 40},
	"prebig": {roles: 2, ents: 1, ctxs: 2, facts: 6, items: 40, pre: 100, split: 40, long: true},
	"grid":   {roles: 2, ents: 3, ctxs: 9, facts: 30, items: 8, dims: 4, pre: 90, cal: 40, def: 40, fn: 0},
	"dense":  {roles: 1, ents: 2, ctxs: 14, facts: 60, items: 6, dims: 3, pre: 100, cal: 30, def: 30},
	"foot":   {roles: 2, ents: 2, ctxs: 4, facts: 16, items: 6, dims: 1, pre: 90, cal: 40, def: 30, fn: 100},
	"cal":    {roles: 3, ents: 2, ctxs: 3, facts: 12, items: 10, pre: 10, cal: 100, split: 40},
	"def":    {roles: 2, ents: 1, ctxs: 3, facts: 10, items: 9, dims: 4, pre: 10, def: 100, split: 30},
	"lab":    {roles: 2, ents: 2, ctxs: 4, facts: 8, items: 6, dims: 3, pre: 80, cal: 50, def: 50, lab: 100},
	"cat":    {roles: 7, ents: 5, ctxs: 8, facts: 6, items: 4, dims: 1, pre: 50, cal: 20, def: 20},
	"single": {roles: 1, ents: 2, ctxs: 6, facts: 14, items: 7, dims: 4, pre: 40, lab: 60, fn: 60, single: true},
	"noise":  {roles: 2, ents: 2, ctxs: 5, facts: 14, items: 7, dims: 3, pre: 90, cal: 60, def: 60, lab: 70, fn: 60, single: true, noise: true},
	"mix":    {roles: 3, ents: 3, ctxs: 6, facts: 24, items: 9, dims: 3, pre: 80, cal: 60, def: 60, lab: 70, fn: 50, single: true, split: 20},
}

func init() {
	for name := range profiles {
		p := profiles[name]
		p.name = name
		gens["filing-"+name] = func(seed int64, n int, out func(any)) {
			for i := 0; i < n; i++ {
				rng := rand.New(rand.NewSource(seed*1000003 + int64(i)*7919 + int64(len(p.name))*31 + int64(p.name[0])))
				f := randomFiling(rng, p)
				f.Tag = fmt.Sprintf("%s-%d-%d", p.name, seed, i)
				solid(f)
				out(f)
			}
		}
	}
}

var periodPool = []string{
	"2018-12-31", "2019-01-01/2019-12-31", "2019-06-30", "2019-12-31", "2020-01-01/2020-01-31", "2020-01-01/2020-03-31",
	"2020-01-01/2020-12-31", "2020-02-29", "2020-03-31", "2020-04-01/2020-06-30", "2020-12-31", "2021-12-25",
}

type builder struct {
	rng  *rand.Rand
	p    profile
	f    *Filing
	used map[int]bool
	// by purpose
	items, abstracts, dims, tdims, members, cubes, tds []int
	text                                               int
}

func (b *builder) pct(n int) bool { return b.rng.Intn(100) < n }
func (b *builder) pick(s []int) int {
	return s[b.rng.Intn(len(s))]
}
func (b *builder) upto(n int) int {
	if n <= 0 {
		return 0
	}
	return b.rng.Intn(n + 1)
}
func (b *builder) some(n int) int {
	if n <= 1 {
		return 1
	}
	return 1 + b.rng.Intn(n)
}

// subset picks n different values.
func (b *builder) subset(s []int, n int) []int {
	idx := b.rng.Perm(len(s))
	ret := make([]int, 0)
	for i := 0; i < n && i < len(idx); i++ {
		ret = append(ret, s[idx[i]])
	}
	return ret
}

func (b *builder) newConcept(files int, c Concept) int {
	for {
		k := (1+b.rng.Intn(files))*1000 + 1 + b.rng.Intn(200)
		if !b.used[k] {
			b.used[k] = true
			c.K = k
			b.f.Concepts = append(b.f.Concepts, c)
			return k
		}
	}
}

func randomFiling(rng *rand.Rand, p profile) *Filing {
	b := &builder{rng: rng, p: p, f: &Filing{}, used: map[int]bool{}}
	f := b.f
	files := 1 + rng.Intn(3)
	if rng.Intn(3) == 0 {
		f.Style = rng.Intn(256)
	} else if rng.Intn(2) == 0 {
		f.Style = 1 << rng.Intn(8)
	}
	if rng.Intn(2) == 0 {
		f.Style |= rng.Intn(spellings) << 8
	}
	for i, n := 0, 2+b.some(p.items); i < n; i++ {
		c := Concept{Typ: "str"}
		switch rng.Intn(5) {
		case 0:
			c.Abs = true
		case 1, 2:
			c.Typ, c.Bal = "mon", rng.Intn(3)
		case 3:
			c.Typ = "num"
		}
		k := b.newConcept(files, c)
		if c.Abs {
			b.abstracts = append(b.abstracts, k)
		} else {
			b.items = append(b.items, k)
		}
	}
	if rng.Intn(2) == 0 {
		for _, c := range globalConcepts() {
			if rng.Intn(3) == 0 {
				f.Concepts = append(f.Concepts, c)
				b.used[c.K] = true
				if c.Abs {
					b.abstracts = append(b.abstracts, c.K)
				} else {
					b.items = append(b.items, c.K)
				}
			}
		}
	}
	if len(b.items) == 0 {
		b.items = append(b.items, b.newConcept(files, Concept{Typ: "str"}))
	}
	for i, n := 0, b.upto(p.dims); i < n; i++ {
		b.dims = append(b.dims, b.newConcept(files, Concept{Typ: "str", Abs: true}))
	}
	if len(b.dims) > 0 {
		for i, n := 0, 1+b.some(4); i < n; i++ {
			b.members = append(b.members, b.newConcept(files, Concept{Typ: "str", Abs: true}))
		}
	}
	for i, n := 0, b.upto(p.dims/2); i < n; i++ {
		for j := 0; j < 3; j++ {
			b.tds = append(b.tds, b.newConcept(files, Concept{Typ: "td"}))
		}
		b.tdims = append(b.tdims, b.newConcept(files, Concept{Typ: "str", Abs: true, TD: b.pick(b.tds)}))
	}
	for i, n := 0, b.some(2); i < n; i++ {
		b.cubes = append(b.cubes, b.newConcept(files, Concept{Typ: "str", Abs: true}))
	}
	titles := rng.Perm(40)
	for i, n := 0, b.some(p.roles); i < n; i++ {
		t := titles[i]
		if i > 0 && b.pct(20) {
			t = f.Roles[0].T
		}
		f.Roles = append(f.Roles, Role{R: i + 1, T: t, F: 1 + rng.Intn(files)})
	}
	rng.Shuffle(len(f.Roles), func(i, j int) { f.Roles[i], f.Roles[j] = f.Roles[j], f.Roles[i] })
	b.contexts()
	b.facts()
	for _, r := range f.Roles {
		if b.pct(p.pre) {
			b.presentation(r.R)
		}
		if b.pct(p.cal) {
			b.calculation(r.R)
		}
		if b.pct(p.def) {
			b.definition(r.R)
		}
	}
	if b.pct(p.lab) {
		b.labels()
	}
	if b.pct(p.fn) {
		b.footnotes()
	}
	if p.single && b.pct(70) {
		b.inline()
	}
	if p.noise {
		all := []string{"missing-linkbase", "missing-schema", "bad-roletype", "bad-concept", "bad-arc", "bad-loc", "bad-link", "bad-label", "bad-context", "bad-unit", "bad-fact", "bad-footnote", "comments"}
		for _, n := range all {
			if b.pct(30) {
				f.Noise = append(f.Noise, n)
			}
		}
		if len(f.Noise) == 0 || b.pct(60) {
			f.Noise = append(f.Noise, fmt.Sprintf("litter%d", 1+rng.Intn(1000000)))
		}
		if len(f.Noise) == 0 {
			f.Noise = append(f.Noise, all[rng.Intn(len(all))])
		}
	}
	return f
}

func (b *builder) contexts() {
	f := b.f
	ents := []int{11, 12, 21, 22, 31}
	b.rng.Shuffle(len(ents), func(i, j int) { ents[i], ents[j] = ents[j], ents[i] })
	ents = ents[:b.some(b.p.ents)]
	for _, e := range ents {
		if b.pct(40) {
			f.Names = append(f.Names, e)
		}
	}
	sort.Ints(f.Names)
	ps := make([]int, 0)
	for _, i := range b.subset(seqInts(len(periodPool)), b.some(4)) {
		ps = append(ps, i)
	}
	sort.Ints(ps)
	for _, i := range ps {
		f.Periods = append(f.Periods, periodPool[i])
	}
	for i, n := 0, b.some(b.p.ctxs); i < n; i++ {
		x := Ctx{ID: i + 1, E: b.pick(ents), P: 1 + b.rng.Intn(len(f.Periods))}
		if b.pct(60) {
			for _, d := range b.subset(b.dims, b.upto(len(b.dims))) {
				m := Mem{D: d, M: b.pick(b.members)}
				if b.pct(60) {
					x.Seg = append(x.Seg, m)
				} else {
					x.Scen = append(x.Scen, m)
				}
			}
			for _, d := range b.subset(b.tdims, b.upto(len(b.tdims))) {
				t := TMem{D: d}
				for j, k := range b.subset(b.tds, b.some(3)) {
					up := 0
					if j > 0 {
						up = b.rng.Intn(j + 1)
					}
					v := 1 + b.rng.Intn(30)
					if b.pct(15) {
						v = 0
					}
					t.Els = append(t.Els, El{K: k, Up: up, V: v})
				}
				if b.pct(60) {
					x.Tseg = append(x.Tseg, t)
				} else {
					x.Tscen = append(x.Tscen, t)
				}
			}
		}
		f.Ctx = append(f.Ctx, x)
	}
}

func seqInts(n int) []int {
	ret := make([]int, n)
	for i := range ret {
		ret[i] = i
	}
	return ret
}

func (b *builder) facts() {
	f := b.f
	ids := b.rng.Perm(200)
	for i, n := 0, b.upto(b.p.facts); i < n; i++ {
		ft := Fact{ID: ids[i] + 1, C: b.pick(b.items), X: f.Ctx[b.rng.Intn(len(f.Ctx))].ID, V: i + 1}
		if b.pct(5) && len(b.abstracts) > 0 {
			ft.C = b.pick(b.abstracts)
		}
		if b.pct(20) {
			ft.ID = 0
		}
		if b.pct(8) {
			ft.N = true
		}
		f.Facts = append(f.Facts, ft)
	}
}

func (b *builder) order() int {
	if b.pct(3) {
		return orderMalformed
	}
	switch b.rng.Intn(12) {
	case 0:
		return 0
	case 1:
		return -10 * (1 + b.rng.Intn(2))
	case 2:
		return 5 + b.rng.Intn(30)
	default:
		return 10 * (1 + b.rng.Intn(4))
	}
}

// forest returns locators and arcs of a random forest over the concepts; a
// concept with children has one locator.
func (b *builder) forest(l0 int, heads []int, leaves []int, n int) ([]Loc, []Arc) {
	locs, arcs := make([]Loc, 0), make([]Arc, 0)
	type node struct{ l, k int }
	inner := make([]node, 0)
	l := l0
	for i, h := range heads {
		l++
		locs = append(locs, Loc{l, h})
		if i > 0 && b.pct(75) {
			arcs = append(arcs, Arc{A: inner[b.rng.Intn(len(inner))].l, B: l, O: b.order()})
		}
		inner = append(inner, node{l, h})
	}
	leafLocs := make([]int, 0)
	for i := 0; i < n && len(leaves) > 0; i++ {
		parent := inner[b.rng.Intn(len(inner))].l
		if len(leafLocs) > 0 && b.pct(12) {
			// a leaf locator with several parents
			child := b.pick(leafLocs)
			dup := false
			for _, a := range arcs {
				dup = dup || a.A == parent && a.B == child
			}
			if !dup {
				arcs = append(arcs, Arc{A: parent, B: child, O: b.order()})
			}
			continue
		}
		l++
		locs = append(locs, Loc{l, b.pick(leaves)})
		leafLocs = append(leafLocs, l)
		arcs = append(arcs, Arc{A: parent, B: l, O: b.order()})
	}
	if b.pct(60) {
		b.rng.Shuffle(len(arcs), func(i, j int) { arcs[i], arcs[j] = arcs[j], arcs[i] })
	}
	if b.pct(30) {
		b.rng.Shuffle(len(locs), func(i, j int) { locs[i], locs[j] = locs[j], locs[i] })
	}
	return locs, arcs
}

func (b *builder) presentation(r int) {
	f := b.f
	all := append(append([]int{}, b.abstracts...), b.items...)
	b.rng.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	nheads := 1 + b.rng.Intn(1+len(all)/2)
	if b.p.long {
		nheads = 1 + len(all)*2/3
	}
	heads, leaves := all[:nheads], all[nheads:]
	if b.pct(15) {
		leaves = append(append([]int{}, leaves...), 1900+b.rng.Intn(5))
	}
	file := 1 + b.rng.Intn(2)
	for _, l := range f.Pre {
		if l.R == r {
			return
		}
	}
	if b.pct(b.p.split) && nheads > 1 {
		// two links whose labels mean different things
		cut := 1 + b.rng.Intn(nheads-1)
		l1, a1 := b.forest(0, heads[:cut], leaves, b.some(b.p.items)/2+1)
		l2, a2 := b.forest(0, heads[cut:], leaves, b.some(b.p.items)/2+1)
		f.Pre = append(f.Pre, Link{R: r, F: file, Locs: l1, Arcs: a1}, Link{R: r, F: file, Locs: l2, Arcs: a2})
		return
	}
	locs, arcs := b.forest(0, heads, leaves, b.some(b.p.items)+1)
	f.Pre = append(f.Pre, Link{R: r, F: file, Locs: locs, Arcs: arcs})
}

func (b *builder) calculation(r int) {
	f := b.f
	file := 1 + b.rng.Intn(2)
	items := append([]int{}, b.items...)
	if b.pct(20) {
		items = append(items, 1950+b.rng.Intn(3))
	}
	b.rng.Shuffle(len(items), func(i, j int) { items[i], items[j] = items[j], items[i] })
	if len(items) < 2 {
		return
	}
	nsums := 1 + b.rng.Intn(1+len(items)/3)
	build := func(lo, hi int) Link {
		ln := Link{R: r, F: file}
		for i, k := range items {
			ln.Locs = append(ln.Locs, Loc{i + 1, k})
		}
		for s := lo; s < hi; s++ {
			// contributors come later in the list: no cycles
			for _, c := range b.subset(seqInts(len(items)-s-1), b.some(4)) {
				w := []int{10, -10, 10, -10, 5, -25, 20, 0}[b.rng.Intn(8)]
				ln.Arcs = append(ln.Arcs, Arc{A: s + 1, B: s + 2 + c, O: b.order(), W: w})
			}
		}
		b.rng.Shuffle(len(ln.Arcs), func(i, j int) { ln.Arcs[i], ln.Arcs[j] = ln.Arcs[j], ln.Arcs[i] })
		return ln
	}
	if b.pct(b.p.split) && nsums > 1 {
		// labels of the second link stand for other concepts
		l1 := build(0, 1)
		l2 := build(1, nsums)
		for i := range l2.Locs {
			l2.Locs[i].L += 1
		}
		for i := range l2.Arcs {
			l2.Arcs[i].A++
			l2.Arcs[i].B++
		}
		f.Cal = append(f.Cal, l1, l2)
		return
	}
	f.Cal = append(f.Cal, build(0, nsums))
}

func (b *builder) definition(r int) {
	f := b.f
	nlinks := 1
	if b.pct(b.p.split) {
		nlinks = 2
	}
	cubes := append([]int{}, b.cubes...)
	items := append(append([]int{}, b.items...), b.abstracts...)
	b.rng.Shuffle(len(items), func(i, j int) { items[i], items[j] = items[j], items[i] })
	dims := append(append([]int{}, b.dims...), b.tdims...)
	file := 1
	for n := 0; n < nlinks; n++ {
		var its []int
		if nlinks == 2 {
			half := len(items) / 2
			if n == 0 {
				its = items[:half]
			} else {
				its = items[half:]
				if b.pct(50) {
					file = 2
				}
			}
		} else {
			its = items
		}
		if len(its) == 0 {
			continue
		}
		ln := Link{R: r, F: file}
		loc := map[int]int{}
		at := func(k int) int {
			if loc[k] == 0 {
				loc[k] = len(loc) + 1
				ln.Locs = append(ln.Locs, Loc{loc[k], k})
			}
			return loc[k]
		}
		have := map[string]bool{}
		arc := func(t string, from int, to int, a Arc) {
			key := fmt.Sprint(t, from, to)
			if have[key] || from == to {
				return
			}
			have[key] = true
			a.A, a.B, a.T, a.O = at(from), at(to), t, b.order()
			if b.pct(8) {
				a.Tr = 1 + b.rng.Intn(len(f.Roles))
			}
			ln.Arcs = append(ln.Arcs, a)
		}
		// primary item trees
		its = b.subset(its, b.some(len(its)))
		for i := 1; i < len(its); i++ {
			if b.pct(80) {
				arc("dm", its[b.rng.Intn(i)], its[i], Arc{Usable: b.rng.Intn(3)})
			}
		}
		// hypercubes: the first link has its own, so that the second file's
		// tables do not depend on it
		var cs []int
		if nlinks == 2 {
			if n == 0 {
				cs = cubes[:1]
			} else {
				cs = cubes[1:]
			}
		} else {
			cs = cubes
		}
		for _, c := range cs {
			for _, k := range b.subset(its, b.some(2)) {
				t := "all"
				if b.pct(30) {
					t = "not"
				}
				if have[fmt.Sprint("all", k, c)] || have[fmt.Sprint("not", k, c)] {
					continue
				}
				arc(t, k, c, Arc{Closed: b.rng.Intn(3), Ce: b.rng.Intn(3)})
			}
			for _, d := range b.subset(dims, b.upto(len(dims))) {
				arc("hd", c, d, Arc{})
			}
		}
		// domains of the explicit dimensions: disjoint trees of members; with
		// two links only the first has them
		if n == 0 || file == 2 {
			ms := append([]int{}, b.members...)
			b.rng.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
			roots := make([]int, 0)
			for i, m := range ms {
				if i == 0 || b.pct(35) {
					roots = append(roots, m)
				} else {
					arc("dm", ms[b.rng.Intn(i)], m, Arc{Usable: b.rng.Intn(3)})
				}
			}
			// every root is the domain of some dimension, otherwise it would
			// be a primary item
			if len(b.dims) > 0 {
				for _, m := range roots {
					for _, d := range b.subset(b.dims, b.some(2)) {
						arc("dd", d, m, Arc{Usable: b.rng.Intn(3)})
					}
				}
				for _, d := range b.dims {
					if b.pct(40) {
						arc("df", d, b.pick(ms), Arc{})
					}
				}
			}
		}
		if b.pct(15) && len(its) > 1 {
			arc("other", its[0], its[1], Arc{})
		}
		if b.pct(60) {
			b.rng.Shuffle(len(ln.Arcs), func(i, j int) { ln.Arcs[i], ln.Arcs[j] = ln.Arcs[j], ln.Arcs[i] })
		}
		if len(ln.Arcs) > 0 {
			f.Def = append(f.Def, ln)
		}
	}
}

func (b *builder) labels() {
	f := b.f
	for file := 1; file <= b.some(2); file++ {
		for n := b.some(2); n > 0; n-- {
			ln := LabLink{F: file}
			l := 0
			for _, c := range f.Concepts {
				if !b.pct(55) {
					continue
				}
				nloc := 1
				if b.pct(15) {
					nloc = 2
				}
				for i := 0; i < nloc; i++ {
					l++
					ln.Locs = append(ln.Locs, Loc{l, c.K})
					res := l
					if b.pct(10) && len(ln.Res) > 0 {
						// a label shared by several concepts
						res = ln.Res[b.rng.Intn(len(ln.Res))].L
						ln.Arcs = append(ln.Arcs, LabArc{l, res})
						continue
					}
					for j := b.some(4); j > 0; j-- {
						b.text++
						role := 1 + b.rng.Intn(3)
						if b.pct(12) {
							role = 4 + b.rng.Intn(2)
						}
						lang := 1 + b.rng.Intn(3)
						if b.pct(10) {
							lang = 4
						}
						ln.Res = append(ln.Res, Res{L: res, Role: role, Lang: lang, T: b.text})
					}
					ln.Arcs = append(ln.Arcs, LabArc{l, res})
				}
			}
			if len(ln.Arcs) > 0 {
				f.Lab = append(f.Lab, ln)
			}
		}
	}
}

func (b *builder) footnotes() {
	f := b.f
	ids := make([]int, 0)
	for _, ft := range f.Facts {
		if ft.ID != 0 {
			ids = append(ids, ft.ID)
		}
	}
	if len(ids) == 0 {
		return
	}
	note := 0
	for n := b.some(3); n > 0; n-- {
		ln := FnLink{}
		nl, nn := b.some(4), b.some(3)
		for l := 1; l <= nl; l++ {
			for i := 0; i < 1+b.rng.Intn(2); i++ {
				loc := FnLoc{l, b.pick(ids)}
				dup := false
				for _, x := range ln.Locs {
					dup = dup || x.F == loc.F
				}
				if !dup {
					ln.Locs = append(ln.Locs, loc)
				}
			}
		}
		for l := 1; l <= nn; l++ {
			for i := 0; i < 1+b.rng.Intn(2); i++ {
				note++
				ln.Notes = append(ln.Notes, Note{l, note})
			}
		}
		seen := map[LabArc]bool{}
		for i := b.some(6); i > 0; i-- {
			a := LabArc{1 + b.rng.Intn(nl), 1 + b.rng.Intn(nn)}
			if !seen[a] {
				seen[a] = true
				ln.Arcs = append(ln.Arcs, a)
			}
		}
		f.Fn = append(f.Fn, ln)
	}
}

func (b *builder) inline() {
	f := b.f
	f.Inline = true
	for _, ft := range f.Facts {
		if b.pct(75) {
			f.Tags = append(f.Tags, Tag{ft.C, ft.X})
		}
	}
	if b.pct(30) {
		f.Tags = append(f.Tags, Tag{b.pick(b.items), 999})
	}
	if b.pct(30) {
		f.Tags = append(f.Tags, Tag{1990, f.Ctx[0].ID})
	}
	for i := 0; i < 8; i++ {
		q := Tag{b.pick(b.items), f.Ctx[b.rng.Intn(len(f.Ctx))].ID}
		if len(f.Tags) > 0 && b.pct(70) {
			q.K = f.Tags[b.rng.Intn(len(f.Tags))].K
		}
		if len(f.Tags) > 0 && b.pct(70) {
			q.X = f.Tags[b.rng.Intn(len(f.Tags))].X
		}
		dup := false
		for _, o := range f.Queries {
			dup = dup || o == q
		}
		if !dup {
			f.Queries = append(f.Queries, q)
		}
	}
}
