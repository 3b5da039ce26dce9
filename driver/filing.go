package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"ecksbee.com/telefacts/pkg/hydratables"
	"ecksbee.com/telefacts/pkg/renderables"
	"ecksbee.com/telefacts/pkg/serializables"
	gocache "github.com/patrickmn/go-cache"
)

func init() {
	setups["filing"] = setupFiling
}

func workHome() string {
	home := os.Getenv("VERIF_HOME")
	if home == "" {
		fatal("no VERIF_HOME")
	}
	return home
}

// dirs points the system at a working directory and a taxonomy set.
func dirs(wd string, gts string) {
	serializables.WorkingDirectoryPath = wd
	serializables.GlobalTaxonomySetPath = gts
}

type filingAnswer struct {
	In  *Filing  `json:"in"`
	Out *oFiling `json:"out"`
}

func parts() map[string]bool {
	ret := map[string]bool{}
	for _, p := range strings.Split(opts, ",") {
		ret[p] = true
	}
	return ret
}

func setupFiling() engine {
	home := workHome()
	gts := filepath.Join(home, "gts")
	writeGlobal(gts)
	want := parts()
	reps := 1
	for p := range want {
		if strings.HasPrefix(p, "reps=") {
			reps, _ = strconv.Atoi(p[5:])
		}
	}
	count := 0
	return func(line []byte) (any, error) {
		f := &Filing{}
		if err := json.Unmarshal(line, f); err != nil {
			return nil, err
		}
		solid(f)
		if !strings.Contains(f.Tag, "-") && f.Style == 0 {
			// an enumerated filing: its spelling is ours to choose
			if n := spellingOf(line); n%3 != 0 {
				f.Style = n/3%spellings<<8 | n/100%256
			}
		}
		if want["noise"] && len(f.Noise) == 0 {
			f.Noise = append(f.Noise, fmt.Sprintf("litter%d", 1+spellingOf(line)))
		}
		count++
		wd := filepath.Join(home, "wd"+strconv.Itoa(count))
		if f.ID == "" {
			f.ID = "folder"
		}
		materialise(f, wd)
		writeNames(f, wd)
		dirs(wd, gts)
		out := &oFiling{Same: true}
		var first map[string][]byte
		for i := 0; i < reps; i++ {
			var data map[string][]byte
			crash := guarded(func() { data = renderAll(f, i == 0, out, want) })
			if crash != "" {
				out = &oFiling{Crash: true, Msg: head(crash, 2000)}
				break
			}
			if i == 0 {
				first = data
			} else if out.Same {
				for k, v := range first {
					if !bytes.Equal(v, data[k]) {
						out.Same = false
						out.Msg = "differs: " + k
					}
				}
				if len(first) != len(data) {
					out.Same = false
					out.Msg = "differs in number"
				}
			}
		}
		if want["noise"] && len(f.Noise) > 0 && !out.Crash && !out.Err {
			// the same filing without the unusable parts
			g := *f
			g.Noise = nil
			wd2 := filepath.Join(home, "wq"+strconv.Itoa(count))
			materialise(&g, wd2)
			writeNames(&g, wd2)
			dirs(wd2, gts)
			var data map[string][]byte
			o2 := &oFiling{}
			crash := guarded(func() { data = renderAll(&g, false, o2, want) })
			if crash != "" || len(data) != len(first) {
				out.Same = false
				out.Msg = "differs without the unusable parts: " + head(crash, 1000)
			}
			for k, v := range first {
				if !bytes.Equal(v, data[k]) {
					out.Same = false
					out.Msg = "differs without the unusable parts: " + k
				}
			}
			os.RemoveAll(wd2)
		}
		project(out, want)
		solid(out)
		os.RemoveAll(wd)
		return filingAnswer{f, out}, nil
	}
}

// renderAll goes through everything the filing offers and returns the raw
// answers; out is filled when decode is set.
func renderAll(f *Filing, decode bool, out *oFiling, want map[string]bool) map[string][]byte {
	data := map[string][]byte{}
	hydratables.InjectCache(gocache.New(gocache.NoExpiration, gocache.NoExpiration))
	fail := func(err error) map[string][]byte {
		if decode {
			out.Err, out.Msg = true, err.Error()
		}
		data["error"] = []byte(err.Error())
		return data
	}
	folder, err := serializables.Discover(f.ID)
	if err != nil {
		return fail(err)
	}
	h, err := hydratables.Hydrate(folder)
	if err != nil {
		return fail(err)
	}
	cat, err := renderables.MarshalCatalog(h)
	if err != nil {
		return fail(err)
	}
	data["catalog"] = cat
	d := newDecoder(f)
	oc, err := d.catalog(cat)
	if err != nil {
		return fail(err)
	}
	if decode {
		out.Cat = oc
	}
	nets := oc.Nets
	if want["noviews"] {
		nets = nil
	}
	for _, n := range nets {
		v := oView{E: n.E, R: n.R}
		b, err := renderables.MarshalRenderable(n.Slug, h)
		if err != nil {
			v.Err = true
			data["view "+n.Slug] = []byte(err.Error())
		} else {
			data["view "+n.Slug] = b
			if decode {
				v, err = d.view(b, n.E, n.R)
				if err != nil {
					v.Err = true
				}
			}
		}
		if decode {
			out.Views = append(out.Views, v)
		}
	}
	if decode && want["cat"] {
		out.Unlisted = true
		slugs, listed := []string{"0", "", "ffffffffffffffffffffffffffffffff"}, map[string]bool{}
		for i, n := range nets {
			listed[n.Slug] = true
			if i < 3 && len(n.Slug) > 0 {
				slugs = append(slugs, strings.ToUpper(n.Slug), n.Slug+"0", "0"+n.Slug, " "+n.Slug, n.Slug[1:], n.Slug[:len(n.Slug)-1])
			}
		}
		for _, slug := range slugs {
			if listed[slug] {
				continue
			}
			if b, err := renderables.MarshalRenderable(slug, h); err == nil || len(b) > 0 {
				out.Unlisted = false
			}
		}
	}
	for _, q := range f.Queries {
		b, err := renderables.MarshalExpressable(inlineName(q.K), contextID(q.X), h)
		o := oSingle{Q: q}
		if err != nil {
			o.Err = true
			b = []byte(err.Error())
		} else {
			o, err = d.single(b, q)
			if err != nil {
				o.Err = true
			}
		}
		data["single "+inlineName(q.K)+" "+contextID(q.X)] = b
		if decode {
			out.Singles = append(out.Singles, o)
		}
	}
	if decode {
		out.Stray = stray(f, h)
	}
	return data
}

// stray asks for names and contexts that are nearly those of the tags.
func stray(f *Filing, h *hydratables.Hydratable) bool {
	names, contexts := map[string]bool{}, map[string]bool{}
	for _, t := range f.Tags {
		names[inlineName(t.K)] = true
		contexts[contextID(t.X)] = true
	}
	found := func(name string, context string) bool {
		b, err := renderables.MarshalExpressable(name, context, h)
		return err == nil && len(b) > 0 && string(b) != "null"
	}
	for i, q := range f.Queries {
		if i == 4 {
			break
		}
		name, context := inlineName(q.K), contextID(q.X)
		local := localName(q.K)
		for _, n := range []string{local, ":" + local, "zz:" + local, strings.ToLower(name), name + " ", name[1:]} {
			if !names[n] && found(n, context) {
				return true
			}
		}
		for _, c := range []string{"", strings.ToUpper(context), context + " ", context[1:]} {
			if !contexts[c] && found(name, c) {
				return true
			}
		}
	}
	return false
}

// project leaves out what the check does not look at.
func project(out *oFiling, want map[string]bool) {
	if want["everything"] {
		return
	}
	if !want["cat"] {
		out.Cat = oCat{}
	}
	for i := range out.Views {
		v := &out.Views[i]
		if !want["rows"] && !want["grid"] {
			v.Rows = nil
		}
		if !want["grid"] {
			v.G = oGrid{}
		}
		if !want["cal"] && !want["grid"] {
			v.Sums = nil
		}
		if !want["tab"] && !want["grid"] {
			v.Tabs = nil
		}
		if !want["drs"] {
			v.Nodes, v.Links = nil, nil
		}
		if !want["lab"] {
			v.Labs, v.Kinds, v.Langs = nil, nil, nil
		}
		if !want["grid"] {
			for j := range v.Sums {
				v.Sums[j].G = oGrid{Cells: v.Sums[j].G.Cells}
			}
			for j := range v.Tabs {
				v.Tabs[j].G = oGrid{}
			}
		} else if !want["tab"] {
			for j := range v.Tabs {
				v.Tabs[j].Ed, v.Tabs[j].Dims = nil, nil
			}
		}
	}
	if want["oneview"] {
		out.Views = nil
	}
}
