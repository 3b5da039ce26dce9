package main

import (
	"math/rand"
	"regexp"
	"strings"
)

// required are the attributes without which an element is unusable.
var required = map[string][]string{
	"link:loc":              {"xlink:type", "xlink:href", "xlink:label"},
	"link:presentationArc":  {"xlink:type", "xlink:arcrole", "xlink:from", "xlink:to"},
	"link:calculationArc":   {"xlink:type", "xlink:arcrole", "xlink:from", "xlink:to"},
	"link:definitionArc":    {"xlink:type", "xlink:arcrole", "xlink:from", "xlink:to"},
	"link:labelArc":         {"xlink:type", "xlink:arcrole", "xlink:from", "xlink:to"},
	"link:footnoteArc":      {"xlink:type", "xlink:arcrole", "xlink:from", "xlink:to"},
	"link:presentationLink": {"xlink:type", "xlink:role"},
	"link:calculationLink":  {"xlink:type", "xlink:role"},
	"link:definitionLink":   {"xlink:type", "xlink:role"},
	"link:labelLink":        {"xlink:type", "xlink:role"},
	"link:footnoteLink":     {"xlink:type", "xlink:role"},
	"link:label":            {"xlink:label", "xlink:role", "xml:lang"},
	"link:footnote":         {"xlink:type", "id", "xlink:label", "xml:lang"},
	"link:roleRef":          {"roleURI", "xlink:href"},
	"link:roleType":         {"roleURI", "id"},
	"link:linkbaseRef":      {"xlink:type", "xlink:arcrole", "xlink:role", "xlink:href"},
	"link:schemaRef":        {"xlink:href"},
	"xs:import":             {"namespace", "schemaLocation"},
	"xs:element":            {"id", "name", "type"},
	"xbrli:context":         {"id"},
	"xbrli:unit":            {"id"},
	"":                      {"contextRef"}, // facts
}

// parts of other elements, of which the first counts
var foreignOnly = map[string]bool{"xbrli:entity": true, "xbrli:identifier": true, "xbrli:period": true, "xbrli:instant": true, "xbrli:startDate": true, "xbrli:endDate": true,
	"xbrli:segment": true, "xbrli:scenario": true, "xbrldi:explicitMember": true, "xbrldi:typedMember": true, "xbrli:measure": true, "link:definition": true}

var (
	tagName     = regexp.MustCompile(`^<([^\s/>]+)`)
	litterTexts = regexp.MustCompile(`>([^<>]*[^<>\s][^<>]*)<`)
)

// litter puts unusable copies next to elements: without a required
// attribute, or in a foreign namespace.
func litter(text string, rng *rand.Rand) string {
	var b strings.Builder
	last := 0
	tags := tagPattern.FindAllStringIndex(text, -1)
	insert := func(at int, s string) {
		b.WriteString(text[last:at] + s)
		last = at
	}
	type pending struct {
		depth int
		text  string
	}
	depth := 0
	waiting := []pending{}
	rate := 2 + rng.Intn(12)
	for i, m := range tags {
		t := text[m[0]:m[1]]
		if strings.HasPrefix(t, "<?") || strings.HasPrefix(t, "<!") {
			continue
		}
		closes := strings.HasPrefix(t, "</")
		if closes {
			depth--
		} else if depth > 0 && rng.Intn(rate) == 0 {
			name := tagName.FindStringSubmatch(t)[1]
			needs := required[name]
			if needs == nil && strings.Contains(t, " contextRef=") {
				needs = required[""]
			}
			if needs != nil || foreignOnly[name] {
				whole := text[m[0]:treeEnd(text, tags, i)]
				if rng.Intn(2) == 0 {
					whole = litterTexts.ReplaceAllString(whole, ">${1}0<")
				}
				open := tagPattern.FindString(whole)
				copied := ""
				if needs == nil || rng.Intn(len(needs)+1) == 0 {
					local := name[strings.IndexByte(name, ':')+1:]
					copied = "<litter:" + local + ` xmlns:litter="http://litter.example.com"` + strings.TrimPrefix(whole, "<"+name)
					if strings.HasSuffix(copied, "</"+name+">") {
						copied = strings.TrimSuffix(copied, "</"+name+">") + "</litter:" + local + ">"
					}
				} else {
					miss := needs[rng.Intn(len(needs))]
					gone := regexp.MustCompile(`\s` + miss + `="[^"]*"`)
					with := ""
					if rng.Intn(2) == 0 {
						with = " " + miss + `=""`
					}
					copied = gone.ReplaceAllString(open, with) + whole[len(open):]
				}
				if rng.Intn(2) == 0 {
					insert(m[0], copied+"\n")
				} else {
					waiting = append(waiting, pending{depth, copied})
				}
			}
		}
		if !closes && !strings.HasSuffix(t, "/>") {
			depth++
		}
		for len(waiting) > 0 && waiting[len(waiting)-1].depth == depth {
			insert(m[1], waiting[len(waiting)-1].text)
			waiting = waiting[:len(waiting)-1]
		}
	}
	b.WriteString(text[last:])
	return b.String()
}

// treeEnd is where the element of the i-th tag ends.
func treeEnd(text string, tags [][]int, i int) int {
	depth := 0
	for ; i < len(tags); i++ {
		t := text[tags[i][0]:tags[i][1]]
		switch {
		case strings.HasPrefix(t, "</"):
			depth--
		case strings.HasPrefix(t, "<?") || strings.HasPrefix(t, "<!") || strings.HasSuffix(t, "/>"):
		default:
			depth++
		}
		if depth <= 0 {
			return tags[i][1]
		}
	}
	return len(text)
}
