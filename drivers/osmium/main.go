// Stands in for the program osmium: "osmium tags-filter INPUT -o OUTPUT [-R] [-i] EXPR... --overwrite"
// on data sets written as OSM XML, whatever their file names say.
package main

import (
	"encoding/xml"
	"fmt"
	"os"
	"strings"
)

type tag struct {
	K string `xml:"k,attr"`
	V string `xml:"v,attr"`
}
type nd struct {
	Ref string `xml:"ref,attr"`
}
type member struct {
	Type string `xml:"type,attr"`
	Ref  string `xml:"ref,attr"`
	Role string `xml:"role,attr"`
}
type node struct {
	Id  string `xml:"id,attr"`
	Lat string `xml:"lat,attr"`
	Lon string `xml:"lon,attr"`
	Tag []tag  `xml:"tag"`
}
type way struct {
	Id  string `xml:"id,attr"`
	Nd  []nd   `xml:"nd"`
	Tag []tag  `xml:"tag"`
}
type relation struct {
	Id     string   `xml:"id,attr"`
	Member []member `xml:"member"`
	Tag    []tag    `xml:"tag"`
}
type osm struct {
	XMLName   xml.Name   `xml:"osm"`
	Version   string     `xml:"version,attr"`
	Generator string     `xml:"generator,attr"`
	Node      []node     `xml:"node"`
	Way       []way      `xml:"way"`
	Relation  []relation `xml:"relation"`
}

func fail(a ...interface{}) {
	fmt.Println(a...)
	os.Exit(2)
}

func main() {
	if len(os.Args) < 3 || os.Args[1] != "tags-filter" {
		fail("unknown command", os.Args)
	}
	in, out, refs, invert := "", "", true, false
	var exprs []string
	for i := 2; i < len(os.Args); i++ {
		switch a := os.Args[i]; {
		case a == "-o":
			i++
			out = os.Args[i]
		case a == "-R":
			refs = false
		case a == "-i":
			invert = true
		case a == "--overwrite":
		case strings.HasPrefix(a, "-"):
			fail("unknown option", a)
		case in == "":
			in = a
		default:
			exprs = append(exprs, a)
		}
	}
	b, err := os.ReadFile(in)
	if err != nil {
		fail(err)
	}
	var d osm
	if err := xml.Unmarshal(b, &d); err != nil {
		fail(err)
	}
	matches := func(kind string, tags []tag) bool {
		for _, e := range exprs {
			kinds := "nwra"
			if k := strings.Index(e, "/"); k >= 0 && !strings.Contains(e[:k], "=") {
				kinds, e = e[:k], e[k+1:]
			}
			if !strings.Contains(kinds, kind) {
				continue
			}
			key, values, valued := strings.Cut(e, "=")
			for _, t := range tags {
				if t.K != key {
					continue
				}
				if !valued {
					return true
				}
				for _, v := range strings.Split(values, ",") {
					if v == t.V {
						return true
					}
				}
			}
		}
		return false
	}
	ns, ws, rs := map[string]bool{}, map[string]bool{}, map[string]bool{}
	for _, n := range d.Node {
		ns[n.Id] = matches("n", n.Tag) != invert
	}
	for _, w := range d.Way {
		ws[w.Id] = matches("w", w.Tag) != invert
	}
	for _, r := range d.Relation {
		rs[r.Id] = matches("r", r.Tag) != invert
	}
	if refs {
		for again := true; again; {
			again = false
			for _, r := range d.Relation {
				if !rs[r.Id] {
					continue
				}
				for _, m := range r.Member {
					switch m.Type {
					case "node":
						ns[m.Ref] = true
					case "way":
						ws[m.Ref] = true
					case "relation":
						again = again || !rs[m.Ref]
						rs[m.Ref] = true
					}
				}
			}
		}
		for _, w := range d.Way {
			if ws[w.Id] {
				for _, x := range w.Nd {
					ns[x.Ref] = true
				}
			}
		}
	}
	o := osm{Version: "0.6", Generator: "osmium"}
	for _, n := range d.Node {
		if ns[n.Id] {
			o.Node = append(o.Node, n)
		}
	}
	for _, w := range d.Way {
		if ws[w.Id] {
			o.Way = append(o.Way, w)
		}
	}
	for _, r := range d.Relation {
		if rs[r.Id] {
			o.Relation = append(o.Relation, r)
		}
	}
	x, err := xml.MarshalIndent(o, "", " ")
	if err != nil {
		fail(err)
	}
	if err := os.WriteFile(out, append([]byte(xml.Header), x...), 0644); err != nil {
		fail(err)
	}
}
