package main

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
)

func init() {
	register("G09", "the Avro schema written for every shape of a struct is complete and valid JSON: the metadata and exactly one field for each field of the struct and of the structs it embeds, with the JSON name, the description and the Avro type of the Go type, which can be null when the value may be missing; records have unique names; shapes which can not be written are an error", runG09)
}

// avroCase is a set of schema files to write Avro code for.
type avroCase struct {
	files    map[string]*gsch // by base name
	all, one []string         // parts of root.json
	props    bool
	embed    bool
	structs  map[string]string // renamed
	x        genConf
	refuse   bool // may end with an error
}

func (a avroCase) name() string {
	var ks []string
	for k := range a.files {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := ""
	for _, k := range ks {
		if len(ks) > 1 {
			s += k + " "
		}
		f := a.files[k]
		s += f.describe() + " "
		for _, r := range f.allOf {
			s += "of " + r.ref + " "
		}
	}
	if len(ks) > 1 {
		s += fmt.Sprintf("allOf %v oneOf %v ", a.all, a.one)
	}
	if a.embed {
		s += "embedding "
	}
	if a.structs != nil {
		s += "renamed "
	}
	return s + a.x.name()
}

// avroPart is a struct Avro code is written for.
type avroPart struct {
	typ, file string
	fields    []goField
	types     goStructs
	embeds    []string
}

func (a avroCase) typeName(p string) string {
	b := baseName(p)
	if n, ok := a.structs[b]; ok {
		return exported(n)
	}
	return exported(b)
}

func (a avroCase) parts() map[string]*avroPart {
	out := map[string]*avroPart{}
	add := func(p string, embeds []string) {
		f := a.files[baseName(p)]
		t := a.typeName(p)
		sp := wantGo(a.x, t, f)
		em := append([]string(nil), embeds...)
		if a.embed {
			for _, r := range f.allOf {
				n := a.typeName(r.ref)
				if !contains(em, n) {
					em = append(em, n)
				}
			}
		}
		out[t] = &avroPart{typ: t, file: baseName(p), fields: sp.types[t], types: sp.types, embeds: em}
	}
	var em []string
	all := append([]string(nil), a.all...)
	if len(a.all)+len(a.one) == 0 || a.props {
		all = append(all, "root.json")
	}
	for _, p := range all {
		add(p, nil)
		em = append(em, a.typeName(p))
	}
	for _, p := range a.one {
		add(p, em)
	}
	return out
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

const avroImport = "example.com/out/pkg"

// run generates the code.
func (a avroCase) run(c *Ctx) *genRun {
	g := newGenRun(c)
	for n, f := range a.files {
		g.files[n] = f
	}
	g.all, g.one = a.all, a.one
	if a.props {
		g.props = []string{"k"}
	}
	f := c.Anchor(c.P.Func("generate", "BuildStructsWithArgs"), "BuildStructsWithArgs")
	more := map[string]Val{"GenerateAvro": cBool(true), "ImportPath": cStr(avroImport), "EmbedAllOf": cBool(a.embed)}
	if a.structs != nil {
		more["StructNameMap"] = g.names("structs", flatMap(a.structs)...)
	}
	g.s.run(f, g.conf(a.x, more))
	return g
}

// written gives the files of an outcome.
func (g *genRun) written(o Outcome) (map[string]string, string) {
	files := map[string]string{}
	for k := range outFiles(o.St) {
		t, w := g.text(o.St, k)
		if w != "" {
			return nil, w
		}
		files[k] = t
	}
	return files, ""
}

// refused tells whether a run which ends with an error may do so.
func (a avroCase) refused() bool {
	if a.refuse {
		return true
	}
	for _, p := range a.parts() {
		if avroRefused(p.fields, p.types) {
			return true
		}
	}
	return false
}

// avroRefused: arrays of maps and maps which may be null have no Avro code.
func avroRefused(fs []goField, types goStructs) bool {
	for _, f := range fs {
		if strings.HasSuffix(f.typ, "map[string]string") && f.typ != "map[string]string" {
			return true
		}
		if avroRefused(f.kids, types) {
			return true
		}
		if k, ok := types[strings.TrimLeft(f.typ, "[]*")]; ok && avroRefused(k, types) {
			return true
		}
	}
	return false
}

// avroLine is what is asked of an Avro field.
func avroWant(prefix string, fs []goField, types goStructs, tags bool, out map[string]string) {
	for _, f := range fs {
		kids := f.kids
		t := f.typ
		arr := strings.HasPrefix(t, "[]")
		base := strings.TrimLeft(t, "[]*")
		ptr := strings.HasPrefix(t, "*")
		null := (ptr || f.omit == ",omitempty") && !arr
		var a string
		switch base {
		case "bool":
			a = "boolean"
		case "int64":
			a = "long"
		case "float64":
			a = "double"
		case "string":
			a = "string"
		case "time.Time":
			a = "long timestamp-millis"
		case "map[string]string":
			a = "map of string"
			null = false
		default:
			a = "record " + f.json + "_record"
			if !f.isStruct {
				kids = types[base]
			}
		}
		switch {
		case arr:
			a = "array of " + a
		case null && a == "boolean":
			a += " default false"
		case null:
			a = "null or " + a
		}
		if tags && f.desc != "" {
			a += " doc " + strings.Split(f.desc, "\n")[0]
		}
		out[prefix+f.json] = a
		if strings.Contains(a, "record ") {
			avroWant(prefix+f.json+"/", kids, types, tags, out)
		}
	}
}

// flat gives the fields of a part with those of its embedded parts.
func flatFields(parts map[string]*avroPart, p *avroPart, outer map[string]bool, seen map[string]bool) (fs []goField, types goStructs) {
	types = goStructs{}
	names := map[string]bool{}
	for n := range outer {
		names[n] = true
	}
	for _, f := range p.fields {
		if !outer[f.name] {
			fs = append(fs, f)
		}
		names[f.name] = true
	}
	for k, v := range p.types {
		types[k] = v
	}
	for _, e := range p.embeds {
		if seen[e] || parts[e] == nil {
			continue
		}
		seen[e] = true
		es, et := flatFields(parts, parts[e], names, seen)
		fs = append(fs, es...)
		for k, v := range et {
			types[k] = v
		}
	}
	return
}

// avroGot reads an Avro schema.
type avroGot struct {
	lines   map[string]string
	records map[string]bool
	why     string
}

func (g *avroGot) bad(format string, a ...interface{}) {
	if g.why == "" {
		g.why = fmt.Sprintf(format, a...)
	}
}

func (g *avroGot) typ(path string, v interface{}, ns string) string {
	switch x := v.(type) {
	case string:
		return x
	case []interface{}:
		var ts []string
		for _, e := range x {
			ts = append(ts, g.typ(path, e, ns))
		}
		return strings.Join(ts, " or ")
	case map[string]interface{}:
		t, _ := x["type"].(string)
		switch t {
		case "record":
			return g.record(path, x, ns)
		case "array":
			return "array of " + g.typ(path, x["items"], ns)
		case "map":
			return "map of " + g.typ(path, x["values"], ns)
		}
		s := g.typ(path, x["type"], ns)
		if l, ok := x["logicalType"].(string); ok {
			s += " " + l
		}
		return s
	}
	g.bad("%s has the type %v", path, v)
	return ""
}

func (g *avroGot) record(path string, x map[string]interface{}, ns string) string {
	name, _ := x["name"].(string)
	if n, ok := x["namespace"].(string); ok {
		ns = n
	}
	full := ns + "." + name
	if g.records[full] {
		g.bad("there are two records %s", full)
	}
	g.records[full] = true
	fs, ok := x["fields"].([]interface{})
	if !ok {
		g.bad("the record %s has no fields", full)
	}
	for _, f := range fs {
		m, ok := f.(map[string]interface{})
		if !ok {
			g.bad("the record %s has the field %v", full, f)
			continue
		}
		n, _ := m["name"].(string)
		p := path + n
		t := g.typ(p+"/", m["type"], ns)
		if l, ok := m["logicalType"].(string); ok {
			t += " " + l
		}
		if d, ok := m["default"]; ok {
			t += fmt.Sprintf(" default %v", d)
		}
		if d, ok := m["doc"].(string); ok && (path != "" || !avroMeta[n]) {
			t += " doc " + d
		}
		if _, ok := g.lines[p]; ok {
			g.bad("there are two fields %s", p)
		}
		g.lines[p] = t
	}
	return "record " + name
}

var avroMeta = map[string]bool{"AvroWriteTime": true, "AvroDeleted": true}

// avsc compares a schema file with what is asked for a part.
func avsc(text, typ string, fs []goField, types goStructs, tags bool) string {
	var doc map[string]interface{}
	if err := json.Unmarshal([]byte(text), &doc); err != nil {
		return "the Avro schema is not valid JSON: " + err.Error() + ": " + text
	}
	got := &avroGot{lines: map[string]string{}, records: map[string]bool{}}
	if r := got.typ("", doc, ""); r != "record "+typ {
		return "the Avro schema is of " + r + ", not of record " + typ
	}
	if got.why != "" {
		return got.why
	}
	want := map[string]string{"AvroWriteTime": "long timestamp-millis", "AvroDeleted": "boolean default false"}
	avroWant("", fs, types, tags, want)
	if reflect.DeepEqual(want, got.lines) {
		return ""
	}
	var ks []string
	for k := range want {
		ks = append(ks, k)
	}
	for k := range got.lines {
		if _, ok := want[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		w, ok := want[k]
		g, ok2 := got.lines[k]
		switch {
		case !ok:
			return fmt.Sprintf("the Avro schema has a field %s (%s) the struct %s does not have", k, g, typ)
		case !ok2:
			return fmt.Sprintf("the Avro schema has no field %s (%s)", k, w)
		case w != g:
			return fmt.Sprintf("the Avro field %s is %q, not %q", k, g, w)
		}
	}
	return ""
}

// avroCases are the cases looked at.
func avroCases(deep bool) []avroCase {
	var out []avroCase
	one := func(root *gsch, refuse bool, skip string) {
		for m := 0; m < 8; m++ {
			if !deep && strings.Contains(skip, fmt.Sprint(m)) {
				continue
			}
			x := genConf{noNested: m&1 > 0, pointers: m&2 > 0, tags: m&4 > 0}
			if x.tags && !strings.Contains(root.describe(), "#") {
				continue
			}
			out = append(out, avroCase{files: map[string]*gsch{"root": root}, x: x, refuse: refuse})
		}
	}
	for _, r := range goSchemas(deep) {
		k := r.kids[0]
		if !deep && len(r.kids) == 1 && len(k.types) > 1 && k.types[0] == "null" {
			continue
		}
		one(r, len(r.kids) == 1 && hydrated(k), "27")
	}
	for _, r := range avroShapes(deep) {
		one(r, noGo(r), "1256")
	}
	ren := gObj("", gLeaf("a", "string"), gObj("b", gLeaf("a", "string"), gLeaf("c", "string", "null")).null(), gArr("d", gLeaf("", "string"))).need("a")
	for m := 0; m < 4; m++ {
		x := genConf{noNested: m&1 > 0, pointers: m&2 > 0, rename: map[string]string{"a": "renamed", "c": "list", "b": "Inner", "d": "schema", "nothing": "x"}}
		out = append(out, avroCase{files: map[string]*gsch{"root": ren}, x: x})
	}
	str := func(n string) *gsch { return gLeaf(n, "string") }
	of := func(s *gsch, refs ...string) *gsch {
		for _, r := range refs {
			p := gObj("")
			p.ref = r
			s.allOf = append(s.allOf, p)
		}
		return s
	}
	for m := 0; m < 4; m++ {
		x := genConf{noNested: m&1 > 0, pointers: m&2 > 0}
		a := func() *gsch {
			return gObj("", str("id"), gTime("when").null(), gObj("o", gLeaf("n", "integer").null()), gArr("l", gObj("", str("x")))).need("id", "o")
		}
		b := func() *gsch { return gObj("", gLeaf("flag", "boolean"), gTime("at")) }
		xx := func() *gsch { return gObj("", str("title"), gLeaf("id", "integer")).need("title") }
		yy := func() *gsch { return gObj("", gArr("tags", str(""))) }
		add := func(c avroCase) {
			c.x = x
			out = append(out, c)
		}
		add(avroCase{files: map[string]*gsch{"root": gObj(""), "a": a(), "x": xx(), "y": yy()}, all: []string{"a.json"}, one: []string{"x.json", "y.json"}})
		add(avroCase{files: map[string]*gsch{"root": gObj("", gLeaf("k", "string")), "a": a(), "x": xx()}, all: []string{"a.json"}, one: []string{"x.json"}, props: true})
		add(avroCase{files: map[string]*gsch{"root": gObj(""), "a": a(), "b": b(), "x": xx()}, all: []string{"a.json", "b.json"}, one: []string{"x.json"}})
		add(avroCase{files: map[string]*gsch{"root": gObj(""), "a": a(), "x": xx()}, all: []string{"a.json"}, one: []string{"x.json"}, structs: map[string]string{"a": "Common", "x": "special"}})
		add(avroCase{files: map[string]*gsch{"root": gObj(""), "a": a(), "b": of(b(), "a.json"), "x": xx()}, all: []string{"b.json", "a.json"}, one: []string{"x.json"}, structs: map[string]string{"a": "common", "b": "other"}, embed: true})
		add(avroCase{files: map[string]*gsch{"root": gObj(""), "Upper": a(), "myPart": xx()}, all: []string{"Upper.json"}, one: []string{"myPart.json"}})
		add(avroCase{files: map[string]*gsch{"root": gObj(""), "a": a(), "b": of(b(), "a.json"), "x": of(xx(), "b.json")}, all: []string{"a.json", "b.json"}, one: []string{"x.json"}, embed: true})
		add(avroCase{files: map[string]*gsch{"root": of(gObj("", str("k"), str("id")).need("id"), "a.json"), "a": a()}, all: []string{"a.json"}, props: true, embed: true})
		add(avroCase{files: map[string]*gsch{"root": of(gObj("", str("k")), "b.json"), "b": of(b(), "a.json"), "a": a()}, all: []string{"a.json", "b.json"}, props: true, embed: true})
		// names repeated at several depths, of the struct and of what it embeds
		rep := func() *gsch {
			return gObj("", str("id"), gObj("o", str("title"), str("id"), gObj("in", str("title"), gLeaf("o", "integer"))), gArr("l", gObj("", str("title"), str("id")))).need("o")
		}
		add(avroCase{files: map[string]*gsch{"root": gObj(""), "a": rep(), "x": gObj("", str("title"), gObj("p", str("id"), str("title")), gLeaf("o2", "boolean"))}, all: []string{"a.json"}, one: []string{"x.json"}})
		add(avroCase{files: map[string]*gsch{"root": of(rep(), "a.json"), "a": gObj("", str("title"), gObj("q", gObj("o", str("id"))), str("in"))}, all: []string{"a.json"}, props: true, embed: true})
		add(avroCase{files: map[string]*gsch{"root": gObj(""), "e": gObj("", gLeaf("h", "graphql-hydration").to("T")), "x": xx()}, all: []string{"e.json"}, one: []string{"x.json"}})
		add(avroCase{files: map[string]*gsch{"root": gObj(""), "a": a(), "e": gObj("", gLeaf("h", "graphql-hydration").to("T"))}, all: []string{"a.json"}, one: []string{"e.json"}})
	}
	return out
}

// noGo tells that there is no Go struct for a schema.
func noGo(s *gsch) bool {
	if strings.ContainsAny(s.name, "-.") || s.item != nil && s.item.kind() == "array" || s.item != nil && noGo(s.item) {
		return true
	}
	for _, k := range s.kids {
		if noGo(k) {
			return true
		}
	}
	return false
}

func runG09(c *Ctx) {
	const rule = "Avro schemas"
	cases := avroCases(c.Thorough)
	c.Each(len(cases), func(c *Ctx, i int) {
		a := cases[i]
		name := a.name()
		c.Guard(rule, name, func() {
			g := a.run(c)
			g.s.each(rule, name, func(o Outcome) string {
				if nilState(o.St, o.Ret[0]) != 1 {
					if a.refused() {
						return ""
					}
					return "fails: " + describe(o.Ret[0])
				}
				if a.refused() && !a.refuse {
					return "writes Avro code for a map which is in an array or may be null"
				}
				files, w := g.written(o)
				if w != "" {
					return w
				}
				parts := a.parts()
				wanted := map[string]bool{}
				for _, p := range parts {
					path := filepath.Join("/out/pkg", strings.ToLower(p.typ)+".avsc")
					wanted[path] = true
					text, ok := files[path]
					if !ok {
						return "there is no Avro schema " + path
					}
					fs, types := flatFields(parts, p, nil, map[string]bool{})
					if w := avsc(text, p.typ, fs, types, a.x.tags); w != "" {
						return path + ": " + w
					}
				}
				for f := range files {
					if strings.HasSuffix(f, ".avsc") && !wanted[f] {
						return "there is an Avro schema " + f
					}
				}
				return ""
			})
		})
	})
	c.Need(rule, 250)
}
