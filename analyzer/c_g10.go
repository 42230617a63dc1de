package main

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"
)

func init() {
	register("G10", "for every kind of property and setting the GraphQL written parses and has, for each object of the schema, one type with one field for each property, with the GraphQL type, nullability, arguments, directives and description its schema asks for; for every layout of allOf and oneOf parts the interface and types are written to the files documented, each once, implementations repeat the fields of their interface and every type referred to is defined", runG10)
}

// gqlConf are settings of the GraphQL generator.
type gqlConf struct {
	pointers, scalar, own bool
	structs, fields, gql  map[string]string
}

const gqlImport = "example.com/mod/pkg"

func (x gqlConf) name() string {
	s := "values"
	if x.pointers {
		s = "pointers"
	}
	if x.scalar {
		s += ", scalar Any"
	}
	if x.own {
		s += ", directory of its own"
	}
	for n, m := range map[string]map[string]string{"structs": x.structs, "fields": x.fields, "types": x.gql} {
		if m != nil {
			s += ", renamed " + n
		}
	}
	return s
}

func (g *genRun) gqlArgs(x gqlConf, more map[string]Val) Val {
	f := map[string]Val{
		"SchemaPath":      cStr("/in/root.json"),
		"OutputDir":       cStr("/out/pkg"),
		"NoNestedStructs": cBool(true),
		"GenerateGraphQL": cBool(true),
		"ImportPath":      cStr(gqlImport),
		"Pointers":        cBool(x.pointers),
		"ScalarAny":       cBool(x.scalar),
	}
	if x.own {
		f["OutputDirGraphQL"] = cStr("/gql")
	}
	for n, m := range map[string]map[string]string{"StructNameMap": x.structs, "FieldNameMap": x.fields, "GraphQLTypeNameMap": x.gql} {
		if m != nil {
			f[n] = g.names(n, flatMap(m)...)
		}
	}
	for k, v := range more {
		f[k] = v
	}
	return g.args(f)
}

// gqlSpec is what is asked for.
type gqlSpec struct {
	x     gqlConf
	types map[string]gqlType
}

func (x gqlConf) goType(base string) string {
	if n, ok := x.structs[base]; ok {
		return exported(n)
	}
	return exported(base)
}

func (x gqlConf) goName(n string) string {
	if r, ok := x.fields[n]; ok {
		n = r
	}
	return exported(n)
}

func (x gqlConf) mapped(n string) string {
	if r, ok := x.gql[n]; ok {
		return r
	}
	return n
}

// object adds the type for an object and those of the objects in it.
func (sp *gqlSpec) object(kind, goName, name string, o *gsch, quiet bool) []gqlField {
	t := gqlType{kind: kind, name: name, desc: o.desc}
	model := false
	for _, k := range o.kids {
		fs := sp.field(goName, name, o, k, quiet)
		for _, f := range fs {
			t.fields = append(t.fields, f)
		}
		if len(fs) > 1 || k.kind() != "graphql-hydration" {
			model = true
		}
	}
	if model {
		t.dirs = []string{fmt.Sprintf("goModel(model: %q)", gqlImport+"."+goName)}
	}
	if !quiet {
		sp.types[name] = t
	}
	return t.fields
}

func gqlDesc(desc string) (string, []string) {
	if !strings.HasPrefix(desc, "DEPRECATED:") {
		return desc, nil
	}
	first, rest, _ := strings.Cut(desc, "\n")
	return strings.TrimSpace(rest), []string{fmt.Sprintf("deprecated(reason: %q)", strings.TrimSpace(strings.TrimPrefix(first, "DEPRECATED:")))}
}

func (sp *gqlSpec) field(goType, typ string, parent, k *gsch, quiet bool) []gqlField {
	required := parent.isReq(k.name)
	strict := required || !sp.x.pointers
	f := gqlField{name: k.name}
	f.desc, f.dirs = gqlDesc(k.desc)
	in, arr := k, k.kind() == "array"
	if arr {
		in = k.item
	}
	arrNull := k.is("null") || sp.x.pointers && !required
	target := k.target
	if arr && target == "" {
		target = in.target
	}
	bang := func(t string, on bool) string {
		if on && t != "DateTime" {
			return t + "!"
		}
		return t
	}
	list := func(t string) string {
		f.dirs = append(f.dirs, "goField(forceResolver: true)")
		f.args = []string{"filter: ListFilter", "sort: ListSortParams"}
		if arrNull {
			return "[" + t + "]"
		}
		return "[" + t + "]!"
	}
	switch kind := in.kind(); kind {
	case "graphql-hydration":
		f.typ = target
		if arr && k.target == "" {
			f.typ = "[" + target + "]"
			if !arrNull {
				f.typ += "!"
			}
		}
		f.args = nil
		for _, a := range k.args {
			if a != "" {
				f.args = append(f.args, a)
			}
		}
	case "object":
		name := sp.x.mapped(exported(typ) + exported(k.name))
		if len(in.kids) == 0 {
			f.typ = "Any"
			if target != "" {
				f.typ = target
			}
		} else {
			sp.object("type", goType+exported(k.name), name, in, quiet || target != "")
			f.typ = name
			if target != "" {
				f.typ = target
			}
			f.typ = bang(f.typ, strict)
		}
		if arr {
			f.typ = list(f.typ)
		}
	default:
		f.typ = map[string]string{"boolean": "Boolean", "number": "Float", "integer": "Int", "string": "String"}[kind]
		if in.format == "date-time" {
			f.typ = "DateTime"
		}
		if target != "" {
			f.typ = bang(target, strict)
		} else {
			f.typ = bang(f.typ, arr || !in.is("null") || strict)
		}
		if arr {
			f.typ = list(f.typ)
		}
	}
	sort.Strings(f.dirs)
	out := []gqlField{f}
	if arr {
		n := k.name
		if r, ok := sp.x.fields[n]; ok {
			n = r
		}
		_, dep := gqlDesc(k.desc)
		out = append(out, gqlField{name: "total" + sp.x.goName(k.name), typ: "Int!", dirs: dep, total: n})
	}
	return out
}

// fieldsDiff tells how fields differ from those wanted.
func fieldsDiff(want, got []gqlField) string {
	have := map[string]gqlField{}
	for _, f := range got {
		have[f.name] = f
	}
	for _, w := range want {
		h, ok := have[w.name]
		if !ok {
			return "has no field " + w.line()
		}
		delete(have, w.name)
		if w.total != "" {
			if !strings.Contains(" "+h.desc+" ", " "+w.total+" ") {
				return "does not tell that " + h.line() + " is the length of " + w.total
			}
			h.desc = ""
		}
		if w.line() != h.line() {
			return "has no field " + w.line() + ", it is " + h.line()
		}
	}
	for _, h := range got {
		if _, ok := have[h.name]; ok {
			return "has a field " + h.line() + " which is not asked for"
		}
	}
	return ""
}

func (sp *gqlSpec) compare(got []gqlType) string {
	seen := map[string]bool{}
	for _, t := range got {
		if t.kind == "scalar" && t.name == "Any" && sp.x.scalar && !seen["Any"] {
			seen["Any"] = true
			continue
		}
		w, ok := sp.types[t.name]
		if !ok {
			return "there is a " + t.head() + " which no schema asks for"
		}
		if seen[t.name] {
			return "there are two " + t.name
		}
		seen[t.name] = true
		if w.head() != t.head() {
			return "there is no " + w.head() + ", it is " + t.head()
		}
		if d := fieldsDiff(w.fields, t.fields); d != "" {
			return t.name + " " + d
		}
	}
	for n, w := range sp.types {
		if !seen[n] {
			return "there is no " + w.head()
		}
	}
	if sp.x.scalar && !seen["Any"] {
		return "there is no scalar Any"
	}
	return ""
}

var gqlBuiltin = map[string]bool{"Boolean": true, "Float": true, "Int": true, "String": true, "DateTime": true, "Any": true, "ListFilter": true, "ListSortParams": true}

// gqlWhole checks that a set of documents refers to types which it defines, each once.
func gqlWhole(docs map[string][]gqlType, extern map[string]bool) string {
	def := map[string]gqlType{}
	var ps []string
	for p := range docs {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		for _, t := range docs[p] {
			if _, two := def[t.name]; two {
				return t.name + " is defined twice"
			}
			def[t.name] = t
		}
	}
	for _, p := range ps {
		for _, t := range docs[p] {
			for _, i := range t.implements {
				it, ok := def[i]
				if !ok || it.kind != "interface" {
					return t.name + " implements " + i + " which is not defined"
				}
				if d := missing(it.fields, t.fields); d != "" {
					return t.name + " implements " + i + " without " + d
				}
			}
			for _, f := range t.fields {
				b := gqlBase(f.typ)
				if _, ok := def[b]; !ok && !gqlBuiltin[b] && !extern[b] {
					return t.name + "." + f.name + " refers to " + b + " which is not defined"
				}
			}
		}
	}
	return ""
}

func missing(want, got []gqlField) string {
	for _, w := range want {
		ok := false
		for _, g := range got {
			if g.name == w.name && g.line() == w.line() {
				ok = true
			}
		}
		if !ok {
			return w.line()
		}
	}
	return ""
}

func gqlSchemas() []*gsch {
	kinds := func() []*gsch {
		return []*gsch{gLeaf("a", "boolean"), gLeaf("a", "number"), gLeaf("a", "integer"), gLeaf("a", "string"), gTime("a"),
			gObj("a"), gObj("a", gLeaf("x", "string")), gLeaf("a", "graphql-hydration").to("T"), gLeaf("a", "graphql-hydration").to("[T!]!", "first: Int", "", "after: String = \"x\""),
			gLeaf("a", "string").to("Url"), gTime("a").to("Date"), gObj("a", gLeaf("x", "string"), gObj("p", gLeaf("y", "string"))).to("Other")}
	}
	var out []*gsch
	for i := range kinds() {
		for _, null := range []int{0, 1, 2} {
			for _, arr := range []bool{false, true} {
				for _, req := range []bool{false, true} {
					k := kinds()[i]
					if arr {
						if null == 2 || k.target == "[T!]!" {
							continue
						}
						args := k.args
						k.name, k.args = "", nil
						k = gArr("a", k)
						k.args = args
					}
					if null == 1 {
						k.null()
					}
					if null == 2 {
						k.nullFirst()
					}
					r := gObj("", k)
					if req {
						r.need("a")
					}
					out = append(out, r)
				}
			}
		}
	}
	for i := range kinds() {
		for _, req := range []bool{false, true} {
			k := kinds()[i]
			if k.target == "[T!]!" {
				continue
			}
			k.name = ""
			r := gObj("", gArr("a", k.null()), gLeaf("b", "string"))
			if req {
				r.need("a")
			}
			out = append(out, r)
		}
	}
	withArgs := gArr("h", gLeaf("", "graphql-hydration").to("T"))
	withArgs.args = []string{"first: Int"}
	out = append(out,
		gObj("", gLeaf("b", "string").about("some text"), gLeaf("a_b", "integer").about("one\ntwo\n\nthree"), gTime("c").about("when")).need("b", "c").about("the root"),
		gObj("", gLeaf("b", "string").about("a \"quoted\" word"), gLeaf("c", "string").about("C:\\dir\\new"), gLeaf("d", "string").about("say \"\"\" \\\nonce"), gObj("o", gLeaf("x", "string")).about("an \"o\"")).about("root \"r\""),
		gObj("", gLeaf("a", "string").about("DEPRECATED: use b"), gLeaf("b", "string").about("DEPRECATED:  use \"c\" \nthe b"), gArr("l", gLeaf("", "string")).about("DEPRECATED: no list\nlist of\nthings"), gArr("m", gLeaf("", "integer")).about("many"), gObj("o", gLeaf("x", "string")).about("DEPRECATED: old")).need("a"),
		gObj("", gArr("l", gLeaf("", "string")).about("DEPRECATED: no list"), gObj("o", gArr("m", gLeaf("", "integer")).about("DEPRECATED:no \"m\""), gLeaf("n", "string").about("DEPRECATED: line\n\n  indented\nlast"))).need("l"),
		gObj("", gLeaf("z", "string"), withArgs, gLeaf("a", "string")).need("z", "h"),
		gObj("", gLeaf("h", "graphql-hydration").to("T")),
		gObj("", gObj("o", gLeaf("h", "graphql-hydration").to("T")), gLeaf("k", "string")),
		gObj("", gObj("o", gLeaf("x", "string"), gObj("p", gLeaf("y", "integer"), gArr("l", gLeaf("", "string"))).need("y")).need("p"), gLeaf("x", "number")).need("o"),
		gObj("", gArr("l", gObj("", gLeaf("x", "string"), gTime("t"), gObj("p", gLeaf("q", "boolean"))).need("x")), gLeaf("k", "string")).need("l"),
		gObj("", gArr("l", gObj("", gArr("m", gObj("", gLeaf("x", "string"))))), gArr("n", gTime(""))),
		gObj("", gObj("a", gLeaf("x", "string")), gObj("b", gLeaf("x", "string"), gLeaf("y", "string")).need("y")),
		gObj("", gObj("o", gObj("p", gObj("q", gLeaf("y", "string")), gArr("r", gObj("", gLeaf("z", "string"))))).to("Other"), gLeaf("k", "string")),
		gObj("", gArr("o", gObj("", gObj("p", gObj("q", gLeaf("y", "string")))).to("Other")), gLeaf("k", "string")),
		gObj("", gObj("u", gObj("o", gObj("p", gLeaf("y", "string"))).to("Other")), gObj("v", gObj("o", gLeaf("k", "string")))),
		gObj("", gArr("l", gLeaf("", "string")).to("Tag"), gObj("e").about("anything"), gArr("f", gObj(""))),
		gObj("", gLeaf("k", "string")).need("K"),
	)
	return out
}

// gqlDoc reads a generated file.
func (g *genRun) gqlDoc(o Outcome, path string) ([]gqlType, string) {
	src, why := g.text(o.St, path)
	if why != "" {
		return nil, why
	}
	ts, comments, err := gqlParse(src)
	if err != nil {
		return nil, path + " is not GraphQL: " + err.Error()
	}
	mark := false
	for _, cm := range comments {
		if strings.Contains(cm, "Code generated ") && strings.Contains(cm, "DO NOT EDIT") {
			mark = true
		}
	}
	if !mark {
		return nil, path + " is not marked as generated"
	}
	for _, e := range events(o.St, "close") {
		if e.Args[0].Key() == "file:"+path {
			return ts, ""
		}
	}
	return nil, path + " is not closed"
}

func (c *Ctx) gqlCase(rule string, x gqlConf, root *gsch) {
	name := root.describe() + " " + x.name()
	c.Guard(rule, name, func() {
		g := newGenRun(c)
		g.files["root"] = root
		f := c.Anchor(c.P.Func("generate", "BuildStructsWithArgs"), "BuildStructsWithArgs")
		g.s.run(f, g.gqlArgs(x, nil))
		sp := &gqlSpec{x: x, types: map[string]gqlType{}}
		sp.object("type", x.goType("root"), x.mappedRoot("root"), root, false)
		path := "/out/pkg/root.graphqls"
		if x.own {
			path = "/gql/root.graphqls"
		}
		g.s.each(rule, name, func(o Outcome) string {
			if nilState(o.St, o.Ret[0]) != 1 {
				return "fails: " + describe(o.Ret[0])
			}
			for p := range outFiles(o.St) {
				if strings.HasSuffix(p, ".graphqls") && p != path {
					return "writes " + p
				}
			}
			ts, why := g.gqlDoc(o, path)
			if why != "" {
				return why
			}
			return sp.compare(ts)
		})
	})
}

// mappedRoot is the name of the type for a file.
func (x gqlConf) mappedRoot(base string) string {
	if n, ok := x.gql[base]; ok {
		return n
	}
	return x.goType(base)
}

func runG10(c *Ctx) {
	const rule = "fields of the GraphQL types"
	var tasks []func(c *Ctx)
	for i, root := range gqlSchemas() {
		for m := 0; m < 2; m++ {
			tasks = append(tasks, func(c *Ctx) { c.gqlCase(rule, gqlConf{pointers: m > 0, scalar: i%2 > 0, own: i%3 > 0}, root) })
		}
	}
	ren := gObj("", gLeaf("a", "string"), gObj("b", gLeaf("a", "string"), gArr("c", gLeaf("", "string")), gObj("e", gLeaf("a", "string"), gObj("f", gLeaf("c", "string")))), gArr("d", gObj("", gLeaf("e", "string")))).need("a")
	for m := 0; m < 8; m++ {
		x := gqlConf{}
		if m&1 > 0 {
			x.structs = map[string]string{"root": "Model", "other": "No"}
		}
		if m&2 > 0 {
			x.fields = map[string]string{"a": "renamed", "c": "list"}
		}
		if m&4 > 0 {
			x.gql = map[string]string{"root": "Query", "RootB": "Bee", "QueryB": "BeeOfQuery", "BeeOfQueryEF": "EfOfQuery", "RootBE": "NotThis", "ModelD": "Dee", "other": "No"}
		}
		tasks = append(tasks, func(c *Ctx) { c.gqlCase(rule, x, ren) })
	}
	c.Each(len(tasks), func(c *Ctx, i int) { tasks[i](c) })
	c.Need(rule, 200)

	const rule2 = "what is no GraphQL field is an error"
	bad := []*gsch{gObj("", gLeaf("a", "string", "integer")), gObj("", gLeaf("a", "null", "string", "integer")), gObj("", gArr("a", gLeaf("", "string", "integer"))), gObj("", gArr("a", gArr("", gLeaf("", "string")))), gObj("", gObj("o", gArr("a", gArr("", gObj("", gLeaf("x", "string"))))))}
	for _, root := range bad {
		root := root
		c.Guard(rule2, root.describe(), func() {
			g := newGenRun(c)
			g.files["root"] = root
			f := c.Anchor(c.P.Func("generate", "BuildStructsWithArgs"), "BuildStructsWithArgs")
			g.s.run(f, g.gqlArgs(gqlConf{}, map[string]Val{"OutputDirGraphQL": cStr("/gql")}))
			g.s.each(rule2, root.describe(), func(o Outcome) string {
				if nilState(o.St, o.Ret[0]) != 2 {
					return "there is no error"
				}
				for p := range outFiles(o.St) {
					if strings.HasPrefix(p, "/gql/") {
						src, _ := g.text(o.St, p)
						if ts, _, err := gqlParse(src); err == nil && len(ts) > 0 {
							return "GraphQL is written and the error only found for the struct"
						}
					}
				}
				return ""
			})
		})
	}
	c.Need(rule2, 5)
	c.gqlLayouts()
}

// gqlLayout is a schema of parts.
type gqlLayout struct {
	all, one   int
	own        bool // the schema has properties too
	inter      bool // a file for each implementation
	embed      bool
	oneAll     []int // allOf parts of the oneOf parts with embedding
	x          gqlConf
	out, other string
	path       string
}

func (l gqlLayout) name() string {
	s := fmt.Sprintf("%d allOf %d oneOf of %s", l.all, l.one, l.path)
	if l.own {
		s += ", own properties"
	}
	if l.inter {
		s += ", files for implementations"
	}
	if l.embed {
		s += fmt.Sprintf(", embedding %v", l.oneAll)
	}
	return s + ", " + l.x.name() + " to " + l.out
}

func (c *Ctx) gqlLayouts() {
	const rule = "GraphQL of schemas of parts"
	var tasks []func(c *Ctx)
	add := func(l gqlLayout) { tasks = append(tasks, func(c *Ctx) { c.gqlLayout(rule, l) }) }
	for _, all := range []int{0, 1, 2} {
		for _, one := range []int{0, 1, 2, 4} {
			if all+one == 0 {
				continue
			}
			for m := 0; m < 16; m++ {
				l := gqlLayout{all: all, one: one, own: m&1 > 0, inter: m&2 > 0, embed: m&4 > 0, path: "/in/asset.v1.json", out: "/out/asset"}
				if m&8 > 0 {
					l.out = "/out/models"
					l.x.pointers = true
				}
				if l.embed {
					l.oneAll = []int{1, 0, 2}
				}
				if l.inter && one == 0 {
					continue
				}
				add(l)
				if m&8 > 0 {
					continue
				}
				l.x.gql = map[string]string{"asset": "Media", "one1": "Story"}
				l.x.structs = map[string]string{"all0": "Base", "one0": "Picture"}
				l.x.scalar = true
				add(l)
			}
		}
	}
	c.Each(len(tasks), func(c *Ctx, i int) { tasks[i](c) })
	c.Need(rule, 150)
}

func (c *Ctx) gqlLayout(rule string, l gqlLayout) {
	c.Guard(rule, l.name(), func() {
		g := newGenRun(c)
		root := gObj("")
		if l.own {
			root = gObj("", gLeaf("own", "string"))
		}
		var common []*gsch
		for i := 0; i < l.all; i++ {
			k := gObj("", gLeaf(fmt.Sprintf("c%d", i), "string"), gArr(fmt.Sprintf("cl%d", i), gLeaf("", "integer")), gLeaf(fmt.Sprintf("cn%d", i), "string").null()).need(fmt.Sprintf("c%d", i))
			if i == 0 {
				k.need("c0", "cn0")
			}
			if i == 0 {
				k.kids = append(k.kids, gObj("meta", gLeaf("m", "string"), gObj("deep", gLeaf("d", "string"))))
			}
			k.ref = fmt.Sprintf("parts/all%d.json", i)
			root.allOf = append(root.allOf, k)
			common = append(common, k)
		}
		type impl struct {
			base string
			sch  *gsch
			all  []*gsch
		}
		var impls []impl
		for i := 0; i < l.one; i++ {
			k := gObj("", gLeaf(fmt.Sprintf("f%d", i), "string"), gLeaf("kind", "string"), gLeaf("other", "string").null(), gLeaf("more", "string").null(), gObj("info", gLeaf("n", "integer"))).about("about one")
			k.need([][]string{{"kind", "other"}, {"kind", "more", "info"}, {"kind"}, {"more"}}[i%4]...)
			k.ref = fmt.Sprintf("parts/one%d.v2.json", i)
			if i == 2 {
				k.ref = "parts/asset_special.json"
			}
			if i == 1 && l.one > 2 {
				k.ref = "parts/videoasset.json"
			}
			if i == 3 {
				k.ref = "parts/AssetOther.json"
			}
			im := impl{base: baseName(k.ref), sch: k}
			if l.embed && i < len(l.oneAll) {
				for j := 0; j < l.oneAll[i]; j++ {
					a := gObj("", gLeaf(fmt.Sprintf("e%d%d", i, j), "string"), gObj(fmt.Sprintf("eo%d", j), gLeaf("x", "string"))).need(fmt.Sprintf("e%d%d", i, j))
					a.ref = fmt.Sprintf("parts/extra%d%d.json", i, j)
					k.allOf = append(k.allOf, a)
					im.all = append(im.all, a)
				}
			}
			root.oneOf = append(root.oneOf, k)
			impls = append(impls, im)
		}
		g.files["asset"] = root
		for _, k := range root.allOf {
			g.all = append(g.all, "/in/"+k.ref)
			g.files[baseName(k.ref)] = k
		}
		for _, k := range root.oneOf {
			g.one = append(g.one, "/in/"+k.ref)
			g.files[baseName(k.ref)] = k
		}
		if l.own {
			g.props = []string{"own"}
		}
		f := c.Anchor(c.P.Func("generate", "BuildStructsWithArgs"), "BuildStructsWithArgs")
		g.s.run(f, g.gqlArgs(l.x, map[string]Val{
			"SchemaPath": cStr(l.path), "OutputDir": cStr(l.out), "OutputDirGraphQL": cStr(l.out), "EmbedAllOf": cBool(l.embed), "InterfaceFiles": cBool(l.inter)}))
		g.s.each(rule, l.name(), func(o Outcome) string {
			if nilState(o.St, o.Ret[0]) != 1 {
				return "fails: " + describe(o.Ret[0])
			}
			mode := "flat"
			if l.embed {
				mode = "noflat"
			}
			loaded := false
			for _, e := range events(o.St, "load") {
				m, _ := asStr(e.Args[0])
				p, _ := asStr(e.Args[1])
				loaded = loaded || p == l.path && m == mode
			}
			if !loaded {
				return "the schema is not loaded " + mode
			}
			main := l.out + "/asset.graphqls"
			file := func(im impl) string {
				if !l.inter {
					return main
				}
				if strings.HasPrefix(im.base, "asset") {
					return l.out + "/" + im.base + ".graphqls"
				}
				return l.out + "/asset_" + im.base + ".graphqls"
			}
			wantFiles := map[string]bool{main: true}
			for _, im := range impls {
				wantFiles[file(im)] = true
			}
			docs := map[string][]gqlType{}
			for p := range outFiles(o.St) {
				if !wantFiles[p] && filepath.Ext(p) != ".go" {
					return "writes " + p
				}
			}
			where := map[string]string{}
			types := map[string]gqlType{}
			for p := range wantFiles {
				ts, why := g.gqlDoc(o, p)
				if why != "" {
					return why
				}
				docs[p] = ts
				for _, t := range ts {
					where[t.name] = p
					types[t.name] = t
				}
			}
			if why := gqlWhole(docs, nil); why != "" {
				return why
			}
			if _, ok := types["Any"]; ok != l.x.scalar {
				return fmt.Sprintf("scalar Any: %v", ok)
			}
			// the fields and types a part asks for
			part := func(s *gsch, goName, name string) []gqlField {
				sp := &gqlSpec{x: l.x, types: map[string]gqlType{}}
				return sp.object("type", goName, name, s, false)
			}
			var cf []gqlField
			if l.all > 0 {
				first := l.x.goType("all0")
				for _, k := range common {
					cf = append(cf, part(k, first, l.x.mappedRoot("all0"))...)
				}
				name := l.x.mapped("asset")
				if name == "asset" {
					name = "Asset"
					if l.one == 0 {
						name = exported(filepath.Base(l.out)) // not renamed: after the package
					}
				}
				t, ok := types[name]
				if !ok {
					return "there is no " + name + " for the common parts"
				}
				if kind := map[bool]string{true: "interface", false: "type"}[l.one > 0]; t.kind != kind {
					return name + " is no " + kind
				}
				if where[name] != main {
					return name + " is in " + where[name]
				}
				if d := fieldsDiff(cf, t.fields); d != "" {
					return name + " " + d
				}
				for _, sub := range []struct{ n, field string }{{"Meta", "m"}, {"MetaDeep", "d"}} {
					tn := exported(l.x.mappedRoot("all0")) + sub.n
					if t, ok := types[tn]; !ok || where[tn] != main || t.kind != "type" || !hasField(t, sub.field) {
						return "there is no type " + tn + " with a field " + sub.field + " in " + main
					}
				}
				for _, im := range impls {
					if tt := implType(l, im.base, true); strings.Join(types[tt].implements, " ") != name {
						return tt + " implements " + strings.Join(types[tt].implements, " ") + " and not " + name
					}
				}
			}
			for _, im := range impls {
				tn := implType(l, im.base, l.all > 0)
				t, ok := types[tn]
				if !ok {
					return "there is no type " + tn
				}
				if t.kind != "type" || where[tn] != file(im) || t.desc != "about one" {
					return fmt.Sprintf("%s in %s, not in %s", t.head(), where[tn], file(im))
				}
				model := fmt.Sprintf("goModel(model: %q)", gqlImport+"."+l.x.goType(im.base))
				if strings.Join(t.dirs, " ") != model {
					return tn + " is @" + strings.Join(t.dirs, " @") + " and not @" + model
				}
				want := append([]gqlField(nil), cf...)
				for _, a := range im.all {
					want = append(want, part(a, l.x.goType(baseName(a.ref)), l.x.mappedRoot(baseName(a.ref)))...)
				}
				want = append(want, part(im.sch, l.x.goType(im.base), tn)...)
				if d := fieldsDiff(want, t.fields); d != "" {
					return tn + " " + d
				}
				if sub := exported(tn) + "Info"; where[sub] != file(im) || !hasField(types[sub], "n") {
					return "there is no " + sub + " in " + file(im)
				}
			}
			if l.all+l.one == 0 && len(types) == 0 {
				return "there is no type"
			}
			return ""
		})
	})
}

func hasField(t gqlType, n string) bool {
	for _, f := range t.fields {
		if f.name == n {
			return true
		}
	}
	return false
}

// implType is the name of the type for a oneOf part.
func implType(l gqlLayout, base string, implements bool) string {
	if n, ok := l.x.gql[base]; ok {
		return n
	}
	if implements {
		return strings.ToLower(base)
	}
	return l.x.goType(base)
}
