package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"sort"
	"strconv"
	"strings"
)

func init() {
	register("G05", "for every kind of property (type, format, nullable, required, of an object, of an array) and every setting the struct written has exactly one field for it with the Go type, the JSON name, the omit option and the description the documentation gives; a property with a union of types is an error, one which is only hydrated in GraphQL has no field", runG05)
}

// genConf are settings of the generator.
type genConf struct {
	noNested, pointers, tags bool
	rename                   map[string]string
}

func (x genConf) name() string {
	s := "nested"
	if x.noNested {
		s = "own types"
	}
	if x.pointers {
		s += ", pointers"
	}
	if x.tags {
		s += ", description in tags"
	}
	if x.rename != nil {
		s += ", renaming"
	}
	return s
}

func (g *genRun) conf(x genConf, more map[string]Val) Val {
	f := map[string]Val{
		"SchemaPath":             cStr("/in/root.json"),
		"OutputDir":              cStr("/out/pkg"),
		"NoNestedStructs":        cBool(x.noNested),
		"Pointers":               cBool(x.pointers),
		"DescriptionAsStructTag": cBool(x.tags),
	}
	if x.rename != nil {
		var kv []string
		var ks []string
		for k := range x.rename {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			kv = append(kv, k, x.rename[k])
		}
		f["FieldNameMap"] = g.names("rename", kv...)
	}
	for k, v := range more {
		f[k] = v
	}
	return g.args(f)
}

// goField is a field of a struct; alts are types which may be written instead.
type goField struct {
	name, typ string
	alts      []string
	json      string
	omit      string
	desc      string
	kids      []goField
	isStruct  bool
}

// goStructs is the content of a generated file: fields by type name.
type goStructs map[string][]goField

// goSpec is what the documentation asks for.
type goSpec struct {
	x     genConf
	types goStructs
	time  bool
}

func exported(n string) string {
	if n == "" {
		return n
	}
	return strings.ToUpper(n[:1]) + n[1:]
}

func (x genConf) goName(n string) string {
	if r, ok := x.rename[n]; ok {
		n = r
	}
	return exported(n)
}

// wantGo gives the types expected for a schema.
func wantGo(x genConf, typ string, root *gsch) *goSpec {
	sp := &goSpec{x: x, types: goStructs{}}
	sp.object(typ, root)
	return sp
}

func (sp *goSpec) object(typ string, o *gsch) {
	sp.types[typ] = sp.fields(typ, o)
}

func (sp *goSpec) fields(typ string, o *gsch) []goField {
	var out []goField
	for _, k := range o.kids {
		if f, ok := sp.field(typ, o, k); ok {
			out = append(out, f)
		}
	}
	return out
}

func hydrated(k *gsch) bool {
	return k.kind() == "graphql-hydration" || k.item != nil && k.item.kind() == "graphql-hydration"
}

func (sp *goSpec) field(typ string, parent, k *gsch) (goField, bool) {
	if hydrated(k) {
		return goField{}, false
	}
	required := parent.isReq(k.name)
	f := goField{name: sp.x.goName(k.name), json: k.name, desc: k.desc}
	in, arr := k, false
	if k.kind() == "array" {
		in, arr = k.item, true
	}
	ptr := k.is("null") && !arr
	structure := false
	switch in.kind() {
	case "boolean":
		f.typ = "bool"
	case "number":
		f.typ = "float64"
	case "integer":
		f.typ = "int64"
	case "string":
		f.typ = "string"
		if in.format == "date-time" {
			sp.time = true
			f.typ = "time.Time"
			ptr = ptr || sp.x.pointers && !required
		}
	case "object":
		named := typ + exported(k.name)
		var kids []goField
		if sp.x.noNested {
			kids = sp.fields(named, in)
		} else {
			kids = sp.fields("", in)
		}
		switch {
		case len(kids) == 0:
			f.typ = "map[string]string"
			if sp.x.noNested {
				ptr = false
			}
		case sp.x.noNested:
			sp.types[named] = kids
			f.typ = named
			ptr = sp.x.pointers && !required || in.is("null")
			structure = true
		default:
			f.isStruct, f.kids = true, kids
			f.typ = "struct"
			structure = true
		}
	}
	base := f.typ
	if ptr {
		f.typ = "*" + base
	}
	if arr {
		f.typ = "[]" + f.typ
		if k.is("null") {
			// a nullable array is nil as it is, its items may be pointers
			f.alts = []string{"[]" + base, "[]*" + base}
		}
	}
	if !required {
		f.omit = ",omitempty"
		if structure && !arr && !ptr {
			f.omit = ",omitzero"
		}
	}
	return f, true
}

func (f goField) line(x genConf) string {
	s := f.name + " " + f.typ
	if f.isStruct {
		var ks []string
		for _, k := range f.kids {
			ks = append(ks, k.line(x))
		}
		sort.Strings(ks)
		s += "{" + strings.Join(ks, "; ") + "}"
	}
	s += " json:" + f.json + f.omit
	if x.tags && f.desc != "" {
		s += " description:" + strings.Split(f.desc, "\n")[0]
	}
	if !x.tags && f.desc != "" {
		s += " // " + strings.ReplaceAll(f.desc, "\n", "|")
	}
	return s
}

func (f goField) lines(x genConf) []string {
	out := []string{f.line(x)}
	for _, a := range f.alts {
		g := f
		g.typ = a
		out = append(out, g.line(x))
	}
	return out
}

// gotGo reads generated Go source: the lines of the fields by type, other declarations.
type gotGo struct {
	pkg     string
	imports []string
	types   map[string][]string
	embeds  map[string][]string
	other   []string
	file    *ast.File
}

func readGo(src string) (*gotGo, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	g := &gotGo{pkg: f.Name.Name, types: map[string][]string{}, embeds: map[string][]string{}, file: f}
	for _, i := range f.Imports {
		g.imports = append(g.imports, strings.Trim(i.Path.Value, "\""))
	}
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok {
			g.other = append(g.other, "function")
			continue
		}
		for _, s := range gd.Specs {
			ts, ok := s.(*ast.TypeSpec)
			if !ok {
				if gd.Tok != token.IMPORT {
					g.other = append(g.other, gd.Tok.String())
				}
				continue
			}
			st, ok := ts.Type.(*ast.StructType)
			if !ok {
				g.other = append(g.other, "type "+ts.Name.Name)
				continue
			}
			if _, dup := g.types[ts.Name.Name]; dup {
				g.other = append(g.other, "a second type "+ts.Name.Name)
			}
			g.types[ts.Name.Name], g.embeds[ts.Name.Name] = goLines(fs, st)
		}
	}
	return g, nil
}

func exprText(fs *token.FileSet, e ast.Expr) string {
	var b bytes.Buffer
	printer.Fprint(&b, fs, e)
	return b.String()
}

// goLines renders the fields of a struct, each on a line.
func goLines(fs *token.FileSet, st *ast.StructType) (fields, embeds []string) {
	for _, f := range st.Fields.List {
		if len(f.Names) == 0 {
			embeds = append(embeds, exprText(fs, f.Type))
			continue
		}
		for _, n := range f.Names {
			s := n.Name + " "
			t := f.Type
			pre := ""
			for {
				if p, ok := t.(*ast.StarExpr); ok {
					pre += "*"
					t = p.X
					continue
				}
				if a, ok := t.(*ast.ArrayType); ok && a.Len == nil {
					pre += "[]"
					t = a.Elt
					continue
				}
				break
			}
			if in, ok := t.(*ast.StructType); ok {
				ks, em := goLines(fs, in)
				sort.Strings(ks)
				s += pre + "struct{" + strings.Join(append(ks, em...), "; ") + "}"
			} else {
				s += pre + exprText(fs, t)
			}
			if f.Tag != nil {
				if t, err := strconv.Unquote(f.Tag.Value); err == nil {
					s += tagLine(t)
				}
			}
			if f.Doc != nil {
				s += " // " + strings.ReplaceAll(strings.TrimSpace(f.Doc.Text()), "\n", "|")
			}
			fields = append(fields, s)
		}
	}
	return
}

// tagLine renders the parts of a struct tag in the order of their names, json first.
func tagLine(tag string) string {
	var json string
	var rest []string
	for tag = strings.TrimSpace(tag); tag != ""; tag = strings.TrimSpace(tag) {
		k, v, ok := strings.Cut(tag, ":")
		if !ok {
			return " tag " + tag
		}
		q, err := strconv.QuotedPrefix(v)
		if err != nil || q[0] != '"' {
			return " tag " + tag
		}
		t, err := strconv.Unquote(q)
		if err != nil {
			return " tag " + tag
		}
		if k == "json" {
			json = " json:" + t
		} else {
			rest = append(rest, " "+k+":"+t)
		}
		tag = v[len(q):]
	}
	sort.Strings(rest)
	return json + strings.Join(rest, "")
}

// compare tells how the types read differ from those wanted.
func (sp *goSpec) compare(got *gotGo) string {
	for n := range got.types {
		if _, ok := sp.types[n]; !ok {
			return "there is a type " + n + " which no schema asks for"
		}
	}
	var ts []string
	for n := range sp.types {
		ts = append(ts, n)
	}
	sort.Strings(ts)
	for _, n := range ts {
		have, ok := got.types[n]
		if !ok {
			return "there is no type " + n
		}
		used := map[int]bool{}
		for _, f := range sp.types[n] {
			found := false
			for _, l := range f.lines(sp.x) {
				for i, h := range have {
					if !found && !used[i] && h == l {
						used[i], found = true, true
					}
				}
			}
			if !found {
				near := ""
				for i, h := range have {
					if !used[i] && strings.HasPrefix(h, f.name+" ") {
						near = ", it is " + h
					}
				}
				if near == "" {
					near = ", there are " + strings.Join(have, "; ")
				}
				return "type " + n + " has no field " + f.line(sp.x) + near
			}
		}
		for i, h := range have {
			if !used[i] {
				return "type " + n + " has a field " + h + " which no property asks for"
			}
		}
	}
	if len(got.other) > 0 {
		return "there is also " + strings.Join(got.other, ", ")
	}
	hasTime := false
	for _, i := range got.imports {
		if i == "time" {
			hasTime = true
		} else {
			return "imports " + i
		}
	}
	if hasTime != sp.time {
		return fmt.Sprintf("imports time: %v, a time is used: %v", hasTime, sp.time)
	}
	return ""
}

func goSchemas(deep bool) []*gsch {
	kinds := func() []*gsch {
		return []*gsch{gLeaf("a", "boolean"), gLeaf("a", "number"), gLeaf("a", "integer"), gLeaf("a", "string"), gTime("a"), gObj("a"), gObj("a", gLeaf("x", "string")), gObj("a", gLeaf("h", "graphql-hydration").to("T"))}
	}
	var out []*gsch
	for i := range kinds() {
		for _, null := range []int{0, 1, 2} {
			for _, arr := range []bool{false, true} {
				for _, req := range []bool{false, true} {
					k := kinds()[i]
					if arr {
						if null == 2 {
							continue
						}
						k.name = ""
						k = gArr("a", k)
					}
					if null == 1 {
						k.null()
					}
					if null == 2 {
						k.nullFirst()
					}
					r := gObj("", k)
					if req {
						r.need("a")
					}
					out = append(out, r)
				}
			}
		}
	}
	out = append(out,
		gObj("", gLeaf("b", "string").about(`say "a"`), gLeaf("c", "integer").about(`back\slash`), gLeaf("d", "boolean").about("a ` tick"), gLeaf("e", "number").about("a\tb 	\u00e9 \u2603 json:\"x\"")),
		gObj("", gLeaf("b", "string").about("some text"), gLeaf("a_b", "integer").about("one\ntwo"), gTime("c").about("when")).need("b", "c"),
		gObj("", gLeaf("z", "string"), gLeaf("h", "graphql-hydration").to("T"), gLeaf("a", "string")).need("z"),
		gObj("", gObj("o", gLeaf("x", "string"), gObj("p", gLeaf("y", "integer"), gArr("l", gLeaf("", "string"))).need("y")).need("p"), gLeaf("x", "number")).need("o"),
		gObj("", gObj("o", gTime("t"), gLeaf("n", "integer", "null")).null()),
		gObj("", gArr("l", gObj("", gLeaf("x", "string"), gTime("t"), gObj("p", gLeaf("q", "boolean"))).need("x")), gLeaf("k", "string")).need("l"),
		gObj("", gArr("l", gObj("", gArr("m", gObj("", gLeaf("x", "string"))))), gArr("n", gTime(""))),
		gObj("", gObj("a", gLeaf("x", "string")), gObj("b", gLeaf("x", "string"), gLeaf("y", "string")).need("y")),
	)
	return out
}

func runG05(c *Ctx) {
	const rule = "fields of the generated structs"
	for _, root := range goSchemas(c.Thorough) {
		for m := 0; m < 8; m++ {
			x := genConf{noNested: m&1 > 0, pointers: m&2 > 0, tags: m&4 > 0}
			if x.tags && !strings.Contains(root.describe(), "#") {
				continue
			}
			c.goCase(rule, x, root)
		}
	}
	ren := gObj("", gLeaf("a", "string"), gObj("b", gLeaf("a", "string"), gLeaf("c", "string")), gArr("d", gLeaf("", "string"))).need("a")
	for m := 0; m < 2; m++ {
		c.goCase(rule, genConf{noNested: m > 0, rename: map[string]string{"a": "renamed", "d": "List", "nothing": "x"}}, ren)
	}
	for m := 0; m < 4; m++ {
		// a required name is the JSON name, not the name of the Go field
		c.goCase(rule, genConf{noNested: m&1 > 0, pointers: m&2 > 0}, gObj("", gTime("a"), gObj("b", gLeaf("x", "string")), gArr("c", gLeaf("", "string"))).need("A", "B", "C"))
	}
	// fields of one name at several places, required or not at each
	for m := 0; m < 32; m++ {
		var reqs [3][]string
		for i := range reqs {
			if m>>i&1 > 0 {
				reqs[i] = []string{"a", "t"}
			}
		}
		inner := gObj("a", gLeaf("a", "string"), gTime("t")).need(reqs[2]...)
		mid := gObj("o", inner, gTime("t")).need(reqs[1]...)
		root := gObj("", gLeaf("a", "integer"), mid, gTime("t")).need(reqs[0]...)
		if m&8 > 0 {
			mid = gArr("o", gObj("", inner, gTime("t")).need(reqs[1]...))
			root = gObj("", gLeaf("a", "integer"), mid, gTime("t")).need(reqs[0]...)
		}
		c.goCase(rule, genConf{noNested: m&16 > 0}, root)
		c.goCase(rule, genConf{noNested: m&16 > 0, pointers: true}, root)
	}
	c.Need(rule, 350)
	const rule3 = "arrays of arrays"
	for m := 0; m < 4; m++ {
		root := gObj("", gArr("a", gArr("", gLeaf("", "string"))), gLeaf("k", "string"))
		x := genConf{noNested: m&1 > 0, pointers: m&2 > 0}
		name := x.name()
		c.Guard(rule3, name, func() {
			g := newGenRun(c)
			g.files["root"] = root
			f := c.Anchor(c.P.Func("generate", "BuildStructsWithArgs"), "BuildStructsWithArgs")
			g.s.run(f, g.conf(x, nil))
			g.s.each(rule3, name, func(o Outcome) string {
				if nilState(o.St, o.Ret[0]) == 2 {
					return ""
				}
				src, why := g.text(o.St, "/out/pkg/root.go")
				if why != "" {
					return why
				}
				got, err := readGo(src)
				if err != nil {
					return "the source written does not parse: " + err.Error()
				}
				for _, l := range got.types["Root"] {
					if strings.HasPrefix(l, "A [][]") {
						return ""
					}
				}
				return "the array of arrays is neither refused nor a slice of slices: " + strings.Join(got.types["Root"], "; ")
			})
		})
	}
	c.Need(rule3, 4)
	const rule2 = "a union of types is no field"
	unions := [][]string{{"null", "string", "integer"}, {"string", "null", "boolean"}, {"string", "integer", "null"}, {"string", "number", "boolean"}}
	for _, a := range []string{"string", "integer", "number", "boolean", "object", "array"} {
		for _, b := range []string{"string", "integer", "number", "boolean"} {
			if a != b {
				unions = append(unions, []string{a, b})
			}
		}
	}
	for _, u := range unions {
		for _, noNested := range []bool{false, true} {
			root := gObj("", gLeaf("a", u...))
			if noNested && u[0] == "object" {
				continue
			}
			name := root.describe() + " " + genConf{noNested: noNested}.name()
			c.Guard(rule2, name, func() {
				g := newGenRun(c)
				g.files["root"] = root
				f := c.Anchor(c.P.Func("generate", "BuildStructsWithArgs"), "BuildStructsWithArgs")
				g.s.run(f, g.conf(genConf{noNested: noNested}, nil))
				g.s.each(rule2, name, func(o Outcome) string {
					if nilState(o.St, o.Ret[0]) != 2 {
						return "there is no error"
					}
					return ""
				})
			})
		}
	}
	c.Need(rule2, 40)
}

func (c *Ctx) goCase(rule string, x genConf, root *gsch) {
	name := root.describe() + " " + x.name()
	c.Guard(rule, name, func() {
		g := newGenRun(c)
		g.files["root"] = root
		f := c.Anchor(c.P.Func("generate", "BuildStructsWithArgs"), "BuildStructsWithArgs")
		g.s.run(f, g.conf(x, nil))
		want := wantGo(x, "Root", root)
		g.s.each(rule, name, func(o Outcome) string {
			if nilState(o.St, o.Ret[0]) != 1 {
				return "fails: " + describe(o.Ret[0])
			}
			src, why := g.text(o.St, "/out/pkg/root.go")
			if why != "" {
				return why
			}
			got, err := readGo(src)
			if err != nil {
				return "the source written does not parse: " + err.Error()
			}
			return want.compare(got)
		})
	})
}
