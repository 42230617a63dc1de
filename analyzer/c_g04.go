package main

import (
	"fmt"
	"go/format"
	"go/types"
	"path/filepath"
	"sort"
	"strings"
)

func init() {
	register("G04", "for every layout of a schema (own properties, allOf and oneOf parts, absolute and relative paths, renaming, embedding) exactly one Go file for each part is written into the output directory, complete, formatted, closed, in the package of the directory, marked as generated, with the struct of the part embedding its common parts; nothing is written elsewhere and MessagePack code is made from the finished files when asked for and only then", runG04)
}

// layout is a layout of a schema file and the settings it is generated with.
type layout struct {
	all, one []string
	props    bool
	path     string // of the schema
	out      string
	rename   map[string]string
	embed    bool
	msgp     bool
	refs     []string // fromRef of the allOf parts of the schemas
}

func (l layout) name() string {
	s := fmt.Sprintf("allOf [%s] oneOf [%s]", strings.Join(l.all, " "), strings.Join(l.one, " "))
	if l.props {
		s += " own properties"
	}
	s += " " + l.path + " to " + l.out
	if l.rename != nil {
		s += " renaming"
	}
	if l.embed {
		s += " embedding [" + strings.Join(l.refs, " ") + "]"
	}
	if l.msgp {
		s += " MessagePack"
	}
	return s
}

// typeName is the name of the struct for a file.
func (l layout) typeName(p string) string {
	b := baseName(p)
	if n, ok := l.rename[b]; ok {
		return exported(n)
	}
	return exported(b)
}

type wantFile struct {
	path, pkg, typ string
	embeds         []string
	load           string
}

func (l layout) want() map[string]wantFile {
	out := l.out
	if out == "" {
		out = "/cwd/dir"
	}
	pkg := filepath.Base(out)
	files := map[string]wantFile{}
	abs := func(p string) string {
		if filepath.IsAbs(p) {
			return p
		}
		return filepath.Join(filepath.Dir(l.path), p)
	}
	mode := "flat"
	var refs []string
	if l.embed {
		mode = "noflat"
		for _, r := range l.refs {
			refs = append(refs, l.typeName(r))
		}
	}
	all := append([]string(nil), l.all...)
	if len(l.all) == 0 && len(l.one) == 0 || l.props {
		p := l.path
		if !filepath.IsAbs(p) {
			p = filepath.Join("/cwd/dir", p)
		}
		all = append(all, p)
	}
	var embeds []string
	add := func(p string, em []string) {
		f := filepath.Join(out, baseName(p)+".go")
		es := append([]string(nil), em...)
		for _, r := range refs {
			if !contains(es, r) {
				es = append(es, r)
			}
		}
		files[f] = wantFile{f, pkg, l.typeName(p), es, mode + " " + abs(p)}
	}
	for _, p := range all {
		embeds = append(embeds, l.typeName(p))
		add(p, nil)
	}
	for _, p := range l.one {
		add(p, embeds)
	}
	return files
}

func layouts(deep bool) []layout {
	var out []layout
	shapes := []layout{
		{},
		{all: []string{"a.json"}, props: true},
		{all: []string{"a.json", "sub/b.v1.json"}},
		{one: []string{"x.json"}},
		{one: []string{"x.json", "/abs/y.json"}, props: true},
		{all: []string{"./a.json", "/abs/b.json"}, one: []string{"../x.json", "y.json"}},
		{all: []string{"a.json"}, one: []string{"x.json"}, props: true},
		{all: []string{"c.json", "a.json", "b.json"}, one: []string{"y.json", "x.json", "z.json"}, props: true},
	}
	for _, s := range shapes {
		for _, path := range []string{"/in/deep/root.json", "schemas/root.v2.json"} {
			for _, o := range []string{"/out/pkg", "gen/pkg", ""} {
				for _, ren := range []map[string]string{nil, {"a": "Common", "x": "special", "root": "Main", "other": "Other"}, {"a": "common", "r": "ref"}} {
					if ren != nil && ren["root"] == "" && (o != "/out/pkg" || !strings.HasPrefix(path, "/")) && !deep {
						continue
					}
					for _, refs := range [][]string{nil, {"r.json"}, {"dir/r.v1.json", "a.json"}} {
						if !deep && (refs != nil && ren == nil && len(refs) == 1 || o == "gen/pkg" && refs != nil) {
							continue
						}
						l := s
						l.path, l.out, l.rename, l.refs = path, o, ren, refs
						l.embed = refs != nil
						out = append(out, l)
					}
				}
			}
		}
		l := s
		l.path, l.out, l.msgp = "/in/root.json", "/out/pkg", true
		out = append(out, l)
		l.embed = true
		out = append(out, l)
	}
	return out
}

func (g *genRun) layoutArgs(l layout, more map[string]Val) Val {
	f := map[string]Val{
		"SchemaPath":          cStr(l.path),
		"OutputDir":           cStr(l.out),
		"EmbedAllOf":          cBool(l.embed),
		"GenerateMessagePack": cBool(l.msgp),
	}
	if l.rename != nil {
		f["StructNameMap"] = g.names("structs", flatMap(l.rename)...)
	}
	for k, v := range more {
		f[k] = v
	}
	return g.args(f)
}

func flatMap(m map[string]string) []string {
	var ks, out []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		out = append(out, k, m[k])
	}
	return out
}

func (g *genRun) layoutFiles(l layout) {
	g.all, g.one = l.all, l.one
	if l.props {
		g.props = []string{"k"}
	}
	for _, p := range append(append([]string{l.path}, l.all...), l.one...) {
		x := gObj("", gLeaf("k_"+baseName(p), "string"))
		for _, r := range l.refs {
			a := gObj("", gLeaf("z", "string"))
			a.ref = r
			x.allOf = append(x.allOf, a)
		}
		g.files[baseName(p)] = x
	}
}

func runG04(c *Ctx) {
	const rule = "files of the generated structs"
	f := c.Anchor(c.P.Func("generate", "BuildStructsWithArgs"), "BuildStructsWithArgs")
	for _, l := range layouts(c.Thorough) {
		l := l
		c.Guard(rule, l.name(), func() {
			g := newGenRun(c)
			g.layoutFiles(l)
			g.hook = g.msgp
			g.s.run(f, g.layoutArgs(l, nil))
			g.s.each(rule, l.name(), func(o Outcome) string { return g.layoutOutcome(l, o) })
		})
	}
	c.Need(rule, 100)
	const rule2 = "short forms of the generator"
	for _, w := range []string{"BuildStructs", "BuildStructsRename"} {
		for _, msgp := range []bool{false, true} {
			w, msgp := w, msgp
			name := fmt.Sprintf("%s MessagePack %v", w, msgp)
			c.Guard(rule2, name, func() {
				fn := c.Anchor(c.P.Func("generate", w), w)
				l := layout{all: []string{"a.json"}, one: []string{"x.json"}, path: "/in/root.json", out: "/out/pkg", msgp: msgp}
				g := newGenRun(c)
				args := []Val{cStr(l.path), cStr(l.out), cBool(msgp)}
				if w == "BuildStructsRename" {
					l.rename = map[string]string{"a": "Common", "x": "special"}
					args = append(args, g.names("structs", flatMap(l.rename)...))
				}
				g.layoutFiles(l)
				g.hook = g.msgp
				g.s.run(fn, args...)
				g.s.each(rule2, name, func(o Outcome) string { return g.layoutOutcome(l, o) })
			})
		}
	}
	c.Need(rule2, 4)
}

// msgp models the generator of MessagePack code.
func (g *genRun) msgp(ci *CallInfo) []CallOut {
	switch {
	case strings.HasSuffix(ci.Name, "msgp/parse.File"):
		open := 0
		for k := range outFiles(ci.St) {
			closed := false
			for _, e := range events(ci.St, "close") {
				if e.Args[0].Key() == "file:"+k {
					closed = true
				}
			}
			if !closed {
				open++
			}
		}
		ci.St.event(Event{Kind: "msgp parse", Args: []Val{ci.In.resolve(ci.St, ci.Args[0]), cInt(len(outFiles(ci.St))), cInt(open)}, Pos: g.c.Pos(ci.Pos), Site: ci.Site + fmt.Sprint(len(ci.St.Events))})
		ft := ci.Sig.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		mt, _ := fieldType(ft, "Identities")
		if mt == nil {
			undecided("the parsed package has no Identities")
		}
		mk := func(st *State, id string, kv ...Val) CallOut {
			sc := &Scenario{c: g.c, in: ci.In, st: st}
			m := sc.dict(id+"-types", mt, kv...)
			st.event(Event{Kind: "msgp " + id, Pos: g.c.Pos(ci.Pos), Site: ci.Site})
			return CallOut{Ret: []Val{sc.object(id, ft, map[string]Val{"Identities": m, "Package": cStr("pkgname")}), Nil{errType}}, St: st}
		}
		none := ci.St.Fork()
		some := mk(ci.St, "some", cStr("Type"), Sym{ID: "element", T: mt.Underlying().(*types.Map).Elem()})
		return []CallOut{some, mk(none, "none")}
	case strings.HasSuffix(ci.Name, "msgp/printer.PrintFile"):
		ci.St.event(Event{Kind: "msgp print", Args: []Val{ci.In.resolve(ci.St, ci.Args[0]), ci.In.resolve(ci.St, ci.Args[1]), ci.In.resolve(ci.St, ci.Args[2])}, Pos: g.c.Pos(ci.Pos), Site: ci.Site + fmt.Sprint(len(ci.St.Events))})
		return ok1(ci.St, Nil{errType})
	}
	return nil
}

func (g *genRun) layoutOutcome(l layout, o Outcome) string {
	if nilState(o.St, o.Ret[0]) != 1 {
		return "fails: " + describe(o.Ret[0])
	}
	want := l.want()
	files := outFiles(o.St)
	for p := range files {
		if _, ok := want[p]; !ok {
			return "writes a file " + p
		}
	}
	closed := map[string]bool{}
	for _, e := range events(o.St, "close") {
		closed[e.Args[0].Key()] = true
	}
	var ps []string
	for p := range want {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		w := want[p]
		src, why := g.text(o.St, p)
		if why != "" {
			return why
		}
		if f, err := format.Source([]byte(src)); err != nil || string(f) != src {
			return "the content of " + p + " is not formatted"
		}
		if !closed["file:"+p] {
			return p + " is not closed"
		}
		got, err := readGo(src)
		if err != nil {
			return p + " does not parse: " + err.Error()
		}
		if got.pkg != w.pkg {
			return p + " is in package " + got.pkg
		}
		mark := false
		for _, cg := range got.file.Comments {
			for _, cm := range cg.List {
				if strings.HasPrefix(cm.Text, "// Code generated ") && strings.HasSuffix(cm.Text, " DO NOT EDIT.") {
					mark = true
				}
			}
		}
		if !mark {
			return p + " is not marked as generated"
		}
		if len(got.types) != 1 || len(got.other) != 0 {
			return fmt.Sprintf("%s has %d types and %v", p, len(got.types), got.other)
		}
		if _, ok := got.types[w.typ]; !ok {
			return p + " has no type " + w.typ
		}
		em, we := strings.Join(got.embeds[w.typ], " "), strings.Join(w.embeds, " ")
		if em != we {
			return fmt.Sprintf("%s in %s embeds [%s], not [%s]", w.typ, p, em, we)
		}
		if len(got.types[w.typ]) != 1 || !strings.HasPrefix(got.types[w.typ][0], exported("k_"+baseName(strings.TrimSuffix(p, ".go")))+" ") {
			return fmt.Sprintf("%s in %s has the fields %v", w.typ, p, got.types[w.typ])
		}
	}
	loads := map[string]bool{}
	for _, e := range events(o.St, "load") {
		m, _ := asStr(e.Args[0])
		p, _ := asStr(e.Args[1])
		loads[m+" "+filepath.Clean(p)] = true
	}
	for _, w := range want {
		if !loads[w.load] {
			var have []string
			for k := range loads {
				have = append(have, k)
			}
			sort.Strings(have)
			return "loads " + strings.Join(have, ", ") + " and not " + w.load
		}
	}
	if len(loads) > len(want) {
		return "loads more schemas than there are files"
	}
	out := l.out
	if out == "" {
		out = "/cwd/dir"
	}
	parse, print := events(o.St, "msgp parse"), events(o.St, "msgp print")
	if !l.msgp {
		if len(parse)+len(print) > 0 {
			return "makes MessagePack code which was not asked for"
		}
		return ""
	}
	if len(parse) != 1 {
		return fmt.Sprintf("parses the package for MessagePack %d times", len(parse))
	}
	if d, _ := asStr(parse[0].Args[0]); d != out {
		return "parses " + describe(parse[0].Args[0]) + " for MessagePack"
	}
	if n, _ := asInt(parse[0].Args[1]); n != len(want) {
		return fmt.Sprintf("parses the package for MessagePack when %d of %d files are written", n, len(want))
	}
	if n, _ := asInt(parse[0].Args[2]); n != 0 {
		return fmt.Sprintf("parses the package for MessagePack when %d files are not closed", n)
	}
	none := len(events(o.St, "msgp none")) > 0
	if none && len(print) == 0 {
		return ""
	}
	if none || len(print) != 1 {
		return fmt.Sprintf("writes MessagePack code %d times", len(print))
	}
	p, _ := asStr(print[0].Args[0])
	if filepath.Dir(p) != out || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || want[p].path != "" {
		return "writes MessagePack code to " + describe(print[0].Args[0])
	}
	if print[0].Args[1].Key() != "&o:scen:some" {
		return "writes MessagePack code of " + describe(print[0].Args[1])
	}
	return ""
}
