package main

import (
	"encoding/json"
	"fmt"
	"go/format"
	"go/types"
	"path/filepath"
	"sort"
	"strings"
)

// gsch is a schema given to the generator in a scenario.
type gsch struct {
	name   string
	types  []string
	format string
	desc   string
	target string
	args   []string
	req    []string
	kids   []*gsch
	item   *gsch
	ref    string
	allOf  []*gsch
	oneOf  []*gsch
}

func gLeaf(name string, t ...string) *gsch { return &gsch{name: name, types: t} }
func gObj(name string, kids ...*gsch) *gsch {
	return &gsch{name: name, types: []string{"object"}, kids: kids}
}
func gArr(name string, item *gsch) *gsch {
	return &gsch{name: name, types: []string{"array"}, item: item}
}
func gTime(name string) *gsch {
	return &gsch{name: name, types: []string{"string"}, format: "date-time"}
}
func (g *gsch) null() *gsch                    { g.types = append(g.types[:len(g.types):len(g.types)], "null"); return g }
func (g *gsch) nullFirst() *gsch               { g.types = append([]string{"null"}, g.types...); return g }
func (g *gsch) need(names ...string) *gsch     { g.req = names; return g }
func (g *gsch) about(d string) *gsch           { g.desc = d; return g }
func (g *gsch) to(t string, a ...string) *gsch { g.target, g.args = t, a; return g }

func (g *gsch) is(t string) bool {
	for _, x := range g.types {
		if x == t {
			return true
		}
	}
	return false
}

func (g *gsch) kind() string {
	for _, x := range g.types {
		if x != "null" {
			return x
		}
	}
	return ""
}

func (g *gsch) isReq(n string) bool {
	for _, x := range g.req {
		if x == n {
			return true
		}
	}
	return false
}

func (g *gsch) describe() string {
	s := g.name + ":" + strings.Join(g.types, "+")
	if g.format != "" {
		s += "/" + g.format
	}
	if g.desc != "" {
		s += "#"
	}
	if g.target != "" {
		s += ">" + g.target
	}
	if len(g.req) > 0 {
		s += "!" + strings.Join(g.req, "!")
	}
	if len(g.kids) > 0 {
		var k []string
		for _, c := range g.kids {
			k = append(k, c.describe())
		}
		s += "{" + strings.Join(k, " ") + "}"
	}
	if g.item != nil {
		s += "[" + g.item.describe() + "]"
	}
	return s
}

// node is the JSON of the schema.
func (g *gsch) node(d *jdoc, path string) *jnode {
	id := "@" + path + "@"
	var kv []interface{}
	texts := func(sub string, ss []string) *jnode {
		var ts []*jnode
		for _, t := range ss {
			ts = append(ts, d.text(t))
		}
		return d.arr(id+sub, ts...)
	}
	kv = append(kv, "type", texts(".type", g.types))
	if g.format != "" {
		kv = append(kv, "format", d.text(g.format))
	}
	if g.desc != "" {
		kv = append(kv, "description", d.text(g.desc))
	}
	if g.target != "" {
		kv = append(kv, "target", d.text(g.target))
	}
	if g.args != nil {
		kv = append(kv, "graphql-arguments", texts(".args", g.args))
	}
	if g.req != nil {
		kv = append(kv, "required", texts(".required", g.req))
	}
	if g.ref != "" {
		kv = append(kv, "fromRef", d.text(g.ref))
	}
	if g.is("object") {
		var pk []interface{}
		for _, k := range g.kids {
			pk = append(pk, k.name, k.node(d, path+"."+k.name))
		}
		kv = append(kv, "properties", d.obj(id+".properties", pk...))
	}
	if g.item != nil {
		kv = append(kv, "items", g.item.node(d, path+"[*]"))
	}
	for name, l := range map[string][]*gsch{"allOf": g.allOf, "oneOf": g.oneOf} {
		if l != nil {
			var ks []*jnode
			for i, k := range l {
				ks = append(ks, k.node(d, fmt.Sprintf("%s/%s%d", path, name, i)))
			}
			kv = append(kv, name, d.arr(id+"."+name, ks...))
		}
	}
	return d.obj(id, kv...)
}

// genRun is a run of the generator over schemas which are given as trees instead of files.
type genRun struct {
	c     *Ctx
	s     *Scenario
	d     *jdoc
	files map[string]*gsch // by base name without what follows the first dot
	all   []string
	one   []string
	props []string
	hook  Model
}

func newGenRun(c *Ctx) *genRun {
	g := &genRun{c: c, s: c.Scen(), d: newDoc(c), files: map[string]*gsch{}}
	g.s.in.MaxRec = 12
	g.s.in.NUnknown = 8
	g.s.in.MaxVer = 400
	g.s.in.MaxSteps = 6000000
	g.s.in.Hook = g.model
	return g
}

func baseName(p string) string { return strings.Split(filepath.Base(p), ".")[0] }

// instance is the value of the type Instance for a schema.
func (g *genRun) instance(st *State, x *gsch, key string) Val {
	it := g.c.P.Type("jsonschema", "Instance")
	v, ok := g.d.decode(g.s.in, st, x.node(g.d, key), it, Ptr{}, 0)
	if !ok {
		undecided("the schema %s can not be made", x.describe())
	}
	return v
}

// schema is a pointer to a Schema.
func (g *genRun) schema(st *State, x *gsch, key string) Val {
	t := g.c.P.Type("jsonschema", "Schema")
	sc := &Scenario{c: g.c, in: g.s.in, st: st}
	return sc.object("schema:"+key, t, map[string]Val{"Instance": g.instance(st, x, key)})
}

// args makes the arguments of the generator, fields which are not given are empty.
func (g *genRun) args(f map[string]Val) Val {
	t := g.c.P.Type("generate", "BuildArgs")
	if t == nil {
		undecided("there is no type BuildArgs")
	}
	z := zero(t).(Struct)
	u := t.Underlying().(*types.Struct)
	n := 0
	for i := 0; i < u.NumFields(); i++ {
		if v, ok := f[u.Field(i).Name()]; ok {
			switch x := v.(type) {
			case Const:
				v = Const{x.V, u.Field(i).Type()}
			}
			z.F[i] = v
			n++
		}
	}
	if n != len(f) {
		undecided("BuildArgs does not have all the fields %v", f)
	}
	return z
}

func (g *genRun) names(id string, kv ...string) Val {
	var vs []Val
	for _, x := range kv {
		vs = append(vs, cStr(x))
	}
	return g.s.dict(id, types.NewMap(types.Typ[types.String], types.Typ[types.String]), vs...)
}

const fileBuf = "buf:file:"

func (g *genRun) create(ci *CallInfo, p Val) Val {
	path := ci.In.content(ci.St, p, 3)
	if s, ok := asStr(ci.In.resolve(ci.St, p)); ok {
		path = s
	}
	ci.St.Heap[fileBuf+path] = &Obj{V: cStr(""), T: types.Typ[types.String]}
	f := Sym{ID: "file:" + path, T: ci.Sig.Results().At(0).Type()}
	ci.St.nonNil(f)
	ci.St.event(Event{Kind: "create", Args: []Val{cStr(path)}, Pos: g.c.Pos(ci.Pos), Site: ci.Site + fmt.Sprint(len(ci.St.Events))})
	return f
}

func (g *genRun) model(ci *CallInfo) []CallOut {
	if g.hook != nil {
		if o := g.hook(ci); o != nil {
			return o
		}
	}
	switch ci.Name {
	case "os.Create":
		return ok1(ci.St, g.create(ci, ci.Args[0]), Nil{errType})
	case "os.OpenFile":
		return ok1(ci.St, g.create(ci, ci.Args[0]), Nil{errType})
	case "os.WriteFile":
		f := g.createPath(ci, ci.Args[0])
		ci.St.Heap[fileBuf+f] = &Obj{V: bytesOf(ci.In.resolve(ci.St, ci.Args[1])), T: types.Typ[types.String]}
		ci.St.event(Event{Kind: "close", Args: []Val{Sym{ID: "file:" + f}}, Pos: g.c.Pos(ci.Pos), Site: ci.Site + fmt.Sprint(len(ci.St.Events))})
		return ok1(ci.St, Nil{errType})
	case "(*os.File).Sync":
		return ok1(ci.St, Nil{errType})
	case "(*os.File).Close":
		if len(ci.Args) == 1 {
			ci.St.event(Event{Kind: "close", Args: []Val{ci.In.resolve(ci.St, ci.Args[0])}, Pos: g.c.Pos(ci.Pos), Site: ci.Site + fmt.Sprint(len(ci.St.Events))})
		}
		return ok1(ci.St, Nil{errType})
	case "os.Getwd":
		return ok1(ci.St, cStr("/cwd/dir"), Nil{errType})
	case "path/filepath.Abs":
		if s, ok := asStr(ci.In.resolve(ci.St, ci.Args[0])); ok {
			if !filepath.IsAbs(s) {
				s = filepath.Join("/cwd/dir", s)
			}
			return ok1(ci.St, cStr(filepath.Clean(s)), Nil{errType})
		}
	case "go/format.Source":
		src, ok := asStr(bytesOf(ci.In.resolve(ci.St, ci.Args[0])))
		if !ok {
			undecided("the generated source is not known: %s", describe(ci.Args[0]))
		}
		out, err := format.Source([]byte(src))
		if err != nil {
			ci.St.event(Event{Kind: "badsource", Args: []Val{cStr(err.Error())}, Pos: g.c.Pos(ci.Pos), Site: ci.Site})
			return ok1(ci.St, Nil{ci.Sig.Results().At(0).Type()}, ci.In.newErr(ci.St, "err:format"))
		}
		ci.St.event(Event{Kind: "format", Args: []Val{cStr(string(out))}, Pos: g.c.Pos(ci.Pos), Site: ci.Site + fmt.Sprint(len(ci.St.Events))})
		return ok1(ci.St, Const{cStr(string(out)).(Const).V, types.Typ[types.String]}, Nil{errType})
	}
	switch {
	case strings.HasSuffix(ci.Name, "jsonschema.SchemaTypes"):
		list := func(id string, ss []string) Val {
			if len(ss) == 0 {
				return Nil{types.NewSlice(types.Typ[types.String])}
			}
			var vs []Val
			for _, s := range ss {
				vs = append(vs, cStr(s))
			}
			sc := &Scenario{c: g.c, in: ci.In, st: ci.St}
			return sc.slice("types:"+id, types.NewSlice(types.Typ[types.String]), vs...)
		}
		ci.St.event(Event{Kind: "types", Args: []Val{ci.In.resolve(ci.St, ci.Args[0])}, Pos: g.c.Pos(ci.Pos), Site: ci.Site})
		return ok1(ci.St, list("all", g.all), list("one", g.one), list("props", g.props), Nil{errType})
	case strings.HasSuffix(ci.Name, "jsonschema.SchemaFromFile"), strings.HasSuffix(ci.Name, "jsonschema.SchemaFromFileNoFlatten"):
		p, ok := asStr(ci.In.resolve(ci.St, ci.Args[0]))
		n, ok2 := asStr(ci.In.resolve(ci.St, ci.Args[1]))
		if !ok || !ok2 {
			undecided("the schema loaded is not known: %s", describe(ci.Args...))
		}
		mode := "flat"
		if strings.HasSuffix(ci.Name, "NoFlatten") {
			mode = "noflat"
		}
		ci.St.event(Event{Kind: "load", Args: []Val{cStr(mode), cStr(p), cStr(n)}, Pos: g.c.Pos(ci.Pos), Site: ci.Site + fmt.Sprint(len(ci.St.Events))})
		x := g.files[baseName(p)]
		if x == nil {
			return ok1(ci.St, Nil{ci.Sig.Results().At(0).Type()}, ci.In.newErr(ci.St, "err:load"))
		}
		return ok1(ci.St, g.schema(ci.St, x, mode+p+"|"+n), Nil{errType})
	}
	if o := g.libModel(ci); o != nil {
		return o
	}
	return g.d.model(ci)
}

// libModel models the libraries reading what has been written.
func (g *genRun) libModel(ci *CallInfo) []CallOut {
	files := func(path string) (string, bool) {
		v, ok := ci.St.Heap[fileBuf+path]
		if !ok {
			return "", false
		}
		s, ok := asStr(ci.In.resolve(ci.St, v.V))
		if !ok {
			undecided("the content of %s is not known", path)
		}
		return s, true
	}
	list := func() []string {
		var out []string
		for p := range outFiles(ci.St) {
			out = append(out, p)
		}
		sort.Strings(out)
		return out
	}
	if o := treeModel(ci, files, list); o != nil {
		return o
	}
	if o := tmplModel(ci); o != nil {
		return o
	}
	if ci.Name == "encoding/json.Marshal" {
		v := ci.In.resolve(ci.St, ci.Args[0])
		if i, ok := v.(Iface); ok {
			v = ci.In.resolve(ci.St, i.V)
		}
		if s, ok := asStr(v); ok {
			b, _ := json.Marshal(s)
			return ok1(ci.St, Const{cStr(string(b)).(Const).V, types.Typ[types.String]}, Nil{errType})
		}
		return nil
	}
	if ci.Name == "os.MkdirAll" || ci.Name == "os.Mkdir" {
		return ok1(ci.St, Nil{errType})
	}
	if ci.Name == "os.ReadFile" {
		p, ok := asStr(ci.In.resolve(ci.St, ci.Args[0]))
		if !ok {
			undecided("the file read is not known: %s", describe(ci.Args[0]))
		}
		s, ok := files(p)
		if !ok {
			return ok1(ci.St, Nil{ci.Sig.Results().At(0).Type()}, ci.In.newErr(ci.St, "err:open "+p))
		}
		return ok1(ci.St, Const{cStr(s).(Const).V, types.Typ[types.String]}, Nil{errType})
	}
	return gogenModel(ci, func(path, text string) {
		ci.St.Heap[fileBuf+path] = &Obj{V: cStr(text), T: types.Typ[types.String]}
		e := Event{Kind: "create", Args: []Val{cStr(path)}, Pos: g.c.Pos(ci.Pos), Site: ci.Site + fmt.Sprint(len(ci.St.Events))}
		ci.St.event(e)
		e.Kind, e.Args = "close", []Val{Sym{ID: "file:" + path}}
		ci.St.event(e)
	})
}

func (g *genRun) createPath(ci *CallInfo, p Val) string {
	path, ok := asStr(ci.In.resolve(ci.St, p))
	if !ok {
		path = ci.In.content(ci.St, p, 3)
	}
	ci.St.event(Event{Kind: "create", Args: []Val{cStr(path)}, Pos: g.c.Pos(ci.Pos), Site: ci.Site + fmt.Sprint(len(ci.St.Events))})
	return path
}

// outFiles are the files of a final state.
func outFiles(st *State) map[string]Val {
	out := map[string]Val{}
	for k, o := range st.Heap {
		if strings.HasPrefix(k, fileBuf) {
			out[strings.TrimPrefix(k, fileBuf)] = o.V
		}
	}
	return out
}

// text is the content of a file, which has to be known.
func (g *genRun) text(st *State, path string) (string, string) {
	f := outFiles(st)
	v, ok := f[path]
	if !ok {
		var have []string
		for k := range f {
			have = append(have, k)
		}
		sort.Strings(have)
		return "", fmt.Sprintf("no file %s is written, only %s", path, strings.Join(have, ", "))
	}
	s, ok := asStr(g.s.in.resolve(st, v))
	if !ok {
		return "", "the content of " + path + " is not known: " + describe(v)
	}
	return s, ""
}
