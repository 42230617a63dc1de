package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	register("S05", "for every shape of schema up to the nesting explored the walk calls the walk function for each property and item exactly once, before its descendants, with its JSONPath and its own content; the error of the walk function, of an object without properties and of an array without items ends the walk and is returned", runS05)
}

// walkTree is a schema instance in a walk scenario.
type walkTree struct {
	name  string
	types []string
	one   bool // type given as a single string
	kids  []*walkTree
	item  *walkTree
	none  bool // object without properties or array without items
	node  *jnode
	path  string
}

func (w *walkTree) describe() string {
	s := w.name + ":" + strings.Join(w.types, "+")
	if w.none {
		s += " missing"
	}
	if len(w.kids) > 0 {
		var k []string
		for _, c := range w.kids {
			k = append(k, c.describe())
		}
		s += "{" + strings.Join(k, " ") + "}"
	}
	if w.item != nil {
		s += "[" + w.item.describe() + "]"
	}
	return s
}

func (w *walkTree) is(t string) bool {
	for _, x := range w.types {
		if x == t {
			return true
		}
	}
	return false
}

// build makes the document of the tree.
func (w *walkTree) build(d *jdoc, path string) {
	w.path = path
	id := "@" + path + "@"
	var kv []interface{}
	if w.one {
		kv = append(kv, "type", d.text(w.types[0]))
	} else {
		var ts []*jnode
		for _, t := range w.types {
			ts = append(ts, d.text(t))
		}
		kv = append(kv, "type", d.arr(id+".type", ts...))
	}
	kv = append(kv, "description", d.str(id+".d", Sym{ID: "description(" + path + ")", T: types.Typ[types.String]}))
	if w.is("object") && !w.none {
		var pk []interface{}
		for _, k := range w.kids {
			k.build(d, path+"."+k.name)
			pk = append(pk, k.name, k.node)
		}
		kv = append(kv, "properties", d.obj(id+".properties", pk...))
	}
	if w.item != nil {
		w.item.build(d, path+"[*]")
		kv = append(kv, "items", w.item.node)
	}
	w.node = d.obj(id, kv...)
}

func (w *walkTree) all(f func(w *walkTree)) {
	f(w)
	for _, k := range w.kids {
		k.all(f)
	}
	if w.item != nil {
		w.item.all(f)
	}
}

func walkTrees(deep bool) [][2]*walkTree {
	leaf := func(n string, t ...string) *walkTree { return &walkTree{name: n, types: t, one: len(t) == 1} }
	obj := func(n string, kids ...*walkTree) *walkTree {
		return &walkTree{name: n, types: []string{"object"}, one: true, kids: kids}
	}
	arr := func(n string, it *walkTree) *walkTree {
		return &walkTree{name: n, types: []string{"array"}, one: true, item: it}
	}
	typed := func(w *walkTree, t ...string) *walkTree { w.types, w.one = t, false; return w }
	root := func(kids ...*walkTree) *walkTree { return obj("$", kids...) }
	out := [][2]*walkTree{
		{root(), nil},
		{root(leaf("a", "string")), nil},
		{root(leaf("b", "string"), leaf("a", "integer"), leaf("c", "string", "null")), nil},
		{root(obj("a", leaf("x", "string"), leaf("b", "number")), leaf("z", "boolean")), nil},
		{root(typed(obj("a", leaf("x", "string")), "object", "null"), typed(obj("b", leaf("x", "string")), "null", "object")), nil},
		{root(arr("a", leaf("", "string")), leaf("b", "string")), nil},
		{root(typed(arr("a", leaf("", "string")), "array", "null"), typed(arr("b", leaf("", "number")), "null", "array")), nil},
		{root(typed(obj("a", leaf("x", "string")), "object"), typed(obj("b", leaf("x", "string")), "null", "object", "null"), typed(leaf("c"), "string")), nil},
		{root(typed(arr("a", leaf("", "string")), "array"), typed(arr("b", leaf("", "number")), "null", "array", "null")), nil},
		{nil, typed(obj("", typed(arr("x", leaf("", "string")), "null", "array", "null")), "null", "object", "null")},
		{root(arr("a", obj("", leaf("x", "string"), leaf("y", "string")))), nil},
		{root(arr("a", arr("", leaf("", "string")))), nil},
		{root(obj("a", obj("b", obj("c", leaf("d", "string"))))), nil},
		{root(obj("a", arr("b", obj("", arr("c", leaf("", "string")), leaf("d", "string")))), obj("e")), nil},
		{nil, leaf("", "string")},
		{nil, obj("", leaf("x", "string"), leaf("y", "string"))},
		{root(leaf("a", "string")), obj("", leaf("x", "string"))},
		{root(&walkTree{name: "a", types: []string{"object"}, one: true, none: true}, leaf("b", "string")), nil},
		{root(&walkTree{name: "a", types: []string{"array"}, one: true, none: true}, leaf("b", "string")), nil},
		{root(obj("o", &walkTree{name: "a", types: []string{"object"}, one: true, none: true}), leaf("z", "string")), nil},
		{root(arr("o", &walkTree{name: "", types: []string{"array"}, one: true, none: true}), leaf("z", "string")), nil},
	}
	if deep {
		// every pair of kinds below every kind
		kinds := func(n string) []*walkTree {
			return []*walkTree{leaf(n, "string"), obj(n, leaf("x", "string")), arr(n, leaf("", "string")), typed(obj(n, leaf("x", "string")), "null", "object"), obj(n), &walkTree{name: n, types: []string{"object"}, one: true, none: true}, &walkTree{name: n, types: []string{"array"}, one: true, none: true}}
		}
		for i := range kinds("a") {
			for j := range kinds("b") {
				out = append(out, [2]*walkTree{root(obj("o", kinds("a")[i], kinds("b")[j])), nil}, [2]*walkTree{root(kinds("a")[i], kinds("b")[j]), nil})
			}
			out = append(out, [2]*walkTree{root(arr("o", kinds("")[i]), leaf("z", "string")), nil}, [2]*walkTree{nil, kinds("")[i]})
		}
	}
	return out
}

func runS05(c *Ctx) {
	const rule = "walk visits everything once"
	for _, fn := range []string{"Walk", "WalkRaw"} {
		for _, pair := range walkTrees(c.Thorough) {
			root, item := pair[0], pair[1]
			con := fn
			if root != nil {
				con += " " + root.describe()
			}
			if item != nil {
				con += " items " + item.describe()
			}
			// the paths the walk function may fail at: none, or each
			d := newDoc(c)
			var all []*walkTree
			if root != nil {
				root.build(d, "$")
				root.all(func(w *walkTree) {
					if w != root {
						all = append(all, w)
					}
				})
			}
			if item != nil {
				item.build(d, "$[*]")
				item.all(func(w *walkTree) { all = append(all, w) })
			}
			broken := map[string]bool{}
			for _, w := range all {
				if w.none {
					broken[w.path] = true
				}
			}
			fails := []string{""}
			for _, w := range all {
				fails = append(fails, w.path)
			}
			for _, fail := range fails {
				name := con
				if fail != "" {
					name += ", failing at " + fail
				}
				c.Guard(rule, name, func() { walkCase(c, rule, name, fn, d, root, item, all, broken, fail) })
			}
		}
	}
	c.Need(rule, 100)
}

func walkCase(c *Ctx, rule, name, fn string, d *jdoc, root, item *walkTree, all []*walkTree, broken map[string]bool, fail string) {
	f := c.Anchor(c.P.Func("jsonschema", fn), fn)
	st := c.P.Type("jsonschema", "Schema")
	it := c.P.Type("jsonschema", "Instance")
	if st == nil || it == nil {
		undecided("the schema types are not there")
	}
	s := c.Scen()
	s.in.MaxRec = 8
	s.in.NUnknown = 8
	pt, _ := fieldType(it, "Properties")
	vt := pt.Underlying().(*types.Map).Elem()
	props := Val(Nil{pt})
	if root != nil {
		var kv []Val
		for _, k := range root.kids {
			kv = append(kv, cStr(k.name), d.raw(s.st, k.node, vt))
		}
		props = s.dict("props", pt, kv...)
	}
	xt, _ := fieldType(it, "Items")
	items := Val(Nil{xt})
	if item != nil {
		items = d.raw(s.st, item.node, xt)
	}
	inst := zero(it).(Struct)
	for i := 0; i < it.Underlying().(*types.Struct).NumFields(); i++ {
		switch it.Underlying().(*types.Struct).Field(i).Name() {
		case "Properties":
			inst.F[i] = props
		case "Items":
			inst.F[i] = items
		}
	}
	schema := s.object("schema", st, map[string]Val{"Instance": inst})
	byPath := map[string]*walkTree{}
	for _, w := range all {
		byPath[w.path] = w
	}
	s.in.Hook = func(ci *CallInfo) []CallOut {
		if ci.Name == "intr:walk" {
			p, ok := asStr(ci.In.resolve(ci.St, ci.Args[0]))
			why := ""
			if !ok {
				p = "?" + describe(ci.Args[0])
			}
			if w := byPath[p]; w != nil {
				if fn == "Walk" {
					desc := s.fieldV(ci.Args[1], "Description")
					if ci.In.resolve(ci.St, desc).Key() != "description("+p+")" {
						why = "gets the content " + describe(desc)
					}
				} else if x, ok := ci.In.resolve(ci.St, ci.Args[1]).(Sym); !ok || x.ID != "raw:"+w.node.id {
					why = "gets the content " + describe(ci.Args[1])
				}
			}
			ci.St.event(Event{Kind: "visit", Args: []Val{cStr(p), cStr(why)}, Pos: c.Pos(ci.Pos), Site: fmt.Sprint(len(events(ci.St, "visit")))})
			if p == fail {
				return ok1(ci.St, ci.In.newErr(ci.St, "err:walkfn"))
			}
			return ok1(ci.St, Nil{errType})
		}
		return d.model(ci)
	}
	s.run(f, schema, Intr{"walk", f.Params[1].Type()})
	s.each(rule, name, func(o Outcome) string {
		seen := map[string]bool{}
		var order []string
		for _, e := range events(o.St, "visit") {
			p, _ := asStr(e.Args[0])
			if why, _ := asStr(e.Args[1]); why != "" {
				return "the walk function called for " + p + " " + why
			}
			if byPath[p] == nil {
				return "the walk function is called for " + p
			}
			if seen[p] {
				return p + " is visited twice"
			}
			for q := range byPath {
				if q != p && strings.HasPrefix(q, p) && (q[len(p)] == '.' || q[len(p)] == '[') && seen[q] {
					return p + " is visited after " + q
				}
			}
			seen[p] = true
			order = append(order, p)
		}
		at := strings.Join(order, " ")
		failed := nilState(o.St, o.Ret[0])
		if failed == 0 {
			return "it is not known whether an error is returned: " + describe(o.Ret[0])
		}
		if fail != "" && seen[fail] {
			if failed != 2 {
				return "the error of the walk function at " + fail + " is not returned"
			}
			if order[len(order)-1] != fail {
				return "the walk goes on after the walk function failed at " + fail + ": " + at
			}
			return ""
		}
		anyBroken := false
		for p := range broken {
			if seen[p] {
				anyBroken = true
			}
		}
		if anyBroken {
			if failed != 2 {
				return "no error for a schema with an object without properties or an array without items"
			}
			if p := order[len(order)-1]; !broken[p] {
				return "the walk goes on after a broken instance: " + at
			}
			return ""
		}
		if failed == 2 {
			return "fails: " + describe(o.Ret[0]) + " after " + at
		}
		for p := range byPath {
			if !seen[p] {
				return p + " is not visited, only " + at
			}
		}
		return ""
	})
}
