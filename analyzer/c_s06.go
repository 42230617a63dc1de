package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

func init() {
	register("S06", "for every combination of own, allOf and oneOf parts of a schema: a property, the items and the required names come from the schema itself first, then from the allOf parts in order, then from the selected oneOf part; parts of other oneOf types are left out; without flattening allOf parts are used only when the schema has no properties of its own; the schema has the validator of its file", runS06)
}

// schemaPart is a part of a schema in a merge scenario.
type schemaPart struct {
	name    string
	props   []string // nil: no properties
	items   bool
	req     []string
	fromRef string
}

func (p schemaPart) node(d *jdoc) []interface{} {
	var kv []interface{}
	if p.props != nil {
		var pk []interface{}
		for _, k := range p.props {
			pk = append(pk, k, d.obj("@"+p.name+"."+k+"@"))
		}
		kv = append(kv, "properties", d.obj("@"+p.name+".properties@", pk...))
	}
	if p.items {
		kv = append(kv, "items", d.obj("@"+p.name+".items@"))
	}
	if p.req != nil {
		var r []*jnode
		for _, k := range p.req {
			r = append(r, d.text(k))
		}
		kv = append(kv, "required", d.arr("@"+p.name+".required@", r...))
	}
	if p.fromRef != "" {
		kv = append(kv, "fromRef", d.text(p.fromRef))
	}
	return kv
}

type mergeCase struct {
	own     schemaPart
	all     []schemaPart
	one     []schemaPart
	sel     string
	flatten bool
	addl    int // additionalProperties: 0 not given, 1 false, 2 true
}

func (m mergeCase) name() string {
	n := "flattening"
	if !m.flatten {
		n = "not flattening"
	}
	part := func(p schemaPart) string {
		s := p.name
		if p.props == nil {
			s += " no properties"
		} else {
			s += "{" + strings.Join(p.props, " ") + "}"
		}
		if p.items {
			s += " items"
		}
		return s
	}
	n += ", " + part(m.own)
	for _, p := range m.all {
		n += ", " + part(p)
	}
	for _, p := range m.one {
		n += ", " + part(p)
	}
	if m.sel != "" {
		n += ", type " + m.sel
	}
	if m.addl > 0 {
		n += fmt.Sprintf(", additionalProperties %v", m.addl == 2)
	}
	return n
}

func mergeCases(deep bool) []mergeCase {
	owns := []schemaPart{
		{name: "own"}, {name: "own", props: []string{}}, {name: "own", props: []string{"p", "q"}, req: []string{"p"}},
		{name: "own", items: true}, {name: "own", props: []string{"p"}, items: true},
	}
	alls := [][]schemaPart{
		nil,
		{{name: "all0", props: []string{"p", "r"}, req: []string{"r"}, items: true}},
		{{name: "all0", props: []string{"r"}, req: []string{"r"}}, {name: "all1", props: []string{"p", "r", "s"}, req: []string{"s"}, items: true}},
		{{name: "all0"}, {name: "all1", props: []string{"s"}}},
	}
	ones := [][]schemaPart{
		nil,
		{{name: "one0", props: []string{"p", "r", "t"}, req: []string{"t"}, fromRef: "x.json", items: true}},
		{{name: "one0", props: []string{"p", "t"}, req: []string{"t"}, fromRef: "dir/x.json"}, {name: "one1", props: []string{"p", "t", "u"}, req: []string{"u"}, fromRef: "./y.v2.json", items: true}},
	}
	var out []mergeCase
	for _, o := range owns {
		for _, a := range alls {
			for _, n := range ones {
				for _, sel := range []string{"", "x", "y", "z"} {
					if n == nil && sel != "" && !deep || len(n) == 1 && sel == "y" {
						continue
					}
					for _, fl := range []bool{true, false} {
						out = append(out, mergeCase{o, a, n, sel, fl, 0})
					}
				}
			}
		}
	}
	var keep []mergeCase
	for _, m := range out {
		// whether an empty set of properties counts as properties is left open
		if !(!m.flatten && m.own.props != nil && len(m.own.props) == 0 && m.all != nil) {
			keep = append(keep, m)
		}
	}
	out = keep
	// types with names like the one asked for
	like := []schemaPart{}
	for i, ref := range []string{"X.json", "xx.json", "ax.json", "y.x.json", "x/z.json", "x", "x-1.json", " x.json"} {
		like = append(like, schemaPart{name: fmt.Sprintf("like%d", i), props: []string{"p", "t", fmt.Sprintf("l%d", i)}, req: []string{fmt.Sprintf("l%d", i)}, fromRef: ref})
	}
	for _, sel := range []string{"x", "X", "y", "xx", "z", "", "x.json", "json", "*", "?"} {
		for _, fl := range []bool{true, false} {
			out = append(out, mergeCase{owns[0], nil, like, sel, fl, 0}, mergeCase{owns[2], alls[1], like, sel, fl, 0})
		}
	}
	for _, addl := range []int{1, 2} {
		out = append(out, mergeCase{owns[2], nil, nil, "", true, addl}, mergeCase{owns[2], nil, nil, "", false, addl})
	}
	return out
}

// schemaHook stands for the file, its validator and the resolved references when a schema is loaded.
func schemaHook(c *Ctx, s *Scenario, d *jdoc, data *jnode) Model {
	deref := c.Anchor(c.P.Func("jsonschema", "dereference"), "dereference")
	load := map[string]bool{}
	return func(ci *CallInfo) []CallOut {
		switch {
		case strings.HasSuffix(ci.Name, "jsonschema.NewValidator"):
			ci.St.event(Event{Kind: "validator", Args: []Val{ci.Args[0]}, Pos: c.Pos(ci.Pos), Site: fmt.Sprint(len(ci.St.Events))})
			bad := ci.St.Fork()
			v := s.st.nonNil(Sym{ID: "validator(" + ci.In.content(ci.St, ci.Args[0], 3) + ")", T: ci.Sig.Results().At(0).Type()})
			ci.St.nonNil(v)
			return []CallOut{{Ret: []Val{v, Nil{errType}}, St: ci.St}, {Ret: []Val{Nil{ci.Sig.Results().At(0).Type()}, ci.In.newErr(bad, "err:validator")}, St: bad}}
		case ci.Fn == deref:
			bad := ci.St.Fork()
			return []CallOut{{Ret: []Val{d.raw(ci.St, data, ci.Sig.Results().At(0).Type()), Nil{errType}}, St: ci.St}, {Ret: []Val{Nil{ci.Sig.Results().At(0).Type()}, ci.In.newErr(bad, "err:dereference")}, St: bad}}
		case strings.HasSuffix(ci.Name, "jsonschema.Cache[T]).Load"):
			ci.St.event(Event{Kind: "cache", Args: []Val{ci.Args[1]}, Pos: c.Pos(ci.Pos), Site: fmt.Sprint(len(ci.St.Events))})
			load[ci.In.content(ci.St, ci.Args[1], 3)] = true
			return ci.callback(ci.St, ci.Args[2], nil)
		}
		return d.model(ci)
	}
}

func loaders(flatten bool) string {
	if flatten {
		return "SchemaFromFile"
	}
	return "SchemaFromFileNoFlatten"
}

func runS06(c *Ctx) {
	const rule = "merging the parts of a schema"
	cases := mergeCases(c.Thorough)
	// many parts
	for _, n := range cutoffs(c, "jsonschema", 3, 60) {
		var all, one []schemaPart
		for i := 0; i < n; i++ {
			all = append(all, schemaPart{name: fmt.Sprintf("all%d", i), props: []string{"p", fmt.Sprintf("a%d", i)}, req: []string{fmt.Sprintf("a%d", i)}, items: i == n-1})
			one = append(one, schemaPart{name: fmt.Sprintf("one%d", i), props: []string{"p", fmt.Sprintf("o%d", i)}, req: []string{fmt.Sprintf("o%d", i)}, fromRef: fmt.Sprintf("t%d.json", i)})
		}
		one[n-1].fromRef = "x.json"
		cases = append(cases, mergeCase{schemaPart{name: "own"}, all, one, "x", true, 0}, mergeCase{schemaPart{name: "own", props: []string{"p"}}, all, one, "x", true, 0}, mergeCase{schemaPart{name: "own"}, all, one, "x", false, 0})
	}
	for _, m := range cases {
		m := m
		c.Guard(rule, m.name(), func() { mergeRun(c, rule, m) })
	}
	c.Need(rule, 100)
	const rule2 = "types and properties of a schema file"
	for n := 0; n <= 2; n++ {
		for a := 0; a <= 2; a++ {
			n, a := n, a
			name := fmt.Sprintf("%d allOf, %d oneOf", n, a)
			c.Guard(rule2, name, func() {
				f := c.Anchor(c.P.Func("jsonschema", "SchemaTypes"), "SchemaTypes")
				s := c.Scen()
				s.in.NUnknown = 8
				d := newDoc(c)
				refs := func(kind string, n int) *jnode {
					l := d.arr("@" + kind + "@")
					for i := 0; i < n; i++ {
						id := fmt.Sprintf("%s%d", kind, i)
						l.kids = append(l.kids, d.obj("@"+id+"@", "$ref", d.str("@"+id+"ref@", Sym{ID: "ref:" + id, T: types.Typ[types.String]})))
					}
					return l
				}
				data := d.obj("@file@", "properties", d.obj("@props@", "b", d.obj("@b@"), "a", d.obj("@a@"), "c", d.obj("@c@")), "allOf", refs("all", n), "oneOf", refs("one", a))
				s.in.Hook = func(ci *CallInfo) []CallOut {
					if ci.Name == "os.ReadFile" {
						if ci.In.resolve(ci.St, ci.Args[0]).Key() != "path" {
							return nil
						}
						bad := ci.St.Fork()
						return []CallOut{{Ret: []Val{d.raw(ci.St, data, ci.Sig.Results().At(0).Type()), Nil{errType}}, St: ci.St}, {Ret: []Val{Nil{ci.Sig.Results().At(0).Type()}, ci.In.newErr(bad, "err:read")}, St: bad}}
					}
					return d.model(ci)
				}
				s.run(f, sym("path", f.Params[0].Type()))
				good := 0
				s.each(rule2, name, func(o Outcome) string {
					switch nilState(o.St, o.Ret[3]) {
					case 0:
						return "it is not known whether an error is returned"
					case 2:
						if !strings.Contains(o.Ret[3].Key(), "err:read") {
							return "fails: " + describe(o.Ret[3])
						}
						return ""
					}
					good++
					want := func(kind string, n int) string {
						var w []string
						for i := 0; i < n; i++ {
							w = append(w, fmt.Sprintf("ref:%s%d", kind, i))
						}
						return strings.Join(w, " ")
					}
					for i, w := range []string{want("all", n), want("one", a), "\"a\" \"b\" \"c\""} {
						if got := listOf(s, o.St, o.Ret[i]); got != w {
							return fmt.Sprintf("result %d is %s, not %s", i, got, w)
						}
					}
					return ""
				})
				if good == 0 {
					c.Bad(rule2, name, "-", "never succeeds")
				}
			})
		}
	}
	c.Need(rule2, 9)
}

// listOf renders a slice of known elements.
func listOf(s *Scenario, st *State, v Val) string {
	v = s.in.resolve(st, v)
	if _, ok := v.(Nil); ok {
		return ""
	}
	el, ok := s.in.elems(st, v)
	if !ok {
		return "?" + describe(v)
	}
	var out []string
	for _, e := range el {
		out = append(out, s.in.resolve(st, e).Key())
	}
	return strings.Join(out, " ")
}

func mergeRun(c *Ctx, rule string, m mergeCase) {
	f := c.Anchor(c.P.Func("jsonschema", loaders(m.flatten)), loaders(m.flatten))
	s := c.Scen()
	s.in.MaxCons = 5000
	s.in.MaxVer = 6 + 2*len(m.all) + 2*len(m.one)
	s.in.NUnknown = 10
	d := newDoc(c)
	kv := append([]interface{}{"type", d.text("object")}, m.own.node(d)...)
	list := func(name string, ps []schemaPart) {
		if ps == nil {
			return
		}
		l := d.arr("@" + name + "@")
		for _, p := range ps {
			l.kids = append(l.kids, d.obj("@"+p.name+"@", p.node(d)...))
		}
		kv = append(kv, name, l)
	}
	list("allOf", m.all)
	list("oneOf", m.one)
	if m.addl > 0 {
		kv = append(kv, "additionalProperties", d.leaf(fmt.Sprintf("@addl@:%v", m.addl == 2), "boolean"))
	}
	data := d.obj("@data@", kv...)
	hook := schemaHook(c, s, d, data)
	s.in.Hook = hook
	s.run(f, sym("path", f.Params[0].Type()), cStr(m.sel))
	// what is expected
	want := map[string]string{}
	var items string
	var req []string
	use := func(p schemaPart) {
		for _, k := range p.props {
			if want[k] == "" {
				want[k] = "raw:@" + p.name + "." + k + "@"
			}
		}
		if p.items && items == "" {
			items = "raw:@" + p.name + ".items@"
		}
		req = append(req, p.req...)
	}
	use(m.own)
	if m.flatten || m.own.props == nil {
		for _, p := range m.all {
			use(p)
		}
	}
	for _, p := range m.one {
		base := p.fromRef[strings.LastIndex(p.fromRef, "/")+1:]
		if n, _, _ := strings.Cut(base, "."); n == m.sel {
			use(p)
		}
	}
	good := 0
	s.each(rule, m.name(), func(o Outcome) string {
		switch nilState(o.St, o.Ret[1]) {
		case 0:
			return "it is not known whether an error is returned: " + describe(o.Ret[1])
		case 2:
			if nilState(o.St, o.Ret[0]) != 1 {
				return "a schema is returned together with an error"
			}
			if k := o.Ret[1].Key(); strings.Contains(k, "err:unmarshal") {
				return "fails: " + describe(o.Ret[1])
			}
			return ""
		}
		good++
		inst := s.field(o.St, o.Ret[0], "Instance")
		get := func(n string) Val { return s.in.resolve(o.St, s.fieldV(inst, n)) }
		if why := rawMapIs(s, o.St, get("Properties"), want); why != "" {
			return why
		}
		iv := get("Items")
		if got, ok := iv.(Sym); ok && got.ID != items || !ok && (items != "" || nilState(o.St, iv) != 1) {
			return "the items are " + describe(iv) + ", not " + items
		}
		var q []string
		for _, r := range req {
			q = append(q, fmt.Sprintf("%q", r))
		}
		got := strings.Split(listOf(s, o.St, get("Required")), " ")
		sort.Strings(got)
		sort.Strings(q)
		if strings.TrimSpace(strings.Join(got, " ")) != strings.Join(q, " ") {
			return "the required names are " + strings.Join(got, " ") + ", not " + strings.Join(q, " ")
		}
		if b, ok := asBool(get("AdditionalProperties")); !ok || b != (m.addl != 1) {
			return "additionalProperties is " + describe(get("AdditionalProperties"))
		}
		v := s.in.resolve(o.St, s.field(o.St, o.Ret[0], "Validator"))
		if k := v.Key(); !strings.Contains(k, "validator(") || !strings.Contains(k, "(path)") {
			return "the validator is " + describe(v)
		}
		return ""
	})
	if good == 0 {
		c.Bad(rule, m.name(), "-", "never succeeds")
	}
}

// rawMapIs compares a map of raw values.
func rawMapIs(s *Scenario, st *State, v Val, want map[string]string) string {
	if _, ok := v.(Nil); ok {
		if len(want) > 0 {
			return "there are no properties"
		}
		return ""
	}
	mv, ok := v.(MapV)
	if !ok {
		return "the properties are " + describe(v)
	}
	mc, ok := st.Heap[mv.Obj].V.(MapC)
	if !ok || !mc.Closed {
		return "the properties are not known"
	}
	got := map[string]string{}
	for _, e := range mc.Ents {
		if e.Gone {
			continue
		}
		k, _ := asStr(s.in.resolve(st, e.K))
		got[k] = s.in.resolve(st, e.V).Key()
	}
	for k, w := range want {
		if got[k] != w {
			return "property " + k + " is " + got[k] + ", not " + w
		}
	}
	for k := range got {
		if want[k] == "" {
			return "there is a property " + k + " with " + got[k]
		}
	}
	return ""
}
