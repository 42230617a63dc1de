package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	register("S07", "for every form of the type keyword: one name is the type; a list gives its one name which is not null and whether null is listed; a list with two names, another kind of value, a list which can not be read or a missing keyword is an error; decoding an instance gives the listed names, a single name as a list of one", runS07)
}

func runS07(c *Ctx) {
	const rule = "type of a field"
	strT := types.Typ[types.String]
	nameSym := func(n string) Val { return Sym{ID: "other:" + n, T: strT} }
	type form struct {
		name     string
		node     func(d *jdoc) *jnode
		want     string // key of the type
		nullable bool
		fail     bool
	}
	list := func(els ...string) form {
		f := form{name: "[" + strings.Join(els, " ") + "]"}
		n := 0
		for _, e := range els {
			switch e {
			case "null":
				f.nullable = true
			default:
				n++
				if n == 1 {
					f.want = "other:" + e
				}
			}
		}
		f.fail = n > 1
		if n == 0 {
			f.want = "?"
		}
		f.node = func(d *jdoc) *jnode {
			a := d.arr("@type@")
			for i, e := range els {
				if e == "null" {
					a.kids = append(a.kids, d.text("null"))
				} else {
					a.kids = append(a.kids, d.str(fmt.Sprintf("@type%d@", i), nameSym(e)))
				}
			}
			return a
		}
		return f
	}
	forms := []form{
		{name: "one name", node: func(d *jdoc) *jnode { return d.str("@type@", nameSym("A")) }, want: "other:A"},
		list("A"), list("A", "null"), list("null", "A"), list("A", "B"), list("A", "null", "B"), list("null", "A", "B"), list("A", "B", "null"), list("A", "B", "C"), list("null"),
		{name: "none", node: func(d *jdoc) *jnode { return nil }, fail: true},
		{name: "broken list", node: func(d *jdoc) *jnode {
			a := d.arr("@type@", d.str("@type0@", nameSym("A")))
			a.bad = true
			return a
		}, fail: true},
	}
	for _, k := range []string{"number", "boolean", "null", "object"} {
		k := k
		forms = append(forms, form{name: "a " + k, node: func(d *jdoc) *jnode { return d.leaf("@type@", k) }, fail: true})
	}
	for _, fo := range forms {
		fo := fo
		c.Guard(rule, fo.name, func() {
			f := c.Anchor(c.P.Func("jsonschema", "FieldType"), "FieldType")
			s := c.Scen()
			s.in.NUnknown = 8
			d := newDoc(c)
			n := d.obj("@data@")
			if t := fo.node(d); t != nil {
				n.keys, n.kids = []string{"title", "type"}, []*jnode{d.text("x"), t}
			}
			for _, e := range []string{"A", "B", "C"} {
				s.st.upd(nameSym(e).(Sym), func(f *Fact) { f.LenMin = 1 })
			}
			s.in.Hook = d.model
			s.run(f, d.raw(s.st, n, f.Params[0].Type()))
			s.each(rule, fo.name, func(o Outcome) string {
				switch nilState(o.St, o.Ret[2]) {
				case 0:
					return "it is not known whether an error is returned: " + describe(o.Ret[2])
				case 2:
					if !fo.fail {
						return "fails: " + describe(o.Ret[2])
					}
					return ""
				}
				if fo.fail {
					return "no error, the type is " + describe(o.Ret[0])
				}
				if fo.want != "?" {
					if got := s.in.resolve(o.St, o.Ret[0]).Key(); got != fo.want {
						return "the type is " + got
					}
				}
				if b, ok := asBool(s.in.resolve(o.St, o.Ret[1])); !ok || b != fo.nullable {
					return "nullable is " + describe(o.Ret[1])
				}
				return ""
			})
		})
	}
	const rule2 = "decoding the type keyword"
	for _, x := range []struct {
		name string
		node func(d *jdoc) *jnode
		want []string
		fail bool
	}{
		{"one name", func(d *jdoc) *jnode { return d.text("object") }, []string{"object"}, false},
		{"other name", func(d *jdoc) *jnode { return d.text("graphql-hydration") }, []string{"graphql-hydration"}, false},
		{"list", func(d *jdoc) *jnode { return d.arr("@type@", d.text("object"), d.text("null")) }, []string{"object", "null"}, false},
		{"none", func(d *jdoc) *jnode { return nil }, nil, false},
		{"a number", func(d *jdoc) *jnode { return d.leaf("@type@", "number") }, nil, true},
		{"an object", func(d *jdoc) *jnode { return d.obj("@type@") }, nil, true},
	} {
		x := x
		c.Guard(rule2, x.name, func() {
			f := c.Anchor(c.P.Method("jsonschema", "Instance", "UnmarshalJSON"), "Instance.UnmarshalJSON")
			it := c.P.Type("jsonschema", "Instance")
			s := c.Scen()
			s.in.NUnknown = 8
			d := newDoc(c)
			n := d.obj("@data@", "description", d.str("@d@", Sym{ID: "@desc@", T: types.Typ[types.String]}))
			if t := x.node(d); t != nil {
				n.keys, n.kids = append(n.keys, "type"), append(n.kids, t)
			}
			inst := s.zeroObject("inst", it)
			s.in.Hook = func(ci *CallInfo) []CallOut {
				if ci.Name == jpPath+".Set" {
					n := d.find(ci.In, ci.St, ci.Args[0])
					keys, ok := d.keysArg(ci, 2)
					text, ok2 := asStr(ci.In.resolve(ci.St, ci.Args[1]))
					if n == nil || !ok || !ok2 || len(keys) != 1 {
						return nil
					}
					k := d.fromText("set:"+text, text)
					if k == nil {
						return nil
					}
					bad := ci.St.Fork()
					return []CallOut{{Ret: []Val{d.raw(ci.St, d.with(n, keys[0], k), ci.Sig.Results().At(0).Type()), Nil{errType}}, St: ci.St},
						{Ret: []Val{Nil{ci.Sig.Results().At(0).Type()}, ci.In.newErr(bad, "err:set")}, St: bad}}
				}
				return d.model(ci)
			}
			s.run(f, inst, d.raw(s.st, n, f.Params[1].Type()))
			good := 0
			s.each(rule2, x.name, func(o Outcome) string {
				setFails := false
				switch nilState(o.St, o.Ret[0]) {
				case 0:
					return "it is not known whether an error is returned: " + describe(o.Ret[0])
				case 2:
					setFails = strings.Contains(o.Ret[0].Key(), "err:set")
					if !x.fail && !setFails {
						return "fails: " + describe(o.Ret[0])
					}
					return ""
				}
				if x.fail {
					return "no error"
				}
				good++
				tv := s.field(o.St, inst, "Type")
				var got []string
				if _, isNil := tv.(Nil); !isNil {
					el, ok := s.in.elems(o.St, tv)
					if !ok {
						return "the types are " + describe(tv)
					}
					for _, e := range el {
						t, _ := asStr(s.in.resolve(o.St, e))
						got = append(got, t)
					}
				}
				if strings.Join(got, ",") != strings.Join(x.want, ",") {
					return "the types are " + strings.Join(got, ",")
				}
				if de := s.in.resolve(o.St, s.field(o.St, inst, "Description")).Key(); de != "@desc@" {
					return "the description is " + de
				}
				return ""
			})
			if !x.fail && good == 0 {
				c.Bad(rule2, x.name, "-", "is never decoded")
			}
		})
	}
	c.Need(rule, 14)
	c.Need(rule2, 6)
}
