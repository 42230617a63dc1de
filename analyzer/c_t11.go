package main

import (
	"fmt"
	"go/types"
	"strings"
)

// runT11relative checks the paths of the instructions after the transformer of a field is made: those which start with @
// are relative to the object or item which holds the field, with the wildcards of all arrays around it, all others stay as
// they are.
func runT11relative(c *Ctx) {
	const rule = "relative path of an instruction"
	type tc struct{ kind, path, parent string }
	var cases []tc
	for _, kind := range []string{"Scalar", "Array", "Object"} {
		for path, parent := range map[string]string{
			"$.a": "$", "$.o.a": "$.o", "$.o.p.a": "$.o.p",
			"$.list[*].a": "$.list[*]", "$.o.list[*].a": "$.o.list[*]", "$.list[*].o.a": "$.list[*].o",
			"$.list[*].m[*].a": "$.list[*].m[*]", "$.list[*][*].a": "$.list[*][*]", "$[*].a": "$[*]",
		} {
			cases = append(cases, tc{kind, path, parent})
		}
	}
	// an item which is a scalar is relative to the item itself
	for _, path := range []string{"$.list[*]", "$.o.list[*]", "$.list[*][*]", "$.list[*][*][*]", "$.list[*].m[*]", "$.list[*].m[*][*]", "$[*]"} {
		cases = append(cases, tc{"Scalar", path, path})
	}
	strT := types.Typ[types.String]
	for _, cs := range cases {
		cs := cs
		c.Guard(rule, cs.kind+" at "+cs.path, func() {
			k := newKit(c)
			f := c.Anchor(c.P.Func("transform", "new"+cs.kind+"Transformer"), "new"+cs.kind+"Transformer")
			sd := c.Anchor(c.P.Func("transform", "schemaDefault"), "schemaDefault")
			in := []string{"@.x", "@.x.y[*].z", "@[0]", "@[*].x", "@.a.@.b", "$.x", "$.list[*].x", "$", "x@.y", "$.x[?(@.y>1)].z", "@x", "@", "//x[@y]"}
			want := make([]string, len(in))
			for i, p := range in {
				want[i] = p
				if strings.HasPrefix(p, "@.") || strings.HasPrefix(p, "@[") {
					want[i] = cs.parent + p[1:]
				}
			}
			s := c.Scen()
			s.in.NUnknown, s.in.MaxSteps = 16, 4000000
			var from []Val
			ptr := types.NewPointer(k.ti)
			for i, p := range in {
				from = append(from, s.object(fmt.Sprintf("ti%d", i), k.ti, map[string]Val{"jsonPath": cStr(p), "xmlPath": cStr(p)}))
			}
			fs := s.slice("from", types.NewSlice(ptr), from...)
			decoded := 0
			s.in.Hook = func(ci *CallInfo) []CallOut {
				if ci.Fn == sd {
					return ok1(ci.St, Nil{}, Nil{errType})
				}
				p, t, ok := unmarshalTarget(ci)
				if !ok || typeKey(t) != typeKey(k.tis) {
					return nil
				}
				decoded++
				st := t.Underlying().(*types.Struct)
				v := Struct{T: t, F: make([]Val, st.NumFields())}
				for i := range v.F {
					v.F[i] = zero(st.Field(i).Type())
					if st.Field(i).Name() == "From" {
						v.F[i] = fs
					}
				}
				s.in.store(ci.St, p, v, t)
				return ok1(ci.St, Nil{errType})
			}
			var args []Val
			n := 0
			for _, p := range f.Params {
				var a Val = sym("@"+p.Name()+"@", p.Type())
				if types.Identical(p.Type(), strT) {
					switch n {
					case 0:
						a = cStr(cs.path)
					case 2:
						a = cStr("string")
					}
					n++
				}
				args = append(args, a)
			}
			s.run(f, args...)
			good := 0
			s.each(rule, cs.kind+" at "+cs.path, func(o Outcome) string {
				if nilState(o.St, o.Ret[1]) != 1 {
					return ""
				}
				tis := s.in.resolve(o.St, s.field(o.St, o.Ret[0], "transforms"))
				if nilState(o.St, tis) == 1 {
					return "" // no instructions
				}
				es, ok := s.in.elems(o.St, s.in.resolve(o.St, s.field(o.St, tis, "From")))
				if !ok || len(es) != len(in) {
					return "the instructions are not those of the schema"
				}
				good++
				for i, e := range es {
					for _, fld := range []string{"jsonPath", "xmlPath"} {
						got := s.in.resolve(o.St, s.field(o.St, e, fld))
						if fld == "jsonPath" && got.Key() != cStr(want[i]).Key() {
							return fmt.Sprintf("the path %s becomes %s and not %s", in[i], describe(got), want[i])
						}
						if fld == "xmlPath" && got.Key() != cStr(want[i]).Key() && got.Key() != cStr(in[i]).Key() {
							return fmt.Sprintf("the XPath %s becomes %s", in[i], describe(got))
						}
					}
				}
				return ""
			})
			if decoded == 0 || good == 0 {
				c.Bad(rule, cs.kind+" at "+cs.path, "-", "no instructions are read")
			}
		})
	}
	c.Need(rule, 34)
}
