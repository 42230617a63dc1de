package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	register("T09", "the conversion of a value of every dynamic type to every declared type ends, on every path, with no value or with a value of the Go type which serialises as the declared JSON type; a value which already has the type is kept as it is", runT09)
}

func runT09(c *Ctx) {
	const rule = "converted type"
	wanted := map[string][]string{
		"boolean": {"bool"}, "number": {"int", "float64", "float32", "int64"}, "integer": {"int", "float64", "float32", "int64"},
		"string": {"string"}, "date-time": {"time.Time"},
	}
	keep := map[string][]string{"boolean": {"bool"}, "number": {"int", "float64"}, "integer": {"int", "float64"}, "string": {"string"}}
	mustFail := map[string][]string{"boolean": {"map[string]interface{}"}, "number": {"map[string]interface{}"}, "integer": {"map[string]interface{}"}, "string": {"map[string]interface{}"}, "date-time": {"map[string]interface{}", "bool"}}
	f := c.P.Func("transform", "convert")
	for _, jt := range []string{"boolean", "number", "integer", "string", "date-time"} {
		for _, t := range rawTypes(c) {
			jt, t := jt, t
			con := tname(t) + " to " + jt
			c.Guard(rule, con, func() {
				c.Anchor(f, "convert")
				s := c.Scen()
				s.in.NUnknown = 5
				var raw Val = Nil{}
				if t != nil {
					raw = Iface{t, Sym{ID: "@in@", T: t}}
				}
				top := true
				s.in.Hook = func(ci *CallInfo) []CallOut {
					if ci.Fn == f && !top {
						// induction: the inner conversion keeps the rule
						var outs []CallOut
						want := wanted[jt]
						if k, ok := asStr(ci.In.resolve(ci.St, ci.Args[1])); !ok || k != jt {
							want = []string{"int", "string", "bool"}
						}
						outs = append(outs, CallOut{Ret: []Val{Nil{}, Nil{}}, St: ci.St.Fork()})
						st := ci.St.Fork()
						outs = append(outs, CallOut{Ret: []Val{Nil{}, ci.In.newErr(st, "err:convert")}, St: st})
						for _, w := range want {
							for _, b := range rawTypes(c) {
								if tname(b) == w {
									st := ci.St.Fork()
									outs = append(outs, CallOut{Ret: []Val{Iface{b, Sym{ID: "conv", T: b}}, Nil{}}, St: st})
								}
							}
						}
						return outs
					}
					top = false
					return nil
				}
				top = false
				s.run(f, raw, cStr(jt))
				s.each(rule, con, func(o Outcome) string {
					res := s.in.resolve(o.St, o.Ret[0])
					switch nilState(o.St, o.Ret[1]) {
					case 0:
						return "unknown error " + describe(o.Ret[1])
					case 2:
						if nilState(o.St, res) != 1 {
							return "a value is returned together with an error: " + describe(res)
						}
						for _, k := range keep[jt] {
							if k == tname(t) {
								return "a value which has the type already is refused"
							}
						}
						return ""
					}
					d, ok := dynOf(o.St, res)
					if !ok {
						return "a value of unknown type is returned: " + describe(res)
					}
					if d == nil {
						for _, k := range keep[jt] {
							if k == tname(t) {
								return "a value which has the type already is dropped"
							}
						}
						return ""
					}
					good := false
					for _, w := range wanted[jt] {
						good = good || w == tname(d)
					}
					if !good {
						return fmt.Sprintf("a value of Go type %s is returned", tname(d))
					}
					for _, m := range mustFail[jt] {
						if m == tname(t) {
							return "a value is made up for an input of this type"
						}
					}
					v := unwrap(s.in, o.St, res)
					for _, k := range keep[jt] {
						if k == tname(t) {
							if why := same("@in@")(s, o, v); why != "" {
								return "a value which has the type already is changed: " + why
							}
						}
					}
					if jt == "string" && tname(t) == "float64" && strings.Contains(v.Key(), "strconv.FormatFloat(@in@,") && !strings.Contains(v.Key(), "strconv.FormatFloat(@in@,102,-1,64)") {
						return "the number is not rendered exactly: " + describe(v)
					}
					return ""
				})
			})
		}
	}
	c.Need(rule, 60)
	// a list stands for its first item, on every level
	own := map[string]types.Type{"boolean": types.Typ[types.Bool], "number": types.Typ[types.Float64], "integer": types.Typ[types.Int], "string": types.Typ[types.String]}
	for _, jt := range []string{"boolean", "number", "integer", "string"} {
		for _, shape := range []string{"a", "ab", "abc", "(a)", "(ab)", "((a))", "((ab)c)", "(ab)c", "(ab)(cd)", "(((a)b)c)d", "(abc)(de)f"} {
			jt, shape := jt, shape
			c.Guard("list to scalar", jt+" of "+shape, func() {
				s := c.Scen()
				s.in.NUnknown = 5
				t := types.NewSlice(anyT)
				n := 0
				var build func(x string) (Val, string)
				build = func(x string) (Val, string) {
					var es []Val
					for x != "" && x[0] != ')' {
						if x[0] == '(' {
							v, rest := build(x[1:])
							es, x = append(es, v), rest[1:]
							continue
						}
						es, x = append(es, Iface{own[jt], Sym{ID: "@" + x[:1] + "@", T: own[jt]}}), x[1:]
					}
					n++
					return Iface{t, s.slice(fmt.Sprintf("list%d", n), t, es...)}, x
				}
				raw, _ := build(shape)
				s.run(c.Anchor(f, "convert"), raw, cStr(jt))
				s.each("list to scalar", jt+" of "+shape, func(o Outcome) string {
					if nilState(o.St, o.Ret[1]) != 1 {
						return "an error is returned: " + describe(o.Ret[1])
					}
					if v := unwrap(s.in, o.St, s.in.resolve(o.St, o.Ret[0])); same("@a@")(s, o, v) != "" {
						return "the value is " + describe(v) + " rather than the first item"
					}
					return ""
				})
			})
		}
	}
	c.Need("list to scalar", 40)
	// null is no value
	for _, jt := range []string{"boolean", "number", "integer", "string", "date-time", "array", "object"} {
		jt := jt
		c.Guard("null stays absent", jt, func() {
			s := c.Scen()
			s.run(c.Anchor(f, "convert"), Nil{}, cStr(jt))
			s.each("null stays absent", jt, func(o Outcome) string {
				if nilState(o.St, o.Ret[0]) != 1 {
					return "null becomes " + describe(o.Ret[0])
				}
				return ""
			})
		})
	}
	// a field read from its own path gets converted to its own declared type
	c.Guard("declared type is used", "scalar", func() {
		st := c.P.Type("transform", "scalarTransformer")
		tf := c.P.Method("transform", "scalarTransformer", "transform")
		if st == nil || tf == nil {
			undecided("scalarTransformer is not there")
		}
		n := 0
		for _, jt := range []string{"boolean", "number", "integer", "string", "date-time"} {
			jt := jt
			s := c.Scen()
			at, _ := fieldType(st, "transforms")
			obj := s.object("st", st, map[string]Val{"jsonType": cStr(jt), "format": Const{cStr("JSON").(Const).V, mustField(st, "format")}, "transforms": Nil{at}, "jsonPath": cStr("$.f"), "defaultValue": Nil{}})
			s.in.Hook = func(ci *CallInfo) []CallOut {
				if strings.HasSuffix(ci.Name, "jsonpath.Get") {
					return ok1(ci.St, s.nn("@raw@", anyT), Nil{})
				}
				if ci.Fn == f {
					k, _ := asStr(ci.In.resolve(ci.St, ci.Args[1]))
					if k != jt {
						ci.St.event(Event{Kind: "wrong", Args: []Val{cStr(k)}})
					}
					n++
					ci.St.nonNil(Sym{ID: "conv:" + k})
					return ok1(ci.St, Sym{ID: "conv:" + k, T: anyT}, Nil{})
				}
				return nil
			}
			s.run(tf, obj, s.nn("in", anyT), Nil{})
			s.each("declared type is used", "scalar "+jt, func(o Outcome) string {
				if nilState(o.St, o.Ret[1]) != 1 {
					return "an error is returned"
				}
				if k := o.Ret[0].Key(); k != "conv:"+jt {
					return "the value is " + describe(o.Ret[0]) + " rather than the converted one"
				}
				return ""
			})
		}
		if n == 0 {
			c.Bad("declared type is used", "scalar", "-", "no conversion takes place")
		}
	})
}

func fieldType(t types.Type, name string) (types.Type, int) {
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return s.Field(i).Type(), i
			}
		}
	}
	return nil, -1
}

func mustField(t types.Type, name string) types.Type {
	ft, i := fieldType(t, name)
	if i < 0 {
		undecided("no field %s in %s", name, typeKey(t))
	}
	return ft
}
