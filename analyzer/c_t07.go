package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"
)

func init() {
	register("T07", "decoding transform sections over every operation name, method and argument set: unknown operations and methods, missing, superfluous or invalid arguments, null instructions and defaults of the wrong type end in an error on every path, valid ones give exactly the operations named, in order", runT07)
}

// byTag makes a value of a struct type from values by JSON name.
func byTag(t types.Type, vals map[string]Val) Val {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		undecided("%s is no struct", typeKey(t))
	}
	n := Struct{T: t, F: make([]Val, st.NumFields())}
	used := 0
	for i := range n.F {
		tag, _, _ := strings.Cut(reflect.StructTag(st.Tag(i)).Get("json"), ",")
		if v, ok := vals[tag]; ok && tag != "" {
			n.F[i] = v
			used++
		} else {
			n.F[i] = zero(st.Field(i).Type())
		}
	}
	if used != len(vals) {
		undecided("%s does not have the JSON fields %v", typeKey(t), vals)
	}
	return n
}

func tagType(t types.Type, tag string) types.Type {
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			g, _, _ := strings.Cut(reflect.StructTag(st.Tag(i)).Get("json"), ",")
			if g == tag {
				return st.Field(i).Type()
			}
		}
	}
	undecided("%s has no JSON field %s", typeKey(t), tag)
	return nil
}

// decodes a json.Unmarshal call: gives the target pointer and its type.
func unmarshalTarget(ci *CallInfo) (Ptr, types.Type, bool) {
	if ci.Name != "encoding/json.Unmarshal" || len(ci.Args) != 2 {
		return Ptr{}, nil, false
	}
	i, ok := ci.Args[1].(Iface)
	if !ok {
		return Ptr{}, nil, false
	}
	pt, ok := i.T.Underlying().(*types.Pointer)
	if !ok {
		return Ptr{}, nil, false
	}
	p, ok := i.V.(Ptr)
	return p, pt.Elem(), ok
}

var opNames = []string{"changeCase", "convertToBool", "convertToFloat64", "convertToInt64", "currentTime", "duration", "inverse", "max", "removeHTML", "replace", "split", "timeParse", "toCamelCase", "valueExists"}

var opArgs = map[string][]string{"changeCase": {"to"}, "max": {"by", "return"}, "replace": {"regex", "new"}, "split": {"on"}, "timeParse": {"format", "layout"}, "currentTime": {"format"}, "toCamelCase": {"delimiter"}}

func runT07(c *Ctx) {
	strT := types.Typ[types.String]
	// the operations of an instruction
	type one struct {
		name string
		ok   bool // do its arguments get accepted
	}
	var cases [][]one
	for _, n := range opNames {
		cases = append(cases, []one{{n, true}}, []one{{n, false}}, []one{{"split", true}, {n, true}}, []one{{n, true}, {"split", true}})
	}
	cases = append(cases, []one{}, []one{{"?", true}}, []one{{"split", true}, {"?", true}}, []one{{"?", true}, {"split", true}}, []one{{"", true}}, []one{{"Split", true}}, []one{{"split", true}, {"split", false}})
	const rule = "operations named by the schema"
	for _, cs := range cases {
		cs := cs
		con := "operations"
		for _, o := range cs {
			con += fmt.Sprintf(" %q", o.name)
			if !o.ok {
				con += " (arguments refused)"
			}
		}
		c.Guard(rule, con, func() {
			f := c.Anchor(c.P.Method("transform", "transformInstruction", "UnmarshalJSON"), "transformInstruction.UnmarshalJSON")
			tt := c.P.Type("transform", "transformInstruction")
			s := c.Scen()
			s.in.NUnknown = 10
			ti := s.zeroObject("ti", tt)
			decoded := 0
			s.in.Hook = func(ci *CallInfo) []CallOut {
				if p, t, ok := unmarshalTarget(ci); ok {
					if !strings.Contains(ident(ci.St, s.in, ci.Args[0]), "data") {
						return nil
					}
					decoded++
					ot := tagType(t, "operations")
					et := ot.Underlying().(*types.Slice).Elem()
					var ops []Val
					for i, o := range cs {
						name := Val(cStr(o.name))
						if o.name == "?" {
							name = Sym{ID: "other:name", T: strT}
							ci.St.upd(name.(Sym), func(f *Fact) { f.LenMin = 1 })
						}
						mt := tagType(et, "args")
						ops = append(ops, byTag(et, map[string]Val{"type": name, "args": Sym{ID: fmt.Sprintf("@args%d@", i), T: mt}}))
					}
					sc := &Scenario{c: c, in: s.in, st: ci.St}
					v := byTag(t, map[string]Val{"jsonPath": Sym{ID: "@jsonPath@", T: strT}, "xmlPath": Sym{ID: "@xmlPath@", T: strT}, "operations": sc.slice("ops", ot, ops...)})
					s.in.store(ci.St, p, v, t)
					return ok1(ci.St, Nil{errType})
				}
				name := ""
				var recv Val
				if ci.Fn != nil && ci.Fn.Name() == "init" && ci.Fn.Signature.Recv() != nil {
					name, recv = tname(ci.Fn.Signature.Recv().Type()), ci.Args[0]
				}
				if name != "" {
					for i, o := range cs {
						if ci.Args[1].Key() == fmt.Sprintf("@args%d@", i) {
							if !o.ok {
								return ok1(ci.St, ci.In.newErr(ci.St, "err:init"))
							}
							ci.St.event(Event{Kind: "init", Args: []Val{recv, cInt(i)}})
							return ok1(ci.St, Nil{errType})
						}
					}
				}
				return nil
			}
			s.run(f, ti, s.nn("data", f.Params[1].Type()))
			if decoded == 0 {
				c.Bad(rule, con, "-", "the section is not decoded")
			}
			s.each(rule, con, func(o Outcome) string {
				bad := ""
				for _, x := range cs {
					known := false
					for _, n := range opNames {
						known = known || n == x.name
					}
					if !known {
						bad = "an unknown operation is accepted"
					} else if !x.ok {
						bad = "refused arguments of an operation are ignored"
					}
				}
				failed := nilState(o.St, o.Ret[0])
				if bad != "" {
					if failed != 2 {
						return bad
					}
					return ""
				}
				if failed != 1 {
					return "a valid instruction is refused: " + describe(o.Ret[0])
				}
				if k := s.in.resolve(o.St, s.field(o.St, ti, "jsonPath")).Key(); k != "@jsonPath@" {
					return "the JSON path of the instruction is " + k
				}
				if k := s.in.resolve(o.St, s.field(o.St, ti, "xmlPath")).Key(); k != "@xmlPath@" {
					return "the XML path of the instruction is " + k
				}
				ops := s.in.resolve(o.St, s.field(o.St, ti, "Operations"))
				es, ok := s.in.elems(o.St, ops)
				if _, isNil := ops.(Nil); isNil {
					ok = true
				}
				if !ok || len(es) != len(cs) {
					return fmt.Sprintf("there are not %d operations: %s", len(cs), s.in.content(o.St, ops, 3))
				}
				for i, e := range es {
					d, ok := dynOf(o.St, e)
					if !ok || d == nil {
						return "unknown operation " + describe(e)
					}
					if n := tname(d); n != "*transform."+cs[i].name {
						return fmt.Sprintf("the operation %q is a %s", cs[i].name, n)
					}
					inited := false
					for _, ev := range events(o.St, "init") {
						if k, _ := asInt(ev.Args[1]); k == i && ev.Args[0].Key() == unwrap(s.in, o.St, e).Key() {
							inited = true
						}
					}
					if !inited {
						return fmt.Sprintf("the operation %q is not initialised with its arguments", cs[i].name)
					}
				}
				return ""
			})
		})
	}
	c.Need(rule, 50)
	runT07args(c)
	runT07method(c)
	runT07default(c)
}

func runT07args(c *Ctx) {
	const rule = "arguments of operations"
	strT := types.Typ[types.String]
	for _, name := range opNames {
		req := opArgs[name]
		if len(req) == 0 {
			continue
		}
		sets := map[string][]string{"none": nil, "an additional one": append(append([]string(nil), req...), "additional"), "those required": req}
		for i := range req {
			var miss, wrong []string
			for j, r := range req {
				if i != j {
					miss = append(miss, r)
					wrong = append(wrong, r)
				} else {
					wrong = append(wrong, "other")
				}
			}
			if len(miss) > 0 {
				sets["all but "+req[i]] = miss
			}
			sets["another in place of "+req[i]] = wrong
		}
		for con, set := range sets {
			name, set, con := name, set, name+" with "+con
			valid := strings.HasSuffix(con, "those required")
			c.Guard(rule, con, func() {
				f := c.Anchor(c.P.Method("transform", name, "init"), name+".init")
				s := c.Scen()
				s.in.NUnknown = 8
				op := s.zeroObject("op", c.P.Type("transform", name))
				var kv []Val
				for _, k := range set {
					kv = append(kv, cStr(k), Sym{ID: "@" + k + "@", T: strT})
				}
				s.run(f, op, s.dict("args", f.Params[1].Type(), kv...))
				good := 0
				s.each(rule, con, func(o Outcome) string {
					failed := nilState(o.St, o.Ret[0])
					if !valid {
						if failed != 2 {
							return "the arguments are accepted"
						}
						return ""
					}
					if failed == 1 {
						good++
						if name == "changeCase" {
							f := o.St.Facts["@to@"]
							if f == nil || f.Eq == nil || f.Eq.Key() != `"lower"` && f.Eq.Key() != `"upper"` {
								return "any case is accepted"
							}
						}
						return ""
					}
					if name == "changeCase" || name == "replace" && strings.Contains(s.in.content(o.St, o.Ret[0], 4), "regexp.") {
						return ""
					}
					return "the required arguments are refused: " + describe(o.Ret[0])
				})
				if valid && good == 0 {
					c.Bad(rule, con, "-", "the required arguments are never accepted")
				}
			})
		}
		// a nil map of arguments
		c.Guard(rule, name, func() {
			f := c.Anchor(c.P.Method("transform", name, "init"), name+".init")
			s := c.Scen()
			op := s.zeroObject("op", c.P.Type("transform", name))
			s.run(f, op, Nil{f.Params[1].Type()})
			s.each(rule, name+" without arguments", func(o Outcome) string {
				if nilState(o.St, o.Ret[0]) != 2 {
					return "no arguments are accepted"
				}
				return ""
			})
		})
	}
	c.Need(rule, 30)
}

func runT07method(c *Ctx) {
	const rule = "method named by the schema"
	strT := types.Typ[types.String]
	for _, m := range []string{"", "first", "last", "concatenate", "First", "?"} {
		for nulls := -1; nulls < 2; nulls++ {
			m, nulls := m, nulls
			con := fmt.Sprintf("method %q", m)
			if nulls >= 0 {
				con += fmt.Sprintf(", null as instruction %d", nulls)
			}
			c.Guard(rule, con, func() {
				k := newKit(c)
				f := c.Anchor(c.P.Method("transform", "transformInstructions", "UnmarshalJSON"), "transformInstructions.UnmarshalJSON")
				s := c.Scen()
				s.in.NUnknown = 8
				tis := s.zeroObject("tis", k.tis)
				ptr := types.NewPointer(k.ti)
				var from []Val
				for i := 0; i < 2; i++ {
					if i == nulls {
						from = append(from, Nil{ptr})
					} else {
						from = append(from, s.object(fmt.Sprintf("ti%d", i), k.ti, nil))
					}
				}
				fs := s.slice("from", types.NewSlice(ptr), from...)
				var opts Val
				s.in.Hook = func(ci *CallInfo) []CallOut {
					if p, t, ok := unmarshalTarget(ci); ok && strings.Contains(ident(ci.St, s.in, ci.Args[0]), "data") {
						name := Val(cStr(m))
						if m == "?" {
							name = Sym{ID: "other:method", T: strT}
							ci.St.upd(name.(Sym), func(f *Fact) { f.LenMin = 1 })
						}
						opts = byTag(tagType(t, "methodOptions"), map[string]Val{"concatenateDelimiter": Sym{ID: "@delimiter@", T: strT}})
						v := byTag(t, map[string]Val{"from": fs, "method": name, "methodOptions": opts})
						s.in.store(ci.St, p, v, t)
						return ok1(ci.St, Nil{errType})
					}
					return nil
				}
				s.run(f, tis, s.nn("data", f.Params[1].Type()))
				s.each(rule, con, func(o Outcome) string {
					failed := nilState(o.St, o.Ret[0])
					if nulls >= 0 {
						if failed != 2 {
							return "null is accepted as instruction"
						}
						return ""
					}
					want := m
					switch m {
					case "":
						want = "first"
					case "First", "?":
						if failed != 2 {
							return "an unknown method is accepted"
						}
						return ""
					}
					if failed != 1 {
						return "a valid method is refused: " + describe(o.Ret[0])
					}
					if got := s.in.resolve(o.St, s.field(o.St, tis, "Method")); got.Key() != k.constOf(want).Key() {
						return "the method is " + describe(got)
					}
					if got := s.in.resolve(o.St, s.field(o.St, tis, "MethodOptions")); opts == nil || got.Key() != opts.Key() {
						return "the options are " + describe(got)
					}
					es, ok := s.in.elems(o.St, s.in.resolve(o.St, s.field(o.St, tis, "From")))
					if !ok || len(es) != 2 || es[0].Key() != from[0].Key() || es[1].Key() != from[1].Key() {
						return "the instructions are not those of the schema"
					}
					return ""
				})
			})
		}
	}
	c.Need(rule, 18)
}

func runT07default(c *Ctx) {
	const rule = "default of the declared type"
	mt := types.NewMap(types.Typ[types.String], anyT)
	sl := types.NewSlice(anyT)
	for _, kind := range []string{"Array", "Object"} {
		for _, t := range []types.Type{nil, types.Typ[types.String], types.Typ[types.Float64], types.Typ[types.Bool], sl, mt} {
			kind, t := kind, t
			con := kind + " with default of type " + tname(t)
			c.Guard(rule, con, func() {
				f := c.Anchor(c.P.Func("transform", "new"+kind+"Transformer"), "new"+kind+"Transformer")
				sd := c.Anchor(c.P.Func("transform", "schemaDefault"), "schemaDefault")
				s := c.Scen()
				s.in.Hook = func(ci *CallInfo) []CallOut {
					if ci.Fn == sd {
						if t == nil {
							return ok1(ci.St, Nil{}, Nil{errType})
						}
						return ok1(ci.St, Iface{t, Sym{ID: "@default@", T: t}}, Nil{errType})
					}
					return nil
				}
				s.in.Opaque = func(g *ssaFn) bool {
					// what extracts the instructions is decided elsewhere
					r := g.Signature.Results()
					return r.Len() == 2 && typeKey(r.At(0).Type()) == typeKey(types.NewPointer(c.P.Type("transform", "transformInstructions")))
				}
				var args []Val
				for _, p := range f.Params {
					args = append(args, sym("@"+p.Name()+"@", p.Type()))
				}
				s.run(f, args...)
				want := t == nil || kind == "Array" && t == sl || kind == "Object" && t == mt
				good := 0
				s.each(rule, con, func(o Outcome) string {
					failed := nilState(o.St, o.Ret[1])
					if !want {
						if failed != 2 {
							return "the default is accepted"
						}
						return ""
					}
					if failed == 2 && !callFailed(o.St) {
						return "the default is refused: " + describe(o.Ret[1])
					}
					if failed == 1 {
						good++
						got := s.in.resolve(o.St, s.field(o.St, o.Ret[0], "defaultValue"))
						if t == nil && nilState(o.St, got) != 1 || t != nil && got.Key() != "@default@" {
							return "the default is " + describe(got)
						}
					}
					return ""
				})
				if want && good == 0 {
					c.Bad(rule, con, "-", "never succeeds")
				}
			})
		}
	}
	c.Need(rule, 12)
}

// callFailed tells whether a call failed on the path.
func callFailed(st *State) bool {
	for k, v := range st.Preds {
		if v && strings.HasPrefix(k, "fails ") {
			return true
		}
	}
	return false
}
