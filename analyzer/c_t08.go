package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("T08", "on every path through the transformer of a scalar, array or object the value comes from the transform instructions if they give one, else (JSON) from the same path of the input, else from the schema default, else there is none; values of children are put over the base value of an object under their own name and an absent child leaves it alone", runT08)
	register("T10", "for every number of instructions up to three and every combination of absent, present and failing values: first takes the first present value in order, last the first in reverse order, concatenate joins all present values in order with the delimiter between values which are not empty, and an error of an instruction which is reached is returned", runT10)
	register("T11", "every item of the base value of an array is transformed once, in order, with the position of the item in place of the wildcard in the paths of its descendants; the result has the values which are present in the same order and an error of an item is returned", runT11)
}

// format is a constant of the input format type.
func formatConst(c *Ctx, owner types.Type, f string) Val {
	return Const{cStr(f).(Const).V, mustField(owner, "format")}
}

type trKit struct {
	c        *Ctx
	scalar   types.Type
	array    types.Type
	object   types.Type
	tis      types.Type
	ti       types.Type
	tisTr    *ssa.Function
	tiTr     *ssa.Function
	convert  *ssa.Function
	iface    types.Type
	modifier types.Type
}

func newKit(c *Ctx) *trKit {
	k := &trKit{c: c}
	k.scalar = c.P.Type("transform", "scalarTransformer")
	k.array = c.P.Type("transform", "arrayTransformer")
	k.object = c.P.Type("transform", "objectTransformer")
	k.tis = c.P.Type("transform", "transformInstructions")
	k.ti = c.P.Type("transform", "transformInstruction")
	if k.scalar == nil || k.array == nil || k.object == nil || k.tis == nil || k.ti == nil {
		undecided("the types of the transformers are not there")
	}
	k.tisTr = c.Anchor(c.P.Method("transform", "transformInstructions", "transform"), "transformInstructions.transform")
	k.tiTr = c.Anchor(c.P.Method("transform", "transformInstruction", "transform"), "transformInstruction.transform")
	k.convert = c.Anchor(c.P.Func("transform", "convert"), "convert")
	ft, _ := fieldType(k.array, "childTransformer")
	if ft == nil {
		ft = c.P.Type("transform", "instanceTransformer")
	}
	if ft == nil {
		undecided("the interface of the transformers is not there")
	}
	k.iface = ft
	k.modifier = c.Anchor(c.P.Method("transform", "scalarTransformer", "transform"), "scalarTransformer.transform").Params[2].Type()
	return k
}

type srcCase struct {
	kind     string // scalar, array, object
	format   string
	withTr   bool
	trVal    string // value of the instructions: nil, own (of the right kind), other, err
	modified bool
	get      string // nil, err, own, other
	conv     string // nil, err, val
	def      bool
}

func (x srcCase) name() string {
	s := x.kind + " " + x.format
	if x.withTr {
		s += ", instructions give " + x.trVal
	} else {
		s += ", no instructions"
	}
	if x.format == "JSON" && x.kind != "object" {
		s += ", same path gives " + x.get
		if x.kind == "scalar" && x.get != "err" {
			s += " converted to " + x.conv
		}
	}
	if x.def {
		s += ", default"
	}
	if x.modified {
		s += ", in an array"
	}
	return s
}

func runT08(c *Ctx) {
	const rule = "source precedence"
	c.Guard(rule, "transformers", func() {
		k := newKit(c)
		for _, kind := range []string{"scalar", "array", "object"} {
			for _, format := range []string{"JSON", "XML"} {
				for _, tr := range []string{"", "nil", "own", "other", "err"} {
					if kind == "scalar" && tr == "other" {
						continue
					}
					gets := []string{"nil", "err", "own", "other"}
					if kind == "array" {
						gets = append(gets, "empty")
					}
					if format == "XML" || kind == "object" {
						gets = []string{"err"}
					}
					for _, get := range gets {
						convs := []string{"val"}
						if kind == "scalar" && format == "JSON" {
							if get == "other" {
								continue
							}
							convs = []string{"nil", "err", "val"}
							if get == "nil" {
								convs = []string{"nil"}
							}
						}
						for _, conv := range convs {
							for m := 0; m < 4; m++ {
								x := srcCase{kind, format, tr != "", tr, m&1 == 1, get, conv, m&2 == 2}
								c.Guard(rule, x.name(), func() { k.source(rule, x) })
							}
						}
					}
				}
			}
		}
		k.children()
	})
	c.Need(rule, 150)
}

// own is a value of the kind of the transformer with content name.
func (k *trKit) own(s *Scenario, kind, name string) Val {
	switch kind {
	case "array":
		t := types.NewSlice(anyT)
		return Iface{t, s.slice(name, t, Iface{types.Typ[types.String], Sym{ID: name + ".0", T: types.Typ[types.String]}}, Iface{types.Typ[types.String], Sym{ID: name + ".1", T: types.Typ[types.String]}})}
	case "object":
		t := types.NewMap(types.Typ[types.String], anyT)
		return Iface{t, s.dict(name, t, cStr("x"), Iface{types.Typ[types.String], Sym{ID: name + ".x", T: types.Typ[types.String]}})}
	}
	return Iface{types.Typ[types.String], Sym{ID: name, T: types.Typ[types.String]}}
}

// isValue tells whether a value has the content of own.
func (k *trKit) isValue(s *Scenario, st *State, v Val, kind, name string) bool {
	v = s.in.resolve(st, v)
	if i, ok := v.(Iface); ok {
		v = s.in.resolve(st, i.V)
	}
	switch kind {
	case "array":
		es, ok := s.in.elems(st, v)
		return ok && len(es) == 2 && unwrap(s.in, st, es[0]).Key() == name+".0" && unwrap(s.in, st, es[1]).Key() == name+".1"
	case "object":
		return k.mapIs(s, st, v, map[string]string{"x": name + ".x"})
	case "wrapped":
		es, ok := s.in.elems(st, v)
		return ok && len(es) == 1 && unwrap(s.in, st, es[0]).Key() == name
	}
	return v.Key() == name
}

func (k *trKit) mapIs(s *Scenario, st *State, v Val, want map[string]string) bool {
	if i, ok := v.(Iface); ok {
		v = s.in.resolve(st, i.V)
	}
	m, ok := v.(MapV)
	if !ok {
		return false
	}
	mc, ok := st.Heap[m.Obj].V.(MapC)
	if !ok || !mc.Closed {
		return false
	}
	n := 0
	for _, e := range mc.Ents {
		if e.Gone {
			continue
		}
		n++
		key, _ := asStr(e.K)
		if w, ok := want[key]; !ok || unwrap(s.in, st, e.V).Key() != w {
			return false
		}
	}
	return n == len(want)
}

func (k *trKit) isAbsent(s *Scenario, st *State, v Val) bool {
	v = s.in.resolve(st, v)
	if nilState(st, v) == 1 {
		return true
	}
	if i, ok := v.(Iface); ok {
		return nilState(st, s.in.resolve(st, i.V)) == 1
	}
	return false
}

func (k *trKit) source(rule string, x srcCase) {
	c := k.c
	s := c.Scen()
	s.in.NUnknown = 6
	var t types.Type
	switch x.kind {
	case "scalar":
		t = k.scalar
	case "array":
		t = k.array
	case "object":
		t = k.object
	}
	f := map[string]Val{"format": formatConst(c, t, x.format), "jsonPath": cStr("$.o.f")}
	if x.withTr {
		f["transforms"] = s.object("tis", k.tis, nil)
	} else {
		f["transforms"] = Nil{mustField(t, "transforms")}
	}
	f["defaultValue"] = Nil{mustField(t, "defaultValue")}
	if x.def {
		d := k.own(s, x.kind, "DEF")
		if x.kind != "scalar" {
			d = d.(Iface).V
		}
		f["defaultValue"] = d
	}
	switch x.kind {
	case "scalar":
		f["jsonType"] = cStr("string")
	case "array":
		f["childTransformer"] = Nil{k.iface}
	case "object":
		f["children"] = s.dict("children", mustField(t, "children"))
	}
	tf := c.Anchor(c.P.Method("transform", x.kind+"Transformer", "transform"), x.kind+"Transformer.transform")
	var mod Val = Nil{k.modifier}
	path := "$.o.f"
	if x.modified {
		mod = Intr{Name: "mod", T: k.modifier}
		path = "$.o.modified"
	}
	nodeT := types.NewPointer(c.P.ExtType("github.com/antchfx/xmlquery", "Node"))
	var inV Val
	if x.format == "XML" {
		inV = Iface{nodeT, s.nn("@node@", nodeT)}
	} else {
		mt := types.NewMap(types.Typ[types.String], anyT)
		inV = Iface{mt, s.dict("input", mt)}
	}
	trOwn := x.kind
	s.in.Hook = func(ci *CallInfo) []CallOut {
		switch {
		case ci.Name == "intr:mod":
			p, ok := asStr(ci.In.resolve(ci.St, ci.Args[0]))
			if ok && p == "$.o.f" {
				return ok1(ci.St, cStr("$.o.modified"))
			}
			return ok1(ci.St, cStr("?modified:"+p))
		case ci.Fn == k.tisTr:
			st := ci.St
			bad := ""
			if ident(st, s.in, ci.Args[1]) != inV.Key() && !(x.kind == "object" && x.format == "XML") {
				bad = "the instructions do not get the input"
			}
			if ident(st, s.in, ci.Args[3]) != mod.Key() {
				bad = "the instructions do not get the path modifier"
			}
			want := map[string]string{"scalar": "string", "array": "array", "object": "object"}[x.kind]
			if j, ok := asStr(s.in.resolve(st, ci.Args[2])); !ok || j != want {
				bad = "the instructions do not get the type of the field"
			}
			if j, ok := asStr(s.in.resolve(st, ci.Args[4])); !ok || j != x.format {
				bad = "the instructions do not get the format of the input"
			}
			if bad != "" {
				st.event(Event{Kind: "bad", Args: []Val{cStr(bad)}})
			}
			switch x.trVal {
			case "nil":
				return ok1(st, Nil{}, Nil{})
			case "err":
				return ok1(st, Nil{}, s.in.newErr(st, "err:instructions"))
			case "other":
				return ok1(st, Iface{types.Typ[types.Int], Sym{ID: "TR", T: types.Typ[types.Int]}}, Nil{})
			}
			if x.kind == "object" && x.format == "XML" {
				return ok1(st, Iface{nodeT, s.st.nonNil(Sym{ID: "TR", T: nodeT})}, Nil{})
			}
			return ok1(st, k.own(&Scenario{c: c, in: s.in, st: st}, x.kind, "TR"), Nil{})
		case strings.HasSuffix(ci.Name, "jsonpath.Get"):
			st := ci.St
			if p, ok := asStr(s.in.resolve(st, ci.Args[0])); !ok || p != path || ident(st, s.in, ci.Args[1]) != inV.Key() {
				// some other use of the input
				return nil
			}
			switch x.get {
			case "nil":
				return ok1(st, Nil{}, Nil{})
			case "err":
				return ok1(st, Nil{}, s.in.newErr(st, "err:get"))
			case "other":
				return ok1(st, Iface{types.Typ[types.Int], Sym{ID: "GET", T: types.Typ[types.Int]}}, Nil{})
			case "empty":
				t := types.NewSlice(anyT)
				return ok1(st, Iface{t, (&Scenario{c: c, in: s.in, st: st}).slice("GET", t)}, Nil{})
			}
			return ok1(st, k.own(&Scenario{c: c, in: s.in, st: st}, x.kind, "GET"), Nil{})
		case ci.Fn == k.convert:
			st := ci.St
			if !k.isValue(s, st, ci.Args[0], "scalar", "GET") {
				return nil
			}
			switch x.conv {
			case "nil":
				return ok1(st, Nil{}, Nil{})
			case "err":
				return ok1(st, Nil{}, s.in.newErr(st, "err:convert"))
			}
			return ok1(st, Iface{types.Typ[types.String], Sym{ID: "CONV", T: types.Typ[types.String]}}, Nil{})
		}
		return nil
	}
	s.run(tf, s.object("tr", t, f), inV, mod)
	s.each(rule, x.name(), func(o Outcome) string {
		for _, e := range events(o.St, "bad") {
			b, _ := asStr(e.Args[0])
			return b
		}
		failed := nilState(o.St, o.Ret[1])
		got := o.Ret[0]
		ok := func(kind, name string) string {
			if failed != 1 {
				return "an error is returned: " + describe(o.Ret[1])
			}
			if !k.isValue(s, o.St, got, kind, name) {
				return "the value is " + describe(got) + " rather than " + name
			}
			return ""
		}
		if x.withTr && x.trVal == "err" {
			if failed != 2 {
				return "the error of the instructions is not returned"
			}
			return ""
		}
		if x.withTr && (x.trVal == "own" || x.trVal == "other") {
			switch {
			case x.kind == "scalar":
				return ok("scalar", "TR")
			case x.kind == "array" && x.trVal == "other":
				return ok("wrapped", "TR")
			case x.kind == "array":
				return ok("array", "TR")
			case x.trVal == "other":
				if failed != 2 {
					return "a value which is no object is accepted"
				}
				return ""
			case x.format == "JSON":
				return ok("object", "TR")
			default:
				// the node found becomes the input of the children, the base is the default
				if x.def {
					return ok("object", "DEF")
				}
				if failed == 1 && k.isAbsent(s, o.St, got) {
					return ""
				}
				return "the value is " + describe(got)
			}
		}
		if x.format == "JSON" && x.kind != "object" {
			switch {
			case x.kind == "scalar" && x.get == "own" && x.conv == "val":
				return ok("scalar", "CONV")
			case x.kind == "array" && x.get == "own":
				return ok("array", "GET")
			case x.kind == "array" && x.get == "other":
				return ok("wrapped", "GET")
			case x.kind == "array" && x.get == "empty":
				// a list which is there and has no items is no reason for the default
				if failed != 1 {
					return "an error is returned: " + describe(o.Ret[1])
				}
				if es, ok := s.in.elems(o.St, unwrap(s.in, o.St, s.in.resolve(o.St, got))); !k.isAbsent(s, o.St, got) && !(ok && len(es) == 0) {
					return "the value is " + describe(got) + " though the list of the input is empty"
				}
				return ""
			}
		}
		if x.def {
			return ok(x.kind, "DEF")
		}
		if failed != 1 {
			return "an error is returned: " + describe(o.Ret[1])
		}
		if !k.isAbsent(s, o.St, got) {
			return "the value is " + describe(got) + " though there is none"
		}
		return ""
	})
	_ = trOwn
}

// children: what the children of an object give goes over the base.
func (k *trKit) children() {
	c := k.c
	const rule = "children of an object"
	tf := c.Anchor(c.P.Method("transform", "objectTransformer", "transform"), "objectTransformer.transform")
	for _, format := range []string{"JSON", "XML"} {
		for va := 0; va < 3; va++ {
			for vb := 0; vb < 3; vb++ {
				for def := 0; def < 2; def++ {
					states := []string{"absent", "present", "failing"}
					con := fmt.Sprintf("%s, x is %s, y is %s, default %v", format, states[va], states[vb], def == 1)
					format, va, vb, def := format, va, vb, def
					c.Guard(rule, con, func() {
						s := c.Scen()
						s.in.NUnknown = 6
						f := map[string]Val{"format": formatConst(c, k.object, format), "jsonPath": cStr("$.o"), "transforms": Nil{mustField(k.object, "transforms")}, "defaultValue": Nil{mustField(k.object, "defaultValue")}}
						if def == 1 {
							f["defaultValue"] = k.own(s, "object", "DEF").(Iface).V
						}
						a, b := s.nn("childx", k.iface), s.nn("childy", k.iface)
						f["children"] = s.dict("children", mustField(k.object, "children"), cStr("x"), a, cStr("y"), b)
						nodeT := types.NewPointer(c.P.ExtType("github.com/antchfx/xmlquery", "Node"))
						inV := Val(Iface{nodeT, s.nn("@node@", nodeT)})
						if format == "JSON" {
							mt := types.NewMap(types.Typ[types.String], anyT)
							inV = Iface{mt, s.dict("input", mt)}
						}
						mod := Intr{Name: "mod", T: k.modifier}
						s.in.Hook = func(ci *CallInfo) []CallOut {
							if ci.Name == "intr:mod" {
								return ok1(ci.St, cStr("$.modified"))
							}
							if ci.Recv == nil || !strings.HasPrefix(ci.Recv.Key(), "child") {
								return nil
							}
							n := ci.Recv.Key()[5:]
							switch ci.Method.Name() {
							case "path":
								return ok1(ci.St, cStr("$.o."+n))
							case "transform":
								ci.St.event(Event{Kind: "child " + n})
								if ident(ci.St, s.in, ci.Args[0]) != inV.Key() || ident(ci.St, s.in, ci.Args[1]) != mod.Key() {
									ci.St.event(Event{Kind: "bad", Args: []Val{cStr("a child does not get the input and path modifier of its parent")}})
								}
								switch map[string]int{"x": va, "y": vb}[n] {
								case 0:
									return ok1(ci.St, Nil{}, Nil{})
								case 1:
									return ok1(ci.St, Iface{types.Typ[types.String], Sym{ID: "VAL" + n, T: types.Typ[types.String]}}, Nil{})
								}
								return ok1(ci.St, Nil{}, ci.In.newErr(ci.St, "err:child"))
							}
							return nil
						}
						s.run(tf, s.object("tr", k.object, f), inV, mod)
						s.each(rule, con, func(o Outcome) string {
							for _, e := range events(o.St, "bad") {
								b, _ := asStr(e.Args[0])
								return b
							}
							failed := nilState(o.St, o.Ret[1])
							if va == 2 || vb == 2 {
								if failed != 2 {
									return "the error of a child is not returned"
								}
								return ""
							}
							if failed != 1 {
								return "an error is returned: " + describe(o.Ret[1])
							}
							if len(events(o.St, "child x")) != 1 || len(events(o.St, "child y")) != 1 {
								return "a child is not transformed exactly once"
							}
							want := map[string]string{}
							if def == 1 {
								want["x"] = "DEF.x"
							}
							if va == 1 {
								want["x"] = "VALx"
							}
							if vb == 1 {
								want["y"] = "VALy"
							}
							if len(want) == 0 {
								if !k.isAbsent(s, o.St, o.Ret[0]) {
									return "an empty object is returned as " + describe(o.Ret[0])
								}
								return ""
							}
							if !k.mapIs(s, o.St, s.in.resolve(o.St, o.Ret[0]), want) {
								return fmt.Sprintf("the object is %s rather than %v", s.in.content(o.St, o.Ret[0], 4), want)
							}
							return ""
						})
					})
				}
			}
		}
	}
	c.Need(rule, 36)
}

func (k *trKit) constOf(name string) Val {
	m := k.c.P.Pkg("transform")
	if m == nil {
		undecided("no package transform")
	}
	if n, ok := m.Members[name].(*ssa.NamedConst); ok {
		return Const{n.Value.Value, n.Value.Type()}
	}
	undecided("no constant %s", name)
	return nil
}

func runT10(c *Ctx) {
	const rule = "combination of instructions"
	c.Guard(rule, "instructions", func() {
		k := newKit(c)
		for _, method := range []string{"first", "last", "concatenate"} {
			for n := 0; n <= 3; n++ {
				total := 1
				for i := 0; i < n; i++ {
					total *= 3
				}
				for combo := 0; combo < total; combo++ {
					st := make([]int, n) // 0 absent, 1 present, 2 failing
					for i, x := 0, combo; i < n; i++ {
						st[i] = x % 3
						x /= 3
					}
					k.combine(rule, method, st)
					if method != "concatenate" && n <= 2 {
						for _, v := range k.plainValues() {
							k.choose(rule, method, st, v)
						}
					}
				}
			}
		}
	})
	c.Guard(rule, "many instructions", func() {
		k := newKit(c)
		for _, n := range cutoffs(c, "transform", 3, 1200) {
			for _, method := range []string{"first", "last", "concatenate"} {
				for _, at := range []int{0, n / 2, n - 1} {
					for _, state := range []int{1, 2} {
						vs := make([]int, n)
						vs[at] = state
						k.combine(rule, method, vs)
					}
				}
			}
		}
	})
	c.Need(rule, 100)
}

type plainValue struct {
	name string
	v    Val
}

// plainValues are values which are present though they look like nothing.
func (k *trKit) plainValues() []plainValue {
	zero := func(n string, t types.Type, v constant.Value) plainValue { return plainValue{n, Iface{t, Const{v, t}}} }
	sl := types.NewSlice(anyT)
	mp := types.NewMap(types.Typ[types.String], anyT)
	return []plainValue{
		zero("false", types.Typ[types.Bool], constant.MakeBool(false)),
		zero("true", types.Typ[types.Bool], constant.MakeBool(true)),
		zero("no text", types.Typ[types.String], constant.MakeString("")),
		zero("blank text", types.Typ[types.String], constant.MakeString(" ")),
		zero("0", types.Typ[types.Int], constant.MakeInt64(0)),
		zero("0.0", types.Typ[types.Float64], constant.MakeFloat64(0)),
		zero("-1", types.Typ[types.Int], constant.MakeInt64(-1)),
		{"some list", Iface{sl, nil}},
		{"some object", Iface{mp, nil}},
	}
}

// choose: which value is taken does not depend on the value.
func (k *trKit) choose(rule, method string, vs []int, pv plainValue) {
	any := false
	con := method + " of " + pv.name + ":"
	for _, v := range vs {
		con += [...]string{" absent", " present", " failing"}[v]
		any = any || v == 1
	}
	if !any {
		return
	}
	c := k.c
	c.Guard(rule, con, func() {
		s := c.Scen()
		s.in.NUnknown = 12
		ptr := types.NewPointer(k.ti)
		var from []Val
		for i := range vs {
			from = append(from, s.object(fmt.Sprintf("ti%d", i), k.ti, nil))
		}
		strT := types.Typ[types.String]
		tis := s.object("tis", k.tis, map[string]Val{"From": s.slice("from", types.NewSlice(ptr), from...), "Method": k.constOf(method)})
		val := func(i int) Val {
			w := pv.v.(Iface)
			if w.V == nil {
				return Iface{w.T, Sym{ID: fmt.Sprintf("VAL%d", i), T: w.T}}
			}
			return w
		}
		if pv.v.(Iface).V == nil {
			for i := range vs {
				s.nn(fmt.Sprintf("VAL%d", i), pv.v.(Iface).T)
			}
		}
		s.in.Hook = func(ci *CallInfo) []CallOut {
			if ci.Fn != k.tiTr {
				return nil
			}
			p, ok := ci.Args[0].(Ptr)
			if !ok || !strings.HasPrefix(p.Obj, "o:scen:ti") {
				return nil
			}
			i, err := strconv.Atoi(p.Obj[len("o:scen:ti"):])
			if err != nil {
				return nil
			}
			switch vs[i] {
			case 0:
				return ok1(ci.St, Nil{}, Nil{})
			case 1:
				return ok1(ci.St, val(i), Nil{})
			}
			return ok1(ci.St, Nil{}, ci.In.newErr(ci.St, fmt.Sprintf("err:ti%d", i)))
		}
		s.run(k.tisTr, tis, s.nn("input", anyT), Sym{ID: "@type@", T: strT}, Intr{Name: "mod", T: k.modifier}, Const{cStr("JSON").(Const).V, k.tisTr.Params[4].Type()})
		s.each(rule, con, func(o Outcome) string {
			want := -1
			for j := range vs {
				i := j
				if method == "last" {
					i = len(vs) - 1 - j
				}
				if vs[i] == 2 {
					if nilState(o.St, o.Ret[1]) != 2 {
						return "the error of an instruction is not returned"
					}
					return ""
				}
				if vs[i] == 1 {
					want = i
					break
				}
			}
			if nilState(o.St, o.Ret[1]) != 1 {
				return "an error is returned: " + describe(o.Ret[1])
			}
			got := s.in.resolve(o.St, o.Ret[0])
			if ident(o.St, s.in, got) != val(want).Key() {
				return "the value is " + describe(got) + " rather than that of instruction " + fmt.Sprint(want)
			}
			return ""
		})
	})
}

func (k *trKit) combine(rule, method string, vs []int) {
	c := k.c
	con := method
	if len(vs) > 3 {
		con += fmt.Sprintf(" of %d:", len(vs))
	}
	for i, v := range vs {
		if len(vs) <= 3 {
			con += [...]string{" absent", " present", " failing"}[v]
		} else if v > 0 {
			con += fmt.Sprintf(" %s at %d", [...]string{"", "present", "failing"}[v], i)
		}
	}
	c.Guard(rule, con, func() {
		s := c.Scen()
		s.in.NUnknown = 12
		s.in.MaxCons = 5000
		s.in.MaxVer = 6 + 2*len(vs)
		ptr := types.NewPointer(k.ti)
		var from []Val
		for i := range vs {
			from = append(from, s.object(fmt.Sprintf("ti%d", i), k.ti, nil))
		}
		fs := s.slice("from", types.NewSlice(ptr), from...)
		strT := types.Typ[types.String]
		mo := mustField(k.tis, "MethodOptions")
		opt := s.st.Heap[s.object("mo", mo, map[string]Val{"ConcatenateDelimiter": Sym{ID: "@delim@", T: strT}}).(Ptr).Obj].V
		tis := s.object("tis", k.tis, map[string]Val{"From": fs, "Method": k.constOf(method), "MethodOptions": opt})
		inV := s.nn("input", anyT)
		mod := Intr{Name: "mod", T: k.modifier}
		s.in.Hook = func(ci *CallInfo) []CallOut {
			if ci.Fn != k.tiTr {
				return nil
			}
			p, ok := ci.Args[0].(Ptr)
			if !ok || !strings.HasPrefix(p.Obj, "o:scen:ti") {
				return nil
			}
			i, err := strconv.Atoi(p.Obj[len("o:scen:ti"):])
			if err != nil {
				return nil
			}
			ci.St.event(Event{Kind: "run", Args: []Val{cInt(i)}})
			if ci.Args[1].Key() != inV.Key() || ci.Args[2].Key() != "@type@" || ident(ci.St, s.in, ci.Args[3]) != mod.Key() || ident(ci.St, s.in, ci.Args[4]) != "\"JSON\"" {
				ci.St.event(Event{Kind: "bad", Args: []Val{cStr("an instruction does not get the input, type, path modifier and format")}})
			}
			switch vs[i] {
			case 0:
				return ok1(ci.St, Nil{}, Nil{})
			case 1:
				return ok1(ci.St, Iface{strT, Sym{ID: fmt.Sprintf("VAL%d", i), T: strT}}, Nil{})
			}
			return ok1(ci.St, Nil{}, ci.In.newErr(ci.St, fmt.Sprintf("err:ti%d", i)))
		}
		s.run(k.tisTr, tis, inV, Sym{ID: "@type@", T: strT}, mod, Const{cStr("JSON").(Const).V, k.tisTr.Params[4].Type()})
		s.each(rule, con, func(o Outcome) string {
			for _, e := range events(o.St, "bad") {
				b, _ := asStr(e.Args[0])
				return b
			}
			failed := nilState(o.St, o.Ret[1])
			order := []int{}
			for i := range vs {
				if method == "last" {
					order = append(order, len(vs)-1-i)
				} else {
					order = append(order, i)
				}
			}
			var present []int
			wantErr := false
			for _, i := range order {
				if vs[i] == 2 {
					wantErr = true
					break
				}
				if vs[i] == 1 {
					present = append(present, i)
					if method != "concatenate" {
						break
					}
				}
			}
			if wantErr {
				if failed != 2 {
					return "the error of an instruction is not returned"
				}
				return ""
			}
			if failed != 1 {
				return "an error is returned: " + describe(o.Ret[1])
			}
			got := s.in.resolve(o.St, o.Ret[0])
			if len(present) == 0 {
				if nilState(o.St, got) != 1 {
					return "the value is " + describe(got) + " though there is none"
				}
				return ""
			}
			d, ok := dynOf(o.St, got)
			if !ok || d == nil || tname(d) != "string" {
				return "the value is " + describe(got)
			}
			v := unwrap(s.in, o.St, got)
			// what is known to be empty
			empty := func(id string) int {
				f := o.St.Facts[id]
				switch {
				case f == nil:
					return 0
				case f.LenMax == 0, f.Eq != nil && f.Eq.Key() == "\"\"":
					return 1
				case f.LenMin > 0, f.Ne["\"\""], f.Eq != nil:
					return -1
				}
				return 0
			}
			// drop parts known to be empty
			var parts []string
			for _, p := range catParts(v) {
				if e := s.in.resolve(o.St, p); e.Key() == "\"\"" || empty(p.Key()) == 1 {
					continue
				}
				parts = append(parts, p.Key())
			}
			if method != "concatenate" || len(present) == 1 {
				want := fmt.Sprintf("VAL%d", present[0])
				if empty(want) == 1 && len(parts) == 0 || len(parts) == 1 && parts[0] == want {
					return ""
				}
				return "the value is " + describe(v) + " rather than that of instruction " + fmt.Sprint(present[0])
			}
			// the order of the values, and delimiters between values which are not empty only
			var want []string
			before := 0 // is what comes before empty: 1 yes -1 no 0 unknown
			before = 1
			for _, i := range present {
				id := fmt.Sprintf("VAL%d", i)
				e := empty(id)
				if e == 1 {
					continue
				}
				de := empty("@delim@")
				if before == -1 && e == -1 && de != 1 {
					want = append(want, "@delim@")
				} else if before != 1 && e != 1 && de != 1 {
					want = append(want, "@delim@?")
				}
				want = append(want, id)
				if e == -1 {
					before = -1
				} else if before == 1 {
					before = 0
				}
			}
			i := 0
			for _, w := range want {
				switch {
				case i < len(parts) && parts[i] == w:
					i++
				case w == "@delim@?":
					if i < len(parts) && parts[i] == "@delim@" {
						i++
					}
				default:
					return fmt.Sprintf("the value is %s rather than %s", describe(v), strings.Join(want, "+"))
				}
			}
			if i != len(parts) {
				return fmt.Sprintf("the value is %s rather than %s", describe(v), strings.Join(want, "+"))
			}
			return ""
		})
	})
}

// itemStates are the states of the items of a list: all combinations for short ones, and the lengths at which the code
// itself could make a difference.
func itemStates(c *Ctx) [][]int {
	var out [][]int
	for n := 0; n <= 3; n++ {
		total := 1
		for i := 0; i < n; i++ {
			total *= 3
		}
		for combo := 0; combo < total; combo++ {
			vs := make([]int, n)
			for i, x := 0, combo; i < n; i++ {
				vs[i] = x % 3
				x /= 3
			}
			out = append(out, vs)
		}
	}
	for _, n := range cutoffs(c, "transform", 3, 1200) {
		for last := 0; last < 3; last++ {
			if n > 40 && last != 1 {
				continue
			}
			vs := make([]int, n)
			for i := range vs {
				vs[i] = 1
			}
			vs[n-1] = last
			out = append(out, vs)
		}
	}
	return out
}

// cutoffs gives the sizes above min at which the behaviour of a package could change: those next to a number something is
// compared with, divided by or cut at. Below and between them a loop treats all sizes the same.
func cutoffs(c *Ctx, pkg string, min, max int) []int {
	found := map[int]bool{12: true}
	add := func(v ssa.Value) {
		k, ok := v.(*ssa.Const)
		if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
			return
		}
		n, exact := constant.Int64Val(k.Value)
		if !exact || n > int64(max) || n < int64(min) {
			return
		}
		found[int(n)+2] = true
		if n < 40 {
			found[int(n)], found[int(n)+1] = true, true
		}
	}
	for _, f := range pkgFuncs(c.P, pkg) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.BinOp:
					switch x.Op {
					case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ, token.REM, token.QUO:
						add(x.X)
						add(x.Y)
					}
				case *ssa.Slice:
					for _, v := range []ssa.Value{x.Low, x.High, x.Max} {
						if v != nil {
							add(v)
						}
					}
				case *ssa.Call:
					// min(n, 100)
					if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "min" || b.Name() == "max") {
						for _, a := range x.Call.Args {
							add(a)
						}
					}
				}
			}
		}
	}
	var out []int
	for n := range found {
		if n > min {
			out = append(out, n)
		}
	}
	sort.Ints(out)
	c.Note("sizes", fmt.Sprint(out))
	return out
}

func runT11(c *Ctx) {
	runT11relative(c)
	const rule = "items of an array"
	c.Guard(rule, "array", func() {
		k := newKit(c)
		tf := c.Anchor(c.P.Method("transform", "arrayTransformer", "transform"), "arrayTransformer.transform")
		nodeT := types.NewPointer(c.P.ExtType("github.com/antchfx/xmlquery", "Node"))
		states := itemStates(c)
		for _, format := range []string{"JSON", "XML"} {
			for _, nested := range []bool{false, true} {
				for _, vs := range states {
					if (nested || format == "XML") && len(vs) > 40 {
						continue
					}
					{
						con := fmt.Sprintf("%s nested %v:", format, nested)
						if len(vs) <= 3 {
							for _, v := range vs {
								con += [...]string{" absent", " present", " failing"}[v]
							}
						} else {
							con += fmt.Sprintf(" %d items, the last is %s", len(vs), [...]string{"absent", "present", "failing"}[vs[len(vs)-1]])
						}
						format, nested, n := format, nested, len(vs)
						c.Guard(rule, con, func() {
							s := c.Scen()
							s.in.NUnknown = 12
							s.in.MaxCons = 5000
							s.in.MaxVer = 6 + 2*n
							sl := types.NewSlice(anyT)
							base := "$.list"
							path := "$.list"
							if nested {
								base, path = "$.outer[*].list", "$.outer[7].list"
							}
							f := map[string]Val{"format": formatConst(c, k.array, format), "jsonPath": cStr(base), "defaultValue": Nil{mustField(k.array, "defaultValue")}}
							f["childTransformer"] = s.nn("child", k.iface)
							var mod Val = Nil{k.modifier}
							if nested {
								mod = Intr{Name: "mod", T: k.modifier}
							}
							var inV Val
							if format == "JSON" {
								mt := types.NewMap(types.Typ[types.String], anyT)
								inV = Iface{mt, s.dict("input", mt)}
								f["transforms"] = Nil{mustField(k.array, "transforms")}
							} else {
								inV = Iface{nodeT, s.nn("@node@", nodeT)}
								f["transforms"] = s.object("tis", k.tis, nil)
							}
							s.in.Hook = func(ci *CallInfo) []CallOut {
								switch {
								case ci.Name == "intr:mod":
									p, ok := asStr(ci.In.resolve(ci.St, ci.Args[0]))
									if !ok {
										return nil
									}
									return ok1(ci.St, cStr(strings.Replace(p, "$.outer[*]", "$.outer[7]", 1)))
								case ci.Fn == k.tisTr:
									ns := types.NewSlice(nodeT)
									var items []Val
									for i := 0; i < n; i++ {
										items = append(items, ci.St.nonNil(Sym{ID: fmt.Sprintf("node%d", i), T: nodeT}))
									}
									sc := &Scenario{c: c, in: s.in, st: ci.St}
									return ok1(ci.St, Iface{ns, sc.slice("nodes", ns, items...)}, Nil{})
								case strings.HasSuffix(ci.Name, "jsonpath.Get"):
									if p, ok := asStr(s.in.resolve(ci.St, ci.Args[0])); ok && p == path {
										var items []Val
										for i := 0; i < n; i++ {
											items = append(items, Iface{types.Typ[types.String], Sym{ID: fmt.Sprintf("item%d", i), T: types.Typ[types.String]}})
										}
										sc := &Scenario{c: c, in: s.in, st: ci.St}
										return ok1(ci.St, Iface{sl, sc.slice("items", sl, items...)}, Nil{})
									}
								case ci.Recv != nil && ci.Recv.Key() == "child" && ci.Method.Name() == "transform":
									// which item is it: the modifier tells
									outs := ci.callback(ci.St, ci.Args[1], []Val{cStr(base + "[*].leaf")})
									var res []CallOut
									for _, o := range outs {
										p, _ := asStr(s.in.resolve(o.St, o.Ret[0]))
										i := -1
										for j := 0; j < n; j++ {
											if p == fmt.Sprintf("%s[%d].leaf", path, j) {
												i = j
											}
										}
										o.St.event(Event{Kind: "item", Args: []Val{cInt(i), cStr(p)}})
										if i < 0 {
											res = append(res, CallOut{Ret: []Val{Nil{}, Nil{}}, St: o.St})
											continue
										}
										want := inV.Key()
										if format == "XML" {
											want = Iface{nodeT, Sym{ID: fmt.Sprintf("node%d", i), T: nodeT}}.Key()
										}
										if ident(o.St, s.in, ci.Args[0]) != want {
											o.St.event(Event{Kind: "bad", Args: []Val{cStr("the item transformer does not get the right input")}})
										}
										switch vs[i] {
										case 0:
											res = append(res, CallOut{Ret: []Val{Nil{}, Nil{}}, St: o.St})
										case 1:
											res = append(res, CallOut{Ret: []Val{Iface{types.Typ[types.String], Sym{ID: fmt.Sprintf("VAL%d", i), T: types.Typ[types.String]}}, Nil{}}, St: o.St})
										default:
											res = append(res, CallOut{Ret: []Val{Nil{}, ci.In.newErr(o.St, "err:item")}, St: o.St})
										}
									}
									return res
								}
								return nil
							}
							s.run(tf, s.object("tr", k.array, f), inV, mod)
							s.each(rule, con, func(o Outcome) string {
								for _, e := range events(o.St, "bad") {
									b, _ := asStr(e.Args[0])
									return b
								}
								fails := -1
								var want []string
								for i, v := range vs {
									if v == 2 {
										fails = i
										break
									}
									if v == 1 {
										want = append(want, fmt.Sprintf("VAL%d", i))
									}
								}
								failed := nilState(o.St, o.Ret[1])
								if fails >= 0 {
									if failed != 2 {
										return "the error of an item is not returned"
									}
									return ""
								}
								if failed != 1 {
									return "an error is returned: " + describe(o.Ret[1])
								}
								evs := events(o.St, "item")
								if len(evs) != n {
									return fmt.Sprintf("%d items are transformed", len(evs))
								}
								for i, e := range evs {
									if j, _ := asInt(e.Args[0]); j != i {
										p, _ := asStr(e.Args[1])
										return fmt.Sprintf("the path of a field in item %d is %q", i, p)
									}
								}
								if len(want) == 0 {
									if !k.isAbsent(s, o.St, o.Ret[0]) {
										return "there are items: " + describe(o.Ret[0])
									}
									return ""
								}
								es, ok := s.in.elems(o.St, unwrap(s.in, o.St, s.in.resolve(o.St, o.Ret[0])))
								if !ok || len(es) != len(want) {
									return "the items are " + s.in.content(o.St, o.Ret[0], 4)
								}
								for i := range es {
									if unwrap(s.in, o.St, es[i]).Key() != want[i] {
										return "the items are " + s.in.content(o.St, o.Ret[0], 4)
									}
								}
								return ""
							})
						})
					}
				}
			}
		}
	})
	c.Need(rule, 150)
}
