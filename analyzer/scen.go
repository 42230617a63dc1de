package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Scenario is one abstract run of the interpreter.
type Scenario struct {
	c    *Ctx
	in   *Interp
	st   *State
	outs []Outcome
}

func (c *Ctx) Scen() *Scenario {
	return &Scenario{c: c, in: NewInterp(c.P), st: newState()}
}

func (s *Scenario) run(f *ssa.Function, args ...Val) []Outcome {
	s.outs = s.in.Run(f, args, nil, s.st)
	s.c.Merge(s.in)
	s.c.Paths += len(s.outs)
	return s.outs
}

// runBound runs a closure with known captured values.
func (s *Scenario) runBound(f *ssa.Function, bind []Val, args ...Val) []Outcome {
	s.outs = s.in.Run(f, args, bind, s.st)
	s.c.Merge(s.in)
	s.c.Paths += len(s.outs)
	return s.outs
}

func sym(id string, t types.Type) Sym { return Sym{ID: id, T: t} }

// nn is a value which is not nil.
func (s *Scenario) nn(id string, t types.Type) Sym { return s.st.nonNil(Sym{ID: id, T: t}) }

// object makes an object of a struct type with some known fields, the others are unknown.
func (s *Scenario) object(id string, t types.Type, f map[string]Val) Val {
	str, ok := t.Underlying().(*types.Struct)
	if !ok {
		undecided("%s is no struct", typeKey(t))
	}
	n := Struct{T: t, F: make([]Val, str.NumFields())}
	used := 0
	for i := range n.F {
		fl := str.Field(i)
		if v, ok := f[fl.Name()]; ok {
			n.F[i] = v
			used++
		} else {
			n.F[i] = Sym{ID: id + "." + fl.Name(), T: fl.Type()}
		}
	}
	if used != len(f) {
		undecided("%s does not have all the fields %v", typeKey(t), f)
	}
	oid := "o:scen:" + id
	s.st.Heap[oid] = &Obj{V: n, T: t}
	return Ptr{Obj: oid}
}

// zeroObject is an object with the zero value.
func (s *Scenario) zeroObject(id string, t types.Type) Val {
	oid := "o:scen:" + id
	s.st.Heap[oid] = &Obj{V: zero(t), T: t}
	return Ptr{Obj: oid}
}

func (s *Scenario) slice(id string, t types.Type, vs ...Val) Val {
	q := Seq{}
	for _, v := range vs {
		q.Parts = append(q.Parts, Part{V: v})
	}
	oid := "o:scen:" + id
	s.st.Heap[oid] = &Obj{V: q, T: t}
	return Slice{Obj: oid, Lo: 0, Hi: len(vs)}
}

// dict is a map with exactly the given entries.
func (s *Scenario) dict(id string, t types.Type, kv ...Val) Val {
	m := MapC{Ents: map[string]MapEnt{}, Closed: true, T: t.Underlying().(*types.Map)}
	for i := 0; i+1 < len(kv); i += 2 {
		m.Ents[kv[i].Key()] = MapEnt{K: kv[i], V: kv[i+1]}
	}
	oid := "o:scen:" + id
	s.st.Heap[oid] = &Obj{V: m, T: t}
	return MapV{oid}
}

// nilState tells what is known: 1 nil, 2 not nil, 0 unknown.
func nilState(st *State, v Val) int {
	switch x := v.(type) {
	case Nil:
		return 1
	case Sym:
		if f := st.fact(x); f != nil {
			return int(f.Nil)
		}
		return 0
	case Iface, Const, Ptr, Struct, MapV, Func:
		return 2
	case Slice:
		return 2
	}
	return 0
}

// field reads a field of an object in the final state.
func (s *Scenario) field(st *State, ptr Val, name string) Val {
	p, ok := ptr.(Ptr)
	if !ok {
		if q, ok2 := s.in.deref(st, ptr, nil); ok2 {
			p = q
		} else {
			undecided("no object %s", ptr.Key())
		}
	}
	v, _ := s.in.load(st, p, nil)
	return s.fieldV(v, name)
}

func (s *Scenario) fieldV(v Val, name string) Val {
	var t types.Type
	switch x := v.(type) {
	case Struct:
		t = x.T
	case Sym:
		t = x.T
	}
	if t == nil {
		undecided("no struct %s", v.Key())
	}
	str, ok := t.Underlying().(*types.Struct)
	if !ok {
		undecided("no struct %s", v.Key())
	}
	for i := 0; i < str.NumFields(); i++ {
		if str.Field(i).Name() == name {
			return s.in.project(v, fmt.Sprintf("f%d", i), str.Field(i).Type())
		}
	}
	undecided("no field %s in %s", name, typeKey(t))
	return nil
}

// trace renders how an outcome is reached.
func traceOf(o Outcome) []string {
	t := o.St.Trace
	if len(t) > 25 {
		t = t[len(t)-25:]
	}
	return t
}

// outcomes checks every outcome of a run.
func (s *Scenario) each(rule, construct string, f func(o Outcome) string) {
	if len(s.outs) == 0 {
		s.c.Bad(rule, construct, "-", "the function has no way to return")
		return
	}
	for _, o := range s.outs {
		why := ""
		if o.Panic != "" {
			why = "panics: " + o.Panic
		} else {
			why = f(o)
		}
		if why == "" {
			s.c.Ok(rule, construct)
		} else {
			s.c.Bad(rule, construct, s.c.P.Pos(o.Pos), why, traceOf(o)...)
		}
	}
}

// events of a kind.
func events(st *State, kind string) []Event {
	var out []Event
	for _, e := range st.Events {
		if e.Kind == kind {
			out = append(out, e)
		}
	}
	return out
}

func ident(st *State, in *Interp, v Val) string { return in.resolve(st, v).Key() }

func describe(vs ...Val) string {
	s := keys(vs)
	s = strings.ReplaceAll(s, "github.com/GannettDigital/jstransform/", "")
	if len(s) > 300 {
		s = s[:300] + "…"
	}
	return s
}
