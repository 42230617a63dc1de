package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// An inclusion based points-to analysis of the repository's code, field sensitive, with one context per phase of the
// life of a schema or transformer. It finds which objects each instruction can write.

type pobj struct {
	id    int
	phase int
	typ   types.Type // for a box the dynamic type
	kind  string     // alloc, box, func, closure, lib, global, arg
	desc  string
	fn    *ssa.Function
	in    *ssa.Function // the function which makes it
}

type ploc struct {
	o    *pobj
	path string
}

type pset map[ploc]bool

// place is where a value is kept: the SSA value v in a phase, or a part of an object.
type place struct {
	phase int
	v     ssa.Value
	fn    *ssa.Function // the results of fn
	o     *pobj
	path  string
}

func (p place) add(s string) place { p.path += s; return p }

type pwrite struct {
	phase int
	fn    *ssa.Function
	instr ssa.Instruction
	loc   ploc
	how   string
}

type fnPhase struct {
	f     *ssa.Function
	phase int
}

type PTA struct {
	P       *Prog
	sets    map[place]pset
	objs    map[string]*pobj
	work    []fnPhase
	inWork  map[fnPhase]bool
	changed bool
	writes  map[string]pwrite
	gos     map[ssa.Instruction]fnPhase
	excl    map[exclKey][]types.Type
	leafC   map[types.Type][]leaf
	filled  map[string]bool
	byObj   map[*pobj][]place
	curFn   *ssa.Function
}

type exclKey struct {
	v ssa.Value
	b *ssa.BasicBlock
}

type leaf struct {
	path string
	typ  types.Type
}

func NewPTA(p *Prog) *PTA {
	return &PTA{P: p, sets: map[place]pset{}, objs: map[string]*pobj{}, inWork: map[fnPhase]bool{}, writes: map[string]pwrite{}, gos: map[ssa.Instruction]fnPhase{}, excl: map[exclKey][]types.Type{}, leafC: map[types.Type][]leaf{}, filled: map[string]bool{}, byObj: map[*pobj][]place{}}
}

const maxPath = 48

func clipPath(p string) string {
	if len(p) > maxPath {
		return p[:maxPath]
	}
	return p
}

func (a *PTA) obj(key string, phase int, kind string, t types.Type, desc string) *pobj {
	k := fmt.Sprintf("%d|%s", phase, key)
	o := a.objs[k]
	if o == nil {
		o = &pobj{id: len(a.objs), phase: phase, typ: t, kind: kind, desc: desc}
		if phase != 0 {
			o.in = a.curFn
		}
		a.objs[k] = o
		a.changed = true
	}
	return o
}

func (a *PTA) addLoc(p place, l ploc) {
	p.path = clipPath(p.path)
	l.path = clipPath(l.path)
	s := a.sets[p]
	if s == nil {
		s = pset{}
		a.sets[p] = s
		if p.o != nil {
			a.byObj[p.o] = append(a.byObj[p.o], p)
		}
	}
	if !s[l] {
		s[l] = true
		a.changed = true
	}
}

func (a *PTA) get(p place) pset {
	p.path = clipPath(p.path)
	return a.sets[p]
}

// leaves lists the parts of a type which can refer to objects.
func (a *PTA) leaves(t types.Type) []leaf {
	if l, ok := a.leafC[t]; ok {
		return l
	}
	var out []leaf
	var rec func(t types.Type, path string, depth int)
	rec = func(t types.Type, path string, depth int) {
		if depth > 6 {
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				rec(u.Field(i).Type(), path+fmt.Sprintf(".%d", i), depth+1)
			}
		case *types.Array:
			rec(u.Elem(), path+"[]", depth+1)
		case *types.Tuple:
			for i := 0; i < u.Len(); i++ {
				rec(u.At(i).Type(), path+fmt.Sprintf("#%d", i), depth)
			}
		case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
			out = append(out, leaf{path, t})
		case *types.Basic:
			if u.Kind() == types.UnsafePointer {
				out = append(out, leaf{path, t})
			}
		}
	}
	if tp, ok := t.(*types.Tuple); ok {
		for i := 0; i < tp.Len(); i++ {
			rec(tp.At(i).Type(), fmt.Sprintf("#%d", i), 0)
		}
	} else {
		rec(t, "", 0)
	}
	a.leafC[t] = out
	return out
}

// flow copies what a value of type t refers to from one place to another, leaving out boxes of the types in excl.
func (a *PTA) flow(from, to place, t types.Type, excl ...types.Type) {
	for _, lf := range a.leaves(t) {
		src := a.get(from.add(lf.path))
		if len(src) == 0 {
			continue
		}
		for l := range src {
			if len(excl) > 0 && l.o.kind == "box" && inTypes(l.o.typ, excl) {
				continue
			}
			a.addLoc(to.add(lf.path), l)
		}
	}
}

func inTypes(t types.Type, ts []types.Type) bool {
	for _, x := range ts {
		if types.IsInterface(x) {
			if types.Implements(t, x.Underlying().(*types.Interface)) {
				return true
			}
			continue
		}
		if types.Identical(t, x) {
			return true
		}
	}
	return false
}

// at is the place of an operand. Functions, globals and constants get their objects here.
func (a *PTA) at(phase int, v ssa.Value) place {
	switch x := v.(type) {
	case *ssa.Global:
		pl := place{v: v}
		a.addLoc(pl, ploc{a.obj("global "+x.String(), 0, "global", x.Type(), "the package variable "+x.Name()), ""})
		return pl
	case *ssa.Function:
		pl := place{v: v}
		o := a.obj("func "+x.String(), 0, "func", x.Type(), FnName(x))
		o.fn = x
		a.addLoc(pl, ploc{o, ""})
		return pl
	}
	return place{phase: phase, v: v}
}

// excluded are the dynamic types an interface value can not have in block b, because b is only reached after type
// tests for them have failed.
func (a *PTA) excluded(v ssa.Value, b *ssa.BasicBlock) []types.Type {
	k := exclKey{v, b}
	if r, ok := a.excl[k]; ok {
		return r
	}
	var out []types.Type
	if types.IsInterface(v.Type()) {
		for d := b; d != nil; d = d.Idom() {
			if len(d.Preds) == 1 {
				if t := failedTest(v, d.Preds[0], d); t != nil {
					out = append(out, t)
				}
			}
		}
	}
	a.excl[k] = out
	return out
}

// failedTest is the type which v turned out not to have when control goes from p to b.
func failedTest(v ssa.Value, p, b *ssa.BasicBlock) types.Type {
	if len(p.Instrs) == 0 {
		return nil
	}
	iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
	if !ok || p.Succs[1] != b || p.Succs[0] == b {
		return nil
	}
	ex, ok := iff.Cond.(*ssa.Extract)
	if !ok || ex.Index != 1 {
		return nil
	}
	ta, ok := ex.Tuple.(*ssa.TypeAssert)
	if !ok || ta.X != v {
		return nil
	}
	return ta.AssertedType
}

func (a *PTA) site(phase int, v ssa.Value, kind string, t types.Type) *pobj {
	f := v.Parent()
	o := a.obj(fmt.Sprintf("%s %p", f.String(), v), phase, kind, t, fmt.Sprintf("a value of type %s made by %s at %s", shortType(t), FnName(f), a.P.Pos(v.Pos())))
	o.in = f
	return o
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (a *PTA) write(phase int, in ssa.Instruction, l ploc, how string) {
	k := fmt.Sprintf("%d|%p|%d|%s", phase, in, l.o.id, l.path)
	if _, ok := a.writes[k]; !ok {
		a.writes[k] = pwrite{phase, in.Parent(), in, l, how}
	}
}

// Enter makes f part of the code run in a phase.
func (a *PTA) Enter(f *ssa.Function, phase int) {
	k := fnPhase{f, phase}
	if a.inWork[k] {
		return
	}
	a.inWork[k] = true
	a.work = append(a.work, k)
	a.changed = true
}

// Solve runs to the fixed point.
func (a *PTA) Solve() {
	for n := 0; ; n++ {
		if n > 200 {
			undecided("the points-to analysis does not settle")
		}
		a.changed = false
		for i := 0; i < len(a.work); i++ {
			a.fn(a.work[i])
		}
		if !a.changed {
			return
		}
	}
}

func (a *PTA) fn(k fnPhase) {
	for _, b := range k.f.Blocks {
		for _, in := range b.Instrs {
			a.instr(k, b, in)
		}
	}
}

func (a *PTA) instr(k fnPhase, b *ssa.BasicBlock, in ssa.Instruction) {
	ph := k.phase
	at := func(v ssa.Value) place { return a.at(ph, v) }
	var self place
	if v, ok := in.(ssa.Value); ok {
		self = place{phase: ph, v: v}
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		a.addLoc(self, ploc{a.site(ph, x, "alloc", x.Type().Underlying().(*types.Pointer).Elem()), ""})
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		v := x.(ssa.Value)
		a.addLoc(self, ploc{a.site(ph, v, "alloc", v.Type()), ""})
	case *ssa.MakeClosure:
		o := a.site(ph, x, "closure", x.Type())
		f := x.Fn.(*ssa.Function)
		o.fn = f
		a.addLoc(self, ploc{o, ""})
		for i, bind := range x.Bindings {
			a.flow(at(bind), place{phase: ph, v: f.FreeVars[i]}, bind.Type())
		}
	case *ssa.MakeInterface:
		o := a.site(ph, x, "box", x.X.Type())
		a.addLoc(self, ploc{o, ""})
		a.flow(at(x.X), place{o: o}, x.X.Type())
	case *ssa.FieldAddr:
		for l := range a.get(at(x.X)) {
			a.addLoc(self, ploc{l.o, l.path + fmt.Sprintf(".%d", x.Field)})
		}
	case *ssa.IndexAddr:
		for l := range a.get(at(x.X)) {
			a.addLoc(self, ploc{l.o, l.path + "[]"})
		}
	case *ssa.Field:
		a.flow(at(x.X).add(fmt.Sprintf(".%d", x.Field)), self, x.Type())
	case *ssa.Index:
		a.flow(at(x.X).add("[]"), self, x.Type())
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			return
		}
		dst, t := self, x.Type()
		if x.CommaOk {
			dst, t = self.add("#0"), x.Type().(*types.Tuple).At(0).Type()
		}
		for l := range a.get(at(x.X)) {
			a.flow(place{o: l.o, path: l.path + "{v}"}, dst, t)
		}
	case *ssa.MapUpdate:
		for l := range a.get(at(x.Map)) {
			a.write(ph, in, ploc{l.o, l.path + "{v}"}, "sets a map entry")
			a.flow(at(x.Value), place{o: l.o, path: l.path + "{v}"}, x.Value.Type(), a.excluded(x.Value, b)...)
			a.flow(at(x.Key), place{o: l.o, path: l.path + "{k}"}, x.Key.Type())
		}
	case *ssa.Range:
		for l := range a.get(at(x.X)) {
			a.addLoc(self, l)
		}
	case *ssa.Next:
		if x.IsString {
			return
		}
		tp := x.Type().(*types.Tuple)
		for l := range a.get(at(x.Iter)) {
			if tp.At(1).Type() != types.Typ[types.Invalid] {
				a.flow(place{o: l.o, path: l.path + "{k}"}, self.add("#1"), tp.At(1).Type())
			}
			if tp.At(2).Type() != types.Typ[types.Invalid] {
				a.flow(place{o: l.o, path: l.path + "{v}"}, self.add("#2"), tp.At(2).Type())
			}
		}
	case *ssa.Store:
		for l := range a.get(at(x.Addr)) {
			a.write(ph, in, l, "assigns")
			a.flow(at(x.Val), place{o: l.o, path: l.path}, x.Val.Type(), a.excluded(x.Val, b)...)
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			for l := range a.get(at(x.X)) {
				a.flow(place{o: l.o, path: l.path}, self, x.Type())
			}
		case token.ARROW:
			dst, t := self, x.Type()
			if x.CommaOk {
				dst, t = self.add("#0"), x.Type().(*types.Tuple).At(0).Type()
			}
			for l := range a.get(at(x.X)) {
				a.flow(place{o: l.o, path: l.path + "<-"}, dst, t)
			}
		}
	case *ssa.Send:
		for l := range a.get(at(x.Chan)) {
			a.write(ph, in, ploc{l.o, l.path + "<-"}, "sends")
			a.flow(at(x.X), place{o: l.o, path: l.path + "<-"}, x.X.Type())
		}
	case *ssa.Phi:
		for i, e := range x.Edges {
			p := b.Preds[i]
			ex := a.excluded(e, p)
			if t := failedTest(e, p, b); t != nil {
				ex = append(append([]types.Type{}, ex...), t)
			}
			a.flow(at(e), self, x.Type(), ex...)
		}
	case *ssa.ChangeType:
		a.flow(at(x.X), self, x.Type())
	case *ssa.ChangeInterface:
		a.flow(at(x.X), self, x.Type(), a.excluded(x.X, b)...)
	case *ssa.Convert:
		if len(a.leaves(x.Type())) == 0 {
			return
		}
		if len(a.leaves(x.X.Type())) == 0 {
			a.addLoc(self, ploc{a.site(ph, x, "alloc", x.Type()), ""})
			return
		}
		a.flow(at(x.X), self, x.Type())
	case *ssa.SliceToArrayPointer:
		a.flow(at(x.X), self, x.Type())
	case *ssa.TypeAssert:
		dst := self
		if x.CommaOk {
			dst = self.add("#0")
		}
		for l := range a.get(at(x.X)) {
			if l.o.kind != "box" || !inTypes(l.o.typ, []types.Type{x.AssertedType}) || inTypes(l.o.typ, a.excluded(x.X, b)) {
				continue
			}
			if types.IsInterface(x.AssertedType) {
				a.addLoc(dst, l)
			} else {
				a.flow(place{o: l.o, path: l.path}, dst, x.AssertedType)
			}
		}
	case *ssa.Extract:
		a.flow(at(x.Tuple).add(fmt.Sprintf("#%d", x.Index)), self, x.Type())
	case *ssa.Slice:
		for l := range a.get(at(x.X)) {
			a.addLoc(self, l)
		}
	case *ssa.Return:
		for i, r := range x.Results {
			a.flow(at(r), place{phase: ph, fn: k.f, path: fmt.Sprintf("#%d", i)}, r.Type(), a.excluded(r, b)...)
		}
	case *ssa.Call:
		a.call(k, b, x, x.Common(), self, x.Type())
	case *ssa.Defer:
		a.call(k, b, x, x.Common(), place{}, nil)
	case *ssa.Go:
		a.gos[x] = k
		a.call(k, b, x, x.Common(), place{}, nil)
	}
}

// resultPath is the path of result i of a call with n results: calls with one result have no tuple.
func resultPath(n, i int) string {
	if n == 1 {
		return ""
	}
	return fmt.Sprintf("#%d", i)
}

func (a *PTA) call(k fnPhase, b *ssa.BasicBlock, in ssa.Instruction, c *ssa.CallCommon, self place, t types.Type) {
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		a.builtin(k, in, bi.Name(), c, self)
		return
	}
	arg := func(i int) (place, types.Type) {
		v := c.Args[i]
		return a.at(k.phase, v), v.Type()
	}
	if c.IsInvoke() {
		for l := range a.get(a.at(k.phase, c.Value)) {
			if l.o.kind != "box" || inTypes(l.o.typ, a.excluded(c.Value, b)) {
				continue
			}
			f := a.P.SSA.LookupMethod(l.o.typ, c.Method.Pkg(), c.Method.Name())
			if f == nil {
				continue
			}
			recv := place{o: l.o, path: l.path}
			if f.Synthetic != "" && a.wrapped(f) != nil {
				// a wrapper for a value receiver or an embedded field: go to the method itself
				g := a.wrapped(f)
				if a.P.InRepo(g) {
					pl := recv
					if _, ok := l.o.typ.Underlying().(*types.Pointer); ok {
						if _, ok := g.Signature.Recv().Type().Underlying().(*types.Pointer); !ok {
							for m := range a.get(recv) {
								a.bindCall(k, in, g, append([]place{{o: m.o, path: m.path}}, a.places(k.phase, c.Args)...), self, nil)
							}
							continue
						}
					}
					a.bindCall(k, in, g, append([]place{pl}, a.places(k.phase, c.Args)...), self, nil)
					continue
				}
			}
			a.dispatch(k, b, in, f, append([]place{recv}, a.places(k.phase, c.Args)...), append([]types.Type{l.o.typ}, argTypes(c.Args)...), self, t, c)
		}
		return
	}
	if f := c.StaticCallee(); f != nil {
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			_ = mc // bindings flow where the closure is made
		}
		a.dispatch(k, b, in, f, a.places(k.phase, c.Args), argTypes(c.Args), self, t, c)
		return
	}
	for l := range a.get(a.at(k.phase, c.Value)) {
		if l.o.fn != nil {
			a.dispatch(k, b, in, l.o.fn, a.places(k.phase, c.Args), argTypes(c.Args), self, t, c)
		}
	}
	_ = arg
}

func (a *PTA) wrapped(f *ssa.Function) *ssa.Function {
	if f.Object() == nil {
		return nil
	}
	if fo, ok := f.Object().(*types.Func); ok {
		return a.P.SSA.FuncValue(fo)
	}
	return nil
}

func argTypes(args []ssa.Value) []types.Type {
	var out []types.Type
	for _, v := range args {
		out = append(out, v.Type())
	}
	return out
}

func (a *PTA) places(phase int, args []ssa.Value) []place {
	var out []place
	for _, v := range args {
		out = append(out, a.at(phase, v))
	}
	return out
}

// dispatch calls f, whose body is looked into when it belongs to the repository.
func (a *PTA) dispatch(k fnPhase, b *ssa.BasicBlock, in ssa.Instruction, f *ssa.Function, args []place, ts []types.Type, self place, t types.Type, c *ssa.CallCommon) {
	if a.P.InRepo(f) && f.Blocks != nil {
		a.bindCall(k, in, f, args, self, b)
		return
	}
	if f.Synthetic != "" { // bound methods, thunks and wrappers have no package
		if g := a.wrapped(f); g != nil && a.P.InRepo(g) {
			if len(f.FreeVars) == 1 { // x.method used as a value
				a.bindCall(k, in, g, append([]place{{phase: k.phase, v: f.FreeVars[0]}}, args...), self, b)
				return
			}
			a.bindCall(k, in, g, args, self, b)
			return
		}
	}
	a.library(k, in, f, args, ts, self, t)
}

func (a *PTA) bindCall(k fnPhase, in ssa.Instruction, f *ssa.Function, args []place, self place, b *ssa.BasicBlock) {
	a.Enter(f, k.phase)
	for i, p := range f.Params {
		if i < len(args) {
			var ex []types.Type
			if b != nil && args[i].v != nil {
				ex = a.excluded(args[i].v, b)
			}
			a.flow(args[i], place{phase: k.phase, v: p}, p.Type(), ex...)
		}
	}
	if self.v == nil && self.o == nil {
		return
	}
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		a.flow(place{phase: k.phase, fn: f, path: fmt.Sprintf("#%d", i)}, self.add(resultPath(res.Len(), i)), res.At(i).Type())
	}
}

func (a *PTA) builtin(k fnPhase, in ssa.Instruction, name string, c *ssa.CallCommon, self place) {
	ph := k.phase
	switch name {
	case "append":
		st, ok := c.Args[0].Type().Underlying().(*types.Slice)
		if !ok {
			return
		}
		v := in.(ssa.Value)
		o := a.site(ph, v, "alloc", v.Type())
		a.addLoc(self, ploc{o, ""})
		inPlace := true
		if s, ok := c.Args[0].(*ssa.Slice); ok && s.Max != nil && s.High != nil && (s.Max == s.High || sameConst(s.Max, s.High)) {
			inPlace = false
		}
		for l := range a.get(a.at(ph, c.Args[0])) {
			if inPlace {
				a.addLoc(self, l)
				a.write(ph, in, ploc{l.o, l.path + "[]"}, "appends")
			} else {
				a.flow(place{o: l.o, path: l.path + "[]"}, place{o: o, path: "[]"}, st.Elem())
			}
		}
		if len(c.Args) > 1 {
			if _, ok := c.Args[1].Type().Underlying().(*types.Slice); ok {
				for s := range a.get(a.at(ph, c.Args[1])) {
					for l := range a.get(self) {
						a.flow(place{o: s.o, path: s.path + "[]"}, place{o: l.o, path: l.path + "[]"}, st.Elem())
					}
				}
			}
		}
	case "copy":
		for l := range a.get(a.at(ph, c.Args[0])) {
			a.write(ph, in, ploc{l.o, l.path + "[]"}, "copies")
			if st, ok := c.Args[1].Type().Underlying().(*types.Slice); ok {
				for s := range a.get(a.at(ph, c.Args[1])) {
					a.flow(place{o: s.o, path: s.path + "[]"}, place{o: l.o, path: l.path + "[]"}, st.Elem())
				}
			}
		}
	case "delete":
		for l := range a.get(a.at(ph, c.Args[0])) {
			a.write(ph, in, ploc{l.o, l.path + "{v}"}, "deletes a map entry")
		}
	case "clear":
		for l := range a.get(a.at(ph, c.Args[0])) {
			a.write(ph, in, ploc{l.o, l.path + "{v}"}, "clears")
		}
	}
}

func sameConst(x, y ssa.Value) bool {
	cx, ok := x.(*ssa.Const)
	cy, ok2 := y.(*ssa.Const)
	return ok && ok2 && cx.Value != nil && cy.Value != nil && cx.Value.ExactString() == cy.Value.ExactString()
}

// fill puts what decoding JSON can leave in a place of type t.
func (a *PTA) fill(phase int, key string, pl place, t types.Type, depth int) {
	if depth > 8 {
		return
	}
	if named, ok := t.(*types.Named); ok {
		// a type with a decoder of its own is filled by it
		if m := a.decoder(types.NewPointer(named)); m != nil && a.P.InRepo(m) && pl.o != nil {
			a.Enter(m, phase)
			a.addLoc(place{phase: phase, v: m.Params[0]}, ploc{pl.o, pl.path})
			a.addLoc(place{phase: phase, v: m.Params[1]}, ploc{a.obj(key+"raw", phase, "lib", m.Params[1].Type(), "decoded bytes"), ""})
			return
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Exported() {
				a.fill(phase, key, pl.add(fmt.Sprintf(".%d", i)), u.Field(i).Type(), depth+1)
			}
		}
	case *types.Array:
		a.fill(phase, key, pl.add("[]"), u.Elem(), depth+1)
	case *types.Pointer:
		o := a.obj(key+"*"+t.String(), phase, "lib", u.Elem(), "a decoded "+shortType(u.Elem()))
		a.addLoc(pl, ploc{o, ""})
		a.fillOnce(phase, key, o, "", u.Elem(), depth)
	case *types.Slice:
		o := a.obj(key+"[]"+t.String(), phase, "lib", t, "a decoded "+shortType(t))
		a.addLoc(pl, ploc{o, ""})
		a.fillOnce(phase, key, o, "[]", u.Elem(), depth)
	case *types.Map:
		o := a.obj(key+"{}"+t.String(), phase, "lib", t, "a decoded "+shortType(t))
		a.addLoc(pl, ploc{o, ""})
		a.fillOnce(phase, key, o, "{v}", u.Elem(), depth)
	case *types.Interface:
		if u.NumMethods() != 0 {
			return
		}
		any := types.NewInterfaceType(nil, nil)
		for _, dt := range []types.Type{types.NewMap(types.Typ[types.String], any), types.NewSlice(any), types.Typ[types.String], types.Typ[types.Float64], types.Typ[types.Bool]} {
			box := a.obj(key+"box"+dt.String(), phase, "box", dt, "a decoded "+shortType(dt))
			a.addLoc(pl, ploc{box, ""})
			if !a.filled[key+"box"+dt.String()+fmt.Sprint(phase)] {
				a.filled[key+"box"+dt.String()+fmt.Sprint(phase)] = true
				a.fill(phase, key, place{o: box}, dt, depth)
			}
		}
	}
}

func (a *PTA) fillOnce(phase int, key string, o *pobj, path string, t types.Type, depth int) {
	k := fmt.Sprintf("%d|%s|%d|%s", phase, key, o.id, path)
	if a.filled[k] {
		return
	}
	a.filled[k] = true
	a.fill(phase, key, place{o: o, path: path}, t, depth+1)
}

func (a *PTA) decoder(t types.Type) *ssa.Function {
	sel := a.P.SSA.MethodSets.MethodSet(t).Lookup(nil, "UnmarshalJSON")
	if sel == nil {
		return nil
	}
	f := a.P.SSA.MethodValue(sel)
	if f != nil && f.Synthetic != "" {
		return nil
	}
	return f
}

// reachBoxes collects every box which can be reached from a place.
func (a *PTA) reachBoxes(pl place, t types.Type) pset {
	out := pset{}
	seen := map[*pobj]bool{}
	var q []*pobj
	for _, lf := range a.leaves(t) {
		for l := range a.get(pl.add(lf.path)) {
			if !seen[l.o] {
				seen[l.o] = true
				q = append(q, l.o)
			}
		}
	}
	for len(q) > 0 {
		o := q[0]
		q = q[1:]
		if o.kind == "box" {
			out[ploc{o, ""}] = true
		}
		for _, p := range a.byObj[o] {
			for l := range a.sets[p] {
				if !seen[l.o] {
					seen[l.o] = true
					q = append(q, l.o)
				}
			}
		}
	}
	return out
}

var readOnlyTypes = map[string]bool{
	"regexp.Regexp": true, "text/template.Template": true, "html/template.Template": true,
	"github.com/antchfx/xmlquery.Node": true, "github.com/antchfx/xpath.Expr": true,
	"github.com/GannettDigital/gojsonschema.Schema": true, "github.com/GannettDigital/gojsonschema.Result": true,
	"sync.Mutex": true, "sync.RWMutex": true, "sync.Map": true, "sync.Once": true, "sync.WaitGroup": true,
	"golang.org/x/sync/singleflight.Group": true,
	"time.Time":                            true, "time.Location": true, "strings.Replacer": true,
	"github.com/microcosm-cc/bluemonday.Policy": true,
}

var sorters = map[string]bool{
	"sort.Strings": true, "sort.Ints": true, "sort.Float64s": true, "sort.Slice": true, "sort.SliceStable": true, "sort.Sort": true, "sort.Stable": true,
	"slices.Sort": true, "slices.SortFunc": true, "slices.SortStableFunc": true, "slices.Reverse": true,
	"golang.org/x/exp/slices.Sort": true, "golang.org/x/exp/slices.SortFunc": true, "golang.org/x/exp/slices.SortStableFunc": true,
	"slices.Insert": true, "slices.Delete": true, "slices.Compact": true, "slices.Replace": true, "slices.DeleteFunc": true, "slices.CompactFunc": true,
	"math/rand.Shuffle": true,
}

// library is a call of a function of a dependency.
func (a *PTA) library(k fnPhase, in ssa.Instruction, f *ssa.Function, args []place, ts []types.Type, self place, t types.Type) {
	name := CalleeName(f)
	ph := k.phase
	key := fmt.Sprintf("lib %p", in)
	a.curFn = in.Parent()
	defer func() { a.curFn = nil }()
	res := f.Signature.Results()
	result := func(i int) place { return self.add(resultPath(res.Len(), i)) }
	noResult := self.v == nil && self.o == nil
	// functions given to the library are called by it
	for i, p := range args {
		if _, ok := ts[i].Underlying().(*types.Signature); !ok {
			continue
		}
		for l := range a.get(p) {
			g := l.o.fn
			if g == nil || !a.P.InRepo(g) || g.Blocks == nil {
				if g != nil && g.Synthetic != "" {
					if w := a.wrapped(g); w != nil && a.P.InRepo(w) && len(g.FreeVars) == 1 {
						a.bindCall(k, in, w, []place{{phase: ph, v: g.FreeVars[0]}}, place{}, nil)
					}
				}
				continue
			}
			a.Enter(g, ph)
			// bytes handed to a callback are parts of the bytes given to the function
			for _, gp := range g.Params {
				if _, ok := gp.Type().Underlying().(*types.Slice); !ok {
					continue
				}
				for j, q := range args {
					if types.Identical(ts[j].Underlying(), gp.Type().Underlying()) {
						a.flow(q, place{phase: ph, v: gp}, gp.Type())
					}
				}
			}
			if !noResult && (strings.HasPrefix(name, "(*golang.org/x/sync/singleflight.Group)") || strings.HasPrefix(name, "sync.Once")) {
				gr := g.Signature.Results()
				for r := 0; r < gr.Len() && r < res.Len(); r++ {
					if types.Identical(gr.At(r).Type(), res.At(r).Type()) {
						a.flow(place{phase: ph, fn: g, path: fmt.Sprintf("#%d", r)}, result(r), res.At(r).Type())
					}
				}
			}
		}
	}
	switch name {
	case "encoding/json.Unmarshal", "(*encoding/json.Decoder).Decode":
		for l := range a.get(args[1]) {
			if l.o.kind != "box" {
				continue
			}
			pt, ok := l.o.typ.Underlying().(*types.Pointer)
			if !ok {
				continue
			}
			for m := range a.get(place{o: l.o, path: l.path}) {
				a.write(ph, in, m, "decodes")
				// the methods of the named type count, so follow the pointer's own element type
				a.fill(ph, key, place{o: m.o, path: m.path}, pt.Elem(), 0)
			}
		}
		return
	case "(*sync.Map).Load", "(*sync.Map).LoadOrStore", "(*sync.Map).Swap", "(*sync.Map).LoadAndDelete":
		for l := range a.get(args[0]) {
			if !noResult {
				a.flow(place{o: l.o, path: l.path + "{v}"}, result(0), res.At(0).Type())
			}
			if len(args) > 2 {
				a.flow(args[2], place{o: l.o, path: l.path + "{v}"}, ts[2])
				if !noResult {
					a.flow(args[2], result(0), res.At(0).Type())
				}
			}
		}
		return
	case "(*sync.Map).Store":
		for l := range a.get(args[0]) {
			a.flow(args[2], place{o: l.o, path: l.path + "{v}"}, ts[2])
		}
		return
	}
	// effects
	if sorters[name] && len(args) > 0 {
		for l := range a.get(args[0]) {
			if l.o.kind == "box" {
				for m := range a.get(place{o: l.o, path: l.path}) {
					a.write(ph, in, ploc{m.o, m.path + "[]"}, "reorders")
				}
				continue
			}
			a.write(ph, in, ploc{l.o, l.path + "[]"}, "reorders")
		}
	}
	if recv := f.Signature.Recv(); recv != nil && len(args) > 0 {
		rt := recv.Type()
		if pt, ok := rt.Underlying().(*types.Pointer); ok {
			if named, ok := pt.Elem().(*types.Named); ok {
				tn := named.Obj().Pkg().Path() + "." + named.Obj().Name()
				if !readOnlyTypes[tn] && !strings.HasPrefix(tn, "sync/atomic.") {
					for l := range a.get(args[0]) {
						a.write(ph, in, l, "calls "+name+" on")
					}
				}
			}
		}
	}
	if noResult {
		return
	}
	// results
	for i := 0; i < res.Len(); i++ {
		rt := res.At(i).Type()
		for _, lf := range a.leaves(rt) {
			dst := result(i).add(lf.path)
			switch u := lf.typ.Underlying().(type) {
			case *types.Interface:
				if types.Identical(lf.typ, types.Universe.Lookup("error").Type()) {
					continue
				}
				var boxes []ploc
				for j := range args {
					for l := range a.reachBoxes(args[j], ts[j]) {
						if u.NumMethods() == 0 || types.Implements(l.o.typ, u) {
							boxes = append(boxes, l)
						}
					}
				}
				for _, l := range boxes {
					a.addLoc(dst, l)
				}
				if u.NumMethods() == 0 {
					// something new made of what was given
					any := types.NewInterfaceType(nil, nil)
					for _, dt := range []types.Type{types.NewSlice(any), types.Typ[types.String], types.Typ[types.Float64], types.Typ[types.Bool]} {
						box := a.obj(key+"box"+dt.String(), ph, "box", dt, "a result of "+name)
						a.addLoc(dst, ploc{box, ""})
						if _, ok := dt.(*types.Slice); ok {
							o := a.obj(key+"slice", ph, "lib", dt, "a result of "+name)
							a.addLoc(place{o: box}, ploc{o, ""})
							for _, l := range boxes {
								a.addLoc(place{o: o, path: "[]"}, l)
							}
						}
					}
				}
			default:
				for j := range args {
					if types.Identical(ts[j].Underlying(), lf.typ.Underlying()) {
						a.flow(args[j], dst, lf.typ)
					}
				}
				o := a.obj(fmt.Sprintf("%s result %d%s", key, i, lf.path), ph, "lib", lf.typ, "a result of "+name)
				a.addLoc(dst, ploc{o, ""})
			}
		}
	}
}

// Writes lists the writes in a stable order.
func (a *PTA) Writes() []pwrite {
	var out []pwrite
	for _, w := range a.writes {
		out = append(out, w)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].instr.Pos() != out[j].instr.Pos() {
			return out[i].instr.Pos() < out[j].instr.Pos()
		}
		if out[i].phase != out[j].phase {
			return out[i].phase < out[j].phase
		}
		return out[i].loc.o.id < out[j].loc.o.id
	})
	return out
}
