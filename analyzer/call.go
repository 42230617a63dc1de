package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func sortStrings(s []string) { sort.Strings(s) }

func (in *Interp) call(fr *frame, st *State, x ssa.CallInstruction, c *ssa.CallCommon) []CallOut {
	var args []Val
	for _, a := range c.Args {
		args = append(args, in.val(fr, st, a))
	}
	var fn, recv Val
	if c.IsInvoke() {
		recv = in.val(fr, st, c.Value)
	} else {
		fn = in.val(fr, st, c.Value)
	}
	return in.dispatch(st, fr, *c, fn, recv, args, x.Pos(), in.site(x.(ssa.Instruction)), x)
}

func (in *Interp) dispatch(st *State, fr *frame, c ssa.CallCommon, fn, recv Val, args []Val, pos token.Pos, site string, x ssa.CallInstruction) []CallOut {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return in.builtin(st, fr, b.Name(), c, args, pos, site)
	}
	ci := &CallInfo{In: in, St: st, Args: args, Sig: c.Signature(), Pos: pos, Site: site, Caller: fr.fn, Stack: in.stack, Depth: len(in.stack)}
	if c.IsInvoke() {
		ci.Method = c.Method
		ci.Recv = recv
		ci.Name = "invoke " + c.Method.FullName()
		recv = in.resolve(st, recv)
		switch r := recv.(type) {
		case Nil:
			return []CallOut{{St: st, Panic: "method call on nil interface"}}
		case Iface:
			if in.Hook != nil {
				if outs := in.Hook(ci); outs != nil {
					return outs
				}
			}
			if f := in.P.SSA.LookupMethod(r.T, c.Method.Pkg(), c.Method.Name()); f != nil {
				ci.Args = append([]Val{r.V}, args...)
				ci.Method = nil
				return in.callFn(ci, f, nil)
			}
		case Sym:
			if f := st.fact(r); f != nil {
				if f.Nil == 1 {
					return []CallOut{{St: st, Panic: "method call on nil interface"}}
				}
				if f.Dyn != nil {
					if g := in.P.SSA.LookupMethod(f.Dyn, c.Method.Pkg(), c.Method.Name()); g != nil {
						ci.Args = append([]Val{in.dynVal(r, f.Dyn)}, args...)
						return in.callFn(ci, g, nil)
					}
				}
			}
			st.nonNil(r)
		}
		if in.Hook != nil {
			if outs := in.Hook(ci); outs != nil {
				return outs
			}
		}
		if m, ok := models[ci.Name]; ok {
			if outs := m(ci); outs != nil {
				return outs
			}
		}
		ci.Args = append([]Val{recv}, args...)
		return in.external(ci)
	}
	fn = in.resolve(st, fn)
	switch f := fn.(type) {
	case Func:
		return in.callFn(ci, f.Fn.F, f.Bind)
	case Nil:
		return []CallOut{{St: st, Panic: "call of nil function"}}
	case Intr:
		ci.Name = "intr:" + f.Name
		if in.Hook != nil {
			if outs := in.Hook(ci); outs != nil {
				return outs
			}
		}
		return in.external(ci)
	case Sym:
		st.nonNil(f)
		ci.Name = "dyn:" + f.Key()
		if in.Hook != nil {
			if outs := in.Hook(ci); outs != nil {
				return outs
			}
		}
		return in.external(ci)
	}
	undecided("call of %s at %s", fn.Key(), in.P.Pos(pos))
	return nil
}

// Inlinable tells the functions whose body is analysed at a call.
func (in *Interp) Inlinable(f *ssa.Function) bool {
	if f.Blocks == nil {
		return false
	}
	if in.P.InRepo(f) {
		return true
	}
	// wrappers of methods of the repository
	if f.Synthetic != "" && f.Object() != nil {
		if p := f.Object().Pkg(); p != nil && (p.Path() == in.P.Mod || strings.HasPrefix(p.Path(), in.P.Mod+"/")) {
			return true
		}
		if strings.HasPrefix(f.Synthetic, "bound method wrapper") || strings.HasPrefix(f.Synthetic, "wrapper for") || strings.HasPrefix(f.Synthetic, "thunk") {
			return true
		}
	}
	return false
}

func (in *Interp) callFn(ci *CallInfo, f *ssa.Function, bind []Val) []CallOut {
	ci.Fn = f
	ci.Name = CalleeName(f)
	ci.Sig = f.Signature
	if in.Hook != nil {
		if outs := in.Hook(ci); outs != nil {
			return outs
		}
	}
	if m, ok := models[ci.Name]; ok && !in.P.InRepo(f) {
		if outs := m(ci); outs != nil {
			return outs
		}
	}
	if !in.P.InRepo(f) {
		if outs := fold0(ci); outs != nil {
			return outs
		}
	}
	if f.Pkg != nil && f.Name() == "init" && f.Synthetic != "" {
		return []CallOut{{St: ci.St}}
	}
	if (in.Inlinable(f) || in.helper(ci, f)) && !(in.Opaque != nil && in.Opaque(f)) {
		rec := 0
		for _, g := range in.stack {
			if g == f {
				rec++
			}
		}
		if rec <= in.MaxRec {
			return in.inline(ci.St, f, ci.Args, bind, ci.Site)
		}
	}
	return in.external(ci)
}

func (in *Interp) inline(st *State, f *ssa.Function, args, bind []Val, site string) []CallOut {
	in.ctx = append([]string{site}, in.ctx...)
	if len(in.ctx) > 3 {
		save := in.ctx
		in.ctx = in.ctx[:3]
		defer func() { in.ctx = save[1:] }()
	} else {
		defer func() { in.ctx = in.ctx[1:] }()
	}
	before := make(map[string]bool, len(st.Heap))
	for k := range st.Heap {
		before[k] = true
	}
	var outs []CallOut
	seen := map[string]bool{}
	res := in.Run(f, args, bind, st)
	for _, o := range res {
		in.gc(o.St, o.Ret, before)
		if len(res) == 1 {
			return []CallOut{{Ret: o.Ret, St: o.St, Panic: o.Panic}}
		}
		k := keys(o.Ret) + "|" + o.Panic + "|" + o.St.Key()
		if seen[k] {
			in.Merged++
			continue
		}
		seen[k] = true
		outs = append(outs, CallOut{Ret: o.Ret, St: o.St, Panic: o.Panic})
	}
	return outs
}

// gc drops the objects a call created which nothing refers to.
func (in *Interp) gc(st *State, roots []Val, before map[string]bool) {
	created := false
	for id := range st.Heap {
		if !before[id] {
			created = true
			break
		}
	}
	if !created {
		return
	}
	reach := map[string]bool{}
	var visit func(v Val)
	var mark func(id string)
	mark = func(id string) {
		if reach[id] {
			return
		}
		reach[id] = true
		if o := st.Heap[id]; o != nil {
			visit(o.V)
		}
	}
	visit = func(v Val) {
		switch x := v.(type) {
		case Ptr:
			mark(x.Obj)
			if _, ok := st.Heap["buf:"+x.Key()]; ok {
				mark("buf:" + x.Key())
			}
		case Slice:
			mark(x.Obj)
		case MapV:
			mark(x.Obj)
		case IterV:
			mark(x.Obj)
		case Iface:
			if x.V != nil {
				visit(x.V)
			}
		case Struct:
			for _, f := range x.F {
				visit(f)
			}
		case Arr:
			for _, f := range x.E {
				visit(f)
			}
		case Seq:
			for _, p := range x.Parts {
				visit(p.V)
			}
		case MapC:
			for _, e := range x.Ents {
				if e.K != nil {
					visit(e.K)
				}
				if e.V != nil {
					visit(e.V)
				}
			}
			if x.Base != nil {
				visit(x.Base)
			}
		case Over:
			for _, w := range x.M {
				visit(w)
			}
		case Func:
			for _, b := range x.Bind {
				visit(b)
			}
		case Cat:
			for _, p := range x.Parts {
				visit(p)
			}
		case Tuple:
			for _, p := range x.E {
				visit(p)
			}
		case LenV:
			visit(x.X)
		case IterC:
			for _, k := range x.Keys {
				visit(k)
			}
			if x.Open != nil {
				visit(x.Open)
			}
		}
	}
	for _, r := range roots {
		if r != nil {
			visit(r)
		}
	}
	for id := range st.Heap {
		if before[id] || strings.HasPrefix(id, "g:") || strings.HasPrefix(id, "*") || strings.HasPrefix(id, "[]") || strings.HasPrefix(id, "m:") || strings.HasPrefix(id, fileBuf) {
			mark(id)
		}
	}
	for _, e := range st.Events {
		for _, a := range e.Args {
			if a != nil {
				visit(a)
			}
		}
	}
	for id := range st.Heap {
		// what was written to a buffer is kept as long as the buffer
		if strings.HasPrefix(id, "buf:&") && !reach[id] {
			for r := range reach {
				if rest, ok := strings.CutPrefix(id[len("buf:&"):], r); ok && (rest == "" || rest[0] == '/') {
					mark(id)
					break
				}
			}
		}
	}
	for id := range st.Heap {
		if !reach[id] {
			delete(st.Heap, id)
			st.dropMention(id)
		}
	}
}

// impure functions give a new result on every call.
func impure(name string) bool {
	for _, p := range []string{"os.", "(*os.", "net/http.", "time.Now", "io.", "invoke ", "dyn:", "intr:", "math/rand.", "(*encoding/json.", "(*bufio.", "io/ioutil."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// external is the default for a call of a function outside the repository (or one which is not inlined): the result
// is an uninterpreted function of the arguments, and when it can return an error both cases are explored.
func (in *Interp) external(c *CallInfo) []CallOut {
	st := c.St
	var as []string
	for _, a := range c.Args {
		as = append(as, in.content(st, a, 4))
	}
	term := c.Name + "(" + strings.Join(as, ",") + ")"
	if len(term) > 600 {
		term = term[:300] + fmt.Sprintf("…%x…", hash(term)) + term[len(term)-100:]
	}
	return in.results(c, term, impure(c.Name) || c.Fn != nil && in.P.InRepo(c.Fn))
}

func hash(s string) uint32 {
	var h uint32 = 2166136261
	for i := 0; i < len(s); i++ {
		h = (h ^ uint32(s[i])) * 16777619
	}
	return h
}

func (in *Interp) results(c *CallInfo, term string, imp bool) []CallOut {
	st := c.St
	rs := c.Sig.Results()
	if rs.Len() == 0 {
		return []CallOut{{St: st}}
	}
	weak := strings.Contains(term, "~")
	if imp {
		s := in.fresh(st, term+"@"+c.Site, nil)
		term, weak = s.ID, weak || s.Weak
	}
	mk := func(st *State, i int, ok bool) Val {
		t := rs.At(i).Type()
		id := term
		if rs.Len() > 1 {
			id = fmt.Sprintf("%s#%d", term, i)
		}
		if !ok {
			switch t.Underlying().(type) {
			case *types.Basic, *types.Struct, *types.Array:
				return Sym{ID: id + "!", T: t, Weak: weak}
			}
			return zero(t)
		}
		s := Sym{ID: id, T: t, Weak: weak}
		return s
	}
	last := rs.At(rs.Len() - 1).Type()
	if !isErr(last) {
		var ret []Val
		for i := 0; i < rs.Len(); i++ {
			ret = append(ret, mk(st, i, true))
		}
		return []CallOut{{Ret: ret, St: st}}
	}
	var outs []CallOut
	for _, a := range in.pred(st, "fails "+term, weak) {
		var ret []Val
		for i := 0; i < rs.Len()-1; i++ {
			v := mk(a.st, i, !a.v)
			if s, ok := v.(Sym); ok && !a.v {
				if _, isp := s.T.Underlying().(*types.Pointer); isp {
					a.st.nonNil(s)
				}
			}
			ret = append(ret, v)
		}
		if a.v {
			e := Sym{ID: "err:" + term, T: errType}
			if weak {
				e.Weak = true
				ret = append(ret, Iface{errType, e})
			} else {
				a.st.nonNil(e)
				ret = append(ret, e)
			}
		} else {
			ret = append(ret, Nil{errType})
		}
		outs = append(outs, CallOut{Ret: ret, St: a.st})
	}
	return outs
}

func (in *Interp) builtin(st *State, fr *frame, name string, c ssa.CallCommon, args []Val, pos token.Pos, site string) []CallOut {
	one := func(v Val) []CallOut { return []CallOut{{Ret: []Val{v}, St: st}} }
	none := []CallOut{{St: st}}
	switch name {
	case "len":
		return one(in.length(st, in.resolve(st, args[0])))
	case "cap":
		return one(Sym{ID: "cap(" + args[0].Key() + ")", T: types.Typ[types.Int], Weak: true})
	case "append":
		t := c.Signature().Results().At(0).Type()
		a, b := in.resolve(st, args[0]), in.resolve(st, args[1])
		if isBytesT(t) {
			return one(mkCat(bytesOf(a), bytesOf(b)))
		}
		ok1, p1 := in.parts(st, a)
		ok2, p2 := in.parts(st, b)
		if ok2 && len(p2) == 0 {
			return one(a)
		}
		if !ok1 || !ok2 {
			return one(Sym{ID: "append(" + a.Key() + "," + b.Key() + ")", T: t, Weak: true})
		}
		var ps []Part
		ps = append(ps, p1...)
		ps = append(ps, p2...)
		return one(in.mkSlice(st, "append:"+site+"<"+strings.Join(in.ctx, "<"), t, ps))
	case "copy":
		if s, ok := args[0].(Slice); ok {
			o := st.Heap[s.Obj]
			st.Heap[s.Obj] = &Obj{V: Sym{ID: "copied~", T: o.T, Weak: true}, T: o.T, Weak: true}
		}
		return one(Sym{ID: "copy@" + site, T: types.Typ[types.Int], Weak: true})
	case "delete":
		mt := c.Args[0].Type().Underlying().(*types.Map)
		if _, ok := in.resolve(st, args[0]).(Nil); ok {
			return none
		}
		if id, ok := in.mapObj(st, args[0], mt); ok {
			k := in.resolve(st, args[1])
			st.event(Event{Kind: "mapdelete", Args: []Val{args[0], k}, Pos: in.P.Pos(pos), Site: site})
			if !hasWeak(k) {
				in.setEnt(st, id, k.Key(), MapEnt{K: k, Gone: true})
			} else {
				o := st.Heap[id]
				mc := o.V.(MapC)
				st.Heap[id] = &Obj{V: MapC{Ents: map[string]MapEnt{}, Base: mc.Base, T: mc.T}, T: o.T, Weak: o.Weak}
			}
		}
		return none
	case "recover":
		if _, ok := st.Preds["panicking"]; ok {
			delete(st.Preds, "panicking")
			return one(st.nonNil(Sym{ID: "recovered@" + site, T: types.NewInterfaceType(nil, nil)}))
		}
		return one(Nil{types.NewInterfaceType(nil, nil)})
	case "min", "max":
		allC := true
		for _, a := range args {
			if _, ok := in.resolve(st, a).(Const); !ok {
				allC = false
			}
		}
		if allC {
			best := in.resolve(st, args[0]).(Const)
			for _, a := range args[1:] {
				cc := in.resolve(st, a).(Const)
				op := token.LSS
				if name == "max" {
					op = token.GTR
				}
				if constant.Compare(cc.V, op, best.V) {
					best = cc
				}
			}
			return one(best)
		}
		var as []string
		for _, a := range args {
			as = append(as, a.Key())
		}
		return one(Sym{ID: name + "(" + strings.Join(as, ",") + ")", T: c.Signature().Results().At(0).Type()})
	case "ssa:wrapnilchk":
		if in.nilPanic(st, args[0]) {
			return []CallOut{{St: st, Panic: "nil dereference"}}
		}
		return one(args[0])
	case "close":
		st.event(Event{Kind: "close chan", Args: args, Pos: in.P.Pos(pos), Site: site})
		return []CallOut{{St: st}}
	case "print", "println", "clear":
		return none
	}
	undecided("builtin %s", name)
	return nil
}

func bytesOf(v Val) Val {
	if _, ok := v.(Nil); ok {
		return cStr("")
	}
	return v
}
