package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var errType = types.Universe.Lookup("error").Type()

func isErr(t types.Type) bool { return types.Identical(t, errType) }

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isBytesT(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int32)
}

// block runs the instructions of a block, pushing the successors and forks on the work list.
func (in *Interp) block(it item, work *[]item, emit func(Outcome)) {
	fr, st, b := it.fr, it.st, it.b
	// fork continues a copy of the frame after instruction i with the given result
	cont := func(i int, st *State, instr ssa.Instruction, v Val) {
		nf := fr.fork()
		nf.forks++
		if val, ok := instr.(ssa.Value); ok && v != nil {
			nf.env[val] = v
		}
		*work = append(*work, item{b: b, prev: it.prev, idx: i + 1, fr: nf, st: st})
	}
	// finish panics out of the function, running the deferred calls
	raise := func(fr *frame, st *State, why string, pos token.Pos) {
		in.unwind(fr, st, why, pos, work, emit)
	}
	for i := it.idx; i < len(b.Instrs); i++ {
		instr := b.Instrs[i]
		in.steps++
		if in.steps > in.MaxSteps {
			undecided("more than %d steps in %s", in.MaxSteps, fr.fn)
		}
		in.Instrs[instr] = true
		v := func(x ssa.Value) Val { return in.val(fr, st, x) }
		switch x := instr.(type) {
		case *ssa.DebugRef, *ssa.Phi:
			continue

		case *ssa.Alloc:
			et := x.Type().Underlying().(*types.Pointer).Elem()
			if !x.Heap {
				id := "o:" + in.ctxSite(x)
				// a function which is being run several times has its own variables each time
				rec := 0
				for _, g := range in.stack {
					if g == x.Parent() {
						rec++
					}
				}
				if rec > 1 {
					id += fmt.Sprintf("^%d", rec)
				}
				st.Heap[id] = &Obj{V: zero(et), T: et}
				for k := range st.Heap {
					if rest, ok := strings.CutPrefix(k, "buf:&"+id); ok && (rest == "" || rest[0] == '/') {
						delete(st.Heap, k)
					}
				}
				fr.env[x] = Ptr{Obj: id}
				continue
			}
			fr.env[x] = Ptr{Obj: in.alloc(st, in.ctxSite(x), et, zero(et))}

		case *ssa.UnOp:
			a := v(x.X)
			switch x.Op {
			case token.MUL:
				if in.nilPanic(st, a) {
					raise(fr, st, "nil dereference", x.Pos())
					return
				}
				val, ok := in.load(st, a, x.Type())
				if !ok {
					undecided("load through %s at %s", a.Key(), in.P.Pos(x.Pos()))
				}
				fr.env[x] = val
			case token.NOT:
				alts := in.truth(st, a)
				if len(alts) == 1 {
					st = alts[0].st
					fr.env[x] = cBool(!alts[0].v)
					continue
				}
				for _, al := range alts {
					cont(i, al.st, x, cBool(!al.v))
				}
				return
			case token.ARROW:
				if in.OnRecv != nil {
					fr.env[x] = in.OnRecv(st, a, x)
					continue
				}
				fr.env[x] = in.fresh(st, "recv:"+in.ctxSite(x), x.Type())
			default:
				if c, ok := in.resolve(st, a).(Const); ok {
					fr.env[x] = Const{constant.UnaryOp(x.Op, c.V, 0), x.Type()}
				} else {
					fr.env[x] = Sym{ID: "(" + x.Op.String() + a.Key() + ")", T: x.Type(), Weak: hasWeak(a)}
				}
			}

		case *ssa.BinOp:
			a, c := v(x.X), v(x.Y)
			switch x.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				alts := in.compare(st, x.Op, a, c)
				if len(alts) == 1 {
					st = alts[0].st
					fr.env[x] = cBool(alts[0].v)
					continue
				}
				in.Forks++
				for _, al := range alts {
					al.st.trace(fmt.Sprintf("%s: %s %s %s is %v", in.P.Pos(x.Pos()), short(a.Key()), x.Op, short(c.Key()), al.v))
					cont(i, al.st, x, cBool(al.v))
				}
				return
			}
			val, why := in.arith(st, x, a, c)
			if why != "" {
				raise(fr, st, why, x.Pos())
				return
			}
			fr.env[x] = val

		case *ssa.If:
			c := v(x.Cond)
			alts := in.truth(st, c)
			if len(alts) > 1 {
				in.Forks++
				fr.forks++
				for _, al := range alts {
					al.st.trace(fmt.Sprintf("%s: %s is %v", in.P.Pos(x.Cond.Pos()), short(c.Key()), al.v))
				}
			}
			for k := len(alts) - 1; k >= 0; k-- {
				al := alts[k]
				f := fr
				if k > 0 {
					f = fr.fork()
				}
				succ := b.Succs[1]
				if al.v {
					succ = b.Succs[0]
				}
				*work = append(*work, item{b: succ, prev: b, fr: f, st: al.st})
			}
			return

		case *ssa.Jump:
			*work = append(*work, item{b: b.Succs[0], prev: b, fr: fr, st: st})
			return

		case *ssa.Return:
			var ret []Val
			for _, r := range x.Results {
				ret = append(ret, v(r))
			}
			emit(Outcome{Ret: ret, St: st, Pos: x.Pos()})
			return

		case *ssa.Panic:
			raise(fr, st, "panic("+short(v(x.X).Key())+")", x.Pos())
			return

		case *ssa.RunDefers:
			outs := in.runDefers(fr, st)
			if len(outs) == 1 && outs[0].Panic == "" {
				st = outs[0].St
				fr.defers = nil
				continue
			}
			for _, o := range outs {
				nf := fr.fork()
				nf.defers = nil
				nf.forks++
				if o.Panic != "" {
					raise(nf, o.St, o.Panic, x.Pos())
					continue
				}
				*work = append(*work, item{b: b, prev: it.prev, idx: i + 1, fr: nf, st: o.St})
			}
			return

		case *ssa.Call:
			outs := in.call(fr, st, x, x.Common())
			if len(outs) == 1 && outs[0].Panic == "" {
				st = outs[0].St
				fr.env[x] = tupleOf(outs[0].Ret)
				continue
			}
			if len(outs) > 1 {
				in.Forks++
			}
			for k := len(outs) - 1; k >= 0; k-- {
				o := outs[k]
				if o.Panic != "" {
					raise(fr.fork(), o.St, o.Panic, x.Pos())
					continue
				}
				cont(i, o.St, x, tupleOf(o.Ret))
			}
			return

		case *ssa.Defer:
			d := deferred{call: *x.Common(), pos: x.Pos(), site: in.site(x)}
			if x.Common().IsInvoke() {
				d.recv = v(x.Common().Value)
			} else {
				d.fn = v(x.Common().Value)
			}
			for _, a := range x.Common().Args {
				d.args = append(d.args, v(a))
			}
			fr.defers = append(append([]deferred(nil), fr.defers...), d)

		case *ssa.Go:
			e := Event{Kind: "go", Pos: in.P.Pos(x.Pos()), Site: in.site(x)}
			if !x.Call.IsInvoke() {
				e.Args = append(e.Args, v(x.Call.Value))
				for _, a := range x.Call.Args {
					e.Args = append(e.Args, v(a))
				}
			}
			st.event(e)

		case *ssa.MakeInterface:
			fr.env[x] = Iface{x.X.Type(), v(x.X)}

		case *ssa.ChangeInterface:
			a := v(x.X)
			if n, ok := a.(Nil); ok {
				n.T = x.Type()
				a = n
			}
			fr.env[x] = a

		case *ssa.ChangeType:
			fr.env[x] = retype(v(x.X), x.Type())

		case *ssa.Convert:
			fr.env[x] = in.convert(st, v(x.X), x.X.Type(), x.Type())

		case *ssa.MultiConvert:
			fr.env[x] = in.convert(st, v(x.X), x.X.Type(), x.Type())

		case *ssa.SliceToArrayPointer:
			fr.env[x] = in.fresh(st, "s2a:"+in.ctxSite(x), x.Type())

		case *ssa.TypeAssert:
			alts := in.typeAssert(st, v(x.X), x.AssertedType)
			mk := func(al alt, res Val) Val {
				if !x.CommaOk {
					return res
				}
				if !al.v {
					res = zero(x.AssertedType)
				}
				return Tuple{[]Val{res, cBool(al.v)}}
			}
			if len(alts) == 1 && (alts[0].v || x.CommaOk) {
				st = alts[0].st
				fr.env[x] = mk(alts[0].alt, alts[0].res)
				continue
			}
			in.Forks++
			for _, al := range alts {
				al.st.trace(fmt.Sprintf("%s: %s is a %s: %v", in.P.Pos(x.Pos()), short(v(x.X).Key()), short(typeKey(x.AssertedType)), al.v))
				if !al.v && !x.CommaOk {
					raise(fr.fork(), al.st, "failed type assertion to "+typeKey(x.AssertedType), x.Pos())
					continue
				}
				cont(i, al.st, x, mk(al.alt, al.res))
			}
			return

		case *ssa.FieldAddr:
			a := v(x.X)
			if in.nilPanic(st, a) {
				raise(fr, st, "nil dereference", x.Pos())
				return
			}
			et := x.X.Type().Underlying().(*types.Pointer).Elem()
			p, ok := in.deref(st, a, et)
			if !ok {
				undecided("field of %s at %s", a.Key(), in.P.Pos(x.Pos()))
			}
			fr.env[x] = Ptr{p.Obj, p.Path + "/f" + strconv.Itoa(x.Field)}

		case *ssa.Field:
			fr.env[x] = in.project(v(x.X), "f"+strconv.Itoa(x.Field), x.Type())

		case *ssa.IndexAddr:
			p, why := in.indexAddr(st, v(x.X), v(x.Index), x)
			if why != "" {
				raise(fr, st, why, x.Pos())
				return
			}
			fr.env[x] = p

		case *ssa.Index:
			a, idx := in.resolve(st, v(x.X)), in.resolve(st, v(x.Index))
			if s, ok := asStr(a); ok {
				if n, ok := asInt(idx); ok {
					if n < 0 || n >= len(s) {
						raise(fr, st, "index out of range", x.Pos())
						return
					}
					fr.env[x] = Const{constant.MakeInt64(int64(s[n])), x.Type()}
					continue
				}
			}
			if n, ok := asInt(idx); ok {
				fr.env[x] = in.project(a, "i"+strconv.Itoa(n), x.Type())
			} else {
				fr.env[x] = in.project(a, "i?", x.Type())
			}

		case *ssa.Lookup:
			outs := in.lookup(st, v(x.X), v(x.Index), x)
			if len(outs) == 1 {
				st = outs[0].st
				fr.env[x] = outs[0].v
				continue
			}
			in.Forks++
			for _, o := range outs {
				cont(i, o.st, x, o.v)
			}
			return

		case *ssa.MapUpdate:
			m := v(x.Map)
			if _, ok := in.resolve(st, m).(Nil); ok {
				raise(fr, st, "assignment to entry in nil map", x.Pos())
				return
			}
			sts := in.mapUpdate(st, m, v(x.Key), v(x.Value), x)
			if len(sts) == 1 {
				st = sts[0]
				continue
			}
			for _, s := range sts {
				cont(i, s, x, nil)
			}
			return

		case *ssa.Range:
			fr.env[x] = in.makeIter(st, v(x.X), x)

		case *ssa.Next:
			outs := in.next(st, v(x.Iter), x)
			if len(outs) == 1 {
				st = outs[0].st
				fr.env[x] = outs[0].v
				continue
			}
			for _, o := range outs {
				cont(i, o.st, x, o.v)
			}
			return

		case *ssa.Slice:
			val, why := in.slice(st, fr, x)
			if why != "" {
				raise(fr, st, why, x.Pos())
				return
			}
			fr.env[x] = val

		case *ssa.MakeSlice:
			n := in.resolve(st, v(x.Len))
			et := x.Type().Underlying().(*types.Slice).Elem()
			if k, ok := asInt(n); ok && k <= 64 {
				if k < 0 {
					raise(fr, st, "negative slice length", x.Pos())
					return
				}
				ps := make([]Part, k)
				for j := range ps {
					ps[j] = Part{V: zero(et)}
				}
				fr.env[x] = in.mkSlice(st, in.ctxSite(x), x.Type(), ps)
			} else {
				fr.env[x] = in.mkSlice(st, in.ctxSite(x), x.Type(), []Part{{V: Sym{ID: "made(" + n.Key() + ")", T: x.Type(), Weak: true}, Spread: true}})
			}

		case *ssa.MakeMap:
			mt := x.Type().Underlying().(*types.Map)
			fr.env[x] = MapV{in.alloc(st, in.ctxSite(x), x.Type(), MapC{Ents: map[string]MapEnt{}, Closed: true, T: mt})}

		case *ssa.MakeChan:
			ch := st.nonNil(in.fresh(st, "chan:"+in.ctxSite(x), x.Type()))
			st.event(Event{Kind: "make chan", Args: []Val{ch, v(x.Size)}, Pos: in.P.Pos(x.Pos()), Site: in.site(x)})
			fr.env[x] = ch

		case *ssa.MakeClosure:
			f := Func{Fn: FnRef{x.Fn.(*ssa.Function)}}
			for _, bnd := range x.Bindings {
				f.Bind = append(f.Bind, v(bnd))
			}
			fr.env[x] = f

		case *ssa.Store:
			a := v(x.Addr)
			if in.nilPanic(st, a) {
				raise(fr, st, "nil dereference", x.Pos())
				return
			}
			if !in.store(st, a, v(x.Val), x.Val.Type()) {
				undecided("store through %s at %s", a.Key(), in.P.Pos(x.Pos()))
			}

		case *ssa.Extract:
			t := v(x.Tuple)
			if tp, ok := t.(Tuple); ok && x.Index < len(tp.E) {
				fr.env[x] = tp.E[x.Index]
			} else {
				fr.env[x] = Sym{ID: t.Key() + "#" + strconv.Itoa(x.Index), T: x.Type(), Weak: hasWeak(t)}
			}

		case *ssa.Send:
			st.event(Event{Kind: "send", Args: []Val{v(x.Chan), v(x.X)}, Pos: in.P.Pos(x.Pos()), Site: in.site(x)})

		case *ssa.Select:
			fr.env[x] = in.fresh(st, "select:"+in.ctxSite(x), x.Type())

		default:
			undecided("instruction %T at %s is not supported", instr, in.P.Pos(instr.Pos()))
		}
	}
}

func short(s string) string {
	s = strings.ReplaceAll(s, "github.com/GannettDigital/jstransform/", "")
	if len(s) > 90 {
		return s[:60] + "…" + s[len(s)-25:]
	}
	return s
}

func tupleOf(ret []Val) Val {
	if len(ret) == 1 {
		return ret[0]
	}
	return Tuple{ret}
}

// nilPanic reports whether a pointer is known to be nil. A pointer which is not known is assumed not to be nil from
// here on, panics are the subject of another analysis.
func (in *Interp) nilPanic(st *State, a Val) bool {
	switch x := a.(type) {
	case Nil:
		return true
	case Sym:
		if f := st.fact(x); f != nil && f.Nil == 1 {
			return true
		}
		st.nonNil(x)
	}
	return false
}

// unwind runs the deferred calls of a panicking function.
func (in *Interp) unwind(fr *frame, st *State, why string, pos token.Pos, work *[]item, emit func(Outcome)) {
	if why == "exit" {
		emit(Outcome{St: st, Panic: why, Pos: pos})
		return
	}
	fr.panicking, fr.recovered = why, false
	for _, o := range in.runDefers(fr, st) {
		if o.recovered && o.Panic == "" && fr.fn.Recover != nil {
			nf := fr.fork()
			nf.defers = nil
			nf.panicking, nf.recovered = "", false
			*work = append(*work, item{b: fr.fn.Recover, fr: nf, st: o.St})
			continue
		}
		if o.recovered && o.Panic == "" {
			// no named results, the zero values are returned
			var ret []Val
			rs := fr.fn.Signature.Results()
			for i := 0; i < rs.Len(); i++ {
				ret = append(ret, zero(rs.At(i).Type()))
			}
			emit(Outcome{Ret: ret, St: o.St, Pos: pos})
			continue
		}
		w := why
		if o.Panic != "" {
			w = o.Panic
		}
		emit(Outcome{St: o.St, Panic: w, Pos: pos})
	}
}

type deferOut struct {
	St        *State
	Panic     string
	recovered bool
}

func (in *Interp) runDefers(fr *frame, st *State) []deferOut {
	outs := []deferOut{{St: st}}
	for k := len(fr.defers) - 1; k >= 0; k-- {
		d := fr.defers[k]
		var next []deferOut
		for _, o := range outs {
			p := o.Panic
			if p == "" && fr.panicking != "" && !o.recovered {
				p = fr.panicking
			}
			if p != "" {
				o.St.Preds["panicking"] = true
			} else {
				delete(o.St.Preds, "panicking")
			}
			for _, c := range in.dispatch(o.St, fr, d.call, d.fn, d.recv, d.args, d.pos, d.site, nil) {
				rec := o.recovered
				pan := c.Panic
				if p != "" && pan == "" {
					if _, still := c.St.Preds["panicking"]; !still {
						rec = true
					} else if o.Panic != "" {
						pan = o.Panic
					}
				}
				next = append(next, deferOut{c.St, pan, rec})
			}
		}
		outs = next
	}
	for _, o := range outs {
		delete(o.St.Preds, "panicking")
	}
	return outs
}

func retype(v Val, t types.Type) Val {
	switch x := v.(type) {
	case Const:
		return Const{x.V, t}
	case Nil:
		return Nil{t}
	case Sym:
		x.T = t
		return x
	case Struct:
		return Struct{t, x.F}
	case Arr:
		return Arr{t, x.E}
	}
	return v
}

func (in *Interp) convert(st *State, a Val, from, to types.Type) Val {
	toStr, fromStr := isStringT(to), isStringT(from)
	if (toStr || isBytesT(to)) && (fromStr || isBytesT(from)) {
		// strings and byte slices share a representation
		switch x := a.(type) {
		case Nil:
			if toStr {
				return cStr("")
			}
			return x
		case Sym:
			if f := st.fact(x); f != nil && f.Nil == 1 && toStr {
				return cStr("")
			}
			x.T = to
			return x
		case Const:
			return Const{x.V, to}
		case Slice:
			if el, ok := in.elems(st, x); ok && toStr {
				var sb []rune
				for _, e := range el {
					n, ok := asInt(e)
					if !ok {
						return Sym{ID: "string(" + in.content(st, a, 3) + ")", T: to, Weak: hasWeak(a)}
					}
					sb = append(sb, rune(n))
				}
				return cStr(string(sb))
			}
			return Sym{ID: "string(" + in.content(st, a, 3) + ")", T: to, Weak: hasWeak(a)}
		}
		return a
	}
	a = in.resolve(st, a)
	if c, ok := a.(Const); ok {
		b, ok := to.Underlying().(*types.Basic)
		if ok {
			switch {
			case b.Info()&types.IsInteger != 0 && c.V.Kind() == constant.Float:
				f, _ := constant.Float64Val(c.V)
				return Const{constant.MakeInt64(int64(f)), to}
			case b.Info()&types.IsFloat != 0 && c.V.Kind() == constant.Int:
				return Const{constant.ToFloat(c.V), to}
			case b.Info()&types.IsString != 0 && c.V.Kind() == constant.Int:
				n, _ := constant.Int64Val(c.V)
				return Const{constant.MakeString(string(rune(n))), to}
			case b.Info()&types.IsNumeric != 0:
				return Const{c.V, to}
			}
		}
		return Const{c.V, to}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return retype(a, to)
	}
	return Sym{ID: typeKey(to) + "(" + a.Key() + ")", T: to, Weak: hasWeak(a)}
}

func (in *Interp) arith(st *State, x *ssa.BinOp, a, c Val) (Val, string) {
	if x.Op == token.ADD && isStringT(x.Type()) {
		return mkCat(in.resolve(st, a), in.resolve(st, c)), ""
	}
	a, c = in.resolve(st, a), in.resolve(st, c)
	ca, ok1 := a.(Const)
	cc, ok2 := c.(Const)
	if ok1 && ok2 {
		switch x.Op {
		case token.SHL, token.SHR:
			n, _ := constant.Uint64Val(cc.V)
			if n < 128 {
				return Const{constant.Shift(ca.V, x.Op, uint(n)), x.Type()}, ""
			}
		case token.QUO, token.REM:
			if constant.Sign(cc.V) == 0 {
				if ca.V.Kind() == constant.Int {
					return nil, "division by zero"
				}
				break
			}
			op := x.Op
			if op == token.QUO && ca.V.Kind() == constant.Int && cc.V.Kind() == constant.Int {
				op = token.QUO_ASSIGN
			}
			return Const{constant.BinaryOp(ca.V, op, cc.V), x.Type()}, ""
		default:
			return Const{constant.BinaryOp(ca.V, x.Op, cc.V), x.Type()}, ""
		}
	}
	weak := hasWeak(a) || hasWeak(c)
	ka, kc := a.Key(), c.Key()
	switch x.Op {
	case token.ADD, token.MUL, token.AND, token.OR:
		if kc < ka {
			ka, kc = kc, ka
		}
	}
	return Sym{ID: "(" + ka + x.Op.String() + kc + ")", T: x.Type(), Weak: weak}, ""
}

type assertAlt struct {
	alt
	res Val
}

// typeAssert decides x.(T).
func (in *Interp) typeAssert(st *State, v Val, t types.Type) []assertAlt {
	_, toIface := t.Underlying().(*types.Interface)
	switch x := v.(type) {
	case Nil:
		return []assertAlt{{alt{st, false}, nil}}
	case Iface:
		if toIface {
			if types.Implements(x.T, t.Underlying().(*types.Interface)) {
				return []assertAlt{{alt{st, true}, x}}
			}
			return []assertAlt{{alt{st, false}, nil}}
		}
		if types.Identical(x.T, t) {
			return []assertAlt{{alt{st, true}, x.V}}
		}
		return []assertAlt{{alt{st, false}, nil}}
	case Sym:
		f := st.fact(x)
		if f != nil && f.Nil == 1 {
			return []assertAlt{{alt{st, false}, nil}}
		}
		if toIface {
			if f != nil && f.Dyn != nil {
				ok := types.Implements(f.Dyn, t.Underlying().(*types.Interface))
				return []assertAlt{{alt{st, ok}, x}}
			}
			if x.T != nil && types.AssignableTo(x.T, t) {
				var out []assertAlt
				for _, a := range in.isNil(st, x) {
					out = append(out, assertAlt{alt{a.st, !a.v}, x})
				}
				return out
			}
			var out []assertAlt
			for _, a := range in.pred(st, "is("+x.ID+","+typeKey(t)+")", x.Weak) {
				if a.v {
					a.st.nonNil(x)
				}
				out = append(out, assertAlt{a, x})
			}
			return out
		}
		res := in.dynVal(x, t)
		if f != nil && f.Dyn != nil {
			return []assertAlt{{alt{st, types.Identical(f.Dyn, t)}, res}}
		}
		if f != nil && f.NDyn[typeKey(t)] {
			return []assertAlt{{alt{st, false}, nil}}
		}
		a, b := st, st.Fork()
		a.upd(x, func(f *Fact) { f.Dyn = t; f.Nil = 2 })
		b.upd(x, func(f *Fact) { f.NDyn[typeKey(t)] = true })
		return []assertAlt{{alt{a, true}, res}, {alt{b, false}, nil}}
	}
	undecided("type assertion on %s", v.Key())
	return nil
}

func (in *Interp) dynVal(x Sym, t types.Type) Val {
	return Sym{ID: x.ID + ".(" + typeKey(t) + ")", T: t, Weak: x.Weak}
}

// indexAddr is the address of an element of a slice or array.
func (in *Interp) indexAddr(st *State, base, idx Val, x *ssa.IndexAddr) (Val, string) {
	idx = in.resolve(st, idx)
	n, known := asInt(idx)
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok { // pointer to array
		if in.nilPanic(st, base) {
			return nil, "nil dereference"
		}
		p, ok := in.deref(st, base, pt.Elem())
		if !ok {
			undecided("index of %s", base.Key())
		}
		if known {
			return Ptr{p.Obj, p.Path + "/i" + strconv.Itoa(n)}, ""
		}
		return Ptr{p.Obj, p.Path + "/i?"}, ""
	}
	switch s := base.(type) {
	case Nil:
		return nil, "index out of range"
	case Slice:
		ok, ps := in.parts(st, s)
		spread := !ok
		for k, p := range ps {
			if p.Spread {
				if known && k > n {
					break
				}
				spread = true
			}
		}
		if known && !spread {
			if n < 0 || ok && n >= len(ps) {
				return nil, "index out of range"
			}
			return Ptr{s.Obj, "/i" + strconv.Itoa(s.Lo+n)}, ""
		}
		// element of a spread: when the unknown part is all there is, its elements have names
		if ok && len(ps) == 1 && ps[0].Spread {
			if ss, isSym := ps[0].V.(Sym); isSym && !ss.Weak {
				return in.indexAddr(st, ss, idx, x)
			}
		}
		if ok && known {
			// leading spread of known name
			if len(ps) > 0 && ps[0].Spread && n == 0 {
				_ = n
			}
		}
		return Ptr{s.Obj, "/i?"}, ""
	case Sym:
		if f := st.fact(s); f != nil && f.Nil == 1 {
			return nil, "index out of range"
		}
		id := "[]" + s.Key()
		if st.Heap[id] == nil {
			st.Heap[id] = &Obj{V: s, T: s.T, Weak: s.Weak}
		}
		if known {
			if n < 0 {
				return nil, "index out of range"
			}
			if f := st.fact(s); f != nil && f.LenMax >= 0 && n >= f.LenMax {
				return nil, "index out of range"
			}
			if !s.Weak {
				st.upd(s, func(f *Fact) {
					f.Nil = 2
					if f.LenMin < n+1 {
						f.LenMin = n + 1
					}
				})
			}
			return Ptr{id, "/i" + strconv.Itoa(n)}, ""
		}
		if l, ok := lastIndex(idx, s); ok && !s.Weak {
			return Ptr{id, "/i" + l}, ""
		}
		return Ptr{id, "/i?"}, ""
	}
	undecided("index of %s at %s", base.Key(), in.P.Pos(x.Pos()))
	return nil, ""
}

// lastIndex names the element at len(x)-k.
func lastIndex(idx Val, s Sym) (string, bool) {
	if y, ok := idx.(Sym); ok {
		pre := "(len(" + s.Key() + ")-"
		if strings.HasPrefix(y.ID, pre) && strings.HasSuffix(y.ID, ")") {
			return "end-" + y.ID[len(pre):len(y.ID)-1], true
		}
	}
	return "", false
}

type stVal struct {
	st *State
	v  Val
}

// mapObj gives the object of a map value, creating one for an unknown map.
func (in *Interp) mapObj(st *State, m Val, mt *types.Map) (string, bool) {
	switch x := m.(type) {
	case MapV:
		return x.Obj, true
	case Sym:
		id := "m:" + x.Key()
		if st.Heap[id] == nil {
			st.Heap[id] = &Obj{V: MapC{Ents: map[string]MapEnt{}, Base: x, T: mt}, T: x.T, Weak: x.Weak}
		}
		return id, true
	}
	return "", false
}

func (in *Interp) lookup(st *State, m, k Val, x *ssa.Lookup) []stVal {
	if isStringT(x.X.Type()) {
		a, i := in.resolve(st, m), in.resolve(st, k)
		if s, ok := asStr(a); ok {
			if n, ok := asInt(i); ok && n >= 0 && n < len(s) {
				return []stVal{{st, Const{constant.MakeInt64(int64(s[n])), x.Type()}}}
			}
		}
		return []stVal{{st, Sym{ID: a.Key() + "[" + i.Key() + "]", T: x.Type(), Weak: hasWeak(a) || hasWeak(i)}}}
	}
	mt := x.X.Type().Underlying().(*types.Map)
	res := func(v Val, ok bool) Val {
		if !x.CommaOk {
			return v
		}
		return Tuple{[]Val{v, cBool(ok)}}
	}
	var out []stVal
	for _, e := range in.mapGet(st, m, k, mt) {
		if e.v == nil {
			out = append(out, stVal{e.st, res(zero(mt.Elem()), false)})
		} else {
			out = append(out, stVal{e.st, res(e.v, true)})
		}
	}
	return out
}

// mapGet looks up a key, a nil value stands for absent.
func (in *Interp) mapGet(st *State, m, k Val, mt *types.Map) []stVal {
	if _, ok := in.resolve(st, m).(Nil); ok {
		return []stVal{{st, nil}}
	}
	id, ok := in.mapObj(st, m, mt)
	if !ok {
		undecided("lookup in %s", m.Key())
	}
	k = in.resolve(st, k)
	mc := st.Heap[id].V.(MapC)
	kk := k.Key()
	weak := hasWeak(k)
	if !weak {
		if e, ok := mc.Ents[kk]; ok {
			if e.Gone {
				return []stVal{{st, nil}}
			}
			return []stVal{{st, e.V}}
		}
	}
	// compare with the keys there are
	var out []stVal
	rest := []*State{st}
	for _, ek := range sortedEnts(mc) {
		e := mc.Ents[ek]
		var next []*State
		for _, s := range rest {
			for _, al := range in.equal(s, k, e.K) {
				if !al.v {
					next = append(next, al.st)
				} else if e.Gone {
					out = append(out, stVal{al.st, nil})
				} else {
					out = append(out, stVal{al.st, e.V})
				}
			}
		}
		rest = next
	}
	for _, s := range rest {
		if mc.Closed {
			out = append(out, stVal{s, nil})
			continue
		}
		base := id
		if mc.Base != nil {
			base = mc.Base.Key()
		}
		val := Sym{ID: base + "[" + kk + "]", T: mt.Elem(), Weak: weak || hasWeak(k) || st.Heap[id].Weak}
		a, b := s, s.Fork()
		if !val.Weak {
			in.setEnt(a, id, kk, MapEnt{K: k, V: val})
			in.setEnt(b, id, kk, MapEnt{K: k, Gone: true})
		}
		if b2, ok := mt.Elem().Underlying().(*types.Pointer); ok && b2 != nil {
			a.nonNil(val)
		}
		out = append(out, stVal{a, val}, stVal{b, nil})
	}
	return out
}

func sortedEnts(m MapC) []string {
	ks := make([]string, 0, len(m.Ents))
	for k := range m.Ents {
		ks = append(ks, k)
	}
	sortStrings(ks)
	return ks
}

func (in *Interp) setEnt(st *State, id, kk string, e MapEnt) {
	o := st.Heap[id]
	mc := o.V.(MapC)
	n := make(map[string]MapEnt, len(mc.Ents)+1)
	for k, v := range mc.Ents {
		n[k] = v
	}
	n[kk] = e
	st.Heap[id] = &Obj{V: MapC{Ents: n, Closed: mc.Closed, Base: mc.Base, T: mc.T}, T: o.T, Weak: o.Weak}
}

func (in *Interp) mapUpdate(st *State, m, k, v Val, x *ssa.MapUpdate) []*State {
	mt := x.Map.Type().Underlying().(*types.Map)
	id, ok := in.mapObj(st, m, mt)
	if !ok {
		undecided("update of %s", m.Key())
	}
	k = in.resolve(st, k)
	st.event(Event{Kind: "mapset", Args: []Val{m, k, v}, Pos: in.P.Pos(x.Pos()), Site: in.site(x)})
	return in.mapSet(st, id, k, v)
}

func (in *Interp) mapSet(st *State, id string, k, v Val) []*State {
	mc := st.Heap[id].V.(MapC)
	if hasWeak(k) {
		// some entry changes, which is not known
		n := map[string]MapEnt{}
		o := st.Heap[id]
		for kk, e := range mc.Ents {
			if !e.Gone && e.V.Key() == v.Key() {
				n[kk] = e
			}
		}
		st.Heap[id] = &Obj{V: MapC{Ents: n, Base: mc.Base, T: mc.T}, T: o.T, Weak: o.Weak}
		return []*State{st}
	}
	kk := k.Key()
	if _, ok := mc.Ents[kk]; ok {
		in.setEnt(st, id, kk, MapEnt{K: k, V: v})
		return []*State{st}
	}
	var out []*State
	rest := []*State{st}
	for _, ek := range sortedEnts(mc) {
		e := mc.Ents[ek]
		var next []*State
		for _, s := range rest {
			for _, al := range in.equal(s, k, e.K) {
				if al.v {
					in.setEnt(al.st, id, ek, MapEnt{K: e.K, V: v})
					out = append(out, al.st)
				} else {
					next = append(next, al.st)
				}
			}
		}
		rest = next
	}
	for _, s := range rest {
		in.setEnt(s, id, kk, MapEnt{K: k, V: v})
		out = append(out, s)
	}
	return out
}

func (in *Interp) makeIter(st *State, v Val, x *ssa.Range) Val {
	c := IterC{}
	v = in.resolve(st, v)
	if isStringT(x.X.Type()) {
		c.Str = true
		if s, ok := asStr(v); ok {
			for i, r := range s {
				c.Keys = append(c.Keys, Tuple{[]Val{cInt(i), Const{constant.MakeInt64(int64(r)), types.Typ[types.Rune]}}})
			}
		} else {
			c.Open = v
		}
	} else {
		mt := x.X.Type().Underlying().(*types.Map)
		if _, ok := v.(Nil); !ok {
			id, ok := in.mapObj(st, v, mt)
			if !ok {
				undecided("range over %s", v.Key())
			}
			mc := st.Heap[id].V.(MapC)
			for _, ek := range sortedEnts(mc) {
				if !mc.Ents[ek].Gone {
					c.Keys = append(c.Keys, mc.Ents[ek].K)
				}
			}
			c.Open = MapV{id}
			if mc.Closed {
				c.Open = Iface{V: MapV{id}} // marks a closed map
			}
		}
	}
	return IterV{in.alloc(st, "it:"+in.ctxSite(x), nil, c)}
}

func (in *Interp) next(st *State, it Val, x *ssa.Next) []stVal {
	iv, ok := it.(IterV)
	if !ok {
		undecided("unknown iterator at %s", in.P.Pos(x.Pos()))
	}
	c := st.Heap[iv.Obj].V.(IterC)
	tup := x.Type().(*types.Tuple)
	kt, vt := tup.At(1).Type(), tup.At(2).Type()
	set := func(st *State, c IterC) { st.Heap[iv.Obj] = &Obj{V: c} }
	invalid := func(t types.Type) bool {
		b, ok := t.(*types.Basic)
		return ok && b.Kind() == types.Invalid
	}
	if c.Pos < len(c.Keys) {
		k := c.Keys[c.Pos]
		n := c
		n.Pos++
		set(st, n)
		if c.Str {
			t := k.(Tuple)
			return []stVal{{st, Tuple{[]Val{cBool(true), t.E[0], t.E[1]}}}}
		}
		var mv Val = c.Open
		if i, ok := mv.(Iface); ok {
			mv = i.V
		}
		id := mv.(MapV).Obj
		var val Val = Nil{}
		if e, ok := st.Heap[id].V.(MapC).Ents[k.Key()]; ok && !e.Gone {
			val = e.V
		} else if !invalid(vt) {
			val = Sym{ID: id + "[" + k.Key() + "]", T: vt, Weak: true}
		}
		return []stVal{{st, Tuple{[]Val{cBool(true), k, val}}}}
	}
	done := Tuple{[]Val{cBool(false), Nil{}, Nil{}}}
	if _, closed := c.Open.(Iface); closed || c.Open == nil {
		return []stVal{{st, done}}
	}
	// unknown further entries
	a, b := st.Fork(), st
	n := c
	n.N++
	weak := n.N > in.NUnknown
	if weak {
		n.N = in.NUnknown + 1
	}
	set(b, n)
	if c.Str {
		k := Sym{ID: fmt.Sprintf("runeidx(%s)#%d", c.Open.Key(), n.N), T: kt, Weak: true}
		r := Sym{ID: fmt.Sprintf("rune(%s)#%d", c.Open.Key(), n.N), T: vt, Weak: true}
		return []stVal{{a, done}, {b, Tuple{[]Val{cBool(true), k, r}}}}
	}
	id := c.Open.(MapV).Obj
	mc := b.Heap[id].V.(MapC)
	base := id
	if mc.Base != nil {
		base = mc.Base.Key()
	}
	if invalid(kt) {
		kt = mc.T.Key()
	}
	if invalid(vt) {
		vt = mc.T.Elem()
	}
	k := Sym{ID: fmt.Sprintf("key(%s)#%d", base, n.N), T: kt, Weak: weak}
	val := Sym{ID: base + "[" + k.Key() + "]", T: vt, Weak: weak || b.Heap[id].Weak}
	if !weak {
		if e, ok := mc.Ents[k.Key()]; ok && !e.Gone {
			return []stVal{{a, done}, {b, Tuple{[]Val{cBool(true), k, e.V}}}}
		}
		in.setEnt(b, id, k.Key(), MapEnt{K: k, V: val})
	}
	if pt, ok := vt.Underlying().(*types.Pointer); ok && pt != nil {
		b.nonNil(val)
	}
	return []stVal{{a, done}, {b, Tuple{[]Val{cBool(true), k, val}}}}
}

func (in *Interp) slice(st *State, fr *frame, x *ssa.Slice) (Val, string) {
	base := in.val(fr, st, x.X)
	get := func(v ssa.Value) (int, bool, Val) {
		if v == nil {
			return 0, false, nil
		}
		val := in.resolve(st, in.val(fr, st, v))
		n, ok := asInt(val)
		return n, ok, val
	}
	lo, loK, loV := get(x.Low)
	hi, hiK, hiV := get(x.High)
	if x.Low == nil {
		lo, loK = 0, true
	}
	// pointer to array
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		p, ok := base.(Ptr)
		at := pt.Elem().Underlying().(*types.Array)
		if ok && p.Path == "" && loK && (x.High == nil || hiK) {
			if x.High == nil {
				hi = int(at.Len())
			}
			// from here on the array object is a sequence
			if a, ok := st.Heap[p.Obj].V.(Arr); ok {
				var ps []Part
				for _, e := range a.E {
					ps = append(ps, Part{V: e})
				}
				st.Heap[p.Obj] = &Obj{V: Seq{ps}, T: st.Heap[p.Obj].T, Weak: st.Heap[p.Obj].Weak}
			}
			return Slice{p.Obj, lo, hi}, ""
		}
		return Sym{ID: "slice(" + base.Key() + ")", T: x.Type(), Weak: true}, ""
	}
	if base2 := in.resolve(st, base); base2 != nil {
		if _, isNil := base2.(Nil); isNil {
			if loK && lo == 0 && (x.High == nil || hiK && hi == 0) {
				return base2, ""
			}
			if loK && lo > 0 || hiK && hi > 0 {
				return nil, "slice bounds out of range"
			}
		}
		if _, isC := base2.(Const); isC {
			base = base2
		}
	}
	if s, ok := asStr(base); ok && loK && (x.High == nil || hiK) {
		if x.High == nil {
			hi = len(s)
		}
		if lo < 0 || hi > len(s) || lo > hi {
			return nil, "slice bounds out of range"
		}
		return Const{constant.MakeString(s[lo:hi]), x.Type()}, ""
	}
	if s, ok := base.(Slice); ok && loK {
		okp, ps := in.parts(st, s)
		if okp {
			if x.High == nil {
				hi, hiK = len(ps), true
				for k, p := range ps {
					if p.Spread && k < lo {
						hiK = false
					}
				}
				if hiK && lo <= len(ps) {
					return Slice{s.Obj, s.Lo + lo, s.Lo + hi}, ""
				}
			} else if hiK {
				clean := true
				for k, p := range ps {
					if p.Spread && k < hi {
						clean = false
					}
				}
				if clean {
					if hi > len(ps) || lo > hi || lo < 0 {
						all := true
						for _, p := range ps {
							if p.Spread {
								all = false
							}
						}
						if all {
							return nil, "slice bounds out of range"
						}
					} else {
						return Slice{s.Obj, s.Lo + lo, s.Lo + hi}, ""
					}
				}
			}
		}
	}
	if loK && lo == 0 && x.High == nil {
		return base, ""
	}
	if c, ok := base.(Cat); ok && loK && x.High == nil {
		if f, ok := asStr(c.Parts[0]); ok && lo <= len(f) {
			return mkCat(append([]Val{cStr(f[lo:])}, c.Parts[1:]...)...), ""
		}
	}
	ls, hs := "", ""
	if loV != nil {
		ls = loV.Key()
	}
	if hiV != nil {
		hs = hiV.Key()
	}
	k := in.content(st, base, 3)
	return Sym{ID: k + "[" + ls + ":" + hs + "]", T: x.Type(), Weak: hasWeak(base) || strings.Contains(k, "~") || strings.Contains(ls+hs, "~")}, ""
}

// content renders a value with the objects it refers to, so that it can be the argument of a term.
func (in *Interp) content(st *State, v Val, depth int) string {
	if v == nil {
		return "_"
	}
	if depth == 0 {
		return v.Key()
	}
	v = in.resolve(st, v)
	switch x := v.(type) {
	case Slice:
		if ok, ps := in.parts(st, x); ok {
			var ss []string
			for _, p := range ps {
				s := in.content(st, p.V, depth-1)
				if p.Spread {
					s += "..."
				}
				ss = append(ss, s)
			}
			return "[" + strings.Join(ss, ",") + "]"
		}
	case Ptr:
		if o := st.Heap[x.Obj]; o != nil && !strings.HasPrefix(x.Obj, "g:") {
			if _, buf := st.Heap["buf:"+x.Key()]; buf {
				return x.Key()
			}
			val, _ := in.load(st, x, nil)
			return "&" + in.content(st, val, depth-1)
		}
	case MapV:
		if o := st.Heap[x.Obj]; o != nil {
			mc := o.V.(MapC)
			var ss []string
			for _, k := range sortedEnts(mc) {
				if e := mc.Ents[k]; e.Gone {
					if !mc.Closed {
						ss = append(ss, k+":gone")
					}
				} else {
					ss = append(ss, k+":"+in.content(st, e.V, depth-1))
				}
			}
			s := "map{" + strings.Join(ss, ",")
			if !mc.Closed {
				s += ",..."
				if mc.Base != nil {
					s += mc.Base.Key()
				}
			}
			return s + "}"
		}
	case Iface:
		return in.content(st, x.V, depth)
	case Struct:
		var ss []string
		for _, f := range x.F {
			ss = append(ss, in.content(st, f, depth-1))
		}
		return "{" + strings.Join(ss, ",") + "}"
	case Cat:
		var ss []string
		for _, p := range x.Parts {
			ss = append(ss, in.content(st, p, depth-1))
		}
		return "(" + strings.Join(ss, "+") + ")"
	case Func:
		return x.Fn.Key()
	}
	return v.Key()
}
