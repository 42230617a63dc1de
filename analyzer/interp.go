package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// FnRef is a reference to a function of the program.
type FnRef struct{ F *ssa.Function }

func (f FnRef) Key() string { return f.F.String() }

// Outcome is one way a function can end.
type Outcome struct {
	Ret   []Val
	St    *State
	Panic string // not empty if it panics
	Pos   token.Pos
}

// CallOut is one way a modelled call can end.
type CallOut struct {
	Ret   []Val
	St    *State
	Panic string
}

// CallInfo describes a call to a model.
type CallInfo struct {
	In     *Interp
	St     *State
	Name   string // full name of the callee, "invoke <iface>.<method>" for an unresolved interface call
	Fn     *ssa.Function
	Method *types.Func
	Recv   Val // receiver of an interface call
	Args   []Val
	Sig    *types.Signature
	Pos    token.Pos
	Site   string
	Depth  int
	Caller *ssa.Function
	Stack  []*ssa.Function
}

// Model is an abstract transformer for a call. It returns nil if it does not apply.
type Model func(c *CallInfo) []CallOut

// Interp is a path sensitive abstract interpreter over the SSA form: it propagates sets of abstract states through
// the flow graph to a fixpoint (states are partitioned by what is known, merged when equal, loops are widened).
type Interp struct {
	P            *Prog
	Hook         Model                                    // scenario specific models, consulted first
	Opaque       func(f *ssa.Function) bool               // in-repo functions which are not inlined
	OnRecv       func(st *State, ch Val, x *ssa.UnOp) Val // what is received from a channel
	OnLoadGlobal func(g *ssa.Global) Val
	MaxSteps     int
	MaxRec       int
	NUnknown     int // loop iterations with unknown conditions explored before widening
	MaxCons      int // rounds of a loop whose condition is known
	MaxVer       int // versions of what one place makes which are told apart
	steps        int
	Instrs       map[ssa.Instruction]bool // covered
	FnsIn        map[*ssa.Function]bool
	stack        []*ssa.Function
	live         map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	sites        map[ssa.Instruction]string
	ctx          []string
	Forks        int
	hard         bool
	Merged       int
}

func NewInterp(p *Prog) *Interp {
	return &Interp{P: p, MaxSteps: 3000000, MaxRec: 2, NUnknown: 3, MaxVer: 6, MaxCons: 100, Instrs: map[ssa.Instruction]bool{}, FnsIn: map[*ssa.Function]bool{}, live: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}, sites: map[ssa.Instruction]string{}}
}

// Undecided is raised when the analysis can not give an answer.
type Undecided struct{ Why string }

func undecided(f string, a ...interface{}) { panic(Undecided{fmt.Sprintf(f, a...)}) }

type deferred struct {
	call ssa.CallCommon
	fn   Val
	recv Val
	args []Val
	pos  token.Pos
	site string
}

type frame struct {
	fn        *ssa.Function
	env       map[ssa.Value]Val
	defers    []deferred
	iters     map[int]int
	cons      map[int]int
	mark      map[int]int
	snap      map[int]*State
	base      map[string]bool // objects which exist when the function is entered
	baseVer   map[string]int
	over      bool
	forks     int
	panicking string
	recovered bool
}

func (f *frame) fork() *frame {
	n := &frame{fn: f.fn, base: f.base, baseVer: f.baseVer, env: make(map[ssa.Value]Val, len(f.env)+4), forks: f.forks, panicking: f.panicking, recovered: f.recovered}
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = append([]deferred(nil), f.defers...)
	n.iters, n.cons, n.mark, n.snap = map[int]int{}, map[int]int{}, map[int]int{}, map[int]*State{}
	for k, v := range f.iters {
		n.iters[k] = v
	}
	for k, v := range f.cons {
		n.cons[k] = v
	}
	for k, v := range f.mark {
		n.mark[k] = v
	}
	for k, v := range f.snap {
		n.snap[k] = v
	}
	return n
}

type item struct {
	b    *ssa.BasicBlock
	prev *ssa.BasicBlock
	idx  int
	fr   *frame
	st   *State
}

func (in *Interp) site(i ssa.Instruction) string {
	if s, ok := in.sites[i]; ok {
		return s
	}
	n := 0
	for _, x := range i.Block().Instrs {
		if x == i {
			break
		}
		n++
	}
	s := fmt.Sprintf("%s:%d.%d", FnName(i.Parent()), i.Block().Index, n)
	in.sites[i] = s
	return s
}

func (in *Interp) ctxSite(i ssa.Instruction) string {
	s := in.site(i)
	if len(in.ctx) > 0 {
		s += "<" + strings.Join(in.ctx, "<")
	}
	return s
}

// fresh makes a new Sym for a site, a bounded number of versions are told apart.
func (in *Interp) fresh(st *State, base string, t types.Type) Sym {
	v := st.Ver[base]
	if v >= in.MaxVer {
		return Sym{ID: base, T: t, Weak: true}
	}
	st.Ver[base] = v + 1
	id := base
	if v > 0 {
		id = fmt.Sprintf("%s'%d", base, v)
	}
	return Sym{ID: id, T: t}
}

// alloc makes a new object, with the lowest version which is not in use.
func (in *Interp) alloc(st *State, base string, t types.Type, content Val) string {
	base = "o:" + base
	for v := 0; v < in.MaxVer; v++ {
		id := base
		if v > 0 {
			id = fmt.Sprintf("%s'%d", base, v)
		}
		if st.Heap[id] == nil {
			st.Heap[id] = &Obj{V: content, T: t}
			return id
		}
	}
	id := base + "~"
	switch content.(type) {
	case Seq, Arr:
		// sequences are told apart by their content
		id = fmt.Sprintf("%s~%x", base, hash(content.Key()))
		if o := st.Heap[id]; o == nil || o.V.Key() == content.Key() {
			st.Heap[id] = &Obj{V: content, T: t, Weak: true}
			return id
		}
	}
	if o := st.Heap[id]; o != nil && o.V.Key() != content.Key() {
		st.Heap[id] = &Obj{V: in.weakJoin(o.V, content, id, t), T: t, Weak: true}
		return id
	}
	st.Heap[id] = &Obj{V: content, T: t, Weak: true}
	return id
}

func (in *Interp) liveness(f *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if l, ok := in.live[f]; ok {
		return l
	}
	l := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range f.Blocks {
		l[b] = map[ssa.Value]bool{}
	}
	isLocal := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			return false
		}
		return v != nil
	}
	for changed := true; changed; {
		changed = false
		for i := len(f.Blocks) - 1; i >= 0; i-- {
			b := f.Blocks[i]
			cur := map[ssa.Value]bool{}
			succs := append([]*ssa.BasicBlock(nil), b.Succs...)
			if f.Recover != nil {
				succs = append(succs, f.Recover)
			}
			for _, s := range succs {
				for v := range l[s] {
					cur[v] = true
				}
				pi := -1
				for k, p := range s.Preds {
					if p == b {
						pi = k
					}
				}
				for _, x := range s.Instrs {
					phi, ok := x.(*ssa.Phi)
					if !ok {
						break
					}
					if pi >= 0 && isLocal(phi.Edges[pi]) {
						cur[phi.Edges[pi]] = true
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				x := b.Instrs[k]
				if v, ok := x.(ssa.Value); ok {
					delete(cur, v)
				}
				if _, ok := x.(*ssa.Phi); ok {
					continue
				}
				for _, op := range x.Operands(nil) {
					if *op != nil && isLocal(*op) {
						cur[*op] = true
					}
				}
			}
			if len(cur) != len(l[b]) {
				l[b] = cur
				changed = true
			}
		}
	}
	in.live[f] = l
	return l
}

// Run analyses a function from an initial state and returns every way it can end.
func (in *Interp) Run(fn *ssa.Function, args []Val, bind []Val, st *State) []Outcome {
	if fn.Blocks == nil {
		undecided("no body for %s", fn)
	}
	rec := 0
	for _, f := range in.stack {
		if f == fn {
			rec++
		}
	}
	in.FnsIn[fn] = true
	in.stack = append(in.stack, fn)
	defer func() { in.stack = in.stack[:len(in.stack)-1] }()

	fr := &frame{fn: fn, env: map[ssa.Value]Val{}, iters: map[int]int{}, cons: map[int]int{}, mark: map[int]int{}, snap: map[int]*State{}, base: map[string]bool{}, baseVer: map[string]int{}}
	for k := range st.Heap {
		fr.base[k] = true
	}
	for k, v := range st.Ver {
		fr.baseVer[k] = v
	}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		} else {
			fr.env[p] = in.fresh(st, FnName(fn)+"."+p.Name(), p.Type())
		}
	}
	for i, v := range fn.FreeVars {
		if i < len(bind) {
			fr.env[v] = bind[i]
		} else {
			fr.env[v] = in.fresh(st, FnName(fn)+"."+v.Name(), v.Type())
		}
	}
	work := []item{{b: fn.Blocks[0], fr: fr, st: st}}
	seen := map[string]bool{}
	var outs []Outcome
	outSeen := map[string]bool{}
	outKey := func(o Outcome) string {
		return keys(o.Ret) + "|" + o.Panic + "|" + fmt.Sprint(o.Pos) + "|" + o.St.Key()
	}
	emit := func(o Outcome) {
		if len(outs) == 0 {
			outs = append(outs, o)
			return
		}
		if len(outSeen) == 0 {
			outSeen[outKey(outs[0])] = true
		}
		k := outKey(o)
		if outSeen[k] {
			in.Merged++
			return
		}
		outSeen[k] = true
		outs = append(outs, o)
	}
	lv := in.liveness(fn)
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		if it.idx == 0 {
			if it.prev != nil {
				in.enterBlock(&it)
				if it.b.Dominates(it.prev) {
					in.forget(&it, lv[it.b])
				}
			}
			if alone := len(work) == 0 && len(outs) == 0 && it.fr.forks == 0; !alone && (len(it.b.Preds) > 1 || it.b == fn.Recover) {
				var ks []string
				for v := range lv[it.b] {
					if val, ok := it.fr.env[v]; ok {
						ks = append(ks, v.Name()+"="+val.Key())
					}
				}
				for _, x := range it.b.Instrs {
					phi, ok := x.(*ssa.Phi)
					if !ok {
						break
					}
					if val, ok := it.fr.env[phi]; ok {
						ks = append(ks, phi.Name()+"="+val.Key())
					}
				}
				sort.Strings(ks)
				var ds []string
				for _, d := range it.fr.defers {
					ds = append(ds, d.site+keys(d.args))
				}
				k := fmt.Sprintf("%d|%s|%s|%s|%s", it.b.Index, strings.Join(ks, ","), strings.Join(ds, ","), it.fr.panicking, it.st.Key())
				if seen[k] {
					in.Merged++
					continue
				}
				seen[k] = true
				if debugLoops {
					lastKeys = append(lastKeys, strings.ReplaceAll(k, "|", "\n"))
				}
			}
			if it.fr.over {
				d := ""
				if len(lastKeys) > 1 {
					d = diffKeys(lastKeys[len(lastKeys)-2], lastKeys[len(lastKeys)-1])
				}
				undecided("loop at %s does not converge: %s", in.P.Pos(loopPos(it.b)), d)
			}
		}
		in.block(it, &work, emit)
	}
	return outs
}

// enterBlock evaluates the phis of a block and widens at loop heads.
func (in *Interp) enterBlock(it *item) {
	b := it.b
	pi := -1
	for k, p := range b.Preds {
		if p == it.prev {
			pi = k
			break
		}
	}
	if pi < 0 {
		return
	}
	// two edges from the same predecessor are handled by the caller through the first match, phis of such edges agree
	back := b.Dominates(it.prev)
	widen := false
	if back {
		if it.fr.forks > it.fr.mark[b.Index] {
			it.fr.iters[b.Index]++
		} else {
			it.fr.cons[b.Index]++
		}
		if it.fr.iters[b.Index] >= in.NUnknown || it.fr.cons[b.Index] > in.MaxCons {
			widen = true
		}
		in.hard = it.fr.iters[b.Index] > in.NUnknown+4
		it.fr.over = it.fr.iters[b.Index] > in.NUnknown+14
	} else {
		delete(it.fr.iters, b.Index)
		delete(it.fr.cons, b.Index)
		delete(it.fr.snap, b.Index)
	}
	it.fr.mark[b.Index] = it.fr.forks
	var phis []*ssa.Phi
	var vals []Val
	for _, x := range b.Instrs {
		phi, ok := x.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		vals = append(vals, in.val(it.fr, it.st, phi.Edges[pi]))
	}
	for i, phi := range phis {
		v := vals[i]
		if widen {
			if old, ok := it.fr.env[phi]; ok {
				v = in.widen(it.st, old, v, "phi:"+in.site(phi), phi.Type())
			}
		}
		it.fr.env[phi] = v
	}
	if back && widen {
		if old := it.fr.snap[b.Index]; old != nil {
			in.widenHeap(old, it.st)
		}
	}
	it.fr.snap[b.Index] = it.st.Fork()
}

// forget drops, at a loop head, the objects nothing refers to any more, and what is known of values made in earlier
// iterations which are gone.
func (in *Interp) forget(it *item, live map[ssa.Value]bool) {
	st := it.st
	var roots []Val
	for v, val := range it.fr.env {
		phi, isPhi := v.(*ssa.Phi)
		if live[v] || isPhi && phi.Block() == it.b {
			roots = append(roots, val)
		} else if al, ok := v.(*ssa.Alloc); ok && !al.Heap {
			roots = append(roots, val)
		}
	}
	for _, d := range it.fr.defers {
		roots = append(roots, d.args...)
		roots = append(roots, d.fn, d.recv)
	}
	in.gc(st, roots, it.fr.base)
	var gone []string
	var blob string
	for base := range st.Ver {
		if _, ok := it.fr.baseVer[base]; ok {
			continue
		}
		if blob == "" {
			var b strings.Builder
			for _, r := range roots {
				if r != nil {
					b.WriteString(r.Key() + "\n")
				}
			}
			for id, o := range st.Heap {
				b.WriteString(id + "=" + o.V.Key() + "\n")
			}
			for _, e := range st.Events {
				b.WriteString(e.Key() + "\n")
			}
			blob = b.String()
		}
		if !strings.Contains(blob, base) {
			gone = append(gone, base)
		}
	}
	for _, base := range gone {
		delete(st.Ver, base)
		st.dropMention(base)
	}
}

// debugLoops keeps the state keys of loops for diagnosis.
var debugLoops bool
var lastKeys []string

func loopPos(b *ssa.BasicBlock) token.Pos {
	for _, i := range b.Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}
	return b.Parent().Pos()
}

// widen limits growing values. Values which can only take finitely many forms are left alone.
func (in *Interp) widen(st *State, old, new Val, base string, t types.Type) Val {
	if old == nil || old.Key() == new.Key() {
		return new
	}
	weak := Sym{ID: base, T: t, Weak: true}
	switch n := new.(type) {
	case Const:
		if n.V.Kind() == constant.Int || n.V.Kind() == constant.Float {
			return weak
		}
		if n.V.Kind() == constant.String {
			if o, ok := asStr(old); ok {
				s, _ := asStr(n)
				if strings.HasPrefix(s, o) {
					return mkCat(cStr(o), Sym{ID: base, T: t, Weak: true})
				}
			}
			if _, ok := old.(Cat); ok {
				return mkCat(prefixOf(old, new), weak)
			}
		}
		return new
	case Cat:
		return mkCat(prefixOf(old, new), weak)
	case Sym:
		if n.Weak && n.ID == base {
			return new
		}
		if in.hard || len(n.ID) > 600 {
			return weak
		}
		if t != nil {
			if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&(types.IsNumeric|types.IsString) != 0 && len(n.ID) > len(old.Key()) {
				return weak
			}
		}
		if strings.Contains(n.ID, old.Key()) {
			return weak
		}
		return new
	case Slice:
		os, oparts := in.parts(st, old)
		ns, nparts := in.parts(st, new)
		if os && ns && len(nparts) != len(oparts) {
			var pre []Part
			for i := range oparts {
				if i < len(nparts) && nparts[i].V.Key() == oparts[i].V.Key() && nparts[i].Spread == oparts[i].Spread {
					pre = append(pre, nparts[i])
				} else {
					break
				}
			}
			if len(pre) > 0 && pre[len(pre)-1].Spread {
				if s, ok := pre[len(pre)-1].V.(Sym); ok && s.Weak && s.ID == base {
					pre = pre[:len(pre)-1]
				}
			}
			pre = append(pre, Part{V: weak, Spread: true})
			id := "o:widen:" + base
			st.Heap[id] = &Obj{V: Seq{pre}, T: t}
			return Slice{Obj: id, Lo: 0, Hi: len(pre)}
		}
		return new
	case LenV:
		return weak
	case Struct:
		if o, ok := old.(Struct); ok && len(o.F) == len(n.F) {
			f := make([]Val, len(n.F))
			stt, _ := n.T.Underlying().(*types.Struct)
			for i := range f {
				var ft types.Type
				if stt != nil {
					ft = stt.Field(i).Type()
				}
				f[i] = in.widen(st, o.F[i], n.F[i], fmt.Sprintf("%s.%d", base, i), ft)
			}
			return Struct{n.T, f}
		}
	}
	return new
}

func prefixOf(a, b Val) Val {
	pa, pb := catParts(a), catParts(b)
	var out []Val
	for i := range pa {
		if i >= len(pb) {
			break
		}
		if pa[i].Key() == pb[i].Key() {
			out = append(out, pa[i])
			continue
		}
		sa, ok1 := asStr(pa[i])
		sb, ok2 := asStr(pb[i])
		if ok1 && ok2 {
			n := 0
			for n < len(sa) && n < len(sb) && sa[n] == sb[n] {
				n++
			}
			if n > 0 {
				out = append(out, cStr(sa[:n]))
			}
		}
		break
	}
	return mkCat(out...)
}

func catParts(v Val) []Val {
	if c, ok := v.(Cat); ok {
		return c.Parts
	}
	return []Val{v}
}

func (in *Interp) widenHeap(old, st *State) {
	for id, o := range st.Heap {
		p := old.Heap[id]
		if p == nil || p == o || p.V.Key() == o.V.Key() {
			continue
		}
		switch c := o.V.(type) {
		case MapC, IterC:
			if m, ok := c.(MapC); ok && len(m.Ents) > 24 {
				st.Heap[id] = &Obj{V: MapC{Ents: map[string]MapEnt{}, T: m.T, Base: m.Base}, T: o.T, Weak: o.Weak}
			}
			continue
		case Seq:
			pc, ok := p.V.(Seq)
			if ok && len(pc.Parts) != len(c.Parts) {
				st.Heap[id] = &Obj{V: Sym{ID: "w:" + id, T: o.T, Weak: true}, T: o.T, Weak: true}
			}
			continue
		}
		if _, ok := o.V.(Over); ok {
			st.Heap[id] = &Obj{V: Sym{ID: "h:" + id, T: o.T, Weak: true}, T: o.T, Weak: o.Weak}
			continue
		}
		st.Heap[id] = &Obj{V: in.widen(st, p.V, o.V, "h:"+id, o.T), T: o.T, Weak: o.Weak}
	}
}

// val evaluates an SSA value.
func (in *Interp) val(fr *frame, st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return zero(x.Type())
		}
		return Const{x.Value, x.Type()}
	case *ssa.Global:
		return in.globalPtr(st, x)
	case *ssa.Function:
		return Func{Fn: FnRef{x}}
	case *ssa.Builtin:
		return Sym{ID: "builtin:" + x.Name()}
	}
	if val, ok := fr.env[v]; ok {
		return val
	}
	undecided("value %s of %s is not available", v.Name(), fr.fn)
	return nil
}

func (in *Interp) globalPtr(st *State, g *ssa.Global) Val {
	id := "g:" + g.String()
	if st.Heap[id] == nil {
		et := g.Type().Underlying().(*types.Pointer).Elem()
		var v Val = Sym{ID: strings.TrimPrefix(id, "g:"), T: et}
		if in.OnLoadGlobal != nil {
			if w := in.OnLoadGlobal(g); w != nil {
				v = w
			}
		}
		if s, ok := v.(Sym); ok {
			if types.Identical(et, types.Universe.Lookup("error").Type()) {
				st.nonNil(s)
			}
		}
		st.Heap[id] = &Obj{V: v, T: et}
		if sp := g.Package(); sp != nil && in.P.inRepo[sp] && in.OnLoadGlobal == nil {
			in.initGlobal(st, g, id)
		} else if sp != nil && in.P.inRepo[sp] && in.OnLoadGlobal != nil {
			if _, isSym := v.(Sym); isSym {
				in.initGlobal(st, g, id)
			}
		}
	}
	return Ptr{Obj: id}
}

// initGlobal evaluates constant tables: a global which is only stored to once, by the package initialiser, with a
// constant or a map or slice literal of constants.
func (in *Interp) initGlobal(st *State, g *ssa.Global, id string) {
	initFn := g.Package().Func("init")
	if initFn == nil {
		return
	}
	var store *ssa.Store
	n := 0
	for _, f := range in.P.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if s, ok := i.(*ssa.Store); ok && s.Addr == g {
					n++
					if f == initFn {
						store = s
					}
				}
			}
		}
	}
	et := g.Type().Underlying().(*types.Pointer).Elem()
	if n == 0 {
		// the address may still be taken (methods with pointer receivers), only immutable looking kinds are zero
		switch et.Underlying().(type) {
		case *types.Basic:
			st.Heap[id] = &Obj{V: zero(et), T: et}
		}
		return
	}
	if n != 1 || store == nil {
		return
	}
	switch v := store.Val.(type) {
	case *ssa.Const:
		st.Heap[id] = &Obj{V: in.val(nil, st, v), T: et}
	case *ssa.MakeMap:
		mt := v.Type().Underlying().(*types.Map)
		mc := MapC{Ents: map[string]MapEnt{}, Closed: true, T: mt}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.MapUpdate:
				k, ok1 := r.Key.(*ssa.Const)
				if !ok1 {
					return
				}
				var val Val
				switch rv := r.Value.(type) {
				case *ssa.Const:
					val = in.val(nil, st, rv)
				case *ssa.Function:
					val = Func{Fn: FnRef{rv}}
				default:
					if mi, ok := rv.(*ssa.MakeInterface); ok {
						if c, ok := mi.X.(*ssa.Const); ok {
							val = Iface{mi.X.Type(), in.val(nil, st, c)}
						}
					}
					if val == nil {
						val = Sym{ID: id + "[" + k.Value.ExactString() + "]", T: mt.Elem()}
					}
				}
				kv := in.val(nil, st, k)
				mc.Ents[kv.Key()] = MapEnt{K: kv, V: val}
			case *ssa.Store, *ssa.DebugRef:
			default:
				return
			}
		}
		// a table is only constant if nobody updates it
		for _, f := range in.P.Funcs {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if u, ok := i.(*ssa.UnOp); ok && u.Op == token.MUL && u.X == g && f != initFn {
						for _, r := range *u.Referrers() {
							switch r.(type) {
							case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
							case *ssa.Call:
							default:
								return
							}
						}
					}
				}
			}
		}
		mid := "o:table:" + id
		st.Heap[mid] = &Obj{V: mc, T: v.Type()}
		st.Heap[id] = &Obj{V: MapV{mid}, T: et}
	}
}

func fieldName(t types.Type, i int) string {
	if s, ok := t.Underlying().(*types.Struct); ok && i < s.NumFields() {
		return s.Field(i).Name()
	}
	return strconv.Itoa(i)
}

func isIfaceT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	if ok {
		if _, tp := t.(*types.TypeParam); tp {
			return false
		}
	}
	return ok
}

// symField is the component of an unknown aggregate.
func symField(s Sym, name string, t types.Type) Sym {
	id := s.ID
	if strings.HasPrefix(id, "*") {
		id = id[1:]
	}
	return Sym{ID: id + "." + name, T: t, Weak: s.Weak}
}

// project reads a component of an aggregate.
func (in *Interp) project(v Val, el string, t types.Type) Val {
	switch x := v.(type) {
	case Struct:
		if el[0] == 'f' {
			i, _ := strconv.Atoi(el[1:])
			if i < len(x.F) {
				return x.F[i]
			}
		}
	case Arr:
		if el[0] == 'i' {
			if i, err := strconv.Atoi(el[1:]); err == nil && i >= 0 && i < len(x.E) {
				return x.E[i]
			}
		}
		return Sym{ID: "elem(" + x.Key() + ")", T: t, Weak: true}
	case Seq:
		if el[0] == 'i' {
			if i, err := strconv.Atoi(el[1:]); err == nil {
				for k, p := range x.Parts {
					if p.Spread {
						break
					}
					if k == i {
						return p.V
					}
				}
			}
		}
		return Sym{ID: "elem(" + x.Key() + ")", T: t, Weak: true}
	case Over:
		if w, ok := x.M[el]; ok {
			return w
		}
		return in.project(x.Base, el, t)
	case Sym:
		if el[0] == 'f' {
			i, _ := strconv.Atoi(el[1:])
			return symField(x, fieldName(x.T, i), t)
		}
		id := x.ID
		if el == "i?" {
			return Sym{ID: id + "[?]", T: t, Weak: true}
		}
		return Sym{ID: id + "[" + el[1:] + "]", T: t, Weak: x.Weak}
	}
	return Sym{ID: "proj(" + v.Key() + "," + el + ")", T: t, Weak: true}
}

// replaceAt writes a component of an aggregate.
func (in *Interp) replaceAt(v Val, path []string, nv Val, t types.Type) Val {
	if len(path) == 0 {
		return nv
	}
	el := path[0]
	switch x := v.(type) {
	case Struct:
		i, _ := strconv.Atoi(el[1:])
		f := append([]Val(nil), x.F...)
		var ft types.Type
		if s, ok := x.T.Underlying().(*types.Struct); ok {
			ft = s.Field(i).Type()
		}
		f[i] = in.replaceAt(f[i], path[1:], nv, ft)
		return Struct{x.T, f}
	case Arr:
		if i, err := strconv.Atoi(el[1:]); err == nil && i >= 0 && i < len(x.E) {
			e := append([]Val(nil), x.E...)
			e[i] = in.replaceAt(e[i], path[1:], nv, nil)
			return Arr{x.T, e}
		}
		return Sym{ID: "arr~", T: x.T, Weak: true}
	case Seq:
		if i, err := strconv.Atoi(el[1:]); err == nil && i >= 0 && i < len(x.Parts) {
			for k := 0; k <= i; k++ {
				if x.Parts[k].Spread {
					return Sym{ID: "seq~", Weak: true}
				}
			}
			p := append([]Part(nil), x.Parts...)
			p[i] = Part{V: in.replaceAt(p[i].V, path[1:], nv, nil)}
			return Seq{p}
		}
		// unknown position: every element may have changed
		p := make([]Part, len(x.Parts))
		for i := range p {
			p[i] = Part{V: Sym{ID: "seqelem~", Weak: true}, Spread: x.Parts[i].Spread}
		}
		return Seq{p}
	case Sym:
		if x.T != nil {
			if s, ok := x.T.Underlying().(*types.Struct); ok && el[0] == 'f' {
				n := Struct{T: x.T, F: make([]Val, s.NumFields())}
				for i := range n.F {
					n.F[i] = symField(x, s.Field(i).Name(), s.Field(i).Type())
				}
				return in.replaceAt(n, path, nv, t)
			}
		}
		if x.Weak || el == "i?" {
			return Over{Base: Sym{ID: x.ID + "!", T: x.T, Weak: true}, M: map[string]Val{}}
		}
		return in.replaceAt(Over{Base: x, M: map[string]Val{}}, path, nv, t)
	case Over:
		m := make(map[string]Val, len(x.M)+1)
		if _, err := strconv.Atoi(el[1:]); err == nil {
			for k, w := range x.M {
				m[k] = w
			}
		} else {
			// unknown index, forget the others
			return Over{Base: Sym{ID: x.Base.ID + "!", T: x.Base.T, Weak: true}, M: m}
		}
		cur, ok := x.M[el]
		if !ok {
			cur = in.project(x.Base, el, nil)
		}
		m[el] = in.replaceAt(cur, path[1:], nv, nil)
		return Over{x.Base, m}
	}
	return v
}

func splitPath(p string) []string {
	if p == "" {
		return nil
	}
	return strings.Split(p[1:], "/")
}

// deref turns a pointer value into the object it points to, creating the object behind an unknown pointer on demand.
func (in *Interp) deref(st *State, v Val, elem types.Type) (Ptr, bool) {
	switch p := v.(type) {
	case Ptr:
		return p, true
	case Sym:
		id := "*" + p.Key()
		if st.Heap[id] == nil {
			st.Heap[id] = &Obj{V: Sym{ID: "*" + p.ID, T: elem, Weak: p.Weak}, T: elem, Weak: p.Weak}
		}
		return Ptr{Obj: id}, true
	}
	return Ptr{}, false
}

func (in *Interp) load(st *State, v Val, t types.Type) (Val, bool) {
	p, ok := in.deref(st, v, t)
	if !ok {
		return nil, false
	}
	o := st.Heap[p.Obj]
	if o == nil {
		return Sym{ID: "dangling", T: t, Weak: true}, true
	}
	cur := o.V
	path := splitPath(p.Path)
	for i, el := range path {
		var et types.Type
		if i == len(path)-1 {
			et = t
		} else if s, ok := cur.(Sym); ok && s.T != nil {
			et = compType(s.T, el)
		}
		cur = in.project(cur, el, et)
	}
	if s, ok := cur.(Sym); ok && s.T == nil {
		s.T = t
		cur = s
	}
	return cur, true
}

func compType(t types.Type, el string) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if i, err := strconv.Atoi(el[1:]); err == nil && i < u.NumFields() {
			return u.Field(i).Type()
		}
	case *types.Array:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	}
	return nil
}

func (in *Interp) store(st *State, addr, v Val, t types.Type) bool {
	p, ok := in.deref(st, addr, t)
	if !ok {
		return false
	}
	o := st.Heap[p.Obj]
	if o == nil {
		return true
	}
	nv := in.replaceAt(o.V, splitPath(p.Path), v, t)
	if o.Weak && nv.Key() != o.V.Key() {
		// one of several objects changed
		nv = in.weakJoin(o.V, nv, p.Obj, o.T)
	}
	st.Heap[p.Obj] = &Obj{V: nv, T: o.T, Weak: o.Weak}
	return true
}

func (in *Interp) weakJoin(a, b Val, base string, t types.Type) Val {
	if a.Key() == b.Key() {
		return a
	}
	sa, ok1 := a.(Struct)
	sb, ok2 := b.(Struct)
	if ok1 && ok2 && len(sa.F) == len(sb.F) {
		f := make([]Val, len(sa.F))
		st, _ := sa.T.Underlying().(*types.Struct)
		for i := range f {
			var ft types.Type
			if st != nil {
				ft = st.Field(i).Type()
			}
			f[i] = in.weakJoin(sa.F[i], sb.F[i], fmt.Sprintf("%s.%d", base, i), ft)
		}
		return Struct{sa.T, f}
	}
	ma, ok1 := a.(MapC)
	mb, ok2 := b.(MapC)
	if ok1 && ok2 {
		n := MapC{Ents: map[string]MapEnt{}, T: ma.T, Base: Sym{ID: "wj:" + base, Weak: true}}
		for k, e := range ma.Ents {
			if f, ok := mb.Ents[k]; ok && f.Gone == e.Gone && (e.Gone || f.V.Key() == e.V.Key()) {
				n.Ents[k] = e
			}
		}
		return n
	}
	qa, ok1 := a.(Seq)
	qb, ok2 := b.(Seq)
	if ok1 && ok2 {
		n := Seq{}
		for i := 0; i < len(qa.Parts) || i < len(qb.Parts); i++ {
			if i < len(qa.Parts) && i < len(qb.Parts) && qa.Parts[i].Spread == qb.Parts[i].Spread {
				n.Parts = append(n.Parts, Part{V: in.weakJoin(qa.Parts[i].V, qb.Parts[i].V, base+"[]", nil), Spread: qa.Parts[i].Spread})
			} else {
				n.Parts = append(n.Parts, Part{V: Sym{ID: "wj:" + base + "[]", Weak: true}, Spread: true})
			}
		}
		return n
	}
	return Sym{ID: "wj:" + base, T: t, Weak: true}
}

// parts lists the elements of a slice of a known sequence.
func (in *Interp) parts(st *State, v Val) (bool, []Part) {
	switch s := v.(type) {
	case Nil:
		return true, nil
	case Slice:
		o := st.Heap[s.Obj]
		if o == nil {
			return false, nil
		}
		q, ok := o.V.(Seq)
		if !ok {
			if a, ok := o.V.(Arr); ok && s.Hi <= len(a.E) {
				var ps []Part
				for _, e := range a.E[s.Lo:s.Hi] {
					ps = append(ps, Part{V: e})
				}
				return true, ps
			}
			return false, nil
		}
		if s.Hi > len(q.Parts) {
			return false, nil
		}
		return true, q.Parts[s.Lo:s.Hi]
	case Sym:
		return true, []Part{{V: s, Spread: true}}
	}
	return false, nil
}

// known elements only
func (in *Interp) elems(st *State, v Val) ([]Val, bool) {
	ok, ps := in.parts(st, v)
	if !ok {
		return nil, false
	}
	var out []Val
	for _, p := range ps {
		if p.Spread {
			return nil, false
		}
		out = append(out, p.V)
	}
	return out, true
}

func (in *Interp) mkSlice(st *State, base string, t types.Type, ps []Part) Val {
	if len(ps) > 40 && len(ps) > in.MaxCons-60 {
		ps = append(append([]Part(nil), ps[:8]...), Part{V: Sym{ID: "more:" + base, T: t, Weak: true}, Spread: true})
	}
	id := in.alloc(st, base, t, Seq{append([]Part(nil), ps...)})
	return Slice{Obj: id, Lo: 0, Hi: len(ps)}
}

// length gives the length of a string, slice, array, map.
func (in *Interp) length(st *State, v Val) Val {
	switch x := v.(type) {
	case Const:
		if s, ok := asStr(x); ok {
			return cInt(len(s))
		}
	case Nil:
		return cInt(0)
	case Slice:
		if ok, ps := in.parts(st, x); ok {
			for _, p := range ps {
				if p.Spread {
					return LenV{x}
				}
			}
			return cInt(len(ps))
		}
		return LenV{x}
	case MapV:
		if m, ok := st.Heap[x.Obj].V.(MapC); ok && m.Closed {
			n := 0
			for _, e := range m.Ents {
				if !e.Gone {
					n++
				}
			}
			return cInt(n)
		}
		return LenV{x}
	case Sym:
		if f := st.fact(x); f != nil {
			if f.Nil == 1 {
				return cInt(0)
			}
			if f.LenMax >= 0 && f.LenMin == f.LenMax {
				return cInt(f.LenMax)
			}
			if f.Eq != nil {
				return in.length(st, f.Eq)
			}
		}
		if x.T != nil {
			if a, ok := x.T.Underlying().(*types.Array); ok {
				return cInt(int(a.Len()))
			}
		}
	case Arr:
		return cInt(len(x.E))
	}
	return LenV{v}
}

// lenBounds gives the known bounds of a length.
func (in *Interp) lenBounds(st *State, l LenV) (int, int) {
	switch x := l.X.(type) {
	case Sym:
		if f := st.fact(x); f != nil {
			min := f.LenMin
			if f.Ne["\"\""] && min < 1 {
				min = 1
			}
			return min, f.LenMax
		}
		return 0, -1
	case Cat:
		n := 0
		for _, p := range x.Parts {
			if s, ok := asStr(p); ok {
				n += len(s)
			}
		}
		return n, -1
	case Slice:
		n := 0
		if ok, ps := in.parts(st, x); ok {
			for _, p := range ps {
				if !p.Spread {
					n++
				}
			}
		}
		return n, -1
	case MapV:
		n := 0
		if m, ok := st.Heap[x.Obj].V.(MapC); ok {
			for _, e := range m.Ents {
				if !e.Gone {
					n++
				}
			}
		}
		return n, -1
	}
	return 0, -1
}

// alt is one refinement of a state under which a condition has a value.
type alt struct {
	st *State
	v  bool
}

// nilness decides v == nil.
func (in *Interp) isNil(st *State, v Val) []alt {
	switch x := v.(type) {
	case Nil:
		return []alt{{st, true}}
	case Sym:
		if f := st.fact(x); f != nil && f.Nil != 0 {
			return []alt{{st, f.Nil == 1}}
		}
		if x.Weak {
			a, b := st, st.Fork()
			return []alt{{a, true}, {b, false}}
		}
		a, b := st, st.Fork()
		a.upd(x, func(f *Fact) { f.Nil = 1; f.LenMax = 0 })
		b.upd(x, func(f *Fact) { f.Nil = 2 })
		return []alt{{a, true}, {b, false}}
	case Slice:
		// a widened or appended slice with only a spread unknown may be nil
		if ok, ps := in.parts(st, x); ok && len(ps) > 0 {
			all := true
			for _, p := range ps {
				if !p.Spread {
					all = false
				}
			}
			if all {
				return []alt{{st, true}, {st.Fork(), false}}
			}
		}
		return []alt{{st, false}}
	}
	return []alt{{st, false}}
}

// pred forks on an uninterpreted condition, remembering the choice.
func (in *Interp) pred(st *State, key string, weak bool) []alt {
	if v, ok := st.Preds[key]; ok {
		return []alt{{st, v}}
	}
	a, b := st, st.Fork()
	if !weak {
		a.Preds[key] = true
		b.Preds[key] = false
	}
	return []alt{{a, true}, {b, false}}
}

func hasWeak(v Val) bool {
	return strings.Contains(v.Key(), "~")
}

// equal decides a == b.
func (in *Interp) equal(st *State, a, b Val) []alt {
	if _, ok := a.(Nil); ok {
		return in.isNil(st, b)
	}
	if _, ok := b.(Nil); ok {
		return in.isNil(st, a)
	}
	a, b = in.resolve(st, a), in.resolve(st, b)
	if !hasWeak(a) && a.Key() == b.Key() {
		return []alt{{st, true}}
	}
	ca, aok := a.(Const)
	cb, bok := b.(Const)
	if aok && bok {
		return []alt{{st, constant.Compare(ca.V, token.EQL, cb.V)}}
	}
	if aok {
		a, b = b, a
		cb, bok = ca, true
	}
	switch x := a.(type) {
	case Sym:
		if bok {
			f := st.fact(x)
			if f != nil {
				if f.Eq != nil {
					return []alt{{st, f.Eq.Key() == cb.Key()}}
				}
				if f.Ne[cb.Key()] {
					return []alt{{st, false}}
				}
				if s, ok := asStr(cb); ok && (len(s) < f.LenMin || f.LenMax >= 0 && len(s) > f.LenMax) {
					return []alt{{st, false}}
				}
			}
			if s, ok := asStr(cb); ok && strings.HasPrefix(x.ID, "other:") && s != "" {
				return []alt{{st, false}}
			}
			t, e := st, st.Fork()
			t.upd(x, func(f *Fact) { f.Eq = cb; f.Nil = 2 })
			e.upd(x, func(f *Fact) { f.Ne[cb.Key()] = true })
			return []alt{{t, true}, {e, false}}
		}
		if i, ok := b.(Iface); ok {
			// comparing an unknown interface with a known one
			if f := st.fact(x); f != nil {
				if f.Nil == 1 {
					return []alt{{st, false}}
				}
				if f.Dyn != nil && !types.Identical(f.Dyn, i.T) {
					return []alt{{st, false}}
				}
			}
		}
		if y, ok := b.(Sym); ok {
			if distinctTypes(x, y) {
				return []alt{{st, false}}
			}
			fx, fy := st.fact(x), st.fact(y)
			if fx != nil && fy != nil {
				if fx.Nil == 1 && fy.Nil == 2 || fx.Nil == 2 && fy.Nil == 1 {
					return []alt{{st, false}}
				}
				if fx.Nil == 1 && fy.Nil == 1 {
					return []alt{{st, true}}
				}
			}
		}
	case LenV:
		if n, ok := asInt(b); ok {
			return in.lenCmp(st, x, token.EQL, n)
		}
	case Cat:
		if s, ok := asStr(b); ok {
			// constant parts must fit
			pos := 0
			for i, p := range x.Parts {
				if ps, ok := asStr(p); ok {
					if i == 0 {
						if !strings.HasPrefix(s, ps) {
							return []alt{{st, false}}
						}
						pos = len(ps)
					} else if i == len(x.Parts)-1 {
						if len(s) < pos || !strings.HasSuffix(s[pos:], ps) {
							return []alt{{st, false}}
						}
					} else {
						k := strings.Index(s[pos:], ps)
						if k < 0 {
							return []alt{{st, false}}
						}
						pos += k + len(ps)
					}
				}
			}
		}
	case Iface:
		if y, ok := b.(Iface); ok {
			if !types.Identical(x.T, y.T) {
				return []alt{{st, false}}
			}
			return in.equal(st, x.V, y.V)
		}
	case Struct:
		if y, ok := b.(Struct); ok && len(x.F) == len(y.F) {
			out := []alt{{st, true}}
			for i := range x.F {
				var next []alt
				for _, o := range out {
					if !o.v {
						next = append(next, o)
						continue
					}
					next = append(next, in.equal(o.st, x.F[i], y.F[i])...)
				}
				out = next
			}
			return out
		}
	case Ptr:
		if y, ok := b.(Ptr); ok && x != y {
			return []alt{{st, false}}
		}
	}
	ks := []string{a.Key(), b.Key()}
	sort.Strings(ks)
	return in.pred(st, "eq("+ks[0]+","+ks[1]+")", hasWeak(a) || hasWeak(b))
}

// resolve replaces a Sym known to be a constant by the constant.
func (in *Interp) resolve(st *State, v Val) Val {
	switch s := v.(type) {
	case Sym:
		if f := st.fact(s); f != nil {
			if f.Eq != nil {
				return f.Eq
			}
			if f.Nil == 1 {
				return Nil{s.T}
			}
		}
	case LenV:
		return in.length(st, s.X)
	}
	return v
}

func (in *Interp) lenCmp(st *State, l LenV, op token.Token, n int) []alt {
	min, max := in.lenBounds(st, l)
	dec := func(min, max int) int8 { // 1 true 2 false 0 unknown
		switch op {
		case token.EQL:
			if max >= 0 && min == max && min == n {
				return 1
			}
			if n < min || max >= 0 && n > max {
				return 2
			}
		case token.NEQ:
			if max >= 0 && min == max && min == n {
				return 2
			}
			if n < min || max >= 0 && n > max {
				return 1
			}
		case token.LSS:
			if max >= 0 && max < n {
				return 1
			}
			if min >= n {
				return 2
			}
		case token.LEQ:
			if max >= 0 && max <= n {
				return 1
			}
			if min > n {
				return 2
			}
		case token.GTR:
			if min > n {
				return 1
			}
			if max >= 0 && max <= n {
				return 2
			}
		case token.GEQ:
			if min >= n {
				return 1
			}
			if max >= 0 && max < n {
				return 2
			}
		}
		return 0
	}
	switch dec(min, max) {
	case 1:
		return []alt{{st, true}}
	case 2:
		return []alt{{st, false}}
	}
	s, ok := l.X.(Sym)
	if !ok || s.Weak {
		return in.pred(st, fmt.Sprintf("len(%s)%s%d", l.X.Key(), op, n), hasWeak(l.X))
	}
	t, e := st, st.Fork()
	set := func(st *State, op token.Token) {
		st.upd(s, func(f *Fact) {
			switch op {
			case token.EQL:
				f.LenMin, f.LenMax = n, n
			case token.NEQ:
				if n == f.LenMin {
					f.LenMin = n + 1
				}
			case token.LSS:
				if f.LenMax < 0 || f.LenMax > n-1 {
					f.LenMax = n - 1
				}
			case token.LEQ:
				if f.LenMax < 0 || f.LenMax > n {
					f.LenMax = n
				}
			case token.GTR:
				if f.LenMin < n+1 {
					f.LenMin = n + 1
				}
			case token.GEQ:
				if f.LenMin < n {
					f.LenMin = n
				}
			}
			if f.LenMin > 0 && s.T != nil {
				f.Nil = 2
			}
			if f.LenMax == 0 && s.T != nil {
				if b, ok := s.T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
					f.Eq = cStr("")
				}
			}
		})
	}
	neg := map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL, token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR}
	set(t, op)
	set(e, neg[op])
	return []alt{{t, true}, {e, false}}
}

// compare decides ordered comparisons.
func (in *Interp) compare(st *State, op token.Token, a, b Val) []alt {
	switch op {
	case token.EQL:
		return in.equal(st, a, b)
	case token.NEQ:
		r := in.equal(st, a, b)
		for i := range r {
			r[i].v = !r[i].v
		}
		return r
	}
	a, b = in.resolve(st, a), in.resolve(st, b)
	ca, aok := a.(Const)
	cb, bok := b.(Const)
	if aok && bok {
		return []alt{{st, constant.Compare(ca.V, op, cb.V)}}
	}
	flip := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}
	if l, ok := a.(LenV); ok {
		if n, ok := asInt(b); ok {
			return in.lenCmp(st, l, op, n)
		}
	}
	if l, ok := b.(LenV); ok {
		if n, ok := asInt(a); ok {
			return in.lenCmp(st, l, flip[op], n)
		}
	}
	weak := hasWeak(a) || hasWeak(b)
	if !weak && a.Key() == b.Key() {
		return []alt{{st, op == token.LEQ || op == token.GEQ}}
	}
	// canonical form a < b / a <= b
	switch op {
	case token.GTR:
		return in.pred(st, b.Key()+"<"+a.Key(), weak)
	case token.GEQ:
		r := in.pred(st, a.Key()+"<"+b.Key(), weak)
		for i := range r {
			r[i].v = !r[i].v
		}
		return r
	case token.LEQ:
		r := in.pred(st, b.Key()+"<"+a.Key(), weak)
		for i := range r {
			r[i].v = !r[i].v
		}
		return r
	}
	return in.pred(st, a.Key()+"<"+b.Key(), weak)
}

// truth decides a boolean value.
func (in *Interp) truth(st *State, v Val) []alt {
	if b, ok := asBool(v); ok {
		return []alt{{st, b}}
	}
	if s, ok := v.(Sym); ok {
		if f := st.fact(s); f != nil && f.Eq != nil {
			b, _ := asBool(f.Eq)
			return []alt{{st, b}}
		}
		if s.Weak {
			return []alt{{st, true}, {st.Fork(), false}}
		}
		t, e := st, st.Fork()
		t.upd(s, func(f *Fact) { f.Eq = cBool(true) })
		e.upd(s, func(f *Fact) { f.Eq = cBool(false) })
		return []alt{{t, true}, {e, false}}
	}
	return in.pred(st, "true("+v.Key()+")", hasWeak(v))
}
