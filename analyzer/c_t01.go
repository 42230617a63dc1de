package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("T01", "points-to analysis with one context per phase (package initialisation, loading schemas, building transformers, transforming): every write (assignment, map update, append, copy, decoding into, reordering or a mutating library call) in the code reachable from Transform and TransformNoValidation hits only objects which the same transform made; no goroutine is started there", checkT01)
	register("S03", "points-to analysis with one context per phase: no write in later loads, walks, validations, transformer building, transforming or code generation hits an object of a schema (or any other shared object) made by an earlier load, apart from accesses guarded by a lock or a concurrent map", checkS03)
}

const (
	phInit = iota
	phLoad
	phLoad2
	phUse
	phBuild
	phTransform
)

var phaseNames = []string{"package initialisation or the caller", "loading a schema", "a later load", "walking, validating or generating", "building a transformer", "transforming"}

// lifePhases runs the points-to analysis over the whole life of schemas and transformers.
func lifePhases(c *Ctx) *PTA {
	a := NewPTA(c.P)
	p := c.P
	for _, n := range []string{"jsonschema", "transform", "generate", "main"} {
		if sp := p.Pkg(n); sp != nil {
			if f := sp.Func("init"); f != nil {
				a.Enter(f, phInit)
			}
		}
	}
	// the caller's arguments
	param := func(f *ssa.Function, phase, i int) {
		t := f.Params[i].Type()
		for _, lf := range a.leaves(t) {
			switch lf.typ.Underlying().(type) {
			case *types.Slice, *types.Map, *types.Pointer:
				o := a.obj(fmt.Sprintf("arg %s %d%s", f.String(), i, lf.path), phInit, "arg", lf.typ, fmt.Sprintf("the caller's argument %s of %s", f.Params[i].Name(), FnName(f)))
				a.addLoc(place{phase: phase, v: f.Params[i], path: lf.path}, ploc{o, ""})
			}
		}
	}
	exported := func(pkg string) []*ssa.Function {
		var out []*ssa.Function
		for _, f := range p.Funcs {
			if FnPkg(f) != p.Pkg(pkg) || f.Parent() != nil || f.Synthetic != "" {
				continue
			}
			if o := f.Object(); o == nil || !o.Exported() {
				continue
			}
			out = append(out, f)
		}
		return out
	}
	schemaT := p.Type("jsonschema", "Schema")
	trT := p.Type("transform", "Transformer")
	if schemaT == nil || trT == nil {
		undecided("the types jsonschema.Schema and transform.Transformer are not there")
	}
	isPtr := func(t, to types.Type) bool {
		pt, ok := t.Underlying().(*types.Pointer)
		return ok && types.Identical(pt.Elem(), to)
	}
	var loaders, builders, transforms []*ssa.Function
	type use struct {
		f *ssa.Function
		i int
	}
	var uses, builds []use
	for _, f := range exported("jsonschema") {
		res := f.Signature.Results()
		made := false
		for i := 0; i < res.Len(); i++ {
			if isPtr(res.At(i).Type(), schemaT) || strings.HasPrefix(f.Name(), "NewValidator") || f.Name() == "SchemaTypes" {
				made = true
			}
		}
		if made && f.Signature.Recv() == nil {
			loaders = append(loaders, f)
			continue
		}
		for i, pr := range f.Params {
			if isPtr(pr.Type(), schemaT) {
				uses = append(uses, use{f, i})
			}
		}
	}
	for _, f := range exported("transform") {
		if f.Signature.Recv() != nil {
			if isPtr(f.Signature.Recv().Type(), trT) {
				transforms = append(transforms, f)
			}
			continue
		}
		for i, pr := range f.Params {
			if isPtr(pr.Type(), schemaT) {
				builders = append(builders, f)
				builds = append(builds, use{f, i})
			}
		}
	}
	if len(loaders) < 3 || len(builders) < 2 || len(transforms) < 2 || len(uses) < 3 {
		undecided("found %d functions loading a schema, %d building a transformer, %d transforming and %d using a schema", len(loaders), len(builders), len(transforms), len(uses))
	}
	for _, f := range loaders {
		for _, ph := range []int{phLoad, phLoad2} {
			a.Enter(f, ph)
			for i := range f.Params {
				param(f, ph, i)
			}
		}
	}
	for _, u := range uses {
		a.Enter(u.f, phUse)
		for i := range u.f.Params {
			if i != u.i {
				param(u.f, phUse, i)
			}
		}
	}
	for _, f := range exported("generate") {
		if f.Signature.Recv() == nil {
			a.Enter(f, phUse)
			for i := range f.Params {
				param(f, phUse, i)
			}
		}
	}
	for _, f := range builders {
		a.Enter(f, phBuild)
	}
	for _, f := range transforms {
		a.Enter(f, phTransform)
		for i := 1; i < len(f.Params); i++ {
			param(f, phTransform, i)
		}
	}
	// results of one phase are arguments of the next: repeat until nothing changes
	for n := 0; ; n++ {
		a.Solve()
		a.changed = false
		for _, f := range loaders {
			res := f.Signature.Results()
			for i := 0; i < res.Len(); i++ {
				if !isPtr(res.At(i).Type(), schemaT) {
					continue
				}
				for _, ph := range []int{phLoad, phLoad2} {
					src := place{phase: ph, fn: f, path: fmt.Sprintf("#%d", i)}
					for _, u := range uses {
						a.flow(src, place{phase: phUse, v: u.f.Params[u.i]}, res.At(i).Type())
					}
					for _, u := range builds {
						a.flow(src, place{phase: phBuild, v: u.f.Params[u.i]}, res.At(i).Type())
					}
				}
			}
		}
		for _, f := range builders {
			for _, g := range transforms {
				a.flow(place{phase: phBuild, fn: f, path: "#0"}, place{phase: phTransform, v: g.Params[0]}, g.Params[0].Type())
			}
		}
		if !a.changed {
			break
		}
		if n > 50 {
			undecided("the phases do not settle")
		}
	}
	return a
}

// coverPTA records what the analysis looked at.
func coverPTA(c *Ctx, a *PTA, phases ...int) {
	n := 0
	for _, k := range a.work {
		for _, ph := range phases {
			if k.phase == ph {
				n++
				c.Fn(k.f)
				for _, b := range k.f.Blocks {
					for _, in := range b.Instrs {
						c.cov[in] = true
					}
				}
			}
		}
	}
	c.Note("contexts", fmt.Sprint(n))
	c.Note("abstract objects", fmt.Sprint(len(a.objs)))
}

// judgeWrites turns the writes of the given phases into obligations.
func judgeWrites(c *Ctx, a *PTA, rule string, allowLocks bool, phases ...int) {
	type group struct {
		fn   string
		how  string
		desc string
		pos  string
	}
	bad := map[group][]string{}
	seen := map[string]bool{}
	for _, w := range a.Writes() {
		in := false
		for _, ph := range phases {
			in = in || w.phase == ph
		}
		if !in {
			continue
		}
		construct := FnName(w.fn) + " " + w.how + " in " + phaseNames[w.phase]
		if w.loc.o.phase < w.phase && !(allowLocks && lockHeld(w.instr)) {
			if isPublication(w) {
				continue
			}
			bad[group{construct, w.how, w.loc.o.desc, c.Pos(w.instr.Pos())}] = []string{fmt.Sprintf("object of phase: %s, part %q", phaseNames[w.loc.o.phase], w.loc.path)}
			continue
		}
		if k := fmt.Sprintf("%p%d", w.instr, w.phase); !seen[k] {
			seen[k] = true
			c.Ok(rule, construct+" at "+c.Pos(w.instr.Pos()))
		}
	}
	var keys []group
	for g := range bad {
		keys = append(keys, g)
	}
	sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
	for _, g := range keys {
		c.Bad(rule, g.fn, g.pos, "writes to "+g.desc+", which was made before and is shared", bad[g]...)
	}
}

func isPublication(w pwrite) bool { return false }

// lockHeld reports whether a mutex is held at an instruction: a Lock call comes before it on every path and no
// Unlock comes in between, or the instruction is in a function run by sync.Once.
func lockHeld(in ssa.Instruction) bool {
	f := in.Parent()
	type st struct{ held bool }
	// forward must-analysis over blocks
	inState := map[*ssa.BasicBlock]int{} // 0 unknown, 1 held, 2 not held
	step := func(b *ssa.BasicBlock, held bool, until ssa.Instruction) (bool, bool) {
		for _, i := range b.Instrs {
			if i == until {
				return held, true
			}
			call, ok := i.(*ssa.Call)
			if !ok {
				continue
			}
			g := call.Common().StaticCallee()
			if g == nil {
				continue
			}
			switch CalleeName(g) {
			case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
				held = true
			case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
				held = false
			}
		}
		return held, false
	}
	inState[f.Blocks[0]] = 2
	for changed := true; changed; {
		changed = false
		for _, b := range f.Blocks {
			if inState[b] == 0 {
				continue
			}
			h, _ := step(b, inState[b] == 1, nil)
			v := 2
			if h {
				v = 1
			}
			for _, s := range b.Succs {
				n := v
				if inState[s] == 2 {
					n = 2
				}
				if inState[s] != n {
					inState[s] = n
					changed = true
				}
			}
		}
	}
	if h, ok := step(in.Block(), inState[in.Block()] == 1, in); ok && h {
		return true
	}
	// the body of a function given to sync.Once
	if p := f.Parent(); p != nil {
		for _, b := range p.Blocks {
			for _, i := range b.Instrs {
				call, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := call.Common().StaticCallee()
				if g == nil || !strings.HasPrefix(CalleeName(g), "(*sync.Once).Do") {
					continue
				}
				for _, arg := range call.Common().Args {
					if mc, ok := arg.(*ssa.MakeClosure); ok && mc.Fn == f {
						return true
					}
					if arg == ssa.Value(f) {
						return true
					}
				}
			}
		}
	}
	return false
}

func checkT01(c *Ctx) {
	a := lifePhases(c)
	coverPTA(c, a, phTransform)
	judgeWrites(c, a, "write", false, phTransform)
	c.Need("write", 8)
	goes(c, a, "goroutine", phTransform)
	anchored(c, a, phTransform)
}

func goes(c *Ctx, a *PTA, rule string, phases ...int) {
	for in, k := range a.gos {
		for _, ph := range phases {
			if k.phase == ph {
				c.Bad(rule, FnName(k.f), c.Pos(in.Pos()), "starts a goroutine while "+phaseNames[ph])
			}
		}
	}
	c.Ok(rule, "no go statement")
}

// anchored makes sure the analysis really gets from the entry points to the code which does the work: an interface
// or function value it can not resolve would otherwise hide writes.
func anchored(c *Ctx, a *PTA, phase int) {
	n := 0
	for _, k := range a.work {
		if k.phase != phase {
			continue
		}
		for _, b := range k.f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := call.Common()
				if cc.StaticCallee() != nil {
					continue
				}
				if _, ok := cc.Value.(*ssa.Builtin); ok {
					continue
				}
				n++
				if len(a.get(a.at(k.phase, cc.Value))) == 0 {
					if n, ok := cc.Value.Type().(*types.Named); ok && cc.IsInvoke() && !repoType(c.P, n) {
						continue // values of library interfaces come from libraries
					}
					c.Bad("resolved", FnName(k.f), c.Pos(in.Pos()), "the analysis finds no possible callee for "+cc.Value.Name()+" "+shortType(cc.Value.Type()))
					continue
				}
				c.Ok("resolved", FnName(k.f)+" "+shortType(cc.Value.Type()))
			}
		}
	}
	if n < 3 {
		c.Bad("resolved", "dynamic calls", "-", "fewer dynamic calls than expected were found")
	}
}

func checkS03(c *Ctx) {
	a := lifePhases(c)
	coverPTA(c, a, phLoad, phLoad2, phUse, phBuild)
	judgeWrites(c, a, "write", true, phLoad, phLoad2, phUse, phBuild)
	c.Need("write", 30)
}

func repoType(p *Prog, n *types.Named) bool {
	return n.Obj().Pkg() != nil && p.inRepo[p.SSA.Package(n.Obj().Pkg())]
}
