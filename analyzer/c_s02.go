package main

import (
	"fmt"
	"go/types"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("S02", "a sequence of loads from an empty cache: a schema is built once per file, type and mode, the same schema is returned afterwards, loads which differ in file, type or mode are built apart, a failed build is returned and tried again; the build and the look up before it happen within one critical section of the key", runS02)
}

// cacheHook models the containers a cache is made of, starting empty, and records critical sections and look ups.
func cacheHook(c *Ctx) Model {
	ev := func(ci *CallInfo, st *State, kind string, args ...Val) {
		st.event(Event{Kind: kind, Args: args, Pos: c.Pos(ci.Pos), Site: fmt.Sprint(len(st.Events))})
	}
	mapID := func(ci *CallInfo) string {
		id := "g:smap:" + ci.In.resolve(ci.St, ci.Args[0]).Key()
		if ci.St.Heap[id] == nil {
			mt := types.NewMap(anyT, anyT)
			ci.St.Heap[id] = &Obj{V: MapC{Ents: map[string]MapEnt{}, Closed: true, T: mt}, T: mt}
		}
		return id
	}
	get := func(ci *CallInfo) []stVal {
		ev(ci, ci.St, "cache get", ci.Args[1])
		mt := types.NewMap(anyT, anyT)
		return ci.In.mapGet(ci.St, MapV{mapID(ci)}, ci.Args[1], mt)
	}
	set := func(ci *CallInfo, st *State, v Val) []*State {
		id := mapID(ci)
		ev(ci, st, "cache set", ci.Args[1], v)
		return ci.In.mapSet(st, id, ci.In.resolve(st, ci.Args[1]), v)
	}
	return func(ci *CallInfo) []CallOut {
		switch ci.Name {
		case "(*sync.Map).Load":
			var outs []CallOut
			for _, r := range get(ci) {
				if r.v == nil {
					outs = append(outs, CallOut{Ret: []Val{Nil{anyT}, cBool(false)}, St: r.st})
				} else {
					outs = append(outs, CallOut{Ret: []Val{r.v, cBool(true)}, St: r.st})
				}
			}
			return outs
		case "(*sync.Map).Store":
			var outs []CallOut
			for _, s := range set(ci, ci.St, ci.Args[2]) {
				outs = append(outs, CallOut{St: s})
			}
			return outs
		case "(*sync.Map).LoadOrStore":
			var outs []CallOut
			for _, r := range get(ci) {
				if r.v != nil {
					outs = append(outs, CallOut{Ret: []Val{r.v, cBool(true)}, St: r.st})
					continue
				}
				cj := *ci
				cj.St = r.st
				for _, s := range set(&cj, r.st, ci.Args[2]) {
					outs = append(outs, CallOut{Ret: []Val{ci.Args[2], cBool(false)}, St: s})
				}
			}
			return outs
		case "(*sync.Map).Delete":
			ev(ci, ci.St, "cache delete", ci.Args[1])
			ci.In.setEnt(ci.St, mapID(ci), ci.In.resolve(ci.St, ci.Args[1]).Key(), MapEnt{K: ci.Args[1], Gone: true})
			return []CallOut{{St: ci.St}}
		case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
			ev(ci, ci.St, "enter", ci.Args[0])
			return []CallOut{{St: ci.St}}
		case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
			ev(ci, ci.St, "exit", ci.Args[0])
			return []CallOut{{St: ci.St}}
		case "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock":
			return []CallOut{{St: ci.St}}
		case "(*golang.org/x/sync/singleflight.Group).Forget":
			// from here on another load of the key does not wait any more
			ev(ci, ci.St, "exit", ci.Args[1])
			return []CallOut{{St: ci.St}}
		case "(*golang.org/x/sync/singleflight.Group).Do":
			ev(ci, ci.St, "enter", ci.Args[1])
			var outs []CallOut
			for _, o := range ci.callback(ci.St, ci.Args[2], nil) {
				if o.Panic == "" {
					ev(ci, o.St, "exit", ci.Args[1])
					o.Ret = []Val{o.Ret[0], o.Ret[1], Sym{ID: "shared", T: types.Typ[types.Bool], Weak: true}}
				}
				outs = append(outs, o)
			}
			return outs
		}
		return nil
	}
}

// zeroGlobals makes the variables of the package hold what they hold when the program starts, as far as that is known.
func zeroGlobals(c *Ctx, s *Scenario, pkg string) {
	s.in.OnLoadGlobal = func(g *ssa.Global) Val {
		if g.Package() != c.P.Pkg(pkg) {
			return nil
		}
		et := g.Type().Underlying().(*types.Pointer).Elem()
		var store *ssa.Store
		for _, f := range c.P.Funcs {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if s, ok := i.(*ssa.Store); ok && s.Addr == g && f.Name() == "init" {
						store = s
					}
				}
			}
		}
		if store == nil {
			return zero(et)
		}
		if m, ok := store.Val.(*ssa.MakeMap); ok {
			for _, r := range *m.Referrers() {
				if _, ok := r.(*ssa.MapUpdate); ok {
					return nil
				}
			}
			return s.dict("global:"+g.Name(), m.Type())
		}
		return nil
	}
}

type cacheLoad struct {
	path, typ string
	flatten   bool
}

func (l cacheLoad) String() string {
	m := "SchemaFromFile"
	if !l.flatten {
		m += "NoFlatten"
	}
	return fmt.Sprintf("%s(%q,%q)", m, l.path, l.typ)
}

func (l cacheLoad) id() string {
	return fmt.Sprintf("%q %q %v", absPath(l.path), l.typ, l.flatten)
}

func runS02(c *Ctx) {
	loads := []cacheLoad{
		{"/d/a.json", "", true}, {"/d/a.json", "", false}, {"/d/a.json", "x", true}, {"/d/a.json", "x", false}, {"/d/b.json", "x", true},
		{"/e/a.json", "x", true}, {"/d/a.json|x", "y", true}, {"/d/a.json", "x|y", true}, {"/d/a.json\"|\"x", "y", true}, {"/d/a.json", "true", true},
		{"/d/a.json", "false", true}, {"d/a.json", "", true}, {"/cwd/d/a.json", "", true}, {"./d/a.json", "", true}, {"/d/a.jsonx", "", true},
		{"/d/a.json|", "x", true}, {"/d/a.json", "|x", true}, {"/d/A.json", "x", true}, {"/d/a.json", "X", true},
	}
	const rule = "loading schemas one after the other"
	for i, a := range loads {
		for j, b := range loads {
			if j < i && !c.Thorough {
				continue
			}
			a, b := a, b
			name := a.String() + " then " + b.String()
			c.Guard(rule, name, func() { cacheRun(c, rule, name, []cacheLoad{a, b}) })
		}
	}
	for i, a := range loads[:5] {
		b := loads[(i+1)%5]
		name := fmt.Sprintf("%s, %s, %s", a, b, a)
		c.Guard(rule, name, func() { cacheRun(c, rule, name, []cacheLoad{a, b, a}) })
	}
	c.Need(rule, 150)
	const rule3 = "building validators one after the other"
	paths := []string{"/d/a.json", "/d/b.json", "/e/a.json", "d/a.json", "/cwd/d/a.json", "/d/A.json"}
	for _, a := range paths {
		for _, b := range paths {
			name := a + " then " + b
			c.Guard(rule3, name, func() { validatorRun(c, rule3, name, a, b) })
		}
	}
	c.Need(rule3, 30)
	// the cache itself
	const rule2 = "cache"
	n := 0
	for _, f := range c.P.Funcs {
		if f.Signature.Recv() == nil || f.Object() == nil || f.Object().Name() != "Load" || !strings.Contains(typeKey(f.Signature.Recv().Type()), "jsonschema.Cache[") || len(f.TypeArgs()) == 0 || f.Parent() != nil || f.Blocks == nil {
			continue
		}
		n++
		f := f
		name := "Cache"
		c.Guard(rule2, name, func() { cacheDirect(c, rule2, name, f) })
	}
	if n == 0 {
		c.Bad(rule2, "Cache", "-", "no use of Cache.Load")
	}
	c.Need(rule2, 3)
}

// section checks that what was built within the events was built in a critical section which looked the key up first.
func section(evs []Event, what string) string {
	var open []string
	looked := false
	any := false
	for _, e := range evs {
		if e.Kind == "cache get" {
			any = true
		}
	}
	for _, e := range evs {
		switch e.Kind {
		case "enter":
			open = append(open, e.Args[0].Key())
			looked = false
		case "exit":
			if len(open) > 0 {
				open = open[:len(open)-1]
			}
		case "cache get":
			if len(open) > 0 {
				looked = true
			}
		case what:
			if len(open) == 0 {
				return "the schema is built outside of any critical section, two loads at the same time build it twice"
			}
			if any && !looked {
				return "the cache is not looked up within the critical section which builds, two loads at the same time build it twice"
			}
		case "cache set":
			if len(open) == 0 {
				return "the cache is set outside of the critical section which builds, a load in between builds it again"
			}
		}
	}
	if len(open) > 0 {
		return "the critical section is not left"
	}
	return ""
}

func cacheRun(c *Ctx, rule, name string, loads []cacheLoad) {
	s := c.Scen()
	s.in.NUnknown = 10
	zeroGlobals(c, s, "jsonschema")
	deref := c.Anchor(c.P.Func("jsonschema", "dereference"), "dereference")
	d := newDoc(c)
	ch := cacheHook(c)
	cur := 0
	s.in.Hook = func(ci *CallInfo) []CallOut {
		if o := ch(ci); o != nil {
			return o
		}
		fork := func(what string, good func(st *State) Val) []CallOut {
			bad := ci.St.Fork()
			t := ci.Sig.Results().At(0).Type()
			v := good(ci.St)
			return []CallOut{{Ret: []Val{v, Nil{errType}}, St: ci.St}, {Ret: []Val{zero(t), ci.In.newErr(bad, fmt.Sprintf("err:%s %d", what, cur))}, St: bad}}
		}
		switch {
		case strings.HasSuffix(ci.Name, "jsonschema.NewValidator"):
			return fork("validator", func(st *State) Val {
				v := Sym{ID: "validator(" + ci.In.content(st, ci.Args[0], 3) + ")", T: ci.Sig.Results().At(0).Type()}
				return st.nonNil(v)
			})
		case ci.Name == "path/filepath.Abs":
			if p, ok := asStr(ci.In.resolve(ci.St, ci.Args[0])); ok {
				return ok1(ci.St, cStr(absPath(p)), Nil{errType})
			}
		case ci.Name == "os.ReadFile":
			ci.St.event(Event{Kind: "read", Args: []Val{ci.In.resolve(ci.St, ci.Args[0])}, Pos: c.Pos(ci.Pos), Site: fmt.Sprint(len(ci.St.Events))})
			return fork("read", func(st *State) Val {
				p := ci.In.content(st, ci.Args[0], 3)
				n := d.obj("file "+p, "properties", d.obj("props "+p))
				return d.raw(st, n, ci.Sig.Results().At(0).Type())
			})
		case ci.Fn == deref:
			return fork("dereference", func(st *State) Val {
				p := ci.In.content(st, ci.Args[1], 3) + " type " + ci.In.content(st, ci.Args[2], 3) + " flatten " + ci.In.content(st, ci.Args[3], 3)
				n := d.obj("data "+p, "properties", d.obj("props "+p, "p", d.obj("prop "+p)))
				return d.raw(st, n, ci.Sig.Results().At(0).Type())
			})
		}
		return d.model(ci)
	}
	type run struct {
		st  *State
		ret []Val          // schema per load
		got map[string]Val // what has been loaded
	}
	cl := []run{{s.st, nil, map[string]Val{}}}
	full := 0
	for i, l := range loads {
		cur = i
		f := c.Anchor(c.P.Func("jsonschema", loaders(l.flatten)), loaders(l.flatten))
		var next []run
		for _, r := range cl {
			before := len(r.st.Events)
			outs := s.in.Run(f, []Val{cStr(l.path), cStr(l.typ)}, nil, r.st.Fork())
			if len(outs) == 0 {
				c.Bad(rule, name, "-", "the load has no way to return")
				return
			}
			for _, o := range outs {
				why := func() string {
					if o.Panic != "" {
						return "panics: " + o.Panic
					}
					ev := o.St.Events[before:]
					reads := 0
					for _, e := range ev {
						if e.Kind == "read" {
							reads++
						}
					}
					if why := section(ev, "read"); why != "" {
						return why
					}
					known, have := r.got[l.id()]
					g := map[string]Val{}
					for k, v := range r.got {
						g[k] = v
					}
					switch nilState(o.St, o.Ret[1]) {
					case 0:
						return "it is not known whether an error is returned"
					case 2:
						if have {
							return "a schema which has been loaded can not be loaded again: " + describe(o.Ret[1])
						}
						if reads != 1 {
							return fmt.Sprintf("fails after reading %d files", reads)
						}
						if !strings.HasPrefix(errRoot(o.Ret[1].Key()), "err:") || !strings.Contains(o.Ret[1].Key(), fmt.Sprint(i)) {
							return "the error is not the one of this load: " + describe(o.Ret[1])
						}
						next = append(next, run{o.St, append(append([]Val{}, r.ret...), nil), g})
						return ""
					}
					v := s.in.resolve(o.St, o.Ret[0])
					if have {
						if reads != 0 {
							return "the file is read again though it has been loaded"
						}
						if v.Key() != known.Key() {
							return "another schema than before is returned: " + describe(v)
						}
					} else {
						if reads != 1 {
							return fmt.Sprintf("a schema which has not been loaded is returned after reading %d files", reads)
						}
						for k, x := range r.got {
							if x.Key() == v.Key() {
								return "the schema loaded for " + k + " is returned"
							}
						}
						inst := s.field(o.St, v, "Instance")
						if why := rawMapIs(s, o.St, s.in.resolve(o.St, s.fieldV(inst, "Properties")), map[string]string{"p": wantProp(s, l)}); why != "" {
							return why
						}
						g[l.id()] = v
					}
					next = append(next, run{o.St, append(append([]Val{}, r.ret...), v), g})
					return ""
				}()
				if why != "" {
					c.Bad(rule, name, c.P.Pos(o.Pos), why, traceOf(o)...)
				} else {
					c.Ok(rule, name)
				}
			}
			c.Paths += len(outs)
		}
		cl = next
	}
	c.Merge(s.in)
	for _, r := range cl {
		ok := true
		for _, v := range r.ret {
			ok = ok && v != nil
		}
		if ok {
			full++
		}
	}
	if full == 0 {
		c.Bad(rule, name, "-", "never succeeds")
	}
}

func errRoot(k string) string {
	if i := strings.Index(k, "err:"); i >= 0 {
		return k[i:]
	}
	return k
}

func wantProp(s *Scenario, l cacheLoad) string {
	file := fmt.Sprintf("%q", absPath(l.path))
	return fmt.Sprintf("raw:prop raw:file %s type %q flatten %v", file, l.typ, l.flatten)
}

// cacheDirect runs Load of an instance of the cache with an unknown builder.
func cacheDirect(c *Ctx, rule, name string, f *ssa.Function) {
	s := c.Scen()
	s.in.NUnknown = 10
	ct := f.Signature.Recv().Type().(*types.Pointer).Elem()
	vt := f.Signature.Results().At(0).Type()
	ch := cacheHook(c)
	s.in.Hook = func(ci *CallInfo) []CallOut {
		if o := ch(ci); o != nil {
			return o
		}
		if strings.HasPrefix(ci.Name, "intr:builder") {
			ci.St.event(Event{Kind: "build", Args: []Val{cStr(ci.Name)}, Pos: c.Pos(ci.Pos), Site: fmt.Sprint(len(ci.St.Events))})
			bad := ci.St.Fork()
			n := strings.TrimPrefix(ci.Name, "intr:")
			v := ci.St.nonNil(Sym{ID: "built " + n, T: vt})
			return []CallOut{{Ret: []Val{v, Nil{errType}}, St: ci.St}, {Ret: []Val{bad.nonNil(Sym{ID: "partial " + n, T: vt}), ci.In.newErr(bad, "err:"+n)}, St: bad}}
		}
		return nil
	}
	cache := s.zeroObject("cache", ct)
	type run struct {
		st  *State
		got map[string]string
	}
	cl := []run{{s.st, map[string]string{}}}
	bt := f.Signature.Params().At(1).Type()
	for i, key := range []string{"k", "l", "k", "l"} {
		var next []run
		b := fmt.Sprintf("builder%d", i)
		for _, r := range cl {
			before := len(r.st.Events)
			outs := s.in.Run(f, []Val{cache, cStr(key), Intr{Name: b, T: bt}}, nil, r.st.Fork())
			for _, o := range outs {
				why := func() string {
					if o.Panic != "" {
						return "panics: " + o.Panic
					}
					ev := o.St.Events[before:]
					builds := 0
					for _, e := range ev {
						if e.Kind == "build" {
							builds++
						}
						if e.Kind == "enter" && strings.HasPrefix(e.Args[0].Key(), "\"") && e.Args[0].Key() != fmt.Sprintf("%q", key) {
							return "the critical section is that of the key " + e.Args[0].Key()
						}
					}
					if why := section(ev, "build"); why != "" {
						return why
					}
					g := map[string]string{}
					for k, v := range r.got {
						g[k] = v
					}
					old, have := r.got[key]
					switch nilState(o.St, o.Ret[1]) {
					case 0:
						return "it is not known whether an error is returned"
					case 2:
						if have || builds != 1 {
							return "fails: " + describe(o.Ret[1])
						}
						if !strings.Contains(o.Ret[1].Key(), "err:"+b) {
							return "another error than that of the builder is returned: " + describe(o.Ret[1])
						}
						next = append(next, run{o.St, g})
						return ""
					}
					v := s.in.resolve(o.St, o.Ret[0]).Key()
					switch {
					case have && builds > 0:
						return "the value is built again"
					case have && v != old:
						return "another value than before is returned: " + v
					case !have && builds != 1:
						return fmt.Sprintf("built %d times", builds)
					case !have && v != "built "+b:
						return "the result is " + v
					}
					g[key] = v
					next = append(next, run{o.St, g})
					return ""
				}()
				if why != "" {
					c.Bad(rule, name, c.P.Pos(o.Pos), why, traceOf(o)...)
				} else {
					c.Ok(rule, name)
				}
			}
			c.Paths += len(outs)
		}
		cl = next
	}
	c.Merge(s.in)
}

// validatorRun builds the validators of two files one after the other.
func validatorRun(c *Ctx, rule, name, a, b string) {
	f := c.Anchor(c.P.Func("jsonschema", "NewValidator"), "NewValidator")
	s := c.Scen()
	s.in.NUnknown = 10
	zeroGlobals(c, s, "jsonschema")
	ch := cacheHook(c)
	cur := 0
	s.in.Hook = func(ci *CallInfo) []CallOut {
		if o := ch(ci); o != nil {
			return o
		}
		switch {
		case ci.Name == "path/filepath.Abs":
			if p, ok := asStr(ci.In.resolve(ci.St, ci.Args[0])); ok {
				return ok1(ci.St, cStr(absPath(p)), Nil{errType})
			}
		case strings.HasSuffix(ci.Name, "gojsonschema.NewSchema"):
			ci.St.event(Event{Kind: "read", Pos: c.Pos(ci.Pos), Site: fmt.Sprint(len(ci.St.Events))})
			bad := ci.St.Fork()
			t := ci.Sig.Results().At(0).Type()
			v := ci.St.nonNil(Sym{ID: "library schema " + ci.In.content(ci.St, ci.Args[0], 5), T: t})
			return []CallOut{{Ret: []Val{v, Nil{errType}}, St: ci.St}, {Ret: []Val{Nil{t}, ci.In.newErr(bad, fmt.Sprintf("err:library %d", cur))}, St: bad}}
		}
		return nil
	}
	type run struct {
		st  *State
		got map[string]string
	}
	cl := []run{{s.st, map[string]string{}}}
	full := 0
	for i, p := range []string{a, b} {
		cur = i
		abs := absPath(p)
		var next []run
		for _, r := range cl {
			before := len(r.st.Events)
			for _, o := range s.in.Run(f, []Val{cStr(p)}, nil, r.st.Fork()) {
				c.Paths++
				why := func() string {
					if o.Panic != "" {
						return "panics: " + o.Panic
					}
					ev := o.St.Events[before:]
					reads := 0
					for _, e := range ev {
						if e.Kind == "read" {
							reads++
						}
					}
					if why := section(ev, "read"); why != "" {
						return why
					}
					old, have := r.got[abs]
					g := map[string]string{}
					for k, v := range r.got {
						g[k] = v
					}
					switch nilState(o.St, o.Ret[1]) {
					case 0:
						return "it is not known whether an error is returned"
					case 2:
						if have || reads != 1 || !strings.Contains(o.Ret[1].Key(), fmt.Sprintf("err:library %d", i)) {
							return "fails: " + describe(o.Ret[1])
						}
						next = append(next, run{o.St, g})
						return ""
					}
					v := s.in.content(o.St, o.Ret[0], 6)
					switch {
					case !strings.Contains(v, "file://"+abs+"\""):
						return "the validator is that of " + v
					case have && (reads != 0 || v != old):
						return "the validator is built again"
					case !have && reads != 1:
						return fmt.Sprintf("built %d times", reads)
					}
					g[abs] = v
					if i == 1 {
						full++
					}
					next = append(next, run{o.St, g})
					return ""
				}()
				if why != "" {
					c.Bad(rule, name, c.P.Pos(o.Pos), why, traceOf(o)...)
				} else {
					c.Ok(rule, name)
				}
			}
		}
		cl = next
	}
	c.Merge(s.in)
	if full == 0 {
		c.Bad(rule, name, "-", "never succeeds")
	}
}

// absPath is the absolute path in a scenario.
func absPath(p string) string {
	if !filepath.IsAbs(p) {
		p = filepath.Join("/cwd", p)
	}
	return filepath.Clean(p)
}
