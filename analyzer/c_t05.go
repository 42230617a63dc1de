package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("T05", "order analysis of every loop over a map (or over a slice whose items are in the order of one) in the code which loads schemas, builds transformers and transforms: its effects must be the same in every order; plus a who-may-call rule: no clock, random number, environment or process state is read, but by the currentTime operation, and no goroutine or multi way select is used", checkT05)
	register("G02", "order analysis of every loop over a map (or over a slice whose items are in the order of one) in the code which loads schemas and generates files: its effects must be the same in every order; plus a who-may-call rule: no clock, random number, environment or process state is read and no goroutine or multi way select is used", checkG02)
}

// ambient are functions whose result is not decided by their arguments.
var ambient = []string{
	"time.Now", "time.Since", "time.Until", "time.Tick", "time.After", "time.NewTimer", "time.NewTicker",
	"math/rand.", "math/rand/v2.", "crypto/rand.", "(*math/rand", "hash/maphash.",
	"os.Getenv", "os.LookupEnv", "os.Environ", "os.ExpandEnv", "os.Hostname", "os.Getpid", "os.Getppid", "os.Getuid", "os.UserHomeDir", "os.UserCacheDir", "os.TempDir", "os.CreateTemp", "os.MkdirTemp", "os.Executable",
	"runtime.NumCPU", "runtime.NumGoroutine", "runtime.GOMAXPROCS", "runtime.Caller", "runtime.Callers", "runtime.ReadMemStats",
	"os/user.", "net.Interfaces", "github.com/google/uuid.",
}

func ambientCalls(c *Ctx, fns []*ssa.Function, allowed func(f *ssa.Function, callee string) bool) {
	n := 0
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					c.Bad("ambient", FnName(f), c.Pos(g.Pos()), "starts a goroutine, whose steps interleave in no particular order")
				}
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					g, ok := (*op).(*ssa.Function)
					if !ok || c.P.InRepo(g) {
						continue
					}
					n++
					name := CalleeName(g)
					for _, a := range ambient {
						if strings.HasPrefix(name, a) && (strings.HasSuffix(a, ".") || name == a || !isIdent(name[len(a):])) && !allowed(f, name) {
							c.Bad("ambient", FnName(f)+" "+name, c.Pos(in.Pos()), "uses "+name+": the result is not decided by the input")
						}
					}
				}
			}
		}
	}
	if n < 20 {
		c.Bad("coverage", "ambient", "-", "hardly any library call was seen")
	}
	c.Ok("ambient", "who may call")
}

func isIdent(s string) bool {
	return s != "" && (s[0] >= 'a' && s[0] <= 'z' || s[0] >= 'A' && s[0] <= 'Z' || s[0] >= '0' && s[0] <= '9')
}

// pkgFuncs are the source functions of some packages.
func pkgFuncs(p *Prog, names ...string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs {
		for _, n := range names {
			if FnPkg(f) == p.Pkg(n) {
				out = append(out, f)
			}
		}
	}
	return out
}

func checkT05(c *Ctx) {
	a := lifePhases(c)
	fns := pkgFuncs(c.P, "jsonschema", "transform")
	o := newOrderAn(c, "order", fns, a)
	o.Run()
	c.Need("order", 4)
	// the one documented use of the clock: an operation which ignores its input and returns the time
	clock := opFuncs(c, o, "currentTime")
	parse := opFuncs(c, o, "timeParse")
	zones(c, fns, parse)
	ambientCalls(c, fns, func(f *ssa.Function, callee string) bool {
		return callee == "time.Now" && clock[f]
	})
}

func checkG02(c *Ctx) {
	a := lifePhases(c)
	fns := pkgFuncs(c.P, "jsonschema", "generate")
	o := newOrderAn(c, "order", fns, a)
	o.Run()
	c.Need("order", 8)
	zones(c, fns, nil)
	ambientCalls(c, fns, func(f *ssa.Function, callee string) bool { return false })
}

// opFuncs are the functions only one operation uses: its transform method and what is reached through nothing else.
func opFuncs(c *Ctx, o *orderAn, op string) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	t := c.P.Type("transform", op)
	if t == nil {
		return out
	}
	callers := map[*ssa.Function][]*ssa.Function{}
	for f := range o.scope {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && o.scope[g] {
						callers[g] = append(callers[g], f)
					}
				}
			}
		}
		if r := f.Signature.Recv(); r != nil {
			rt := r.Type()
			if p, ok := rt.(*types.Pointer); ok {
				rt = p.Elem()
			}
			if types.Identical(rt, t) && f.Name() == "transform" {
				out[f] = true
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for g, cs := range callers {
			if out[g] || g.Object() != nil && g.Object().Exported() {
				continue
			}
			all := true
			for _, f := range cs {
				all = all && out[f]
			}
			if all {
				out[g] = true
				changed = true
			}
		}
	}
	return out
}

// zones: the local time zone of the machine must not decide anything. A time in the local zone is only fine when it is
// put into another one at once or its zone does not matter.
func zones(c *Ctx, fns []*ssa.Function, parse map[*ssa.Function]bool) {
	zoneless := map[string]bool{}
	for _, m := range []string{"UTC", "In", "Unix", "UnixNano", "UnixMilli", "UnixMicro", "IsZero", "Equal", "Before", "After", "Sub", "Compare"} {
		zoneless["(time.Time)."+m] = true
	}
	var escapes func(v ssa.Value, seen map[ssa.Value]bool) bool
	escapes = func(v ssa.Value, seen map[ssa.Value]bool) bool {
		if seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.DebugRef:
			case *ssa.Phi:
				if escapes(x, seen) {
					return true
				}
			case *ssa.Store:
				al, ok := x.Addr.(*ssa.Alloc)
				if !ok || x.Val != v {
					return true
				}
				for _, r2 := range *al.Referrers() {
					switch y := r2.(type) {
					case *ssa.Store:
						if y.Addr != ssa.Value(al) {
							return true
						}
					case *ssa.UnOp:
						if escapes(y, seen) {
							return true
						}
					case *ssa.DebugRef:
					default:
						return true
					}
				}
			case *ssa.Call:
				g := x.Common().StaticCallee()
				if g == nil || !zoneless[CalleeName(g)] {
					return true
				}
			default:
				return true
			}
		}
		return false
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok {
					if g, ok := u.X.(*ssa.Global); ok && g.String() == "time.Local" {
						c.Bad("zone", FnName(f)+" time.Local", c.Pos(in.Pos()), "uses the local time zone of the machine")
					}
					continue
				}
				call, ok := in.(*ssa.Call)
				if !ok || call.Common().StaticCallee() == nil {
					continue
				}
				switch name := CalleeName(call.Common().StaticCallee()); name {
				case "time.Unix", "time.UnixMilli", "time.UnixMicro", "(time.Time).Local":
					if escapes(call, map[ssa.Value]bool{}) {
						c.Bad("zone", FnName(f)+" "+name, c.Pos(in.Pos()), "a time in the local zone of the machine is used: what is made of it depends on where the program runs")
					} else {
						c.Ok("zone", FnName(f)+" "+name)
					}
				case "time.Parse":
					if l, ok := call.Common().Args[0].(*ssa.Const); ok && l.Value != nil && !strings.Contains(l.Value.ExactString(), "MST") {
						c.Ok("zone", FnName(f)+" "+name)
						continue
					}
					where := FnName(f)
					if parse[f] {
						where = "timeParse"
					}
					c.Bad("zone", where+" "+name, c.Pos(in.Pos()), "the layout can have a zone abbreviation, which time.Parse understands by the local time zone of the machine")
				}
			}
		}
	}
}
