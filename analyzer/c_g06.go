package main

import (
	"fmt"
	"go/types"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("G06", "for every option of the command line, alone and with others: main hands exactly the settings given, and the defaults for the others, to the generator once; what is missing, not understood or failing ends with a failure status and a complete run with success", runG06)
}

// cliRun is a run of main with a command line.
type cliRun struct {
	c     *Ctx
	s     *Scenario
	opts  [][2]string // options in the order they are given
	pos   []string
	defs  map[string]*cliFlag
	names []string
	twice string
}

type cliFlag struct {
	kind string
	at   Val // where the value is stored
	def  Val
}

// cliSettings are the options documented and the settings they are for.
var cliSettings = []struct {
	flag, field, def string
	kind             string // bool, string, map
	neg              bool
}{
	{"interfaceFiles", "InterfaceFiles", "false", "bool", false},
	{"nestedStructs", "NoNestedStructs", "true", "bool", true},
	{"pointers", "Pointers", "false", "bool", false},
	{"descriptionAsStructTag", "DescriptionAsStructTag", "true", "bool", false},
	{"embedAllOf", "EmbedAllOf", "true", "bool", false},
	{"rename", "StructNameMap", "", "map", false},
	{"renameFields", "FieldNameMap", "", "map", false},
	{"renameGraphQLType", "GraphQLTypeNameMap", "", "map", false},
	{"avro", "GenerateAvro", "false", "bool", false},
	{"msgp", "GenerateMessagePack", "false", "bool", false},
	{"graphql", "GenerateGraphQL", "false", "bool", false},
	{"scalarAny", "ScalarAny", "false", "bool", false},
	{"outputPathGraphQL", "OutputDirGraphQL", "", "string", false},
	{"importPath", "ImportPath", "", "string", false},
}

func (r *cliRun) exit(ci *CallInfo, code int) CallOut {
	ci.St.event(Event{Kind: "exit", Args: []Val{cInt(code)}, Pos: r.c.Pos(ci.Pos), Site: ci.Site})
	return CallOut{St: ci.St, Panic: "exit"}
}

func (r *cliRun) define(ci *CallInfo, name, at, def Val, kind string) {
	n, ok := asStr(ci.In.resolve(ci.St, name))
	if !ok {
		undecided("the name of an option is not known: %s", describe(name))
	}
	if r.defs[n] != nil {
		r.twice = n
	}
	r.defs[n] = &cliFlag{kind: kind, at: at, def: def}
	r.names = append(r.names, n)
}

func (r *cliRun) model(ci *CallInfo) []CallOut {
	in, st := ci.In, ci.St
	if strings.HasSuffix(ci.Name, "generate.BuildStructsWithArgs") {
		v := in.resolve(st, ci.Args[0])
		st.event(Event{Kind: "generate", Args: []Val{v}, Pos: r.c.Pos(ci.Pos), Site: ci.Site + fmt.Sprint(len(st.Events))})
		bad := st.Fork()
		bad.event(Event{Kind: "failed", Args: []Val{cStr("the generator")}, Pos: r.c.Pos(ci.Pos), Site: ci.Site})
		return []CallOut{{Ret: []Val{Nil{errType}}, St: st}, {Ret: []Val{in.newErr(bad, "err:generate")}, St: bad}}
	}
	switch ci.Name {
	case "path/filepath.Abs":
		s, ok := asStr(in.resolve(st, ci.Args[0]))
		if !ok {
			return nil
		}
		bad := st.Fork()
		bad.event(Event{Kind: "failed", Args: []Val{cStr("the path")}, Pos: r.c.Pos(ci.Pos), Site: ci.Site + s})
		if !filepath.IsAbs(s) {
			s = filepath.Join("/cwd/dir", s)
		}
		return []CallOut{{Ret: []Val{cStr(filepath.Clean(s)), Nil{errType}}, St: st}, {Ret: []Val{cStr(""), in.newErr(bad, "err:abs")}, St: bad}}
	case "os.Getwd":
		return ok1(st, cStr("/cwd/dir"), Nil{errType})
	}
	name, args := ci.Name, ci.Args
	if strings.HasPrefix(name, "(*flag.FlagSet).") {
		name, args = "flag."+strings.TrimPrefix(name, "(*flag.FlagSet)."), args[1:]
	} else if !strings.HasPrefix(name, "flag.") {
		return nil
	}
	switch fn := strings.TrimPrefix(name, "flag."); fn {
	case "NewFlagSet":
		f := Sym{ID: "flagset", T: ci.Sig.Results().At(0).Type()}
		st.nonNil(f)
		return ok1(st, f)
	case "Bool", "String":
		t := ci.Sig.Results().At(0).Type().(*types.Pointer).Elem()
		id := "o:flag:" + describe(args[0])
		st.Heap[id] = &Obj{V: in.resolve(st, args[1]), T: t}
		r.define(ci, args[0], Ptr{Obj: id}, args[1], strings.ToLower(fn))
		return ok1(st, Ptr{Obj: id})
	case "BoolVar", "StringVar":
		p := in.resolve(st, args[0])
		in.store(st, p.(Ptr), in.resolve(st, args[2]), nil)
		r.define(ci, args[1], p, args[2], strings.ToLower(strings.TrimSuffix(fn, "Var")))
		return []CallOut{{St: st}}
	case "Var":
		r.define(ci, args[1], in.resolve(st, args[0]), nil, "var")
		return []CallOut{{St: st}}
	case "Func":
		r.define(ci, args[0], in.resolve(st, args[2]), nil, "func")
		return []CallOut{{St: st}}
	case "Parse":
		st.event(Event{Kind: "parse", Pos: r.c.Pos(ci.Pos), Site: ci.Site})
		outs := []CallOut{{St: st}}
		for _, o := range r.opts {
			var next []CallOut
			for _, x := range outs {
				if x.Panic != "" {
					next = append(next, x)
					continue
				}
				next = append(next, r.set(ci, x.St, o[0], o[1])...)
			}
			outs = next
		}
		if ci.Sig.Results().Len() == 1 {
			for i := range outs {
				if outs[i].Panic == "" {
					outs[i].Ret = []Val{Nil{errType}}
				}
			}
		}
		return outs
	case "Args":
		var vs []Val
		for _, p := range r.pos {
			vs = append(vs, cStr(p))
		}
		sc := &Scenario{c: r.c, in: in, st: st}
		return ok1(st, sc.slice("args", types.NewSlice(types.Typ[types.String]), vs...))
	case "NArg":
		return ok1(st, cInt(len(r.pos)))
	case "Arg":
		i, ok := asInt(in.resolve(st, args[0]))
		if !ok {
			undecided("the argument asked for is not known")
		}
		if i < 0 || i >= len(r.pos) {
			return ok1(st, cStr(""))
		}
		return ok1(st, cStr(r.pos[i]))
	case "NFlag":
		return ok1(st, cInt(len(r.opts)))
	case "Parsed":
		return ok1(st, cBool(len(events(st, "parse")) > 0))
	case "PrintDefaults", "Usage", "SetOutput", "Init":
		return []CallOut{{St: st}}
	}
	return nil
}

// set gives an option a value.
func (r *cliRun) set(ci *CallInfo, st *State, name, text string) []CallOut {
	d := r.defs[name]
	at := *ci
	at.St = st
	if d == nil {
		return []CallOut{r.exit(&at, 2)}
	}
	switch d.kind {
	case "bool":
		b, err := strconv.ParseBool(text)
		if err != nil {
			return []CallOut{r.exit(&at, 2)}
		}
		ci.In.store(st, d.at.(Ptr), cBool(b), nil)
		return []CallOut{{St: st}}
	case "string":
		ci.In.store(st, d.at.(Ptr), cStr(text), nil)
		return []CallOut{{St: st}}
	}
	var outs []CallOut
	switch v := d.at.(type) {
	case Iface:
		m := ci.In.P.SSA.LookupMethod(v.T, nil, "Set")
		if m == nil {
			undecided("option %s has no method Set", name)
		}
		n := &CallInfo{In: ci.In, St: st, Args: []Val{v.V, cStr(text)}, Sig: m.Signature, Pos: ci.Pos, Site: ci.Site + name, Caller: ci.Caller, Stack: ci.Stack}
		outs = ci.In.callFn(n, m, nil)
	default:
		outs = at.callback(st, d.at, []Val{cStr(text)})
	}
	for i, o := range outs {
		if o.Panic != "" {
			continue
		}
		if len(o.Ret) != 1 {
			undecided("setting the option %s", name)
		}
		switch nilState(o.St, o.Ret[0]) {
		case 1:
			outs[i].Ret = nil
		case 2:
			x := at
			x.St = o.St
			outs[i] = r.exit(&x, 2)
		default:
			undecided("setting the option %s fails or not: %s", name, describe(o.Ret[0]))
		}
	}
	return outs
}

// cliCase is a command line and what it stands for.
type cliCase struct {
	name string
	opts [][2]string
	pos  []string
	fail bool // not understood
	may  bool // to refuse it is fine as well
}

func cliCases(thorough bool) []cliCase {
	in := []string{"in/schema.json"}
	out := []cliCase{
		{name: "no options", pos: in},
		{name: "with a directory", pos: []string{"/in/schema.json", "out/pkg"}},
		{name: "with an absolute directory", pos: []string{"../schema.json", "/out/pkg"}},
		{name: "nothing", fail: true},
		{name: "only options", opts: [][2]string{{"pointers", "true"}}, fail: true},
		{name: "unknown option", opts: [][2]string{{"noSuchOption", "true"}}, pos: in, fail: true},
	}
	need := func(opts [][2]string) [][2]string {
		for _, o := range opts {
			if o[0] == "importPath" {
				return opts
			}
		}
		for _, o := range opts {
			if (o[0] == "avro" || o[0] == "graphql") && o[1] == "true" {
				return append(opts, [2]string{"importPath", "example.com/mod"})
			}
		}
		return opts
	}
	add := func(pos []string, fail bool, opts ...[2]string) {
		var n []string
		for _, o := range opts {
			n = append(n, "-"+o[0]+"="+o[1])
		}
		if len(pos) > 1 {
			n = append(n, "with a directory")
		}
		out = append(out, cliCase{name: strings.Join(n, " "), opts: opts, pos: pos, fail: fail})
	}
	values := func(kind string) []string {
		switch kind {
		case "bool":
			return []string{"true", "false"}
		case "map":
			return []string{"a=b", "a=b,c=d", "k=x=y", "k=", "=v", "a=b,a=c"}
		}
		return []string{"some/text", "../rel"}
	}
	for _, s := range cliSettings {
		for _, v := range values(s.kind) {
			add(in, false, need([][2]string{{s.flag, v}})...)
			add([]string{"in/schema.json", "dir"}, false, need([][2]string{{s.flag, v}})...)
		}
		if s.kind == "map" {
			for _, bad := range []string{"a", "", "a=b,c", "a,b=c", "a=b,"} {
				add(in, true, [2]string{s.flag, bad})
			}
			add(in, false, [2]string{s.flag, "a=b"}, [2]string{s.flag, "c=d,e=f"})
			add(in, false, [2]string{s.flag, "a=b"}, [2]string{s.flag, "a=c"})
		}
	}
	// two options at once
	for i, a := range cliSettings {
		for j, b := range cliSettings {
			if i >= j && !(thorough && i != j) {
				continue
			}
			add(in, false, need([][2]string{{a.flag, values(a.kind)[0]}, {b.flag, values(b.kind)[0]}})...)
			if a.kind == "bool" && b.kind == "bool" {
				add(in, false, need([][2]string{{a.flag, "false"}, {b.flag, "true"}})...)
				add(in, false, need([][2]string{{a.flag, "true"}, {b.flag, "false"}})...)
				add(in, false, [2]string{a.flag, "false"}, [2]string{b.flag, "false"})
			}
		}
	}
	// all at once
	for _, v := range []int{0, 1} {
		var all [][2]string
		for _, s := range cliSettings {
			vs := values(s.kind)
			all = append(all, [2]string{s.flag, vs[v]})
		}
		add([]string{"in/schema.json", "dir"}, false, all...)
	}
	// what needs an import path
	for _, k := range []string{"avro", "graphql"} {
		add(in, true, [2]string{k, "true"})
		add([]string{"in/schema.json", "dir"}, true, [2]string{k, "true"}, [2]string{"importPath", ""})
		add(in, true, [2]string{k, "true"}, [2]string{"msgp", "true"}, [2]string{"outputPathGraphQL", "gql"})
	}
	add(in, true, [2]string{"avro", "true"}, [2]string{"graphql", "true"})
	for _, k := range []string{"avro", "graphql"} {
		for _, s := range cliSettings {
			if s.flag == k || s.flag == "importPath" {
				continue
			}
			for _, v := range values(s.kind) {
				add(in, true, [2]string{k, "true"}, [2]string{s.flag, v})
			}
		}
	}
	// more than is documented
	for i, pos := range [][]string{{"in/schema.json", "dir", "more"}, {"in/schema.json", "dir", "a", "b", "c"}, {"in/schema.json", "dir", "-msgp"}} {
		out = append(out, cliCase{name: fmt.Sprint("more arguments ", i), pos: pos, may: true})
		out = append(out, cliCase{name: fmt.Sprint("more arguments with options ", i), pos: pos, may: true, opts: [][2]string{{"pointers", "true"}, {"rename", "a=b"}}})
	}
	return out
}

func runG06(c *Ctx) {
	const rule = "command line"
	for _, k := range cliCases(c.Thorough) {
		k := k
		c.Guard(rule, k.name, func() {
			f := c.Anchor(c.P.Func("main", "main"), "main")
			r := &cliRun{c: c, s: c.Scen(), opts: k.opts, pos: k.pos, defs: map[string]*cliFlag{}}
			r.s.in.Hook = r.model
			r.s.in.NUnknown = 4
			r.s.in.MaxVer = 200
			r.run(f)
			if len(r.s.outs) == 0 {
				c.Bad(rule, k.name, "-", "main does not end")
			}
			for _, o := range r.s.outs {
				if why := r.judge(k, o); why != "" {
					c.Bad(rule, k.name, c.P.Pos(o.Pos), why, traceOf(o)...)
				} else {
					c.Ok(rule, k.name)
				}
			}
		})
	}
	c.Need(rule, 200)
}

func (r *cliRun) run(f *ssa.Function) {
	r.s.outs = r.s.in.Run(f, nil, nil, r.s.st)
	r.c.Merge(r.s.in)
	r.c.Paths += len(r.s.outs)
}

func (r *cliRun) judge(k cliCase, o Outcome) string {
	if r.twice != "" {
		return "the option " + r.twice + " is defined twice"
	}
	ex := events(o.St, "exit")
	if o.Panic != "" && len(ex) == 0 {
		return "panics: " + o.Panic
	}
	if len(events(o.St, "parse")) != 1 {
		return "the command line is not parsed once"
	}
	code, known := 0, true
	if len(ex) > 0 {
		code, known = asInt(ex[0].Args[0])
	}
	if !known {
		return "the exit status is not known: " + describe(ex[0].Args[0])
	}
	gen := events(o.St, "generate")
	if failed := events(o.St, "failed"); len(failed) > 0 {
		if code == 0 {
			what, _ := asStr(failed[0].Args[0])
			return "ends with success though " + what + " failed"
		}
		if what, _ := asStr(failed[0].Args[0]); what == "the path" && len(gen) > 0 {
			return "the generator runs though the path is not known"
		}
		return ""
	}
	if k.fail {
		if code == 0 {
			return "ends with success"
		}
		if len(gen) > 0 {
			return "the generator runs nevertheless"
		}
		return ""
	}
	if code != 0 && k.may && len(gen) == 0 {
		return ""
	}
	if code != 0 {
		return fmt.Sprintf("ends with status %d", code)
	}
	if len(gen) != 1 {
		return fmt.Sprintf("the generator runs %d times", len(gen))
	}
	a := gen[0].Args[0]
	str := func(n string) (string, string) {
		s, ok := asStr(r.s.in.resolve(o.St, r.s.fieldV(a, n)))
		if !ok {
			return "", n + " is " + describe(r.s.fieldV(a, n))
		}
		return s, ""
	}
	abs := func(p string) string {
		if p == "" || filepath.IsAbs(p) {
			return filepath.Clean(p)
		}
		return filepath.Join("/cwd/dir", p)
	}
	// positional arguments
	s, why := str("SchemaPath")
	if why != "" {
		return why
	}
	if abs(s) != abs(k.pos[0]) {
		return fmt.Sprintf("SchemaPath is %q", s)
	}
	s, why = str("OutputDir")
	if why != "" {
		return why
	}
	want := "/cwd/dir"
	if len(k.pos) > 1 {
		want = abs(k.pos[1])
	}
	if got := abs(s); got != want && !(s == "" && len(k.pos) == 1) {
		return fmt.Sprintf("OutputDir is %q", s)
	}
	for _, x := range cliSettings {
		switch x.kind {
		case "bool":
			w := x.def
			for _, op := range k.opts {
				if op[0] == x.flag {
					w = op[1]
				}
			}
			b, ok := asBool(r.s.in.resolve(o.St, r.s.fieldV(a, x.field)))
			if !ok || b != (w == "true") != x.neg {
				return fmt.Sprintf("%s is %s", x.field, describe(r.s.fieldV(a, x.field)))
			}
		case "string":
			w := x.def
			for _, op := range k.opts {
				if op[0] == x.flag {
					w = op[1]
				}
			}
			s, why := str(x.field)
			if why != "" {
				return why
			}
			if s != w && !(x.flag == "outputPathGraphQL" && s != "" && w != "" && abs(s) == abs(w)) {
				return fmt.Sprintf("%s is %q", x.field, s)
			}
		case "map":
			w := map[string]string{}
			for _, op := range k.opts {
				if op[0] == x.flag {
					for _, p := range strings.Split(op[1], ",") {
						kv := strings.SplitN(p, "=", 2)
						w[kv[0]] = kv[1]
					}
				}
			}
			got, why := r.dict(o.St, r.s.fieldV(a, x.field))
			if why != "" {
				return x.field + " " + why
			}
			if fmt.Sprint(flatMap(got)) != fmt.Sprint(flatMap(w)) {
				return fmt.Sprintf("%s is %v and not %v", x.field, flatMap(got), flatMap(w))
			}
		}
	}
	return ""
}

// dict reads a map of strings.
func (r *cliRun) dict(st *State, v Val) (map[string]string, string) {
	v = r.s.in.resolve(st, v)
	if _, isNil := v.(Nil); isNil {
		return nil, ""
	}
	m, ok := v.(MapV)
	if !ok || st.Heap[m.Obj] == nil {
		return nil, "is " + describe(v)
	}
	mc, ok := st.Heap[m.Obj].V.(MapC)
	if !ok || !mc.Closed {
		return nil, "is not known: " + describe(st.Heap[m.Obj].V)
	}
	out := map[string]string{}
	var ks []string
	for k := range mc.Ents {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		e := mc.Ents[k]
		kk, ok1 := asStr(r.s.in.resolve(st, e.K))
		vv, ok2 := asStr(r.s.in.resolve(st, e.V))
		if !ok1 || !ok2 {
			return nil, "has an entry " + describe(e.K, e.V)
		}
		out[kk] = vv
	}
	return out, ""
}
