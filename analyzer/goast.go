package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
)

// Syntax trees of the Go files a run has written: parsing makes objects of them, the functions of go/ast are applied
// to the tree those objects describe.

var astTypes = map[string]reflect.Type{}

func init() {
	for _, n := range []interface{}{
		ast.ArrayType{}, ast.AssignStmt{}, ast.BadDecl{}, ast.BadExpr{}, ast.BadStmt{}, ast.BasicLit{}, ast.BinaryExpr{}, ast.BlockStmt{},
		ast.BranchStmt{}, ast.CallExpr{}, ast.CaseClause{}, ast.ChanType{}, ast.CommClause{}, ast.Comment{}, ast.CommentGroup{},
		ast.CompositeLit{}, ast.DeclStmt{}, ast.DeferStmt{}, ast.Ellipsis{}, ast.EmptyStmt{}, ast.ExprStmt{}, ast.Field{}, ast.FieldList{},
		ast.File{}, ast.ForStmt{}, ast.FuncDecl{}, ast.FuncLit{}, ast.FuncType{}, ast.GenDecl{}, ast.GoStmt{}, ast.Ident{}, ast.IfStmt{},
		ast.ImportSpec{}, ast.IncDecStmt{}, ast.IndexExpr{}, ast.IndexListExpr{}, ast.InterfaceType{}, ast.KeyValueExpr{}, ast.LabeledStmt{},
		ast.MapType{}, ast.Package{}, ast.ParenExpr{}, ast.RangeStmt{}, ast.ReturnStmt{}, ast.SelectStmt{}, ast.SelectorExpr{}, ast.SendStmt{},
		ast.SliceExpr{}, ast.StarExpr{}, ast.StructType{}, ast.SwitchStmt{}, ast.TypeAssertExpr{}, ast.TypeSpec{}, ast.TypeSwitchStmt{},
		ast.UnaryExpr{}, ast.ValueSpec{},
	} {
		t := reflect.TypeOf(n)
		astTypes[t.Name()] = t
	}
}

// treeConv converts between syntax trees and the objects which describe them.
type treeConv struct {
	in  *Interp
	st  *State
	ids map[interface{}]string // object of a node
	nod map[string]reflect.Value
}

func newTree(in *Interp, st *State) *treeConv {
	return &treeConv{in: in, st: st, ids: map[interface{}]string{}, nod: map[string]reflect.Value{}}
}

func (tc *treeConv) newID(kind string) string {
	tc.st.Ver["ast"]++
	return fmt.Sprintf("o:ast:%s%d", kind, tc.st.Ver["ast"])
}

// val makes the value for a part of a tree.
func (tc *treeConv) val(r reflect.Value, t types.Type) Val {
	switch r.Kind() {
	case reflect.Interface:
		if r.IsNil() {
			return Nil{t}
		}
		e := r.Elem()
		if e.Kind() != reflect.Ptr {
			undecided("a %s in a syntax tree", e.Type())
		}
		nt := tc.in.P.ExtType("go/ast", e.Type().Elem().Name())
		if nt == nil {
			undecided("a %s in a syntax tree", e.Type())
		}
		pt := types.NewPointer(nt)
		return Iface{T: pt, V: tc.val(e, pt)}
	case reflect.Ptr:
		if r.IsNil() {
			return Nil{t}
		}
		n := r.Type().Elem().Name()
		if n == "Scope" || n == "Object" {
			return Nil{t}
		}
		id, ok := tc.ids[r.Interface()]
		if !ok {
			id = tc.newID(n)
			tc.ids[r.Interface()] = id
		}
		if tc.nod[id].IsValid() {
			return Ptr{Obj: id}
		}
		tc.nod[id] = r
		nt := tc.in.P.ExtType("go/ast", n)
		str, ok := nt.Underlying().(*types.Struct)
		if !ok || str.NumFields() != r.Elem().NumField() {
			undecided("a %s in a syntax tree", n)
		}
		s := Struct{T: nt, F: make([]Val, str.NumFields())}
		for i := range s.F {
			f := str.Field(i)
			switch f.Name() {
			case "Unresolved", "Scope", "Obj":
				s.F[i] = Nil{f.Type()}
			default:
				s.F[i] = tc.val(r.Elem().Field(i), f.Type())
			}
		}
		tc.st.Heap[id] = &Obj{V: s, T: nt}
		return Ptr{Obj: id}
	case reflect.Slice:
		if r.IsNil() {
			return Nil{t}
		}
		q := Seq{}
		for i := 0; i < r.Len(); i++ {
			q.Parts = append(q.Parts, Part{V: tc.val(r.Index(i), t.Underlying().(*types.Slice).Elem())})
		}
		id := tc.newID("list")
		tc.st.Heap[id] = &Obj{V: q, T: t}
		return Slice{Obj: id, Lo: 0, Hi: r.Len()}
	case reflect.Map:
		if r.IsNil() || r.Type().Elem().Elem().Name() == "Object" {
			return Nil{t}
		}
		mt := t.Underlying().(*types.Map)
		m := MapC{Ents: map[string]MapEnt{}, Closed: true, T: mt}
		var ks []string
		for _, k := range r.MapKeys() {
			ks = append(ks, k.String())
		}
		sort.Strings(ks)
		for _, k := range ks {
			kv := Const{constant.MakeString(k), mt.Key()}
			m.Ents[kv.Key()] = MapEnt{K: kv, V: tc.val(r.MapIndex(reflect.ValueOf(k)), mt.Elem())}
		}
		id := tc.newID("map")
		tc.st.Heap[id] = &Obj{V: m, T: t}
		return MapV{id}
	case reflect.String:
		return Const{constant.MakeString(r.String()), t}
	case reflect.Bool:
		return Const{constant.MakeBool(r.Bool()), t}
	case reflect.Int:
		return Const{constant.MakeInt64(r.Int()), t}
	}
	undecided("a %s in a syntax tree", r.Type())
	return nil
}

// node gives the tree a value describes.
func (tc *treeConv) node(v Val, t reflect.Type) reflect.Value {
	v = tc.in.resolve(tc.st, v)
	out := reflect.New(t).Elem()
	if n, ok := v.(Nil); ok {
		_ = n
		return out
	}
	switch t.Kind() {
	case reflect.Interface:
		i, ok := v.(Iface)
		if !ok {
			undecided("a node of a syntax tree is not known: %s", describe(v))
		}
		p, ok := i.T.(*types.Pointer)
		if ok {
			if n, ok := p.Elem().(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "go/ast" && astTypes[n.Obj().Name()] != nil {
				if _, isNil := tc.in.resolve(tc.st, i.V).(Nil); isNil {
					undecided("a nil node of a syntax tree")
				}
				out.Set(tc.node(i.V, reflect.PointerTo(astTypes[n.Obj().Name()])))
				return out
			}
		}
		undecided("a %s in a syntax tree", typeKey(i.T))
	case reflect.Ptr:
		p, ok := v.(Ptr)
		if !ok || p.Path != "" || tc.st.Heap[p.Obj] == nil {
			undecided("a node of a syntax tree is not known: %s", describe(v))
		}
		if r := tc.nod[p.Obj]; r.IsValid() {
			return r
		}
		s, ok := tc.st.Heap[p.Obj].V.(Struct)
		if !ok || len(s.F) != t.Elem().NumField() {
			undecided("a node of a syntax tree is not known: %s", describe(tc.st.Heap[p.Obj].V))
		}
		r := reflect.New(t.Elem())
		tc.nod[p.Obj] = r
		tc.ids[r.Interface()] = p.Obj
		for i, f := range s.F {
			r.Elem().Field(i).Set(tc.node(f, t.Elem().Field(i).Type))
		}
		return r
	case reflect.Slice:
		el, ok := tc.in.elems(tc.st, v)
		if !ok {
			undecided("a list of a syntax tree is not known: %s", describe(v))
		}
		out.Set(reflect.MakeSlice(t, 0, len(el)))
		for _, e := range el {
			out.Set(reflect.Append(out, tc.node(e, t.Elem())))
		}
		return out
	case reflect.Map:
		m, ok := v.(MapV)
		if !ok {
			undecided("a map of a syntax tree is not known: %s", describe(v))
		}
		mc, ok := tc.st.Heap[m.Obj].V.(MapC)
		if !ok || !mc.Closed {
			undecided("a map of a syntax tree is not known: %s", describe(v))
		}
		out.Set(reflect.MakeMap(t))
		for _, e := range mc.Ents {
			k, ok := asStr(tc.in.resolve(tc.st, e.K))
			if !ok || e.Gone {
				continue
			}
			out.SetMapIndex(reflect.ValueOf(k), tc.node(e.V, t.Elem()))
		}
		return out
	case reflect.String:
		s, ok := asStr(v)
		if !ok {
			undecided("a text of a syntax tree is not known: %s", describe(v))
		}
		out.SetString(s)
		return out
	case reflect.Bool:
		b, ok := asBool(v)
		if !ok {
			undecided("a flag of a syntax tree is not known: %s", describe(v))
		}
		out.SetBool(b)
		return out
	case reflect.Int:
		n, ok := asInt(v)
		if !ok {
			undecided("a number of a syntax tree is not known: %s", describe(v))
		}
		out.SetInt(int64(n))
		return out
	}
	undecided("a %s in a syntax tree", t)
	return out
}

// again describes a tree which has changed, with the objects it had.
func (tc *treeConv) again(r reflect.Value, t types.Type) {
	tc.nod = map[string]reflect.Value{}
	tc.val(r, t)
}

func extPtr(in *Interp, name string) types.Type {
	return types.NewPointer(in.P.ExtType("go/ast", name))
}

// oneCall calls a function value which has to have exactly one outcome.
func oneCall(ci *CallInfo, st *State, fn Val, args ...Val) (Val, *State) {
	outs := ci.callback(st, fn, args)
	if len(outs) != 1 || outs[0].Panic != "" {
		undecided("a function called for every node of a syntax tree has %d outcomes", len(outs))
	}
	if len(outs[0].Ret) == 0 {
		return nil, outs[0].St
	}
	return outs[0].Ret[0], outs[0].St
}

func oneBool(ci *CallInfo, st *State, fn Val, args ...Val) (bool, *State) {
	v, st := oneCall(ci, st, fn, args...)
	b, ok := asBool(ci.In.resolve(st, v))
	if !ok {
		undecided("what a function called for a syntax tree returns is not known: %s", describe(v))
	}
	return b, st
}

// nodeVal is the interface value for a node.
func (tc *treeConv) nodeVal(n ast.Node, t types.Type) Val {
	if n == nil || reflect.ValueOf(n).Kind() == reflect.Ptr && reflect.ValueOf(n).IsNil() {
		return Nil{t}
	}
	id, ok := tc.ids[n]
	if !ok {
		undecided("a node of a syntax tree without object")
	}
	return Iface{T: extPtr(tc.in, reflect.TypeOf(n).Elem().Name()), V: Ptr{Obj: id}}
}

// treeModel models parsing and the functions over syntax trees. files gives the text of a file.
func treeModel(ci *CallInfo, files func(path string) (string, bool), list func() []string) []CallOut {
	in, st := ci.In, ci.St
	arg := func(i int) Val { return in.resolve(st, ci.Args[i]) }
	fail := func(why string) []CallOut {
		return ok1(st, Nil{ci.Sig.Results().At(0).Type()}, in.newErr(st, "err:"+why))
	}
	mode := func(v Val) parser.Mode {
		n, ok := asInt(v)
		if !ok {
			undecided("the mode of parsing is not known")
		}
		return parser.Mode(n) | parser.SkipObjectResolution
	}
	nodeT := func() types.Type { return in.P.ExtType("go/ast", "Node") }
	iface := reflect.TypeOf((*ast.Node)(nil)).Elem()
	switch ci.Name {
	case "go/token.NewFileSet":
		return ok1(st, st.nonNil(Sym{ID: "fileset", T: ci.Sig.Results().At(0).Type()}))
	case "go/parser.ParseFile":
		path, ok := asStr(arg(1))
		if !ok {
			undecided("the file parsed is not known: %s", describe(arg(1)))
		}
		text := ""
		switch s := arg(2).(type) {
		case Nil:
			if text, ok = files(path); !ok {
				return fail("open " + path)
			}
		case Iface:
			if text, ok = asStr(bytesOf(in.resolve(st, s.V))); !ok {
				undecided("the source parsed is not known")
			}
		default:
			undecided("the source parsed is not known")
		}
		f, err := parser.ParseFile(token.NewFileSet(), path, text, mode(arg(3)))
		if err != nil {
			return fail("parse " + path)
		}
		return ok1(st, newTree(in, st).val(reflect.ValueOf(f), extPtr(in, "File")), Nil{errType})
	case "go/parser.ParseDir":
		dir, ok := asStr(arg(1))
		if !ok {
			undecided("the directory parsed is not known: %s", describe(arg(1)))
		}
		if _, ok := arg(2).(Nil); !ok {
			undecided("parsing of a directory with a filter")
		}
		fs := token.NewFileSet()
		pk := map[string]*ast.Package{}
		seen := false
		for _, p := range list() {
			if filepath.Dir(p) == filepath.Clean(dir) || strings.HasPrefix(p, filepath.Clean(dir)+"/") {
				seen = true
			}
			if filepath.Dir(p) != filepath.Clean(dir) || !strings.HasSuffix(p, ".go") {
				continue
			}
			text, _ := files(p)
			f, err := parser.ParseFile(fs, p, text, mode(arg(3)))
			if err != nil {
				return fail("parse " + p)
			}
			if pk[f.Name.Name] == nil {
				pk[f.Name.Name] = &ast.Package{Name: f.Name.Name, Files: map[string]*ast.File{}}
			}
			pk[f.Name.Name].Files[filepath.Join(dir, filepath.Base(p))] = f
		}
		if !seen {
			return fail("open " + dir)
		}
		return ok1(st, newTree(in, st).val(reflect.ValueOf(pk), ci.Sig.Results().At(0).Type()), Nil{errType})
	case "go/ast.FilterFile", "go/ast.FilterPackage":
		tc := newTree(in, st)
		n, t := "File", reflect.TypeOf(&ast.File{})
		if ci.Name == "go/ast.FilterPackage" {
			n, t = "Package", reflect.TypeOf(&ast.Package{})
		}
		r := tc.node(arg(0), t)
		cur := st
		known := map[string]bool{}
		f := func(name string) bool {
			if b, ok := known[name]; ok {
				return b
			}
			heap := make(map[string]*Obj, len(cur.Heap))
			for k, o := range cur.Heap {
				heap[k] = o
			}
			n := len(cur.Events)
			var b bool
			b, cur = oneBool(ci, cur, ci.Args[1], cStr(name))
			// a function which changes nothing gives the same for the same name
			same := len(cur.Events) == n && len(cur.Heap) == len(heap)
			for k, o := range cur.Heap {
				same = same && heap[k] == o
			}
			if same {
				known[name] = b
			}
			return b
		}
		var res bool
		if n == "File" {
			res = ast.FilterFile(r.Interface().(*ast.File), f)
		} else {
			res = ast.FilterPackage(r.Interface().(*ast.Package), f)
		}
		tc.st = cur
		tc.again(r, extPtr(in, n))
		return ok1(cur, cBool(res))
	case "go/ast.Inspect":
		tc := newTree(in, st)
		n := tc.node(arg(0), iface).Interface().(ast.Node)
		cur := st
		ast.Inspect(n, func(n ast.Node) bool {
			var b bool
			b, cur = oneBool(ci, cur, ci.Args[1], tc.nodeVal(n, nodeT()))
			return b
		})
		return []CallOut{{St: cur}}
	case "go/ast.Walk":
		tc := newTree(in, st)
		n := tc.node(arg(1), iface).Interface().(ast.Node)
		w := &treeVisit{ci: ci, tc: tc, st: &st, v: arg(0)}
		ast.Walk(w, n)
		return []CallOut{{St: st}}
	case "golang.org/x/tools/go/ast/astutil.Apply":
		tc := newTree(in, st)
		n := tc.node(arg(0), iface).Interface().(ast.Node)
		ct := in.P.ExtType("golang.org/x/tools/go/ast/astutil", "Cursor")
		cs, ok := ct.Underlying().(*types.Struct)
		if !ok {
			undecided("the cursor of a syntax tree")
		}
		call := func(fn Val) astutil.ApplyFunc {
			if _, ok := fn.(Nil); ok {
				return nil
			}
			return func(c *astutil.Cursor) bool {
				z := zero(ct).(Struct)
				for i := 0; i < cs.NumFields(); i++ {
					switch cs.Field(i).Name() {
					case "parent":
						switch c.Parent().(type) {
						case *ast.CommentGroup:
						default:
							if _, ok := tc.ids[c.Parent()]; ok {
								z.F[i] = tc.nodeVal(c.Parent(), cs.Field(i).Type())
								break
							}
							// the parent of the root is not part of the tree
							rt := types.NewPointer(types.NewStruct([]*types.Var{types.NewField(token.NoPos, nil, "Node", cs.Field(i).Type(), true)}, nil))
							z.F[i] = Iface{T: rt, V: st.nonNil(Sym{ID: "root's parent", T: rt})}
						}
					case "name":
						z.F[i] = cStr(c.Name())
					case "node":
						z.F[i] = tc.nodeVal(c.Node(), cs.Field(i).Type())
					default:
						z.F[i] = Sym{ID: "cursor", T: cs.Field(i).Type()}
					}
				}
				id := tc.newID("cursor")
				st.Heap[id] = &Obj{V: z, T: ct}
				var b bool
				b, st = oneBool(ci, st, fn, Ptr{Obj: id})
				tc.st = st
				return b
			}
		}
		res := astutil.Apply(n, call(arg(1)), call(arg(2)))
		return ok1(st, tc.nodeVal(res, nodeT()))
	case "(*golang.org/x/tools/go/ast/astutil.Cursor).Name", "(*golang.org/x/tools/go/ast/astutil.Cursor).Parent", "(*golang.org/x/tools/go/ast/astutil.Cursor).Node":
		p, ok := arg(0).(Ptr)
		if !ok {
			return nil
		}
		z, ok := st.Heap[p.Obj].V.(Struct)
		if !ok {
			return nil
		}
		want := strings.ToLower(ci.Name[strings.LastIndex(ci.Name, ".")+1:])
		cs := z.T.Underlying().(*types.Struct)
		for i := range z.F {
			if cs.Field(i).Name() == want {
				return ok1(st, z.F[i])
			}
		}
	case "(*go/ast.FieldList).NumFields":
		if _, ok := arg(0).(Nil); ok {
			return ok1(st, cInt(0))
		}
		n := newTree(in, st).node(arg(0), reflect.TypeOf(&ast.FieldList{})).Interface().(*ast.FieldList)
		return ok1(st, cInt(n.NumFields()))
	case "golang.org/x/tools/go/ast/astutil.NodeDescription":
		n := newTree(in, st).node(arg(0), iface).Interface().(ast.Node)
		return ok1(st, cStr(astutil.NodeDescription(n)))
	case "(reflect.StructTag).Get", "(reflect.StructTag).Lookup":
		tag, ok := asStr(arg(0))
		k, ok2 := asStr(arg(1))
		if !ok || !ok2 {
			return nil
		}
		v, found := reflect.StructTag(tag).Lookup(k)
		if strings.HasSuffix(ci.Name, "Get") {
			return ok1(st, cStr(v))
		}
		return ok1(st, cStr(v), cBool(found))
	}
	return nil
}

type treeVisit struct {
	ci *CallInfo
	tc *treeConv
	st **State
	v  Val
}

func (w *treeVisit) Visit(n ast.Node) ast.Visitor {
	in := w.ci.In
	i, ok := in.resolve(*w.st, w.v).(Iface)
	if !ok {
		undecided("a visitor of a syntax tree is not known: %s", describe(w.v))
	}
	m := in.P.SSA.LookupMethod(i.T, nil, "Visit")
	if m == nil {
		undecided("a visitor of a syntax tree without method Visit")
	}
	v, st := oneCall(w.ci, *w.st, Func{Fn: FnRef{m}}, i.V, w.tc.nodeVal(n, in.P.ExtType("go/ast", "Node")))
	*w.st = st
	w.tc.st = st
	switch x := in.resolve(st, v).(type) {
	case Nil:
		return nil
	case Iface:
		return &treeVisit{ci: w.ci, tc: w.tc, st: w.st, v: x}
	}
	undecided("the visitor returned for a syntax tree is not known: %s", describe(v))
	return nil
}
