package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// models are the abstract transformers of functions outside the repository.
var models map[string]Model

func ok1(st *State, v ...Val) []CallOut { return []CallOut{{Ret: v, St: st}} }

// strArgs gives the arguments if all are constant strings.
func strArgs(c *CallInfo) ([]string, bool) {
	var out []string
	for _, a := range c.Args {
		s, ok := asStr(c.In.resolve(c.St, a))
		if !ok {
			return nil, false
		}
		out = append(out, s)
	}
	return out, true
}

func fold(f func(s []string) Val) Model {
	return func(c *CallInfo) []CallOut {
		if s, ok := strArgs(c); ok {
			return ok1(c.St, f(s))
		}
		return nil
	}
}

func (in *Interp) strSlice(st *State, base string, ss []string) Val {
	ps := make([]Part, len(ss))
	for i, s := range ss {
		ps[i] = Part{V: cStr(s)}
	}
	return in.mkSlice(st, base, types.NewSlice(types.Typ[types.String]), ps)
}

func (c *CallInfo) base(n string) string { return n + ":" + c.Site + "<" + strings.Join(c.In.ctx, "<") }

// variadic lists the elements of a variadic argument.
func (c *CallInfo) variadic(i int) ([]Val, bool) {
	if i >= len(c.Args) {
		return nil, false
	}
	return c.In.elems(c.St, c.In.resolve(c.St, c.Args[i]))
}

// failing forks the state on a named failure.
func failing(c *CallInfo, st *State, term string, pure bool) (okSt, errSt *State, err Val) {
	weak := strings.Contains(term, "~")
	if !pure {
		s := c.In.fresh(st, term+"@"+c.Site, nil)
		term, weak = s.ID, weak || s.Weak
	}
	for _, a := range c.In.pred(st, "fails "+term, weak) {
		if a.v {
			errSt = a.st
			e := Sym{ID: "err:" + term, T: errType, Weak: weak}
			if weak {
				err = Iface{errType, e}
			} else {
				errSt.nonNil(e)
				err = e
			}
		} else {
			okSt = a.st
		}
	}
	return
}

// NewErr is a new non-nil error value.
func (in *Interp) newErr(st *State, id string) Val {
	if strings.Contains(id, "~") {
		return Iface{errType, Sym{ID: id, T: errType, Weak: true}}
	}
	s := Sym{ID: id, T: errType}
	st.nonNil(s)
	return s
}

// sprintf builds the formatted string.
func (c *CallInfo) sprintf(format Val, args []Val, known bool) Val {
	f, ok := asStr(c.In.resolve(c.St, format))
	if !ok || !known {
		var as []string
		for _, a := range c.Args {
			as = append(as, c.In.content(c.St, a, 3))
		}
		k := "sprintf(" + strings.Join(as, ",") + ")"
		return Sym{ID: k, T: types.Typ[types.String], Weak: strings.Contains(k, "~")}
	}
	var parts []Val
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			parts = append(parts, cStr(string(f[i])))
			continue
		}
		i++
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			parts = append(parts, cStr("%"))
			continue
		}
		st := i
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			break
		}
		verb := f[i]
		flags := f[st:i]
		if n >= len(args) {
			parts = append(parts, cStr("%!"+string(verb)+"(MISSING)"))
			continue
		}
		parts = append(parts, c.fmtArg(verb, flags, args[n]))
		n++
	}
	if n < len(args) {
		parts = append(parts, cStr("%!(EXTRA)"))
	}
	return mkCat(parts...)
}

func (c *CallInfo) fmtArg(verb byte, flags string, a Val) Val {
	st, in := c.St, c.In
	a = in.resolve(st, a)
	if i, ok := a.(Iface); ok {
		if types.Implements(i.T, errType.Underlying().(*types.Interface)) {
			k := "msg(" + in.content(st, i.V, 3) + ")"
			return Sym{ID: k, T: types.Typ[types.String], Weak: strings.Contains(k, "~")}
		}
		if n := typeKey(i.T); n == "*go/ast.Ident" && (verb == 's' || verb == 'v') {
			if p, ok := in.resolve(st, i.V).(Ptr); ok {
				if s, ok := st.Heap[p.Obj].V.(Struct); ok {
					return in.resolve(st, s.F[1])
				}
			}
		}
		a = in.resolve(st, i.V)
		if flags == "" {
			if isStringT(i.T) || isBytesT(i.T) && verb != 'v' && verb != 'd' {
				switch verb {
				case 's', 'v':
					if _, isS := a.(Slice); !isS {
						return a
					}
				case 'q':
					if s, ok := asStr(a); ok {
						return cStr(strconv.Quote(s))
					}
					k := "quote(" + in.content(st, a, 3) + ")"
					return Sym{ID: k, T: types.Typ[types.String], Weak: strings.Contains(k, "~")}
				}
			}
			if cv, ok := a.(Const); ok {
				switch cv.V.Kind() {
				case constant.Int:
					if verb == 'd' || verb == 'v' {
						return cStr(cv.V.ExactString())
					}
				case constant.Bool:
					if verb == 't' || verb == 'v' {
						return cStr(cv.V.ExactString())
					}
				}
			}
		}
	}
	k := "fmt%" + flags + string(verb) + "(" + in.content(st, a, 3) + ")"
	return Sym{ID: k, T: types.Typ[types.String], Weak: strings.Contains(k, "~")}
}

// bufKey finds the in-memory buffer behind a writer value.
func (in *Interp) bufKey(st *State, w Val) (string, bool) {
	w = in.resolve(st, w)
	if i, ok := w.(Iface); ok {
		n := types.TypeString(i.T, nil)
		if f, ok := in.resolve(st, i.V).(Sym); ok && strings.HasPrefix(f.ID, "file:") {
			return "buf:" + f.ID, true
		}
		if n != "*bytes.Buffer" && n != "*strings.Builder" && n != "*bufio.Writer" {
			return "", false
		}
		w = i.V
	}
	switch p := w.(type) {
	case Ptr:
		return "buf:" + p.Key(), true
	case Sym:
		if strings.HasPrefix(p.ID, "file:") {
			return "buf:" + p.ID, true
		}
		if p.T != nil {
			n := types.TypeString(p.T, nil)
			if n == "*bytes.Buffer" || n == "*strings.Builder" {
				return "buf:" + p.Key(), true
			}
		}
	}
	return "", false
}

func (in *Interp) bufGet(st *State, k string) Val {
	if o := st.Heap[k]; o != nil {
		return o.V
	}
	if strings.HasPrefix(k, "buf:&") {
		return cStr("")
	}
	return Sym{ID: k, T: types.Typ[types.String]}
}

func (in *Interp) bufAdd(st *State, k string, v Val) {
	st.Heap[k] = &Obj{V: mkCat(in.bufGet(st, k), v), T: types.Typ[types.String], Weak: strings.Contains(k, "~")}
}

// copyBuf writes what is in a buffer to a writer and empties the buffer.
func (c *CallInfo) copyBuf(from, to Val) []CallOut {
	k, ok := c.In.bufKey(c.St, from)
	if !ok {
		return nil
	}
	text := c.In.bufGet(c.St, k)
	c.St.Heap[k] = &Obj{V: cStr(""), T: types.Typ[types.String]}
	return c.writeTo(c.In.resolve(c.St, to), text)
}

func bufReset(c *CallInfo) []CallOut {
	k, ok := c.In.bufKey(c.St, c.Args[0])
	if !ok {
		return nil
	}
	c.St.Heap[k] = &Obj{V: cStr(""), T: types.Typ[types.String]}
	return []CallOut{{St: c.St}}
}

// newBufio makes a buffered writer.
func newBufio(c *CallInfo) []CallOut {
	to := c.In.resolve(c.St, c.Args[0])
	t := c.Sig.Results().At(0).Type().(*types.Pointer).Elem()
	p := Ptr{Obj: c.In.alloc(c.St, c.base("bufio"), t, zero(t))}
	c.St.Heap["buf:"+p.Key()] = &Obj{V: cStr(""), T: types.Typ[types.String]}
	c.St.Heap["bufio:"+p.Key()] = &Obj{V: to, T: c.Sig.Params().At(0).Type()}
	return ok1(c.St, p)
}

func bufWrite(c *CallInfo) []CallOut {
	k, ok := c.In.bufKey(c.St, c.Args[0])
	if !ok {
		return nil
	}
	v := c.In.resolve(c.St, c.Args[1])
	if _, isS := v.(Slice); isS {
		v = Sym{ID: "bytes(" + c.In.content(c.St, v, 3) + ")", T: types.Typ[types.String], Weak: hasWeak(v)}
	}
	v = bytesOf(v)
	if n, ok := asInt(v); ok { // WriteByte, WriteRune
		v = cStr(string(rune(n)))
	}
	c.In.bufAdd(c.St, k, v)
	rs := c.Sig.Results()
	if rs.Len() == 1 {
		return ok1(c.St, Nil{errType})
	}
	return ok1(c.St, Sym{ID: "n@" + c.Site, T: types.Typ[types.Int], Weak: true}, Nil{errType})
}

// fprint models fmt.Fprint and friends.
func fprint(kind string) Model {
	return func(c *CallInfo) []CallOut {
		var text Val
		switch kind {
		case "f":
			args, known := c.variadic(2)
			text = c.sprintf(c.Args[1], args, known)
		default:
			args, known := c.variadic(1)
			if !known {
				text = Sym{ID: "fprint@" + c.Site, T: types.Typ[types.String], Weak: true}
				break
			}
			var ps []Val
			for i, a := range args {
				if i > 0 && kind == "ln" {
					ps = append(ps, cStr(" "))
				}
				ps = append(ps, c.fmtArg('v', "", a))
			}
			if kind == "ln" {
				ps = append(ps, cStr("\n"))
			}
			text = mkCat(ps...)
		}
		return c.writeTo(c.Args[0], text)
	}
}

// writeTo writes to an io.Writer.
func (c *CallInfo) writeTo(w, text Val) []CallOut {
	n := Sym{ID: "n@" + c.Site, T: types.Typ[types.Int], Weak: true}
	if k, ok := c.In.bufKey(c.St, w); ok {
		c.In.bufAdd(c.St, k, text)
		return ok1(c.St, n, Nil{errType})
	}
	if i, ok := w.(Iface); ok {
		w = i.V
	}
	c.St.event(Event{Kind: "write", Args: []Val{w, text}, Pos: c.In.P.Pos(c.Pos), Site: c.Site})
	okS, bad, err := failing(c, c.St, "write("+w.Key()+")", false)
	return []CallOut{{Ret: []Val{n, Nil{errType}}, St: okS}, {Ret: []Val{n, err}, St: bad}}
}

// callback calls a function value with arguments.
func (c *CallInfo) callback(st *State, fn Val, args []Val) []CallOut {
	switch f := c.In.resolve(st, fn).(type) {
	case Func:
		ci := &CallInfo{In: c.In, St: st, Args: args, Pos: c.Pos, Site: c.Site, Caller: c.Caller, Stack: c.In.stack}
		return c.In.callFn(ci, f.Fn.F, f.Bind)
	case Intr:
		ci := &CallInfo{In: c.In, St: st, Args: args, Pos: c.Pos, Site: c.Site, Caller: c.Caller, Stack: c.In.stack, Name: "intr:" + f.Name}
		if s, ok := f.T.Underlying().(*types.Signature); ok {
			ci.Sig = s
		}
		if c.In.Hook != nil {
			if outs := c.In.Hook(ci); outs != nil {
				return outs
			}
		}
		return c.In.external(ci)
	}
	return []CallOut{{St: st}}
}

func freshArgs(c *CallInfo, st *State, sig *types.Signature, base string) []Val {
	var out []Val
	for i := 0; i < sig.Params().Len(); i++ {
		out = append(out, c.In.fresh(st, fmt.Sprintf("%s.%s", base, sig.Params().At(i).Name()), sig.Params().At(i).Type()))
	}
	return out
}

// each models an iteration which calls back a bounded number of times; the callback's error stops it.
func each(c *CallInfo, fn Val, sig *types.Signature, base string, stops bool) (done []*State, stopped []CallOut) {
	cur := []*State{c.St}
	for n := 0; n <= 2; n++ {
		var next []*State
		for _, s := range cur {
			done = append(done, s.Fork())
			if n == 2 {
				continue
			}
			for _, o := range c.callback(s, fn, freshArgs(c, s, sig, base)) {
				if o.Panic != "" {
					stopped = append(stopped, o)
					continue
				}
				if stops && len(o.Ret) > 0 {
					for _, a := range c.In.isNil(o.St, o.Ret[len(o.Ret)-1]) {
						if a.v {
							next = append(next, a.st)
						} else {
							stopped = append(stopped, CallOut{Ret: o.Ret, St: a.st})
						}
					}
					continue
				}
				next = append(next, o.St)
			}
		}
		cur = next
	}
	return
}

func sigOf(v Val) *types.Signature {
	switch f := v.(type) {
	case Func:
		return f.Fn.F.Signature
	case Intr:
		s, _ := f.T.Underlying().(*types.Signature)
		return s
	}
	return nil
}

func init() {
	models = map[string]Model{
		"fmt.Sprintf": func(c *CallInfo) []CallOut {
			args, known := c.variadic(1)
			return ok1(c.St, c.sprintf(c.Args[0], args, known))
		},
		"fmt.Errorf": func(c *CallInfo) []CallOut {
			args, known := c.variadic(1)
			var ids []string
			if known {
				for _, a := range args {
					ids = append(ids, c.In.content(c.St, a, 2))
				}
			} else {
				ids = append(ids, "~")
			}
			f, _ := asStr(c.In.resolve(c.St, c.Args[0]))
			id := "errorf(" + strconv.Quote(f) + "," + strings.Join(ids, ",") + ")"
			if len(id) > 500 {
				id = id[:300] + fmt.Sprintf("…%x)", hash(id))
			}
			return ok1(c.St, c.In.newErr(c.St, id))
		},
		"errors.New": func(c *CallInfo) []CallOut {
			return ok1(c.St, c.In.newErr(c.St, "errors.New("+c.Args[0].Key()+")"))
		},
		"errors.Is": func(c *CallInfo) []CallOut {
			a, b := c.In.resolve(c.St, c.Args[0]), c.In.resolve(c.St, c.Args[1])
			if _, ok := a.(Nil); ok {
				_, bn := b.(Nil)
				return ok1(c.St, cBool(bn))
			}
			if a.Key() == b.Key() && !hasWeak(a) {
				return ok1(c.St, cBool(true))
			}
			var outs []CallOut
			for _, al := range c.In.equal(c.St, a, b) {
				outs = append(outs, CallOut{Ret: []Val{cBool(al.v)}, St: al.st})
			}
			return outs
		},
		"os.Exit": func(c *CallInfo) []CallOut {
			c.St.event(Event{Kind: "exit", Args: []Val{c.In.resolve(c.St, c.Args[0])}, Pos: c.In.P.Pos(c.Pos), Site: c.Site})
			return []CallOut{{St: c.St, Panic: "exit"}}
		},
		"log.Fatal":    exit1,
		"log.Fatalf":   exit1,
		"log.Fatalln":  exit1,
		"fmt.Fprint":   fprint(""),
		"fmt.Fprintln": fprint("ln"),
		"fmt.Fprintf":  fprint("f"),
		"fmt.Printf":   stdoutNop,
		"fmt.Println":  stdoutNop,
		"fmt.Print":    stdoutNop,
		"(*bytes.Buffer).WriteTo": func(c *CallInfo) []CallOut {
			return c.copyBuf(c.Args[0], c.Args[1])
		},
		"io.Copy": func(c *CallInfo) []CallOut {
			return c.copyBuf(c.Args[1], c.Args[0])
		},
		"(*bytes.Buffer).Truncate": func(c *CallInfo) []CallOut {
			k, ok := c.In.bufKey(c.St, c.Args[0])
			if !ok {
				return nil
			}
			s, ok := asStr(c.In.bufGet(c.St, k))
			n, ok2 := asInt(c.In.resolve(c.St, c.Args[1]))
			if !ok || !ok2 {
				c.St.Heap[k] = &Obj{V: Sym{ID: "truncated@" + c.Site, T: types.Typ[types.String], Weak: true}, T: types.Typ[types.String]}
				return []CallOut{{St: c.St}}
			}
			if int(n) < 0 || int(n) > len(s) {
				return []CallOut{{St: c.St, Panic: "truncation out of range"}}
			}
			c.St.Heap[k] = &Obj{V: cStr(s[:n]), T: types.Typ[types.String]}
			return []CallOut{{St: c.St}}
		},
		"(*bytes.Buffer).Reset":    bufReset,
		"(*strings.Builder).Reset": bufReset,
		"bufio.NewWriter":          newBufio,
		"bufio.NewWriterSize":      newBufio,
		"(*bufio.Writer).Flush": func(c *CallInfo) []CallOut {
			w := c.In.resolve(c.St, c.Args[0])
			to := c.St.Heap["bufio:"+w.Key()]
			if to == nil {
				return nil
			}
			var outs []CallOut
			for _, o := range c.copyBuf(w, to.V) {
				outs = append(outs, CallOut{Ret: o.Ret[1:], St: o.St})
			}
			return outs
		},
		"(*bufio.Writer).Write":       bufWrite,
		"(*bufio.Writer).WriteString": bufWrite,
		"(*bufio.Writer).WriteByte":   bufWrite,
		"(*bufio.Writer).WriteRune":   bufWrite,
		"io.WriteString": func(c *CallInfo) []CallOut {
			return c.writeTo(c.In.resolve(c.St, c.Args[0]), bytesOf(c.In.resolve(c.St, c.Args[1])))
		},
		"invoke (io.Writer).Write": func(c *CallInfo) []CallOut {
			return c.writeTo(c.In.resolve(c.St, c.Recv), bytesOf(c.In.resolve(c.St, c.Args[0])))
		},
		"(*os.File).Write": func(c *CallInfo) []CallOut {
			return c.writeTo(c.In.resolve(c.St, c.Args[0]), bytesOf(c.In.resolve(c.St, c.Args[1])))
		},
		"(*os.File).WriteString": func(c *CallInfo) []CallOut {
			return c.writeTo(c.In.resolve(c.St, c.Args[0]), bytesOf(c.In.resolve(c.St, c.Args[1])))
		},
		"(*bytes.Buffer).Write":          bufWrite,
		"(*bytes.Buffer).WriteString":    bufWrite,
		"(*bytes.Buffer).WriteByte":      bufWrite,
		"(*bytes.Buffer).WriteRune":      bufWrite,
		"(*strings.Builder).Write":       bufWrite,
		"(*strings.Builder).WriteString": bufWrite,
		"(*strings.Builder).WriteByte":   bufWrite,
		"(*strings.Builder).WriteRune":   bufWrite,
		"(*strings.Builder).Grow":        func(c *CallInfo) []CallOut { return []CallOut{{St: c.St}} },
		"(*bytes.Buffer).Bytes":          bufString,
		"(*bytes.Buffer).String":         bufString,
		"(*strings.Builder).String":      bufString,
		"(*bytes.Buffer).Len":            bufLen,
		"(*strings.Builder).Len":         bufLen,
		"bytes.NewBufferString":          newBuffer,
		"bytes.NewBuffer":                newBuffer,

		"strings.HasPrefix": strTest(strings.HasPrefix, func(c *CallInfo, x Cat, p string) (bool, bool) {
			if f, ok := asStr(x.Parts[0]); ok {
				if strings.HasPrefix(f, p) {
					return true, true
				}
				if !strings.HasPrefix(p, f) {
					return false, true
				}
			}
			return false, false
		}),
		"strings.HasSuffix": strTest(strings.HasSuffix, func(c *CallInfo, x Cat, p string) (bool, bool) {
			if f, ok := asStr(x.Parts[len(x.Parts)-1]); ok {
				if strings.HasSuffix(f, p) {
					return true, true
				}
				if !strings.HasSuffix(p, f) {
					return false, true
				}
			}
			return false, false
		}),
		"strings.Contains": strTest(strings.Contains, func(c *CallInfo, x Cat, p string) (bool, bool) {
			for _, q := range x.Parts {
				if f, ok := asStr(q); ok && strings.Contains(f, p) {
					return true, true
				}
			}
			return false, false
		}),
		"strings.EqualFold":  fold(func(s []string) Val { return cBool(strings.EqualFold(s[0], s[1])) }),
		"strings.ToLower":    fold(func(s []string) Val { return cStr(strings.ToLower(s[0])) }),
		"strings.ToUpper":    fold(func(s []string) Val { return cStr(strings.ToUpper(s[0])) }),
		"strings.Title":      fold(func(s []string) Val { return cStr(strings.Title(s[0])) }),
		"strings.TrimSpace":  fold(func(s []string) Val { return cStr(strings.TrimSpace(s[0])) }),
		"strings.Trim":       fold(func(s []string) Val { return cStr(strings.Trim(s[0], s[1])) }),
		"strings.TrimLeft":   fold(func(s []string) Val { return cStr(strings.TrimLeft(s[0], s[1])) }),
		"strings.TrimRight":  fold(func(s []string) Val { return cStr(strings.TrimRight(s[0], s[1])) }),
		"strings.TrimPrefix": trimModel(true),
		"strings.TrimSuffix": trimModel(false),
		"strings.ReplaceAll": fold(func(s []string) Val { return cStr(strings.ReplaceAll(s[0], s[1], s[2])) }),
		"strings.Replace": func(c *CallInfo) []CallOut {
			a, ok1s := asStr(c.In.resolve(c.St, c.Args[0]))
			b, ok2 := asStr(c.In.resolve(c.St, c.Args[1]))
			d, ok3 := asStr(c.In.resolve(c.St, c.Args[2]))
			n, ok4 := asInt(c.In.resolve(c.St, c.Args[3]))
			if ok1s && ok2 && ok3 && ok4 {
				return ok1(c.St, cStr(strings.Replace(a, b, d, n)))
			}
			if ok1s && ok2 && ok4 && n == 1 {
				if k := strings.Index(a, b); k >= 0 {
					return ok1(c.St, mkCat(cStr(a[:k]), c.Args[2], cStr(a[k+len(b):])))
				}
				return ok1(c.St, cStr(a))
			}
			return nil
		},
		"strings.Index":     fold(func(s []string) Val { return cInt(strings.Index(s[0], s[1])) }),
		"strings.LastIndex": fold(func(s []string) Val { return cInt(strings.LastIndex(s[0], s[1])) }),
		"strings.Count":     fold(func(s []string) Val { return cInt(strings.Count(s[0], s[1])) }),
		"strings.IndexByte": func(c *CallInfo) []CallOut {
			s, ok := asStr(c.In.resolve(c.St, c.Args[0]))
			n, ok2 := asInt(c.In.resolve(c.St, c.Args[1]))
			if ok && ok2 {
				return ok1(c.St, cInt(strings.IndexByte(s, byte(n))))
			}
			return nil
		},
		"strings.IndexRune": func(c *CallInfo) []CallOut {
			s, ok := asStr(c.In.resolve(c.St, c.Args[0]))
			n, ok2 := asInt(c.In.resolve(c.St, c.Args[1]))
			if ok && ok2 {
				return ok1(c.St, cInt(strings.IndexRune(s, rune(n))))
			}
			return nil
		},
		"strings.Cut": func(c *CallInfo) []CallOut {
			if s, ok := strArgs(c); ok {
				a, b, f := strings.Cut(s[0], s[1])
				return ok1(c.St, cStr(a), cStr(b), cBool(f))
			}
			return nil
		},
		"strings.Repeat": func(c *CallInfo) []CallOut {
			s, ok := asStr(c.In.resolve(c.St, c.Args[0]))
			n, ok2 := asInt(c.In.resolve(c.St, c.Args[1]))
			if ok && ok2 && n >= 0 && n < 1000 {
				return ok1(c.St, cStr(strings.Repeat(s, n)))
			}
			return nil
		},
		"strings.Split": func(c *CallInfo) []CallOut {
			if s, ok := strArgs(c); ok {
				return ok1(c.St, c.In.strSlice(c.St, c.base("split"), strings.Split(s[0], s[1])))
			}
			sep, ok := asStr(c.In.resolve(c.St, c.Args[1]))
			x, ok2 := c.In.resolve(c.St, c.Args[0]).(Sym)
			if ok && ok2 && !x.Weak && sep != "" {
				// there is at least one element
				r := Sym{ID: "strings.Split(" + x.ID + "," + strconv.Quote(sep) + ")", T: types.NewSlice(types.Typ[types.String])}
				c.St.upd(r, func(f *Fact) {
					f.Nil = 2
					if f.LenMin < 1 {
						f.LenMin = 1
					}
				})
				return ok1(c.St, r)
			}
			return nil
		},
		"strings.SplitN": func(c *CallInfo) []CallOut {
			s, ok := asStr(c.In.resolve(c.St, c.Args[0]))
			sep, ok2 := asStr(c.In.resolve(c.St, c.Args[1]))
			n, ok3 := asInt(c.In.resolve(c.St, c.Args[2]))
			if ok && ok2 && ok3 {
				return ok1(c.St, c.In.strSlice(c.St, c.base("split"), strings.SplitN(s, sep, n)))
			}
			return nil
		},
		"strings.Fields": func(c *CallInfo) []CallOut {
			if s, ok := strArgs(c); ok {
				return ok1(c.St, c.In.strSlice(c.St, c.base("split"), strings.Fields(s[0])))
			}
			return nil
		},
		"strings.Join": func(c *CallInfo) []CallOut {
			el, ok := c.In.elems(c.St, c.In.resolve(c.St, c.Args[0]))
			if !ok {
				return nil
			}
			var ps []Val
			for i, e := range el {
				if i > 0 {
					ps = append(ps, c.In.resolve(c.St, c.Args[1]))
				}
				ps = append(ps, c.In.resolve(c.St, e))
			}
			return ok1(c.St, mkCat(ps...))
		},
		"strconv.Quote":      fold(func(s []string) Val { return cStr(strconv.Quote(s[0])) }),
		"strconv.Itoa":       itoa,
		"strconv.FormatBool": itoa,
		"strconv.Atoi": func(c *CallInfo) []CallOut {
			if s, ok := strArgs(c); ok {
				n, err := strconv.Atoi(s[0])
				if err != nil {
					return ok1(c.St, cInt(0), c.In.newErr(c.St, "atoi("+strconv.Quote(s[0])+")"))
				}
				return ok1(c.St, cInt(n), Nil{errType})
			}
			return nil
		},
		"strconv.ParseBool": func(c *CallInfo) []CallOut {
			if s, ok := strArgs(c); ok {
				n, err := strconv.ParseBool(s[0])
				if err != nil {
					return ok1(c.St, cBool(false), c.In.newErr(c.St, "parsebool("+strconv.Quote(s[0])+")"))
				}
				return ok1(c.St, cBool(n), Nil{errType})
			}
			return nil
		},
		"path/filepath.Base":  fold(func(s []string) Val { return cStr(filepath.Base(s[0])) }),
		"path/filepath.Dir":   fold(func(s []string) Val { return cStr(filepath.Dir(s[0])) }),
		"path/filepath.Ext":   fold(func(s []string) Val { return cStr(filepath.Ext(s[0])) }),
		"path/filepath.IsAbs": fold(func(s []string) Val { return cBool(filepath.IsAbs(s[0])) }),
		"path/filepath.Join":  joinModel(filepath.Join),
		"path.Join":           joinModel(path.Join),
		"path.Base":           fold(func(s []string) Val { return cStr(path.Base(s[0])) }),

		"golang.org/x/exp/slices.Contains": sliceContains,
		"slices.Contains":                  sliceContains,
		"golang.org/x/exp/slices.Index":    sliceIndex,
		"slices.Index":                     sliceIndex,
		"sort.Strings":                     sortModel,
		"sort.Slice":                       sortModel,
		"sort.SliceStable":                 sortModel,
		"sort.Sort":                        sortModel,
		"slices.Sort":                      sortModel,
		"slices.SortFunc":                  sortModel,
		"golang.org/x/exp/slices.Sort":     sortModel,
		"golang.org/x/exp/slices.SortFunc": sortModel,

		"encoding/json.Unmarshal":         unmarshal,
		"(*encoding/json.Decoder).Decode": decode,
		"(*golang.org/x/sync/singleflight.Group).Do": func(c *CallInfo) []CallOut {
			var outs []CallOut
			for _, o := range c.callback(c.St, c.Args[2], nil) {
				if o.Panic != "" {
					outs = append(outs, o)
					continue
				}
				outs = append(outs, CallOut{Ret: []Val{o.Ret[0], o.Ret[1], Sym{ID: "shared", T: types.Typ[types.Bool], Weak: true}}, St: o.St})
			}
			return outs
		},
		"(*sync.Once).Do": func(c *CallInfo) []CallOut {
			var outs []CallOut
			for _, o := range c.callback(c.St.Fork(), c.Args[1], nil) {
				outs = append(outs, CallOut{St: o.St, Panic: o.Panic})
			}
			return append(outs, CallOut{St: c.St})
		},
		"github.com/GannettDigital/jsonparser.ArrayEach": func(c *CallInfo) []CallOut {
			sig := sigOf(c.In.resolve(c.St, c.Args[1]))
			if sig == nil {
				return nil
			}
			base := "item(" + c.In.content(c.St, c.Args[0], 2) + ")"
			done, bad := each(c, c.Args[1], sig, base, false)
			var outs []CallOut
			for _, o := range bad {
				outs = append(outs, o)
			}
			for _, s := range done {
				okS, errS, err := failing(c, s, c.Name+"("+base+")", true)
				n := Sym{ID: "off@" + c.Site, T: types.Typ[types.Int], Weak: true}
				if okS != nil {
					outs = append(outs, CallOut{Ret: []Val{n, Nil{errType}}, St: okS})
				}
				if errS != nil {
					outs = append(outs, CallOut{Ret: []Val{n, err}, St: errS})
				}
			}
			return outs
		},
		"github.com/GannettDigital/jsonparser.ObjectEach": func(c *CallInfo) []CallOut {
			sig := sigOf(c.In.resolve(c.St, c.Args[1]))
			if sig == nil {
				return nil
			}
			base := "member(" + c.In.content(c.St, c.Args[0], 2) + "," + c.In.content(c.St, c.Args[2], 2) + ")"
			done, stopped := each(c, c.Args[1], sig, base, true)
			var outs []CallOut
			for _, o := range stopped {
				if o.Panic != "" {
					outs = append(outs, o)
					continue
				}
				outs = append(outs, CallOut{Ret: []Val{o.Ret[0]}, St: o.St})
			}
			for _, s := range done {
				okS, errS, err := failing(c, s, c.Name+"("+base+")", true)
				if okS != nil {
					outs = append(outs, CallOut{Ret: []Val{Nil{errType}}, St: okS})
				}
				if errS != nil {
					outs = append(outs, CallOut{Ret: []Val{err}, St: errS})
				}
			}
			return outs
		},
		"golang.org/x/tools/go/ast/astutil.Apply": callsBack(1, 2),
		"go/ast.Inspect":    callsBack(1),
		"go/ast.Walk":       nil,
		"go/ast.FilterFile": nil,
	}
	delete(models, "go/ast.Walk")
	delete(models, "go/ast.FilterFile")
}

// callsBack models a function which calls its function arguments some number of times.
func callsBack(idx ...int) Model {
	return func(c *CallInfo) []CallOut {
		sts := []*State{c.St}
		var outs []CallOut
		for _, i := range idx {
			fn := c.In.resolve(c.St, c.Args[i])
			sig := sigOf(fn)
			if sig == nil {
				continue
			}
			var next []*State
			for _, s := range sts {
				cc := *c
				cc.St = s
				done, bad := each(&cc, fn, sig, "cb:"+c.Site, false)
				next = append(next, done...)
				outs = append(outs, bad...)
			}
			sts = next
		}
		seen := map[string]bool{}
		for _, s := range sts {
			k := s.Key()
			if seen[k] {
				continue
			}
			seen[k] = true
			cc := *c
			cc.St = s
			outs = append(outs, c.In.results(&cc, c.Name+"@"+c.Site, true)...)
		}
		return outs
	}
}

func exit1(c *CallInfo) []CallOut {
	c.St.event(Event{Kind: "exit", Args: []Val{cInt(1)}, Pos: c.In.P.Pos(c.Pos), Site: c.Site})
	return []CallOut{{St: c.St, Panic: "exit"}}
}

func stdoutNop(c *CallInfo) []CallOut {
	return ok1(c.St, Sym{ID: "n@" + c.Site, T: types.Typ[types.Int], Weak: true}, Nil{errType})
}

func bufString(c *CallInfo) []CallOut {
	k, ok := c.In.bufKey(c.St, c.Args[0])
	if !ok {
		return nil
	}
	v := c.In.bufGet(c.St, k)
	return ok1(c.St, retype(v, c.Sig.Results().At(0).Type()))
}

func bufLen(c *CallInfo) []CallOut {
	k, ok := c.In.bufKey(c.St, c.Args[0])
	if !ok {
		return nil
	}
	return ok1(c.St, c.In.length(c.St, c.In.bufGet(c.St, k)))
}

func newBuffer(c *CallInfo) []CallOut {
	t := c.Sig.Results().At(0).Type().(*types.Pointer).Elem()
	p := Ptr{Obj: c.In.alloc(c.St, c.base("buffer"), t, zero(t))}
	v := c.In.resolve(c.St, c.Args[0])
	if _, isNil := v.(Nil); isNil {
		v = cStr("")
	}
	c.St.Heap["buf:"+p.Key()] = &Obj{V: bytesOf(v), T: types.Typ[types.String]}
	return ok1(c.St, p)
}

func strTest(f func(a, b string) bool, cat func(c *CallInfo, x Cat, p string) (bool, bool)) Model {
	return func(c *CallInfo) []CallOut {
		if s, ok := strArgs(c); ok {
			return ok1(c.St, cBool(f(s[0], s[1])))
		}
		p, ok := asStr(c.In.resolve(c.St, c.Args[1]))
		if !ok {
			return nil
		}
		if p == "" {
			return ok1(c.St, cBool(true))
		}
		if x, ok := c.In.resolve(c.St, c.Args[0]).(Cat); ok {
			if r, known := cat(c, x, p); known {
				return ok1(c.St, cBool(r))
			}
		}
		return nil
	}
}

func trimModel(prefix bool) Model {
	return func(c *CallInfo) []CallOut {
		if s, ok := strArgs(c); ok {
			if prefix {
				return ok1(c.St, cStr(strings.TrimPrefix(s[0], s[1])))
			}
			return ok1(c.St, cStr(strings.TrimSuffix(s[0], s[1])))
		}
		p, ok := asStr(c.In.resolve(c.St, c.Args[1]))
		x, ok2 := c.In.resolve(c.St, c.Args[0]).(Cat)
		if ok && ok2 && prefix {
			if f, isC := asStr(x.Parts[0]); isC && strings.HasPrefix(f, p) {
				return ok1(c.St, mkCat(append([]Val{cStr(f[len(p):])}, x.Parts[1:]...)...))
			}
		}
		return nil
	}
}

func itoa(c *CallInfo) []CallOut {
	if v, ok := c.In.resolve(c.St, c.Args[0]).(Const); ok {
		return ok1(c.St, cStr(v.V.ExactString()))
	}
	return nil
}

func joinModel(f func(...string) string) Model {
	return func(c *CallInfo) []CallOut {
		el, ok := c.variadic(0)
		if !ok {
			return nil
		}
		var ss []string
		var ks []string
		all := true
		for _, e := range el {
			e = c.In.resolve(c.St, e)
			s, isC := asStr(e)
			if !isC {
				all = false
			}
			ss = append(ss, s)
			ks = append(ks, e.Key())
		}
		if all {
			return ok1(c.St, cStr(f(ss...)))
		}
		id := "join(" + strings.Join(ks, ",") + ")"
		return ok1(c.St, Sym{ID: id, T: types.Typ[types.String], Weak: strings.Contains(id, "~")})
	}
}

func sliceContains(c *CallInfo) []CallOut {
	el, ok := c.In.elems(c.St, c.In.resolve(c.St, c.Args[0]))
	if !ok {
		return nil
	}
	cur := []*State{c.St}
	var outs []CallOut
	for _, e := range el {
		var next []*State
		for _, s := range cur {
			for _, a := range c.In.equal(s, e, c.Args[1]) {
				if a.v {
					outs = append(outs, CallOut{Ret: []Val{cBool(true)}, St: a.st})
				} else {
					next = append(next, a.st)
				}
			}
		}
		cur = next
	}
	for _, s := range cur {
		outs = append(outs, CallOut{Ret: []Val{cBool(false)}, St: s})
	}
	return outs
}

func sliceIndex(c *CallInfo) []CallOut {
	el, ok := c.In.elems(c.St, c.In.resolve(c.St, c.Args[0]))
	if !ok {
		return nil
	}
	cur := []*State{c.St}
	var outs []CallOut
	for i, e := range el {
		var next []*State
		for _, s := range cur {
			for _, a := range c.In.equal(s, e, c.Args[1]) {
				if a.v {
					outs = append(outs, CallOut{Ret: []Val{cInt(i)}, St: a.st})
				} else {
					next = append(next, a.st)
				}
			}
		}
		cur = next
	}
	for _, s := range cur {
		outs = append(outs, CallOut{Ret: []Val{cInt(-1)}, St: s})
	}
	return outs
}

// sortModel reorders a slice: with constant strings, or when the order of all pairs is known, it sorts; otherwise the
// order is kept, which is one of the possible ones.
func sortModel(c *CallInfo) []CallOut {
	v := c.In.resolve(c.St, c.Args[0])
	if i, ok := v.(Iface); ok {
		v = c.In.resolve(c.St, i.V)
	}
	s, ok := v.(Slice)
	if !ok {
		return []CallOut{{St: c.St}}
	}
	el, ok := c.In.elems(c.St, s)
	if !ok {
		return []CallOut{{St: c.St}}
	}
	perm := make([]int, len(el))
	for i := range perm {
		perm[i] = i
	}
	st := c.St
	switch {
	case len(c.Args) == 1:
		ss := make([]string, len(el))
		for i, e := range el {
			x, ok := asStr(c.In.resolve(st, e))
			if !ok {
				return []CallOut{{St: st}}
			}
			ss[i] = x
		}
		sort.SliceStable(perm, func(i, j int) bool { return ss[perm[i]] < ss[perm[j]] })
	case len(c.Args) == 2:
		less := map[[2]int]bool{}
		byIndex := strings.HasPrefix(c.Name, "sort.")
		for i := range el {
			for j := range el {
				if i == j {
					continue
				}
				args := []Val{el[i], el[j]}
				if byIndex {
					args = []Val{cInt(i), cInt(j)}
				}
				outs := c.callback(st.Fork(), c.Args[1], args)
				if len(outs) != 1 || outs[0].Panic != "" || len(outs[0].Ret) != 1 {
					return []CallOut{{St: c.St}}
				}
				r := c.In.resolve(outs[0].St, outs[0].Ret[0])
				if b, ok := asBool(r); ok {
					less[[2]int{i, j}] = b
				} else if n, ok := asInt(r); ok {
					less[[2]int{i, j}] = n < 0
				} else {
					return []CallOut{{St: c.St}}
				}
			}
		}
		sort.SliceStable(perm, func(i, j int) bool { return less[[2]int{perm[i], perm[j]}] })
	}
	o := st.Heap[s.Obj]
	if q, ok := o.V.(Seq); ok {
		ps := append([]Part(nil), q.Parts...)
		for i := range el {
			ps[s.Lo+i] = Part{V: el[perm[i]]}
		}
		st.Heap[s.Obj] = &Obj{V: Seq{ps}, T: o.T, Weak: o.Weak}
	}
	return []CallOut{{St: st}}
}

// unmarshal decodes into the target: its content becomes a term of the data.
func unmarshal(c *CallInfo) []CallOut {
	return decodeInto(c, "json("+c.In.content(c.St, c.Args[0], 3)+")", c.Args[1])
}

func decode(c *CallInfo) []CallOut {
	s := c.In.fresh(c.St, "decoded:"+c.Site, nil)
	return decodeInto(c, "json("+s.Key()+")", c.Args[1])
}

func decodeInto(c *CallInfo, term string, target Val) []CallOut {
	weak := strings.Contains(term, "~")
	t := c.In.resolve(c.St, target)
	if i, ok := t.(Iface); ok {
		t = i.V
	}
	okS, errS, err := failing(c, c.St, "unmarshal "+term, true)
	set := func(st *State, id string) {
		p, ok := c.In.deref(st, t, nil)
		if !ok {
			return
		}
		o := st.Heap[p.Obj]
		if o == nil {
			return
		}
		cur, _ := c.In.load(st, t, nil)
		var ty types.Type
		switch x := cur.(type) {
		case Sym:
			ty = x.T
		case Struct:
			ty = x.T
		case Const:
			ty = x.T
		case Nil:
			ty = x.T
		}
		if ty == nil && p.Path == "" {
			ty = o.T
		}
		st.Heap[p.Obj] = &Obj{V: c.In.replaceAt(o.V, splitPath(p.Path), Sym{ID: id, T: ty, Weak: weak}, ty), T: o.T, Weak: o.Weak}
	}
	var outs []CallOut
	if okS != nil {
		set(okS, term)
		outs = append(outs, CallOut{Ret: []Val{Nil{errType}}, St: okS})
	}
	if errS != nil {
		set(errS, "partial("+term+")")
		outs = append(outs, CallOut{Ret: []Val{err}, St: errS})
	}
	return outs
}

var _ = ssa.Function{}
