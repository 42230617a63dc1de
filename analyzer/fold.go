package main

import (
	"bytes"
	"go/constant"
	"go/token"
	"go/types"
	"html"
	"math"
	"net/url"
	"path"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// foldable are library functions without effects, run when everything they are given is known.
var foldable = map[string]interface{}{
	"strings.Compare": strings.Compare, "strings.ContainsAny": strings.ContainsAny, "strings.ContainsRune": strings.ContainsRune,
	"strings.Contains": strings.Contains, "strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix,
	"strings.CutPrefix": strings.CutPrefix, "strings.CutSuffix": strings.CutSuffix, "strings.Cut": strings.Cut,
	"strings.Fields": strings.Fields, "strings.Index": strings.Index, "strings.IndexAny": strings.IndexAny,
	"strings.LastIndex": strings.LastIndex, "strings.LastIndexAny": strings.LastIndexAny, "strings.LastIndexByte": strings.LastIndexByte,
	"strings.SplitAfter": strings.SplitAfter, "strings.SplitAfterN": strings.SplitAfterN, "strings.ToTitle": strings.ToTitle,
	"strings.ToValidUTF8": strings.ToValidUTF8, "strings.Clone": strings.Clone, "strings.Count": strings.Count,
	"strings.Join": strings.Join, "strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix,
	"strings.Replace": strings.Replace, "strings.Repeat": strings.Repeat, "strings.SplitN": strings.SplitN, "strings.Split": strings.Split,
	"unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit,
	"unicode.IsNumber": unicode.IsNumber, "unicode.IsSpace": unicode.IsSpace, "unicode.IsPunct": unicode.IsPunct, "unicode.IsControl": unicode.IsControl,
	"unicode.IsPrint": unicode.IsPrint, "unicode.IsGraphic": unicode.IsGraphic, "unicode.IsSymbol": unicode.IsSymbol, "unicode.IsTitle": unicode.IsTitle,
	"unicode.ToUpper": unicode.ToUpper, "unicode.ToLower": unicode.ToLower, "unicode.ToTitle": unicode.ToTitle,
	"unicode/utf8.RuneCountInString": utf8.RuneCountInString, "unicode/utf8.DecodeRuneInString": utf8.DecodeRuneInString,
	"unicode/utf8.DecodeLastRuneInString": utf8.DecodeLastRuneInString, "unicode/utf8.ValidString": utf8.ValidString, "unicode/utf8.RuneLen": utf8.RuneLen,
	"unicode/utf8.ValidRune": utf8.ValidRune,
	"strconv.CanBackquote":   strconv.CanBackquote, "strconv.QuoteRune": strconv.QuoteRune, "strconv.Quote": strconv.Quote, "strconv.QuoteToASCII": strconv.QuoteToASCII, "strconv.Unquote": strconv.Unquote, "strconv.Itoa": strconv.Itoa,
	"strconv.FormatInt": strconv.FormatInt, "strconv.FormatBool": strconv.FormatBool, "strconv.ParseInt": strconv.ParseInt, "strconv.ParseUint": strconv.ParseUint,
	"path/filepath.Clean": filepath.Clean, "path/filepath.Split": filepath.Split, "path/filepath.ToSlash": filepath.ToSlash,
	"path/filepath.FromSlash": filepath.FromSlash, "path/filepath.VolumeName": filepath.VolumeName, "path/filepath.Rel": filepath.Rel, "path/filepath.IsLocal": filepath.IsLocal,
	"path/filepath.Match": filepath.Match, "path.Clean": path.Clean, "path.Dir": path.Dir, "path.Ext": path.Ext, "path.IsAbs": path.IsAbs, "path.Split": path.Split,
	"html.EscapeString": html.EscapeString, "html.UnescapeString": html.UnescapeString, "net/url.PathEscape": url.PathEscape, "net/url.QueryEscape": url.QueryEscape,
	"go/token.IsExported": token.IsExported, "go/token.IsIdentifier": token.IsIdentifier, "go/token.IsKeyword": token.IsKeyword,
	"bytes.TrimSuffix": bytes.TrimSuffix, "bytes.TrimPrefix": bytes.TrimPrefix, "bytes.TrimSpace": bytes.TrimSpace, "bytes.Trim": bytes.Trim,
	"bytes.TrimRight": bytes.TrimRight, "bytes.TrimLeft": bytes.TrimLeft, "bytes.HasPrefix": bytes.HasPrefix, "bytes.HasSuffix": bytes.HasSuffix,
	"bytes.Contains": bytes.Contains, "bytes.Equal": bytes.Equal, "bytes.Index": bytes.Index, "bytes.Count": bytes.Count, "bytes.ReplaceAll": bytes.ReplaceAll,
	"math.Abs": math.Abs, "math.Floor": math.Floor, "math.Ceil": math.Ceil,
}

// goVal gives the Go value of a constant value of a type.
func (c *CallInfo) goVal(v Val, t reflect.Type) (reflect.Value, bool) {
	v = c.In.resolve(c.St, v)
	r := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			if k, ok := bytesOf(v).(Const); ok && k.V != nil && k.V.Kind() == constant.String {
				r.SetBytes([]byte(constant.StringVal(k.V)))
				return r, true
			}
			return r, false
		}
		if t.Elem().Kind() != reflect.String {
			return r, false
		}
		el, ok := c.In.elems(c.St, v)
		if !ok {
			return r, false
		}
		for _, e := range el {
			x, ok := c.goVal(e, t.Elem())
			if !ok {
				return r, false
			}
			r = reflect.Append(r, x)
		}
		return r, true
	}
	k, ok := v.(Const)
	if !ok || k.V == nil {
		return r, false
	}
	switch t.Kind() {
	case reflect.String:
		if k.V.Kind() != constant.String {
			return r, false
		}
		r.SetString(constant.StringVal(k.V))
	case reflect.Bool:
		if k.V.Kind() != constant.Bool {
			return r, false
		}
		r.SetBool(constant.BoolVal(k.V))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n, ok := constant.Int64Val(constant.ToInt(k.V))
		if !ok {
			return r, false
		}
		r.SetInt(n)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n, ok := constant.Uint64Val(constant.ToInt(k.V))
		if !ok {
			return r, false
		}
		r.SetUint(n)
	default:
		return r, false
	}
	return r, true
}

// fold runs a library function without effects on constants.
func fold0(c *CallInfo) []CallOut {
	fn, ok := foldable[c.Name]
	if !ok {
		return nil
	}
	f := reflect.ValueOf(fn)
	if f.Type().NumIn() != len(c.Args) {
		return nil
	}
	var in []reflect.Value
	for i, a := range c.Args {
		v, ok := c.goVal(a, f.Type().In(i))
		if !ok {
			return nil
		}
		in = append(in, v)
	}
	rs := c.Sig.Results()
	var out []Val
	func() {
		defer func() {
			if recover() != nil {
				out = nil
			}
		}()
		for i, r := range f.Call(in) {
			t := rs.At(i).Type()
			switch r.Kind() {
			case reflect.String:
				out = append(out, Const{constant.MakeString(r.String()), t})
			case reflect.Bool:
				out = append(out, Const{constant.MakeBool(r.Bool()), t})
			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
				out = append(out, Const{constant.MakeInt64(r.Int()), t})
			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
				out = append(out, Const{constant.MakeUint64(r.Uint()), t})
			case reflect.Slice:
				if b, ok := r.Interface().([]byte); ok {
					out = append(out, Const{constant.MakeString(string(b)), types.Typ[types.String]})
					continue
				}
				out = append(out, c.In.strSlice(c.St, c.base("fold"), r.Interface().([]string)))
			case reflect.Interface:
				if r.IsNil() {
					out = append(out, Nil{errType})
				} else {
					out = append(out, c.In.newErr(c.St, c.Name+"("+c.In.content(c.St, c.Args[0], 2)+")"))
				}
			default:
				out = nil
				return
			}
		}
	}()
	if len(out) != rs.Len() {
		return nil
	}
	return ok1(c.St, out...)
}

// helperPkg are packages of small functions over slices, maps and sequences whose source is analysed at a call when
// what they are given is known.
var helperPkg = map[string]bool{"slices": true, "maps": true, "cmp": true, "iter": true, "golang.org/x/exp/slices": true, "golang.org/x/exp/maps": true}

// helper tells that a function is one of these and its arguments are known.
func (in *Interp) helper(ci *CallInfo, f *ssa.Function) bool {
	sp := FnPkg(f)
	if sp == nil || !helperPkg[sp.Pkg.Path()] {
		return false
	}
	in.P.Build(sp)
	if f.Blocks == nil {
		return false
	}
	for _, a := range ci.Args {
		v := in.resolve(ci.St, a)
		if v == nil {
			return false
		}
		switch x := v.(type) {
		case Sym:
			if x.T == nil {
				return false
			}
			switch x.T.Underlying().(type) {
			case *types.Slice, *types.Map:
				return false
			}
		case Slice:
			if _, ok := in.elems(ci.St, x); !ok {
				return false
			}
		}
	}
	return true
}

func foldModels() {
	models["strings.NewReplacer"] = func(c *CallInfo) []CallOut {
		el, ok := c.In.elems(c.St, c.In.resolve(c.St, c.Args[0]))
		if !ok {
			return nil
		}
		id := "replacer:"
		for _, e := range el {
			s, ok := asStr(c.In.resolve(c.St, e))
			if !ok {
				return nil
			}
			id += strconv.Quote(s) + " "
		}
		r := Sym{ID: id, T: c.Sig.Results().At(0).Type()}
		c.St.nonNil(r)
		return ok1(c.St, r)
	}
	models["(*strings.Replacer).Replace"] = func(c *CallInfo) []CallOut {
		r, ok := c.In.resolve(c.St, c.Args[0]).(Sym)
		s, ok2 := asStr(c.In.resolve(c.St, c.Args[1]))
		if !ok || !ok2 || !strings.HasPrefix(r.ID, "replacer:") {
			return nil
		}
		var on []string
		for rest := strings.TrimPrefix(r.ID, "replacer:"); rest != ""; {
			q, err := strconv.QuotedPrefix(rest)
			if err != nil {
				return nil
			}
			x, _ := strconv.Unquote(q)
			on = append(on, x)
			rest = rest[len(q)+1:]
		}
		if len(on)%2 > 0 {
			return nil
		}
		return ok1(c.St, cStr(strings.NewReplacer(on...).Replace(s)))
	}
}
