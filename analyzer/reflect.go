package main

import (
	"go/constant"
	"go/types"
	"reflect"
	"strings"
)

// reflect.TypeOf of a value of known type, the name of such a type and comparisons of them are known.
func init() {
	foldModels()
	models["reflect.TypeOf"] = func(c *CallInfo) []CallOut {
		if len(c.Args) != 1 {
			return nil
		}
		v := c.Args[0]
		if d, ok := dynOf(c.St, v); ok {
			t := c.Sig.Results().At(0).Type()
			if d == nil {
				return ok1(c.St, Nil{t})
			}
			return ok1(c.St, c.St.nonNil(Sym{ID: "rtype(" + typeKey(d) + ")", T: t}))
		}
		return nil
	}
	models["invoke (reflect.Type).Kind"] = func(c *CallInfo) []CallOut {
		if c.Recv == nil || !strings.HasPrefix(c.Recv.Key(), "rtype(") {
			return nil
		}
		n := strings.TrimSuffix(strings.TrimPrefix(c.Recv.Key(), "rtype("), ")")
		for k := reflect.Bool; k <= reflect.Complex128; k++ {
			if k.String() == n {
				return ok1(c.St, Const{constant.MakeInt64(int64(k)), c.Sig.Results().At(0).Type()})
			}
		}
		if n == "string" {
			return ok1(c.St, Const{constant.MakeInt64(int64(reflect.String)), c.Sig.Results().At(0).Type()})
		}
		return nil
	}
	for _, m := range []string{"String", "Name"} {
		models["invoke (reflect.Type)."+m] = func(c *CallInfo) []CallOut {
			if c.Recv != nil && strings.HasPrefix(c.Recv.Key(), "rtype(") {
				return ok1(c.St, cStr(c.Recv.Key()))
			}
			return nil
		}
	}
}

// distinctTypes tells that two reflect types differ.
func distinctTypes(a, b Sym) bool {
	return strings.HasPrefix(a.ID, "rtype(") && strings.HasPrefix(b.ID, "rtype(") && a.ID != b.ID
}

var _ = types.Typ
