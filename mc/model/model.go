// Package model holds the reference model of dgo values: plain trees with the obvious semantics, independent of the
// implementation under test.
package model

import (
	"fmt"
	"math"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
)

type Kind int

const (
	Nil Kind = iota
	Bool
	Int
	Float
	Str
	Bin
	Time
	Rx
	Sens
	Arr
	Map
	Typ   // a type used as a value
	Other // an opaque dgo.Value (types, errors, natives...) identified by its description
)

// V is a model value. Arrays hold their elements in L, maps hold key, value, key, value... in L, Sens holds its content in
// L[0].
type V struct {
	K Kind
	B bool
	I int64
	F float64
	S string
	T time.Time
	L []*V
	// Make creates the value when K is Other
	Make func() dgo.Value
	// Ty is the type when K is Typ
	Ty *Ty
}

func N() *V                             { return &V{K: Nil} }
func B(b bool) *V                       { return &V{K: Bool, B: b} }
func I(i int64) *V                      { return &V{K: Int, I: i} }
func F(f float64) *V                    { return &V{K: Float, F: f} }
func S(s string) *V                     { return &V{K: Str, S: s} }
func Y(s string) *V                     { return &V{K: Bin, S: s} }
func R(s string) *V                     { return &V{K: Rx, S: s} }
func T(t time.Time) *V                  { return &V{K: Time, T: t} }
func X(v *V) *V                         { return &V{K: Sens, L: []*V{v}} }
func A(es ...*V) *V                     { return &V{K: Arr, L: es} }
func M(kvs ...*V) *V                    { return &V{K: Map, L: kvs} }
func O(d string, f func() dgo.Value) *V { return &V{K: Other, S: d, Make: f} }

// Canon is a canonical description that preserves map order
func (v *V) Canon() string { b := &strings.Builder{}; v.canon(b, false); return b.String() }

// EqCanon is a canonical description that is equal for values that must be Equal: map order is irrelevant
func (v *V) EqCanon() string { b := &strings.Builder{}; v.canon(b, true); return b.String() }

func fstr(f float64) string {
	if f == 0 {
		f = 0 // -0 equals 0
		return "0"
	}
	return strconv.FormatFloat(f, 'g', -1, 64)
}

func (v *V) canon(b *strings.Builder, eq bool) {
	switch v.K {
	case Nil:
		b.WriteString("nil")
	case Bool:
		fmt.Fprintf(b, "%v", v.B)
	case Int:
		fmt.Fprintf(b, "i%d", v.I)
	case Float:
		b.WriteString("f")
		if eq {
			b.WriteString(fstr(v.F))
		} else {
			b.WriteString(strconv.FormatFloat(v.F, 'g', -1, 64))
		}
	case Str:
		b.WriteString(strconv.Quote(v.S))
	case Bin:
		fmt.Fprintf(b, "b%x", v.S)
	case Time:
		if eq {
			fmt.Fprintf(b, "t%d.%d", v.T.Unix(), v.T.Nanosecond())
		} else {
			b.WriteString("t" + v.T.Format(time.RFC3339Nano))
		}
	case Rx:
		b.WriteString("/" + v.S + "/")
	case Sens:
		b.WriteString("sensitive<")
		v.L[0].canon(b, eq)
		b.WriteString(">")
	case Arr:
		b.WriteString("[")
		for i, e := range v.L {
			if i > 0 {
				b.WriteString(" ")
			}
			e.canon(b, eq)
		}
		b.WriteString("]")
	case Map:
		es := make([]string, 0, len(v.L)/2)
		for i := 0; i+1 < len(v.L); i += 2 {
			x := &strings.Builder{}
			v.L[i].canon(x, eq)
			x.WriteString(":")
			v.L[i+1].canon(x, eq)
			es = append(es, x.String())
		}
		if eq {
			sort.Strings(es)
		}
		b.WriteString("{" + strings.Join(es, " ") + "}")
	case Typ:
		b.WriteString("type<" + v.S + ">")
	default:
		b.WriteString("<" + v.S + ">")
	}
}

func (v *V) Equal(o *V) bool { return v.EqCanon() == o.EqCanon() }

// Get returns the value for the given key or nil
func (v *V) Get(k *V) *V {
	kc := k.EqCanon()
	for i := 0; i+1 < len(v.L); i += 2 {
		if v.L[i].EqCanon() == kc {
			return v.L[i+1]
		}
	}
	return nil
}

// Copy is a deep copy
func (v *V) Copy() *V {
	c := *v
	c.L = make([]*V, len(v.L))
	for i := range v.L {
		c.L[i] = v.L[i].Copy()
	}
	return &c
}

// Shallow is a copy of the top level
func (v *V) Shallow() *V {
	c := *v
	c.L = append([]*V{}, v.L...)
	return &c
}

// Put on a map model
func (v *V) Put(k, val *V) (old *V) {
	kc := k.EqCanon()
	for i := 0; i+1 < len(v.L); i += 2 {
		if v.L[i].EqCanon() == kc {
			old = v.L[i+1]
			v.L[i+1] = val
			return
		}
	}
	v.L = append(v.L, k, val)
	return nil
}

// Remove on a map model
func (v *V) Remove(k *V) (old *V) {
	kc := k.EqCanon()
	for i := 0; i+1 < len(v.L); i += 2 {
		if v.L[i].EqCanon() == kc {
			old = v.L[i+1]
			v.L = append(append([]*V{}, v.L[:i]...), v.L[i+2:]...)
			return
		}
	}
	return nil
}

// Len of a map
func (v *V) MapLen() int { return len(v.L) / 2 }

// Build creates the dgo value, all collections in it being mutable or frozen
func (v *V) Build(frozen bool) dgo.Value {
	switch v.K {
	case Nil:
		return vf.Nil
	case Bool:
		return vf.Boolean(v.B)
	case Int:
		return vf.Integer(v.I)
	case Float:
		return vf.Float(v.F)
	case Str:
		return vf.String(v.S)
	case Bin:
		return vf.Binary([]byte(v.S), frozen)
	case Time:
		return vf.Time(v.T)
	case Rx:
		return vf.Regexp(regexp.MustCompile(v.S))
	case Sens:
		return vf.Sensitive(v.L[0].Build(frozen))
	case Arr:
		a := vf.MutableValues()
		for _, e := range v.L {
			a.Add(e.Build(frozen))
		}
		if frozen {
			a.Freeze()
		}
		return a
	case Map:
		m := vf.MutableMap()
		for i := 0; i+1 < len(v.L); i += 2 {
			m.Put(v.L[i].Build(frozen), v.L[i+1].Build(frozen))
		}
		if frozen {
			m.Freeze()
		}
		return m
	default:
		return v.Make()
	}
}

// Observe reads a dgo value through its public accessors and returns the corresponding model
func Observe(d dgo.Value) *V { return observe(d, 0) }

func observe(d dgo.Value, depth int) *V {
	if depth > 40 {
		return O("too deep", nil)
	}
	if d == nil {
		return O("GO-NIL", nil)
	}
	switch x := d.(type) {
	case dgo.Nil:
		return N()
	case dgo.Type:
		return O("type "+reflect.TypeOf(d).String()+" "+x.String(), nil)
	case dgo.Boolean:
		return B(x.GoBool())
	case dgo.Integer:
		return I(x.GoInt())
	case dgo.Float:
		return F(x.GoFloat())
	case dgo.String:
		return S(x.GoString())
	case dgo.Binary:
		return Y(string(x.GoBytes()))
	case dgo.Time:
		return T(x.GoTime())
	case dgo.Regexp:
		return R(x.GoRegexp().String())
	case dgo.Sensitive:
		return X(observe(x.Unwrap(), depth+1))
	case dgo.Array:
		r := A()
		n := x.Len()
		for i := 0; i < n; i++ {
			r.L = append(r.L, observe(x.Get(i), depth+1))
		}
		return r
	case dgo.Map:
		r := M()
		x.EachEntry(func(e dgo.MapEntry) {
			r.L = append(r.L, observe(e.Key(), depth+1), observe(e.Value(), depth+1))
		})
		return r
	case dgo.MapEntry:
		return &V{K: Other, S: "entry " + observe(x.Key(), depth+1).Canon() + "=>" + observe(x.Value(), depth+1).Canon()}
	default:
		return O(reflect.TypeOf(d).String()+" "+d.String(), nil)
	}
}

// FrozenDeep returns a path to something that is not frozen, or ""
func FrozenDeep(d dgo.Value) string { return frozenDeep(d, "", 0) }

func frozenDeep(d dgo.Value, path string, depth int) string {
	if depth > 40 || d == nil {
		return ""
	}
	if _, ok := d.(dgo.Type); ok {
		return ""
	}
	if f, ok := d.(dgo.Freezable); ok && !f.Frozen() {
		return path + "<not frozen>"
	}
	switch x := d.(type) {
	case dgo.Sensitive:
		return frozenDeep(x.Unwrap(), path+"!", depth+1)
	case dgo.Array:
		for i := 0; i < x.Len(); i++ {
			if p := frozenDeep(x.Get(i), path+fmt.Sprintf("[%d]", i), depth+1); p != "" {
				return p
			}
		}
	case dgo.Map:
		r := ""
		x.EachEntry(func(e dgo.MapEntry) {
			if r == "" {
				r = frozenDeep(e.Key(), path+"{key}", depth+1)
			}
			if r == "" {
				r = frozenDeep(e.Value(), path+"{"+e.Key().String()+"}", depth+1)
			}
		})
		return r
	case dgo.MapEntry:
		if p := frozenDeep(x.Key(), path+".key", depth+1); p != "" {
			return p
		}
		return frozenDeep(x.Value(), path+".value", depth+1)
	}
	return ""
}

// IsNaN helper
func IsNaN(v *V) bool { return v.K == Float && math.IsNaN(v.F) }
