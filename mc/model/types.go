package model

import (
	"fmt"
	"math"
	"regexp"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
)

// Ty is a model type: a description, a way to build the dgo type and the set of values that it denotes, given as a
// predicate that is independent of the implementation.
type Ty struct {
	// Name is unique
	Name string
	// Op is the constructor
	Op string
	// Sub types
	Sub []*Ty
	// Keys of a struct map, and which of them that are required
	Keys     []*V
	Required []bool
	Open     bool
	Variadic bool
	Min, Max int64
	FMin     float64
	FMax     float64
	Incl     bool
	Str      string
	Val      *V // exact value

	build func() dgo.Type
	has   func(v *V) bool
}

// Build creates a new dgo type
func (t *Ty) Build() dgo.Type { return t.build() }

// Has tells if the value is a member of the denoted set
func (t *Ty) Has(v *V) bool { return t.has(v) }

func (t *Ty) String() string { return t.Name }

// Inf is used as an unbounded max
const Inf = math.MaxInt64

// Basic creates a type that has no parameters
func Basic(name string, bt dgo.Type, has func(v *V) bool) *Ty {
	return &Ty{Name: name, Op: name, build: func() dgo.Type { return bt }, has: has}
}

func kindIs(k Kind) func(v *V) bool { return func(v *V) bool { return v.K == k } }

var (
	TAny    = Basic("any", typ.Any, func(v *V) bool { return true })
	TNil    = Basic("nil", typ.Nil, kindIs(Nil))
	TBool   = Basic("bool", typ.Boolean, kindIs(Bool))
	TTrue   = Basic("true", typ.True, func(v *V) bool { return v.K == Bool && v.B })
	TFalse  = Basic("false", typ.False, func(v *V) bool { return v.K == Bool && !v.B })
	TInt    = Basic("int", typ.Integer, kindIs(Int))
	TFloat  = Basic("float", typ.Float, kindIs(Float))
	TString = Basic("string", typ.String, kindIs(Str))
	TBin    = Basic("binary", typ.Binary, kindIs(Bin))
	TTime   = Basic("time", typ.Time, kindIs(Time))
	TRegexp = Basic("regexp", typ.Regexp, kindIs(Rx))
	TArray  = Basic("[]any", typ.Array, kindIs(Arr))
	TMap    = Basic("map[any]any", typ.Map, kindIs(Map))
)

func rng(n int64, min, max int64) bool { return min <= n && n <= max }

// TIntRange is min..max or min...max
func TIntRange(min, max int64, incl bool) *Ty {
	d := ".."
	if !incl {
		d = "..."
	}
	return &Ty{Name: fmt.Sprintf("%d%s%d", min, d, max), Op: "intrange", Min: min, Max: max, Incl: incl,
		build: func() dgo.Type { return tf.Integer(min, max, incl) },
		has: func(v *V) bool {
			return v.K == Int && min <= v.I && (v.I < max || incl && v.I == max)
		}}
}

func TFloatRange(min, max float64, incl bool) *Ty {
	d := ".."
	if !incl {
		d = "..."
	}
	return &Ty{Name: fmt.Sprintf("f%v%s%v", min, d, max), Op: "floatrange", FMin: min, FMax: max, Incl: incl,
		build: func() dgo.Type { return tf.Float(min, max, incl) },
		has: func(v *V) bool {
			return v.K == Float && min <= v.F && (v.F < max || incl && v.F == max)
		}}
}

// TStringSized constrains the length
func TStringSized(min, max int64) *Ty {
	return &Ty{Name: fmt.Sprintf("string[%d,%d]", min, max), Op: "stringsized", Min: min, Max: max,
		build: func() dgo.Type { return tf.String(int(min), int(max)) },
		has:   func(v *V) bool { return v.K == Str && rng(int64(len(v.S)), min, max) }}
}

func TPattern(p string) *Ty {
	rx := regexp.MustCompile(p)
	return &Ty{Name: "/" + p + "/", Op: "pattern", Str: p,
		build: func() dgo.Type { return tf.Pattern(regexp.MustCompile(p)) },
		has:   func(v *V) bool { return v.K == Str && rx.MatchString(v.S) }}
}

func TCi(s string) *Ty {
	return &Ty{Name: fmt.Sprintf("~%q", s), Op: "ci", Str: s,
		build: func() dgo.Type { return tf.CiString(s) },
		has:   func(v *V) bool { return v.K == Str && strings.EqualFold(s, v.S) }}
}

func TBinSized(min, max int64) *Ty {
	return &Ty{Name: fmt.Sprintf("binary[%d,%d]", min, max), Op: "binsized", Min: min, Max: max,
		build: func() dgo.Type { return tf.Binary(int(min), int(max)) },
		has:   func(v *V) bool { return v.K == Bin && rng(int64(len(v.S)), min, max) }}
}

// TExact is the type that only has one value
func TExact(x *V) *Ty {
	return &Ty{Name: "exact " + x.Canon(), Op: "exact", Val: x,
		build: func() dgo.Type { return x.Build(true).Type() },
		has:   func(v *V) bool { return v.Equal(x) }}
}

func size(min, max int64) string {
	if min == 0 && max == Inf {
		return ""
	}
	if max == Inf {
		return fmt.Sprint(min)
	}
	return fmt.Sprintf("%d,%d", min, max)
}

func TArr(e *Ty, min, max int64) *Ty {
	return &Ty{Name: "[" + size(min, max) + "]" + paren(e), Op: "array", Sub: []*Ty{e}, Min: min, Max: max,
		build: func() dgo.Type {
			if min == 0 && max == Inf {
				return tf.Array(e.Build())
			}
			return tf.Array(e.Build(), int(min), int(max))
		},
		has: func(v *V) bool {
			if v.K != Arr || !rng(int64(len(v.L)), min, max) {
				return false
			}
			for _, x := range v.L {
				if !e.Has(x) {
					return false
				}
			}
			return true
		}}
}

func paren(t *Ty) string {
	switch t.Op {
	case "or", "and", "one", "not", "exact":
		return "(" + t.Name + ")"
	}
	return t.Name
}

func builds(ts []*Ty) []interface{} {
	r := make([]interface{}, len(ts))
	for i := range ts {
		r[i] = ts[i].Build()
	}
	return r
}

func names(ts []*Ty, sep string) string {
	s := make([]string, len(ts))
	for i := range ts {
		s[i] = paren(ts[i])
	}
	return strings.Join(s, sep)
}

func TTuple(variadic bool, es ...*Ty) *Ty {
	d := ""
	if variadic {
		d = "..."
	}
	return &Ty{Name: "{" + names(es, ",") + d + "}", Op: "tuple", Sub: es, Variadic: variadic,
		build: func() dgo.Type {
			if variadic {
				return tf.VariadicTuple(builds(es)...)
			}
			return tf.Tuple(builds(es)...)
		},
		has: func(v *V) bool {
			n := len(es)
			if variadic {
				n--
			}
			if v.K != Arr || len(v.L) < n || !variadic && len(v.L) != n {
				return false
			}
			for i, x := range v.L {
				j := i
				if j > len(es)-1 {
					j = len(es) - 1
				}
				if !es[j].Has(x) {
					return false
				}
			}
			return true
		}}
}

func TMapOf(k, e *Ty, min, max int64) *Ty {
	s := size(min, max)
	if s != "" {
		s = "," + s
	}
	return &Ty{Name: "map[" + k.Name + s + "]" + paren(e), Op: "map", Sub: []*Ty{k, e}, Min: min, Max: max,
		build: func() dgo.Type {
			if min == 0 && max == Inf {
				return tf.Map(k.Build(), e.Build())
			}
			return tf.Map(k.Build(), e.Build(), int(min), int(max))
		},
		has: func(v *V) bool {
			if v.K != Map || !rng(int64(len(v.L)/2), min, max) {
				return false
			}
			for i := 0; i < len(v.L); i += 2 {
				if !k.Has(v.L[i]) || !e.Has(v.L[i+1]) {
					return false
				}
			}
			return true
		}}
}

// SE is a struct map entry
type SE struct {
	Key *V
	Req bool
	Ty  *Ty
}

func TStruct(open bool, es ...SE) *Ty {
	t := &Ty{Op: "struct", Open: open}
	var ns []string
	for _, e := range es {
		q := ""
		if !e.Req {
			q = "?"
		}
		ns = append(ns, e.Key.Canon()+q+":"+e.Ty.Name)
		t.Keys = append(t.Keys, e.Key)
		t.Required = append(t.Required, e.Req)
		t.Sub = append(t.Sub, e.Ty)
	}
	if open {
		ns = append(ns, "...")
	}
	t.Name = "{" + strings.Join(ns, ",") + "}"
	if len(ns) == 0 {
		t.Name = "{struct}"
	}
	t.build = func() dgo.Type {
		var ses []dgo.StructMapEntry
		for _, e := range es {
			ses = append(ses, tf.StructMapEntry(e.Key.Build(true), e.Ty.Build(), e.Req))
		}
		return tf.StructMap(open, ses...)
	}
	t.has = func(v *V) bool {
		if v.K != Map {
			return false
		}
		n := 0
		for _, e := range es {
			x := v.Get(e.Key)
			if x == nil {
				if e.Req {
					return false
				}
				continue
			}
			n++
			if !e.Ty.Has(x) {
				return false
			}
		}
		return open || n == len(v.L)/2
	}
	return t
}

func TOr(ts ...*Ty) *Ty {
	return &Ty{Name: names(ts, "|"), Op: "or", Sub: ts, build: func() dgo.Type { return tf.AnyOf(builds(ts)...) },
		has: func(v *V) bool {
			for _, t := range ts {
				if t.Has(v) {
					return true
				}
			}
			return false
		}}
}

func TAnd(ts ...*Ty) *Ty {
	return &Ty{Name: names(ts, "&"), Op: "and", Sub: ts, build: func() dgo.Type { return tf.AllOf(builds(ts)...) },
		has: func(v *V) bool {
			for _, t := range ts {
				if !t.Has(v) {
					return false
				}
			}
			return true
		}}
}

func TOne(ts ...*Ty) *Ty {
	return &Ty{Name: names(ts, "^"), Op: "one", Sub: ts, build: func() dgo.Type { return tf.OneOf(builds(ts)...) },
		has: func(v *V) bool {
			n := 0
			for _, t := range ts {
				if t.Has(v) {
					n++
				}
			}
			return n == 1
		}}
}

func TNot(t *Ty) *Ty {
	return &Ty{Name: "!" + paren(t), Op: "not", Sub: []*Ty{t}, build: func() dgo.Type { return tf.Not(t.Build()) },
		has: func(v *V) bool { return !t.Has(v) }}
}

func TSens(t *Ty) *Ty {
	return &Ty{Name: "sensitive[" + t.Name + "]", Op: "sensitive", Sub: []*Ty{t}, build: func() dgo.Type { return tf.Sensitive(t.Build()) },
		has: func(v *V) bool { return v.K == Sens && t.Has(v.L[0]) }}
}

// TV is a type used as a value
func TV(t *Ty) *V {
	return &V{K: Typ, S: t.Name, Ty: t, Make: func() dgo.Value { return t.Build() }}
}

// TMeta is the type of types that are subtypes of t. Subtype is decided over the given witnesses.
func TMeta(t *Ty, witnesses func() []*V) *Ty {
	return &Ty{Name: "type[" + t.Name + "]", Op: "meta", Sub: []*Ty{t}, build: func() dgo.Type { return tf.Meta(t.Build()) },
		has: func(v *V) bool {
			if v.K != Typ {
				return false
			}
			for _, w := range witnesses() {
				if v.Ty.Has(w) && !t.Has(w) {
					return false
				}
			}
			return true
		}}
}

var _ = vf.Nil
