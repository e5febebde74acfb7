package props

import (
	"math"
	"regexp"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/verif/fw"
	"github.com/lyraproj/dgo/verif/model"
)

// described compares what the accessors of a type tell about its instances with what is an instance. m is the model of
// the value v and in tells if it is an instance.
func described(dt dgo.Type, m *model.V, v dgo.Value, in bool) (what string, ok bool) {
	bad := func(s string) (string, bool) { return s, false }
	is := func(t dgo.Value, v dgo.Value) bool { return t.(dgo.Type).Instance(v) }
	if et, ok := dt.(dgo.ExactType); ok && dgo.IsExact(dt) {
		x := et.ExactValue()
		if m.K != model.Bin && m.K != model.Sens && x.Equals(v) != in {
			return bad("ExactValue")
		}
	}
	if st, ok := dt.(dgo.SizedType); ok {
		if st.Min() < 0 || st.Min() > st.Max() {
			return bad("Min and Max")
		}
		// the number of elements that a variadic tuple begins with isn't considered to be a bound
		_, tup := dt.(dgo.TupleType)
		if st.Unbounded() != ((tup || st.Min() == 0) && st.Max() == math.MaxInt64) {
			return bad("Unbounded")
		}
		n := -1
		switch v := v.(type) {
		case dgo.Array:
			n = v.Len()
		case dgo.Map:
			n = v.Len()
		case dgo.String:
			n = len(v.GoString())
		case dgo.Binary:
			n = len(v.GoBytes())
		}
		if in && (n < st.Min() || n > st.Max()) {
			return bad("size")
		}
	}
	switch tp := dt.(type) {
	case dgo.IntegerType:
		i, isInt := v.(dgo.Integer)
		if want := isInt && tp.Min() <= i.GoInt() && (i.GoInt() < tp.Max() || tp.Inclusive() && i.GoInt() == tp.Max()); want != in {
			return bad("Min, Max, and Inclusive")
		}
		if isInt && tp.IsInstance(i.GoInt()) != in {
			return bad("IsInstance")
		}
	case dgo.FloatType:
		f, isFloat := v.(dgo.Float)
		if isFloat && math.IsNaN(f.GoFloat()) {
			return "", true
		}
		if want := isFloat && tp.Min() <= f.GoFloat() && (f.GoFloat() < tp.Max() || tp.Inclusive() && f.GoFloat() == tp.Max()); want != in && !math.IsInf(m.F, 0) {
			return bad("Min, Max, and Inclusive")
		}
		if isFloat && tp.IsInstance(f.GoFloat()) != in {
			return bad("IsInstance")
		}
	case dgo.BooleanType:
		if b, ok := v.(dgo.Boolean); ok && tp.IsInstance(b.GoBool()) != in {
			return bad("IsInstance")
		}
	case dgo.BinaryType:
		if b, ok := v.(dgo.Binary); ok && tp.IsInstance(b.GoBytes()) != in {
			return bad("IsInstance")
		}
	case dgo.TimeType:
		if b, ok := v.(interface{ GoTime() time.Time }); ok && tp.IsInstance(b.GoTime()) != in {
			return bad("IsInstance")
		}
	case dgo.RegexpType:
		if b, ok := v.(interface{ GoRegexp() *regexp.Regexp }); ok && tp.IsInstance(b.GoRegexp()) != in {
			return bad("IsInstance")
		}
	case dgo.TupleType:
		a, isArr := v.(dgo.Array)
		want := isArr
		if tp.ElementTypes().Len() != tp.Len() {
			return bad("Len")
		}
		if isArr {
			fixed := tp.Len()
			if tp.Variadic() {
				fixed--
			}
			want = a.Len() >= fixed && (tp.Variadic() || a.Len() == fixed)
			a.EachWithIndex(func(e dgo.Value, i int) {
				k := i
				if k >= fixed {
					k = fixed
				}
				if want && k < tp.Len() && !is(tp.Element(k), e) {
					want = false
				}
				if want && k < tp.Len() && !tp.Element(k).Equals(tp.ElementTypes().Get(k)) {
					want = !in
				}
			})
		}
		if want != in {
			return bad("Element, Len and Variadic")
		}
	}
	switch tp := dt.(type) {
	case dgo.ArrayType:
		if in && !v.(dgo.Array).All(func(e dgo.Value) bool { return is(tp.ElementType(), e) }) && dt.TypeIdentifier() != dgo.TiArrayExact && dt.TypeIdentifier() != dgo.TiTuple {
			return bad("ElementType")
		}
	case dgo.MapType:
		mv, isMap := v.(dgo.Map)
		if st, ok := dt.(dgo.StructMapType); ok {
			want := isMap
			n, described := 0, 0
			st.Each(func(e dgo.StructMapEntry) {
				n++
				if !isMap {
					return
				}
				k := e.Key().(dgo.ExactType).ExactValue()
				x := mv.Get(k)
				switch {
				case x != nil:
					described++
					want = want && is(e.Value(), x)
				case e.Required():
					want = false
				}
				if ge := st.Get(k); ge == nil || !ge.Equals(e) || ge.Required() != e.Required() {
					want = !in
				}
			})
			if isMap && !st.Additional() && described != mv.Len() {
				want = false
			}
			if n != st.Len() {
				return bad("Len")
			}
			if want != in {
				return bad("Each and Additional")
			}
			return "", true
		}
		if in && !mv.All(func(e dgo.MapEntry) bool { return is(tp.KeyType(), e.Key()) && is(tp.ValueType(), e.Value()) }) {
			return bad("KeyType and ValueType")
		}
	case dgo.TernaryType:
		n := 0
		tp.Operands().Each(func(o dgo.Value) {
			if is(o, v) {
				n++
			}
		})
		var want bool
		switch tp.Operator() {
		case dgo.OpAnd:
			want = n == tp.Operands().Len()
		case dgo.OpOr:
			want = n > 0
		case dgo.OpOne:
			want = n == 1
		}
		if want != in {
			return bad("Operator and Operands")
		}
	case dgo.UnaryType:
		switch tp.Operator() {
		case dgo.OpNot:
			if is(tp.Operand(), v) == in {
				return bad("Operator and Operand")
			}
		case dgo.OpMeta:
			if tv, isT := v.(dgo.Type); isT && in && tp.Operand() != nil && !tp.Operand().Assignable(tv) {
				return bad("Operand")
			}
		case dgo.OpSensitive:
			if s, isS := v.(dgo.Sensitive); (isS && is(tp.Operand(), s.Unwrap())) != in {
				return bad("Operand")
			}
		}
	}
	return "", true
}

func c11Described(t *fw.T, ty *model.Ty, dt dgo.Type, m *model.V, v dgo.Value, in bool) {
	var what string
	ok := true
	if e, _ := fw.Try(func() { what, ok = described(dt, m, v, in) }); e != nil {
		t.Failf("accessors", m.Canon(), "%s (%s): the accessors panic: %v", ty.Name, dt, e)
	} else if !ok {
		t.Failf("accessors", what+" "+m.Canon(), "%s (%s): %s is an instance: %v, which isn't what %s tell", ty.Name, dt, m.Canon(), in, what)
	}
	t.Count("transitions", 1)
}
