package props

import (
	"errors"
	"fmt"
	"math"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/verif/fw"
	"github.com/lyraproj/dgo/verif/model"
	"github.com/lyraproj/dgo/vf"
)

// C07: equality and hash codes.

func init() {
	fw.Register(&fw.Check{ID: "C07", Level: "model_checking", Run: runC07,
		Rule: "all ordered pairs of a universe of values (in every representation) and types (built twice) of the stated nesting: values are equal exactly when the reference model says so, types built alike are equal, types with different denotations are not, equality is symmetric, things that are equal to each other have the same set of equals (transitivity) and the same hash code; for all pairs of values: lookups in maps and searches in arrays find exactly the equal ones"})
}

type c07thing struct {
	name  string
	v     dgo.Value
	class string // things are equal when they have the same class
	exact bool   // and not equal when they have different classes
	rep   int
	isV   bool // is a plain value
	typ   bool // is or contains a type
	bits  []uint64
	forms []interface{}
}

type c07Struct struct {
	A int
	B string
}

type c07Native struct {
	X int
	Y []string
}

type c07Hidden struct {
	X int
	y int
}

// representations are different ways to create the same value
func representations(v *model.V) (r []dgo.Value) {
	r = []dgo.Value{v.Build(true), v.Build(false)}
	switch v.K {
	case model.Arr:
		es := make([]interface{}, len(v.L))
		for i, e := range v.L {
			es[i] = e.Build(i%2 == 0)
		}
		r = append(r, vf.Values(es...), vf.MutableValues(append([]interface{}{1}, es...)...).Slice(1, 1+len(es)), vf.Arguments(es...))
		// with room for more elements, and with elements that were there before
		wide := vf.ArrayWithCapacity(100)
		wide.AddValues(es...)
		used := vf.ArrayWithCapacity(50)
		for _, e := range es {
			used.Add(e)
			used.Add(7)
			used.Remove(used.Len() - 1)
		}
		r = append(r, wide, used)
	case model.Map:
		m := vf.MutableMap()
		for i := len(v.L) - 2; i >= 0; i -= 2 {
			m.Put(v.L[i].Build(true), v.L[i+1].Build(i%4 == 0))
		}
		r = append(r, m)
		n := vf.MapWithCapacity(100)
		n.Put("zzz", 1)
		for i := 0; i < len(v.L); i += 2 {
			n.Put(v.L[i].Build(true), 1)
			n.Put(v.L[i].Build(true), v.L[i+1].Build(true))
		}
		n.Remove("zzz")
		r = append(r, n)
	case model.Float:
		if v.F == 0 {
			r = append(r, vf.Float(math.Copysign(0, -1)))
		}
	case model.Time:
		r = append(r, vf.Time(v.T.In(time.FixedZone("x", 3600))), vf.Time(v.T.Local()))
	}
	return
}

func c07Things(thorough bool) (ts []*c07thing, nv int) {
	vals := dedup(append(valueUniverse(thorough), closeValues()...))
	for _, v := range vals {
		for i, d := range representations(v) {
			th := &c07thing{name: v.Canon() + "/" + itoa(i), v: d, class: v.EqCanon(), exact: true, isV: true, rep: i, typ: containsType(v)}
			if i == 0 {
				th.forms = goForms(v)
				if v.K == model.Nil {
					th.forms = append(th.forms, nil)
				}
			}
			ts = append(ts, th)
		}
	}
	add := func(class string, exact bool, vs ...dgo.Value) {
		for i, v := range vs {
			ts = append(ts, &c07thing{name: class + "/" + itoa(i), v: v, class: class, exact: exact})
		}
	}
	s1, s1b, s2 := &c07Struct{1, "x"}, &c07Struct{1, "x"}, &c07Struct{2, "x"}
	m1 := model.M(model.S("A"), model.I(1), model.S("B"), model.S("x")).EqCanon()
	m2 := model.M(model.S("A"), model.I(2), model.S("B"), model.S("x")).EqCanon()
	add(m1, true, vf.Map(s1), vf.Map(s1b), vf.Map("A", 1, "B", "x"), vf.Map("B", "x", "A", 1), vf.Map(*s1))
	add(m2, true, vf.Map(s2), vf.Map("A", 2, "B", "x"))
	fm := vf.Map(s1)
	fm.Freeze()
	add(m1, true, fm, vf.Map(s1).FrozenCopy().(dgo.Map), vf.Map(s1).Copy(false))
	n1, n2 := vf.Value(&c07Native{1, []string{"a"}}), vf.Value(&c07Native{1, []string{"b"}})
	add("native 1", true, n1, vf.Value(&c07Native{1, []string{"a"}}))
	add("native 2", true, n2)
	add("native complex", true, vf.Value(complex(1, 2)), vf.Value(complex(1, 2)))
	add("native unexported", true, vf.Value(&c07Hidden{1, 2}), vf.Value(&c07Hidden{1, 2}))
	add("native unexported 2", true, vf.Value(&c07Hidden{1, 3}))
	add("native unexported value", true, vf.Value(c07Hidden{1, 2}), vf.Value(c07Hidden{1, 2}))
	add("native uintptr", true, vf.Value(uintptr(3)), vf.Value(uintptr(3)))
	ch := make(chan int)
	add("chan", true, vf.Value(ch), vf.Value(ch))
	add("chan2", true, vf.Value(make(chan int)))
	add("error a", true, vf.Value(errors.New("a")), vf.Value(errors.New("a")))
	add("error b", true, vf.Value(errors.New("b")))
	f1, f2 := func(a int) string { return "" }, func(a int) string { return "b" }
	add("func 1", true, vf.Value(f1), vf.Value(f1))
	add("func 2", true, vf.Value(f2))
	ent := func(m dgo.Map, k string) dgo.Value {
		return m.Find(func(e dgo.MapEntry) bool { return e.Key().Equals(k) })
	}
	add("entry a 1", true, ent(vf.Map("a", 1, "b", 2), "a"), ent(vf.MutableMap("b", 2, "a", 1), "a"))
	add("entry a 2", true, ent(vf.Map("a", 2), "a"))
	add("entry b 1", true, ent(vf.Map("b", 1), "b"))
	add("entry 1 a", true, vf.Map(1, "a").Find(func(dgo.MapEntry) bool { return true }))
	add("sentry a", false, tf.StructMapEntry("a", typ.Integer, true), tf.StructMapEntry("a", typ.Integer, true))
	add("sentry a?", false, tf.StructMapEntry("a", typ.Integer, false))
	add("sentry a s", false, tf.StructMapEntry("a", typ.String, true))
	add("sentry b", false, tf.StructMapEntry("b", typ.Integer, true))
	add("ttype", false, typ.Error, typ.Error)
	add("function types 1", false, tf.ParseType("func(int) string"), tf.ParseType("func(int) string"))
	add("function types 2", false, tf.ParseType("func(string) int"), tf.ParseType("func(string) int"))
	add("function types 3", false, tf.ParseType("func(...int) (string,int)"), tf.ParseType("func(...int) (string,int)"))
	add("function types 4", false, tf.ParseType("func(int,...int) (string,int)"))
	add("function types 5", false, tf.ParseType("func()"), tf.Function(tf.Tuple(), tf.Tuple()))
	add("function type of f1", false, vf.Value(f1).Type(), vf.Value(f2).Type())
	add("function type of f3", false, vf.Value(func(string) int { return 1 }).Type())
	add("function type of f4", false, vf.Value(func(int, ...int) (string, int) { return "", 1 }).Type())
	add("function type of f5", false, vf.Value(func() {}).Type())
	add("dgo", false, typ.DgoString, tf.ParseType("dgo"))
	add("native type", false, n1.Type(), n2.Type())
	add("native any", false, typ.Native)
	add("type of error a", false, vf.Value(errors.New("a")).Type(), vf.Value(errors.New("a")).Type())
	add("type of error b", false, vf.Value(errors.New("b")).Type())
	add("type of entry", false, ent(vf.Map("a", 1, "b", 2), "a").Type(), ent(vf.MutableMap("b", 2, "a", 1), "a").Type())
	add("type of entry 2", false, ent(vf.Map("a", 2, "b", 2), "a").Type())
	add("recursive x", false, parseLocal("x=map[string](int|x)"), parseLocal("y=map[string](int|y)"))
	add("recursive y", false, parseLocal("x=map[string](string|x)"))
	add("recursive z", false, parseLocal("x=[](int|x)"), parseLocal("z=[](int|z)"))
	nv = len(ts)
	types := typeUniverse(3)
	if thorough {
		types = dedupTypes(append(types, deepTypes()...))
	}
	n2t := len(typeUniverse(2))
	vu := valueUniverse(false)
	for i, tn := range infos(types, vu) {
		if i >= n2t && i%3 != 0 && !thorough {
			continue
		}
		bits := tn.bits
		ts = append(ts, &c07thing{name: "type " + tn.m.Name, v: tn.d, class: "type " + tn.m.Name, bits: bits})
		if i < n2t {
			ts = append(ts, &c07thing{name: "type " + tn.m.Name + "/2", v: tn.m.Build(), class: "type " + tn.m.Name, bits: bits})
		}
		if i%16 == 0 {
			ts = append(ts, &c07thing{name: "meta " + tn.m.Name, v: tn.d.Type(), class: "meta " + tn.m.Name})
			ts = append(ts, &c07thing{name: "meta " + tn.m.Name + "/2", v: tn.m.Build().Type(), class: "meta " + tn.m.Name})
		}
	}
	// parts that types hand out
	for i, ty := range types {
		if i%8 != 0 {
			continue
		}
		switch d := ty.Build().(type) {
		case dgo.StructMapType:
			add("parts "+ty.Name, false, d.KeyType(), d.ValueType())
			d.Each(func(e dgo.StructMapEntry) { add("part "+ty.Name, false, e) })
		case dgo.MapType:
			add("parts "+ty.Name, false, d.KeyType(), d.ValueType())
		case dgo.TupleType:
			add("parts "+ty.Name, false, d.ElementType(), d.ElementTypes())
		case dgo.ArrayType:
			add("parts "+ty.Name, false, d.ElementType())
		case dgo.TernaryType:
			add("parts "+ty.Name, false, d.Operands())
		}
	}
	for i, th := range ts {
		if len(th.class) > 4 && th.class[:4] == "part" {
			th.class = th.name + "#" + itoa(i) // nothing is known about them
		}
	}
	return ts, nv
}

func containsType(v *model.V) bool {
	for _, x := range v.L {
		if containsType(x) {
			return true
		}
	}
	return v.K == model.Typ
}

func sameBits(a, b []uint64) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func runC07(c *fw.C) {
	ts, nv := c07Things(c.Thorough)
	n := len(ts)
	hash := make([]int, n)
	for i, t := range ts {
		i, t := i, t
		_, _ = fw.Try(func() { hash[i] = t.v.HashCode() }) // a panic is reported by the case
	}
	c.Stage("pairs")
	eq := func(i, j int) bool { return ts[i].v.Equals(ts[j].v) }
	for i := range ts {
		i, a := i, ts[i]
		c.Case(func() string { return a.name }, func(t *fw.T) {
			if !a.v.Equals(a.v) {
				t.Failf("reflexive", "", "%s is not equal to itself", a.name)
			}
			if a.v.HashCode() != hash[i] {
				t.Failf("hash", "", "the hash code of %s changes", a.name)
			}
			if a.v.Equals(nil) && a.class != "nil" || a.v.Equals(struct{}{}) {
				t.Failf("foreign", "", "%s equals nil or a Go struct", a.name)
			}
			var same []int
			for j, b := range ts {
				ab := eq(i, j)
				if ab {
					same = append(same, j)
					if hash[i] != hash[j] {
						t.Failf("hash", b.name, "%s equals %s but their hash codes are %d and %d", a.name, b.name, hash[i], hash[j])
					}
				}
				if ba := eq(j, i); ba != ab {
					t.Failf("symmetric", b.name, "%s equals %s: %v, the other way: %v", a.name, b.name, ab, ba)
				}
				if a.class == b.class {
					if !ab {
						t.Failf("notequal", b.name, "%s is not equal to %s", a.name, b.name)
					}
				} else if ab {
					if (a.exact || b.exact) && !(a.typ && !b.isV) && !(b.typ && !a.isV) {
						t.Failf("equal", b.name, "%s is equal to %s", a.name, b.name)
					} else if a.bits != nil && b.bits != nil && !sameBits(a.bits, b.bits) {
						t.Failf("equal", b.name, "%s is equal to %s but their instances differ", a.name, b.name)
					}
				}
				for _, f := range b.forms {
					if got := a.v.Equals(f); got != (a.class == b.class) {
						t.Failf("form", b.name, "%s equals %T %v: %v", a.name, f, f, got)
					}
				}
			}
			for _, j := range same {
				for _, k := range same {
					if !eq(j, k) {
						t.Failf("transitive", ts[j].name+"/"+ts[k].name, "%s equals %s and %s which aren't equal", a.name, ts[j].name, ts[k].name)
					}
				}
			}
			t.Count("pairs", int64(n))
			t.Count("transitions", 2*int64(n))
			t.State(a.class)
			t.Outcome(itoa(len(same)))
		})
	}
	largeEquality(c)
	longFamilies(c, func(t *fw.T, vs []*model.V) {
		reps := make([][]dgo.Value, len(vs))
		for i, v := range vs {
			reps[i] = representations(v)
		}
		for i, a := range vs {
			for j, b := range vs {
				for k, x := range reps[i] {
					y := reps[j][(k+j)%len(reps[j])]
					if x.Equals(y) != (i == j) || y.Equals(x) != (i == j) {
						t.Failf("equal", fmt.Sprintf("%d %d %d", i, j, k), "%s equals %s: %v", a.Canon(), b.Canon(), i != j)
					}
					if i == j && x.HashCode() != y.HashCode() {
						t.Failf("hash", fmt.Sprintf("%d %d", i, k), "the hash codes of %s differ", a.Canon())
					}
					if i == j && vf.MutableMap(x, 1).Get(y) == nil || i != j && vf.Map(x, 1, "zz", 2).Get(y) != nil {
						t.Failf("lookup", fmt.Sprintf("%d %d %d", i, j, k), "lookup of %s in a map with the key %s", b.Canon(), a.Canon())
					}
					t.Count("transitions", 4)
				}
			}
		}
	})
	c.Stage("lookup")
	vs := ts[:nv]
	for i := range vs {
		a := vs[i]
		if !a.isV {
			continue
		}
		c.Case(func() string { return a.name }, func(t *fw.T) {
			m := vf.MutableMap(a.v, 1)
			m2 := vf.MutableMap("\x00", 2, a.v, 1, -77, 3)
			arr := vf.MutableValues("\x00", a.v)
			for _, b := range vs {
				if !b.isV || b.class != a.class && b.rep != 0 && !c.Thorough {
					continue // other representations of different values in the thorough tier only
				}
				want := a.class == b.class
				bv := b.v
				if got := m.Get(bv); (got != nil && got.Equals(1)) != want {
					t.Failf("get", b.name, "a map with the key %s has %v for the key %s", a.name, got, b.name)
				}
				if got := m2.Get(bv); (got != nil && got.Equals(1)) != want && b.class != `"\x00"` && b.class != "i-77" {
					t.Failf("get", "2"+b.name, "a map with the key %s has %v for the key %s", a.name, got, b.name)
				}
				if m.ContainsKey(bv) != want {
					t.Failf("contains", b.name, "a map with the key %s contains the key %s: %v", a.name, b.name, !want)
				}
				if (arr.IndexOf(bv) == 1) != want && b.class != `"\x00"` {
					t.Failf("indexof", b.name, "IndexOf %s in an array with %s: %d", b.name, a.name, arr.IndexOf(bv))
				}
				if u := vf.MutableValues(a.v, bv).Unique().Len(); (u == 1) != want {
					t.Failf("unique", b.name, "Unique of %s and %s has %d elements", a.name, b.name, u)
				}
				if vf.Values(a.v).SameValues(vf.Values(bv)) != want || arr.ContainsAll(vf.Values(bv)) != want && b.class != `"\x00"` {
					t.Failf("contains", b.name, "ContainsAll or SameValues of %s and %s is %v", a.name, b.name, !want)
				}
				if vf.Map(a.v, bv).Equals(vf.Map(bv, a.v)) != want || vf.Values(a.v, bv).Equals(vf.Values(bv, a.v)) != want {
					t.Failf("nested", b.name, "collections with %s and %s swapped are equal: %v", a.name, b.name, !want)
				}
				t.Count("transitions", 8)
			}
		})
	}
}
