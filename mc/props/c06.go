package props

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/verif/fw"
	"github.com/lyraproj/dgo/verif/model"
	"github.com/lyraproj/dgo/vf"
)

// C06: every constructor of a map agrees with putting the associations one by one, also under every later operation.

func init() {
	fw.Register(&fw.Check{ID: "C06", Level: "model_checking", Rule: "every association list up to the stated length over keys that collide, are equal or are duplicated, built through every constructor; the result is compared with the reference dictionary by every query and after every single operation on it; an outcome is the content of the map", Run: runC06})
}

type ctor struct {
	name   string
	frozen bool
	// mk returns nil when the constructor isn't applicable
	mk func(kvs []*model.V) dgo.Map
}

func flatArgs(kvs []*model.V, frozen bool) []interface{} {
	a := make([]interface{}, len(kvs))
	for i := range kvs {
		a[i] = kvs[i].Build(frozen)
	}
	return a
}

func allStr(kvs []*model.V) bool {
	for i := 0; i < len(kvs); i += 2 {
		if kvs[i].K != model.Str {
			return false
		}
	}
	return true
}

func pairs(kvs []*model.V, frozen bool) dgo.Array {
	a := vf.MutableValues()
	for i := 0; i < len(kvs); i += 2 {
		p := vf.MutableValues(kvs[i].Build(frozen), kvs[i+1].Build(frozen))
		if frozen {
			p.Freeze()
		}
		a.Add(p)
	}
	return a
}

func ctors() []ctor {
	var cs []ctor
	add := func(name string, frozen bool, mk func(kvs []*model.V) dgo.Map) {
		cs = append(cs, ctor{name, frozen, mk})
	}
	for _, fr := range []bool{false, true} {
		fr := fr
		s := map[bool]string{true: "frozen", false: "mutable"}[fr]
		add("vf.Map("+s+"...)", true, func(kvs []*model.V) dgo.Map { return vf.Map(flatArgs(kvs, fr)...) })
		add("vf.MutableMap("+s+"...)", false, func(kvs []*model.V) dgo.Map { return vf.MutableMap(flatArgs(kvs, fr)...) })
		add("vf.Map("+s+" array)", true, func(kvs []*model.V) dgo.Map { return vf.Map(model.A(kvs...).Build(fr)) })
		add("vf.MutableMap("+s+" array)", false, func(kvs []*model.V) dgo.Map { return vf.MutableMap(model.A(kvs...).Build(fr)) })
		add(s+".ToMap()", fr, func(kvs []*model.V) dgo.Map { return model.A(kvs...).Build(fr).(dgo.Array).ToMap() })
		add("pairs("+s+").ToMapFromEntries()", fr, func(kvs []*model.V) dgo.Map {
			a := pairs(kvs, fr)
			if fr {
				a.Freeze()
			}
			m, ok := a.ToMapFromEntries()
			if !ok {
				return nil
			}
			return m
		})
		add("vf.MapEntry("+s+").ToMapFromEntries()", fr, func(kvs []*model.V) dgo.Map {
			a := vf.MutableValues()
			for i := 0; i < len(kvs); i += 2 {
				a.Add(vf.MapEntry(kvs[i].Build(true), kvs[i+1].Build(fr)))
			}
			if fr {
				a.Freeze()
			}
			m, ok := a.ToMapFromEntries()
			if !ok {
				return nil
			}
			return m
		})
		add("entries of single maps("+s+").ToMapFromEntries()", fr, func(kvs []*model.V) dgo.Map {
			a := vf.MutableValues()
			for i := 0; i < len(kvs); i += 2 {
				vf.Map(kvs[i].Build(fr), kvs[i+1].Build(fr)).EachEntry(func(e dgo.MapEntry) { a.Add(e) })
			}
			if fr {
				a.Freeze()
			}
			m, ok := a.ToMapFromEntries()
			if !ok {
				return nil
			}
			return m
		})
		add("PutAll("+s+")", false, func(kvs []*model.V) dgo.Map {
			m := vf.MutableMap()
			for i := 0; i < len(kvs); i += 2 {
				m.PutAll(vf.Map(kvs[i].Build(fr), kvs[i+1].Build(fr)))
			}
			return m
		})
		add("Merge("+s+" singles)", fr, func(kvs []*model.V) dgo.Map {
			m := vf.MutableMap()
			if fr {
				m.Freeze()
			}
			for i := 0; i < len(kvs); i += 2 {
				m = m.Merge(vf.MutableMap(kvs[i].Build(fr), kvs[i+1].Build(fr)))
			}
			return m
		})
		add("Merge("+s+" halves)", fr, func(kvs []*model.V) dgo.Map {
			h := len(kvs) / 4 * 2
			return vf.MutableMap(flatArgs(kvs[:h], false)...).Copy(fr).Merge(vf.MutableMap(flatArgs(kvs[h:], false)...))
		})
		add("With chain("+s+")", fr, func(kvs []*model.V) dgo.Map {
			m := vf.MutableMap()
			if fr {
				m.Freeze()
			}
			for i := 0; i < len(kvs); i += 2 {
				m = m.With(kvs[i].Build(fr), kvs[i+1].Build(fr))
			}
			return m
		})
		add("Copy("+s+")", fr, func(kvs []*model.V) dgo.Map { return vf.MutableMap(flatArgs(kvs, false)...).Copy(fr) })
		add("typ.Map.New("+s+" array)", true, func(kvs []*model.V) dgo.Map {
			return vf.New(typ.Map, model.A(kvs...).Build(fr)).(dgo.Map)
		})
		add("FromReflectedMap("+s+", map[string]int)", fr, func(kvs []*model.V) dgo.Map {
			if !allStr(kvs) {
				return nil
			}
			gm := map[string]int64{}
			for i := 0; i < len(kvs); i += 2 {
				gm[kvs[i].S] = kvs[i+1].I
			}
			return vf.FromReflectedMap(reflect.ValueOf(gm), fr)
		})
	}
	add("MapWithCapacity.Put", false, func(kvs []*model.V) dgo.Map {
		m := vf.MapWithCapacity(1)
		for i := 0; i < len(kvs); i += 2 {
			m.Put(kvs[i].Build(false), kvs[i+1].Build(false))
		}
		return m
	})
	add("Go values", true, func(kvs []*model.V) dgo.Map {
		a := make([]interface{}, len(kvs))
		for i, v := range kvs {
			switch v.K {
			case model.Str:
				a[i] = v.S
			case model.Int:
				a[i] = int(v.I)
			case model.Arr:
				a[i] = []interface{}{v.L[0].I}
			default:
				return nil
			}
		}
		return vf.Map(a...)
	})
	add("vf.Map(map[interface{}]interface{})", true, func(kvs []*model.V) dgo.Map {
		gm := map[interface{}]interface{}{}
		for i := 0; i < len(kvs); i += 2 {
			var k interface{}
			switch kvs[i].K {
			case model.Str:
				k = kvs[i].S
			case model.Int:
				k = kvs[i].I
			default:
				return nil
			}
			gm[k] = kvs[i+1].I
		}
		return vf.Map(gm)
	})
	add("UnmarshalJSON", false, func(kvs []*model.V) dgo.Map {
		if !allStr(kvs) {
			return nil
		}
		b := &strings.Builder{}
		b.WriteString("{")
		for i := 0; i < len(kvs); i += 2 {
			if i > 0 {
				b.WriteString(",")
			}
			fmt.Fprintf(b, "%q:%d", kvs[i].S, kvs[i+1].I)
		}
		b.WriteString("}")
		m, _ := streamer.UnmarshalJSON([]byte(b.String()), nil).(dgo.Map)
		return m
	})
	return cs
}

func sortedByKey(m *model.V) *model.V {
	r := m.Shallow()
	n := len(r.L) / 2
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			if mcmp(r.L[2*j], r.L[2*i]) < 0 {
				r.L[2*i], r.L[2*j] = r.L[2*j], r.L[2*i]
				r.L[2*i+1], r.L[2*j+1] = r.L[2*j+1], r.L[2*i+1]
			}
		}
	}
	return r
}

func runC06(c *fw.C) {
	keys := []*model.V{model.S("a"), model.I(128), model.A(model.I(97)), model.S("key")}
	if c.Thorough {
		keys = append(keys, model.I(0))
	}
	cs := ctors()
	vals := []*model.V{model.I(1), model.I(2)}
	ops := append(append(append(mapMutators(append([]*model.V{model.S("new")}, keys...), vals), mapDerivers(append([]*model.V{model.S("new")}, keys...), vals)...), mapViews()...), copyOps()...)
	ops = append(ops, freezeOp())
	maxLen := 4
	if c.Thorough {
		maxLen = 5
	}
	c.Stage("constructors")
	lists := [][]*model.V{}
	var rec func(cur []*model.V, left int)
	rec = func(cur []*model.V, left int) {
		lists = append(lists, append([]*model.V{}, cur...))
		if left == 0 {
			return
		}
		for _, k := range keys {
			rec(append(cur, k, model.I(int64(left%2+1))), left-1)
		}
	}
	rec(nil, maxLen)
	// long lists
	for _, n := range []int{8, 9, 12, 13, 17, 40} {
		var l []*model.V
		for i := 0; i < n; i++ {
			l = append(l, model.I(int64(i*i%11*16)), model.I(int64(i)))
		}
		lists = append(lists, l)
		l = nil
		for i := 0; i < n; i++ {
			l = append(l, model.S(fmt.Sprintf("s%d", i%10)), model.I(int64(i)))
		}
		lists = append(lists, l)
	}
	for li := range lists {
		kvs := lists[li]
		for ci := range cs {
			ct := cs[ci]
			c.Case(func() string { return ct.name + " " + names(kvs) }, func(t *fw.T) {
				exp := model.M()
				for i := 0; i < len(kvs); i += 2 {
					exp.Put(kvs[i], kvs[i+1])
				}
				if strings.Contains(ct.name, "map[") {
					if !allStr(kvs) {
						// only homogeneous keys have a defined order
						ok := true
						for i := 0; i < len(kvs); i += 2 {
							ok = ok && kvs[i].K == model.Int
						}
						if !ok {
							return
						}
					}
					exp = sortedByKey(exp)
				}
				mk := func() *world {
					m := ct.mk(kvs)
					if m == nil {
						return nil
					}
					w := &world{t: t}
					w.add(m, exp.Copy(), ct.frozen || len(kvs) == 0 && m.Frozen(), "v0")
					return w
				}
				w := mk()
				if w == nil {
					t.Count("inapplicable", 1)
					return
				}
				w.checkAll()
				// keys are always frozen
				mp(w.objs[0]).EachKey(func(k dgo.Value) {
					if p := model.FrozenDeep(k); p != "" {
						t.Failf("mutable-key", "", "key %s of %s isn't frozen", k, w.objs[0].v)
					}
				})
				mapQueries(w, w.objs[0], keys, vals)
				t.Outcome(worldString(w))
				if len(kvs) > 6 && len(kvs) < 16 && !c.Thorough {
					return
				}
				for _, op := range ops {
					w2 := mk()
					if w2.step(op, 0) {
						for _, o := range w2.objs {
							if isMap(o) {
								mapQueries(w2, o, keys[:2], vals[:1])
							}
						}
						t.State(worldString(w2))
					}
				}
			})
		}
	}
	// odd lists
	c.Stage("odd")
	for li := range lists {
		kvs := lists[li]
		if len(kvs) == 0 || len(kvs) > 6 {
			continue
		}
		c.Case(func() string { return names(kvs) }, func(t *fw.T) {
			odd := kvs[:len(kvs)-1]
			exp := toMapModel(model.A(odd...))
			for _, fr := range []bool{true, false} {
				if g := model.Observe(model.A(odd...).Build(fr).(dgo.Array).ToMap()).Canon(); g != exp.Canon() {
					t.Failf("odd-tomap", fmt.Sprint(fr), "expected %s, got %s", exp.Canon(), g)
				}
			}
			if len(odd) > 1 {
				if pv, _ := fw.Try(func() { vf.Map(flatArgs(odd, true)...) }); pv == nil {
					t.Failf("odd-accepted", "", "vf.Map accepted an odd number of arguments")
				}
			}
			// an array with anything but pairs isn't converted
			if _, ok := vf.Values(vf.Values(1, 2), 3).ToMapFromEntries(); ok {
				t.Failf("not-entries", "", "ToMapFromEntries accepted something that isn't an entry")
			}
			t.Outcome(exp.Canon())
		})
	}
	// Go maps where different Go keys are the same dgo key
	c.Stage("go-duplicates")
	gms := []interface{}{
		map[interface{}]int{1: 5, int8(1): 5, int64(1): 5},
		map[interface{}]int{"a": 5, vf.String("a"): 5},
		map[dgo.Value]int{vf.String("a"): 5, vf.String("a"): 5},
		map[float64]string{1: "a", 2: "b", -1: "c"},
		map[bool]int{true: 1, false: 0},
		map[[2]int]int{},
	}
	for i := range gms {
		gm := gms[i]
		c.Case(func() string { return fmt.Sprintf("%T#%d", gm, i) }, func(t *fw.T) {
			for _, fr := range []bool{true, false} {
				m := vf.FromReflectedMap(reflect.ValueOf(gm), fr)
				n := m.Len()
				ks := map[string]bool{}
				m.EachKey(func(k dgo.Value) { ks[model.Observe(k).EqCanon()] = true })
				if len(ks) != n {
					t.Failf("duplicate-key", fmt.Sprint(fr), "%s has duplicated keys", m)
				}
				r := m.ThawedCopy().(dgo.Map)
				m.EachKey(func(k dgo.Value) {
					if r.Remove(k) == nil {
						t.Failf("lookup", fmt.Sprint(fr), "%s: key %s wasn't found", m, k)
					}
				})
				if r.Len() != 0 {
					t.Failf("remove", fmt.Sprint(fr), "%s after removal of all keys", r)
				}
				t.Outcome(m.String())
			}
		})
	}
}
