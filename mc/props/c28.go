package props

import (
	"fmt"
	"sort"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/loader"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/verif/fw"
	"github.com/lyraproj/dgo/verif/lref"
	"github.com/lyraproj/dgo/vf"
)

// C28: loaders

func init() {
	fw.Register(&fw.Check{ID: "C28", Level: "model_checking", Run: runC28,
		Rule: "every sequence of load, namespace and child operations up to the stated depth is executed on real loaders of every configuration and on a reference, which also predicts every call of a finder or namespace creator; afterwards every name is loaded from every loader"})
}

type ldOp struct {
	kind string // load get ns child
	h    int
	arg  string
	kid  *lref.Spec
}

func (o ldOp) String() string {
	if o.kid != nil {
		return fmt.Sprintf("%d.child(%s)", o.h, o.kid.ID)
	}
	return fmt.Sprintf("%d.%s(%s)", o.h, o.kind, o.arg)
}

func ldOps(handles int, kids []*lref.Spec, thorough bool) (ops []ldOp) {
	paths := []string{"a", "b", "c", "d", "e", "n/a", "m/n/b"}
	if thorough {
		paths = lref.Paths
	}
	for h := 0; h < handles; h++ {
		for _, p := range paths {
			ops = append(ops, ldOp{kind: "load", h: h, arg: p})
		}
		ops = append(ops, ldOp{kind: "get", h: h, arg: "n/a"})
		if handles < 3 {
			ops = append(ops, ldOp{kind: "ns", h: h, arg: "n"})
			for _, k := range kids {
				ops = append(ops, ldOp{kind: "child", h: h, kid: k})
			}
		}
	}
	return
}

type ldState struct {
	w   *lref.World
	r   *lref.Real
	ref []*lref.Node
	l   []dgo.Loader
}

func (s *ldState) apply(t *fw.T, o ldOp, what string) {
	t.Count("transitions", 1)
	s.w.Log, s.r.Log = nil, nil
	n, l := s.ref[o.h], s.l[o.h]
	var want, got string
	switch o.kind {
	case "load", "get":
		want = lref.RefTry(func() string {
			var v string
			var ok bool
			if o.kind == "load" {
				v, ok = s.w.Load(n, o.arg)
			} else {
				v, ok = s.w.Get(n, o.arg)
			}
			if !ok {
				return "nothing"
			}
			return v
		})
		got = lref.Try(func() string {
			if o.kind == "load" {
				return lref.Show(l.Load(o.arg))
			}
			return lref.Show(l.Get(o.arg))
		})
	case "ns":
		rn := s.w.Namespace(n, o.arg)
		want = fmt.Sprint(rn != nil)
		if rn != nil {
			want += " " + rn.Abs + " " + rn.Name + " in " + parentAbs(rn.Abs)
		}
		var rl dgo.Loader
		got = lref.Try(func() string {
			rl = l.Namespace(o.arg)
			if rl == nil {
				return "false"
			}
			return "true " + rl.AbsoluteName() + " " + rl.Name() + " in " + parentNsName(rl)
		})
		if rn != nil && rl != nil {
			s.ref, s.l = append(s.ref, rn), append(s.l, rl)
		}
	case "child":
		rn := s.w.Child(n, o.kid)
		f, c := s.r.Callbacks(o.kid)
		want = rn.Abs + " " + rn.Name + " in " + parentAbs(rn.Abs)
		var rl dgo.Loader
		got = lref.Try(func() string {
			rl = l.NewChild(f, c)
			return rl.AbsoluteName() + " " + rl.Name() + " in " + parentNsName(rl)
		})
		if rl != nil {
			s.ref, s.l = append(s.ref, rn), append(s.l, rl)
		}
	}
	t.Outcome(got)
	if want != got {
		t.Fatalf("result", o.kind, "%s: %s gives %s, expected %s", what, o, got, want)
	}
	if a, b := strings.Join(s.w.Log, "; "), strings.Join(s.r.Log, "; "); a != b {
		t.Fatalf("callbacks", o.kind, "%s: %s made the calls [%s], expected [%s]", what, o, b, a)
	}
}

func (s *ldState) key() string {
	var sb strings.Builder
	var walk func(n *lref.Node)
	walk = func(n *lref.Node) {
		if n.Parent != nil {
			sb.WriteString("C(")
			walk(n.Parent)
			walk(n.Own)
			sb.WriteString(")")
			return
		}
		sb.WriteString(n.Spec.ID + fmt.Sprint(n.Entries))
		var ks []string
		for k := range n.Spaces {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			sb.WriteString(k)
			walk(n.Spaces[k])
		}
	}
	for _, n := range s.ref {
		walk(n)
		sb.WriteString("|")
	}
	return sb.String()
}

func runC28(c *fw.C) {
	roots, kids := lref.Configs()
	depth := 3
	if c.Thorough {
		depth = 4
	}
	c.Stage("histories")
	for _, root := range roots {
		root := root
		var rec func(ops []ldOp, handles int)
		rec = func(ops []ldOp, handles int) {
			if c.Expired() {
				return
			}
			if len(ops) > 0 {
				ops := append([]ldOp{}, ops...)
				c.Case(func() string { return root.ID + ":" + fmt.Sprint(ops) }, func(t *fw.T) { ldHistory(t, root, ops) })
			}
			if len(ops) == depth {
				return
			}
			for _, o := range ldOps(handles, kids, c.Thorough || depth-len(ops) == 1) {
				nh := handles
				switch {
				case o.kind == "child":
					nh++
				case o.kind == "ns":
					// handles that don't come to exist are skipped when the history is executed
					nh++
				}
				rec(append(ops, o), nh)
			}
		}
		rec(nil, 1)
	}
	c.Stage("isolation")
	c28Isolation(c)
	c.Stage("namespaces created twice")
	c28Twice(c)
}

// c28Twice lets a namespace creator cause the creation of the namespace that it creates. What was created first is
// retained. The other one is a duplicate, and a failure unless everything that it defines is defined in the same way.
func c28Twice(c *fw.C) {
	type shape struct {
		kind   string
		e, sub map[string]string // sub is a nested namespace x
	}
	contents := []map[string]string{{}, {"a": "1"}, {"a": "2"}, {"b": "1"}, {"a": "1", "b": "1"}}
	var shapes []shape
	for _, e := range contents {
		for _, k := range []string{"static", "finder"} {
			shapes = append(shapes, shape{k, e, nil})
		}
		for _, sub := range append([]map[string]string{nil}, contents...) {
			for _, k := range []string{"creator", "both"} {
				shapes = append(shapes, shape{k, e, sub})
			}
		}
	}
	toMap := func(m map[string]string) dgo.Map {
		r := vf.MutableMap()
		for _, k := range []string{"a", "b"} {
			if v, ok := m[k]; ok {
				r.Put(k, v)
			}
		}
		return r
	}
	build := func(l dgo.Loader, s shape) dgo.Loader {
		var f dgo.Finder
		var nc dgo.NsCreator
		if s.kind == "finder" || s.kind == "both" {
			f = func(dgo.Loader, string) interface{} { return nil }
		}
		if s.kind == "creator" || s.kind == "both" {
			nc = func(l dgo.Loader, n string) dgo.Loader {
				if s.sub == nil || n != "x" {
					return nil
				}
				return loader.New(l, n, toMap(s.sub), nil, nil)
			}
		}
		r := loader.New(l, "n", toMap(s.e), f, nc)
		if s.sub != nil {
			r.Namespace("x")
		}
		return r
	}
	names := []string{"a", "b", "x/a", "x/b"}
	value := func(s shape, n string) string {
		m := s.e
		if strings.HasPrefix(n, "x/") {
			m, n = s.sub, n[2:]
		}
		if v, ok := m[n]; ok {
			return v
		}
		return "nothing"
	}
	for i := range shapes {
		for j := range shapes {
			o, n := shapes[i], shapes[j]
			same := i == j
			c.Case(func() string { return fmt.Sprint(o, n) }, func(t *fw.T) {
				for _, way := range []string{"Namespace", "Load", "child"} {
					depth := 0
					var old dgo.Loader
					var top dgo.Loader
					creator := func(l dgo.Loader, name string) dgo.Loader {
						if depth++; depth == 1 {
							old = l.Namespace(name)
							return build(l, n)
						}
						return build(l, o)
					}
					top = loader.New(nil, "", vf.Map(), nil, creator)
					if way == "child" {
						top = loader.New(nil, "", vf.Map(), nil, nil).NewChild(nil, creator)
					}
					conflict := ""
					for _, nm := range names {
						if v := value(n, nm); v != "nothing" && v != value(o, nm) {
							conflict = nm
						}
					}
					var got dgo.Loader
					var gv dgo.Value
					p, rt := fw.Try(func() {
						if way == "Load" {
							gv = top.Load("n/a")
						} else {
							got = top.Namespace("n")
						}
					})
					t.Count("transitions", 1)
					t.Outcome(fmt.Sprint(o, n, way, p == nil))
					switch {
					case rt:
						t.Fatalf("runtime", "", "%s: %v then %v: %v", way, o, n, p)
					case p != nil && same:
						t.Fatalf("duplicate", "", "%s: %v created twice: %v", way, o, p)
					case p == nil && conflict != "":
						t.Fatalf("redefined", "", "%s: namespace defined as %v and then as %v where %s differs is accepted", way, o, n, conflict)
					case p == nil && way == "Namespace" && got != old:
						t.Fatalf("replaced", "", "%s: %v then %v: another loader than the one created first is returned", way, o, n)
					case p == nil && way == "Load" && lref.Show(gv) != value(o, "a"):
						t.Fatalf("loaded", "", "%s: %v then %v: n/a is %s", way, o, n, lref.Show(gv))
					}
					for _, nm := range names {
						if v := lref.Try(func() string { return lref.Show(top.Load("n/" + nm)) }); v != value(o, nm) {
							t.Fatalf("retained", "", "%s: %v then %v: n/%s is %s", way, o, n, nm, v)
						}
					}
				}
			})
		}
	}
}

func ldHistory(t *fw.T, root *lref.Spec, ops []ldOp) {
	w, r := &lref.World{}, &lref.Real{}
	s := &ldState{w: w, r: r, ref: []*lref.Node{w.Node(root, nil, "")}, l: []dgo.Loader{r.Make(root, nil, "")}}
	var done []string
	for _, o := range ops {
		if o.h >= len(s.ref) {
			t.Count("skipped", 1)
			return
		}
		s.apply(t, o, root.ID+" after "+strings.Join(done, ", "))
		done = append(done, o.String())
		t.State(s.key())
	}
	// everything that can be loaded, twice: a value doesn't change once it has been loaded
	what := root.ID + " after " + strings.Join(done, ", ")
	for i := 0; i < 2; i++ {
		for h := range s.ref {
			for _, p := range lref.Paths {
				s.apply(t, ldOp{kind: "load", h: h, arg: p}, what+", then all loads")
			}
		}
	}
}

// c28Isolation checks that what a loader holds cannot be altered by means of maps that were given to it or obtained from
// it, that equality compares contents and that the string of a loader denotes an equal loader
func c28Isolation(c *fw.C) {
	type mk struct {
		name string
		f    func(src dgo.Map) dgo.Loader
	}
	find := func(dgo.Loader, string) interface{} { return nil }
	create := func(l dgo.Loader, n string) dgo.Loader {
		return loader.New(l, n, vf.Map("y", "ns y"), nil, nil)
	}
	mks := []mk{
		{"map", func(src dgo.Map) dgo.Loader { return loader.New(nil, "x", src, nil, nil) }},
		{"finder", func(src dgo.Map) dgo.Loader { return loader.New(nil, "x", src, find, nil) }},
		{"creator", func(src dgo.Map) dgo.Loader { return loader.New(nil, "x", src, nil, create) }},
		{"finder and creator", func(src dgo.Map) dgo.Loader { return loader.New(nil, "x", src, find, create) }},
		{"mapLoader type", func(src dgo.Map) dgo.Loader {
			return vf.New(loader.Type, vf.MutableMap("name", "x", "entries", src)).(dgo.Loader)
		}},
		{"loader type", func(src dgo.Map) dgo.Loader {
			return vf.New(loader.MutableType, vf.MutableMap("name", "x", "entries", src, "namespaces", vf.MutableMap())).(dgo.Loader)
		}},
		{"child", func(src dgo.Map) dgo.Loader { return loader.New(nil, "x", src, nil, nil).NewChild(nil, create) }},
		{"childLoader type", func(src dgo.Map) dgo.Loader {
			return vf.New(loader.ChildType, vf.MutableMap("loader", loader.New(nil, "x", vf.Map(), nil, nil), "parent", loader.New(nil, "x", src, nil, nil))).(dgo.Loader)
		}},
	}
	muts := []struct {
		name string
		f    func(m dgo.Map)
	}{
		{"put a new key", func(m dgo.Map) { m.Put("q", "new") }},
		{"change a key", func(m dgo.Map) { m.Put("a", "changed") }},
		{"remove a key", func(m dgo.Map) { m.Remove("a") }},
		{"put all", func(m dgo.Map) { m.PutAll(vf.Map("q", "new", "a", "changed")) }},
	}
	for _, m := range mks {
		m := m
		for _, frozen := range []bool{false, true} {
			frozen := frozen
			src := func() dgo.Map {
				s := vf.MutableMap("a", "the a", "b", "the b")
				if frozen {
					s.Freeze()
				}
				return s
			}
			check := func(t *fw.T, l dgo.Loader, when string) {
				for _, x := range [][2]string{{"a", "the a"}, {"b", "the b"}, {"q", "nothing"}} {
					if got := lref.Try(func() string { return lref.Show(l.Load(x[0])) }); got != x[1] {
						t.Fatalf("altered", when, "%s loader (frozen source %v) %s: Load(%s) gives %s, expected %s", m.name, frozen, when, x[0], got, x[1])
					}
				}
			}
			for _, mu := range muts {
				mu := mu
				c.Case(func() string { return fmt.Sprintf("%s/%v/%s", m.name, frozen, mu.name) }, func(t *fw.T) {
					s := src()
					l := m.f(s)
					fw.Try(func() { mu.f(s) })
					check(t, l, "after the source was altered: "+mu.name)
					// what the loader reveals
					var ia dgo.Value
					if p, _ := fw.Try(func() { ia = typ.Generic(l.Type()).(dgo.NamedType).ExtractInitArg(l) }); p != nil {
						t.Fatalf("initarg", "", "%s: %v", m.name, p)
					}
					var alter func(v dgo.Value)
					alter = func(v dgo.Value) {
						if mv, ok := v.(dgo.Map); ok {
							mv.EachValue(func(v dgo.Value) { alter(v) })
							fw.Try(func() { mu.f(mv) })
						}
					}
					alter(ia)
					check(t, l, "after its init argument was altered: "+mu.name)
					// a load of everything keeps that
					l2 := m.f(src())
					if !l2.Equals(l2) || !l2.Equals(m.f(src())) || l2.HashCode() != m.f(src()).HashCode() {
						t.Failf("equality", "", "%s: equal loaders are not equal or have different hash codes", m.name)
					}
					if l2.Equals(m.f(vf.Map("a", "the a", "b", "other"))) {
						t.Failf("equality", "", "%s: loaders with different entries are equal", m.name)
					}
				})
			}
			c.Case(func() string { return fmt.Sprintf("%s/%v/string", m.name, frozen) }, func(t *fw.T) {
				l := m.f(src())
				if m.name == "child" || strings.Contains(m.name, "creator") {
					l.Namespace("n")
				}
				var l2 dgo.Value
				if p, _ := fw.Try(func() { l2 = tf.Parse(l.String()) }); p != nil {
					t.Fatalf("string", "", "%s: the string %s cannot be parsed: %v", m.name, l, p)
				}
				if !l.Equals(l2) {
					t.Failf("string", "", "%s: the string %s denotes a different loader %s", m.name, l, l2)
				}
				check(t, l2.(dgo.Loader), "when parsed from its string")
				if !l.Type().Equals(l2.Type()) || !l.Type().Instance(l2) {
					t.Failf("type", "", "%s: a parsed loader has a different type", m.name)
				}
			})
		}
	}
	// namespaces
	c.Case(func() string { return "namespace redefinition" }, func(t *fw.T) {
		for _, same := range []bool{true, false} {
			first := true
			l := loader.New(nil, "", nil, nil, func(l dgo.Loader, n string) dgo.Loader {
				v := "the a"
				if first {
					first = false
					l.Namespace(n)
					if !same {
						v = "other a"
					}
				}
				return loader.New(l, n, vf.Map("a", v), nil, nil)
			})
			p, _ := fw.Try(func() { l.Namespace("n") })
			if (p == nil) != same {
				t.Failf("namespace", "", "redefinition of a namespace with same=%v: failure %v", same, p)
			}
			if got := lref.Show(l.Load("n/a")); got != "the a" {
				t.Failf("namespace", "", "a failed redefinition changed n/a to %s", got)
			}
		}
	})
}

// parentAbs is the absolute name of the namespace that holds the namespace with the given absolute name
func parentAbs(abs string) string {
	if abs == "/" {
		return "none"
	}
	if i := strings.LastIndexByte(abs, '/'); i > 0 {
		return abs[:i]
	}
	return "/"
}

func parentNsName(l dgo.Loader) string {
	if p := l.ParentNamespace(); p != nil {
		return p.AbsoluteName()
	}
	return "none"
}
