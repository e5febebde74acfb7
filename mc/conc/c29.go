package conc

import (
	"fmt"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/loader"
	"github.com/lyraproj/dgo/verif/fw"
	"github.com/lyraproj/dgo/verif/lref"
	"github.com/lyraproj/dgo/verif/shim/sched"
	"github.com/lyraproj/dgo/vf"
)

// C29: loaders that are shared by goroutines

func init() {
	fw.Register(&fw.Check{ID: "C29", Level: "model_checking", Race: true, Run: runC29,
		Rule:        "every program of two goroutines with one or two operations, and of three goroutines with one operation, on a shared loader is executed under every schedule of its synchronization operations and callbacks (partial order reduction with sleep sets) with the race detector on; the results must be those of some sequential order of the calls on the reference of C28",
		Assumptions: []string{"finders and namespace creators give equal results for equal names, independent of when they are called"}})
}

type ldRoot struct {
	name string
	spec *lref.Spec
	kid  *lref.Spec
}

type ldModel struct {
	w     *lref.World
	nodes []*lref.Node
}

func (r *ldRoot) model() interface{} {
	w := &lref.World{}
	m := &ldModel{w: w, nodes: []*lref.Node{w.Node(r.spec, nil, "")}}
	if r.kid != nil {
		m.nodes = append(m.nodes, w.Child(m.nodes[0], r.kid))
	}
	return m
}

func (r *ldRoot) real() []dgo.Loader {
	w := &lref.Real{Silent: true, Point: func() { sched.Yield("callback") }}
	ls := []dgo.Loader{w.Make(r.spec, nil, "")}
	if r.kid != nil {
		f, c := w.Callbacks(r.kid)
		ls = append(ls, ls[0].NewChild(f, c))
	}
	return ls
}

func ldRoots() []*ldRoot {
	leaf := &lref.Spec{ID: "leaf", Entries: map[string]string{"a": "leaf a", "b": "leaf b"}}
	deep := &lref.Spec{ID: "deep", Finder: map[string]lref.Result{"a": {Kind: "val", Val: "deep a"}, "b": {Kind: "val", Val: "deep b"}}, Spaces: map[string]*lref.Spec{"n": leaf}}
	lazy := map[string]lref.Result{
		"a": {Kind: "val", Val: "lazy a"},
		"b": {Kind: "multi", M: map[string]string{"b": "lazy b", "c": "lazy c", "e": "-"}},
		"c": {Kind: "multi", M: map[string]string{"c": "lazy c", "b": "lazy b"}},
		"d": {Kind: "panic"},
	}
	kid := &lref.Spec{ID: "kid", Finder: map[string]lref.Result{"e": {Kind: "val", Val: "kid e"}, "k": {Kind: "multi", M: map[string]string{"k": "kid k", "b": "kid b"}}},
		Spaces: map[string]*lref.Spec{"n": {ID: "kidn", Finder: map[string]lref.Result{"a": {Kind: "val", Val: "kidn a"}, "k": {Kind: "val", Val: "kidn k"}}}}}
	return []*ldRoot{
		{"lazy", &lref.Spec{ID: "lazy", Finder: lazy}, nil},
		{"preset", &lref.Spec{ID: "preset", Entries: map[string]string{"a": "preset a", "c": "lazy c"}, Finder: lazy}, nil},
		{"spaces", &lref.Spec{ID: "spaces", Entries: map[string]string{"a": "spaces a"}, Spaces: map[string]*lref.Spec{"n": deep, "m": leaf}}, nil},
		{"both", &lref.Spec{ID: "both", Finder: lazy, Spaces: map[string]*lref.Spec{"n": deep}}, nil},
		{"nested", &lref.Spec{ID: "nested", Finder: map[string]lref.Result{
			"a": {Kind: "val", Val: "nested a", Then: []string{"b", "n/a"}},
			"b": {Kind: "val", Val: "nested b", Then: []string{"c"}},
			"c": {Kind: "multi", M: map[string]string{"b": "nested b", "c": "nested c"}},
			"d": {Kind: "nil", Then: []string{"a"}},
		}, Spaces: map[string]*lref.Spec{"n": deep}}, nil},
		{"child", &lref.Spec{ID: "both", Finder: lazy, Spaces: map[string]*lref.Spec{"n": deep}}, kid},
	}
}

// ldFinal are the names that are loaded when all threads have ended
var ldFinal = []string{"a", "b", "c", "e", "k", "n/a"}

type ldCall struct {
	kind string
	h    int
	arg  string
}

func (o ldCall) String() string { return fmt.Sprintf("%d.%s(%s)", o.h, o.kind, o.arg) }

// twin is a loader with a content that the shared loader may get
func twin() dgo.Loader {
	return loader.New(nil, "", vf.Map("a", "lazy a"), func(dgo.Loader, string) interface{} { return nil }, nil)
}

func twinEntries(m map[string]string, spaces int) bool {
	return len(m) == 1 && m["a"] == "lazy a" && spaces == 0
}

// ldGot is a namespace that a thread got
type ldGot struct {
	of   dgo.Loader
	name string
	ns   dgo.Loader
}

func (o ldCall) call(ls []dgo.Loader, got *ldGot) call {
	return call{name: o.String(), real: func() string {
		l := ls[o.h]
		switch o.kind {
		case "load":
			return lref.Try(func() string { return lref.Show(l.Load(o.arg)) })
		case "ns":
			return lref.Try(func() string {
				n := l.Namespace(o.arg)
				if n == nil {
					return "none"
				}
				if o.h == 0 {
					*got = ldGot{l, o.arg, n}
				}
				return n.AbsoluteName()
			})
		case "equals":
			return lref.Try(func() string { return fmt.Sprint(l.Equals(twin())) })
		case "self":
			return lref.Try(func() string { return fmt.Sprint(l.Equals(l)) })
		case "string":
			return lref.Try(func() string { return fmt.Sprint(len(l.String()) > 0) })
		case "hash":
			return lref.Try(func() string { l.HashCode(); return "" })
		}
		return ""
	}, ref: func(mi interface{}) string {
		m := mi.(*ldModel)
		n := m.nodes[o.h]
		switch o.kind {
		case "load":
			return lref.RefTry(func() string {
				if v, ok := m.w.Load(n, o.arg); ok {
					return v
				}
				return "nothing"
			})
		case "ns":
			if s := m.w.Namespace(n, o.arg); s != nil {
				return s.Abs
			}
			return "none"
		case "equals":
			return fmt.Sprint(n.Parent == nil && twinEntries(n.Entries, len(n.Spaces)))
		case "self", "string":
			return "true"
		}
		return ""
	}}
}

func (r *ldRoot) program(threads [][]ldCall) *program {
	ls := r.real()
	p := &program{model: r.model}
	var gots []*ldGot
	for _, cs := range threads {
		var t []call
		for _, c := range cs {
			got := &ldGot{}
			gots = append(gots, got)
			t = append(t, c.call(ls, got))
		}
		p.threads = append(p.threads, t)
	}
	p.final = func() string {
		s := ""
		for _, g := range gots {
			// the namespace of a loader without parent is what everyone gets
			if g.of != nil && g.of.Namespace(g.name) != g.ns {
				s += "namespace " + g.name + " is another one "
			}
		}
		for _, l := range ls {
			for _, x := range ldFinal {
				s += x + "=" + lref.Try(func() string { return lref.Show(l.Load(x)) }) + " "
			}
		}
		return s
	}
	p.refFinal = func(mi interface{}) string {
		m := mi.(*ldModel)
		s := ""
		for _, n := range m.nodes {
			for _, x := range ldFinal {
				s += x + "=" + lref.RefTry(func() string {
					if v, ok := m.w.Load(n, x); ok {
						return v
					}
					return "nothing"
				}) + " "
			}
		}
		return s
	}
	return p
}

func ldCalls(r *ldRoot, thorough bool) (cs []ldCall) {
	hs := 1
	if r.kid != nil {
		hs = 2
	}
	paths := []string{"a", "b", "c", "n/a"}
	if thorough {
		paths = append(paths, "d", "n/n/a", "k")
	}
	if r.kid != nil {
		paths = append(paths, "k")
	}
	for h := 0; h < hs; h++ {
		for _, p := range paths {
			cs = append(cs, ldCall{"load", h, p})
		}
		cs = append(cs, ldCall{"ns", h, "n"})
		for _, k := range []string{"equals", "string", "hash"} {
			cs = append(cs, ldCall{k, h, ""})
		}
	}
	return
}

func runC29(c *fw.C) {
	// bounds on the number of preemptions
	b21, b111 := 2, 1
	if c.Thorough {
		b21, b111 = 3, 2
	}
	for _, r := range ldRoots() {
		r := r
		cs := ldCalls(r, c.Thorough)
		run := func(pre int, threads [][]ldCall) {
			c.Case(func() string { return fmt.Sprintf("%s: %v", r.name, threads) }, func(t *fw.T) {
				explore(t, pre, func() *program { return r.program(threads) })
			})
		}
		b11, name := -1, "all interleavings"
		if !c.Thorough && (r.kid != nil || r.name == "nested") {
			b11, name = 3, "preemption bound 3"
		}
		c.Stage("two threads, one call each, " + name)
		for i, a := range cs {
			for _, b := range cs[i:] {
				run(b11, [][]ldCall{{a}, {b}})
			}
		}
		if !c.Thorough {
			// the readers of all of a loader are alike and the child delegates to its parent
			var few []ldCall
			for _, x := range cs {
				if x.kind != "equals" && x.kind != "hash" && (r.kid == nil || x.arg != "c") {
					few = append(few, x)
				}
			}
			cs = few
		}
		c.Stage(fmt.Sprintf("two threads, two calls against one, preemption bound %d", b21))
		for _, a := range cs {
			for _, a2 := range cs {
				for _, b := range cs {
					run(b21, [][]ldCall{{a, a2}, {b}})
				}
			}
		}
		c.Stage(fmt.Sprintf("three threads, one call each, preemption bound %d", b111))
		for i, a := range cs {
			for j, b := range cs[i:] {
				for _, d := range cs[i+j:] {
					run(b111, [][]ldCall{{a}, {b}, {d}})
				}
			}
		}
		if c.Thorough {
			c.Stage("two threads, two calls each, preemption bound 2")
			for i, a := range cs {
				for _, a2 := range cs {
					for _, b := range cs[i:] {
						for _, b2 := range cs {
							run(2, [][]ldCall{{a, a2}, {b, b2}})
						}
					}
				}
			}
		}
	}
}
