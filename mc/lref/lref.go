// Package lref is a reference of loaders
package lref

import (
	"fmt"
	"sort"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/loader"
	"github.com/lyraproj/dgo/verif/fw"
	"github.com/lyraproj/dgo/vf"
)

// Result is what a finder does for a name
type Result struct {
	Kind string // val nil multi panic
	Val  string
	M    map[string]string // multi; the value `-` is nil
	Then []string          // names that the finder loads before it returns
}

// Spec describes a loader
type Spec struct {
	ID      string
	Entries map[string]string
	Finder  map[string]Result // nil when there's no finder
	Spaces  map[string]*Spec  // nil when there's no creator
}

// Node is the reference of a loader
type Node struct {
	Spec        *Spec
	Name, Abs   string
	Entries     map[string]string
	Spaces      map[string]*Node
	ParentNs    *Node
	Parent, Own *Node // of a child
}

// World runs the reference
type World struct {
	Log []string
}

type Fail string

func (w *World) Node(s *Spec, parentNs *Node, name string) *Node {
	n := &Node{Spec: s, Name: name, ParentNs: parentNs, Entries: map[string]string{}, Spaces: map[string]*Node{}}
	for k, v := range s.Entries {
		n.Entries[k] = v
	}
	n.Abs = "/" + name
	if parentNs != nil && parentNs.Abs != "/" {
		n.Abs = parentNs.Abs + n.Abs
	}
	return n
}

func (w *World) Child(parent *Node, s *Spec) *Node {
	own := w.Node(s, parent.pns(), parent.Name)
	return &Node{Parent: parent, Own: own, Name: own.Name, Abs: own.Abs, ParentNs: own.ParentNs}
}

func (n *Node) pns() *Node { return n.ParentNs }

// get returns the value and true if it is defined. The value - is a nil
func (w *World) Get(n *Node, key string) (string, bool) {
	if n.Parent != nil {
		if v, ok := w.Get(n.Parent, key); ok {
			return v, ok
		}
		return w.Get(n.Own, key)
	}
	if v, ok := n.Entries[key]; ok {
		return v, v != "-"
	}
	if n.Spec.Finder == nil {
		return "", false
	}
	w.Log = append(w.Log, n.Spec.ID+" "+n.Abs+" find "+key)
	r, ok := n.Spec.Finder[key]
	if !ok {
		r.Kind = "nil"
	}
	for _, o := range r.Then {
		w.Load(n, o)
	}
	switch r.Kind {
	case "panic":
		panic(Fail("finder"))
	case "val", "nil":
		v := r.Val
		if r.Kind == "nil" {
			v = "-"
		}
		if old, ok := n.Entries[key]; ok && old != v {
			panic(Fail("override"))
		}
		n.Entries[key] = v
	case "multi":
		if _, ok := r.M[key]; !ok {
			panic(Fail("not requested"))
		}
		for k, v := range r.M {
			if old, ok := n.Entries[k]; ok && old != v {
				panic(Fail("override"))
			}
		}
		for k, v := range r.M {
			n.Entries[k] = v
		}
	}
	v := n.Entries[key]
	return v, v != "-"
}

func (w *World) Namespace(n *Node, name string) *Node {
	if name == "" {
		return n
	}
	if n.Parent != nil {
		pv := w.Namespace(n.Parent, name)
		v := w.Namespace(n.Own, name)
		switch {
		case v == nil:
			return pv
		case pv == nil:
			return v
		}
		return &Node{Parent: pv, Own: v, Name: v.Name, Abs: v.Abs, ParentNs: v.ParentNs}
	}
	if s, ok := n.Spaces[name]; ok {
		return s
	}
	if n.Spec.Spaces == nil {
		return nil
	}
	w.Log = append(w.Log, n.Spec.ID+" "+n.Abs+" create "+name)
	if s := n.Spec.Spaces[name]; s != nil {
		n.Spaces[name] = w.Node(s, n, name)
		return n.Spaces[name]
	}
	return nil
}

func (w *World) Load(n *Node, path string) (string, bool) {
	parts := strings.Split(path, "/")
	for _, p := range parts[:len(parts)-1] {
		if n = w.Namespace(n, p); n == nil {
			return "", false
		}
	}
	return w.Get(n, parts[len(parts)-1])
}

// Real builds real loaders that log what their callbacks are asked
type Real struct {
	Log []string
	// Silent turns off the log
	Silent bool
	// Point is called when a callback begins
	Point func()
}

func (w *Real) note(s string) {
	if w.Point != nil {
		w.Point()
	}
	if !w.Silent {
		w.Log = append(w.Log, s)
	}
}

// BuildMap returns the map with the given strings
func BuildMap(m map[string]string) dgo.Map {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	r := vf.MutableMap()
	for _, k := range ks {
		if m[k] == "-" {
			r.Put(k, nil)
		} else {
			r.Put(k, m[k])
		}
	}
	return r
}

func (w *Real) Callbacks(s *Spec) (f dgo.Finder, c dgo.NsCreator) {
	if s.Finder != nil {
		f = func(l dgo.Loader, key string) interface{} {
			w.note(s.ID + " " + l.AbsoluteName() + " find " + key)
			r := s.Finder[key]
			for _, o := range r.Then {
				l.Load(o)
			}
			switch r.Kind {
			case "panic":
				panic(Fail("finder"))
			case "val":
				return r.Val
			case "multi":
				return loader.Multiple(BuildMap(r.M))
			}
			return nil
		}
	}
	if s.Spaces != nil {
		c = func(l dgo.Loader, name string) dgo.Loader {
			w.note(s.ID + " " + l.AbsoluteName() + " create " + name)
			if s := s.Spaces[name]; s != nil {
				return w.Make(s, l, name)
			}
			return nil
		}
	}
	return
}

func (w *Real) Make(s *Spec, parentNs dgo.Loader, name string) dgo.Loader {
	f, c := w.Callbacks(s)
	var e dgo.Map
	if s.Entries != nil {
		e = BuildMap(s.Entries)
	}
	return loader.New(parentNs, name, e, f, c)
}

// Configs are the loaders that the histories start with and the ones that children are made of
func Configs() (roots, kids []*Spec) {
	leaf := &Spec{ID: "leaf", Entries: map[string]string{"a": "leaf a", "b": "leaf b"}}
	deep := &Spec{ID: "deep", Finder: map[string]Result{"a": {Kind: "val", Val: "deep a"}}, Spaces: map[string]*Spec{"n": leaf}}
	lazy := map[string]Result{
		"a": {Kind: "val", Val: "lazy a"},
		"b": {Kind: "multi", M: map[string]string{"b": "lazy b", "c": "lazy c", "e": "-"}},
		"c": {Kind: "multi", M: map[string]string{"c": "other c", "b": "lazy b"}},
		"d": {Kind: "panic"},
	}
	roots = []*Spec{
		leaf,
		{ID: "empty"},
		{ID: "lazy", Finder: lazy},
		{ID: "preset", Entries: map[string]string{"a": "preset a", "c": "preset c"}, Finder: lazy},
		{ID: "spaces", Entries: map[string]string{"a": "spaces a"}, Spaces: map[string]*Spec{"n": leaf, "m": deep}},
		{ID: "both", Finder: lazy, Spaces: map[string]*Spec{"n": deep}},
		{ID: "conflict", Finder: map[string]Result{
			"a": {Kind: "val", Val: "1"},
			"b": {Kind: "multi", M: map[string]string{"0": "x", "a": "2", "b": "3", "z": "y"}},
			"c": {Kind: "multi", M: map[string]string{"a": "1", "c": "4"}},
			"d": {Kind: "multi", M: map[string]string{"a": "1"}},
			"e": {Kind: "multi", M: map[string]string{"a": "5", "e": "6"}, Then: []string{"a"}},
		}},
		{ID: "nested", Finder: map[string]Result{
			"a": {Kind: "val", Val: "nested a", Then: []string{"b", "n/a"}},
			"b": {Kind: "val", Val: "nested b", Then: []string{"c"}},
			"c": {Kind: "multi", M: map[string]string{"b": "c's b", "c": "nested c"}},
			"d": {Kind: "nil", Then: []string{"a"}},
		}, Spaces: map[string]*Spec{"n": leaf}},
	}
	kids = []*Spec{
		{ID: "kid1", Finder: map[string]Result{"a": {Kind: "val", Val: "kid1 a"}, "d": {Kind: "val", Val: "kid1 d"}, "k": {Kind: "multi", M: map[string]string{"k": "kid1 k", "b": "kid1 b"}}},
			Spaces: map[string]*Spec{"n": {ID: "kid1n", Finder: map[string]Result{"a": {Kind: "val", Val: "kid1n a"}, "k": {Kind: "val", Val: "kid1n k"}}}, "o": leaf}},
		{ID: "kid2", Finder: map[string]Result{"c": {Kind: "panic"}, "k": {Kind: "nil"}}},
		{ID: "kid3"},
	}
	return
}

// Try returns the outcome of a call and the kind of failure. A failure of the finder is passed on as such.
func Try(f func() string) string {
	s := ""
	if p, rt := fw.Try(func() { s = f() }); p != nil {
		switch {
		case rt:
			return fmt.Sprintf("runtime error %v", p)
		case p == Fail("finder"):
			return "finder panic"
		}
		return "fails"
	}
	return s
}

func RefTry(f func() string) (s string) {
	defer func() {
		if p := recover(); p != nil {
			if p == Fail("finder") {
				s = "finder panic"
			} else {
				s = "fails"
			}
		}
	}()
	return f()
}

func Show(v dgo.Value) string {
	if v == nil {
		return "nothing"
	}
	return fmt.Sprint(v)
}

// Paths are the names that are loaded
var Paths = []string{"a", "b", "c", "d", "e", "k", "z", "n/a", "n/k", "m/n/b", "n/n/a", "o/a", "q/a", "/a", "n//a", "n/", ""}
