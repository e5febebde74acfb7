// mkoverlay REPO OUT writes to OUT/overlay.json an overlay where the non-test source files of REPO use the scheduler
// controlled replacements of the packages sync and sync/atomic. Further arguments are "file:package": in that file the
// package is left as it is.
package main

import (
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

var replaced = map[string]string{
	"sync":        `sync "github.com/lyraproj/dgo/verif/shim/sync"`,
	"sync/atomic": `atomic "github.com/lyraproj/dgo/verif/shim/atomic"`,
}

func fail(err error) {
	fmt.Fprintln(os.Stderr, "mkoverlay:", err)
	os.Exit(2)
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	kept := map[string]bool{}
	for _, k := range os.Args[3:] {
		kept[k] = true
	}
	repl := map[string]string{}
	err := filepath.Walk(repo, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() {
			if n := info.Name(); path != repo && (strings.HasPrefix(n, ".") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, path, src, parser.ImportsOnly)
		if err != nil {
			return nil // the compiler will tell
		}
		text, changed := string(src), false
		for i := len(f.Imports) - 1; i >= 0; i-- {
			imp := f.Imports[i]
			p, err := strconv.Unquote(imp.Path.Value)
			if err != nil {
				continue
			}
			n, ok := replaced[p]
			if !ok || kept[strings.TrimPrefix(path, repo+"/")+":"+p] {
				continue
			}
			if imp.Name != nil {
				n = imp.Name.Name + n[strings.IndexByte(n, ' '):]
			}
			from, to := fs.Position(imp.Pos()).Offset, fs.Position(imp.End()).Offset
			text = text[:from] + n + text[to:]
			changed = true
		}
		if !changed {
			return nil
		}
		// the first line of the original is kept as such so that positions are the same
		file := filepath.Join(out, "overlay_"+strings.NewReplacer("/", "_").Replace(strings.TrimPrefix(path, repo+"/")))
		repl[path] = file
		return os.WriteFile(file, []byte(text), 0644)
	})
	if err != nil {
		fail(err)
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": repl}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0644); err != nil {
		fail(err)
	}
}
