// Command prep generates everything the harness build needs from the working
// tree of the repository: copies of its source files that read the virtual
// clock, the overlay that injects them and the harness, a patched copy of
// go-memdb with scheduling points, and a module file that requires them.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

func fatal(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "prep:", err)
		os.Exit(3)
	}
}

// write writes a file only if its content differs, to keep build caches valid.
func write(path string, b []byte) {
	if old, err := os.ReadFile(path); err == nil && bytes.Equal(old, b) {
		return
	}
	fatal(os.MkdirAll(filepath.Dir(path), 0o755))
	fatal(os.WriteFile(path, b, 0o644))
}

func main() {
	repo, verif, out, modcache := os.Args[1], os.Args[2], os.Args[3], os.Args[4]
	overlay := map[string]string{}

	// Rewrite the clock of all packages except the entry points and the nonce
	// generator (which only reads it for seeding).
	// In bubbles, time is virtual anyway: the clock of the module's root package
	// (the client) stays as it is, that of the server may be skewed.
	bubble := os.Getenv("VERIF_BUBBLE") != ""
	var srcs []string
	if !bubble {
		tops, err := filepath.Glob(filepath.Join(repo, "*.go"))
		fatal(err)
		srcs = append(srcs, tops...)
	}
	fatal(filepath.Walk(filepath.Join(repo, "internal"), func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() && strings.HasSuffix(p, ".go") {
			srcs = append(srcs, p)
		}
		return err
	}))
	sort.Strings(srcs)
	for _, p := range srcs {
		if strings.HasSuffix(p, "_test.go") || strings.Contains(p, "/internal/nonce/") || strings.Contains(p, "/internal/verif") {
			continue
		}
		src, err := os.ReadFile(p)
		fatal(err)
		if b, ok := rewrite(p, src); ok {
			rel, _ := filepath.Rel(repo, p)
			dst := filepath.Join(out, "src", rel)
			write(dst, b)
			overlay[p] = dst
		}
	}

	// Inject the clock and the harness.
	overlay[filepath.Join(repo, "internal/verifclock/verifclock.go")] = filepath.Join(verif, "clock/verifclock.go")
	hs, err := filepath.Glob(filepath.Join(verif, "harness", "*.go"))
	fatal(err)
	for _, h := range hs {
		overlay[filepath.Join(repo, "internal/verifharness", filepath.Base(h))] = h
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	write(filepath.Join(out, "overlay.json"), b)

	// Patch go-memdb.
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	fatal(err)
	ver := ""
	for _, l := range strings.Split(string(mod), "\n") {
		f := strings.Fields(l)
		if len(f) >= 2 && f[0] == "github.com/hashicorp/go-memdb" {
			ver = f[1]
		}
	}
	src := filepath.Join(modcache, "github.com/hashicorp/go-memdb@"+ver)
	dst := filepath.Join(out, "go-memdb")
	fs, err := filepath.Glob(filepath.Join(src, "*"))
	fatal(err)
	for _, f := range fs {
		base := filepath.Base(f)
		if strings.HasSuffix(base, "_test.go") || (!strings.HasSuffix(base, ".go") && base != "go.mod") {
			continue
		}
		b, err := os.ReadFile(f)
		fatal(err)
		s := string(b)
		switch base {
		case "memdb.go":
			s = sub(s, "\tif write {\n\t\tdb.writer.Lock()\n\t}\n", "\tif write {\n\t\tif h := SchedHook; h != nil && db.primary && h(\"begin\") {\n\t\t\tfor !db.writer.TryLock() {\n\t\t\t\th(\"locked\")\n\t\t\t}\n\t\t} else {\n\t\t\tdb.writer.Lock()\n\t\t}\n\t} else if h := SchedHook; h != nil && db.primary {\n\t\th(\"begin\")\n\t}\n")
			s += "\n// SchedHook is called at scheduling points. It returns whether the calling\n// goroutine is under the control of the scheduler.\nvar SchedHook func(point string) bool\n\nfunc sched(txn *Txn, p string) {\n\tif h := SchedHook; h != nil && txn.db != nil && txn.db.primary {\n\t\th(p)\n\t}\n}\n"
		case "txn.go":
			for _, m := range []string{
				"func (txn *Txn) Insert(table string, obj interface{}) error {\n",
				"func (txn *Txn) Delete(table string, obj interface{}) error {\n",
				"func (txn *Txn) FirstWatch(table, index string, args ...interface{}) (<-chan struct{}, interface{}, error) {\n",
				"func (txn *Txn) Get(table, index string, args ...interface{}) (ResultIterator, error) {\n",
				"func (txn *Txn) LowerBound(table, index string, args ...interface{}) (ResultIterator, error) {\n",
			} {
				s = sub(s, m, m+"\tsched(txn, \"step\")\n")
			}
			m := "func (txn *Txn) Commit() {\n"
			s = sub(s, m, m+"\tdefer sched(txn, \"committed\")\n")
		}
		write(filepath.Join(dst, base), []byte(s))
	}

	// Extend the module file.
	// (rapid needs Go 1.23; keep the run-time behaviour of the repository's version)
	ms := string(mod)
	for i := 10; i < 23; i++ {
		pre := fmt.Sprintf("\ngo 1.%d", i)
		if j := strings.Index(ms, pre); j >= 0 {
			k := j + 1 + strings.Index(ms[j+1:], "\n")
			g := fmt.Sprintf("\ngo 1.23\n\ngodebug default=go1.%d", i)
			if bubble {
				g += "\n\ngodebug asynctimerchan=0" // needed by bubbles
			}
			ms = ms[:j] + g + ms[k:]
			break
		}
	}
	m := ms + "\nrequire pgregory.net/rapid v1.3.0\n\nreplace github.com/hashicorp/go-memdb => " + dst + "\n"
	write(filepath.Join(out, "base.mod"), []byte(m))
	sum, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	fatal(err)
	write(filepath.Join(out, "base.sum"), sum)
}

func sub(s, old, new string) string {
	if strings.Count(s, old) != 1 {
		fatal(fmt.Errorf("go-memdb differs from the expected version near %q", old))
	}
	return strings.Replace(s, old, new, 1)
}

func rewrite(path string, src []byte) ([]byte, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, false
	}
	name := ""
	for _, i := range f.Imports {
		if v, _ := strconv.Unquote(i.Path.Value); v == "time" {
			name = "time"
			if i.Name != nil {
				name = i.Name.Name
			}
		}
	}
	if name == "" || name == "_" || name == "." {
		return nil, false
	}
	type edit struct{ from, to int }
	var edits []edit
	ast.Inspect(f, func(n ast.Node) bool {
		s, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		x, ok := s.X.(*ast.Ident)
		if !ok || x.Name != name || x.Obj != nil {
			return true
		}
		switch s.Sel.Name {
		case "Now", "Since", "Until":
			edits = append(edits, edit{fset.Position(x.Pos()).Offset, fset.Position(x.End()).Offset})
		}
		return true
	})
	if len(edits) == 0 {
		return nil, false
	}
	sort.Slice(edits, func(i, j int) bool { return edits[i].from > edits[j].from })
	b := append([]byte(nil), src...)
	for _, e := range edits {
		b = append(b[:e.from:e.from], append([]byte("verifclock"), b[e.to:]...)...)
	}
	p := fset.Position(f.Name.End()).Offset
	b = append(b[:p:p], append([]byte("; import verifclock \"github.com/hyperonym/ratus/internal/verifclock\""), b[p:]...)...)
	b = append(b, []byte("\nvar _ = "+name+".Now\n")...)
	return b, true
}
