// yields REPO OUT: copies of REPO's source files in which other goroutines may go on before every statement and
// after every return, and OUT/overlay.json for 'go build -overlay'. What the code does is not changed.
//
// Every place yields often while it has been passed rarely, and less and less often as it is passed again, so
// that places passed once per call get as many switches as the inner loops.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const runtimeFile = `package %s

import (
	verifrand "math/rand/v2"
	verifruntime "runtime"
	verifatomic "sync/atomic"
	veriftime "time"
)

var verifHits [%d]uint32

func verifYield(site int) {
	n := verifatomic.AddUint32(&verifHits[site], 1)
	r := verifrand.Uint32()
	if uint64(r)*uint64(8+n/16) < 1<<32 {
		if verifrand.Uint32()%%32 == 0 {
			veriftime.Sleep(20 * veriftime.Microsecond)
		} else {
			verifruntime.Gosched()
		}
	}
}
`

func main() {
	repo, out := os.Args[1], os.Args[2]
	overlay := map[string]string{}
	sites := map[string]int{}
	names := map[string]string{}
	n := 0
	die := func(err error) {
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
	}
	die(filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() && strings.HasPrefix(fi.Name(), ".") {
			return filepath.SkipDir
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := ioutil.ReadFile(p)
		if err != nil {
			return err
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, src, parser.ParseComments)
		if err != nil {
			return err
		}
		if f.Name.Name == "main" {
			return nil
		}
		dir := filepath.Dir(p)
		ins := map[int]string{}
		site := func() int {
			sites[dir]++
			return sites[dir] - 1
		}
		before := func(l []ast.Stmt) {
			for _, s := range l {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
				default:
					o := fs.Position(s.Pos()).Offset
					ins[o] += fmt.Sprintf("verifYield(%d); ", site())
				}
			}
		}
		body := func(b *ast.BlockStmt) {
			if b == nil || len(b.List) == 0 {
				return
			}
			o := fs.Position(b.Lbrace).Offset + 1
			ins[o] = fmt.Sprintf(" defer verifYield(%d); ", site()) + ins[o]
		}
		ast.Inspect(f, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.FuncDecl:
				body(x.Body)
			case *ast.FuncLit:
				body(x.Body)
			case *ast.BlockStmt:
				before(x.List)
			case *ast.CaseClause:
				before(x.Body)
			case *ast.CommClause:
				before(x.Body)
			}
			return true
		})
		var at []int
		for o := range ins {
			at = append(at, o)
		}
		sort.Ints(at)
		var b strings.Builder
		last := 0
		for _, o := range at {
			b.Write(src[last:o])
			b.WriteString(ins[o])
			last = o
		}
		b.Write(src[last:])
		dst := filepath.Join(out, fmt.Sprintf("f%d.go", n))
		n++
		overlay[p] = dst
		names[dir] = f.Name.Name
		return ioutil.WriteFile(dst, []byte(b.String()), 0644)
	}))
	for dir, k := range sites {
		dst := filepath.Join(out, fmt.Sprintf("f%d.go", n))
		n++
		overlay[filepath.Join(dir, "zz_verif_yield.go")] = dst
		die(ioutil.WriteFile(dst, []byte(fmt.Sprintf(runtimeFile, names[dir], k)), 0644))
	}
	j, err := json.Marshal(map[string]interface{}{"Replace": overlay})
	die(err)
	die(ioutil.WriteFile(filepath.Join(out, "overlay.json"), j, 0644))
}
