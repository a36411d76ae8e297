// perturb DIR OUT: write to OUT/overlay.json a build overlay of the package
// in DIR in which every statement of every function is preceded by a call
// that sometimes yields the processor or sleeps for a moment. What the
// program does is unchanged; how its goroutines interleave is not. The calls
// go in textually, on the line of the statement, so comments and line numbers
// stay as they are.
package main

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"log"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const yield = `package main

import (
	"os"
	"runtime"
	"strconv"
	"sync/atomic"
	"time"
)

var verifSeq uint64
var verifEvery, verifUsec uint64

func init() {
	verifEvery, verifUsec = 300, 300
	if n, err := strconv.Atoi(os.Getenv("VERIF_YIELD")); err == nil {
		verifEvery = uint64(n)
	}
	if n, err := strconv.Atoi(os.Getenv("VERIF_YIELD_USEC")); err == nil {
		verifUsec = uint64(n)
	}
	verifSeq = uint64(os.Getpid()) << 32
}

func verifYield() {
	n := atomic.AddUint64(&verifSeq, 1) * 0x9E3779B97F4A7C15
	n ^= n >> 29
	n *= 0xBF58476D1CE4E5B9
	n ^= n >> 32
	if verifEvery == 0 {
		return
	}
	if n%verifEvery == 0 {
		time.Sleep(time.Duration(1+(n>>40)%verifUsec) * time.Microsecond)
	} else if n%(verifEvery/20+1) == 0 {
		runtime.Gosched()
	}
}
`

func main() {
	dir, out := os.Args[1], os.Args[2]
	files, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		log.Fatal(err)
	}
	repl := map[string]string{}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			log.Fatal(err)
		}
		fs := token.NewFileSet()
		p, err := parser.ParseFile(fs, f, b, parser.ParseComments)
		if err != nil {
			log.Fatal(err)
		}
		var at []int
		add := func(l []ast.Stmt) {
			for _, s := range l {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				at = append(at, fs.Position(s.Pos()).Offset)
			}
		}
		ast.Inspect(p, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncDecl:
				if x.Name.Name == "init" || x.Name.Name == "main" {
					return false
				}
			case *ast.BlockStmt:
				// the body of a switch or select holds clauses
				for _, s := range x.List {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				add(x.List)
			case *ast.CaseClause:
				add(x.Body)
			case *ast.CommClause:
				add(x.Body)
			}
			return true
		})
		if len(at) == 0 {
			continue
		}
		sort.Ints(at)
		var o []byte
		last := 0
		for _, k := range at {
			o = append(o, b[last:k]...)
			o = append(o, "verifYield();"...)
			last = k
		}
		o = append(o, b[last:]...)
		t := filepath.Join(out, filepath.Base(f))
		if err := os.WriteFile(t, o, 0666); err != nil {
			log.Fatal(err)
		}
		repl[f] = t
	}
	t := filepath.Join(out, "zz_verif_yield.go")
	if err := os.WriteFile(t, []byte(yield), 0666); err != nil {
		log.Fatal(err)
	}
	repl[filepath.Join(dir, "zz_verif_yield.go")] = t
	j, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), j, 0666); err != nil {
		log.Fatal(err)
	}
}
