package ref

import (
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// The dictionary of the generators: the literals of the code under test, as
// fuzzers use them. It only steers the workloads to lengths, values and keys
// that the code treats specially; no verdict depends on it.
var (
	dictOnce sync.Once
	dictInts []int64
	dictStrs []string
)

func loadDict() {
	dictOnce.Do(func() {
		root := os.Getenv("VERIF_REPO")
		if root == "" {
			root = "/repo"
		}
		ints := map[int64]int{}
		strs := map[string]int{}
		fset := token.NewFileSet()
		_ = filepath.Walk(root, func(path string, info os.FileInfo, err error) error {
			if err != nil {
				return nil
			}
			if info.IsDir() {
				if name := info.Name(); name == ".git" || name == "testutil" || name == "bench" {
					return filepath.SkipDir
				}
				return nil
			}
			if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
				return nil
			}
			f, err := parser.ParseFile(fset, path, nil, 0)
			if err != nil {
				return nil
			}
			lit := func(n ast.Expr, weight int) {
				l, ok := n.(*ast.BasicLit)
				if !ok {
					return
				}
				switch l.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(l.Value, 0, 64); err == nil {
						ints[v] += weight
					}
				case token.STRING:
					if s, err := strconv.Unquote(l.Value); err == nil && len(s) <= 48 && !strings.Contains(s, "%") && !strings.ContainsRune(s, 0) {
						strs[s] += weight
					}
				case token.CHAR:
					if s, err := strconv.Unquote(l.Value); err == nil && s != "\x00" {
						strs[s] += weight
						ints[int64([]rune(s)[0])] += weight
					}
				}
			}
			ast.Inspect(f, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.ImportSpec:
					return false
				case *ast.BinaryExpr:
					lit(x.X, 2)
					lit(x.Y, 2)
				case *ast.CaseClause:
					for _, e := range x.List {
						lit(e, 2)
					}
				case *ast.ValueSpec:
					for _, e := range x.Values {
						lit(e, 2)
					}
				case *ast.BasicLit:
					lit(x, 1)
				}
				return true
			})
			return nil
		})
		for v := range ints {
			dictInts = append(dictInts, v)
		}
		for s, w := range strs {
			if w >= 2 {
				dictStrs = append(dictStrs, s)
			}
		}
		sort.Slice(dictInts, func(i, j int) bool { return dictInts[i] < dictInts[j] })
		sort.Strings(dictStrs)
		if len(dictInts) == 0 {
			dictInts = []int64{0}
		}
		if len(dictStrs) == 0 {
			dictStrs = []string{"a"}
		}
	})
}

func DictInts() []int64  { loadDict(); return dictInts }
func DictStrs() []string { loadDict(); return dictStrs }
