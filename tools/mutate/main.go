// mutate plants small systematic changes in the Go package, and reports those that neither
// its tests nor small runs of the checks notice. A tool for finding what the checks do not look at;
// it is no part of any check. Usage: mutate WORKDIR OUT [FILE...]
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

const src = "/repo/Go/sereal"

type mutant struct {
	ID   string
	File string
	Line int
	What string
	Text []byte
}

var swaps = map[token.Token][]token.Token{
	token.LSS: {token.LEQ, token.GEQ}, token.LEQ: {token.LSS, token.GTR}, token.GTR: {token.GEQ, token.LEQ}, token.GEQ: {token.GTR, token.LSS},
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LAND: {token.LOR}, token.LOR: {token.LAND},
	token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.SHL: {token.SHR}, token.SHR: {token.SHL}, token.AND: {token.OR}, token.OR: {token.AND}, token.MUL: {token.ADD},
}

func mutants(file string) []mutant {
	path := filepath.Join(src, file)
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, nil, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	var out []mutant
	add := func(n ast.Node, what string) {
		var b bytes.Buffer
		if err := (&printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}).Fprint(&b, fset, f); err != nil {
			return
		}
		l := fset.Position(n.Pos()).Line
		out = append(out, mutant{ID: fmt.Sprintf("%s:%d:%d", file, l, len(out)), File: file, Line: l, What: what, Text: b.Bytes()})
	}
	str := func(n ast.Node) string {
		var b bytes.Buffer
		printer.Fprint(&b, fset, n)
		s := strings.Join(strings.Fields(b.String()), " ")
		if len(s) > 100 {
			s = s[:100]
		}
		return s
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			return n.Tok == token.CONST || n.Tok == token.VAR
		case *ast.BinaryExpr:
			old := n.Op
			s := str(n)
			for _, op := range swaps[old] {
				n.Op = op
				add(n, s+"  =>  "+op.String())
			}
			n.Op = old
		case *ast.BasicLit:
			if n.Kind == token.INT {
				old := n.Value
				v, err := strconv.ParseInt(old, 0, 64)
				if err == nil {
					for _, d := range []int64{1, -1} {
						n.Value = strconv.FormatInt(v+d, 10)
						add(n, old+"  =>  "+n.Value)
					}
				}
				n.Value = old
			}
		case *ast.Ident:
			if n.Name == "true" || n.Name == "false" {
				old := n.Name
				n.Name = map[string]string{"true": "false", "false": "true"}[old]
				add(n, old+"  =>  "+n.Name)
				n.Name = old
			}
		case *ast.IfStmt:
			old := n.Cond
			s := str(old)
			if s != "err != nil" {
				// both keep the operands used
				n.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: old}, Op: token.LOR, Y: ast.NewIdent("true")}
				add(n, "if "+s+"  =>  true")
			}
			n.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: old}, Op: token.LAND, Y: ast.NewIdent("false")}
			add(n, "if "+s+"  =>  false")
			n.Cond = old
		case *ast.CaseClause:
			if len(n.List) > 1 {
				old := n.List
				for i := range old {
					n.List = append(append([]ast.Expr{}, old[:i]...), old[i+1:]...)
					add(n, "case without "+str(old[i]))
				}
				n.List = old
			}
		case *ast.BlockStmt:
			old := n.List
			for i, st := range old {
				switch st := st.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.BranchStmt:
				case *ast.AssignStmt:
					if st.Tok == token.DEFINE {
						continue
					}
				default:
					continue
				}
				n.List = append(append([]ast.Stmt{}, old[:i]...), old[i+1:]...)
				add(st, "without "+str(st))
			}
			n.List = old
		}
		return true
	})
	return out
}

type phase struct {
	check, name string
	n           int
}

// what runs on every mutant: plain phases, few cases
func phases(harness string) []phase {
	b, err := exec.Command(filepath.Join(harness, "vh"), "-list").Output()
	if err != nil {
		panic(err)
	}
	var out []phase
	for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
		w := strings.Fields(l)
		n, _ := strconv.Atoi(w[3])
		if w[2] != "-" || w[0] == "C15" {
			continue
		}
		n /= 20
		if n > 6000 {
			n = 6000
		}
		if n < 40 {
			n = 40
		}
		out = append(out, phase{w[0], w[1], n})
	}
	return out
}

func run(dir string, d time.Duration, env []string, name string, args ...string) (string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), d)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Dir = dir
	cmd.Env = append(append(os.Environ(), "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOMAXPROCS=2"), env...)
	cmd.WaitDelay = time.Second
	b, err := cmd.CombinedOutput()
	return string(b), err
}

func main() {
	work, outFile := os.Args[1], os.Args[2]
	files := os.Args[3:]
	if len(files) == 0 {
		files = []string{"encode.go", "decode.go", "merge.go", "tagscache.go", "snappy.go", "zlib.go", "zlib_purego.go", "zstd.go", "zstd_cgo.go", "const.go", "perl.go"}
	}
	var all []mutant
	for _, f := range files {
		all = append(all, mutants(f)...)
	}
	done := map[string]bool{}
	if b, err := os.ReadFile(outFile); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			var m struct{ ID string }
			if json.Unmarshal([]byte(l), &m) == nil {
				done[m.ID] = true
			}
		}
	}
	out, _ := os.OpenFile(outFile, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	perl, _ := filepath.Glob("/verif/build/perl-*")
	env := []string{"VERIF_ROOT=/verif"}
	if len(perl) > 0 {
		env = append(env, "VERIF_PERL="+perl[0])
	}
	ch := make(chan mutant)
	var wg sync.WaitGroup
	var mu sync.Mutex
	n := 0
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			dir := filepath.Join(work, fmt.Sprint("w", w))
			pkg, har := filepath.Join(dir, "sereal"), filepath.Join(dir, "harness")
			os.MkdirAll(dir, 0o755)
			exec.Command("cp", "-a", src, pkg).Run()
			exec.Command("cp", "-a", "/verif/harness", har).Run()
			gm, _ := os.ReadFile(filepath.Join(har, "go.mod"))
			os.WriteFile(filepath.Join(har, "go.mod"), []byte(strings.Replace(string(gm), "/repo/Go/sereal", pkg, 1)), 0o644)
			if o, err := run(har, 5*time.Minute, nil, "go", "build", "-tags", "clibs", "-o", "vh", "."); err != nil {
				panic(o)
			}
			ph := phases(har)
			if res, by := try(pkg, har, ph, env); res != "SURVIVED" {
				panic("without any change: " + res + " " + by)
			}
			for m := range ch {
				orig, _ := os.ReadFile(filepath.Join(src, m.File))
				os.WriteFile(filepath.Join(pkg, m.File), m.Text, 0o644)
				res, by := try(pkg, har, ph, env)
				os.WriteFile(filepath.Join(pkg, m.File), orig, 0o644)
				b, _ := json.Marshal(map[string]any{"ID": m.ID, "Line": m.Line, "What": m.What, "Res": res, "By": by})
				mu.Lock()
				out.Write(append(b, '\n'))
				n++
				if n%50 == 0 {
					fmt.Println(n, "of", len(all))
				}
				mu.Unlock()
			}
		}(w)
	}
	sort.SliceStable(all, func(i, j int) bool { return (i*7919)%len(all) < (j*7919)%len(all) })
	for _, m := range all {
		if !done[m.ID] {
			ch <- m
		}
	}
	close(ch)
	wg.Wait()
}

func try(pkg, har string, ph []phase, env []string) (string, string) {
	if o, err := run(pkg, time.Minute, nil, "go", "build", "-tags", "clibs", "."); err != nil {
		return "nobuild", o[:min(len(o), 200)]
	}
	if _, err := run(pkg, 2*time.Minute, nil, "go", "test", "-vet=off", "-count=1", "."); err != nil {
		return "tests", ""
	}
	if o, err := run(har, 2*time.Minute, nil, "go", "build", "-tags", "clibs", "-o", "vh", "."); err != nil {
		return "nobuild", o[:min(len(o), 200)]
	}
	for _, p := range ph {
		res := filepath.Join(har, "res")
		for _, f := range []string{".fail", ".prog", ".stats", ".hash"} {
			os.Remove(res + f)
		}
		o, err := run(har, 60*time.Second, env, "./vh", "-child", "check="+p.check, "phase="+p.name, "seed=7", "tier=quick", "start=0", "step=1", fmt.Sprintf("n=%d", p.n), "out="+res)
		if err != nil {
			return "killed", p.check + " " + p.name + ": " + o[:min(len(o), 160)]
		}
		if b, err := os.ReadFile(res + ".fail"); err == nil && len(b) > 0 {
			return "killed", p.check + " " + p.name
		}
	}
	return "SURVIVED", ""
}
