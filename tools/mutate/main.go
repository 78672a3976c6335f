// mutate plants one small change at a time in the functions under contract, in a scratch copy of the repository,
// and lists the changes the verifier still accepts. It measures how much the contracts pin down; no check uses it.
//
//	go run . -repo /repo -gvc /tmp/gvc -contracts /verif/contracts -targets .,api/app -funcs file.go:Func,...
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
	"context"
)

type mut struct {
	what string
	src  []byte
}

func main() {
	repo := flag.String("repo", "/repo", "")
	gvc := flag.String("gvc", "/tmp/gvc", "")
	contracts := flag.String("contracts", "/verif/contracts", "")
	targets := flag.String("targets", ".", "")
	funcs := flag.String("funcs", "", "file:Recv.Func=key,...")
	work := flag.String("work", "/tmp/mutate", "")
	par := flag.Int("par", 3, "")
	check := flag.String("check", "", "run the concrete half of these checks (comma-separated) instead of the verifier")
	locks := flag.String("locks", "", "run the ledger verifier with this file")
	codec := flag.String("codec", "", "run the codec verifier with this file")
	grep := flag.String("grep", "", "only changes whose description contains this")
	tools := flag.String("tools", "/verif/tools", "")
	flag.Parse()
	for i := 0; i < *par; i++ {
		d := fmt.Sprintf("%s/%d", *work, i)
		os.MkdirAll(*work, 0755)
		if out, err := exec.Command("cp", "-a", *repo, d).CombinedOutput(); err != nil {
			fmt.Println(string(out), err)
			os.Exit(1)
		}
	}
	for _, f := range strings.Split(*funcs, ",") {
		fi, key, _ := strings.Cut(f, "=")
		file, name, _ := strings.Cut(fi, ":")
		ms := mutations(filepath.Join(*repo, file), name)
		if *grep != "" {
			var keep []mut
			for _, m := range ms {
				if strings.Contains(m.what, *grep) {
					keep = append(keep, m)
				}
			}
			ms = keep
		}
		if len(ms) == 0 {
			fmt.Println("no mutations of", f)
		}
		surv, killed, bad := 0, 0, 0
		var mu sync.Mutex
		var wg sync.WaitGroup
		ch := make(chan mut)
		for i := 0; i < *par; i++ {
			d := fmt.Sprintf("%s/%d", *work, i)
			wg.Add(1)
			go func() {
				defer wg.Done()
				orig, _ := os.ReadFile(filepath.Join(d, file))
				for m := range ch {
					os.WriteFile(filepath.Join(d, file), m.src, 0644)
					cmd := exec.Command("go", "build", "./"+filepath.Dir(file))
					cmd.Dir = d
					if err := cmd.Run(); err != nil {
						mu.Lock()
						bad++
						mu.Unlock()
						continue
					}
					if *check != "" {
						by := ""
						for _, id := range strings.Split(*check, ",") {
							ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
							c := exec.CommandContext(ctx, "python3", filepath.Join(*tools, "harness_only.py"), id, "quick")
							c.Env = append(os.Environ(), "VF_REPO="+d, "VF_REPLAY_DIR="+*work+"/replays", "VF_EVIDENCE_DIR="+*work+"/evidence")
							out, err := c.CombinedOutput()
							cancel()
							if err != nil && strings.Contains(string(out), "VIOLATION") {
								by = id
								break
							}
						}
						mu.Lock()
						if by == "" {
							surv++
							fmt.Printf("SURVIVOR %s %s: %s\n", file, name, m.what)
						} else {
							killed++
						}
						mu.Unlock()
						continue
					}
					ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
					if *locks != "" || *codec != "" {
						spec := []string{"-locks", *locks}
						if *codec != "" {
							spec = []string{"-codec", *codec}
						}
						out, err := exec.CommandContext(ctx, *gvc, append([]string{"-repo", d, "-contracts", *contracts, "-targets", *targets}, spec...)...).CombinedOutput()
						cancel()
						mu.Lock()
						if err == nil {
							surv++
							fmt.Printf("SURVIVOR %s: %s\n", fi, m.what)
						} else {
							killed++
							_ = out
						}
						mu.Unlock()
						continue
					}
					out, err := exec.CommandContext(ctx, *gvc, "-repo", d, "-contracts", *contracts, "-targets", *targets, "-funcs", strings.ReplaceAll(key, "+", ","), "-only", "-slow", "4000", "-fast", "1500").CombinedOutput()
					cancel()
					mu.Lock()
					if err == nil {
						surv++
						fmt.Printf("SURVIVOR %s: %s\n", key, m.what)
					} else {
						killed++
						_ = out
					}
					mu.Unlock()
				}
				os.WriteFile(filepath.Join(d, file), orig, 0644)
			}()
		}
		for _, m := range ms {
			ch <- m
		}
		close(ch)
		wg.Wait()
		fmt.Printf("%s: %d rejected, %d accepted, %d do not compile\n", key, killed, surv, bad)
	}
	for i := 0; i < *par; i++ {
		os.RemoveAll(fmt.Sprintf("%s/%d", *work, i))
	}
}

var swap = map[token.Token][]token.Token{
	token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.LSS: {token.LEQ, token.GTR}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ, token.LSS}, token.GEQ: {token.GTR},
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LAND: {token.LOR}, token.LOR: {token.LAND},
}

func mutations(path, name string) (res []mut) {
	fset := token.NewFileSet()
	src, _ := os.ReadFile(path)
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	emit := func(n ast.Node, what string) {
		var b bytes.Buffer
		if format.Node(&b, fset, f) == nil {
			res = append(res, mut{fmt.Sprintf("line %d: %s", fset.Position(n.Pos()).Line, what), b.Bytes()})
		}
	}
	show := func(n ast.Node) string {
		var b bytes.Buffer
		format.Node(&b, fset, n)
		s := b.String()
		if len(s) > 60 {
			s = s[:60]
		}
		return strings.ReplaceAll(s, "\n", " ")
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		n := fd.Name.Name
		if fd.Recv != nil {
			t := fd.Recv.List[0].Type
			if s, ok := t.(*ast.StarExpr); ok {
				t = s.X
			}
			n = t.(*ast.Ident).Name + "." + n
		}
		if n != name && name != "*" {
			continue
		}
		delStmts := func(l *[]ast.Stmt) {
			for i, s := range *l {
				switch s := s.(type) {
				case *ast.AssignStmt:
					if s.Tok == token.DEFINE {
						continue
					}
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.IfStmt, *ast.BranchStmt, *ast.DeferStmt:
				default:
					continue
				}
				old := *l
				w := show(s)
				nl := append(append([]ast.Stmt{}, old[:i]...), old[i+1:]...)
				*l = nl
				emit(s, "drop `"+w+"`")
				*l = old
			}
		}
		ast.Inspect(fd.Body, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.BlockStmt:
				delStmts(&x.List)
			case *ast.CaseClause:
				delStmts(&x.Body)
			case *ast.BinaryExpr:
				w := show(x)
				o := x.Op
				for _, t := range swap[o] {
					x.Op = t
					emit(x, "`"+w+"` with "+t.String())
				}
				x.Op = o
			case *ast.BasicLit:
				if x.Kind == token.INT {
					o := x.Value
					x.Value = o + "+1"
					emit(x, o+" -> "+x.Value)
					x.Value = o
				}
			case *ast.IncDecStmt:
				if x.Tok == token.INC {
					x.Tok = token.DEC
					emit(x, "++ -> --")
					x.Tok = token.INC
				} else {
					x.Tok = token.INC
					emit(x, "-- -> ++")
					x.Tok = token.DEC
				}
			case *ast.IfStmt:
				o := x.Cond
				x.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: o}}
				emit(x, "negate if "+show(o))
				x.Cond = o
			case *ast.CompositeLit:
				for i := range x.Elts {
					old := x.Elts
					x.Elts = append(append([]ast.Expr{}, old[:i]...), old[i+1:]...)
					emit(old[i], "leave out "+show(old[i]))
					x.Elts = old
				}
			case *ast.SelectorExpr:
				o := x.Sel.Name
				for _, p := range [][2]string{{"FromTop", "FromBottom"}, {"Above", "Below"}, {"Min", "Max"}, {"MinTie", "MaxTie"}, {"Score", "ID"}, {"TieBreaker", "Updated"}} {
					for k := 0; k < 2; k++ {
						if o == p[k] {
							x.Sel.Name = p[1-k]
							emit(x, o+" -> "+p[1-k])
							x.Sel.Name = o
						}
					}
				}
			}
			return true
		})
	}
	return res
}
