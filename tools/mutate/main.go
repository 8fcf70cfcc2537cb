// Command mutate lists small changes to a Go file as JSON lines
// {"line":..,"what":..,"from":..,"to":..,"text":..} with byte offsets.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	Line int    `json:"line"`
	What string `json:"what"`
	From int    `json:"from"`
	To   int    `json:"to"`
	Text string `json:"text"`
	Func string `json:"func"`
}

var fset = token.NewFileSet()
var src []byte
var fn string

func off(p token.Pos) int { return fset.Position(p).Offset }
func text(n ast.Node) string {
	return string(src[off(n.Pos()):off(n.End())])
}
func emit(n ast.Node, what, repl string) {
	emitAt(n.Pos(), n.End(), what, repl)
}
func emitAt(a, b token.Pos, what, repl string) {
	m := mut{fset.Position(a).Line, what, off(a), off(b), repl, fn}
	j, _ := json.Marshal(m)
	fmt.Println(string(j))
}

func isLog(n ast.Node) bool {
	t := text(n)
	return strings.HasPrefix(t, "slog.") || strings.HasPrefix(t, "log.Print") || strings.HasPrefix(t, "fmt.Fprint(os.Stderr") || strings.HasPrefix(t, "panic(")
}

func short(n ast.Node) string {
	s := strings.Join(strings.Fields(text(n)), " ")
	if len(s) > 60 {
		s = s[:60]
	}
	return s
}

func main() {
	var err error
	src, err = os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	f, err := parser.ParseFile(fset, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		fn = fd.Name.Name
		walk(fd.Body)
	}
}

var flip = map[token.Token][]string{
	token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"},
}

func walk(root ast.Node) {
	ast.Inspect(root, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ExprStmt:
			if isLog(x) {
				return false
			}
			if c, ok := x.X.(*ast.CallExpr); ok {
				if s, ok := c.Fun.(*ast.SelectorExpr); ok && (s.Sel.Name == "Lock" || s.Sel.Name == "RLock") {
					break
				}
			}
			emit(x, "delete call "+short(x), "{}")
		case *ast.DeferStmt:
			if strings.HasSuffix(text(x), "nlock()") {
				break
			}
			emit(x, "delete "+short(x), "{}")
		case *ast.GoStmt:
			emitAt(x.Pos(), x.Call.Pos(), "no go: "+short(x), "")
		case *ast.SendStmt:
			emit(x, "delete send "+short(x), "{}")
		case *ast.IncDecStmt:
			emit(x, "delete "+short(x), "{}")
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				u := ""
				for _, l := range x.Lhs {
					_ = l
				}
				for _, r := range x.Rhs {
					_ = r
				}
				emit(x, "delete assignment "+short(x), "{}"+u)
			}
		case *ast.BranchStmt:
			switch x.Tok {
			case token.CONTINUE:
				emit(x, "continue deleted", "{}")
				emit(x, "continue to break", "break")
				emit(x, "continue to return", "return")
			case token.BREAK:
				emit(x, "break deleted", "{}")
			}
		case *ast.ReturnStmt:
			if len(x.Results) == 0 {
				emit(x, "return deleted", "{}")
			}
			for _, r := range x.Results {
				t := text(r)
				switch {
				case t == "true":
					emit(r, "return false", "false")
				case t == "false":
					emit(r, "return true", "true")
				case t == "err" || strings.HasPrefix(t, "fmt.Errorf") || strings.HasPrefix(t, "errors.New"):
					emit(r, "return nil error", "nil")
				}
			}
		case *ast.IfStmt:
			if x.Init == nil && len(x.Body.List) > 0 && isLog(x.Body.List[0]) && len(x.Body.List) == 1 {
				return false
			}
			emit(x.Cond, "if negated: "+short(x.Cond), "!("+text(x.Cond)+")")
			emit(x.Cond, "if false: "+short(x.Cond), "("+text(x.Cond)+") && false")
			emit(x.Cond, "if true: "+short(x.Cond), "("+text(x.Cond)+") || true")
			if x.Else != nil {
				emitAt(x.Body.End(), x.Else.End(), "else deleted", "")
			}
		case *ast.ForStmt:
			if x.Cond != nil {
				emit(x.Cond, "for once: "+short(x.Cond), "false && "+text(x.Cond))
			}
		case *ast.BinaryExpr:
			for _, r := range flip[x.Op] {
				if x.Op == token.ADD && (strings.Contains(text(x), "\"")) {
					continue
				}
				emitAt(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), x.Op.String()+" to "+r+" in "+short(x), r)
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				emit(x, "left operand only of "+short(x), text(x.X))
				emit(x, "right operand only of "+short(x), text(x.Y))
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				emit(x, "not dropped in "+short(x), text(x.X))
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
					emit(x, "constant "+x.Value+" +1", fmt.Sprint(v+1))
					if v > 0 {
						emit(x, "constant "+x.Value+" -1", fmt.Sprint(v-1))
					}
				}
			}
			if x.Kind == token.STRING && len(x.Value) > 2 {
				emit(x, "string "+x.Value+" changed", x.Value[:len(x.Value)-1]+"x"+x.Value[len(x.Value)-1:])
			}
		case *ast.KeyValueExpr:
			if id, ok := x.Key.(*ast.Ident); ok {
				// drop the field from a composite literal
				a, b := off(x.Pos()), off(x.End())
				for b < len(src) && src[b] == ' ' {
					b++
				}
				if b < len(src) && src[b] == ',' {
					b++
				} else if a > 0 {
					for a > 0 && (src[a-1] == ' ' || src[a-1] == '\n' || src[a-1] == '\t') {
						a--
					}
					if a > 0 && src[a-1] == ',' {
						a--
					}
				}
				m := mut{fset.Position(x.Pos()).Line, "field " + id.Name + " dropped", a, b, "", fn}
				j, _ := json.Marshal(m)
				fmt.Println(string(j))
			}
		case *ast.CommClause:
			if x.Comm == nil { // default
				emitAt(x.Pos(), x.End(), "default dropped", "")
			} else {
				emitAt(x.Pos(), x.End(), "case dropped: "+short(x.Comm), "")
			}
		case *ast.CaseClause:
			emitAt(x.Pos(), x.End(), "switch case dropped", "")
		case *ast.BlockStmt:
			// locking removed: Lock statement together with its defer
			for i, s := range x.List {
				e, ok := s.(*ast.ExprStmt)
				if !ok {
					continue
				}
				t := text(e)
				if strings.HasSuffix(t, "Lock()") && !strings.HasSuffix(t, "nlock()") {
					if i+1 < len(x.List) {
						if d, ok := x.List[i+1].(*ast.DeferStmt); ok && strings.HasSuffix(text(d), "nlock()") {
							emitAt(e.Pos(), d.End(), "lock removed", "{}")
							// short lock
							emitAt(d.Pos(), d.End(), "unlocked at once", strings.TrimPrefix(text(d), "defer "))
						}
					}
					emitAt(e.Pos(), e.End(), "lock turned into read lock", strings.Replace(t, ".Lock()", ".RLock()", 1))
				}
			}
			// statements swapped
			for i := 0; i+1 < len(x.List); i++ {
				a, b := x.List[i], x.List[i+1]
				if isLog(a) || isLog(b) {
					continue
				}
				if _, ok := b.(*ast.ReturnStmt); ok {
					continue
				}
				emitAt(a.Pos(), b.End(), "swapped: "+short(a)+" / "+short(b), text(b)+"\n"+text(a))
			}
		case *ast.CallExpr:
			if isLog(x) {
				return false
			}
		}
		return true
	})
}
