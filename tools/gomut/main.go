// Command gomut lists small changes to a Go file, as JSON lines: {"s","e" (bytes replaced),"t" (by what),"l" (line),"d"}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

var src []byte
var fs = token.NewFileSet()

func off(p token.Pos) int { return fs.Position(p).Offset }
func emit(s, e int, t, d string) {
	if string(src[s:e]) == t {
		return
	}
	l := 1
	for _, c := range src[:s] {
		if c == '\n' {
			l++
		}
	}
	json.NewEncoder(os.Stdout).Encode(map[string]interface{}{"s": s, "e": e, "t": t, "l": l, "d": d, "o": string(src[s:e])})
}
func text(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
func rep(n ast.Node, t, d string) {
	emit(off(n.Pos()), off(n.End()), t, d)
}

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"}, token.EQL: {"!="}, token.NEQ: {"=="},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"}, token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"},
	token.SHL: {">>"}, token.SHR: {"<<"}, token.LAND: {"||"}, token.LOR: {"&&"},
}

func main() {
	var err error
	src, err = os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	f, err := parser.ParseFile(fs, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.StructType:
			for _, fd := range x.Fields.List {
				if fd.Tag != nil { // tags: drop
					rep(fd.Tag, "", "drop tag")
				}
			}
			return false
		case *ast.BinaryExpr:
			for _, s := range swaps[x.Op] {
				o := off(x.OpPos)
				emit(o, o+len(x.Op.String()), s, "op")
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				rep(x, text(x.X), "left only")
				rep(x, text(x.Y), "right only")
			}
			if x.Op == token.ADD || x.Op == token.SUB || x.Op == token.MUL || x.Op == token.REM || x.Op == token.AND || x.Op == token.OR || x.Op == token.XOR {
				rep(x, text(x.X), "left only")
			}
		case *ast.BasicLit:
			switch x.Kind {
			case token.INT:
				v, err := strconv.ParseUint(x.Value, 0, 64)
				if err == nil {
					rep(x, fmt.Sprint(v+1), "lit+1")
					if v > 0 {
						rep(x, fmt.Sprint(v-1), "lit-1")
					}
					if v > 4 {
						rep(x, fmt.Sprint(v/2), "lit/2")
					}
				}
			case token.STRING:
				s, err := strconv.Unquote(x.Value)
				if err == nil && x.Value[0] == '"' {
					if len(s) > 1 {
						rep(x, strconv.Quote(s[:len(s)-1]), "str cut")
						rep(x, strconv.Quote(s[1:]), "str cut front")
					}
					rep(x, strconv.Quote(s+"x"), "str longer")
				}
			case token.CHAR:
				rep(x, "'x'", "char")
			}
		case *ast.IfStmt:
			c := text(x.Cond)
			rep(x.Cond, "!("+c+")", "negate")
			rep(x.Cond, "("+c+") && false", "never")
			rep(x.Cond, "("+c+") || true", "always")
		case *ast.ForStmt:
			if x.Cond != nil {
				rep(x.Cond, "("+text(x.Cond)+") && false", "no loop")
			}
		case *ast.ExprStmt:
			rep(x, "", "drop call")
		case *ast.DeferStmt:
			rep(x, "", "drop defer")
		case *ast.IncDecStmt:
			rep(x, "", "drop inc")
		case *ast.BranchStmt:
			if x.Label == nil && x.Tok == token.CONTINUE {
				rep(x, "break", "break")
			} else if x.Label == nil && x.Tok == token.BREAK {
				rep(x, "continue", "continue")
			}
		case *ast.AssignStmt:
			if x.Tok == token.ASSIGN {
				rep(x, "", "drop assignment")
				for _, l := range x.Lhs {
					if id, ok := l.(*ast.Ident); ok && id.Name != "_" {
						rep(l, "_", "assign to nothing")
					}
				}
			} else if x.Tok != token.DEFINE {
				o := off(x.TokPos)
				emit(o, o+len(x.Tok.String()), "=", "plain assignment")
				rep(x, "", "drop assignment")
			} else {
				for _, l := range x.Lhs {
					if id, ok := l.(*ast.Ident); ok && id.Name == "err" && len(x.Lhs) > 1 {
						rep(l, "_", "ignore error")
					}
				}
			}
		case *ast.ReturnStmt:
			for i, r := range x.Results {
				t := text(r)
				switch {
				case t == "nil" || t == "err":
					if t == "err" {
						rep(r, "nil", "return nil")
					}
				case t == "true":
					rep(r, "false", "false")
				case t == "false":
					rep(r, "true", "true")
				default:
					if i == len(x.Results)-1 && len(x.Results) > 1 {
						rep(r, "nil", "return nil")
					}
				}
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "append" && len(x.Args) == 2 {
				rep(x, text(x.Args[0]), "no append")
			}
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "copy" {
				_ = id
			}
			if len(x.Args) == 2 { // arguments exchanged
				a, b := text(x.Args[0]), text(x.Args[1])
				emit(off(x.Args[0].Pos()), off(x.Args[1].End()), b+", "+a, "swap args")
			}
		case *ast.SliceExpr:
			if x.Low != nil {
				rep(x.Low, "", "slice from start")
			}
			if x.High != nil {
				rep(x.High, "", "slice to end")
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT || x.Op == token.SUB || x.Op == token.XOR {
				emit(off(x.Pos()), off(x.X.Pos()), "", "drop unary")
			}
		case *ast.CompositeLit:
			for _, el := range x.Elts {
				if kv, ok := el.(*ast.KeyValueExpr); ok {
					e := off(kv.End())
					for src[e] != ',' && src[e] != '}' {
						e++
					}
					if src[e] == ',' {
						e++
					}
					emit(off(kv.Pos()), e, "", "drop field")
				}
			}
		case *ast.CaseClause:
			if len(x.List) > 1 {
				for i := range x.List {
					if i > 0 {
						emit(off(x.List[i-1].End()), off(x.List[i].End()), "", "drop case value")
					}
				}
			}
		case *ast.RangeStmt:
		}
		return true
	})
}
