// extract reads the Encode methods of the pinned message package once and writes /verif/spec/messages.json: for
// every message type its version range and its ordered fields with kind and version range. The result is committed
// and reviewed; the checks read the committed file, never this program's output on a changed tree.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"regexp"
	"sort"
	"strconv"
)

type Field struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Type string `json:"type,omitempty"`
	Min  int    `json:"min"`
	Max  int    `json:"max"`
}
type Msg struct {
	Name   string  `json:"name"`
	Key    int     `json:"key"`
	Min    int     `json:"min"`
	Max    int     `json:"max"`
	Fields []Field `json:"fields"`
}

func die(f string, a ...interface{}) { panic(fmt.Sprintf(f, a...)) }

func main() {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], nil, parser.ParseComments)
	if err != nil {
		die("%v", err)
	}
	msgs := map[string]*Msg{}
	var order []string
	goType := map[string]map[string]string{}
	re := regexp.MustCompile(`Versions: (\d+)(?:-(\d+))?`)
	reKey := regexp.MustCompile(`ApiKey: (\d+)`)
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.TYPE {
			continue
		}
		ts := gd.Specs[0].(*ast.TypeSpec)
		m := &Msg{Name: ts.Name.Name, Key: -1}
		msgs[m.Name] = m
		order = append(order, m.Name)
		if gd.Doc != nil {
			if x := reKey.FindStringSubmatch(gd.Doc.Text()); x != nil {
				m.Key, _ = strconv.Atoi(x[1])
			}
		}
		goType[m.Name] = map[string]string{}
		for _, fl := range ts.Type.(*ast.StructType).Fields.List {
			var t string
			switch x := fl.Type.(type) {
			case *ast.Ident:
				t = x.Name
			case *ast.ArrayType:
				t = "[]" + x.Elt.(*ast.Ident).Name
			case *ast.StarExpr:
				t = "*" + x.X.(*ast.Ident).Name
			default:
				die("type %T", x)
			}
			for _, n := range fl.Names {
				goType[m.Name][n.Name] = t
			}
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Name.Name != "Encode" {
			continue
		}
		m := msgs[fd.Recv.List[0].Type.(*ast.Ident).Name]
		x := re.FindStringSubmatch(fd.Doc.Text())
		m.Min, _ = strconv.Atoi(x[1])
		m.Max = m.Min
		if x[2] != "" {
			m.Max, _ = strconv.Atoi(x[2])
		}
		var walk func(l []ast.Stmt, lo, hi int)
		walk = func(l []ast.Stmt, lo, hi int) {
			for _, s := range l {
				switch s := s.(type) {
				case *ast.IfStmt:
					a, b := cond(s.Cond, lo, hi)
					if s.Else != nil {
						die("else in %s", m.Name)
					}
					walk(s.Body.List, a, b)
				case *ast.ExprStmt:
					c := s.X.(*ast.CallExpr)
					se := c.Fun.(*ast.SelectorExpr)
					if se.X.(*ast.Ident).Name != "e" {
						// nested struct: t.F.Encode
						die("call in %s", m.Name)
					}
					if se.Sel.Name == "PutArrayLength" {
						continue
					}
					arg := c.Args[0].(*ast.SelectorExpr).Sel.Name
					m.Fields = append(m.Fields, Field{arg, se.Sel.Name[3:], goType[m.Name][arg], lo, hi})
				case *ast.AssignStmt:
				case *ast.ForStmt:
					c := s.Body.List[0].(*ast.ExprStmt).X.(*ast.CallExpr)
					arg := c.Fun.(*ast.SelectorExpr).X.(*ast.IndexExpr).X.(*ast.SelectorExpr).Sel.Name
					m.Fields = append(m.Fields, Field{arg, "Array", goType[m.Name][arg], lo, hi})
				default:
					die("stmt %T in %s", s, m.Name)
				}
			}
		}
		walk(fd.Body.List, m.Min, m.Max)
	}
	var out []*Msg
	kinds := map[string]int{}
	for _, n := range order {
		m := msgs[n]
		for _, fl := range m.Fields {
			kinds[fl.Kind+" "+func() string {
				if fl.Kind == "Array" {
					return ""
				}
				return fl.Type
			}()]++
		}
		if len(m.Fields) != len(goType[n]) {
			fmt.Fprintln(os.Stderr, "fields never encoded:", n, len(m.Fields), len(goType[n]))
		}
		out = append(out, m)
	}
	var ks []string
	for k, v := range kinds {
		ks = append(ks, fmt.Sprint(k, " ", v))
	}
	sort.Strings(ks)
	fmt.Fprintln(os.Stderr, len(out), ks)
	e := json.NewEncoder(os.Stdout)
	fmt.Println("[")
	for i, m := range out {
		b, _ := json.Marshal(m)
		os.Stdout.Write(b)
		if i < len(out)-1 {
			fmt.Print(",")
		}
		fmt.Println()
	}
	fmt.Println("]")
	_ = e
}

func cond(c ast.Expr, lo, hi int) (int, int) {
	b := c.(*ast.BinaryExpr)
	if b.Op == token.LAND {
		lo, hi = cond(b.X, lo, hi)
		return cond(b.Y, lo, hi)
	}
	n, _ := strconv.Atoi(b.Y.(*ast.BasicLit).Value)
	if b.X.(*ast.Ident).Name != "version" {
		die("cond")
	}
	switch b.Op {
	case token.GEQ:
		if n > lo {
			lo = n
		}
	case token.LEQ:
		if n < hi {
			hi = n
		}
	default:
		die("op %v", b.Op)
	}
	return lo, hi
}
