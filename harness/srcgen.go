package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	goparser "go/parser"
	"go/token"
	"go/types"
	"math/rand"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Generated Go packages with calls of pkger in them, and what the type
// checker says about those.

// SrcDecl is a declaration: a call with a constant path.
type SrcDecl struct {
	Kind, Value, File string
	Line, Col, Off    int
}

func (d SrcDecl) String() string {
	return fmt.Sprintf("%s:%d:%d(%d) pkger.%s(%q)", d.File, d.Line, d.Col, d.Off, d.Kind, d.Value)
}

var declKinds = []string{"Open", "Stat", "Dir", "Walk", "Include", "Create", "MkdirAll"}

// SrcOpts steers genPackage.
type SrcOpts struct {
	Name  string
	Files int
	Stmts int // about, per file
	// the declared paths: of what is there, of what is created
	Static, Virtual func() string
	// the only kinds of declarations, if any
	Kinds []string
	// nothing that needs generics and such
	Go113 bool
	// the code is not run, so it may do anything
	NoRun bool
	// one of several files is only part of some builds
	Special bool
}

type srcgen struct {
	r   *rand.Rand
	o   SrcOpts
	n   int
	out []*srcFile
	cur *srcFile
	// package level constants: name -> value
	consts []string
	lit    map[string]string // what a constant is to be
	vars   []string
	depth  int
	locals []string
	count  int
	traits map[string]bool
}

type srcFile struct {
	name string
	top  []string
}

func (g *srcgen) id(p string) string {
	g.n++
	return fmt.Sprintf("%s%d", p, g.n)
}

func (g *srcgen) trait(s string) { g.traits[s] = true }

// lits is a literal of the value.
func (g *srcgen) literal(v string) string {
	switch g.r.Intn(6) {
	case 0:
		if !strings.ContainsAny(v, "`\r") {
			g.trait("raw literal")
			return "`" + v + "`"
		}
	case 1:
		g.trait("escapes")
		var sb strings.Builder
		sb.WriteByte('"')
		for i := 0; i < len(v); i++ {
			switch g.r.Intn(3) {
			case 0:
				fmt.Fprintf(&sb, "\\x%02x", v[i])
			case 1:
				fmt.Fprintf(&sb, "\\%03o", v[i])
			default:
				if v[i] < 0x80 && v[i] >= 0x20 && v[i] != '"' && v[i] != '\\' {
					sb.WriteByte(v[i])
				} else {
					fmt.Fprintf(&sb, "\\x%02x", v[i])
				}
			}
		}
		sb.WriteByte('"')
		return sb.String()
	case 2:
		return strconv.QuoteToASCII(v)
	}
	return strconv.Quote(v)
}

// constant declares a constant with the value somewhere in the package.
func (g *srcgen) constant(v string) string {
	r := g.r
	name := g.id("c")
	f := g.cur
	if r.Intn(2) == 0 {
		f = g.out[r.Intn(len(g.out))]
		if f != g.cur {
			g.trait("constant of another file")
		}
	}
	l := g.literal(v)
	var s string
	switch r.Intn(9) {
	case 0:
		s = fmt.Sprintf("const %s string = %s", name, l)
	case 1:
		s = fmt.Sprintf("const (\n\t%s = %q\n\t%s = %s\n)", g.id("k"), "/other", name, l)
		g.trait("constant in a group")
	case 2:
		s = fmt.Sprintf("const (\n\t%s = %s\n\n\t// the same again\n\t%s\n)", g.id("k"), l, name)
		g.trait("implicit repetition")
	case 3:
		s = fmt.Sprintf("const %s, %s = %q, %s", g.id("k"), name, "/wrong", l)
		g.trait("several names")
	case 4:
		s = fmt.Sprintf("const (\n\t%s, %s = %s, %q\n\t%s, %s\n)", g.id("k"), g.id("k"), l, "/wrong", name, g.id("k"))
		g.trait("implicit repetition of several")
	case 5:
		other := g.id("k")
		s = fmt.Sprintf("const %s = %s", name, other)
		of := g.out[r.Intn(len(g.out))]
		of.top = append(of.top, fmt.Sprintf("const %s = %s", other, l))
		g.trait("constant of a constant")
	case 6:
		if i := len(v) / 2; i > 0 {
			s = fmt.Sprintf("const %s = %s + (%s)", name, strconv.Quote(v[:i]), strconv.Quote(v[i:]))
			g.trait("concatenation")
		} else {
			s = fmt.Sprintf("const %s = (%s)", name, l)
		}
	case 7:
		s = fmt.Sprintf("const (\n\t%s = iota\n\t%s\n\t%s = %s\n)", g.id("k"), g.id("k"), name, l)
		g.trait("iota")
	default:
		s = fmt.Sprintf("const %s = %s", name, l)
	}
	f.top = append(f.top, s)
	return name
}

// path is an argument with the value.
func (g *srcgen) path(v string) string {
	r := g.r
	var a string
	switch {
	case r.Intn(3) == 0:
		a = g.constant(v)
		g.trait("constant")
	default:
		a = g.literal(v)
	}
	switch r.Intn(12) {
	case 0:
		a = "(" + a + ")"
		g.trait("parentheses")
	case 1:
		a = "\n\t\t" + a
	case 2:
		a = "/* \"/comment\" */ " + a
	}
	return a
}

// computed is an argument that is not known before the program runs.
func (g *srcgen) computed() string {
	r := g.r
	g.trait("computed")
	switch r.Intn(9) {
	case 0:
		return "str(" + strconv.Quote("/computed") + ")"
	case 1:
		return "strs[0]"
	case 2:
		return "obj.field"
	case 3:
		return "svar"
	case 4:
		g.trait("nested in a computed path")
		return g.include(1)
	case 5:
		g.trait("nested in a computed path")
		return "func() string {\n" + g.stmts(1) + "\treturn svar\n}()"
	case 6:
		return `"/pre" + svar`
	case 7:
		g.trait("nested in a computed path")
		return "svar + " + g.include(1)
	}
	g.trait("nested in a computed path")
	return "str(" + g.include(1) + ")"
}

func (g *srcgen) kind() string {
	if len(g.o.Kinds) > 0 {
		return g.o.Kinds[g.r.Intn(len(g.o.Kinds))]
	}
	return declKinds[g.r.Intn(len(declKinds))]
}

func (g *srcgen) allowed(k string) bool {
	if len(g.o.Kinds) == 0 {
		return true
	}
	for _, x := range g.o.Kinds {
		if x == k {
			return true
		}
	}
	return false
}

// include is an expression of type string.
func (g *srcgen) include(depth int) string {
	if !g.allowed("Include") {
		return "svar"
	}
	if depth > 0 && g.r.Intn(4) == 0 {
		return "pkger.Include(" + g.include(depth-1) + ")"
	}
	return "pkger.Include(" + g.path(g.o.Static()) + ")"
}

// call is an expression, with the number of its results
func (g *srcgen) call() (string, int) {
	g.count++
	k := g.kind()
	v := ""
	if k == "Create" || k == "MkdirAll" {
		v = g.o.Virtual()
	} else {
		v = g.o.Static()
	}
	a := g.path(v)
	if g.r.Intn(6) == 0 && g.depth < 3 {
		g.depth++
		a = g.computed()
		g.depth--
	}
	end := ")"
	if g.r.Intn(10) == 0 {
		end = ",\n\t)"
	}
	fun := "pkger." + k
	if g.r.Intn(12) == 0 {
		fun = "(pkger." + k + ")"
		g.trait("function in parentheses")
	} else if g.r.Intn(20) == 0 {
		fun = "pkger.\n\t\t" + k
	}
	switch k {
	case "Open", "Stat", "Create":
		return fun + "(" + a + end, 2
	case "Dir", "Include":
		return fun + "(" + a + end, 1
	case "MkdirAll":
		return fun + "(" + a + ", 0755" + end, 1
	}
	cb := "walkFn"
	if g.r.Intn(2) == 0 && g.depth < 3 {
		g.depth++
		cb = "func(p string, i os.FileInfo, err error) error {\n" + g.stmts(g.r.Intn(3)) + "\treturn err\n}"
		g.depth--
		g.trait("in a callback")
	}
	return fun + "(" + a + ", " + cb + end, 1
}

// expr is an expression with one value
func (g *srcgen) expr() string {
	c, n := g.call()
	if n == 1 {
		return c
	}
	return "first(" + c + ")"
}

func blanks(n int) string { return "_" + strings.Repeat(", _", n-1) }

func (g *srcgen) stmts(n int) string {
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteString("\t" + g.stmt() + "\n")
	}
	return sb.String()
}

func (g *srcgen) stmt() string {
	r := g.r
	g.depth++
	defer func() { g.depth-- }()
	k := r.Intn(30)
	if g.depth > 4 && k > 12 {
		k = r.Intn(12)
	}
	switch k {
	case 0, 1:
		c, n := g.call()
		return blanks(n) + " = " + c
	case 2:
		return "use(" + g.expr() + ", " + g.expr() + ")"
	case 3:
		g.trait("composite literal")
		return "use([]interface{}{" + g.expr() + ", " + g.expr() + "}, map[interface{}]interface{}{1: " + g.expr() + "})"
	case 4:
		return "use(typ{any: " + g.expr() + "}, &typ{" + g.expr() + ", \"\", nil})"
	case 5:
		return "ch <- " + g.expr()
	case 6:
		return "mp[" + g.expr() + "] = " + g.expr()
	case 7:
		// what is not a declaration
		g.trait("decoys")
		return []string{
			`use("pkger.Open(\"/decoy\")", ` + "`pkger.Stat(\"/decoy\")`)",
			`// pkger.Open("/decoy")`,
			`/* pkger.Include("/decoy") */`,
			`use(first(os.Open("/decoy")), first(os.Stat("/decoy")))`,
			`use(obj.Open("/decoy"), obj.in.Stat("/decoy"), Open("/decoy"))`,
			`use(pkger.Open, pkger.Include)`,
			`{ var x pkger.Dir = "/decoy"; use(x) }`,
			`use([]pkger.Dir{"/decoy"})`,
			`use(first(pkger.Parse("/decoy")), first(pkger.Info("decoy")), pkger.Remove("/decoy"), pkger.RemoveAll("/decoy"))`,
		}[r.Intn(9)]
	case 8:
		g.trait("local constant")
		c := g.id("l")
		v := g.o.Static()
		k := "Include"
		if !g.allowed(k) {
			k = g.o.Kinds[0]
			if k == "Create" || k == "MkdirAll" {
				return "use(1)"
			}
		}
		if k != "Include" && k != "Dir" && k != "Open" && k != "Stat" {
			return "use(2)"
		}
		g.count++
		fun := "pkger." + k + "(" + c + ")"
		if k != "Include" && k != "Dir" {
			fun = "first(" + fun + ")"
		}
		switch r.Intn(4) {
		case 0:
			return fmt.Sprintf("const %s = %s\n\tuse(%s)", c, g.literal(v), fun)
		case 1:
			// shadows one of the package
			g.trait("shadowing constant")
			outer := g.constant("/outer")
			fun = strings.Replace(fun, "("+c+")", "("+outer+")", 1)
			return fmt.Sprintf("{\n\t\tconst %s = %s\n\t\tuse(%s)\n\t}", outer, g.literal(v), fun)
		case 2:
			g.trait("shadowing variable")
			outer := g.constant("/outer")
			fun = strings.Replace(fun, "("+c+")", "("+outer+")", 1)
			return fmt.Sprintf("{\n\t\t%s := str(svar)\n\t\tuse(%s)\n\t}", outer, fun)
		}
		return fmt.Sprintf("const (\n\t\t%s = %s\n\t\t%s\n\t)\n\tuse(%s)", g.id("l"), g.literal(v), c, fun)
	case 9:
		return "_ = interface{}(" + g.expr() + ") == interface{}(" + g.expr() + ")"
	case 10:
		return "defer use(" + g.expr() + ")"
	case 11:
		return "go use(" + g.expr() + ")"
	case 12:
		// a computed path next to others
		g.trait("computed among others")
		return "use(" + g.expr() + ", " + g.lookupComputed() + ", " + g.expr() + ")"
	case 13, 14:
		c, n := g.call()
		if n == 2 {
			a := g.id("a")
			return "if " + a + ", err := " + c + "; err == nil {\n" + g.stmts(1) + "\tuse(" + a + ")\n\t} else {\n" + g.stmts(1) + "\t}"
		}
		return "if x := " + c + "; use(x) {\n" + g.stmts(1) + "\t}"
	case 15:
		return "for i := 0; use(i, " + g.expr() + "); i++ {\n" + g.stmts(1) + "\tbreak\n\t}"
	case 16:
		return "for range []interface{}{" + g.expr() + "} {\n" + g.stmts(1) + "\t}"
	case 17:
		return "switch x := interface{}(" + g.expr() + "); x {\n\tcase " + g.expr() + ":\n" + g.stmts(1) + "\tdefault:\n" + g.stmts(1) + "\t}"
	case 18:
		return "switch interface{}(" + g.expr() + ").(type) {\n\tcase nil, *typ:\n" + g.stmts(1) + "\t}"
	case 19:
		return "select {\n\tcase ch <- " + g.expr() + ":\n" + g.stmts(1) + "\tdefault:\n" + g.stmts(1) + "\t}"
	case 20, 21:
		g.trait("closure")
		return "func() {\n" + g.stmts(1+r.Intn(2)) + "\tdefer func() {\n" + g.stmts(1) + "\t}()\n\t}()"
	case 22:
		f := g.id("f")
		return f + " := func(a ...interface{}) interface{} {\n" + g.stmts(1) + "\treturn " + g.expr() + "\n\t}\n\tuse(" + f + "(" + g.expr() + "))"
	case 23:
		l := g.id("L")
		return l + ":\n\tfor {\n" + g.stmts(1) + "\tbreak " + l + "\n\t}"
	case 24:
		return "use(len(" + g.include(1) + "), strs[len(" + g.include(0) + "):], -len(" + g.include(0) + "))"
	case 25:
		g.trait("method on a declaration")
		if g.allowed("Dir") {
			g.count++
			return "use(first(pkger.Dir(" + g.path(g.o.Static()) + ").Open(\"/decoy\")))"
		}
		return "use(3)"
	case 26:
		g.trait("statement in a block")
		return "{\n\t{\n" + g.stmts(1) + "\t}\n\t}"
	case 27:
		return "use(struct {\n\t\tx interface{} `pkger:\"Open(/decoy)\"`\n\t}{" + g.expr() + "})"
	case 28:
		v := g.id("v")
		return "var " + v + ", _ = interface{}(" + g.expr() + "), 1\n\tuse(" + v + ")"
	}
	return "type T" + g.id("t") + " [len(\"pkger\")]int"
}

func (g *srcgen) lookupComputed() string {
	if g.allowed("Open") {
		return "first(pkger.Open(" + g.computed() + "))"
	}
	return "svar"
}

func (g *srcgen) topLevel() string {
	r := g.r
	g.depth = 0
	switch r.Intn(9) {
	case 0:
		g.trait("package variable")
		c, n := g.call()
		return "var " + blanks(n) + " = " + c
	case 1:
		g.trait("package variable")
		return "var (\n\t" + g.id("v") + " = " + g.expr() + "\n\t" + g.id("v") + ", " + g.id("v") + " interface{} = " + g.expr() + ", " + g.expr() + "\n)"
	case 2:
		return "func init() {\n" + g.stmts(1+r.Intn(4)) + "}"
	case 3:
		g.trait("method")
		return "func (t *typ) " + g.id("M") + "(a interface{}) (x interface{}) {\n" + g.stmts(1+r.Intn(4)) + "\treturn " + g.expr() + "\n}"
	case 4:
		if !g.o.Go113 {
			g.trait("generics")
			return "func " + g.id("G") + "[T any, U ~string](t T) (x interface{}) {\n" + g.stmts(1+r.Intn(4)) + "\treturn " + g.expr() + "\n}"
		}
	case 5:
		return "var " + g.id("v") + " = func() interface{} {\n" + g.stmts(1+r.Intn(3)) + "\treturn " + g.expr() + "\n}"
	case 6:
		// the parameter hides a constant
		g.trait("shadowing parameter")
		outer := g.constant("/outer")
		if g.allowed("Include") {
			return "func " + g.id("P") + "(" + outer + " string) string {\n" + g.stmts(1) + "\treturn pkger.Include(" + outer + ")\n}"
		}
	}
	return "func " + g.id("f") + "() {\n" + g.stmts(2+r.Intn(5)) + "}"
}

const srcHelpers = `
type typ struct {
	any   interface{}
	field string
	in    *typ
}

func (t *typ) Open(s string) interface{} { return s }
func (t *typ) Stat(s string) interface{} { return s }

func Open(s string) interface{} { return s }

var (
	obj  = &typ{in: &typ{}}
	strs = []string{"/elsewhere"}
	svar = "/elsewhere"
	ch   = make(chan interface{}, 1)
	mp   = map[interface{}]interface{}{}
)

func str(s string) string                                    { return s }
func use(a ...interface{}) bool                              { return false }
func first(a interface{}, b interface{}) interface{}         { return a }
func walkFn(p string, i os.FileInfo, err error) error        { return err }
`

// genPackage returns the sources of a package by file name.
func genPackage(r *rand.Rand, o SrcOpts) (map[string]string, map[string]bool) {
	g := &srcgen{r: r, o: o, traits: map[string]bool{}}
	names := []string{"a.go", "main.go", "zz.go", "with space.go", "dot.ted.go", "Ü.go", "UPPER.go"}
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	if o.Special && o.Files > 1 {
		// not every build has these
		names[1+r.Intn(o.Files-1)] = []string{"some_test.go", "gen_plan9.go", "x_linux_arm.go", "y_windows_test.go", "cgo_js.go"}[r.Intn(5)]
	}
	for i := 0; i < o.Files; i++ {
		g.out = append(g.out, &srcFile{name: names[i]})
	}
	for _, f := range g.out {
		g.cur = f
		for i := 1 + r.Intn(o.Stmts); i > 0; i-- {
			s := g.topLevel()
			f.top = append(f.top, s)
		}
	}
	g.out[0].top = append(g.out[0].top, srcHelpers)
	res := map[string]string{}
	for _, f := range g.out {
		r.Shuffle(len(f.top), func(i, j int) { f.top[i], f.top[j] = f.top[j], f.top[i] })
		var sb strings.Builder
		if r.Intn(3) == 0 {
			sb.WriteString("// Copyright pkger.Open(\"/decoy\")\n\n")
		}
		fmt.Fprintf(&sb, "package %s\n\n", o.Name)
		if r.Intn(2) == 0 {
			sb.WriteString("import (\n\t\"os\"\n\n\t\"github.com/markbates/pkger\"\n)\n")
		} else {
			sb.WriteString("import \"github.com/markbates/pkger\"\nimport \"os\"\n")
		}
		// both are always used
		sb.WriteString("\nvar _ = os.Args\nvar _ pkger.Dir\n")
		for _, t := range f.top {
			sb.WriteString("\n" + t + "\n")
		}
		s := sb.String()
		switch r.Intn(12) {
		case 0:
			s = strings.ReplaceAll(s, "\n", "\r\n")
			g.trait("CRLF")
		case 1:
			s = "\ufeff" + s
			g.trait("byte order mark")
		case 2:
			s = strings.ReplaceAll(s, "\t", "")
		}
		res[f.name] = s
	}
	return res, g.traits
}

// stubs of what generated packages import
var stubSrc = map[string]string{
	"os": `package os
type FileInfo interface{ Name() string }
type FileMode uint32
type File struct{}
var Args []string
func Open(s string) (*File, error) { return nil, nil }
func Stat(s string) (FileInfo, error) { return nil, nil }
`,
	"github.com/markbates/pkger": `package pkger
import "os"
type Dir string
type File interface{ Close() error }
func (d Dir) Open(s string) (File, error) { return nil, nil }
func Open(p string) (File, error) { return nil, nil }
func Stat(p string) (os.FileInfo, error) { return nil, nil }
func Create(p string) (File, error) { return nil, nil }
func Include(p string) string { return p }
func Parse(p string) (string, error) { return p, nil }
func Info(p string) (string, error) { return p, nil }
func Walk(p string, fn func(string, os.FileInfo, error) error) error { return nil }
func MkdirAll(p string, perm os.FileMode) error { return nil }
func Remove(p string) error { return nil }
func RemoveAll(p string) error { return nil }
`,
}

var stubPkgs = map[string]*types.Package{}

type stubImporter struct{}

func (stubImporter) Import(p string) (*types.Package, error) {
	if x := stubPkgs[p]; x != nil {
		return x, nil
	}
	src, ok := stubSrc[p]
	if !ok {
		return importer.Default().Import(p)
	}
	fset := token.NewFileSet()
	f, err := goparser.ParseFile(fset, p+".go", src, 0)
	if err != nil {
		return nil, err
	}
	cfg := types.Config{Importer: stubImporter{}}
	x, err := cfg.Check(p, fset, []*ast.File{f}, nil)
	if err != nil {
		return nil, err
	}
	stubPkgs[p] = x
	return x, nil
}

// typeCheck returns the declarations in the package as the type checker
// sees them: calls of the functions of package pkger, the first argument of
// which is a literal or a constant of the package. It also counts the other
// calls.
func typeCheck(dir string, srcs map[string]string) ([]SrcDecl, int, error) {
	fset := token.NewFileSet()
	var files []*ast.File
	var names []string
	for n := range srcs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f, err := goparser.ParseFile(fset, filepath.Join(dir, n), srcs[n], goparser.SkipObjectResolution)
		if err != nil {
			return nil, 0, err
		}
		files = append(files, f)
	}
	info := &types.Info{Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Types: map[ast.Expr]types.TypeAndValue{}}
	cfg := types.Config{Importer: stubImporter{}}
	pkg, err := cfg.Check("p", fset, files, info)
	if err != nil {
		return nil, 0, err
	}
	kinds := map[string]bool{}
	for _, k := range declKinds {
		kinds[k] = true
	}
	var out []SrcDecl
	computed := 0
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			ce, ok := n.(*ast.CallExpr)
			if !ok {
				return true
			}
			sel, ok := ast.Unparen(ce.Fun).(*ast.SelectorExpr)
			if !ok {
				return true
			}
			x, ok := sel.X.(*ast.Ident)
			if !ok {
				return true
			}
			pn, ok := info.Uses[x].(*types.PkgName)
			if !ok || pn.Imported().Path() != "github.com/markbates/pkger" || !kinds[sel.Sel.Name] {
				return true
			}
			a := ce.Args[0]
			static := false
			switch y := ast.Unparen(a).(type) {
			case *ast.BasicLit:
				static = true
			case *ast.Ident:
				k, ok := info.Uses[y].(*types.Const)
				static = ok && k.Pkg() == pkg
			}
			if !static {
				computed++
				return true
			}
			p := fset.Position(a.Pos())
			out = append(out, SrcDecl{Kind: sel.Sel.Name, Value: constant.StringVal(info.Types[a].Value), File: p.Filename, Line: p.Line, Col: p.Column, Off: p.Offset})
			return true
		})
	}
	return out, computed, nil
}

func sortDecls(d []SrcDecl) {
	sort.Slice(d, func(i, j int) bool {
		if d[i].File != d[j].File {
			return d[i].File < d[j].File
		}
		if d[i].Off != d[j].Off {
			return d[i].Off < d[j].Off
		}
		return d[i].String() < d[j].String()
	})
}
