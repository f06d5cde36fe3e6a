// emit translates Go packages to Python source, one module per package, so that the functions
// can be executed symbolically.  usage: emit MODULE_ROOT MODULE_PATH pkg...   (JSON on stdout)
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var (
	fset  = token.NewFileSet()
	root  string
	mpath string
	src   types.Importer
	pkgs  = map[string]*pkg{}
	std   = map[string]bool{"math": true, "math/bits": true, "fmt": false, "sort": true, "errors": true}
)

type pkg struct {
	tp    *types.Package
	info  *types.Info
	files []*ast.File
}

// fake declares what is used of packages too large to import from source.
var fake = map[string]string{"encoding/binary": `package binary
type order struct{}
func (order) Uint64(b []byte) uint64 { return 0 }
func (order) Uint32(b []byte) uint32 { return 0 }
func (order) Uint16(b []byte) uint16 { return 0 }
var LittleEndian, BigEndian order
`}

type imp struct{}

func (imp) Import(path string) (*types.Package, error) {
	if strings.HasPrefix(path, mpath+"/") {
		return load(strings.TrimPrefix(path, mpath+"/")).tp, nil
	}
	if std[path] {
		return src.Import(path)
	}
	if text, ok := fake[path]; ok {
		f, err := parser.ParseFile(fset, path+".go", text, 0)
		if err != nil {
			return nil, err
		}
		return (&types.Config{}).Check(path, fset, []*ast.File{f}, nil)
	}
	name := path[strings.LastIndex(path, "/")+1:]
	p := types.NewPackage(path, name)
	p.MarkComplete()
	return p, nil
}

func load(dir string) *pkg {
	if p, ok := pkgs[dir]; ok {
		return p
	}
	p := &pkg{info: &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
		Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
		Implicits: map[ast.Node]types.Object{}}}
	pkgs[dir] = p
	names, _ := filepath.Glob(filepath.Join(root, dir, "*.go"))
	sort.Strings(names)
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(fset, n, nil, 0)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		p.files = append(p.files, f)
	}
	cfg := types.Config{Importer: imp{}, Error: func(error) {}}
	p.tp, _ = cfg.Check(mpath+"/"+dir, fset, p.files, p.info)
	return p
}

type em struct {
	p      *pkg
	out    strings.Builder
	ind    int
	names  map[types.Object]string
	used   map[string]bool
	tmp    int
	posts  []ast.Stmt // innermost loop post statement (nil entries for none)
	inSw   []bool     // whether the innermost breakable is a switch
	sig    *types.Signature
	res    []string
	owner  map[types.Object]int // function literal depth in which a local was defined
	depth  int
	errors []string
}

var kw = map[string]bool{}

func init() {
	for _, k := range strings.Fields("False None True and as assert async await break class continue def del elif else except finally for from global if import in is lambda nonlocal not or pass raise return try while with yield len int float list dict max min abs range enumerate print sum str bool math tuple type object set isinstance exec") {
		kw[k] = true
	}
}

func safe(n string) string {
	if kw[n] {
		return n + "_"
	}
	return n
}

func (e *em) line(f string, a ...interface{}) {
	s := f
	if len(a) > 0 {
		s = fmt.Sprintf(f, a...)
	}
	e.out.WriteString(strings.Repeat(" ", e.ind) + s + "\n")
}

func (e *em) bad(n ast.Node, what string) string {
	e.errors = append(e.errors, fmt.Sprintf("%s: %s", fset.Position(n.Pos()), what))
	return fmt.Sprintf("_unsupported(%q)", what)
}

func (e *em) local(o types.Object, n string) string {
	if s, ok := e.names[o]; ok {
		return s
	}
	s := safe(n)
	for i := 2; e.used[s]; i++ {
		s = fmt.Sprintf("%s_%d", safe(n), i)
	}
	e.used[s] = true
	e.names[o] = s
	e.owner[o] = e.depth
	return s
}

func (e *em) isPkgLevel(o types.Object) bool { return o != nil && o.Parent() == e.p.tp.Scope() }

func (e *em) typ(x ast.Expr) types.Type {
	if t, ok := e.p.info.Types[x]; ok {
		return t.Type
	}
	if id, ok := x.(*ast.Ident); ok {
		if o := e.p.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

func basic(t types.Type) string {
	if t == nil {
		return ""
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsInteger != 0:
			n := b.Name()
			if strings.HasPrefix(n, "untyped") || n == "rune" {
				return "int"
			}
			if n == "byte" {
				return "uint8"
			}
			return n
		case b.Info()&types.IsFloat != 0:
			return "float64"
		case b.Info()&types.IsBoolean != 0:
			return "bool"
		case b.Info()&types.IsString != 0:
			return "string"
		}
	}
	return ""
}

func isInt(k string) bool {
	return strings.HasPrefix(k, "int") || strings.HasPrefix(k, "uint")
}

func isStruct(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

func (e *em) tname(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		o := n.Obj()
		if o.Pkg() == nil || o.Pkg() == e.p.tp {
			return safe(o.Name())
		}
		return "_pkg_" + safe(o.Pkg().Name()) + "." + safe(o.Name())
	}
	return "_anon"
}

func (e *em) zero(t types.Type) string {
	if t == nil {
		return "None"
	}
	switch k := basic(t); {
	case isInt(k):
		return "0"
	case k == "float64":
		return "0.0"
	case k == "bool":
		return "False"
	case k == "string":
		return "''"
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		return e.tname(t) + "()"
	case *types.Array:
		return fmt.Sprintf("[%s for _ in range(%d)]", e.zero(u.Elem()), u.Len())
	}
	return "None"
}

func (e *em) cst(v constant.Value, t types.Type) string {
	switch v.Kind() {
	case constant.Bool:
		if constant.BoolVal(v) {
			return "True"
		}
		return "False"
	case constant.String:
		return strconv.QuoteToASCII(constant.StringVal(v))
	}
	if k := basic(t); k == "float64" {
		f, _ := constant.Float64Val(v)
		s := strconv.FormatFloat(f, 'g', -1, 64)
		if !strings.ContainsAny(s, ".eIN") {
			s += ".0"
		}
		if f < 0 {
			return "(" + s + ")"
		}
		return s
	}
	if i := constant.ToInt(v); i.Kind() == constant.Int {
		b, _ := new(big.Int).SetString(i.ExactString(), 10)
		if b.Sign() < 0 {
			return "(" + b.String() + ")"
		}
		return b.String()
	}
	f, _ := constant.Float64Val(v)
	return strconv.FormatFloat(f, 'g', -1, 64)
}

func addressable(x ast.Expr) bool {
	switch y := x.(type) {
	case *ast.Ident, *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
		return true
	case *ast.ParenExpr:
		return addressable(y.X)
	}
	return false
}

// val is an expression used as a value: structs are copied.
func (e *em) val(x ast.Expr) string {
	s := e.expr(x)
	if isStruct(e.typ(x)) && addressable(x) {
		return "_cp(" + s + ")"
	}
	return s
}

func (e *em) ident(x *ast.Ident) string {
	if x.Name == "_" {
		return "_"
	}
	o := e.p.info.ObjectOf(x)
	if o == nil {
		return safe(x.Name)
	}
	if _, ok := o.(*types.Nil); ok {
		return "None"
	}
	if pn, ok := o.(*types.PkgName); ok {
		return "_pkg_" + pn.Name()
	}
	if o.Parent() == types.Universe {
		return safe(x.Name)
	}
	if e.isPkgLevel(o) {
		return safe(x.Name)
	}
	return e.local(o, x.Name)
}

func (e *em) binop(op token.Token, a, b, k string, n ast.Node) string {
	if isInt(k) {
		switch op {
		case token.ADD, token.SUB, token.MUL:
			return fmt.Sprintf("_wrap(%s %s %s, '%s')", a, op, b, k)
		case token.QUO:
			return fmt.Sprintf("_idiv(%s, %s, '%s')", a, b, k)
		case token.REM:
			return fmt.Sprintf("_imod(%s, %s, '%s')", a, b, k)
		case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
			return fmt.Sprintf("_bit('%s', %s, %s, '%s')", op, a, b, k)
		}
	}
	switch op {
	case token.QUO:
		return fmt.Sprintf("_fdiv(%s, %s)", a, b)
	case token.ADD, token.SUB, token.MUL:
		if k == "float64" {
			return fmt.Sprintf("_f%s(%s, %s)", map[token.Token]string{token.ADD: "add", token.SUB: "sub", token.MUL: "mul"}[op], a, b)
		}
		return fmt.Sprintf("(%s %s %s)", a, op, b)
	}
	return e.bad(n, "operator "+op.String())
}

func (e *em) exprs(xs []ast.Expr) string {
	var r []string
	for _, x := range xs {
		r = append(r, e.val(x))
	}
	return strings.Join(r, ", ")
}

func (e *em) expr(x ast.Expr) string {
	if tv, ok := e.p.info.Types[x]; ok && tv.Value != nil {
		return e.cst(tv.Value, tv.Type)
	}
	switch x := x.(type) {
	case *ast.BasicLit:
		return x.Value
	case *ast.Ident:
		return e.ident(x)
	case *ast.ParenExpr:
		return "(" + e.expr(x.X) + ")"
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if _, ok := e.p.info.ObjectOf(id).(*types.PkgName); ok {
				return e.ident(id) + "." + safe(x.Sel.Name)
			}
		}
		return e.expr(x.X) + "." + safe(x.Sel.Name)
	case *ast.StarExpr:
		t := e.typ(x)
		if isStruct(t) {
			return "_deref(" + e.expr(x.X) + ")"
		}
		return e.expr(x.X) + ".v"
	case *ast.UnaryExpr:
		switch x.Op {
		case token.NOT:
			return "(not " + e.expr(x.X) + ")"
		case token.SUB:
			if k := basic(e.typ(x)); isInt(k) {
				return "_wrap(-" + e.expr(x.X) + ", '" + k + "')"
			}
			return "(-" + e.expr(x.X) + ")"
		case token.ADD:
			return e.expr(x.X)
		case token.XOR:
			return fmt.Sprintf("_bit('~', %s, 0, '%s')", e.expr(x.X), basic(e.typ(x)))
		case token.AND:
			t := e.typ(x.X)
			if isStruct(t) {
				return e.expr(x.X)
			}
			if _, ok := x.X.(*ast.CompositeLit); ok {
				return e.expr(x.X)
			}
			if t == nil || basic(t) == "" {
				return e.expr(x.X)
			}
			return "_box(" + e.expr(x.X) + ")"
		}
		return e.bad(x, "unary "+x.Op.String())
	case *ast.BinaryExpr:
		a, b := e.expr(x.X), e.expr(x.Y)
		switch x.Op {
		case token.LAND:
			return "(" + a + " and " + b + ")"
		case token.LOR:
			return "(" + a + " or " + b + ")"
		case token.EQL, token.NEQ:
			k := basic(e.typ(x.X))
			ky := basic(e.typ(x.Y))
			if k != "" || ky != "" {
				return fmt.Sprintf("_cmp(%s, '%s', %s)", a, x.Op, b)
			}
			if x.Op == token.EQL {
				return fmt.Sprintf("_eq(%s, %s)", a, b)
			}
			return fmt.Sprintf("(not _eq(%s, %s))", a, b)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return fmt.Sprintf("_cmp(%s, '%s', %s)", a, x.Op, b)
		}
		return e.binop(x.Op, a, b, basic(e.typ(x)), x)
	case *ast.CallExpr:
		return e.call(x)
	case *ast.CompositeLit:
		return e.lit(x)
	case *ast.IndexExpr:
		if _, ok := e.typ(x.X).(*types.Signature); ok {
			return e.expr(x.X)
		}
		t := e.typ(x.X)
		if t != nil {
			if m, ok := t.Underlying().(*types.Map); ok {
				return fmt.Sprintf("_mget(%s, %s, %s)", e.expr(x.X), e.expr(x.Index), "lambda: "+e.zero(m.Elem()))
			}
		}
		return fmt.Sprintf("_at(%s, %s)", e.expr(x.X), e.expr(x.Index))
	case *ast.SliceExpr:
		lo, hi := "None", "None"
		if x.Low != nil {
			lo = e.expr(x.Low)
		}
		if x.High != nil {
			hi = e.expr(x.High)
		}
		return fmt.Sprintf("_slice(%s, %s, %s)", e.expr(x.X), lo, hi)
	case *ast.FuncLit:
		e.tmp++
		n := fmt.Sprintf("_fn%d", e.tmp)
		e.fn(n, x.Type, x.Body, nil, e.typ(x).(*types.Signature))
		return n
	case *ast.TypeAssertExpr:
		return e.expr(x.X)
	}
	return e.bad(x, fmt.Sprintf("expression %T", x))
}

func (e *em) lit(x *ast.CompositeLit) string {
	t := e.typ(x)
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	var name string
	if t == nil || t == types.Typ[types.Invalid] {
		name = e.expr(x.Type)
	} else {
		switch u := t.Underlying().(type) {
		case *types.Slice, *types.Array:
			r := []string{}
			for _, el := range x.Elts {
				if kv, ok := el.(*ast.KeyValueExpr); ok {
					return e.bad(kv, "keyed slice literal")
				}
				r = append(r, e.val(el))
			}
			if a, ok := u.(*types.Array); ok {
				for i := int64(len(r)); i < a.Len(); i++ {
					r = append(r, e.zero(a.Elem()))
				}
			}
			return "[" + strings.Join(r, ", ") + "]"
		case *types.Map:
			r := []string{}
			for _, el := range x.Elts {
				kv := el.(*ast.KeyValueExpr)
				r = append(r, e.val(kv.Key)+": "+e.val(kv.Value))
			}
			return "{" + strings.Join(r, ", ") + "}"
		case *types.Struct:
			name = e.tname(t)
			if len(x.Elts) > 0 {
				if _, ok := x.Elts[0].(*ast.KeyValueExpr); !ok {
					r := []string{}
					for i, el := range x.Elts {
						r = append(r, safe(u.Field(i).Name())+"="+e.val(el))
					}
					return name + "(" + strings.Join(r, ", ") + ")"
				}
			}
		default:
			return e.bad(x, "composite literal")
		}
	}
	r := []string{}
	for _, el := range x.Elts {
		kv := el.(*ast.KeyValueExpr)
		r = append(r, safe(kv.Key.(*ast.Ident).Name)+"="+e.val(kv.Value))
	}
	return name + "(" + strings.Join(r, ", ") + ")"
}

func (e *em) call(x *ast.CallExpr) string {
	fun := ast.Unparen(x.Fun)
	if tv, ok := e.p.info.Types[fun]; ok && tv.IsType() {
		from := basic(e.typ(x.Args[0]))
		to := basic(tv.Type)
		if to == "" {
			return e.val(x.Args[0])
		}
		return fmt.Sprintf("_conv(%s, '%s', '%s')", e.expr(x.Args[0]), from, to)
	}
	if id, ok := fun.(*ast.Ident); ok {
		if _, ok := e.p.info.ObjectOf(id).(*types.Builtin); ok {
			switch id.Name {
			case "len", "append", "panic", "copy", "delete", "cap", "min", "max":
				if id.Name == "append" && x.Ellipsis != token.NoPos {
					return fmt.Sprintf("_append(%s, *%s)", e.expr(x.Args[0]), e.expr(x.Args[1]))
				}
				return fmt.Sprintf("_%s(%s)", id.Name, e.exprs(x.Args))
			case "new":
				return e.zero(e.typ(x.Args[0]))
			case "make":
				t := e.typ(x.Args[0])
				switch u := t.Underlying().(type) {
				case *types.Map:
					return "{}"
				case *types.Slice:
					return fmt.Sprintf("[%s for _ in range(%s)]", e.zero(u.Elem()), e.expr(x.Args[1]))
				}
			}
			return e.bad(x, "builtin "+id.Name)
		}
	}
	args := []string{}
	sig, _ := e.typ(fun).(*types.Signature)
	for i, a := range x.Args {
		s := e.val(a)
		if x.Ellipsis != token.NoPos && i == len(x.Args)-1 {
			s = "*" + s
		}
		args = append(args, s)
	}
	_ = sig
	if se, ok := fun.(*ast.SelectorExpr); ok {
		if sel := e.p.info.Selections[se]; sel != nil && sel.Kind() == types.MethodVal {
			rt := sel.Recv()
			if p, ok := rt.(*types.Pointer); ok {
				rt = p.Elem()
			}
			if _, isIface := rt.Underlying().(*types.Interface); !isIface && !isStruct(rt) {
				n := rt.(*types.Named)
				f := safe(n.Obj().Name()) + "__" + se.Sel.Name
				if n.Obj().Pkg() != e.p.tp {
					f = "_pkg_" + n.Obj().Pkg().Name() + "." + f
				}
				return f + "(" + strings.Join(append([]string{e.expr(se.X)}, args...), ", ") + ")"
			}
		}
	}
	return e.expr(fun) + "(" + strings.Join(args, ", ") + ")"
}

func (e *em) target(x ast.Expr) string {
	switch y := x.(type) {
	case *ast.Ident:
		return e.ident(y)
	case *ast.SelectorExpr:
		return e.expr(y)
	case *ast.IndexExpr:
		return e.expr(y.X) + "[" + e.expr(y.Index) + "]"
	case *ast.ParenExpr:
		return e.target(y.X)
	case *ast.StarExpr:
		return e.expr(y.X) + ".v"
	}
	e.bad(x, "assignment target")
	return "_"
}

func (e *em) assign(s *ast.AssignStmt) {
	if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
		op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
			token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR,
			token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}[s.Tok]
		k := basic(e.typ(s.Lhs[0]))
		e.line("%s = %s", e.target(s.Lhs[0]), e.binop(op, e.expr(s.Lhs[0]), e.expr(s.Rhs[0]), k, s))
		return
	}
	if len(s.Lhs) == 1 {
		if st, ok := s.Lhs[0].(*ast.StarExpr); ok && isStruct(e.typ(st)) {
			e.line("_assign(%s, %s)", e.expr(st.X), e.expr(s.Rhs[0]))
			return
		}
	}
	if len(s.Rhs) == 1 && len(s.Lhs) == 2 {
		if ix, ok := s.Rhs[0].(*ast.IndexExpr); ok {
			if t := e.typ(ix.X); t != nil {
				if m, ok := t.Underlying().(*types.Map); ok {
					r := fmt.Sprintf("_mget2(%s, %s, lambda: %s)", e.expr(ix.X), e.expr(ix.Index), e.zero(m.Elem()))
					e.line("%s, %s = %s", e.target(s.Lhs[0]), e.target(s.Lhs[1]), r)
					return
				}
			}
		}
		if ta, ok := s.Rhs[0].(*ast.TypeAssertExpr); ok {
			e.line("%s, %s = _assert2(%s, %q)", e.target(s.Lhs[0]), e.target(s.Lhs[1]), e.expr(ta.X), e.typ(ta).String())
			return
		}
	}
	r := []string{}
	for _, x := range s.Rhs {
		r = append(r, e.val(x))
	}
	l := []string{}
	for _, x := range s.Lhs {
		l = append(l, e.target(x))
	}
	e.line("%s = %s", strings.Join(l, ", "), strings.Join(r, ", "))
}

func (e *em) block(b *ast.BlockStmt) {
	e.ind++
	if b == nil || len(b.List) == 0 {
		e.line("pass")
	} else {
		for _, s := range b.List {
			e.stmt(s)
		}
	}
	e.ind--
}

func hasBreak(n ast.Node) bool {
	r := false
	ast.Inspect(n, func(m ast.Node) bool {
		switch y := m.(type) {
		case *ast.ForStmt, *ast.RangeStmt, *ast.FuncLit:
			return false
		case *ast.BranchStmt:
			if y.Tok == token.BREAK || y.Tok == token.FALLTHROUGH || y.Tok == token.GOTO {
				r = true
			}
		}
		return true
	})
	return r
}

func (e *em) decl(g *ast.GenDecl) {
	for _, sp := range g.Specs {
		vs, ok := sp.(*ast.ValueSpec)
		if !ok {
			continue
		}
		if len(vs.Values) == 1 && len(vs.Names) > 1 {
			l := []string{}
			for _, n := range vs.Names {
				l = append(l, e.ident(n))
			}
			e.line("%s = %s", strings.Join(l, ", "), e.expr(vs.Values[0]))
			continue
		}
		for i, n := range vs.Names {
			o := e.p.info.ObjectOf(n)
			if n.Name == "_" || o == nil {
				continue
			}
			if c, ok := o.(*types.Const); ok {
				e.line("%s = %s", e.ident(n), e.cst(c.Val(), c.Type()))
			} else if i < len(vs.Values) {
				e.line("%s = %s", e.ident(n), e.val(vs.Values[i]))
			} else {
				z := e.zero(o.Type())
				if se, ok := vs.Type.(*ast.SelectorExpr); ok && z == "None" {
					if id, ok := se.X.(*ast.Ident); ok {
						switch id.Name + "." + se.Sel.Name {
						case "bytes.Buffer", "sync.Mutex", "sync.RWMutex", "sync.Once", "strings.Builder":
							z = "_pkg_" + id.Name + "." + se.Sel.Name + "()"
						}
					}
				}
				e.line("%s = %s", e.ident(n), z)
			}
		}
	}
}

func (e *em) stmt(s ast.Stmt) {
	switch s := s.(type) {
	case *ast.ExprStmt:
		e.line("%s", strings.ReplaceAll(e.expr(s.X), "%", "%"))
	case *ast.AssignStmt:
		e.assign(s)
	case *ast.IncDecStmt:
		op := token.ADD
		if s.Tok == token.DEC {
			op = token.SUB
		}
		e.line("%s = %s", e.target(s.X), e.binop(op, e.expr(s.X), "1", basic(e.typ(s.X)), s))
	case *ast.BlockStmt:
		for _, t := range s.List {
			e.stmt(t)
		}
	case *ast.DeclStmt:
		e.decl(s.Decl.(*ast.GenDecl))
	case *ast.EmptyStmt:
	case *ast.ReturnStmt:
		switch {
		case len(s.Results) == 0 && len(e.res) > 0:
			e.line("return %s", strings.Join(e.res, ", "))
		case len(s.Results) == 0:
			e.line("return None")
		default:
			e.line("return %s", e.exprs(s.Results))
		}
	case *ast.IfStmt:
		if s.Init != nil {
			e.stmt(s.Init)
		}
		e.line("if %s:", e.expr(s.Cond))
		e.block(s.Body)
		if s.Else != nil {
			e.line("else:")
			e.ind++
			e.stmt(s.Else)
			e.line("pass")
			e.ind--
		}
	case *ast.ForStmt:
		if s.Init != nil {
			e.stmt(s.Init)
		}
		c := "True"
		e.line("while True:")
		e.ind++
		if s.Cond != nil {
			c = e.expr(s.Cond)
			e.line("if not (%s): break", c)
		}
		e.ind--
		e.posts = append(e.posts, s.Post)
		e.inSw = append(e.inSw, false)
		e.block(s.Body)
		e.posts = e.posts[:len(e.posts)-1]
		e.inSw = e.inSw[:len(e.inSw)-1]
		if s.Post != nil {
			e.ind++
			e.stmt(s.Post)
			e.ind--
		}
	case *ast.RangeStmt:
		k, v := "_", "_"
		if s.Key != nil {
			k = e.target(s.Key)
		}
		if s.Value != nil {
			v = e.target(s.Value)
		}
		t := e.typ(s.X)
		it := "_enum"
		if t != nil {
			switch t.Underlying().(type) {
			case *types.Map:
				it = "_items"
			case *types.Basic:
				it = "_upto"
			}
		}
		e.line("for %s, %s in %s(%s):", k, v, it, e.expr(s.X))
		e.posts = append(e.posts, nil)
		e.inSw = append(e.inSw, false)
		e.block(s.Body)
		e.posts = e.posts[:len(e.posts)-1]
		e.inSw = e.inSw[:len(e.inSw)-1]
	case *ast.BranchStmt:
		switch {
		case s.Label != nil:
			e.line("%s", e.bad(s, "labelled branch"))
		case s.Tok == token.BREAK:
			e.line("break")
		case s.Tok == token.CONTINUE:
			if p := e.posts[len(e.posts)-1]; p != nil {
				e.stmt(p)
			}
			e.line("continue")
		default:
			e.line("%s", e.bad(s, s.Tok.String()))
		}
	case *ast.SwitchStmt:
		if s.Init != nil {
			e.stmt(s.Init)
		}
		if hasBreak(s.Body) {
			e.line("%s", e.bad(s, "break in switch"))
			return
		}
		tag := ""
		var tt types.Type
		if s.Tag != nil {
			e.tmp++
			tag = fmt.Sprintf("_tag%d", e.tmp)
			tt = e.typ(s.Tag)
			e.line("%s = %s", tag, e.expr(s.Tag))
		}
		var def *ast.CaseClause
		word := "if"
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			if cc.List == nil {
				def = cc
				continue
			}
			cs := []string{}
			for _, x := range cc.List {
				if tag == "" {
					cs = append(cs, e.expr(x))
				} else if basic(tt) != "" {
					cs = append(cs, fmt.Sprintf("_cmp(%s, '==', %s)", tag, e.expr(x)))
				} else {
					cs = append(cs, fmt.Sprintf("_eq(%s, %s)", tag, e.expr(x)))
				}
			}
			e.line("%s %s:", word, strings.Join(cs, " or "))
			word = "elif"
			e.block(&ast.BlockStmt{List: cc.Body})
		}
		if def != nil {
			if word == "if" {
				e.line("if True:")
			} else {
				e.line("else:")
			}
			e.block(&ast.BlockStmt{List: def.Body})
		}
	case *ast.DeferStmt:
		// only locks are released this way; execution here is single threaded
	default:
		e.line("%s", e.bad(s, fmt.Sprintf("statement %T", s)))
	}
}

// fn emits a function (nested when depth > 0).
func (e *em) fn(name string, ft *ast.FuncType, body *ast.BlockStmt, recv *ast.FieldList, sig *types.Signature) {
	saveRes, saveSig, savePosts, saveSw := e.res, e.sig, e.posts, e.inSw
	saveNames, saveUsed, saveOwner := e.names, e.used, e.owner
	if e.depth == 0 {
		e.names, e.used, e.owner = map[types.Object]string{}, map[string]bool{}, map[types.Object]int{}
	}
	e.depth++
	e.res, e.sig, e.posts, e.inSw = nil, sig, nil, nil
	ps := []string{}
	pre := []string{}
	add := func(fl *ast.FieldList) {
		if fl == nil {
			return
		}
		for _, f := range fl.List {
			_, variadic := f.Type.(*ast.Ellipsis)
			if len(f.Names) == 0 {
				e.tmp++
				ps = append(ps, fmt.Sprintf("_p%d", e.tmp))
			}
			for _, n := range f.Names {
				s := ""
				if n.Name == "_" {
					e.tmp++
					s = fmt.Sprintf("_p%d", e.tmp)
				} else {
					s = e.local(e.p.info.ObjectOf(n), n.Name)
				}
				if variadic {
					pre = append(pre, fmt.Sprintf("%s = list(%s)", s, s))
					s = "*" + s
				}
				ps = append(ps, s)
			}
		}
	}
	add(recv)
	add(ft.Params)
	if recv != nil && len(recv.List[0].Names) == 1 && isStruct(e.typ(recv.List[0].Type)) && recv.List[0].Names[0].Name != "_" {
		pre = append(pre, fmt.Sprintf("%s = _cp(%s)", ps[0], ps[0]))
	}
	if ft.Results != nil {
		for _, f := range ft.Results.List {
			for _, n := range f.Names {
				o := e.p.info.ObjectOf(n)
				s := e.local(o, n.Name)
				e.res = append(e.res, s)
				pre = append(pre, fmt.Sprintf("%s = %s", s, e.zero(o.Type())))
			}
		}
	}
	e.line("def %s(%s):", name, strings.Join(ps, ", "))
	e.ind++
	glob, nonl := map[string]bool{}, map[string]bool{}
	note := func(x ast.Expr) {
		id, ok := ast.Unparen(x).(*ast.Ident)
		if !ok || id.Name == "_" {
			return
		}
		o := e.p.info.ObjectOf(id)
		if e.isPkgLevel(o) {
			glob[safe(id.Name)] = true
		} else if s, ok := e.names[o]; ok && e.owner[o] < e.depth {
			nonl[s] = true
		}
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch y := n.(type) {
		case *ast.AssignStmt:
			if y.Tok != token.DEFINE {
				for _, l := range y.Lhs {
					note(l)
				}
			} else {
				for _, l := range y.Lhs {
					if id, ok := l.(*ast.Ident); ok && e.p.info.Defs[id] == nil {
						note(l)
					}
				}
			}
		case *ast.IncDecStmt:
			note(y.X)
		}
		return true
	})
	emitNames := func(w string, m map[string]bool) {
		l := []string{}
		for k := range m {
			l = append(l, k)
		}
		sort.Strings(l)
		if len(l) > 0 {
			e.line("%s %s", w, strings.Join(l, ", "))
		}
	}
	emitNames("global", glob)
	emitNames("nonlocal", nonl)
	for _, p := range pre {
		e.line("%s", p)
	}
	for _, s := range body.List {
		e.stmt(s)
	}
	if len(e.res) > 0 {
		e.line("return %s", strings.Join(e.res, ", "))
	} else {
		e.line("return None")
	}
	e.ind--
	e.depth--
	e.res, e.sig, e.posts, e.inSw = saveRes, saveSig, savePosts, saveSw
	if e.depth == 0 {
		e.names, e.used, e.owner = saveNames, saveUsed, saveOwner
	}
}

func emitPkg(dir string) (string, []string) {
	p := load(dir)
	e := &em{p: p, names: map[types.Object]string{}, used: map[string]bool{}, owner: map[types.Object]int{}}
	for _, f := range p.files {
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.TYPE {
				for _, sp := range g.Specs {
					ts := sp.(*ast.TypeSpec)
					o := p.info.ObjectOf(ts.Name)
					if o == nil {
						continue
					}
					if st, ok := o.Type().Underlying().(*types.Struct); ok {
						fs := []string{}
						for i := 0; i < st.NumFields(); i++ {
							fs = append(fs, fmt.Sprintf("(%q, lambda: %s)", safe(st.Field(i).Name()), e.zero(st.Field(i).Type())))
						}
						e.line("%s = _struct(%q, [%s])", safe(ts.Name.Name), ts.Name.Name, strings.Join(fs, ", "))
					}
				}
			}
		}
	}
	vars := []*ast.GenDecl{}
	for _, f := range p.files {
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.GenDecl:
				if d.Tok == token.CONST {
					e.decl(d)
				} else if d.Tok == token.VAR {
					vars = append(vars, d)
				}
			}
		}
	}
	for _, f := range p.files {
		for _, d := range f.Decls {
			d, ok := d.(*ast.FuncDecl)
			if !ok || d.Body == nil {
				continue
			}
			sig := p.info.ObjectOf(d.Name).Type().(*types.Signature)
			if d.Recv == nil {
				e.fn(safe(d.Name.Name), d.Type, d.Body, nil, sig)
				continue
			}
			rt := sig.Recv().Type()
			if q, ok := rt.(*types.Pointer); ok {
				rt = q.Elem()
			}
			tn := safe(rt.(*types.Named).Obj().Name())
			fn := tn + "__" + d.Name.Name
			e.fn(fn, d.Type, d.Body, d.Recv, sig)
			if isStruct(rt) {
				e.line("%s.%s = %s", tn, safe(d.Name.Name), fn)
			}
		}
	}
	for _, g := range vars {
		e.decl(g)
	}
	return e.out.String(), e.errors
}

func main() {
	root, mpath = os.Args[1], os.Args[2]
	src = importer.ForCompiler(fset, "source", nil)
	out := map[string]interface{}{}
	for _, d := range os.Args[3:] {
		s, errs := emitPkg(d)
		out[d] = map[string]interface{}{"source": s, "errors": errs}
	}
	json.NewEncoder(os.Stdout).Encode(out)
}
