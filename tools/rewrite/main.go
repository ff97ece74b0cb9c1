// rewrite instruments the non-test packages of the code under test: it
// replaces synchronisation, time and file primitives by their controlled
// versions and writes a go build overlay. Edits are textual splices guided by
// the type-checked syntax tree, so that everything else stays as written.
//
// usage: rewrite -out DIR [-ticks=false] PACKAGE...
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const target = "github.com/v2pro/plz"

var shims = map[string]string{
	"sync":        "verif/shim/sync",
	"sync/atomic": "verif/shim/atomic",
	"time":        "verif/shim/time",
	"context":     "verif/shim/context",
	"os":          "verif/shim/os",
	"io/ioutil":   "verif/shim/ioutil",
}

type listPkg struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	Export     string
	ImportMap  map[string]string
	Standard   bool
	Error      *struct{ Err string }
}

func main() {
	out := flag.String("out", "", "output directory")
	ticks := flag.Bool("ticks", true, "insert step counters")
	flag.Parse()
	args := append([]string{"list", "-e", "-export", "-deps", "-json=ImportPath,Dir,GoFiles,Export,ImportMap,Standard,Error"}, flag.Args()...)
	cmd := exec.Command("go", args...)
	cmd.Stderr = os.Stderr
	data, err := cmd.Output()
	if err != nil {
		fmt.Fprintln(os.Stderr, "rewrite: go list:", err)
		os.Exit(2)
	}
	pkgs := map[string]*listPkg{}
	var order []*listPkg
	dec := json.NewDecoder(bytes.NewReader(data))
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			panic(err)
		}
		pkgs[p.ImportPath] = p
		order = append(order, p)
	}
	overlay := map[string]string{}
	for _, p := range order {
		if p.ImportPath != target && !strings.HasPrefix(p.ImportPath, target+"/") {
			continue
		}
		if strings.HasPrefix(p.ImportPath, target+"/test") {
			continue
		}
		rewritePkg(p, pkgs, *out, *ticks, overlay)
	}
	js, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), js, 0644); err != nil {
		panic(err)
	}
}

func rewritePkg(p *listPkg, pkgs map[string]*listPkg, out string, ticks bool, overlay map[string]string) {
	fset := token.NewFileSet()
	var files []*ast.File
	var names []string
	srcs := map[string][]byte{}
	for _, f := range p.GoFiles {
		path := filepath.Join(p.Dir, f)
		src, err := os.ReadFile(path)
		if err != nil {
			panic(err)
		}
		af, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		if err != nil {
			fmt.Fprintln(os.Stderr, "rewrite:", err)
			return
		}
		files = append(files, af)
		names = append(names, path)
		srcs[path] = src
	}
	lookup := func(path string) (io.ReadCloser, error) {
		if m, ok := p.ImportMap[path]; ok {
			path = m
		}
		lp := pkgs[path]
		if lp == nil || lp.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(lp.Export)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", lookup), Error: func(err error) {}, FakeImportC: true}
	conf.Check(p.ImportPath, fset, files, info)
	lowLevel := strings.HasSuffix(p.ImportPath, "/reflect2") || strings.HasSuffix(p.ImportPath, "/gls")
	for i, af := range files {
		r := &rewriter{fset: fset, file: af, src: srcs[names[i]], info: info, ticks: ticks && !lowLevel}
		text, changed := r.run()
		if !changed {
			continue
		}
		dst := filepath.Join(out, strings.ReplaceAll(strings.TrimPrefix(names[i], "/"), "/", "__"))
		if err := os.WriteFile(dst, []byte(text), 0644); err != nil {
			panic(err)
		}
		overlay[names[i]] = dst
	}
}

type edit struct {
	start, end int
	text       string
	seq        int
}

type rewriter struct {
	fset  *token.FileSet
	file  *ast.File
	src   []byte
	info  *types.Info
	edits []edit
	ticks bool
	uses  bool
	n     int
	tail  string
	skip  map[ast.Node]bool
	two   map[ast.Expr]bool
}

func (r *rewriter) off(p token.Pos) int { return r.fset.Position(p).Offset }

func (r *rewriter) replace(start, end int, text string) {
	r.n++
	r.edits = append(r.edits, edit{start, end, text, r.n})
}

// take renders the source range with the edits inside it and removes those edits.
func (r *rewriter) take(start, end int) string {
	var in, outside []edit
	for _, e := range r.edits {
		if e.start >= start && e.end <= end {
			in = append(in, e)
		} else {
			outside = append(outside, e)
		}
	}
	r.edits = outside
	return render(r.src, start, end, in)
}

func render(src []byte, start, end int, edits []edit) string {
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].start != edits[j].start {
			return edits[i].start < edits[j].start
		}
		// insertions before replacements at the same position
		ii, jj := edits[i].end == edits[i].start, edits[j].end == edits[j].start
		if ii != jj {
			return ii
		}
		return edits[i].seq < edits[j].seq
	})
	var sb strings.Builder
	pos := start
	for _, e := range edits {
		if e.start < pos {
			panic(fmt.Sprintf("overlapping edit at %d: %q", e.start, e.text))
		}
		sb.Write(src[pos:e.start])
		sb.WriteString(e.text)
		pos = e.end
	}
	sb.Write(src[pos:end])
	return sb.String()
}

func (r *rewriter) run() (string, bool) {
	r.skip = map[ast.Node]bool{}
	r.two = map[ast.Expr]bool{}
	for _, spec := range r.file.Imports {
		path, _ := strconv.Unquote(spec.Path.Value)
		shim, ok := shims[path]
		if !ok {
			continue
		}
		name := filepath.Base(path)
		text := strconv.Quote(shim)
		if spec.Name == nil {
			text = name + " " + text
		}
		r.replace(r.off(spec.Path.Pos()), r.off(spec.Path.End()), text)
	}
	ast.Inspect(r.file, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				r.two[unparen(n.Rhs[0])] = true
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				r.two[unparen(n.Values[0])] = true
			}
		case *ast.CommClause:
			switch c := n.Comm.(type) {
			case *ast.SendStmt:
				r.skip[c] = true
			case *ast.ExprStmt:
				r.skip[unparen(c.X)] = true
			case *ast.AssignStmt:
				r.skip[unparen(c.Rhs[0])] = true
			}
		}
		return true
	})
	r.walk(r.file)
	if len(r.edits) == 0 {
		return "", false
	}
	if r.uses {
		r.replace(r.off(r.file.Name.End()), r.off(r.file.Name.End()), "; import vsched_ \"verif/vsched\"")
	}
	// constraints: the file was selected for this build; allow generics in it
	head := r.off(r.file.Package)
	for _, g := range r.file.Comments {
		for _, c := range g.List {
			if r.off(c.Pos()) < head && (strings.HasPrefix(c.Text, "//go:build") || isPlusBuild(c.Text)) {
				r.replace(r.off(c.Pos()), r.off(c.End()), "//")
			}
		}
	}
	body := render(r.src, 0, len(r.src), r.edits)
	return "//go:build go1.21\n\n" + body + "\n" + r.tail, true
}

func isPlusBuild(s string) bool {
	return strings.HasPrefix(strings.TrimSpace(strings.TrimPrefix(s, "//")), "+build")
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// walk visits in post-order, so that outer edits can absorb inner ones.
func (r *rewriter) walk(root ast.Node) {
	var stack []ast.Node
	ast.Inspect(root, func(n ast.Node) bool {
		if n != nil {
			stack = append(stack, n)
			return true
		}
		top := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		var parent ast.Node
		if len(stack) > 0 {
			parent = stack[len(stack)-1]
		}
		r.leave(top, parent)
		return true
	})
}

func (r *rewriter) tick(lbrace token.Pos) {
	if r.ticks {
		r.uses = true
		o := r.off(lbrace) + 1
		r.replace(o, o, "vsched_.Tick();")
	}
}

func (r *rewriter) leave(n, parent ast.Node) {
	switch n := n.(type) {
	case *ast.FuncDecl:
		if n.Body != nil && !hasDirective(n.Doc, "//go:nosplit") {
			r.tick(n.Body.Lbrace)
		}
	case *ast.FuncLit:
		r.tick(n.Body.Lbrace)
	case *ast.ForStmt:
		r.tick(n.Body.Lbrace)
	case *ast.RangeStmt:
		if t, ok := r.info.Types[n.X]; ok && isChan(t.Type) {
			r.uses = true
			r.n++
			v := fmt.Sprintf("vr%d_", r.n)
			r.replace(r.off(n.For), r.off(n.X.Pos()), "for "+v+" := vsched_.RangeChan(")
			r.replace(r.off(n.X.End()), r.off(n.X.End()), "); "+v+".Next(); ")
			if n.Key != nil {
				k := string(r.src[r.off(n.Key.Pos()):r.off(n.Key.End())])
				o := r.off(n.Body.Lbrace) + 1
				if k != "_" {
					r.replace(o, o, k+" "+n.Tok.String()+" "+v+".V;")
				}
			}
		}
		r.tick(n.Body.Lbrace)
	case *ast.GoStmt:
		r.goStmt(n)
	case *ast.SendStmt:
		if r.skip[n] {
			return
		}
		r.uses = true
		r.replace(r.off(n.Chan.Pos()), r.off(n.Chan.Pos()), "vsched_.SendTo(")
		r.replace(r.off(n.Arrow), r.off(n.Arrow)+2, ")(")
		r.replace(r.off(n.Value.End()), r.off(n.Value.End()), ")")
	case *ast.UnaryExpr:
		if n.Op != token.ARROW || r.skip[n] {
			return
		}
		r.uses = true
		f := "vsched_.Recv("
		if r.two[n] {
			f = "vsched_.Recv2("
		}
		r.replace(r.off(n.OpPos), r.off(n.OpPos)+2, f)
		r.replace(r.off(n.X.End()), r.off(n.X.End()), ")")
	case *ast.CallExpr:
		if id, ok := unparen(n.Fun).(*ast.Ident); ok && id.Name == "close" {
			if _, builtin := r.info.Uses[id].(*types.Builtin); builtin {
				r.uses = true
				r.replace(r.off(id.Pos()), r.off(id.End()), "vsched_.Close")
			}
		}
	case *ast.SelectorExpr:
		if x, ok := n.X.(*ast.Ident); ok && n.Sel.Name == "Gosched" {
			if pn, ok := r.info.Uses[x].(*types.PkgName); ok && pn.Imported().Path() == "runtime" {
				r.uses = true
				r.replace(r.off(n.Pos()), r.off(n.End()), "vsched_.Yield")
				if !strings.Contains(r.tail, "NumCPU") {
					r.tail += "\nvar _ = " + x.Name + ".NumCPU\n"
				}
			}
		}
	case *ast.SelectStmt:
		r.selectStmt(n, parent)
	}
}

func hasDirective(g *ast.CommentGroup, d string) bool {
	if g == nil {
		return false
	}
	for _, c := range g.List {
		if strings.HasPrefix(c.Text, d) {
			return true
		}
	}
	return false
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (r *rewriter) goStmt(n *ast.GoStmt) {
	r.uses = true
	call := n.Call
	if id, ok := unparen(call.Fun).(*ast.Ident); ok {
		if _, builtin := r.info.Uses[id].(*types.Builtin); builtin {
			r.replace(r.off(n.Go), r.off(call.Pos()), "vsched_.Go(func() { ")
			r.replace(r.off(call.End()), r.off(call.End()), " })")
			return
		}
	}
	if len(call.Args) == 0 {
		r.replace(r.off(n.Go), r.off(call.Fun.Pos()), "vsched_.Go(")
		if t, ok := r.info.Types[call.Fun]; ok {
			if sig, ok := t.Type.Underlying().(*types.Signature); ok && sig.Results().Len() > 0 {
				// the results are discarded
				r.n++
				v := fmt.Sprintf("vf%d_", r.n)
				fun := r.take(r.off(call.Fun.Pos()), r.off(call.Fun.End()))
				r.replace(r.off(call.Fun.Pos()), r.off(call.End()), "func() func() { "+v+" := "+fun+"; return func() { "+v+"() } }())")
				return
			}
		}
		r.replace(r.off(call.Lparen), r.off(call.Rparen)+1, ")")
		return
	}
	r.n++
	base := r.n
	fun := r.take(r.off(call.Fun.Pos()), r.off(call.Fun.End()))
	var sb strings.Builder
	fmt.Fprintf(&sb, "{ vf%d_ := %s; ", base, fun)
	var args []string
	for i, a := range call.Args {
		text := r.take(r.off(a.Pos()), r.off(a.End()))
		tv := r.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			args = append(args, text)
			continue
		}
		v := fmt.Sprintf("va%d_%d_", base, i)
		fmt.Fprintf(&sb, "%s := %s; ", v, text)
		args = append(args, v)
	}
	ell := ""
	if call.Ellipsis.IsValid() {
		ell = "..."
	}
	fmt.Fprintf(&sb, "vsched_.Go(func() { vf%d_(%s%s) }) }", base, strings.Join(args, ", "), ell)
	r.replace(r.off(n.Go), r.off(call.End()), sb.String())
}

func (r *rewriter) selectStmt(n *ast.SelectStmt, parent ast.Node) {
	r.uses = true
	start := r.off(n.Select)
	label := ""
	if l, ok := parent.(*ast.LabeledStmt); ok {
		label = l.Label.Name + ": "
		start = r.off(l.Pos())
	}
	if len(n.Body.List) == 0 {
		r.replace(start, r.off(n.End()), "{ vsched_.BlockForever(); panic(\"unreachable\") }")
		return
	}
	r.n++
	base := r.n
	var decls, cases strings.Builder
	hasDefault := false
	idx := 0
	type hdr struct {
		start, end int
		text       string
	}
	var hdrs []hdr
	for _, cl := range n.Body.List {
		c := cl.(*ast.CommClause)
		if c.Comm == nil {
			hasDefault = true
			continue
		}
		v := fmt.Sprintf("vc%d_%d_", base, idx)
		bind := ""
		recv := func(e ast.Expr) string {
			u := unparen(e).(*ast.UnaryExpr)
			return r.take(r.off(u.X.Pos()), r.off(u.X.End()))
		}
		switch s := c.Comm.(type) {
		case *ast.SendStmt:
			ch := r.take(r.off(s.Chan.Pos()), r.off(s.Chan.End()))
			val := r.take(r.off(s.Value.Pos()), r.off(s.Value.End()))
			fmt.Fprintf(&decls, "%s := vsched_.SendCaseTo(%s)(%s); ", v, ch, val)
		case *ast.ExprStmt:
			fmt.Fprintf(&decls, "%s := vsched_.RecvCase(%s); ", v, recv(s.X))
		case *ast.AssignStmt:
			fmt.Fprintf(&decls, "%s := vsched_.RecvCase(%s); ", v, recv(s.Rhs[0]))
			var lhs, rhs []string
			for i, l := range s.Lhs {
				text := r.take(r.off(l.Pos()), r.off(l.End()))
				if text == "_" && s.Tok == token.DEFINE {
					continue
				}
				lhs = append(lhs, text)
				if i == 0 {
					rhs = append(rhs, v+".V")
				} else {
					rhs = append(rhs, v+".GetOk()")
				}
			}
			if len(lhs) > 0 {
				bind = strings.Join(lhs, ", ") + " " + s.Tok.String() + " " + strings.Join(rhs, ", ") + ";"
			}
		}
		if idx > 0 {
			cases.WriteString(", ")
		}
		fmt.Fprintf(&cases, "&%s.Case", v)
		hdrs = append(hdrs, hdr{r.off(c.Case), r.off(c.Colon) + 1, fmt.Sprintf("case %d: %s", idx, bind)})
		idx++
	}
	for _, h := range hdrs {
		r.replace(h.start, h.end, h.text)
	}
	if cases.Len() > 0 {
		cases.WriteString("")
	}
	list := ""
	if idx > 0 {
		list = ", " + cases.String()
	}
	r.replace(start, r.off(n.Body.Lbrace)+1, fmt.Sprintf("{ %s%sswitch vsched_.Select(%v%s) {", decls.String(), label, hasDefault, list))
	end := r.off(n.Body.Rbrace)
	extra := "}"
	if !hasDefault {
		extra = "default: panic(\"vsched: unreachable\")\n}"
	}
	r.replace(end, end+1, extra+"}")
}
