package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// names that are redirected to the controlled runtime, per package
var redirect = map[string]map[string]string{
	"time": {"Now": "Now", "Since": "Since", "Until": "Until", "Sleep": "Sleep", "NewTimer": "NewTimer", "Timer": "Timer",
		"AfterFunc": "AfterFunc", "After": "After", "NewTicker": "NewTicker", "Ticker": "Ticker", "Tick": "Tick"},
	"sync": {"Mutex": "Mutex", "RWMutex": "RWMutex", "Cond": "Cond", "NewCond": "NewCond", "Once": "Once", "OnceFunc": "OnceFunc",
		"OnceValue": "OnceValue", "OnceValues": "OnceValues", "WaitGroup": "WaitGroup", "Map": "Map", "Pool": "Pool"},
	"sync/atomic": {"AddInt32": "AddInt32", "AddInt64": "AddInt64", "AddUint32": "AddUint32", "AddUint64": "AddUint64",
		"LoadInt32": "LoadInt32", "LoadInt64": "LoadInt64", "LoadUint32": "LoadUint32", "LoadUint64": "LoadUint64",
		"StoreInt32": "StoreInt32", "StoreInt64": "StoreInt64", "StoreUint32": "StoreUint32", "StoreUint64": "StoreUint64",
		"SwapInt32": "SwapInt32", "SwapInt64": "SwapInt64", "SwapUint32": "SwapUint32", "SwapUint64": "SwapUint64",
		"CompareAndSwapInt32": "CompareAndSwapInt32", "CompareAndSwapInt64": "CompareAndSwapInt64",
		"CompareAndSwapUint32": "CompareAndSwapUint32", "CompareAndSwapUint64": "CompareAndSwapUint64",
		"Int32": "Int32", "Int64": "Int64", "Uint32": "Uint32", "Uint64": "Uint64", "Bool": "Bool", "Value": "Value", "Pointer": "Pointer"},
	"math/rand": {"Uint64": "RandUint64", "Int63": "RandInt63", "Uint32": "RandUint32", "Int": "RandInt", "Int31": "RandInt31",
		"Intn": "RandIntn", "Int63n": "RandInt63n", "Int31n": "RandInt31n", "Float64": "RandFloat64", "Float32": "RandFloat32",
		"Seed": "RandSeed", "Perm": "RandPerm", "Shuffle": "RandShuffle", "Read": "RandRead", "New": "RandNew"},
	"math/rand/v2": {"Uint64": "RandUint64", "Int64": "RandInt63", "Uint32": "RandUint32", "Int": "RandInt", "Int32": "RandInt31",
		"IntN": "RandIntn", "Int64N": "RandInt63n", "Int32N": "RandInt31n", "Uint64N": "RandUint64n", "Uint32N": "RandUint32n",
		"N": "RandN", "Float64": "RandFloat64", "Float32": "RandFloat32", "Perm": "RandPerm", "Shuffle": "RandShuffle"},
	"crypto/rand": {"Read": "RandRead", "Reader": "RandSource"},
	"context": {"WithCancel": "WithCancel", "WithTimeout": "WithTimeout", "WithDeadline": "WithDeadline",
		"WithCancelCause": "WithCancelCause", "WithTimeoutCause": "WithTimeoutCause", "WithDeadlineCause": "WithDeadlineCause",
		"AfterFunc": "CtxAfterFunc", "Cause": "CtxCause"},
	"net":      {"Dial": "Dial", "DialTimeout": "DialTimeout", "Dialer": "Dialer", "Listen": "Listen"},
	"net/http": {"Server": "Server", "ListenAndServe": "ListenAndServe", "Serve": "Serve"},
	"runtime":  {"Gosched": "Point"},
}

var guards = map[string]string{
	"time": "time.Duration", "sync": "sync.Locker", "sync/atomic": "atomic.Value", "math/rand": "rand.Source", "math/rand/v2": "rand.Source",
	"context": "context.Context", "net": "net.Conn", "net/http": "http.Handler", "runtime": "runtime.Error",
}

type listPkg struct {
	ImportPath string
	Name       string
	Dir        string
	Export     string
	GoFiles    []string
	CgoFiles   []string
	Standard   bool
	Module     *struct{ Path string }
	ImportMap  map[string]string
	Error      *struct{ Err string }
	DepOnly    bool
}

// instrument rewrites, in place, the packages of dir that match patterns.
func instrument(dir string, env []string, keep func(p *listPkg) bool, patterns ...string) error {
	args := append([]string{"list", "-e", "-export", "-deps", "-json=ImportPath,Name,Dir,Export,GoFiles,CgoFiles,Standard,Module,ImportMap,Error,DepOnly"}, patterns...)
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	cmd.Env = env
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	outb, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("go list: %v\n%s", err, stderr.String())
	}
	byPath := map[string]*listPkg{}
	var todo []*listPkg
	dec := json.NewDecoder(bytes.NewReader(outb))
	for {
		p := new(listPkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			return err
		}
		byPath[p.ImportPath] = p
		if !p.Standard && keep(p) {
			if p.Error != nil {
				return fmt.Errorf("%s: %s", p.ImportPath, p.Error.Err)
			}
			todo = append(todo, p)
		}
	}
	for _, p := range todo {
		if err := instrPkg(p, byPath); err != nil {
			return fmt.Errorf("%s: %w", p.ImportPath, err)
		}
	}
	return nil
}

func instrPkg(p *listPkg, all map[string]*listPkg) error {
	fset := token.NewFileSet()
	lookup := func(path string) (io.ReadCloser, error) {
		if m, ok := p.ImportMap[path]; ok {
			path = m
		}
		q := all[path]
		if q == nil || q.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(q.Export)
	}
	var files []*ast.File
	src := map[*ast.File][]byte{}
	names := map[*ast.File]string{}
	for _, f := range p.GoFiles {
		full := filepath.Join(p.Dir, f)
		b, err := os.ReadFile(full)
		if err != nil {
			return err
		}
		af, err := parser.ParseFile(fset, full, b, parser.ParseComments)
		if err != nil {
			return err
		}
		files = append(files, af)
		src[af] = b
		names[af] = full
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	var terr error
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", lookup), Error: func(e error) {
		if terr == nil {
			terr = e
		}
	}}
	conf.Check(p.ImportPath, fset, files, info)
	if terr != nil {
		return terr
	}
	for _, af := range files {
		r := &rw{fset: fset, info: info, src: src[af], base: fset.File(af.Pos()).Base(), touched: map[string]string{}}
		out := r.file(af)
		if r.err != nil {
			return r.err
		}
		if out == nil {
			continue
		}
		if err := os.WriteFile(names[af], out, 0o644); err != nil {
			return err
		}
	}
	return nil
}

type rw struct {
	fset    *token.FileSet
	info    *types.Info
	src     []byte
	base    int
	touched map[string]string // import path -> local name
	used    bool
	n       int
	err     error
}

type edit struct {
	from, to int
	text     string
}

func (r *rw) off(p token.Pos) int { return int(p) - r.base }

func (r *rw) file(f *ast.File) []byte {
	var edits []edit
	for _, d := range f.Decls {
		r.collect(d, &edits)
	}
	if !r.used {
		return nil
	}
	edits = append(edits, edit{r.off(f.Name.End()), r.off(f.Name.End()), `; import __vs "verif/vs"`})
	out := r.apply(0, len(r.src), edits)
	var tail strings.Builder
	tail.WriteString("\n")
	var paths []string
	for path := range r.touched {
		paths = append(paths, path)
	}
	sort.Strings(paths)
	for _, path := range paths {
		if g := guards[path]; g != "" {
			i := strings.Index(g, ".")
			fmt.Fprintf(&tail, "var _ %s%s\n", r.touched[path], g[i:])
		} else if path == "crypto/rand" {
			fmt.Fprintf(&tail, "var _ = %s.Reader\n", r.touched[path])
		}
	}
	return append([]byte(out), tail.String()...)
}

func (r *rw) apply(from, to int, edits []edit) string {
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].from < edits[j].from })
	var b strings.Builder
	at := from
	for _, e := range edits {
		if e.from < at {
			r.err = errors.New("overlapping edits")
			continue
		}
		b.Write(r.src[at:e.from])
		b.WriteString(e.text)
		at = e.to
	}
	b.Write(r.src[at:to])
	return b.String()
}

// text renders n with everything inside it rewritten.
func (r *rw) text(n ast.Node) string {
	var edits []edit
	r.collect(n, &edits)
	return r.apply(r.off(n.Pos()), r.off(n.End()), edits)
}

// stmts renders the source between two positions, with the statements in it
// rewritten.
func (r *rw) stmts(list []ast.Stmt, from, to token.Pos) string {
	var edits []edit
	for _, s := range list {
		r.collect(s, &edits)
	}
	return r.apply(r.off(from), r.off(to), edits)
}

func (r *rw) collect(n ast.Node, edits *[]edit) {
	ast.Inspect(n, func(x ast.Node) bool {
		if x == nil {
			return false
		}
		if t, ok := r.rewrite(x); ok {
			r.used = true
			*edits = append(*edits, edit{r.off(x.Pos()), r.off(x.End()), t})
			return false
		}
		return true
	})
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func (r *rw) isChan(e ast.Expr) (*types.Chan, bool) {
	c, ok := under(r.info.TypeOf(e)).(*types.Chan)
	return c, ok
}

func (r *rw) isMap(e ast.Expr) bool {
	_, ok := under(r.info.TypeOf(e)).(*types.Map)
	return ok
}

func (r *rw) builtin(e ast.Expr) string {
	id, ok := e.(*ast.Ident)
	if !ok {
		return ""
	}
	if b, ok := r.info.Uses[id].(*types.Builtin); ok {
		return b.Name()
	}
	return ""
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func recvOf(e ast.Expr) (*ast.UnaryExpr, bool) {
	u, ok := unparen(e).(*ast.UnaryExpr)
	if ok && u.Op == token.ARROW {
		return u, true
	}
	return nil, false
}

func isBlank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (r *rw) rewrite(n ast.Node) (string, bool) {
	switch x := n.(type) {
	case *ast.SelectorExpr:
		id, ok := x.X.(*ast.Ident)
		if !ok {
			return "", false
		}
		pn, ok := r.info.Uses[id].(*types.PkgName)
		if !ok {
			return "", false
		}
		to, ok := redirect[pn.Imported().Path()][x.Sel.Name]
		if !ok {
			return "", false
		}
		r.touched[pn.Imported().Path()] = id.Name
		return "__vs." + to, true
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u, ok := recvOf(x.Rhs[0]); ok {
				return r.text(x.Lhs[0]) + ", " + r.text(x.Lhs[1]) + " " + x.Tok.String() + " __vs.Recv2(" + r.text(u.X) + ")", true
			}
		}
	case *ast.ValueSpec:
		if len(x.Names) == 2 && len(x.Values) == 1 {
			if u, ok := recvOf(x.Values[0]); ok {
				t := ""
				if x.Type != nil {
					t = " " + r.text(x.Type)
				}
				return x.Names[0].Name + ", " + x.Names[1].Name + t + " = __vs.Recv2(" + r.text(u.X) + ")", true
			}
		}
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return "__vs.Recv(" + r.text(x.X) + ")", true
		}
	case *ast.SendStmt:
		return "__vs.S(" + r.text(x.Chan) + ")(" + r.text(x.Value) + ")", true
	case *ast.CallExpr:
		switch r.builtin(x.Fun) {
		case "close":
			return "__vs.Close(" + r.text(x.Args[0]) + ")", true
		case "len":
			if c, ok := r.isChan(x.Args[0]); ok {
				f := "Len"
				if c.Dir() == types.SendOnly {
					f = "LenS"
				}
				return "__vs." + f + "(" + r.text(x.Args[0]) + ")", true
			}
		}
	case *ast.GoStmt:
		return r.goStmt(x), true
	case *ast.SelectStmt:
		return r.selectStmt(x), true
	case *ast.RangeStmt:
		_, isCh := r.isChan(x.X)
		if !isCh && !r.isMap(x.X) {
			return "", false
		}
		return r.rangeStmt(x, isCh), true
	}
	return "", false
}

func (r *rw) rangeStmt(x *ast.RangeStmt, isCh bool) string {
	r.n++
	it := fmt.Sprintf("__it%d", r.n)
	names := []ast.Expr{x.Key}
	f := "NewChanIter"
	if !isCh {
		names = append(names, x.Value)
		f = "NewMapIter"
	}
	var lhs, next string
	lhs = it
	for i, e := range names {
		if isBlank(e) {
			lhs += ", _"
		} else if x.Tok == token.DEFINE {
			lhs += ", " + r.text(e)
		} else {
			lhs += ", _"
		}
		if i > 0 {
			next += ", "
		}
		if isBlank(e) {
			next += "nil"
		} else {
			next += "&" + r.text(e)
		}
	}
	return "for " + lhs + " := __vs." + f + "(" + r.text(x.X) + "); " + it + ".Next(" + next + "); " + r.text(x.Body)
}

func (r *rw) goStmt(x *ast.GoStmt) string {
	c := x.Call
	if r.builtin(c.Fun) != "" {
		return "__vs.Go(func() { " + r.text(c) + " })"
	}
	if tv := r.info.Types[c.Fun]; tv.IsType() {
		return "__vs.Go(func() { " + r.text(c) + " })"
	}
	r.n++
	var pre, args []string
	var vals []string
	fun := r.text(c.Fun)
	if _, lit := unparen(c.Fun).(*ast.FuncLit); !lit {
		n := fmt.Sprintf("__gf%d", r.n)
		pre = append(pre, n)
		vals = append(vals, fun)
		fun = n
	}
	if len(c.Args) == 1 {
		if _, ok := r.info.TypeOf(c.Args[0]).(*types.Tuple); ok {
			return "__vs.Go(func() { " + r.text(c) + " })"
		}
	}
	for i, a := range c.Args {
		tv := r.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			args = append(args, r.text(a))
			continue
		}
		n := fmt.Sprintf("__ga%d_%d", r.n, i)
		pre = append(pre, n)
		vals = append(vals, r.text(a))
		args = append(args, n)
	}
	ell := ""
	if c.Ellipsis.IsValid() {
		ell = "..."
	}
	call := fun + "(" + strings.Join(args, ", ") + ell + ")"
	if len(pre) == 0 {
		return "__vs.Go(func() { " + call + " })"
	}
	return "{ " + strings.Join(pre, ", ") + " := " + strings.Join(vals, ", ") + "; __vs.Go(func() { " + call + " }) }"
}

func (r *rw) selectStmt(x *ast.SelectStmt) string {
	if len(x.Body.List) == 0 {
		return `__vs.BlockForever(); panic("unreachable")`
	}
	r.n++
	id := r.n
	var names, vals []string
	hasDef := false
	nComm := 0
	for _, s := range x.Body.List {
		if s.(*ast.CommClause).Comm == nil {
			hasDef = true
		} else {
			nComm++
		}
	}
	var body strings.Builder
	k := 0
	for i, s := range x.Body.List {
		cl := s.(*ast.CommClause)
		bodyEnd := x.Body.Rbrace
		if i+1 < len(x.Body.List) {
			bodyEnd = x.Body.List[i+1].Pos()
		}
		rest := r.stmts(cl.Body, cl.Colon+1, bodyEnd)
		if cl.Comm == nil {
			body.WriteString("default:" + rest)
			continue
		}
		name := fmt.Sprintf("__r%d_%d", id, k)
		names = append(names, name)
		head := fmt.Sprintf("case %d:", k)
		if !hasDef && k == nComm-1 {
			head = "default:"
		}
		k++
		pre := ""
		switch c := cl.Comm.(type) {
		case *ast.SendStmt:
			vals = append(vals, "__vs.NewSend("+r.text(c.Chan)+")("+r.text(c.Value)+")")
		case *ast.ExprStmt:
			u, _ := recvOf(c.X)
			vals = append(vals, "__vs.NewRecv("+r.text(u.X)+")")
		case *ast.AssignStmt:
			u, _ := recvOf(c.Rhs[0])
			vals = append(vals, "__vs.NewRecv("+r.text(u.X)+")")
			var l []string
			for _, e := range c.Lhs {
				l = append(l, r.text(e))
			}
			get := "Get"
			if len(l) == 2 {
				get = "Get2"
			}
			allBlank := true
			for _, e := range c.Lhs {
				if !isBlank(e) {
					allBlank = false
				}
			}
			tok := c.Tok.String()
			if allBlank {
				tok = "="
			}
			pre = " " + strings.Join(l, ", ") + " " + tok + " " + name + "." + get + "();"
		}
		body.WriteString(head + pre + rest)
	}
	if len(names) == 0 {
		// only a default clause
		return "switch {" + body.String() + "}"
	}
	return "switch " + strings.Join(names, ", ") + " := " + strings.Join(vals, ", ") + "; __vs.Select(" + fmt.Sprint(hasDef) + ", " + strings.Join(names, ", ") + ") {" + body.String() + "}"
}
