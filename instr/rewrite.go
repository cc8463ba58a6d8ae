package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"reflect"
	"strings"
)

// selMap maps package-qualified identifiers to simulator symbols. A trailing
// "()" means the identifier is a variable replaced by a call.
var selMap = map[string]map[string]string{
	"os": {
		"File": "OsFile", "Open": "OsOpen", "Create": "OsCreate", "OpenFile": "OsOpenFile", "Remove": "OsRemove",
		"RemoveAll": "OsRemoveAll", "Rename": "OsRename", "Exit": "OsExit", "Args": "OsArgs()", "Stdout": "OsStdout()",
		"Stderr": "OsStderr()", "Stdin": "OsStdin()", "Stat": "OsStat", "Lstat": "OsStat", "ReadFile": "OsReadFile",
		"WriteFile": "OsWriteFile", "Truncate": "OsTruncate", "Mkdir": "OsMkdir", "MkdirAll": "OsMkdirAll",
		"CreateTemp": "OsCreateTemp", "TempDir": "OsTempDir", "Getpid": "OsGetpid", "Getenv": "OsGetenv",
		"LookupEnv": "OsLookupEnv", "Environ": "OsEnviron", "Getwd": "OsGetwd", "Hostname": "OsHostname", "Getpagesize": "OsGetpagesize",
		"Chmod": "OsChmod", "Chtimes": "OsChtimes", "SameFile": "OsSameFile", "Executable": "OsExecutable", "ReadDir": "OsReadDir",
	},
	"io/ioutil":                {"ReadFile": "OsReadFile", "WriteFile": "OsWriteFile", "TempFile": "OsCreateTemp"},
	"sync":                     {"Mutex": "Mutex", "RWMutex": "RWMutex", "WaitGroup": "WaitGroup", "Once": "Once", "Pool": "Pool", "Cond": "Cond", "NewCond": "NewCond", "Map": "Map", "OnceFunc": "OnceFunc", "OnceValue": "OnceValue", "OnceValues": "OnceValues", "Locker": "Locker"},
	"context":                  {"WithCancel": "WithCancel", "WithTimeout": "WithTimeout", "WithDeadline": "WithDeadline", "WithCancelCause": "WithCancelCause", "Cause": "Cause", "AfterFunc": "CtxAfterFunc"},
	"time":                     {"Now": "TimeNow", "Since": "TimeSince", "Until": "TimeUntil", "Sleep": "TimeSleep", "After": "TimeAfter", "AfterFunc": "AfterFunc", "NewTimer": "NewTimer", "NewTicker": "NewTicker", "Tick": "TimeTick", "Timer": "Timer", "Ticker": "Ticker"},
	"runtime":                  {"NumCPU": "NumCPU", "GOMAXPROCS": "GOMAXPROCS", "Gosched": "Gosched", "NumGoroutine": "NumGoroutine", "GC": "GC", "SetFinalizer": "SetFinalizer", "Goexit": "Goexit", "LockOSThread": "LockOSThread", "UnlockOSThread": "UnlockOSThread"},
	"fmt":                      {"Print": "FmtPrint", "Printf": "FmtPrintf", "Println": "FmtPrintln"},
	"log":                      {"Print": "LogPrint", "Printf": "LogPrintf", "Println": "LogPrintln", "Fatal": "LogFatal", "Fatalf": "LogFatalf", "Fatalln": "LogFatalln", "Panic": "LogPanic", "Panicf": "LogPanicf", "Panicln": "LogPanicln", "SetFlags": "LogSetFlags", "SetPrefix": "LogSetPrefix", "SetOutput": "LogSetOutput", "New": "LogNew", "Default": "LogDefault", "Logger": "LogLogger"},
	"math/rand":                {"Int": "RandInt", "Intn": "RandIntn", "Int63": "RandInt63", "Int63n": "RandInt63n", "Int31": "RandInt31", "Int31n": "RandInt31n", "Uint32": "RandUint32", "Uint64": "RandUint64", "Float64": "RandFloat64", "Seed": "RandSeed", "Shuffle": "RandShuffle", "Perm": "RandPerm"},
	"math/rand/v2":             {"Int": "RandInt", "IntN": "RandIntn", "Int64": "RandInt63", "Int64N": "RandInt63n", "Uint32": "RandUint32", "Uint64": "RandUint64", "Float64": "RandFloat64", "Shuffle": "RandShuffle", "Perm": "RandPerm"},
	"path/filepath":            {"Abs": "PathAbs", "Glob": "PathGlob"},
	"os/signal":                {"Notify": "SignalNotify", "Stop": "SignalStop", "Ignore": "SignalIgnore", "NotifyContext": "NotifyContext"},
	"runtime/pprof":            {"Lookup": "PprofLookup", "StartCPUProfile": "PprofStart", "StopCPUProfile": "PprofStop", "WriteHeapProfile": "PprofHeap", "Profile": "Profile"},
	"github.com/dterei/gotsc":  {"BenchStart": "BenchStart", "BenchEnd": "BenchEnd", "TSCOverhead": "TSCOverhead"},
	"github.com/gdamore/tcell": {"NewScreen": "NewScreen", "NewTerminfoScreen": "NewScreen", "NewConsoleScreen": "NewScreen"},
}

func init() {
	m := map[string]string{}
	for _, op := range []string{"Load", "Store", "Swap", "Add", "CompareAndSwap"} {
		for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
			m[op+t] = "Atomic" + op + t
		}
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Bool", "Pointer", "Value"} {
		m[t] = "Atomic" + t
	}
	selMap["sync/atomic"] = m
}

// denied packages: any function or variable not mapped above (or allowed here)
// would escape the simulator.
var deny = map[string]map[string]bool{
	"os":        set("IsNotExist IsExist IsPermission IsTimeout IsPathSeparator NewSyscallError Expand ErrNotExist ErrExist ErrPermission ErrInvalid ErrClosed ErrDeadlineExceeded ErrProcessDone Interrupt Kill DevNull"),
	"io/ioutil": set("ReadAll Discard NopCloser"),
	"os/exec":   {}, "os/signal": {}, "os/user": {}, "net": {}, "net/http": {}, "syscall": {}, "plugin": {},
	"log": set("Flags LstdFlags Lshortfile Lmicroseconds"), "crypto/rand": {}, "golang.org/x/sys/unix": {},
	"path/filepath":           set("Base Clean Dir Ext FromSlash IsAbs IsLocal Join Match Rel Split SplitList ToSlash VolumeName SkipDir SkipAll ErrBadPattern"),
	"context":                 set("Background TODO WithValue WithoutCancel Canceled DeadlineExceeded"),
	"time":                    set("Unix UnixMilli UnixMicro Date Parse ParseDuration ParseInLocation LoadLocation FixedZone UTC Local"),
	"sync":                    set(""),
	"sync/atomic":             set(""),
	"math/rand/v2":            set("New NewPCG NewChaCha8 NewZipf"),
	"math/rand":               set("New NewSource NewZipf"),
	"fmt":                     set("Sprint Sprintf Sprintln Fprint Fprintf Fprintln Errorf Append Appendf Appendln Sscan Sscanf Sscanln Fscan Fscanf Fscanln FormatString"),
	"github.com/dterei/gotsc": {},
}

func set(s string) map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields(s) {
		m[w] = true
	}
	return m
}

var exprT = reflect.TypeOf((*ast.Expr)(nil)).Elem()
var stmtT = reflect.TypeOf((*ast.Stmt)(nil)).Elem()

// clearPos is the identity: printing with an empty FileSet ignores positions.
func clearPos(d ast.Decl) ast.Decl { return d }

func (x *pkgX) decl(d ast.Decl) ast.Decl {
	if x.captured == nil {
		x.analyse()
	}
	switch d := d.(type) {
	case *ast.FuncDecl:
		if d.Recv != nil {
			x.fields(d.Recv)
		}
		x.funcType(d.Type)
		if d.Body != nil {
			x.fn = append(x.fn, d)
			d.Body.List = x.stmts(d.Body.List)
			x.fn = x.fn[:len(x.fn)-1]
		} else {
			die("%s: function without body", x.pos(d))
		}
		if d.Recv == nil && d.Name.Name == "init" {
			nm := fmt.Sprintf("zinit_%d", len(x.inits)+1)
			d.Name = ast.NewIdent(nm)
			x.inits = append(x.inits, nm)
		}
		if d.Recv == nil && d.Name.Name == "main" && x.isMain {
			d.Name = ast.NewIdent("ZMain")
		}
		return d
	case *ast.GenDecl:
		if d.Tok == token.IMPORT {
			return d
		}
		for _, s := range d.Specs {
			x.spec(s)
		}
		return d
	}
	return d
}

func (x *pkgX) spec(s ast.Spec) {
	switch s := s.(type) {
	case *ast.ValueSpec:
		if s.Type != nil {
			s.Type = x.expr(s.Type)
		}
		if len(s.Names) == 2 && len(s.Values) == 1 {
			if u, ok := ast.Unparen(s.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				s.Values[0] = call(x.z("Recv2"), x.expr(u.X))
				return
			}
		}
		for i, v := range s.Values {
			n := x.expr(v)
			x.replaced[v] = n
			s.Values[i] = n
		}
	case *ast.TypeSpec:
		if s.TypeParams != nil {
			x.fields(s.TypeParams)
		}
		s.Type = x.expr(s.Type)
	}
}

func (x *pkgX) funcType(t *ast.FuncType) {
	if t.TypeParams != nil {
		x.fields(t.TypeParams)
	}
	if t.Params != nil {
		x.fields(t.Params)
	}
	if t.Results != nil {
		x.fields(t.Results)
	}
}

func (x *pkgX) fields(f *ast.FieldList) {
	for _, fl := range f.List {
		fl.Type = x.expr(fl.Type)
	}
}

// analyse finds local variables other goroutines may reach.
func (x *pkgX) analyse() {
	x.captured = map[types.Object]bool{}
	x.replaced = map[ast.Expr]ast.Expr{}
	for _, f := range x.files {
		var stack []*ast.FuncLit
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncLit:
				stack = append(stack, n)
				ast.Inspect(n.Body, func(m ast.Node) bool {
					if id, ok := m.(*ast.Ident); ok {
						if v, ok := x.info.Uses[id].(*types.Var); ok && !v.IsField() {
							if v.Pos() < n.Pos() || v.Pos() >= n.End() {
								x.captured[v] = true
							}
						}
					}
					return true
				})
			case *ast.UnaryExpr:
				if n.Op == token.AND {
					e := ast.Unparen(n.X)
					for {
						if s, ok := e.(*ast.SelectorExpr); ok {
							e = ast.Unparen(s.X)
							continue
						}
						break
					}
					if id, ok := e.(*ast.Ident); ok {
						if v, ok := x.info.Uses[id].(*types.Var); ok {
							x.captured[v] = true
						}
					}
				}
			}
			return true
		})
	}
}

func (x *pkgX) typeOf(e ast.Expr) types.Type {
	if tv, ok := x.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := x.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func isChan(t types.Type) *types.Chan {
	c, _ := under(t).(*types.Chan)
	return c
}

// touches reports whether evaluating n (not descending into function literals)
// accesses memory another goroutine may access.
func (x *pkgX) touches(n ast.Node) bool {
	if n == nil || reflect.ValueOf(n).IsNil() {
		return false
	}
	found := false
	ast.Inspect(n, func(m ast.Node) bool {
		if found {
			return false
		}
		switch m := m.(type) {
		case *ast.FuncLit:
			return false
		case *ast.BlockStmt:
			return false
		case *ast.Ident:
			if v, ok := x.info.Uses[m].(*types.Var); ok && !v.IsField() {
				if v.Parent() == x.pkg.Scope() || x.captured[v] {
					found = true
				}
			}
		case *ast.StarExpr:
			if tv, ok := x.info.Types[m]; ok && tv.IsValue() {
				found = true
			}
		case *ast.SelectorExpr:
			if s, ok := x.info.Selections[m]; ok && s.Kind() == types.FieldVal {
				if s.Indirect() {
					found = true
				} else if _, ok := under(x.typeOf(m.X)).(*types.Pointer); ok {
					found = true
				}
			} else if id, ok := m.X.(*ast.Ident); ok {
				if _, isPkg := x.info.Uses[id].(*types.PkgName); isPkg {
					if v, ok := x.info.Uses[m.Sel].(*types.Var); ok && v.Pkg() != nil && strings.HasPrefix(v.Pkg().Path(), modPath) {
						found = true
					}
				}
			}
		case *ast.IndexExpr:
			switch under(x.typeOf(m.X)).(type) {
			case *types.Slice, *types.Map, *types.Pointer:
				found = true
			}
		}
		return !found
	})
	return found
}

func hasCall(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(m ast.Node) bool {
		switch m := m.(type) {
		case *ast.CallExpr:
			found = true
		case *ast.UnaryExpr:
			if m.Op == token.ARROW {
				found = true
			}
		case *ast.FuncLit:
			return false
		}
		return !found
	})
	return found
}

func (x *pkgX) yield() ast.Stmt { return &ast.ExprStmt{X: call(x.z("Y"))} }

func (x *pkgX) stmts(list []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range list {
		out = append(out, x.stmt(s)...)
	}
	return out
}

// head lists the expressions/statements evaluated directly by s.
func head(s ast.Stmt) []ast.Node {
	switch s := s.(type) {
	case *ast.IfStmt:
		return []ast.Node{s.Init, s.Cond}
	case *ast.SwitchStmt:
		return []ast.Node{s.Init, s.Tag}
	case *ast.TypeSwitchStmt:
		return []ast.Node{s.Init, s.Assign}
	case *ast.ForStmt:
		return []ast.Node{s.Init, s.Cond}
	case *ast.RangeStmt:
		return []ast.Node{s.X}
	case *ast.BlockStmt, *ast.SelectStmt, *ast.LabeledStmt, *ast.BranchStmt, *ast.EmptyStmt:
		return nil
	}
	return []ast.Node{s}
}

func (x *pkgX) stmt(s ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	if !x.isViews {
		for _, h := range head(s) {
			if h == nil || reflect.ValueOf(h).IsNil() {
				continue
			}
			if x.touches(h) {
				out = append(out, x.yield())
				break
			}
		}
	}
	return append(out, x.stmt1(s, nil)...)
}

func lab(l *ast.Ident, s ast.Stmt) ast.Stmt {
	if l == nil {
		return s
	}
	return &ast.LabeledStmt{Label: l, Stmt: s}
}

// simple rewrites a simple statement in a header position (no added statements).
func (x *pkgX) simple(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	r := x.stmt1(s, nil)
	if len(r) != 1 {
		return s
	}
	if b, ok := r[0].(*ast.BlockStmt); ok {
		die("%s: cannot rewrite statement in header position (%T)", x.pos(s), b)
	}
	return r[0]
}

func (x *pkgX) body(b *ast.BlockStmt, pre ...ast.Stmt) *ast.BlockStmt {
	l := append([]ast.Stmt(nil), pre...)
	if !x.isViews {
		l = append(l, x.yield())
	}
	b.List = append(l, x.stmts(b.List)...)
	return b
}

func (x *pkgX) stmt1(s ast.Stmt, label *ast.Ident) []ast.Stmt {
	one := func(n ast.Stmt) []ast.Stmt { return []ast.Stmt{lab(label, n)} }
	switch s := s.(type) {
	case *ast.LabeledStmt:
		switch s.Stmt.(type) {
		case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
			return x.stmt1(s.Stmt, s.Label)
		}
		r := []ast.Stmt{&ast.LabeledStmt{Label: s.Label, Stmt: x.yield()}}
		if _, ok := s.Stmt.(*ast.EmptyStmt); ok {
			return r
		}
		return append(r, x.stmt(s.Stmt)...)
	case *ast.BlockStmt:
		s.List = x.stmts(s.List)
		return one(s)
	case *ast.IfStmt:
		s.Init = x.simpleH(s.Init)
		s.Cond = x.expr(s.Cond)
		s.Body.List = x.stmts(s.Body.List)
		if s.Else != nil {
			r := x.stmt1(s.Else, nil)
			if len(r) == 1 {
				if _, ok := r[0].(*ast.IfStmt); ok {
					s.Else = r[0]
					return one(s)
				}
				if b, ok := r[0].(*ast.BlockStmt); ok {
					s.Else = b
					return one(s)
				}
			}
			s.Else = &ast.BlockStmt{List: r}
		}
		return one(s)
	case *ast.ForStmt:
		s.Init = x.simpleH(s.Init)
		if s.Cond != nil {
			s.Cond = x.expr(s.Cond)
		}
		s.Post = x.simpleH(s.Post)
		x.body(s.Body)
		return one(s)
	case *ast.RangeStmt:
		return x.rangeStmt(s, label)
	case *ast.SwitchStmt:
		s.Init = x.simpleH(s.Init)
		if s.Tag != nil {
			s.Tag = x.expr(s.Tag)
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			for i := range cc.List {
				cc.List[i] = x.expr(cc.List[i])
			}
			cc.Body = x.stmts(cc.Body)
		}
		return one(s)
	case *ast.TypeSwitchStmt:
		s.Init = x.simpleH(s.Init)
		s.Assign = x.simpleH(s.Assign)
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			for i := range cc.List {
				cc.List[i] = x.expr(cc.List[i])
			}
			cc.Body = x.stmts(cc.Body)
		}
		return one(s)
	case *ast.SelectStmt:
		return x.selectStmt(s, label)
	case *ast.GoStmt:
		return x.goStmt(s)
	case *ast.DeferStmt:
		s.Call = x.callStmt(s.Call)
		// registered last, so it runs right before the deferred call
		return []ast.Stmt{s, &ast.DeferStmt{Call: call(x.z("PanicCheck"))}}
	case *ast.SendStmt:
		return one(&ast.ExprStmt{X: call(call(x.z("Send"), x.expr(s.Chan)), x.expr(s.Value))})
	case *ast.ExprStmt:
		s.X = x.expr(s.X)
		return one(s)
	case *ast.ReturnStmt:
		for i := range s.Results {
			s.Results[i] = x.expr(s.Results[i])
		}
		return one(s)
	case *ast.DeclStmt:
		for _, sp := range s.Decl.(*ast.GenDecl).Specs {
			x.spec(sp)
		}
		return one(s)
	case *ast.IncDecStmt:
		split := !x.inHeader && !x.isViews && x.touches(s.X) && !hasCall(s.X)
		s.X = x.lhs(s.X)
		if split {
			op := token.ADD
			if s.Tok == token.DEC {
				op = token.SUB
			}
			t := x.newTmp("t")
			return one(&ast.BlockStmt{List: []ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{s.X}},
				x.yield(),
				&ast.AssignStmt{Lhs: []ast.Expr{s.X}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: t, Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}}},
			}})
		}
		return one(s)
	case *ast.AssignStmt:
		return x.assign(s, label)
	}
	return one(s)
}

func (x *pkgX) simpleH(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	old := x.inHeader
	x.inHeader = true
	r := x.simple(s)
	x.inHeader = old
	return r
}

func (x *pkgX) assign(s *ast.AssignStmt, label *ast.Ident) []ast.Stmt {
	one := func(n ast.Stmt) []ast.Stmt { return []ast.Stmt{lab(label, n)} }
	// v, ok = <-ch
	if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
		if u, ok := ast.Unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			s.Rhs[0] = call(x.z("Recv2"), x.expr(u.X))
			for i := range s.Lhs {
				s.Lhs[i] = x.lhs(s.Lhs[i])
			}
			return one(s)
		}
	}
	split := ""
	var lt types.Type
	if len(s.Lhs) == 1 && len(s.Rhs) == 1 && !x.inHeader && !x.isViews && s.Tok != token.DEFINE {
		l, r := s.Lhs[0], s.Rhs[0]
		lt = x.typeOf(l)
		if id, ok := l.(*ast.Ident); ok && id.Name == "_" {
			// no memory
		} else if x.touches(l) && !hasCall(l) {
			if s.Tok == token.ASSIGN {
				tv := x.info.Types[r]
				if x.touches(r) && tv.Value == nil && !tv.IsNil() && tv.Type != nil {
					b, isB := tv.Type.Underlying().(*types.Basic)
					if !(isB && b.Info()&types.IsUntyped != 0) && !(isB && b.Kind() == types.Bool) {
						split = "assign"
					}
				}
			} else if !hasCall(r) {
				split = "op"
			}
		}
	}
	for i := range s.Rhs {
		s.Rhs[i] = x.expr(s.Rhs[i])
	}
	for i := range s.Lhs {
		s.Lhs[i] = x.lhs(s.Lhs[i])
	}
	_ = lt
	switch split {
	case "assign":
		t := x.newTmp("t")
		return one(&ast.BlockStmt{List: []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: s.Rhs},
			x.yield(),
			&ast.AssignStmt{Lhs: s.Lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{t}},
		}})
	case "op":
		t := x.newTmp("t")
		op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
			token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR,
			token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}[s.Tok]
		return one(&ast.BlockStmt{List: []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{s.Lhs[0]}},
			x.yield(),
			&ast.AssignStmt{Lhs: s.Lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: t, Op: op, Y: &ast.ParenExpr{X: s.Rhs[0]}}}},
		}})
	}
	return one(s)
}

func ptrLike(t types.Type, d int) bool {
	if d > 4 {
		return true
	}
	switch u := under(t).(type) {
	case *types.Pointer, *types.Interface, *types.Chan:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if ptrLike(u.Field(i).Type(), d+1) {
				return true
			}
		}
	case *types.Array:
		return ptrLike(u.Elem(), d+1)
	}
	return false
}

// mem puts a note of an access around a map, with -race.
func (x *pkgX) mem(f string, e ast.Expr) ast.Expr {
	if !*race {
		return e
	}
	return call(x.z(f), e)
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func sliceElem(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

// lhs rewrites an assignment target; keys stored in maps get a stable identity.
func (x *pkgX) lhs(e ast.Expr) ast.Expr {
	if ix, ok := e.(*ast.IndexExpr); ok {
		if m, ok := under(x.typeOf(ix.X)).(*types.Map); ok && ptrLike(m.Key(), 0) && !x.isViews {
			k := x.expr(ix.Index)
			ix.X = x.mem("MW", x.expr(ix.X))
			ix.Index = call(x.z("KeySet"), k)
			return ix
		} else if ok {
			ix.Index = x.expr(ix.Index)
			ix.X = x.mem("MW", x.expr(ix.X))
			return ix
		}
	}
	return x.expr(e)
}

func (x *pkgX) rangeStmt(s *ast.RangeStmt, label *ast.Ident) []ast.Stmt {
	t := x.typeOf(s.X)
	if isChan(t) != nil {
		ch := x.newTmp("c")
		ok := x.newTmp("o")
		def := &ast.AssignStmt{Lhs: []ast.Expr{ch}, Tok: token.DEFINE, Rhs: []ast.Expr{x.expr(s.X)}}
		key := s.Key
		defs := []ast.Stmt{def}
		var pre []ast.Stmt
		okDef := &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ok}, Type: ast.NewIdent("bool")}}}}
		defs = append(defs, okDef)
		var dst ast.Expr = ast.NewIdent("_")
		if key != nil && !isBlank(key) {
			if s.Tok == token.DEFINE {
				// one variable for the whole loop, as in the module's language version
				defs = append(defs, &ast.AssignStmt{Lhs: []ast.Expr{key}, Tok: token.DEFINE, Rhs: []ast.Expr{call(x.z("ZeroR"), ch)}},
					&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{key}})
				dst = x.newTmp("v")
				pre = append(pre, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{dst.(*ast.Ident)}, Values: []ast.Expr{call(x.z("ZeroR"), ch)}}}}})
			} else {
				dst = x.newTmp("v")
				pre = append(pre, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{dst.(*ast.Ident)}, Values: []ast.Expr{call(x.z("ZeroR"), ch)}}}}})
			}
		}
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{dst, ok}, Tok: token.ASSIGN, Rhs: []ast.Expr{call(x.z("Recv2"), ch)}})
		pre = append(pre, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}})
		if key != nil && !isBlank(key) {
			l := key
			if s.Tok != token.DEFINE {
				l = x.lhs(key)
			}
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: token.ASSIGN, Rhs: []ast.Expr{dst}})
		}
		body := &ast.BlockStmt{List: x.stmts(s.Body.List)}
		// the loop variable may be redeclared in the body: keep the body in its own scope
		pre = append(pre, x.yieldIf()...)
		f := &ast.ForStmt{Body: &ast.BlockStmt{List: append(pre, body)}}
		return []ast.Stmt{&ast.BlockStmt{List: append(defs, lab(label, f))}}
	}
	if _, ok := under(t).(*types.Map); ok {
		m := x.newTmp("m")
		def := &ast.AssignStmt{Lhs: []ast.Expr{m}, Tok: token.DEFINE, Rhs: []ast.Expr{x.expr(s.X)}}
		k, v, ok := x.newTmp("k"), x.newTmp("v"), x.newTmp("o")
		var vl ast.Expr = ast.NewIdent("_")
		useV := s.Value != nil && !isBlank(s.Value)
		if useV {
			vl = v
		}
		pre := []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{vl, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: m, Index: k}}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}},
		}
		defs := []ast.Stmt{def}
		asg := func(dst ast.Expr, src ast.Expr, zero string) {
			if s.Tok == token.DEFINE {
				defs = append(defs, &ast.AssignStmt{Lhs: []ast.Expr{dst}, Tok: token.DEFINE, Rhs: []ast.Expr{call(x.z(zero), m)}},
					&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{dst}})
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{dst}, Tok: token.ASSIGN, Rhs: []ast.Expr{src}})
			} else {
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{x.lhs(dst)}, Tok: token.ASSIGN, Rhs: []ast.Expr{src}})
			}
		}
		if s.Key != nil && !isBlank(s.Key) {
			asg(s.Key, k, "ZeroK")
		}
		if useV {
			asg(s.Value, v, "ZeroV")
		}
		pre = append(pre, x.yieldIf()...)
		body := &ast.BlockStmt{List: x.stmts(s.Body.List)}
		f := &ast.RangeStmt{Key: ast.NewIdent("_"), Value: k, Tok: token.DEFINE, X: call(x.z("MapKeys"), m), Body: &ast.BlockStmt{List: append(pre, body)}}
		return []ast.Stmt{&ast.BlockStmt{List: append(defs, lab(label, f))}}
	}
	if s.Key != nil {
		s.Key = x.lhs(s.Key)
	}
	if s.Value != nil {
		s.Value = x.lhs(s.Value)
	}
	s.X = x.expr(s.X)
	x.body(s.Body)
	return []ast.Stmt{lab(label, s)}
}

func (x *pkgX) yieldIf() []ast.Stmt {
	if x.isViews {
		return nil
	}
	return []ast.Stmt{x.yield()}
}

func isBlank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (x *pkgX) selectStmt(s *ast.SelectStmt, label *ast.Ident) []ast.Stmt {
	var pre []ast.Stmt
	sel := x.newTmp("s")
	hasDef := "false"
	var args []ast.Expr
	var clauses []ast.Stmt
	n := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = "true"
			clauses = append(clauses, &ast.CaseClause{List: nil, Body: x.stmts(cc.Body)})
			continue
		}
		idx := &ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(n)}
		n++
		ch := x.newTmp("c")
		var bodyPre []ast.Stmt
		recv := func(u *ast.UnaryExpr) {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ch}, Tok: token.DEFINE, Rhs: []ast.Expr{x.expr(u.X)}})
			args = append(args, call(x.z("RecvCase"), ch))
		}
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ch}, Tok: token.DEFINE, Rhs: []ast.Expr{
				call(call(x.z("SendCase"), x.expr(cm.Chan)), x.expr(cm.Value))}})
			args = append(args, ch)
		case *ast.ExprStmt:
			recv(ast.Unparen(cm.X).(*ast.UnaryExpr))
		case *ast.AssignStmt:
			recv(ast.Unparen(cm.Rhs[0]).(*ast.UnaryExpr))
			f := "SelVal"
			if len(cm.Lhs) == 2 {
				f = "SelVal2"
			}
			var lhs []ast.Expr
			for _, l := range cm.Lhs {
				if cm.Tok == token.DEFINE {
					lhs = append(lhs, l)
				} else {
					lhs = append(lhs, x.lhs(l))
				}
			}
			tok := cm.Tok
			allBlank := true
			for _, l := range lhs {
				if !isBlank(l) {
					allBlank = false
				}
			}
			if allBlank {
				tok = token.ASSIGN
			}
			bodyPre = append(bodyPre, &ast.AssignStmt{Lhs: lhs, Tok: tok, Rhs: []ast.Expr{call(x.z(f), ch, sel)}})
			if tok == token.DEFINE {
				for _, l := range lhs {
					if !isBlank(l) {
						bodyPre = append(bodyPre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{l}})
					}
				}
			}
		}
		body := x.stmts(cc.Body)
		if len(bodyPre) > 0 {
			body = append(bodyPre, &ast.BlockStmt{List: body})
		}
		clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{idx}, Body: body})
	}
	pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{sel}, Tok: token.DEFINE, Rhs: []ast.Expr{
		call(x.z("Select"), append([]ast.Expr{ast.NewIdent(hasDef)}, args...)...)}})
	if hasDef == "false" {
		// a blocking select never falls through: keep "missing return" analysis happy
		clauses = append(clauses, &ast.CaseClause{List: nil, Body: []ast.Stmt{&ast.ExprStmt{X: call(ast.NewIdent("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"zsim: select"`})}}})
	}
	sw := &ast.SwitchStmt{Tag: &ast.SelectorExpr{X: sel, Sel: ast.NewIdent("I")}, Body: &ast.BlockStmt{List: clauses}}
	return []ast.Stmt{&ast.BlockStmt{List: append(pre, lab(label, sw))}}
}

func (x *pkgX) callStmt(c *ast.CallExpr) *ast.CallExpr {
	e := x.expr(c)
	if r, ok := e.(*ast.CallExpr); ok {
		return r
	}
	die("%s: cannot rewrite deferred call", x.pos(c))
	return nil
}

func (x *pkgX) goStmt(s *ast.GoStmt) []ast.Stmt {
	c := s.Call
	wrap := func(body ...ast.Stmt) *ast.FuncLit {
		return &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}}
	}
	if lit, ok := ast.Unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 && (lit.Type.Results == nil || len(lit.Type.Results.List) == 0) {
		return []ast.Stmt{&ast.ExprStmt{X: call(x.z("Go"), x.expr(lit))}}
	}
	var pre []ast.Stmt
	var fun ast.Expr
	isBuiltin := false
	if tv, ok := x.info.Types[c.Fun]; ok && tv.IsBuiltin() {
		isBuiltin = true
	}
	hoist := func(e ast.Expr) ast.Expr {
		tv := x.info.Types[e]
		if tv.Value != nil || tv.IsNil() {
			return x.expr(e)
		}
		if _, ok := ast.Unparen(e).(*ast.FuncLit); ok {
			return x.expr(e)
		}
		t := x.newTmp("g")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{x.expr(e)}})
		return t
	}
	if isBuiltin {
		args := make([]ast.Expr, len(c.Args))
		for i, a := range c.Args {
			args[i] = hoist(a)
		}
		if id, ok := ast.Unparen(c.Fun).(*ast.Ident); ok && id.Name == "close" {
			pre = append(pre, &ast.ExprStmt{X: call(x.z("Go"), wrap(&ast.ExprStmt{X: call(x.z("Close"), args...)}))})
			return []ast.Stmt{&ast.BlockStmt{List: pre}}
		}
		pre = append(pre, &ast.ExprStmt{X: call(x.z("Go"), wrap(&ast.ExprStmt{X: call(c.Fun, args...)}))})
		return []ast.Stmt{&ast.BlockStmt{List: pre}}
	}
	t := x.newTmp("g")
	pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{x.expr(c.Fun)}})
	fun = t
	var args []ast.Expr
	for _, a := range c.Args {
		args = append(args, hoist(a))
	}
	nc := &ast.CallExpr{Fun: fun, Args: args, Ellipsis: c.Ellipsis}
	pre = append(pre, &ast.ExprStmt{X: call(x.z("Go"), wrap(&ast.ExprStmt{X: nc}))})
	return []ast.Stmt{&ast.BlockStmt{List: pre}}
}

func (x *pkgX) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	switch e := e.(type) {
	case *ast.SelectorExpr:
		if id, ok := e.X.(*ast.Ident); ok {
			if pn, ok := x.info.Uses[id].(*types.PkgName); ok {
				return x.qualified(e, pn)
			}
		}
		e.X = x.expr(e.X)
		return e
	case *ast.FuncLit:
		x.funcType(e.Type)
		x.fn = append(x.fn, e)
		old := x.inHeader
		x.inHeader = false
		e.Body.List = x.stmts(e.Body.List)
		x.inHeader = old
		x.fn = x.fn[:len(x.fn)-1]
		return e
	case *ast.FuncType:
		x.funcType(e)
		return e
	case *ast.StructType:
		x.fields(e.Fields)
		return e
	case *ast.InterfaceType:
		x.fields(e.Methods)
		return e
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			return call(x.z("Recv"), x.expr(e.X))
		}
		e.X = x.expr(e.X)
		return e
	case *ast.CallExpr:
		if tv, ok := x.info.Types[e.Fun]; ok && tv.IsBuiltin() {
			if id, ok := ast.Unparen(e.Fun).(*ast.Ident); ok {
				switch id.Name {
				case "close":
					return call(x.z("Close"), x.expr(e.Args[0]))
				case "recover":
					return call(x.z("Recovered"), e)
				case "len":
					if c := isChan(x.typeOf(e.Args[0])); c != nil {
						if c.Dir() == types.SendOnly {
							return call(x.z("LenS"), x.expr(e.Args[0]))
						}
						return call(x.z("LenR"), x.expr(e.Args[0]))
					}
					if isMap(x.typeOf(e.Args[0])) {
						e.Args[0] = x.mem("MR", x.expr(e.Args[0]))
						return e
					}
				case "delete", "clear":
					w := isMap(x.typeOf(e.Args[0]))
					for i := range e.Args {
						e.Args[i] = x.expr(e.Args[i])
					}
					if w {
						e.Args[0] = x.mem("MW", e.Args[0])
					}
					return e
				case "copy":
					a, b := sliceElem(x.typeOf(e.Args[0])), sliceElem(x.typeOf(e.Args[1]))
					if *race && a != nil && b != nil {
						return call(x.z("Copy"), x.expr(e.Args[0]), x.expr(e.Args[1]))
					}
				case "append":
					if *race && e.Ellipsis.IsValid() && len(e.Args) == 2 && sliceElem(x.typeOf(e.Args[0])) != nil && sliceElem(x.typeOf(e.Args[1])) != nil {
						return call(x.z("Append"), x.expr(e.Args[0]), x.expr(e.Args[1]))
					}
				}
			}
		}
		io := ""
		if sel, ok := e.Fun.(*ast.SelectorExpr); ok && *race {
			// readers and writers that are not compiled with the code
			// under test use the buffers they are given
			switch sel.Sel.Name {
			case "Read", "ReadAt", "ReadFull", "ReadAtLeast":
				io = "BufW"
			case "Write", "WriteAt":
				io = "BufR"
			}
		}
		e.Fun = x.expr(e.Fun)
		for i := range e.Args {
			t := x.typeOf(e.Args[i])
			e.Args[i] = x.expr(e.Args[i])
			if el := sliceElem(t); io != "" && el != nil {
				if b, ok := el.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
					e.Args[i] = call(x.z(io), e.Args[i])
				}
			}
		}
		return e
	case *ast.IndexExpr:
		w := isMap(x.typeOf(e.X))
		e.X, e.Index = x.expr(e.X), x.expr(e.Index)
		if w {
			e.X = x.mem("MR", e.X)
		}
		return e
	case *ast.KeyValueExpr:
		// struct field names must not be touched, map keys must
		if id, ok := e.Key.(*ast.Ident); ok {
			if v, ok := x.info.Uses[id].(*types.Var); ok && v.IsField() {
				e.Value = x.expr(e.Value)
				return e
			}
		}
		e.Key = x.expr(e.Key)
		e.Value = x.expr(e.Value)
		return e
	}
	// generic: rewrite every expression field
	v := reflect.ValueOf(e).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		switch {
		case f.Type() == exprT:
			if !f.IsNil() {
				f.Set(reflect.ValueOf(x.expr(f.Interface().(ast.Expr))))
			}
		case f.Kind() == reflect.Slice && f.Type().Elem() == exprT:
			for j := 0; j < f.Len(); j++ {
				if !f.Index(j).IsNil() {
					f.Index(j).Set(reflect.ValueOf(x.expr(f.Index(j).Interface().(ast.Expr))))
				}
			}
		}
	}
	return e
}

func (x *pkgX) qualified(e *ast.SelectorExpr, pn *types.PkgName) ast.Expr {
	path := pn.Imported().Path()
	if m, ok := selMap[path]; ok {
		if z, ok := m[e.Sel.Name]; ok {
			if strings.HasSuffix(z, "()") {
				return call(x.z(strings.TrimSuffix(z, "()")))
			}
			return x.z(z)
		}
	}
	if allow, ok := deny[path]; ok {
		switch o := x.info.Uses[e.Sel].(type) {
		case *types.Func, *types.Var:
			if !allow[o.Name()] {
				die("%s: %s.%s is not simulated", x.pos(e), path, o.Name())
			}
		}
	}
	return e
}
