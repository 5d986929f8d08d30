// instr writes an instrumented copy of the Go packages of the repository and an
// overlay file for "go build -overlay". The copies are the current sources with
//   - a call of the yield hook before statements (schedule amplification), and
//   - a prologue in the hash functions which lets keys of a special form choose
//     their hash and conflict value. INSTR_HASHTOP: in the functions of whole keys,
//     not in those of bytes.
//
// Nothing is written into the repository. The prologue does nothing for ordinary keys.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	off  int
	text string
}

const hashPrologue = `if vh, vc, ok := verifHashOf(%s); ok { _ = vc; return %s }; `

// Stand-ins for sync and trylock. A scheduler of the driver decides who runs, so a
// goroutine that has to wait for a lock gives control back instead of blocking the thread.
const syncShim = `package verifsync

import (
	"sync"
	"sync/atomic"
)

// Block is called while a lock is not free. nil: ordinary locks.
var Block func()

type (
	Locker    = sync.Locker
	WaitGroup = sync.WaitGroup
	Once      = sync.Once
	Pool      = sync.Pool
	Map       = sync.Map
)

func NewCond(l Locker) *Cond { return &Cond{L: l} }

type Cond struct {
	L    Locker
	once sync.Once
	c    *sync.Cond
	next int64 // waiting calls so far
	woke int64 // those which may go on
}

func (c *Cond) in() *sync.Cond {
	c.once.Do(func() { c.c = sync.NewCond(c.L) })
	return c.c
}

func (c *Cond) Wait() {
	t := atomic.AddInt64(&c.next, 1)
	if b := Block; b != nil {
		c.L.Unlock()
		for atomic.LoadInt64(&c.woke) < t {
			b()
		}
		c.L.Lock()
		return
	}
	c.in().Wait()
}

func (c *Cond) Signal() {
	for {
		w := atomic.LoadInt64(&c.woke)
		if w >= atomic.LoadInt64(&c.next) || atomic.CompareAndSwapInt64(&c.woke, w, w+1) {
			break
		}
	}
	c.in().Signal()
}

func (c *Cond) Broadcast() {
	for {
		w, n := atomic.LoadInt64(&c.woke), atomic.LoadInt64(&c.next)
		if w >= n || atomic.CompareAndSwapInt64(&c.woke, w, n) {
			break
		}
	}
	c.in().Broadcast()
}

func OnceFunc(f func()) func() { return sync.OnceFunc(f) }

type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock() {
	if b := Block; b != nil {
		for !m.mu.TryLock() {
			b()
		}
		return
	}
	m.mu.Lock()
}

func (m *Mutex) TryLock() bool { return m.mu.TryLock() }

func (m *Mutex) Unlock() { m.mu.Unlock() }

// RWMutex lets no reader in while a writer waits, as sync.RWMutex.
type RWMutex struct {
	mu   sync.RWMutex
	wait int32
}

func (m *RWMutex) Lock() {
	if b := Block; b != nil {
		if m.mu.TryLock() {
			return
		}
		atomic.AddInt32(&m.wait, 1)
		for !m.mu.TryLock() {
			b()
		}
		atomic.AddInt32(&m.wait, -1)
		return
	}
	m.mu.Lock()
}

func (m *RWMutex) RLock() {
	if b := Block; b != nil {
		for atomic.LoadInt32(&m.wait) > 0 || !m.mu.TryRLock() {
			b()
		}
		return
	}
	m.mu.RLock()
}

func (m *RWMutex) TryLock() bool { return m.mu.TryLock() }

func (m *RWMutex) TryRLock() bool { return atomic.LoadInt32(&m.wait) == 0 && m.mu.TryRLock() }

func (m *RWMutex) Unlock() { m.mu.Unlock() }

func (m *RWMutex) RUnlock() { m.mu.RUnlock() }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }
`

func moduleOf(repo string) string {
	b, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		die(err)
	}
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			return f[1]
		}
	}
	die(fmt.Errorf("no module line in go.mod"))
	return ""
}

var modPath string
var shim = os.Getenv("INSTR_NOSYNC") == ""

func main() {
	repo, out := os.Args[1], os.Args[2]
	modPath = moduleOf(repo)
	over := map[string]string{}
	if shim {
		dst := filepath.Join(out, "verifsync", "sync.go")
		write(dst, syncShim)
		over[filepath.Join(repo, "verifsync", "sync.go")] = dst
	}
	for _, dir := range []string{"", "rmap"} {
		src := filepath.Join(repo, dir)
		ents, err := os.ReadDir(src)
		if err != nil {
			continue
		}
		pkg := ""
		shared = sharedVars(src, ents)
		for _, e := range ents {
			n := e.Name()
			if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			p := filepath.Join(src, n)
			b, err := os.ReadFile(p)
			if err != nil {
				die(err)
			}
			fs := token.NewFileSet()
			f, err := parser.ParseFile(fs, p, b, parser.ParseComments)
			if err != nil {
				die(err)
			}
			pkg = f.Name.Name
			res := instrument(fs, f, string(b))
			dst := filepath.Join(out, dir, n)
			write(dst, res)
			over[p] = dst
		}
		if pkg == "" {
			continue
		}
		hook := "package " + pkg + "\n\nvar VerifYield, VerifPoint func()\n\nvar VerifLocks bool\n\nfunc verifY() {\n\tif VerifYield != nil {\n\t\tVerifYield()\n\t}\n}\n\n" +
			"func verifL() {\n\tif VerifPoint != nil {\n\t\tVerifPoint()\n\t} else if VerifYield != nil {\n\t\tVerifYield()\n\t}\n}\n\n" +
			"func verifS() {\n\tif VerifPoint != nil && !VerifLocks {\n\t\tVerifPoint()\n\t} else if VerifYield != nil {\n\t\tVerifYield()\n\t}\n}\n\nfunc verifT() bool {\n\tverifY()\n\treturn true\n}\n"
		if dir == "" && shim {
			hook = strings.Replace(hook, "\n\n", "\n\nimport \""+modPath+"/verifsync\"\n\n", 1) +
				"\nconst VerifSync = true\n\nfunc VerifSetBlock(f func()) { verifsync.Block = f }\n"
		} else if dir == "" {
			hook += "\nconst VerifSync = false\n\nfunc VerifSetBlock(f func()) {}\n"
		}
		if dir == "" {
			hook += `
var VerifHash func(key string) (hash, conflict uint64, ok bool)

func verifHashOf(key interface{}) (hash, conflict uint64, ok bool) {
	if VerifHash == nil {
		return
	}
	switch k := key.(type) {
	case string:
		return VerifHash(k)
	case []byte:
		return VerifHash(string(k))
	}
	return
}

func verifConfS(f func(string) uint64) func(string) uint64 {
	return func(s string) uint64 {
		if _, c, ok := verifHashOf(s); ok {
			return c
		}
		return f(s)
	}
}

func verifConfB(f func([]byte) uint64) func([]byte) uint64 {
	return func(b []byte) uint64 {
		if _, c, ok := verifHashOf(b); ok {
			return c
		}
		return f(b)
	}
}
`
		}
		dst := filepath.Join(out, dir, "zz_verif_hook.go")
		write(dst, hook)
		over[filepath.Join(src, "zz_verif_hook.go")] = dst
	}
	j, _ := json.MarshalIndent(map[string]interface{}{"Replace": over}, "", " ")
	write(filepath.Join(out, "overlay.json"), string(j))
}

func instrument(fs *token.FileSet, f *ast.File, src string) string {
	var eds []edit
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	noYield := os.Getenv("INSTR_NOYIELD") != ""
	stmts := func(l []ast.Stmt) {
		if noYield {
			return
		}
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			switch syncs(s) {
			case 2:
				eds = append(eds, edit{off(s.Pos()), "verifL(); "})
			case 1:
				eds = append(eds, edit{off(s.Pos()), "verifS(); "})
			default:
				eds = append(eds, edit{off(s.Pos()), "verifY(); "})
			}
		}
	}
	del := map[int]int{} // offset: bytes of the source left out
	if shim {
		for _, im := range f.Imports {
			name := ""
			switch {
			case im.Path.Value == `"sync"`:
				name = "sync "
			case strings.HasSuffix(strings.ToLower(im.Path.Value), `lk4d4/trylock"`):
				name = "trylock "
			default:
				continue
			}
			if im.Name != nil {
				name = ""
			}
			o := off(im.Path.Pos())
			eds = append(eds, edit{o, name + `"` + modPath + `/verifsync"`})
			del[o] = len(im.Path.Value)
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil || fd.Name.Name == "init" {
			continue
		}
		clauses := map[*ast.BlockStmt]bool{} // bodies of switch and select
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.SwitchStmt:
				clauses[x.Body] = true
			case *ast.TypeSwitchStmt:
				clauses[x.Body] = true
			case *ast.SelectStmt:
				clauses[x.Body] = true
			case *ast.BlockStmt:
				if !clauses[x] {
					stmts(x.List)
				}
			case *ast.CaseClause:
				stmts(x.Body)
			case *ast.CommClause:
				stmts(x.Body)
			case *ast.SelectorExpr: // the second hash
				if id, ok := x.X.(*ast.Ident); ok && id.Name == "xxhash" && os.Getenv("INSTR_HASHTOP") == "" {
					if w := map[string]string{"Sum64": "verifConfB(", "Sum64String": "verifConfS("}[x.Sel.Name]; w != "" {
						eds = append(eds, edit{off(x.Pos()), w}, edit{off(x.End()), ")"})
					}
				}
			case *ast.IfStmt: // between the statement and the condition
				if x.Init != nil && !noYield {
					eds = append(eds, edit{off(x.Cond.Pos()), "verifT() && ("}, edit{off(x.Cond.End()), ")"})
				}
			case *ast.BinaryExpr: // between the operands
				if noYield {
				} else if x.Op == token.LAND {
					eds = append(eds, edit{off(x.Y.Pos()), "verifT() && "})
				} else if x.Op == token.LOR {
					eds = append(eds, edit{off(x.Y.Pos()), "!verifT() || "})
				}
			}
			return true
		})
		if t := hashText(fd); t != "" {
			eds = append(eds, edit{off(fd.Body.Lbrace) + 1, t})
		}
	}
	// several edits at one place: hash prologue and yields in any order are fine,
	// but the same yield must not be inserted twice.
	sort.SliceStable(eds, func(i, j int) bool { return eds[i].off < eds[j].off })
	var b strings.Builder
	pos := 0
	last := edit{-1, ""}
	for _, e := range eds {
		if e == last {
			continue
		}
		last = e
		b.WriteString(src[pos:e.off])
		b.WriteString(e.text)
		pos = e.off + del[e.off]
	}
	b.WriteString(src[pos:])
	return b.String()
}

// shared: variables of the package which are changed by functions
var shared map[string]bool

func sharedVars(src string, ents []os.DirEntry) map[string]bool {
	global, res := map[string]bool{}, map[string]bool{}
	for pass := 0; pass < 2; pass++ {
		for _, e := range ents {
			n := e.Name()
			if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(src, n), nil, 0)
			if err != nil {
				die(err)
			}
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.GenDecl:
					for _, sp := range d.Specs {
						if v, ok := sp.(*ast.ValueSpec); ok && d.Tok == token.VAR {
							for _, id := range v.Names {
								global[id.Name] = true
							}
						}
					}
				case *ast.FuncDecl:
					if pass == 0 || d.Body == nil || d.Name.Name == "init" {
						continue
					}
					mark := func(x ast.Expr) {
						for {
							switch y := x.(type) {
							case *ast.SelectorExpr:
								x = y.X
							case *ast.IndexExpr:
								x = y.X
							case *ast.StarExpr:
								x = y.X
							case *ast.ParenExpr:
								x = y.X
							case *ast.SliceExpr:
								x = y.X
							case *ast.Ident:
								if global[y.Name] && y.Name != "_" {
									res[y.Name] = true
								}
								return
							default:
								return
							}
						}
					}
					ast.Inspect(d.Body, func(n ast.Node) bool {
						switch x := n.(type) {
						case *ast.AssignStmt:
							if x.Tok != token.DEFINE {
								for _, l := range x.Lhs {
									mark(l)
								}
							}
						case *ast.IncDecStmt:
							mark(x.X)
						case *ast.CallExpr:
							if id, ok := x.Fun.(*ast.Ident); ok && (id.Name == "copy" || id.Name == "delete") && len(x.Args) > 0 {
								mark(x.Args[0])
							}
						}
						return true
					})
				}
			}
		}
	}
	return res
}

// syncs: the statement itself (not the blocks in it) is synchronisation:
// 2 uses a lock or a channel, 1 something atomic or a variable of the package, 0 neither.
func syncs(s ast.Stmt) (kind int) {
	is := func(k int) {
		if k > kind {
			kind = k
		}
	}
	name := func(n string) {
		switch n {
		case "Lock", "Unlock", "RLock", "RUnlock", "TryLock", "TryRLock":
			is(2)
		case "Load", "Store", "Swap", "CompareAndSwap", "Add", "delete":
			is(1)
		}
		for _, p := range []string{"Load", "Store", "Swap", "CompareAndSwap", "Add"} {
			for _, t := range []string{"Pointer", "Int", "Uint"} {
				if strings.HasPrefix(n, p+t) {
					is(1)
				}
			}
		}
	}
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt, *ast.CaseClause, *ast.CommClause, *ast.DeferStmt, *ast.FuncLit:
			return false
		case *ast.CallExpr:
			switch f := x.Fun.(type) {
			case *ast.SelectorExpr:
				name(f.Sel.Name)
			case *ast.Ident:
				name(f.Name)
			}
		case *ast.Ident:
			if shared[x.Name] {
				is(1)
			}
		case *ast.SendStmt:
			is(2)
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				is(2)
			}
		}
		return true
	})
	return
}

func recvName(fd *ast.FuncDecl) (typ, name string) {
	if fd.Recv == nil || len(fd.Recv.List) == 0 {
		return
	}
	t := fd.Recv.List[0].Type
	if s, ok := t.(*ast.StarExpr); ok {
		t = s.X
	}
	if id, ok := t.(*ast.Ident); ok {
		typ = id.Name
	}
	if len(fd.Recv.List[0].Names) > 0 {
		name = fd.Recv.List[0].Names[0].Name
	}
	return
}

func hashText(fd *ast.FuncDecl) string {
	param := func() string {
		if fd.Type.Params == nil || len(fd.Type.Params.List) != 1 || len(fd.Type.Params.List[0].Names) != 1 {
			return ""
		}
		return fd.Type.Params.List[0].Names[0].Name
	}
	top := os.Getenv("INSTR_HASHTOP") != ""
	if !top && (fd.Recv != nil || fd.Name.Name == "KeyToHash") {
		return ""
	}
	if fd.Recv == nil {
		switch fd.Name.Name {
		case "KeyToHash":
			if p := param(); p != "" {
				return fmt.Sprintf(hashPrologue, p, "vh, vc")
			}
		case "MemHash", "MemHashString":
			if p := param(); p != "" {
				return fmt.Sprintf(hashPrologue, p, "vh")
			}
		}
		return ""
	}
	typ, name := recvName(fd)
	if fd.Name.Name == "KeyHash" && typ == "SampleItem" && name != "" && name != "_" {
		return fmt.Sprintf(hashPrologue, name+".K", "vh, vc")
	}
	return ""
}

func write(p, s string) {
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		die(err)
	}
	if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
		die(err)
	}
}

func die(err error) {
	fmt.Fprintln(os.Stderr, "instr:", err)
	os.Exit(2)
}
