package main

// Effect analysis over the SSA of circuit-building and hint code: ambient sources, mutable global state, identity of wires.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// purePkgs may be called from circuit-building and hint code: their results depend on their arguments only.
var purePkgs = map[string]bool{"math": true, "math/big": true, "math/bits": true, "math/cmplx": true, "errors": true, "strings": true, "strconv": true,
	"sort": true, "slices": true, "cmp": true, "bytes": true, "unicode": true, "unicode/utf8": true, "encoding/binary": true, "encoding/hex": true, "iter": true}

var gnarkPure = []string{"/frontend", "/frontend/frontendtype", "/std/", "/constraint", "/logger", "gnark-crypto/ecc", "gnark-crypto/field"}

func hasRef(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasRef(u.Field(i).Type(), seen) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasRef(u.Elem(), seen)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if hasRef(u.At(i).Type(), seen) {
				return true
			}
		}
		return false
	}
	return true
}

func refType(t types.Type) bool { return t != nil && hasRef(t, map[types.Type]bool{}) }

func isHintSig(s *types.Signature) bool {
	if s.Params().Len() != 3 || s.Results().Len() != 1 || s.Recv() != nil {
		return false
	}
	bigSlice := func(t types.Type) bool {
		sl, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		p, ok := sl.Elem().(*types.Pointer)
		return ok && isBigInt(p.Elem())
	}
	p, ok := s.Params().At(0).Type().(*types.Pointer)
	return ok && isBigInt(p.Elem()) && bigSlice(s.Params().At(1).Type()) && bigSlice(s.Params().At(2).Type())
}

func gnarkNamed(t types.Type, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "gnark/frontend")
}

// circuitType: the type gives access to a circuit under construction.
func (w *World) circuitType(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	for _, n := range []string{"API", "Variable", "Compiler", "Builder", "Rangechecker"} {
		if gnarkNamed(t, n) {
			return true
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return w.circuitType(u.Elem(), seen)
	case *types.Slice:
		return w.circuitType(u.Elem(), seen)
	case *types.Array:
		return w.circuitType(u.Elem(), seen)
	case *types.Map:
		return w.circuitType(u.Elem(), seen) || w.circuitType(u.Key(), seen)
	case *types.Struct:
		if n, ok := types.Unalias(t).(*types.Named); ok && (n.Obj().Pkg() == nil || !w.isRepo(n.Obj().Pkg().Path())) {
			return false
		}
		for i := 0; i < u.NumFields(); i++ {
			if w.circuitType(u.Field(i).Type(), seen) {
				return true
			}
		}
	case *types.Signature:
		for i := 0; i < u.Params().Len(); i++ {
			if w.circuitType(u.Params().At(i).Type(), seen) {
				return true
			}
		}
	}
	return false
}

func (w *World) inRepo(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	return f.Pkg != nil && w.isRepo(f.Pkg.Pkg.Path())
}

// closure of functions reachable from roots inside the repository; hint functions are left out unless they are roots.
func (w *World) reach(roots []*ssa.Function) map[*ssa.Function]bool {
	set := map[*ssa.Function]bool{}
	var all []*ssa.Function
	var work []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && !set[f] && f.Blocks != nil && w.inRepo(f) {
			set[f] = true
			work = append(work, f)
		}
	}
	for _, f := range roots {
		add(f)
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && !isHintSig(g.Signature) {
						add(g)
					}
				}
				c, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if !c.Common().IsInvoke() {
					if g := c.Common().StaticCallee(); g != nil {
						add(g)
					}
					continue
				}
				// interface declared in the repository: every implementation in the repository
				it, _ := c.Common().Value.Type().Underlying().(*types.Interface)
				if n, ok := types.Unalias(c.Common().Value.Type()).(*types.Named); ok && n.Obj().Pkg() != nil && w.isRepo(n.Obj().Pkg().Path()) && it != nil {
					if all == nil {
						all = w.repoFuncs()
					}
					for _, g := range all {
						if g.Name() == c.Common().Method.Name() && g.Signature.Recv() != nil && types.Implements(g.Signature.Recv().Type(), it) {
							add(g)
						}
					}
				}
			}
		}
	}
	return set
}

func (w *World) circuitRoots() (out []*ssa.Function) {
	for _, f := range w.repoFuncs() {
		if f.Parent() != nil || isHintSig(f.Signature) || f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		s := f.Signature
		hit := s.Recv() != nil && w.circuitType(s.Recv().Type(), map[types.Type]bool{})
		for i := 0; i < s.Params().Len(); i++ {
			hit = hit || w.circuitType(s.Params().At(i).Type(), map[types.Type]bool{})
		}
		if hit {
			out = append(out, f)
		}
	}
	return
}

func (w *World) hintRoots() (out []*ssa.Function) {
	for _, f := range w.repoFuncs() {
		if isHintSig(f.Signature) {
			out = append(out, f)
		}
	}
	return
}

// taintState tracks references to memory of package-level variables.
type taintState struct {
	w     *World
	set   map[*ssa.Function]bool
	own   map[ssa.Value]bool // v refers to memory of a global
	param map[*ssa.Function]map[int]bool
	free  map[*ssa.Function]map[int]bool
	res   map[*ssa.Function]bool
	field map[string]bool
	elem  map[string]bool
	dirty bool
}

func (s *taintState) mark(v ssa.Value) {
	if !s.own[v] && refType(v.Type()) {
		s.own[v] = true
		s.dirty = true
	}
}

func (s *taintState) is(v ssa.Value) bool {
	if g, ok := v.(*ssa.Global); ok {
		return g.Pkg != nil && s.w.isRepo(g.Pkg.Pkg.Path())
	}
	return s.own[v]
}

func fieldKey(x ssa.Value, i int) string {
	t := x.Type()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return fmt.Sprintf("%s.%d", t, i)
}

func (s *taintState) step(f *ssa.Function) {
	for i, p := range f.Params {
		if s.param[f][i] {
			s.mark(p)
		}
	}
	for i, p := range f.FreeVars {
		if s.free[f][i] {
			s.mark(p)
		}
	}
	set := func(m map[string]bool, k string) {
		if !m[k] {
			m[k] = true
			s.dirty = true
		}
	}
	pass := func(m map[*ssa.Function]map[int]bool, g *ssa.Function, i int) {
		if m[g] == nil {
			m[g] = map[int]bool{}
		}
		if !m[g][i] {
			m[g][i] = true
			s.dirty = true
		}
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				if s.is(x.Val) {
					switch a := x.Addr.(type) {
					case *ssa.FieldAddr:
						set(s.field, fieldKey(a.X, a.Field))
					case *ssa.IndexAddr:
						if et := x.Val.Type(); !types.IsInterface(et) {
							set(s.elem, et.String())
						}
					case *ssa.Alloc:
						s.mark2(a)
					}
				}
			case *ssa.FieldAddr:
				if s.is(x.X) {
					s.mark(x)
				}
			case *ssa.IndexAddr:
				if s.is(x.X) {
					s.mark(x)
				}
			case *ssa.UnOp:
				if x.Op != token.MUL {
					continue
				}
				hit := s.is(x.X)
				switch a := x.X.(type) {
				case *ssa.FieldAddr:
					hit = hit || s.field[fieldKey(a.X, a.Field)]
				case *ssa.IndexAddr:
					hit = hit || s.elem[x.Type().String()]
				case *ssa.Alloc:
					hit = hit || s.own[allocContent{a}]
				}
				if hit {
					s.mark(x)
				}
			case *ssa.Call:
				if x.Call.IsInvoke() {
					continue
				}
				args := x.Call.Args
				if g := x.Call.StaticCallee(); g != nil {
					if s.set[g] {
						for i, a := range args {
							if s.is(a) {
								pass(s.param, g, i)
							}
						}
						if s.res[g] {
							s.mark(x)
						}
					} else if len(args) > 0 && s.is(args[0]) {
						s.mark(x) // e.g. z.Set(x) returns z
					}
				} else if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && s.is(args[0]) {
					s.mark(x)
				}
			case *ssa.MakeClosure:
				for i, a := range x.Bindings {
					if s.is(a) {
						pass(s.free, x.Fn.(*ssa.Function), i)
					}
				}
			case *ssa.Return:
				for _, r := range x.Results {
					if s.is(r) && !s.res[f] {
						s.res[f] = true
						s.dirty = true
					}
				}
			case *ssa.Phi, *ssa.Slice, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.TypeAssert, *ssa.Extract,
				*ssa.Field, *ssa.Index, *ssa.Lookup, *ssa.Convert, *ssa.Next, *ssa.Range, *ssa.SliceToArrayPointer:
				for _, op := range ins.Operands(nil) {
					if *op != nil && s.is(*op) {
						s.mark(ins.(ssa.Value))
					}
				}
			}
		}
	}
}

// allocContent stands for what is stored in a local variable.
type allocContent struct{ *ssa.Alloc }

func (s *taintState) mark2(a *ssa.Alloc) {
	k := allocContent{a}
	if !s.own[k] {
		s.own[k] = true
		s.dirty = true
	}
}

func (w *World) taint(set map[*ssa.Function]bool) *taintState {
	s := &taintState{w: w, set: set, own: map[ssa.Value]bool{}, param: map[*ssa.Function]map[int]bool{}, free: map[*ssa.Function]map[int]bool{},
		res: map[*ssa.Function]bool{}, field: map[string]bool{}, elem: map[string]bool{}}
	for {
		s.dirty = false
		for f := range set {
			s.step(f)
		}
		if !s.dirty {
			return s
		}
	}
}

func isInit(f *ssa.Function) bool {
	return f.Parent() == nil && f.Signature.Recv() == nil && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#"))
}

func bigMutates(g *ssa.Function) bool {
	if !strings.HasPrefix(g.String(), "(*math/big.Int).") {
		return false
	}
	r := g.Signature.Results()
	if r.Len() == 0 {
		return g.Name() == "Scan" || strings.HasPrefix(g.Name(), "Gob") || strings.HasPrefix(g.Name(), "Unmarshal")
	}
	p, ok := r.At(0).Type().(*types.Pointer)
	return ok && isBigInt(p.Elem()) || strings.HasPrefix(g.Name(), "Unmarshal") || g.Name() == "GobDecode" || g.Name() == "Scan"
}

// globalWrites reports writes to memory of package-level variables outside package initialisation.
func (s *taintState) globalWrites(report func(f *ssa.Function, ins ssa.Instruction, what string)) {
	for f := range s.set {
		if isInit(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					if s.is(x.Addr) {
						report(f, ins, "writes package-level state")
					}
				case *ssa.MapUpdate:
					if s.is(x.Map) {
						report(f, ins, "updates a package-level map")
					}
				case *ssa.Send:
					report(f, ins, "sends on a channel")
				case ssa.CallInstruction:
					c := x.Common()
					if c.IsInvoke() {
						continue
					}
					if bi, ok := c.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "append", "copy", "clear", "delete":
							if s.is(c.Args[0]) {
								report(f, ins, bi.Name()+" on package-level memory")
							}
						}
						continue
					}
					g := c.StaticCallee()
					if g == nil || len(c.Args) == 0 {
						continue
					}
					if bigMutates(g) && s.is(c.Args[0]) {
						report(f, ins, "big.Int."+g.Name()+" modifies a package-level integer")
					}
					if g.Pkg != nil {
						switch g.Pkg.Pkg.Path() {
						case "sort", "slices":
							if s.is(c.Args[0]) && (strings.HasPrefix(g.Name(), "Sort") || strings.HasPrefix(g.Name(), "Reverse") || g.Pkg.Pkg.Path() == "sort" && !strings.HasPrefix(g.Name(), "Search")) {
								report(f, ins, g.String()+" on package-level memory")
							}
						case "sync", "sync/atomic":
							if s.is(c.Args[0]) && (g.Pkg.Pkg.Path() == "sync/atomic" || strings.Contains(g.String(), "sync.Map") || strings.Contains(g.String(), "sync.Pool")) {
								report(f, ins, g.String()+" on package-level state")
							}
						}
					}
				}
			}
		}
	}
}

func originOf(g *ssa.Function) *ssa.Function {
	if o := g.Origin(); o != nil {
		return o
	}
	return g
}

// ambient reports dependence on anything but arguments and constants.
func (w *World) ambient(f *ssa.Function, report func(ins ssa.Instruction, what string)) (sites int) {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Go:
				report(ins, "starts a goroutine")
			case *ssa.Select:
				report(ins, "selects on channels")
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					report(ins, "receives from a channel")
				}
				if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL && g.Pkg != nil && !w.isRepo(g.Pkg.Pkg.Path()) {
					p := g.Pkg.Pkg.Path()
					if p == "os" || p == "crypto/rand" || p == "math/rand" || p == "runtime" || p == "net/http" {
						report(ins, "reads "+g.String())
					}
				}
			case *ssa.Range:
				if _, ok := x.X.Type().Underlying().(*types.Map); ok && !w.sortedKeys(x) {
					report(ins, "iterates over a map, whose order changes from run to run")
				}
			case *ssa.Convert:
				if b, ok := x.Type().Underlying().(*types.Basic); ok && (b.Kind() == types.Uintptr || b.Kind() == types.UnsafePointer) {
					report(ins, "uses a memory address as a value")
				}
			}
			c, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			g := c.Common().StaticCallee()
			if g == nil || w.inRepo(g) || g.Name() == "init" && g.Synthetic != "" {
				continue
			}
			sites++
			p := ""
			if o := originOf(g); o.Pkg != nil {
				p = o.Pkg.Pkg.Path()
			} else if g.Object() != nil && g.Object().Pkg() != nil {
				p = g.Object().Pkg().Path()
			}
			n := originOf(g).Name()
			switch {
			case p == "fmt":
				if !strings.HasPrefix(n, "Sprint") && !strings.HasPrefix(n, "Print") && n != "Errorf" && !strings.HasPrefix(n, "Append") && !strings.HasPrefix(n, "Sscan") {
					report(ins, "calls fmt."+n)
				}
				for _, a := range c.Common().Args {
					if k, ok := a.(*ssa.Const); ok && k.Value != nil && strings.Contains(k.Value.ExactString(), "%p") {
						report(ins, "prints a memory address")
					}
				}
			case p == "maps":
				if n == "Keys" || n == "Values" || n == "All" {
					report(ins, "iterates over a map, whose order changes from run to run")
				}
			case p == "sync":
				if strings.Contains(g.String(), "Pool") || strings.Contains(g.String(), "Map") {
					report(ins, "calls "+g.String())
				}
			case purePkgs[p]:
			case p == "" && g.Synthetic != "":
			default:
				ok := false
				for _, s := range gnarkPure {
					if strings.Contains(p, "gnark") && (strings.Contains(p, s) || strings.HasSuffix(p, s)) {
						ok = true
					}
				}
				if !ok {
					report(ins, "calls "+g.String()+", which is not a function of its arguments")
				}
			}
		}
	}
	return sites
}

// sortedKeys: the loop only appends keys to a slice that is sorted afterwards.
func (w *World) sortedKeys(r *ssa.Range) bool {
	f := r.Parent()
	var next *ssa.Next
	for _, u := range *r.Referrers() {
		if n, ok := u.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return false
	}
	// loop body: blocks that reach the header again
	head := next.Block()
	reach := func(from *ssa.BasicBlock) bool {
		seen := map[*ssa.BasicBlock]bool{}
		var dfs func(b *ssa.BasicBlock) bool
		dfs = func(b *ssa.BasicBlock) bool {
			if b == head {
				return true
			}
			if seen[b] {
				return false
			}
			seen[b] = true
			for _, s := range b.Succs {
				if dfs(s) {
					return true
				}
			}
			return false
		}
		return dfs(from)
	}
	sorted := false
	for _, b := range f.Blocks {
		inBody := b != head && head.Dominates(b) && reach(b)
		for _, ins := range b.Instrs {
			c, ok := ins.(*ssa.Call)
			if !ok {
				if inBody {
					switch st := ins.(type) {
					case *ssa.Store:
						if _, local := st.Addr.(*ssa.IndexAddr); !local {
							return false
						}
					case *ssa.MapUpdate, *ssa.If:
						return false
					}
				}
				continue
			}
			if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
				continue
			}
			if inBody {
				return false
			}
			if g := c.Call.StaticCallee(); g != nil && originOf(g).Pkg != nil {
				if p := originOf(g).Pkg.Pkg.Path(); (p == "sort" || p == "slices") && head.Dominates(b) {
					sorted = true
				}
			}
		}
	}
	return sorted
}

// wireIdentity reports code that looks inside a circuit wire.
func (w *World) wireIdentity(f *ssa.Function, report func(ins ssa.Instruction, what string)) {
	isVar := func(t types.Type) bool { return gnarkNamed(t, "Variable") }
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.TypeAssert:
				if isVar(x.X.Type()) {
					report(ins, "inspects the dynamic type of a circuit wire")
				}
			case *ssa.BinOp:
				if isVar(x.X.Type()) || isVar(x.Y.Type()) {
					if k, ok := x.X.(*ssa.Const); ok && k.Value == nil {
						continue
					}
					if k, ok := x.Y.(*ssa.Const); ok && k.Value == nil {
						continue
					}
					report(ins, "compares circuit wires by identity")
				}
			case *ssa.ChangeType:
				if isVar(x.X.Type()) && !isVar(x.Type()) && !onlyPrinted(x) && !onlyPassed(x, map[ssa.Value]bool{}) {
					report(ins, "turns a circuit wire into a plain interface value")
				}
			case *ssa.ChangeInterface:
				if isVar(x.X.Type()) && !isVar(x.Type()) && !onlyPrinted(x) && !onlyPassed(x, map[ssa.Value]bool{}) {
					report(ins, "turns a circuit wire into a plain interface value")
				}
			case *ssa.MapUpdate:
				if isVar(x.Key.Type()) {
					report(ins, "uses a circuit wire as a map key")
				}
			case *ssa.Lookup:
				if isVar(x.Index.Type()) {
					report(ins, "uses a circuit wire as a map key")
				}
			case ssa.CallInstruction:
				c := x.Common()
				if c.IsInvoke() && c.Method.Name() == "ConstantValue" {
					report(ins, "reads the value behind a wire, which the test engine answers with the witness")
				}
			}
		}
	}
}

// onlyPassed: the plain interface value is handed on (also through helpers) and becomes a wire again; nothing looks
// inside it.
func onlyPassed(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, u := range *refs {
		switch x := u.(type) {
		case *ssa.DebugRef:
		case *ssa.ChangeType:
			if !gnarkNamed(x.Type(), "Variable") && !onlyPassed(x, seen) {
				return false
			}
		case *ssa.ChangeInterface:
			if !gnarkNamed(x.Type(), "Variable") && !onlyPassed(x, seen) {
				return false
			}
		case *ssa.Phi:
			if !onlyPassed(x, seen) {
				return false
			}
		case *ssa.Call:
			g := x.Call.StaticCallee()
			if g == nil || len(g.Blocks) == 0 || len(g.Params) != len(x.Call.Args) {
				return false
			}
			for i, a := range x.Call.Args {
				if a == v && !onlyPassed(g.Params[i], seen) {
					return false
				}
			}
		case *ssa.Return:
			// the callers see it
			f := x.Parent()
			if f.Referrers() == nil && f.Parent() == nil || f.Signature.Results().Len() != 1 {
				return false
			}
			if f.Referrers() == nil {
				return false
			}
			for _, r := range *f.Referrers() {
				c, ok := r.(*ssa.Call)
				if !ok || c.Call.Value != ssa.Value(f) || !onlyPassed(c, seen) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// onlyPrinted: the value only feeds arguments of printing functions.
func onlyPrinted(v ssa.Value) bool {
	for _, u := range *v.Referrers() {
		st, ok := u.(*ssa.Store)
		if !ok {
			return false
		}
		ix, ok := st.Addr.(*ssa.IndexAddr)
		if !ok {
			return false
		}
		al, ok := ix.X.(*ssa.Alloc)
		if !ok {
			return false
		}
		for _, r := range *al.Referrers() {
			sl, ok := r.(*ssa.Slice)
			if !ok {
				continue
			}
			for _, c := range *sl.Referrers() {
				call, ok := c.(*ssa.Call)
				if !ok {
					return false
				}
				if g := call.Call.StaticCallee(); g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != "fmt" || !strings.HasPrefix(g.Name(), "Print") {
					return false
				}
			}
		}
	}
	return true
}

func shortFn(w *World, f *ssa.Function) string {
	return strings.ReplaceAll(f.String(), w.mod+"/", "")
}

// pure applies the ambient and global-state rules to the functions reachable from roots and to the initialisers of their packages.
func (w *World) pure(r *Report, what string, set map[*ssa.Function]bool) {
	var fs []*ssa.Function
	pk := map[*ssa.Package]bool{}
	for f := range set {
		fs = append(fs, f)
		p := f
		for p.Parent() != nil {
			p = p.Parent()
		}
		if p.Pkg != nil {
			pk[p.Pkg] = true
		}
	}
	// package initialisation of everything the code can see inside the repository
	var addImports func(p *types.Package)
	addImports = func(p *types.Package) {
		if !w.isRepo(p.Path()) {
			return
		}
		sp := w.prog.Package(p)
		if sp == nil {
			return
		}
		pk[sp] = true
		for _, i := range p.Imports() {
			addImports(i)
		}
	}
	for p := range pk {
		addImports(p.Pkg)
	}
	inits := map[*ssa.Function]bool{}
	for p := range pk {
		for _, m := range p.Members {
			if f, ok := m.(*ssa.Function); ok && isInit(f) && f.Blocks != nil {
				inits[f] = true
			}
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	bad := map[*ssa.Function]bool{}
	rep := func(f *ssa.Function, ins ssa.Instruction, msg string) {
		bad[f] = true
		r.alarm(shortFn(w, f)+": "+msg, "%s: %s at %s", what, msg, w.Pos(ins.Pos()))
	}
	// package-level variables this code reads, and how they are initialised
	read := map[*ssa.Global]bool{}
	for f := range set {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil && w.isRepo(g.Pkg.Pkg.Path()) {
						read[g] = true
					}
				}
			}
		}
	}
	relevant := w.feeds(inits, read)
	var iroots []*ssa.Function
	for ins := range relevant {
		if c, ok := ins.(ssa.CallInstruction); ok {
			if g := c.Common().StaticCallee(); g != nil && w.inRepo(g) && !isInit(g) {
				iroots = append(iroots, g)
			}
		}
	}
	for f := range w.reach(iroots) {
		if !set[f] {
			fs = append(fs, f)
		}
	}
	for f := range inits {
		w.ambient(f, func(ins ssa.Instruction, msg string) {
			if relevant[ins] {
				rep(f, ins, msg)
			}
		})
	}
	for _, f := range fs {
		n := w.ambient(f, func(ins ssa.Instruction, msg string) { rep(f, ins, msg) })
		r.count("calls leaving the repository examined ("+what+")", n)
		r.touch(map[string]bool{f.String(): true})
	}
	// they must not be written after initialisation by anything in the repository
	r.count("package-level variables read ("+what+")", len(read))
	all := map[*ssa.Function]bool{}
	for _, f := range w.repoFuncs() {
		all[f] = true
	}
	for f := range set {
		all[f] = true
	}
	w.taint(set).globalWrites(func(f *ssa.Function, ins ssa.Instruction, msg string) { rep(f, ins, msg) })
	for f := range all {
		if set[f] || isInit(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok {
					if g, ok := rootGlobal(st.Addr); ok && read[g] {
						rep(f, ins, "writes "+g.Name()+", which this code reads")
					}
				}
			}
		}
	}
	for _, f := range fs {
		if !bad[f] {
			r.pass("%s: %s", what, shortFn(w, f))
		}
	}
	r.count("functions examined ("+what+")", len(fs))
}

// feeds lists the instructions of initialisers that the values stored to the given variables depend on.
func (w *World) feeds(inits map[*ssa.Function]bool, read map[*ssa.Global]bool) map[ssa.Instruction]bool {
	out := map[ssa.Instruction]bool{}
	want := map[*ssa.Global]bool{}
	for g := range read {
		want[g] = true
	}
	for again := true; again; {
		again = false
		for f := range inits {
			hit := false
			var work []ssa.Value
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					var addr ssa.Value
					switch x := ins.(type) {
					case *ssa.Store:
						addr = x.Addr
						work = append(work, nil)
						work[len(work)-1] = x.Val
					case *ssa.MapUpdate:
						addr = x.Map
						if u, ok := addr.(*ssa.UnOp); ok {
							addr = u.X
						}
						work = append(work, x.Value)
					default:
						continue
					}
					g, ok := rootGlobal(addr)
					if !ok || !want[g] {
						if ok || f.Synthetic != "" {
							work = work[:len(work)-1]
						}
						continue
					}
					hit = true
				}
			}
			if !hit {
				continue
			}
			whole := f.Synthetic == "" // a written init function: everything in it counts
			seen := map[ssa.Value]bool{}
			if whole {
				for _, b := range f.Blocks {
					for _, ins := range b.Instrs {
						out[ins] = true
						for _, op := range ins.Operands(nil) {
							if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil && w.isRepo(g.Pkg.Pkg.Path()) && !want[g] {
								want[g] = true
								again = true
							}
						}
					}
				}
				continue
			}
			for len(work) > 0 {
				v := work[len(work)-1]
				work = work[:len(work)-1]
				if v == nil || seen[v] {
					continue
				}
				seen[v] = true
				if g, ok := v.(*ssa.Global); ok {
					if g.Pkg != nil && w.isRepo(g.Pkg.Pkg.Path()) && !want[g] {
						want[g] = true
						again = true
					}
					continue
				}
				if a, ok := v.(*ssa.Alloc); ok { // composite built in place
					for _, u := range allStores(a) {
						out[u] = true
						work = append(work, u.Val)
					}
				}
				ins, ok := v.(ssa.Instruction)
				if !ok {
					continue
				}
				out[ins] = true
				for _, op := range ins.Operands(nil) {
					if *op != nil {
						work = append(work, *op)
					}
				}
			}
		}
	}
	return out
}

// allStores lists the stores into a local aggregate.
func allStores(v ssa.Value) (out []*ssa.Store) {
	if v.Referrers() == nil {
		return
	}
	for _, u := range *v.Referrers() {
		switch x := u.(type) {
		case *ssa.Store:
			if x.Addr == v {
				out = append(out, x)
			}
		case *ssa.FieldAddr:
			out = append(out, allStores(x)...)
		case *ssa.IndexAddr:
			out = append(out, allStores(x)...)
		}
	}
	return
}

func init() {
	props["C19"] = &propDef{"other", func(w *World, r *Report) {
		r.explain = "Effect analysis over go/ssa of every function that can reach a circuit under construction (by the types of its parameters and receiver), everything these call inside the repository, and the initialisers of their packages. Rules: no call outside an allowlist of packages whose functions depend on their arguments only; no goroutine, channel, select, map iteration (except collecting keys that are then sorted), memory address as value; no write, append, copy, sort or big.Int mutation through a reference that flows from a package-level variable (flow-insensitive taint over fields, parameters, results and closures); no write anywhere in the repository, outside initialisers, to a variable this code reads; no type assertion, comparison, hashing or ConstantValue on a frontend.Variable, so that no branch can depend on a witness."
		set := w.reach(w.circuitRoots())
		w.pure(r, "circuit construction", set)
		for f := range set {
			w.wireIdentity(f, func(ins ssa.Instruction, msg string) {
				r.alarm(shortFn(w, f)+": "+msg, "%s at %s", msg, w.Pos(ins.Pos()))
			})
		}
		r.atLeast("functions examined (circuit construction)", 30)
		r.atLeast("calls leaving the repository examined (circuit construction)", 20)
	}}
}
