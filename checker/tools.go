package main

// C25 and C36: what is read from external tools and decoded from strings.

import (
	"fmt"
	"go/types"
	"regexp/syntax"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// origin peels conversions between strings, byte slices and their copies.
func origin(v Value) Value {
	for {
		switch x := v.(type) {
		case Iface:
			v = x.v
			continue
		case Opaque:
			if x.t != nil && (x.t.op == "strings.TrimSpace" || x.t.op == "bytes.TrimSpace") {
				v = x.t.args[0]
				continue
			}
		}
		return v
	}
}

func opOf(v Value) string {
	if o, ok := v.(Opaque); ok && o.t != nil {
		return o.t.op
	}
	return ""
}

func argOf(v Value, i int) Value {
	if o, ok := v.(Opaque); ok && o.t != nil && i < len(o.t.args) {
		return o.t.args[i]
	}
	return nil
}

func constPattern(v Value) (string, bool) {
	v = origin(v)
	op := opOf(v)
	if op == "result 0" {
		v = argOf(v, 0)
		op = opOf(v)
	}
	if op == "regexp.MustCompile" || op == "regexp.Compile" {
		s, ok := argOf(v, 0).(string)
		return s, ok
	}
	return "", false
}

// toolModel: commands, patterns and conversions.
func toolModel(x *explorer, in *Interp, name string, sig *types.Signature, args []Value) (Value, bool) {
	short := name[strings.LastIndex(name, ".")+1:]
	switch {
	case strings.HasPrefix(name, "(*regexp.Regexp).Find"):
		pat, ok := constPattern(args[0])
		if !ok {
			panic(undecided("the pattern is not a constant"))
		}
		re, err := syntax.Parse(pat, syntax.Perl)
		if err != nil {
			panic(goPanic{"regexp: Compile: " + err.Error()})
		}
		n := re.MaxCap() + 1
		strT := types.Typ[types.String]
		match := func(m int) SliceV {
			s := SliceV{len: n, cap: n, arr: []*Cell{}}
			for g := 0; g < n; g++ {
				s.arr = append(s.arr, &Cell{t: strT, v: mkTerm("group", origin(args[1]), pat, int64(m), int64(g))})
			}
			return s
		}
		text := origin(args[1])
		has := func(m int) bool {
			k := mkTerm("matches", text, pat, int64(m)).key()
			if v, ok := x.conds[k]; ok {
				return v
			}
			v := x.fork()
			x.conds[k] = v
			x.order = append(x.order, k)
			return v
		}
		switch short {
		case "FindStringSubmatch", "FindSubmatch":
			if !has(0) {
				return nil, true
			}
			return match(0), true
		case "FindAllStringSubmatch", "FindAllSubmatch":
			if c, ok := args[2].(int64); !ok || c >= 0 {
				x.note(in, "reads a limited number of matches")
			}
			var all SliceV
			for m := 0; m < loopCut && has(m); m++ {
				all.arr = append(all.arr, &Cell{v: match(m)})
			}
			if len(all.arr) == 0 {
				return nil, true
			}
			all.len, all.cap = len(all.arr), len(all.arr)
			return all, true
		case "FindString":
			o := mkTerm("group", text, pat, int64(0), int64(0))
			if !has(0) {
				return "", true
			}
			return o, true
		}
		panic(undecided("no model of " + name))
	case name == "fmt.Errorf" || name == "errors.New":
		return Iface{errT, ErrV{keyOf(args[0])}}, true
	case name == "fmt.Println" || name == "fmt.Printf" || name == "fmt.Print" || strings.HasPrefix(name, "log."):
		return x.havoc(in, name, sig, args), true
	case strings.HasPrefix(name, "math.") || strings.HasPrefix(name, "strconv.") || strings.HasPrefix(name, "fmt.Sprint") || strings.HasPrefix(name, "encoding/hex.") ||
		strings.HasPrefix(name, "strings.") || strings.HasPrefix(name, "bytes.") || strings.HasPrefix(name, "regexp.") || name == "os/exec.Command":
		return x.havoc(in, name, sig, args), true
	case strings.HasPrefix(name, "(*os/exec.Cmd)."):
		x.seq++
		return x.havoc(in, name, sig, append(append([]Value{}, args...), fmt.Sprintf("run %d", x.seq))), true
	}
	if strings.Contains(name, "h3-go") || strings.Contains(name, "zerolog") {
		return x.havoc(in, name, sig, args), true
	}
	for _, a := range args {
		if _, isPtr := a.(*Cell); isPtr {
			panic(undecided("no model of " + name))
		}
	}
	x.seq++
	return x.havoc(in, name, sig, append(append([]Value{}, args...), fmt.Sprintf("call %d", x.seq))), true
}

// output recognises the text printed by a run of a command.
type toolRun struct {
	cmd  Opaque
	err  Value
	path Value
	args []Value
}

func (x *explorer) runOf(v Value) (*toolRun, bool) {
	v = origin(v)
	if opOf(v) != "result 0" {
		return nil, false
	}
	call, _ := argOf(v, 0).(Opaque)
	if call.t == nil || call.t.op != "(*os/exec.Cmd).CombinedOutput" && call.t.op != "(*os/exec.Cmd).Output" {
		return nil, false
	}
	cmd := call.t.args[0]
	if c, ok := cmd.(*Cell); ok && c != nil {
		cmd = c.v
	}
	o, _ := cmd.(Opaque)
	if o.t == nil || o.t.op != "os/exec.Command" {
		return nil, false
	}
	t := &toolRun{cmd: o, path: o.t.args[0]}
	if s, ok := o.t.args[1].(SliceV); ok {
		for _, c := range s.arr[:s.len] {
			t.args = append(t.args, c.v)
		}
	}
	for _, e := range x.events {
		if len(e.res) == 2 && keyOf(e.res[0]) == keyOf(v) {
			t.err = e.res[1]
		}
	}
	return t, t.err != nil
}

// errOf finds the error returned together with a value.
func (x *explorer) errOf(v Value) (Value, bool) {
	for _, e := range x.events {
		if e.hasErr && len(e.res) == 2 && keyOf(e.res[0]) == keyOf(v) {
			return e.res[1], true
		}
	}
	return nil, false
}

func leaves(v Value) (out []Value) {
	switch x := v.(type) {
	case Tuple:
		for _, e := range x {
			out = append(out, leaves(e)...)
		}
	case *StructV:
		for _, e := range x.f {
			out = append(out, leaves(e)...)
		}
	case SliceV:
		for _, c := range x.arr[:x.len] {
			out = append(out, leaves(c.load())...)
		}
	default:
		out = []Value{v}
	}
	return
}

// exactFormat: the text is the decimal form of the argument, precise enough to identify the location.
func exactFormat(v Value, want Value, float bool) string {
	v = origin(v)
	op := opOf(v)
	same := func(a Value) bool {
		for {
			a = origin(a)
			if keyOf(a) == keyOf(want) {
				return true
			}
			if o := opOf(a); strings.HasPrefix(o, "convert ") && !float {
				a = argOf(a, 0)
				if !strings.HasSuffix(o, "to int64") && !strings.HasSuffix(o, "to int") {
					return false
				}
				continue
			}
			return false
		}
	}
	switch op {
	case "strconv.Itoa":
		if !float && same(argOf(v, 0)) {
			return ""
		}
	case "strconv.FormatInt":
		if b, ok := argOf(v, 1).(int64); ok && b == 10 && !float && same(argOf(v, 0)) {
			return ""
		}
	case "strconv.FormatFloat":
		c, _ := argOf(v, 1).(uint64)
		p, ok := argOf(v, 2).(int64)
		bs, _ := argOf(v, 3).(int64)
		if float && ok && bs == 64 && same(argOf(v, 0)) && (p == -1 || c == 'f' && p >= 15 || (c == 'g' || c == 'e') && p >= 17) {
			return ""
		}
	case "fmt.Sprint":
		if s, ok := argOf(v, 0).(SliceV); ok && s.len == 1 && same(s.arr[0].v) {
			return ""
		}
	case "fmt.Sprintf":
		f, _ := argOf(v, 0).(string)
		s, ok := argOf(v, 1).(SliceV)
		if ok && s.len == 1 && same(s.arr[0].v) {
			if f == "%d" && !float || f == "%v" || float && f == "%g" {
				return ""
			}
			if float && strings.HasPrefix(f, "%.") && strings.HasSuffix(f, "f") {
				if n, err := strconv.Atoi(f[2 : len(f)-1]); err == nil && n >= 15 {
					return ""
				}
			}
			if float && strings.HasPrefix(f, "%.") && (strings.HasSuffix(f, "g") || strings.HasSuffix(f, "e")) {
				if n, err := strconv.Atoi(f[2 : len(f)-1]); err == nil && n >= 17 {
					return ""
				}
			}
		}
	default:
		if keyOf(v) == keyOf(want) && !float {
			return ""
		}
	}
	return fmt.Sprintf("passes %s where the whole of %s is needed", keyOf(v), keyOf(want))
}

func lowerBoundLen(x *explorer, o Value) int64 {
	k := mkTerm("len", o).key()
	lo := int64(0)
	for _, c := range x.order {
		v := x.conds[c]
		for _, op := range []string{"<", "<=", ">", ">=", "=="} {
			for side := 0; side < 2; side++ {
				pre, post := op+"("+k+",", ")"
				if side == 1 {
					pre, post = op+"(", ","+k+")"
				}
				if !strings.HasPrefix(c, pre) || !strings.HasSuffix(c, post) {
					continue
				}
				n, err := strconv.ParseInt(c[len(pre):len(c)-len(post)], 10, 64)
				if err != nil {
					continue
				}
				b := int64(0)
				o := op
				if side == 1 { // n op len
					o = map[string]string{"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "=="}[op]
				}
				switch {
				case o == "<" && !v, o == ">=" && v, o == "==" && v:
					b = n
				case o == "<=" && !v, o == ">" && v:
					b = n + 1
				case o == "==" && !v && n == 0:
					b = 1
				}
				lo = max(lo, b)
			}
		}
	}
	return lo
}

// reachesExec: repository functions that lead to running a command.
func (w *World) reachesLib(match func(name string) bool) map[*ssa.Function]bool {
	fs := w.repoFuncs()
	calls := map[*ssa.Function][]*ssa.Function{}
	hit := map[*ssa.Function]bool{}
	for _, f := range fs {
		for _, g := range referenced(f) {
			n, _ := libName(g)
			if !w.inRepo(g) && match(n) {
				hit[f] = true
			}
			calls[f] = append(calls[f], g)
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range fs {
			if hit[f] {
				continue
			}
			for _, g := range calls[f] {
				if hit[g] {
					hit[f], ch = true, true
					break
				}
			}
		}
	}
	return hit
}

func referenced(f *ssa.Function) (out []*ssa.Function) {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			for _, op := range ins.Operands(nil) {
				if op != nil && *op != nil {
					if g, ok := (*op).(*ssa.Function); ok {
						out = append(out, g)
					}
				}
			}
		}
	}
	return
}

const (
	intForm, intToken     = `[0-9]+`, `\-+0-9`
	floatForm, floatToken = `-?[0-9]+\.[0-9]+`, `\-+.0-9eE`
	wordForm, wordToken   = `[0-9a-f]+`, `0-9A-Za-z_`
)

func (w *World) c25(r *Report) {
	hit := w.reachesLib(func(n string) bool { return n == "os/exec.Command" || n == "os/exec.CommandContext" })
	for _, f := range w.repoFuncs() {
		if !hit[f] || f.Parent() != nil || f.Name() == "main" || f.Signature.Results().Len() == 0 {
			continue
		}
		key := shortFn(w, f)
		guarded(r, key, func() {
			var raw, parsed int
			e := &explore{w: w, limit: 20000,
				setup: func(x *explorer, in *Interp) {
					x.model, x.strict = toolModel, true
				},
				body: func(in *Interp) Value { return in.call(f, unknownArgs(f)) },
				end: func(pe *pathEnd) []string {
					a, b, out := w.toolPath(f, pe)
					raw += a
					parsed += b
					return out
				}}
			paths, cut, bad := e.run(r)
			r.count("paths followed", paths)
			r.count("loop turns beyond the third not followed", cut)
			if raw > 0 && parsed == 0 && len(bad) == 0 {
				r.pass("%s hands on the output of the tool with its error", key)
				return
			}
			r.count("functions that parse tool output", 1)
			for _, b := range bad {
				r.alarm(key+": "+strings.SplitN(b, " [", 2)[0], "%s: %s", w.Pos(f.Pos()), b)
			}
			if len(bad) == 0 {
				r.check(parsed > 0, key+": success", "%s never returns a value", key)
				r.pass("%s returns exactly what the tool printed for the location it was given (%d paths)", key, paths)
			}
		})
	}
	// library calls to H3
	if f := w.fn("util", "LatLngToIJ"); f != nil {
		guarded(r, "util.LatLngToIJ", func() {
			e := &explore{w: w, limit: 100,
				setup: func(x *explorer, in *Interp) { x.model = toolModel },
				body:  func(in *Interp) Value { return in.call(f, unknownArgs(f)) },
				end: func(pe *pathEnd) []string {
					if pe.how != "return" {
						return []string{"does not return: " + pe.how + " " + pe.msg}
					}
					a := unknownArgs(f)
					g := strings.NewReplacer("github.com/uber/h3-go/v4.", "h3.").Replace(keyOf(SliceV{arr: cellsOf(pe.ret.(Tuple)), len: 2}))
					var want []string
					for _, ll := range []Value{mkTerm("h3.NewLatLng", a[0], a[1]), &StructV{f: []Value{a[0], a[1]}}} {
						ij := mkTerm("h3.CellToLocalIJ", a[3], mkTerm("h3.LatLngToCell", ll, a[2]))
						want = append(want, keyOf(SliceV{arr: cellsOf([]Value{ij.part("field I"), ij.part("field J")}), len: 2}))
					}
					for _, s := range want {
						if g == s {
							return nil
						}
					}
					return []string{"returns " + g}
				}}
			_, _, bad := e.run(r)
			for _, b := range bad {
				r.alarm("util.LatLngToIJ", "%s", b)
			}
			if len(bad) == 0 {
				r.pass("util.LatLngToIJ returns the local coordinates of the cell of the location")
			}
		})
	}
}

func unknownArgs(f *ssa.Function) (args []Value) {
	for i := range f.Params {
		args = append(args, mkTerm(fmt.Sprintf("argument %d", i)))
	}
	return
}

// toolPath judges one path of a function that runs a tool.
func (w *World) toolPath(f *ssa.Function, pe *pathEnd) (raw, parsed int, out []string) {
	x := pe.x
	switch pe.how {
	case "cut":
		return
	case "panic":
		return 0, 0, []string{"panics: " + pe.msg}
	case "return":
	default:
		return 0, 0, []string{"ends with " + pe.how}
	}
	res := f.Signature.Results()
	vals, _ := pe.ret.(Tuple)
	if vals == nil {
		vals = Tuple{pe.ret}
	}
	var rerr Value
	hasErr := false
	var vs []Value
	for i := 0; i < res.Len(); i++ {
		if isErrorType(res.At(i).Type()) {
			rerr, hasErr = vals[i], true
			if isnil, ok := x.isNil(rerr); ok && !isnil {
				return // reported
			}
		} else {
			vs = append(vs, vals[i])
		}
	}
	okErr := func(e Value) bool {
		if isnil, ok := x.isNil(e); ok {
			return isnil
		}
		return hasErr && keyOf(rerr) == keyOf(e)
	}
	if hasErr {
		if _, known := x.isNil(rerr); !known {
			// handed on: must be the error of the value itself
			if len(vs) == 1 {
				if t, ok := x.runOf(vs[0]); ok && keyOf(t.err) == keyOf(rerr) {
					return 1, 0, nil
				}
			}
		}
	}
	ls := []Value{}
	for _, v := range vs {
		ls = append(ls, leaves(v)...)
	}
	if len(ls) == 0 {
		return 0, 0, []string{"returns nothing and no error"}
	}
	var run *toolRun
	last := [2]int64{0, 0}
	maxMatch := int64(0)
	perMatch := map[int64]int{}
	for i, v := range ls {
		form, token := wordForm, wordToken
		v = origin(v)
		kind := "text"
		for strings.HasPrefix(opOf(v), "convert int") && strings.Contains(opOf(v), "to int") {
			v = argOf(v, 0)
		}
		if opOf(v) == "result 0" {
			if call, ok := argOf(v, 0).(Opaque); ok {
				switch call.t.op {
				case "strconv.Atoi", "strconv.ParseInt":
					kind, form, token = "integer", intForm, intToken
					if call.t.op == "strconv.ParseInt" {
						if b, ok := call.t.args[1].(int64); !ok || b != 10 {
							out = append(out, "does not read a decimal number")
						}
					}
				case "strconv.ParseFloat":
					kind, form, token = "number", floatForm, floatToken
					if b, ok := call.t.args[1].(int64); !ok || b != 64 {
						out = append(out, "loses precision when reading a number")
					}
				}
				if kind != "text" {
					e, ok := x.errOf(v)
					if !ok || !okErr(e) {
						out = append(out, fmt.Sprintf("result %d does not depend on whether the text was a number", i))
					}
					v = origin(call.t.args[0])
				}
			}
		}
		if b, ok := res.At(min(i, res.Len()-1)).Type().Underlying().(*types.Basic); ok {
			if b.Info()&types.IsInteger != 0 && kind != "integer" || b.Info()&types.IsFloat != 0 && kind != "number" {
				return raw, parsed, append(out, fmt.Sprintf("result %d is %s", i, keyOf(v)))
			}
		}
		var text Value
		switch opOf(v) {
		case "group":
			text = argOf(v, 0)
			pat := argOf(v, 1).(string)
			m, g := argOf(v, 2).(int64), argOf(v, 3).(int64)
			if g == 0 {
				return raw, parsed, append(out, "returns a whole match instead of a value in it")
			}
			label, why := captures(pat, int(g), form, token)
			if why != "" {
				out = append(out, why)
			}
			ordered := m == last[0] && g == last[1]+1 || m == last[0]+1 && g == 1
			if i == 0 {
				ordered = m == 0 && g == 1
			}
			if kind == "integer" && label != "" && i < 3 {
				ordered = strings.Contains(label, "IJK"[i:i+1])
			}
			if !ordered {
				out = append(out, fmt.Sprintf("result %d is not the value at its place in the output (%q, match %d, group %d)", i, pat, m, g))
			}
			last = [2]int64{m, g}
			maxMatch = max(maxMatch, m)
			perMatch[m]++
		case "index":
			b := argOf(v, 0)
			k, ok := argOf(v, 1).(int64)
			if op := opOf(b); op != "strings.Fields" && op != "bytes.Fields" || !ok || k != int64(i) {
				return raw, parsed, append(out, fmt.Sprintf("result %d is not the value at its place in the output: %s", i, keyOf(v)))
			}
			text = argOf(b, 0)
		default:
			if t, ok := x.runOf(v); ok && kind == "text" {
				if !okErr(t.err) {
					out = append(out, "returns the output of a failed run")
				}
				raw++
				continue
			}
			return raw, parsed, append(out, fmt.Sprintf("result %d is %s", i, keyOf(v)))
		}
		t, ok := x.runOf(text)
		if !ok {
			return raw, parsed, append(out, "reads a value from something else than the output of the tool: "+keyOf(text))
		}
		if !okErr(t.err) {
			out = append(out, "uses the output of a failed run")
		}
		if run != nil && run.cmd.key() != t.cmd.key() {
			out = append(out, "mixes the output of two commands")
		}
		run = t
	}
	if raw > 0 {
		return
	}
	parsed++
	// every match must have been used
	for m := int64(0); m < loopCut; m++ {
		for _, c := range x.order {
			if strings.HasPrefix(c, "matches(") && strings.HasSuffix(c, fmt.Sprintf(",%d)", m)) && x.conds[c] && perMatch[m] == 0 {
				out = append(out, fmt.Sprintf("match %d of the output is not returned", m))
			}
		}
		if perMatch[m] != 0 && perMatch[m] != perMatch[0] {
			out = append(out, "matches are returned in part")
		}
	}
	out = append(out, w.toolArgs(f, run)...)
	return
}

// toolArgs: the tool is asked for what the function was given.
func (w *World) toolArgs(f *ssa.Function, t *toolRun) (out []string) {
	var floats, ints, strs []Value
	for i, p := range f.Params {
		b, ok := p.Type().Underlying().(*types.Basic)
		if !ok {
			continue
		}
		a := mkTerm(fmt.Sprintf("argument %d", i))
		switch {
		case b.Info()&types.IsFloat != 0:
			floats = append(floats, a)
		case b.Info()&types.IsInteger != 0:
			ints = append(ints, a)
		case b.Info()&types.IsString != 0 && keyOf(a) != keyOf(t.path):
			strs = append(strs, a)
		}
	}
	flags := map[string]Value{}
	for i := 0; i < len(t.args); i++ {
		s, ok := t.args[i].(string)
		if !ok || !strings.HasPrefix(s, "-") || i+1 >= len(t.args) {
			out = append(out, fmt.Sprintf("unexpected command argument %s", keyOf(t.args[i])))
			return
		}
		n := map[string]string{"--resolution": "resolution", "-r": "resolution", "--latitude": "latitude", "--lat": "latitude", "--longitude": "longitude", "--lng": "longitude",
			"--index": "index", "--cell": "index", "-c": "index", "-i": "index"}[s]
		if n == "" || flags[n] != nil {
			out = append(out, "unexpected command flag "+s)
			return
		}
		flags[n] = t.args[i+1]
		i++
	}
	need := map[string]Value{}
	if len(floats) >= 2 {
		need["latitude"], need["longitude"] = floats[0], floats[1]
	}
	if len(ints) >= 1 {
		need["resolution"] = ints[0]
	}
	if len(strs) >= 1 && len(floats) == 0 {
		need["index"] = strs[0]
	}
	if len(need) == 0 {
		return append(out, "cannot tell what the tool should be asked for")
	}
	for n, v := range need {
		g, ok := flags[n]
		if !ok {
			out = append(out, "the tool is not given the "+n)
			continue
		}
		if why := exactFormat(g, v, n == "latitude" || n == "longitude"); why != "" {
			out = append(out, n+": "+why)
		}
	}
	if len(flags) != len(need) {
		out = append(out, "the tool is given more than it was asked")
	}
	return
}

func init() {
	props["C25"] = &propDef{"other", func(w *World, r *Report) {
		r.explain = "Every function that runs an external tool is followed along all its paths with unknown arguments, unknown tool output and every error both present and absent. On every path that returns without an error each returned value must be the conversion of one value printed by a successful run of the tool, in its place, with the error of the conversion checked; the patterns are judged as regular languages: the group must contain every value of the printed form and cannot stop inside one; no index may be out of range for any output; the arguments of the tool must be the exact decimal forms of the function's arguments."
		w.c25(r)
		r.atLeast("functions that parse tool output", 3)
	}}
	props["C36"] = &propDef{"other", func(w *World, r *Report) {
		r.explain = "The decoders are followed along all paths with unknown strings: the returned float must be the bit-pattern reinterpretation of strconv.ParseUint(input, 16, width) with its error reported; the byte decoder is followed for every length up to 300 and must return the bytes in order."
		w.c36(r)
		r.atLeast("decoders", 2)
	}}
}

func (w *World) c36(r *Report) {
	for _, d := range []struct {
		name, conv string
		width      int64
	}{{"HexToFloat", "math.Float64frombits", 64}, {"HexToFloat32", "math.Float32frombits", 32}} {
		f := w.fn("util", d.name)
		if !r.check(f != nil, "util."+d.name, "util.%s does not exist", d.name) {
			continue
		}
		r.count("decoders", 1)
		guarded(r, "util."+d.name, func() {
			good := 0
			e := &explore{w: w, limit: 1000,
				setup: func(x *explorer, in *Interp) { x.model, x.strict = toolModel, true },
				body:  func(in *Interp) Value { return in.call(f, unknownArgs(f)) },
				end: func(pe *pathEnd) []string {
					if pe.how != "return" {
						return []string{"ends with " + pe.how + " " + pe.msg}
					}
					x := pe.x
					vals, _ := pe.ret.(Tuple)
					if len(vals) != 2 {
						return []string{"does not return a value and an error"}
					}
					isnil, known := x.isNil(vals[1])
					if known && !isnil {
						return nil
					}
					v := vals[0]
					if opOf(v) != d.conv {
						return []string{"returns " + keyOf(v)}
					}
					v = argOf(v, 0)
					for strings.HasPrefix(opOf(v), "convert uint64 to uint") {
						if opOf(v) != fmt.Sprintf("convert uint64 to uint%d", d.width) {
							return []string{"converts through " + opOf(v)}
						}
						v = argOf(v, 0)
					}
					p, _ := argOf(v, 0).(Opaque)
					if opOf(v) != "result 0" || p.t == nil || p.t.op != "strconv.ParseUint" {
						return []string{"decodes " + keyOf(v)}
					}
					if keyOf(p.t.args[0]) != "argument 0()" || keyOf(p.t.args[1]) != "16" || keyOf(p.t.args[2]) != fmt.Sprint(d.width) {
						return []string{"decodes " + p.key()}
					}
					perr, _ := x.errOf(v)
					if isnil, known := x.isNil(perr); !(known && isnil) && keyOf(perr) != keyOf(vals[1]) {
						return []string{"does not report an input that is not a hexadecimal number"}
					}
					good++
					return nil
				}}
			_, _, bad := e.run(r)
			for _, b := range bad {
				r.alarm("util."+d.name+": "+strings.SplitN(b, " [", 2)[0], "%s: %s", w.Pos(f.Pos()), b)
			}
			if len(bad) == 0 && r.check(good > 0, "util."+d.name+": success", "never returns a value") {
				r.pass("util.%s returns the float with the parsed bit pattern", d.name)
			}
		})
	}
	f := w.fn("util", "StrToIntSlice")
	if !r.check(f != nil, "util.StrToIntSlice", "util.StrToIntSlice does not exist") {
		return
	}
	r.count("decoders", 1)
	for _, hexa := range []bool{false, true} {
		hexa := hexa
		key := fmt.Sprintf("util.StrToIntSlice hex=%v", hexa)
		ns := []int{}
		for n := 0; n <= 300; n++ {
			ns = append(ns, n)
		}
		parallel(len(ns), func(k int) {
			n := ns[k]
			guarded(r, key, func() {
				in0 := mkTerm("argument 0")
				e := &explore{w: w, limit: 1000,
					setup: func(x *explorer, in *Interp) {
						x.strict = true
						x.lens = map[string]int{}
						if !hexa {
							x.lens[in0.key()] = n
						}
						x.model = func(x *explorer, in *Interp, name string, sig *types.Signature, args []Value) (Value, bool) {
							if name == "encoding/hex.DecodeString" {
								o := mkTerm(name, args...).part("result 0")
								x.lens[o.key()] = n
								return Tuple{o, mkTerm("error of "+name, args...)}, true
							}
							return toolModel(x, in, name, sig, args)
						}
					},
					body: func(in *Interp) Value { return in.call(f, []Value{in0, hexa}) },
					end: func(pe *pathEnd) []string {
						if pe.how != "return" {
							return []string{"ends with " + pe.how + " " + pe.msg}
						}
						src := in0
						if hexa {
							src = mkTerm("encoding/hex.DecodeString", in0).part("result 0")
						}
						if isnil, known := pe.x.isNil(mkTerm("error of encoding/hex.DecodeString", in0)); known && !isnil {
							return nil
						}
						s, ok := pe.ret.(SliceV)
						if pe.ret == nil {
							ok = true
						}
						if !ok || s.len != n {
							return []string{fmt.Sprintf("returns %s for %d bytes", keyOf(pe.ret), n)}
						}
						for i := 0; i < n; i++ {
							v := s.arr[i].v
							if strings.HasPrefix(opOf(v), "convert uint8 to int") {
								v = argOf(v, 0)
							}
							if keyOf(v) != mkTerm("index", src, int64(i)).key() {
								return []string{fmt.Sprintf("element %d of %d is %s", i, n, keyOf(v))}
							}
						}
						return nil
					}}
				_, _, bad := e.run(nil)
				r.count("string lengths", 1)
				for _, b := range bad {
					r.alarm(key, "%s: %s", w.Pos(f.Pos()), b)
				}
				if len(bad) == 0 {
					r.pass("%s, %d bytes", key, n)
				}
			})
		})
	}
}
