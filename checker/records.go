package main

// C40: benchmark records describe the run they belong to.

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { props["C40"] = &propDef{"other", checkRecords} }

// timedStep says which step of the pipeline a column of the header stands for.
func timedStep(col string) string {
	for _, s := range [][2]string{{"compil", "Compile"}, {"setup", "Setup"}, {"prov", "Prove"}, {"verif", "Verify"}} {
		if strings.HasPrefix(col, s[0]) && strings.HasSuffix(col, "time") {
			return s[1]
		}
	}
	return ""
}

var verbRE = regexp.MustCompile(`%[-+# 0]*\d*(\.\d+)?[a-zA-Z%]`)

// recordRun follows what is appended to the results file on a path.
type recordRun struct {
	w      *World
	p      *pipeRun
	f      *ssa.Function
	clock  map[string]int // reading of the clock -> number of events before it
	header []string
	file   string
	lines  int
	// written since the last end of line
	pending []piece
	bad     []string
}

func (q *recordRun) note(in *Interp, f string, a ...any) {
	q.bad = append(q.bad, fmt.Sprintf(f, a...)+" ["+in.where()+"]")
}

func ifaceArgs(v Value) (out []Value) {
	s, ok := v.(SliceV)
	if !ok {
		return nil
	}
	for _, c := range s.arr[:s.len] {
		x := c.load()
		if i, ok := x.(Iface); ok {
			x = i.v
		}
		out = append(out, x)
	}
	return
}

func (q *recordRun) model(x *explorer, in *Interp, name string, sig *types.Signature, args []Value) (Value, bool) {
	short := name[strings.LastIndex(name, ".")+1:]
	switch name {
	case "time.Now":
		x.seq++
		o := mkTerm("clock", int64(x.seq))
		q.clock[o.key()] = len(x.events)
		return o, true
	case "time.Since":
		x.seq++
		o := mkTerm("clock", int64(x.seq))
		q.clock[o.key()] = len(x.events)
		return mkTerm("-", o, args[0]), true
	case "(time.Time).Sub":
		return mkTerm("-", args[0], args[1]), true
	case "(time.Time).UnixMicro", "(time.Time).UnixNano", "(time.Time).UnixMilli", "(time.Duration).Microseconds", "(time.Duration).Nanoseconds", "(time.Duration).Milliseconds":
		unit := map[byte]string{'M': "ms", 'N': "ns"}[strings.TrimPrefix(short, "Unix")[0]]
		if strings.Contains(short, "Micro") {
			unit = "us"
		}
		return mkTerm("in "+unit, args[0]), true
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		return mkTerm(short, args...), true
	case "os.OpenFile":
		if f, ok := args[1].(int64); !ok || f&0x400 == 0 || f&0x200 != 0 {
			q.note(in, "does not open the results file for appending")
		}
	case "os.Create":
		q.note(in, "discards the results recorded before")
	}
	if short == "GetNbConstraints" {
		return mkTerm("constraints of", args[0]), true
	}
	if w, _, ok := writeCall(name, short, args); ok && !strings.Contains(keyOf(w), "variable os.Std") {
		q.line(x, in, name, args)
	}
	return q.p.model(x, in, name, sig, args)
}

// piece is literal text (v nil) or a value printed in decimal.
type piece struct {
	text string
	v    Value
}

// render lists what a string value is made of.
func render(v Value) ([]piece, bool) {
	if s, ok := v.(string); ok {
		return []piece{{text: s}}, true
	}
	o, ok := v.(Opaque)
	if !ok || o.t == nil {
		return nil, false
	}
	a := o.t.args
	all := func(vs []Value, sep string) (out []piece, ok bool) {
		for i, x := range vs {
			if i > 0 && sep != "" {
				out = append(out, piece{text: sep})
			}
			p, ok := render(x)
			if !ok {
				return nil, false
			}
			out = append(out, p...)
		}
		return out, true
	}
	switch op := o.t.op; {
	case strings.HasPrefix(op, "convert ") && (strings.Contains(op, " to string") || strings.Contains(op, " to []byte") || strings.Contains(op, " to []uint8")):
		return render(a[0])
	case op == "+":
		return all(a, "")
	case op == "Sprintf":
		f, ok := a[0].(string)
		if !ok {
			return nil, false
		}
		return format(f, ifaceArgs(a[1]))
	case op == "Sprint", op == "Sprintln":
		return printed(op, ifaceArgs(a[0]))
	case op == "strconv.FormatInt", op == "strconv.FormatUint":
		b, ok := a[1].(int64)
		if ok && b == 16 && op == "strconv.FormatUint" {
			return []piece{{v: mkTerm("hex", a[0])}}, true
		}
		if !ok || b != 10 {
			return nil, false
		}
		return []piece{{v: a[0]}}, true
	case op == "strconv.Itoa":
		return []piece{{v: a[0]}}, true
	case op == "strings.Join":
		sep, ok := a[1].(string)
		if !ok {
			return nil, false
		}
		s, ok := a[0].(SliceV)
		if !ok {
			return nil, false
		}
		var vs []Value
		for _, c := range s.arr[:s.len] {
			vs = append(vs, c.load())
		}
		return all(vs, sep)
	}
	return nil, false
}

// value is one operand of a print function.
func value(v Value) []piece {
	if p, ok := render(v); ok {
		return p
	}
	return []piece{{v: v}}
}

func format(f string, vals []Value) (out []piece, ok bool) {
	at, n := 0, 0
	for _, m := range verbRE.FindAllStringIndex(f, -1) {
		out = append(out, piece{text: f[at:m[0]]})
		verb := f[m[0]:m[1]]
		at = m[1]
		if verb == "%%" {
			out = append(out, piece{text: "%"})
			continue
		}
		if n >= len(vals) {
			return nil, false
		}
		switch verb[len(verb)-1] {
		case 'd', 'v', 's':
		case 'x', 'X':
			out = append(out, piece{v: mkTerm("hex", vals[n])})
			n++
			continue
		default:
			return nil, false
		}
		out = append(out, value(vals[n])...)
		n++
	}
	return append(out, piece{text: f[at:]}), n == len(vals)
}

func printed(fn string, vals []Value) (out []piece, ok bool) {
	ln := strings.HasSuffix(fn, "ln")
	for i, v := range vals {
		p := value(v)
		if i > 0 && ln {
			out = append(out, piece{text: " "})
		} else if i > 0 && (p[0].v != nil || out[len(out)-1].v != nil) {
			return nil, false // whether a space is added depends on the types
		}
		out = append(out, p...)
	}
	if ln {
		out = append(out, piece{text: "\n"})
	}
	return out, true
}

// line judges one write.
func (q *recordRun) line(x *explorer, in *Interp, name string, args []Value) {
	var ps []piece
	ok := true
	switch {
	case name == "fmt.Fprintf":
		var f string
		if f, ok = args[1].(string); ok {
			ps, ok = format(f, ifaceArgs(args[2]))
			if !ok {
				q.note(in, "the format %q does not fit its %d values", f, len(ifaceArgs(args[2])))
				return
			}
		}
	case strings.HasPrefix(name, "fmt.Fprint"):
		ps, ok = printed(name, ifaceArgs(args[1]))
	case name == "os.WriteFile":
		q.note(in, "discards the results recorded before")
		return
	case strings.HasPrefix(name, "(*encoding/csv.Writer).Write"):
		ps, ok = render(mkTerm("strings.Join", args[1], ","))
		ps = append(ps, piece{text: "\n"})
	default:
		ps, ok = render(args[1])
	}
	if !ok {
		q.note(in, "not decided: what is written is %s", keyOf(args[1]))
		return
	}
	for _, p := range ps { // complete lines are judged, the rest waits for the next write
		if p.v != nil {
			q.pending = append(q.pending, p)
			continue
		}
		for {
			i := strings.IndexByte(p.text, '\n')
			if i < 0 {
				break
			}
			l := append(q.pending, piece{text: p.text[:i]})
			q.pending = nil
			q.whole(x, in, l)
			p.text = p.text[i+1:]
		}
		if p.text != "" {
			q.pending = append(q.pending, p)
		}
	}
}

// whole judges one complete line.
func (q *recordRun) whole(x *explorer, in *Interp, ps []piece) {
	var cols0 [][]piece
	cur := []piece{}
	hole := false
	for _, p := range ps {
		if p.v != nil {
			hole = true
			cur = append(cur, p)
			continue
		}
		parts := strings.Split(p.text, ",")
		for i, s := range parts {
			if i > 0 {
				cols0 = append(cols0, cur)
				cur = []piece{}
			}
			if s = strings.TrimSpace(s); s != "" {
				cur = append(cur, piece{text: s})
			}
		}
	}
	cols0 = append(cols0, cur)
	if !hole {
		// a header
		empty := false
		for k, v := range x.conds {
			if v && strings.HasPrefix(k, "==(") && strings.Contains(k, "Size(") && strings.HasSuffix(k, ",0)") ||
				!v && (strings.HasPrefix(k, ">(") || strings.HasPrefix(k, "!=(")) && strings.Contains(k, "Size(") && strings.HasSuffix(k, ",0)") {
				empty = true
			}
		}
		if !empty {
			q.note(in, "writes the header to a file that may hold results already")
		}
		q.header = nil
		for _, c := range cols0 {
			t := ""
			for _, p := range c {
				t += p.text
			}
			q.header = append(q.header, t)
		}
		return
	}
	var vals []Value
	for i, c := range cols0 {
		if len(c) != 1 || c[0].v == nil {
			q.note(in, "column %d of the record is not one value", i+1)
			return
		}
		vals = append(vals, c[0].v)
	}
	q.lines++
	cols := q.w.recordHeader(q.f)
	if cols == nil {
		cols = q.header
	}
	if len(cols) != len(vals) {
		q.note(in, "the header announces %d columns and the record has %d", len(cols), len(vals))
		return
	}
	for i, c := range cols {
		if m := q.column(x, strings.ToLower(c), vals[i]); m != "" {
			q.note(in, "column %s %s", c, m)
		}
	}
}

// column says what is wrong with the value of a column.
func (q *recordRun) column(x *explorer, col string, v Value) string {
	v = stripInt(v)
	o, ok := v.(Opaque)
	if !ok || o.t == nil {
		return "is the fixed value " + keyOf(v)
	}
	if strings.Contains(col, "constraint") {
		if o.t.op != "constraints of" {
			return "is not the number of constraints of the compiled circuit"
		}
		t := q.p.tok(o.t.args[0])
		if t == nil || t.kind != "cs" {
			return "counts the constraints of something else"
		}
		if n := len(q.p.proofs); n == 0 || q.p.proofs[n-1].cs != t {
			return "counts the constraints of another circuit than the one that was proved"
		}
		return ""
	}
	if step := timedStep(col); step != "" {
		a, b, ok := q.interval(o)
		if !ok {
			return "is not a difference of two readings of the clock in microseconds"
		}
		if a >= b {
			return "is a negative or empty time span"
		}
		var in []string
		for _, ev := range x.events[a:b] {
			s := pipeStep(ev.name)
			s = s[strings.LastIndex(s, ".")+1:]
			switch s {
			case "Compile", "Setup", "Prove", "Verify":
				in = append(in, s)
			}
		}
		if len(in) != 1 || in[0] != step {
			return fmt.Sprintf("measures %v instead of %s", in, step)
		}
		for _, ev := range x.events[b:] {
			if s := pipeStep(ev.name); strings.HasSuffix(s, "."+step) {
				return "was measured in an earlier turn"
			}
		}
		return ""
	}
	if !strings.HasPrefix(o.t.op, "argument ") {
		return "is not the value that was given"
	}
	if f := strings.Fields(o.t.op); len(f) < 3 || strings.ToLower(f[2]) != col {
		return "is another argument"
	}
	return ""
}

// whole undoes the copying of an unknown structure field by field.
func whole(v Value) Value {
	s, ok := v.(*StructV)
	if !ok || len(s.f) == 0 {
		return v
	}
	st, ok := s.t.Underlying().(*types.Struct)
	if !ok {
		return v
	}
	var from *Opaque
	for i, f := range s.f {
		o, ok := f.(Opaque)
		if !ok || o.t == nil || o.t.op != "field "+st.Field(i).Name() || len(o.t.args) != 1 {
			return v
		}
		a, ok := o.t.args[0].(Opaque)
		if !ok || a.t == nil || from != nil && from.t.key != a.t.key {
			return v
		}
		from = &a
	}
	return *from
}

// interval finds the two readings a duration is made from.
func (q *recordRun) interval(o Opaque) (a, b int, ok bool) {
	read := func(v Value) (int, bool) {
		v = whole(v)
		u, ok := v.(Opaque)
		if !ok || u.t == nil {
			return 0, false
		}
		n, ok := q.clock[u.key()]
		return n, ok
	}
	unit := func(v Value) (Value, bool) {
		u, ok := v.(Opaque)
		if ok && u.t != nil && u.t.op == "in us" {
			return u.t.args[0], true
		}
		return nil, false
	}
	switch {
	case o.t.op == "in us": // of a duration
		d, isO := o.t.args[0].(Opaque)
		if !isO || d.t == nil || d.t.op != "-" || len(d.t.args) != 2 {
			return
		}
		b, ok = read(d.t.args[0])
		if ok {
			a, ok = read(d.t.args[1])
		}
	case o.t.op == "-" && len(o.t.args) == 2:
		y, ok1 := unit(o.t.args[0])
		z, ok2 := unit(o.t.args[1])
		if !ok1 || !ok2 {
			return
		}
		b, ok = read(y)
		if ok {
			a, ok = read(z)
		}
	}
	return
}

// recordHeader is the header a function writes to an empty file, found by a first exploration.
func (w *World) recordHeader(f *ssa.Function) []string { return w.headers[f] }

func checkRecords(w *World, r *Report) {
	r.explain = "Every function that runs the proving pipeline and writes to a file is followed along all its paths (as for C24). Each line it writes is matched with the header it writes to an empty file: the number of columns, the given arguments, the number of constraints of the system that was proved, and for each time that it is the difference of two readings of the clock around exactly the step of that name in this turn."
	r.rules = []string{"records have the columns of the header", "arguments, constraint count and times are those of this run", "results are appended, the header only goes to an empty file"}
	hit := w.reachesPipeline()
	w.headers = map[*ssa.Function][]string{}
	var roots []*ssa.Function
	for _, f := range w.repoFuncs() {
		if hit[f] && f.Parent() == nil && f.Object() != nil && f.Object().Exported() {
			roots = append(roots, f)
		}
	}
	sort.Slice(roots, func(i, j int) bool { return roots[i].String() < roots[j].String() })
	for _, f := range roots {
		key := shortFn(w, f)
		guardRun(r, key, func() {
			lines := 0
			var bad []string
			paths := 0
			for turn := 0; turn < 2; turn++ { // the first turn finds the header
				lines, bad = 0, nil
				var q *recordRun
				e := &explore{w: w, limit: 20000,
					setup: func(x *explorer, in *Interp) {
						q = &recordRun{w: w, f: f, clock: map[string]int{}, p: &pipeRun{w: w, toks: map[string]*pipeTok{}, steps: map[string]int{}}}
						x.model = q.model
						x.known = q.p.knownToks
					},
					body: func(in *Interp) Value { return in.call(f, w.helperArgs(f)) },
					end: func(pe *pathEnd) []string {
						if len(q.pending) > 0 {
							q.bad = append(q.bad, "a record is not one line")
						}
						lines += q.lines
						if turn == 0 {
							if q.header != nil {
								w.headers[f] = q.header
							}
							return nil
						}
						return q.bad
					}}
				var n int
				n, _, bad = e.run(r)
				paths += n
			}
			undecided := false
			for _, b := range bad {
				undecided = undecided || strings.HasPrefix(b, "not decided") || strings.Contains(b, "record")
			}
			if lines == 0 && !undecided {
				r.count("helpers that record nothing", 1)
				return
			}
			r.count("helpers that record results", 1)
			r.count("records judged", lines)
			r.count("paths followed", paths)
			if w.headers[f] == nil {
				r.alarm(key+" header", "%s writes results without a header", key)
			}
			n := 0
			for _, b := range bad {
				if strings.Contains(b, "records a result") {
					continue // C24
				}
				n++
				r.alarm(key+": "+strings.SplitN(b, " [", 2)[0], "%s %s", key, b)
			}
			if n == 0 {
				r.pass("%s: %d records match the header %v", key, lines, w.headers[f])
			}
		})
	}
	r.atLeast("helpers that record results", 1)
}
