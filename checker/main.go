package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

// propDef is one property check.
type propDef struct {
	level string
	run   func(w *World, r *Report)
}

var props = map[string]*propDef{}

func floatProp(explain string, modes []int, names ...string) *propDef {
	return &propDef{"proof", func(w *World, r *Report) {
		r.explain = explain
		n := 0
		for _, mode := range modes {
			w.floatCheck(r, names, mode)
			for _, x := range names {
				n += len(floatJobs[x].fmts())
			}
		}
		r.atLeast("circuit fragments extracted (operation x format x front end x limb width)", len(allCfgs())*n)
		r.atLeast("cases proved", n)
	}}
}

var (
	arithJobs  = []string{"Add", "Sub", "Mul", "Div", "Sqrt"}
	roundJobs  = []string{"Trunc", "Floor", "Ceil"}
	simpleJobs = []string{"Abs", "Neg", "Select"}
	cmpJobs    = []string{"IsLt", "IsLe", "IsGt", "IsGe"}
	tolJobs    = []string{"AssertIsEqualOrULP", "AssertIsEqualOrCustomULP32", "AssertIsEqualOrCustomULP64"}
)

func cat(xs ...[]string) (out []string) {
	for _, x := range xs {
		out = append(out, x...)
	}
	return
}

func init() {
	const common = "The circuit-building code of the operation is partially evaluated (Go SSA interpreter) for both formats, both gnark front ends and every limb width; the recorded constraints are facts, hint outputs are unknowns; for every class of operands an algebraic/interval/polyhedral abstract domain with trace partitioning derives the outputs as functions of the operands and compares them with IEEE-754. Nothing is executed on concrete operand values."
	sound, both := []int{mSound}, []int{mSound, mComplete}
	props["C01"] = floatProp(common, both, "NewFloat")
	props["C03"] = floatProp(common, sound, "Add", "Sub")
	props["C04"] = floatProp(common, sound, "Mul")
	props["C05"] = floatProp(common, sound, "Div")
	props["C06"] = floatProp(common, sound, "Sqrt")
	props["C07"] = floatProp(common, both, cmpJobs...)
	props["C08"] = floatProp(common, sound, roundJobs...)
	props["C09"] = floatProp(common, both, "ToInt")
	props["C10"] = floatProp(common, both, simpleJobs...)
	props["C11"] = floatProp(common, both, "AssertIsEqual")
	props["C12"] = floatProp(common, both, tolJobs...)
	props["C13"] = floatProp(common+" Completeness mode: hint outputs are the values the registered hint bodies (partially evaluated too) compute, and every constraint, range check, lookup and hint error path is an obligation.", []int{mComplete},
		cat([]string{"NewFloat", "ToInt", "AssertIsEqual"}, arithJobs, roundJobs, simpleJobs, cmpJobs, tolJobs)...)
	props["C14"] = floatProp(common, []int{mCanon}, cat([]string{"NewFloat"}, arithJobs, roundJobs, simpleJobs)...)
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "repository")
	dir := flag.String("dir", "/verif", "framework directory")
	seed := flag.Int("seed", 1, "seed (unused: the analysis is deterministic)")
	job := flag.String("job", "", "debug: run one float job")
	fm := flag.String("fmt", "", "debug: format")
	flt := flag.String("filter", "", "debug: task filter")
	comp := flag.Int("mode", 0, "debug: 0 soundness, 1 completeness, 2 canonical form")
	dbg := flag.Bool("debug", false, "debug: dump failing states")
	prof := flag.String("cpuprofile", "", "debug")
	flag.Parse()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
	}
	debug.SetGCPercent(400)
	t0 := time.Now()
	deadline = t0.Add(700 * time.Second)
	if *job != "" {
		debugJob(*repo, *job, *fm, *flt, *comp, *dbg)
		return
	}
	p := props[*prop]
	if p == nil {
		fmt.Println("unknown property", *prop)
		os.Exit(2)
	}
	r := newReport(*prop, *tier)
	func() {
		defer func() {
			if x := recover(); x != nil {
				s := strings.Split(string(debug.Stack()), "\n")
				var at []string
				for _, l := range s {
					if strings.Contains(l, "/checker/") {
						at = append(at, strings.TrimSpace(l))
					}
				}
				msg := fmt.Sprint(x)
				switch e := x.(type) {
				case undecidedErr:
					msg = e.msg
				case goPanic:
					msg = panicMsg(e)
				}
				r.alarm("analysis", "not decided: %v %s", msg, strings.Join(at[:min(4, len(at))], " < "))
			}
		}()
		w, err := loadWorld(*repo, false)
		if err != nil {
			r.alarm("load", "the repository does not type-check: %v", err)
			return
		}
		p.run(w, r)
	}()
	pprof.StopCPUProfile()
	os.Exit(r.finish(*dir, p, t0, *seed))
}

func debugJob(repo, name, fm, flt string, comp int, dbg bool) {
	t0 := time.Now()
	w, err := loadWorld(repo, false)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	j := floatJobs[name]
	for _, f := range j.fmts() {
		if fm != "" && fm != f.String() {
			continue
		}
		frs, errs := w.opFrags(j.op, f, allCfgs())
		fmt.Println(f, len(frs), errs, time.Since(t0))
		var ts []*Task
		for _, t := range w.jobTasks(name, j, f, frs, comp) {
			if strings.Contains(t.name, flt) {
				t.debug = dbg
				ts = append(ts, t)
			}
		}
		d := runTasks(ts)
		sort.SliceStable(ts, func(i, j int) bool { return ts[i].dur < ts[j].dur })
		n, l, s := 0, 0, 0
		for _, t := range ts {
			n++
			l += t.leaves
			s += t.sat
			if len(t.alarms) > 0 || flt != "" {
				fmt.Println(t.name, "leaves", t.leaves, "infeasible", t.infeas, "sat", t.sat, "splits", t.splits, "checked", t.checked, t.dur.Round(time.Millisecond))
			}
			if len(t.alarms) > 0 {
				a := t.alarms[0].String()
				if len(a) > 1500 {
					a = a[:1500]
				}
				fmt.Println("   ALARM", a)
			}
		}
		fmt.Println(name, f, n, "tasks", l, "leaves", s, "proved", d)
	}
}
