package main

// C22, C23: the constant tables against the H3 reference sources and against each other.

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C22"] = &propDef{"other", checkTables}
	props["C23"] = &propDef{"other", checkSiblingTables}
}

// h3ref holds the reference constants, as exact decimals.
type h3ref struct {
	dir                    string
	lat, lng, azimuth      []*big.Float
	point                  []*big.Float
	sinLat, cosLat         []*big.Float
	sinLng, cosLng         []*big.Float
	sin60, sqrt7, res, rot *big.Float
}

const refPrec = 200

func dec(s string) *big.Float {
	v, _, err := big.ParseFloat(s, 10, refPrec, big.ToNearestEven)
	if err != nil {
		panic(undecided("not a decimal in the H3 sources: " + s))
	}
	return v
}

var cComment = regexp.MustCompile(`(?s)/\*.*?\*/|//[^\n]*`)
var cNumber = regexp.MustCompile(`[-+]?[0-9]+\.[0-9]+(?:[eE][-+]?[0-9]+)?`)

func (w *World) h3Dir() string {
	dir := ""
	packages.Visit(w.allTop, func(p *packages.Package) bool {
		if dir == "" && p.PkgPath == "github.com/uber/h3-go/v4" && p.Module != nil {
			dir = p.Module.Dir
		}
		return dir == ""
	}, nil)
	return dir
}

func loadH3(w *World) *h3ref {
	h := &h3ref{dir: w.h3Dir()}
	if h.dir == "" {
		panic(undecided("the H3 sources (github.com/uber/h3-go/v4) are not among the dependencies"))
	}
	read := func(n string) string {
		b, err := os.ReadFile(filepath.Join(h.dir, n))
		if err != nil {
			panic(undecided("cannot read the H3 reference: " + err.Error()))
		}
		return cComment.ReplaceAllString(string(b), " ")
	}
	face, cst := read("h3_faceijk.c"), read("h3_constants.h")
	table := func(decl string, n int) []*big.Float {
		i := strings.Index(face, decl)
		if i < 0 {
			panic(undecided("no " + decl + " in the H3 sources"))
		}
		s := face[i:]
		s = s[strings.Index(s, "=")+1 : strings.Index(s, "};")]
		var out []*big.Float
		for _, m := range cNumber.FindAllString(s, -1) {
			out = append(out, dec(m))
		}
		if len(out) != n {
			panic(undecided(fmt.Sprintf("%s has %d numbers, want %d", decl, len(out), n)))
		}
		return out
	}
	def := func(src, name string) *big.Float {
		m := regexp.MustCompile(`#define\s+` + name + `\s+([-+]?[0-9.]+)L?\s`).FindStringSubmatch(src)
		if m == nil {
			panic(undecided("no " + name + " in the H3 sources"))
		}
		return dec(m[1])
	}
	geo := table("faceCenterGeo[NUM_ICOSA_FACES]", 40)
	az := table("faceAxesAzRadsCII[NUM_ICOSA_FACES][3]", 60)
	h.point = table("faceCenterPoint[NUM_ICOSA_FACES]", 60)
	for i := 0; i < 20; i++ {
		h.lat, h.lng, h.azimuth = append(h.lat, geo[2*i]), append(h.lng, geo[2*i+1]), append(h.azimuth, az[3*i])
		s, c := bigSinCos(h.lat[i])
		h.sinLat, h.cosLat = append(h.sinLat, s), append(h.cosLat, c)
		s, c = bigSinCos(h.lng[i])
		h.sinLng, h.cosLng = append(h.sinLng, s), append(h.cosLng, c)
	}
	h.sin60, h.rot, h.res = def(cst, "M_SQRT3_2"), def(cst, "M_AP7_ROT_RADS"), def(cst, "RES0_U_GNOMONIC")
	h.sqrt7 = def(face, "M_SQRT7")
	return h
}

func bf(x float64) *big.Float { return new(big.Float).SetPrec(refPrec).SetFloat64(x) }

// bigSinCos evaluates the Taylor series (|x| < 10).
func bigSinCos(x *big.Float) (s, c *big.Float) {
	s, c = bf(0), bf(0)
	t := bf(1)
	for k := 0; k < 120; k++ {
		v := new(big.Float).SetPrec(refPrec).Set(t)
		if k%4 >= 2 {
			v.Neg(v)
		}
		if k%2 == 0 {
			c.Add(c, v)
		} else {
			s.Add(s, v)
		}
		t.Mul(t, x)
		t.Quo(t, bf(float64(k+1)))
	}
	return
}

// seqs lists the reference sequences; derived ones are computed, not printed, in H3.
type refSeq struct {
	name    string
	v       []*big.Float
	derived bool
	names   []string // of the variables that hold it (without precision suffix)
}

func (h *h3ref) seqs() []refSeq {
	return []refSeq{
		{"face centre longitude", h.lng, false, []string{"FaceCenterGeoLng"}},
		{"face centre latitude", h.lat, false, []string{"FaceCenterGeoLat"}},
		{"face centre point", h.point, false, []string{"FaceCenterPoint"}},
		{"face azimuth", h.azimuth, false, []string{"Azimuth"}},
		{"cosine of the face latitude", h.cosLat, true, []string{"CosFaceLat"}},
		{"sine of the face latitude", h.sinLat, true, []string{"SinFaceLat"}},
		{"cosine of the face longitude", h.cosLng, true, []string{"CosFaceLng"}},
		{"sine of the face longitude", h.sinLng, true, []string{"SinFaceLng"}},
		{"sin 60 degrees", []*big.Float{h.sin60}, false, []string{"Sin60"}},
		{"square root of seven", []*big.Float{h.sqrt7}, false, []string{"Sqrt7"}},
		{"resolution 0 scale", []*big.Float{h.res}, false, []string{"ResConst"}},
		{"aperture 7 rotation", []*big.Float{h.rot}, false, []string{"Ap7rot"}},
	}
}

// needed sequences: those the pipelines of the repository are built from.
var needSeqs = map[string]bool{"face centre longitude": true, "face centre point": true, "face azimuth": true, "cosine of the face latitude": true,
	"sine of the face latitude": true, "sin 60 degrees": true, "square root of seven": true, "resolution 0 scale": true, "aperture 7 rotation": true}

// floatTable is a package-level variable or constant made of floats.
type floatTable struct {
	rel, name string
	bits      int
	v         []float64
	pos       string
	geo       bool // latitude and longitude interleaved
}

func (t floatTable) base() string {
	return strings.TrimSuffix(strings.TrimSuffix(t.name, "_64"), "_32")
}

func flatFloats(v Value, t types.Type, out *[]float64, bits *int) bool {
	switch x := v.(type) {
	case float64:
		b, ok := t.Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsFloat == 0 {
			return false
		}
		n := 64
		if b.Kind() == types.Float32 {
			n = 32
		}
		if *bits != 0 && *bits != n {
			return false
		}
		*bits = n
		*out = append(*out, x)
		return true
	case *StructV:
		for i, f := range x.f {
			var ft types.Type
			switch u := t.Underlying().(type) {
			case *types.Struct:
				ft = u.Field(i).Type()
			case *types.Array:
				ft = u.Elem()
			default:
				return false
			}
			if !flatFloats(f, ft, out, bits) {
				return false
			}
		}
		return true
	case SliceV:
		u, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		for i := 0; i < x.len; i++ {
			if !flatFloats(x.arr[i].load(), u.Elem(), out, bits) {
				return false
			}
		}
		return true
	}
	return false
}

// floatTables evaluates every package-level float variable and constant of the repository.
func (w *World) floatTables(r *Report) (out []floatTable) {
	in := newInterp(w)
	in.g = newGraph(in, "R1CS")
	in.touched = map[string]bool{}
	for _, q := range w.main {
		sp := w.prog.Package(q.Types)
		in.initPkg(sp)
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			t := floatTable{rel: strings.TrimPrefix(q.PkgPath, w.mod+"/"), name: n}
			switch m := sp.Members[n].(type) {
			case *ssa.Global:
				ty := m.Type().(*types.Pointer).Elem()
				if !floatShape(ty) {
					continue
				}
				t.pos = w.Pos(m.Pos())
				if !flatFloats(in.global(m).load(), ty, &t.v, &t.bits) {
					r.alarm("table "+t.rel+"."+n, "cannot evaluate the initial value of %s (%s)", n, t.pos)
					continue
				}
			case *ssa.NamedConst:
				b, ok := m.Type().Underlying().(*types.Basic)
				if !ok || b.Info()&types.IsFloat == 0 || m.Value == nil {
					continue
				}
				t.pos = w.Pos(m.Pos())
				t.bits = 64
				if b.Kind() == types.Float32 {
					t.bits = 32
				}
				t.v = []float64{m.Value.Float64()}
			default:
				continue
			}
			out = append(out, t)
		}
	}
	r.touch(in.touched)
	return
}

func floatShape(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsFloat != 0
	case *types.Array:
		return floatShape(u.Elem())
	case *types.Slice:
		return floatShape(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !floatShape(u.Field(i).Type()) {
				return false
			}
		}
		return u.NumFields() > 0
	}
	return false
}

func near(x float64, ref *big.Float, rel float64) bool {
	f, _ := ref.Float64()
	return math.Abs(x-f) <= rel*math.Max(math.Abs(f), 0.05)
}

// classify finds the reference sequence a table stands for: by its name, otherwise by its values.
func classify(t floatTable, seqs []refSeq) *refSeq {
	for i, s := range seqs {
		for _, n := range s.names {
			if t.base() == n && len(s.v) == len(t.v) {
				return &seqs[i]
			}
		}
	}
	best, bi := 0, -1
	for i, s := range seqs {
		if len(s.v) != len(t.v) {
			continue
		}
		n := 0
		for k, x := range t.v {
			if near(x, s.v[k], 1e-3) {
				n++
			}
		}
		if n > best {
			best, bi = n, i
		}
	}
	if bi >= 0 && 2*best > len(t.v) {
		return &seqs[bi]
	}
	return nil
}

// ulpDist counts floats between two values of a width.
func ulpDist(a, b float64, bits int) uint64 {
	var x, y int64
	if bits == 32 {
		ord := func(f float64) int64 {
			v := int64(int32(math.Float32bits(float32(f))))
			if v < 0 {
				return -(v & 0x7fffffff)
			}
			return v
		}
		x, y = ord(a), ord(b)
	} else {
		ord := func(f float64) int64 {
			v := int64(math.Float64bits(f))
			if v < 0 {
				return -(v & 0x7fffffffffffffff)
			}
			return v
		}
		x, y = ord(a), ord(b)
	}
	if x > y {
		x, y = y, x
	}
	return uint64(y - x)
}

func roundRef(v *big.Float, bits int) float64 {
	if bits == 32 {
		f, _ := v.Float32()
		return float64(f)
	}
	f, _ := v.Float64()
	return f
}

func checkTables(w *World, r *Report) {
	r.explain = "Every package-level float table and constant of the repository is evaluated from its initialiser, matched with a reference sequence (by name, otherwise by values) and compared entry by entry with the decimals parsed from the H3 C sources of the module the repository depends on; sines and cosines of face latitudes are recomputed in 200-bit arithmetic."
	r.rules = []string{"reference entry: nearest float of the H3 decimal", "derived entry: within one unit in the last place of the exact sine or cosine of the H3 latitude",
		"every sequence the location circuits are built from exists in both precisions"}
	h := loadH3(w)
	seqs := h.seqs()
	seen := map[string]string{}
	for _, t := range w.floatTables(r) {
		s := classify(t, seqs)
		if s == nil {
			if len(t.v) == 40 {
				t.geo = true
				for i := 0; i < 20; i++ {
					for j, q := range []int{1, 0} { // latitude, longitude
						one := floatTable{rel: t.rel, name: t.name, bits: t.bits, v: []float64{t.v[2*i+j]}, pos: t.pos}
						checkEntries(r, one, &refSeq{name: seqs[q].name, v: seqs[q].v[i : i+1]}, i)
					}
				}
			}
			r.count("unrelated float values", 1)
			continue
		}
		key := fmt.Sprintf("%s/%d", s.name, t.bits)
		seen[key] = t.rel + "." + t.name
		r.count("tables compared with the reference", 1)
		checkEntries(r, t, s, 0)
	}
	for _, s := range seqs {
		if !needSeqs[s.name] {
			continue
		}
		for _, b := range []int{32, 64} {
			key := fmt.Sprintf("%s/%d", s.name, b)
			r.check(seen[key] != "", "present "+key, "no %d-bit table or constant holds the %s", b, s.name)
		}
	}
	maxResolution(w, r, h)
	r.atLeast("entries compared", 140)
}

// maxResolution compares the bound the circuits assert with the finest H3 resolution.
func maxResolution(w *World, r *Report, h *h3ref) {
	b, err := os.ReadFile(filepath.Join(h.dir, "h3_constants.h"))
	if err != nil {
		panic(undecided(err.Error()))
	}
	m := regexp.MustCompile(`#define\s+MAX_H3_RES\s+(\d+)`).FindSubmatch(b)
	if m == nil {
		panic(undecided("no MAX_H3_RES in the H3 sources"))
	}
	in := newInterp(w)
	in.g = newGraph(in, "R1CS")
	for _, q := range w.main {
		sp := w.prog.Package(q.Types)
		in.initPkg(sp)
		switch g := sp.Members["MaxResolution"].(type) {
		case *ssa.Global:
			n := in.node(in.global(g).load())
			r.count("resolution bounds", 1)
			r.check(n.op == nConst && n.c.String() == string(m[1]), "largest resolution", "MaxResolution (%s) is not %s", w.Pos(g.Pos()), m[1])
		case *ssa.NamedConst:
			r.count("resolution bounds", 1)
			r.check(g.Value.Value.ExactString() == string(m[1]), "largest resolution", "MaxResolution (%s) is not %s", w.Pos(g.Pos()), m[1])
		}
	}
	r.atLeast("resolution bounds", 1)
}

func checkEntries(r *Report, t floatTable, s *refSeq, base int) {
	var bad []string
	for i, x := range t.v {
		want := roundRef(s.v[i], t.bits)
		ok := x == want
		if s.derived && ulpDist(x, want, t.bits) <= 1 {
			ok = true
		}
		r.count("entries compared", 1)
		if !ok {
			bad = append(bad, fmt.Sprintf("entry %d is %s, H3 has %s", base+i, strconv.FormatFloat(x, 'g', -1, t.bits), strconv.FormatFloat(want, 'g', -1, t.bits)))
		}
	}
	r.check(len(bad) == 0, fmt.Sprintf("table %s.%s against %s", t.rel, t.name, s.name), "%s (%s): %s", t.name, t.pos, strings.Join(bad, "; "))
}

func checkSiblingTables(w *World, r *Report) {
	r.explain = "Every 32-bit table or constant is paired with the 64-bit one of the same name (or of the same reference sequence) and each entry compared with the correctly rounded 64-bit entry."
	r.rules = []string{"32-bit entry = 64-bit entry rounded to nearest even", "every 32-bit table has a 64-bit counterpart and the reverse"}
	seqs := loadH3(w).seqs()
	ts := w.floatTables(r)
	pair := func(t floatTable) *floatTable {
		var bySeq *floatTable
		for i := range ts {
			o := &ts[i]
			if o.bits == t.bits || len(o.v) != len(t.v) {
				continue
			}
			if o.base() == t.base() && o.rel == t.rel {
				return o
			}
			if a, b := classify(t, seqs), classify(*o, seqs); a != nil && b != nil && a.name == b.name {
				bySeq = o
			}
		}
		return bySeq
	}
	for _, t := range ts {
		related := strings.HasSuffix(t.name, "_32") || strings.HasSuffix(t.name, "_64") || classify(t, seqs) != nil
		if !related {
			r.count("unpaired float values", 1)
			continue
		}
		o := pair(t)
		if !r.check(o != nil, "counterpart of "+t.rel+"."+t.name, "%s (%s) has no counterpart in the other precision", t.name, t.pos) || t.bits == 64 {
			continue
		}
		r.count("table pairs", 1)
		var bad []string
		for i, x := range t.v {
			r.count("entries compared", 1)
			if x != float64(float32(o.v[i])) {
				bad = append(bad, fmt.Sprintf("entry %d is %v, %s rounds to %v", i, float32(x), o.name, float32(o.v[i])))
			}
		}
		r.check(len(bad) == 0, fmt.Sprintf("pair %s.%s and %s.%s", t.rel, t.name, o.rel, o.name), "%s (%s): %s", t.name, t.pos, strings.Join(bad, "; "))
	}
	r.atLeast("table pairs", 5)
	r.atLeast("entries compared", 70)
}
