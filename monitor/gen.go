package main

// Workload generation: every random choice is a function of (seed, property,
// case index).

import (
	"fmt"
	"hash/fnv"
	"math"
	"strings"

	sym "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
	"gonum.org/v1/gonum/mat"
)

// RNG is splitmix64.
type RNG struct{ s uint64 }

func newRNG(seed int64, prop string, idx int) *RNG {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, prop, idx)
	return &RNG{h.Sum64()}
}

func (r *RNG) u64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *RNG) n(k int) int            { return int(r.u64() % uint64(k)) }
func (r *RNG) rng(lo, hi int) int     { return lo + r.n(hi-lo+1) }
func (r *RNG) f() float64             { return float64(r.u64()>>11) / (1 << 53) }
func (r *RNG) p(prob float64) bool    { return r.f() < prob }
func (r *RNG) pick(s []string) string { return s[r.n(len(s))] }
func (r *RNG) perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.n(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Coefficient profiles.
const (
	coefDyadic = iota // small dyadic rationals: all arithmetic is exact
	coefGeneral
	coefWild  // magnitudes from 1e-18 to 1e12
	coefWhole // whole numbers of up to 16 digits, or halves
)

// Gen makes the operands of one case.
type Gen struct {
	*RNG
	Env      *sym.BasicEnvironment
	Vars     []sym.Variable
	Coef     int
	MaxExp   int
	MaxTerm  int
	MaxFac   int
	Messy    bool // polynomials with repeated, zero and cancelling terms
	Spare    bool // slices with spare capacity occupied by siblings
	Watch    []any
	NoZero   bool
	Big      bool // shapes beyond the usual ones
	idOffset int
	together bool // identifiers whose texts run together
	runExp   bool
	hugeExp  bool // exponents around the limits of the narrower integer types
	Huge     bool // shapes far beyond the usual ones
	Wide     bool // polynomials have nearly MaxTerm terms
	OneWide  bool // only one of them
	Long     bool // terms of many factors, or many terms of few
	Names    int  // 1, 2, 3: several variables share a name or have names that run together
	Odd      bool // terms with exponents of zero and with variables listed twice
	Scale    int  // every coefficient is multiplied by this power of two
	Dust     int  // so many coefficients are beneath the square root of what numbers hold
	Heavy    bool // terms or exponents beyond the usual ones: scalars only
}

// outsize makes a few cases much larger in one respect than the others:
// number of entries, number of terms and variables, or exponents.
func (g *Gen) outsize(prop string) {
	if g.together && g.p(0.4) {
		switch prop {
		case "S01", "S02", "S04", "S07", "S10", "S22":
			// exponents whose texts run together with the identifiers
			g.runExp, g.Heavy = true, true
			g.MaxTerm, g.MaxFac = min(g.MaxTerm, 4), 1+g.n(2)
			return
		}
	}
	if g.p(0.008) {
		g.huge(prop)
		return
	}
	if !g.p(0.02) {
		return
	}
	switch prop {
	case "S05", "S06", "S17", "S18":
		g.bigShapes()
	case "S01", "S02", "S04", "S07", "S10", "S11", "S12", "S13", "S14", "S15", "S20", "S22":
		switch g.n(4) {
		case 0:
			for len(g.Vars) < 14 {
				g.addVar(g.n(2))
			}
			g.MaxTerm, g.MaxFac, g.MaxExp = 12+g.n(16), 1+g.n(4), min(g.MaxExp, 3)
			g.Heavy = true
		case 1:
			g.MaxExp = 30 + g.n(60)
			g.MaxTerm = min(g.MaxTerm, 4)
			g.Heavy = true
		default:
			g.bigShapes()
		}
	}
}

// hugeExps are exponents around the limits of the narrower integer types.
var hugeExps = []int{99, 100, 101, 127, 128, 129, 130, 254, 255, 256, 257, 258, 300, 511, 512, 513, 999, 1000, 1001, 1023, 1024,
	1025, 32767, 32768, 32769, 65535, 65536, 65537, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1}

// huge makes a case far beyond the usual size in one respect. Tables of a
// fixed size, narrow integers and caches that collide show there.
func (g *Gen) huge(prop string) {
	few := func() { g.MaxTerm, g.MaxExp, g.MaxFac = min(g.MaxTerm, 2), min(g.MaxExp, 2), min(g.MaxFac, 2) }
	switch prop {
	case "S03", "S21", "S08":
		return
	case "S05", "S06":
		// no large exponents: substitution multiplies out
		if g.p(0.5) {
			n := 20 + g.n(60)
			if g.p(0.2) {
				n = 100 + g.n(150)
			}
			for len(g.Vars) < n {
				g.addVar(g.n(2))
			}
			few()
			g.MaxTerm, g.Heavy, g.Wide = 20+g.n(60)+n/2, true, true
			return
		}
		few()
		g.Huge, g.Big = true, true
		return
	}
	kind := g.n(4)
	if kind == 2 && !strings.Contains("S01 S02 S04 S07 S10 S11 S12 S20 S22", prop) {
		kind = 1 // substitution and powers multiply out
	}
	switch kind {
	case 0: // many terms in many variables
		style := g.n(3)
		n := 10 + g.n(90)
		if g.p(0.3) {
			n = 100 + g.n(500)
		}
		for len(g.Vars) < n {
			g.addVar(style)
		}
		g.MaxTerm, g.MaxFac, g.MaxExp = 40+g.n(200), 1+g.n(3), min(g.MaxExp, 2)
		g.Heavy, g.Wide, g.OneWide = true, true, prop != "S01" && prop != "S04" && prop != "S07" && prop != "S10" && prop != "S22"
		if g.OneWide {
			g.MaxTerm = 20 + g.n(50)
		}
	case 1: // one long product
		for n := 10 + g.n(70); len(g.Vars) < n; {
			g.addVar(g.n(2))
		}
		g.MaxTerm, g.MaxFac, g.MaxExp = 3, 8+g.n(60), min(g.MaxExp, 2)
		g.Heavy = true
	case 2: // exponents
		g.MaxTerm, g.MaxFac = min(g.MaxTerm, 4), min(g.MaxFac, 3)
		g.hugeExp, g.Heavy = true, true
	default: // entries
		few()
		g.Huge, g.Big = true, true
		if g.p(0.3) {
			for n := 20 + g.n(300); len(g.Vars) < n; {
				g.addVar(g.n(2))
			}
		}
	}
}

func (g *Gen) bigShapes() {
	g.Big = true
	g.MaxTerm, g.MaxExp, g.MaxFac = min(g.MaxTerm, 3), min(g.MaxExp, 3), min(g.MaxFac, 2)
}

func newGen(r *RNG, prop string) *Gen {
	g := &Gen{RNG: r}
	env := sym.MakeBasicEnvironment(fmt.Sprintf("env%d", r.n(1000)))
	g.Env = &env
	nv := 1 + r.n(4)
	if r.p(0.3) {
		nv = 1 + r.n(9)
	}
	style := r.n(5)
	g.idOffset, g.together = r.n(21), style == 4
	if prop != "S20" && r.p(0.3) {
		g.Names = 1 + r.n(3)
	}
	for i := 0; i < nv; i++ {
		g.addVar(style)
	}
	switch {
	case r.p(0.55):
		g.Coef = coefDyadic
	case r.p(0.6):
		g.Coef = coefGeneral
	default:
		g.Coef = coefWild
	}
	if r.p(0.04) {
		g.Coef = coefWhole
	}
	if r.p(0.03) {
		switch prop {
		case "S01", "S04", "S07", "S10", "S11", "S20", "S22":
			// no products of coefficients here, or only of one with small whole numbers
			g.Scale = r.rng(100, 800)
			if prop == "S20" { // texts of histories that also multiply
				g.Scale = r.rng(40, 140)
			}
			if r.p(0.6) {
				g.Scale = -g.Scale
			}
		}
	}
	if r.p(0.02) && g.Scale == 0 && prop != "S03" && prop != "S16" && prop != "S21" && prop != "S08" {
		g.Dust = 1 + r.n(3)
	}
	g.MaxExp = []int{1, 2, 3, 5, 9}[r.n(5)]
	g.MaxTerm = []int{2, 3, 4, 7}[r.n(4)]
	if r.p(0.03) {
		g.MaxTerm = 14
	}
	g.MaxFac = []int{1, 2, 3, 4}[r.n(4)]
	g.Messy = r.p(0.5)
	g.Odd = r.p(0.06)
	g.Spare = r.p(0.35)
	return g
}

var varNames = []string{"a", "b", "c", "u", "w", "z", "y", "q", "r", "s", "t", "p", "f", "g", "h"}

var runTogether = []uint64{1, 11, 2, 12, 21, 111, 0, 112, 10, 121, 211, 3, 13, 31, 1111, 1 << 32, 1<<32 + 1, 1 << 63, 1<<63 + 1, 22, 122}

func (g *Gen) addVar(style int) sym.Variable {
	i := len(g.Vars)
	var v sym.Variable
	switch style {
	case 0: // plain library variables
		v = sym.NewVariable(g.Env)
	case 1:
		if g.p(0.3) {
			v = sym.NewBinaryVariable(g.Env)
		} else {
			v = sym.NewContinuousVariable(g.Env)
		}
	default: // user-made variables with their own identifiers and metadata
		ids := []uint64{uint64(i), uint64(1000 - 7*i), uint64(i*3 + 5), 1<<40 + uint64(i*13%7), uint64(i)*1e9 + 17}
		v = sym.Variable{
			ID:          ids[style%2*2+g.n(2)] + uint64(i)*2000000011,
			Lower:       -math.Round(g.f()*100) - 1,
			Upper:       math.Round(g.f()*100) + 1,
			Type:        []sym.VarType{sym.Continuous, sym.Binary, sym.Integer}[g.n(3)],
			Name:        varNames[(i*4+g.n(4))%len(varNames)],
			Environment: g.Env,
		}
		if i*4+3 >= len(varNames) || i > 2 {
			v.Name = fmt.Sprintf("v_%d", i)
		}
		if g.p(0.2) {
			v.Lower, v.Upper = math.Inf(-1), math.Inf(1)
		}
		if style == 4 {
			// identifiers whose decimal (or binary) texts run together with each other and with exponents
			v.ID = runTogether[(i+g.idOffset)%len(runTogether)]
		}
		switch g.Names {
		case 1:
			v.Name = "x"
		case 2:
			v.Name = []string{"x", "y"}[g.n(2)]
		case 3:
			v.Name = []string{"x", "xx", "x^2", "x x", "x1", "x11", "", "2 x"}[g.n(8)]
		}
		g.Env.TrackVariable(v)
	}
	g.Vars = append(g.Vars, v)
	return v
}

func (g *Gen) coef() float64 {
	if g.Scale != 0 {
		return math.Ldexp(g.coef1(), g.Scale)
	}
	return g.coef1()
}

func (g *Gen) coef1() float64 {
	if g.Dust > 0 && g.p(0.15) {
		g.Dust--
		k := math.Pow(10, -150-40*g.f())
		if g.p(0.5) {
			k = -k
		}
		return k
	}
	if !g.NoZero && g.p(0.03) {
		return 0
	}
	if g.p(0.12) {
		return []float64{1, -1, 1, 2, -2}[g.n(5)]
	}
	switch g.Coef {
	case coefDyadic:
		return float64(1+g.n(12)) * []float64{1, -1, 0.5, -0.5, 0.25, -0.25, 2, 1}[g.n(8)]
	case coefWhole:
		v := math.Floor(math.Ldexp(1+g.f(), g.n(50)))
		if g.p(0.2) {
			v += 0.5
		}
		if g.p(0.5) {
			v = -v
		}
		return v
	case coefGeneral:
		return (g.f()*2 - 1) * 10
	default:
		v := (1 + 9*g.f()) * math.Pow(10, float64(g.rng(-18, 12)))
		if g.p(0.5) {
			v = -v
		}
		return v
	}
}

func (g *Gen) variable() sym.Variable { return g.Vars[g.n(len(g.Vars))] }

func (g *Gen) exp() int {
	if g.Odd && g.p(0.3) {
		return 0
	}
	if g.runExp && g.p(0.8) {
		return []int{1, 2, 11, 12, 21, 111, 112, 3, 13, 121}[g.n(10)]
	}
	if g.hugeExp && g.p(0.7) {
		return hugeExps[g.n(len(hugeExps))]
	}
	if g.MaxExp >= 30 {
		return 1 + g.n(g.MaxExp)
	}
	e := 1
	for e < g.MaxExp && g.p(0.55) {
		e++
	}
	return e
}

func (g *Gen) mono() sym.Monomial {
	if g.p(0.1) {
		if g.p(0.5) {
			return sym.Monomial{Coefficient: g.coef()}
		}
		return sym.Monomial{Coefficient: g.coef(), Exponents: []int{}, VariableFactors: []sym.Variable{}}
	}
	k := 1 + g.n(g.MaxFac)
	if k > len(g.Vars) {
		k = len(g.Vars)
	}
	p := g.perm(len(g.Vars))[:k]
	if g.Odd && g.p(0.3) {
		for n := 1 + g.n(2); n > 0; n-- {
			p = append(p, p[g.n(k)])
		}
	}
	return g.monoOf(g.coef(), p, nil)
}

func (g *Gen) monoOf(c float64, idx []int, exps []int) sym.Monomial {
	k := len(idx)
	capn := k
	if g.Spare && g.p(0.6) {
		capn = k + 1 + g.n(4)
	}
	vs := make([]sym.Variable, k, capn)
	es := make([]int, k, capn)
	for i, ix := range idx {
		vs[i] = g.Vars[ix]
		if exps != nil {
			es[i] = exps[i]
		} else {
			es[i] = g.exp()
		}
	}
	m := sym.Monomial{Coefficient: c, Exponents: es, VariableFactors: vs}
	if capn > k {
		// a sibling lives in the spare capacity
		fv, fe := vs[:capn], es[:capn]
		for i := k; i < capn; i++ {
			fv[i] = g.variable()
			fe[i] = 100 + i
		}
		g.Watch = append(g.Watch, sym.VariableVector(fv), fe)
	}
	return m
}

// permuted returns the same term with its factors in another order.
func (g *Gen) permuted(m sym.Monomial, c float64) sym.Monomial {
	p := g.perm(len(m.Exponents))
	out := sym.Monomial{Coefficient: c}
	for _, i := range p {
		out.VariableFactors = append(out.VariableFactors, m.VariableFactors[i])
		out.Exponents = append(out.Exponents, m.Exponents[i])
	}
	return out
}

func (g *Gen) poly() sym.Polynomial {
	n := 1 + g.n(g.MaxTerm)
	if g.Wide && g.p(0.6) {
		n = g.MaxTerm
		if g.OneWide {
			g.MaxTerm = 2
		}
	} else if g.Wide {
		n = 1 + g.n(3)
	}
	ms := make([]sym.Monomial, 0, n)
	for len(ms) < n {
		if len(ms) > 0 && g.p(0.3) {
			b := ms[g.n(len(ms))]
			switch {
			case g.Messy && g.p(0.6):
				c := g.coef()
				if g.p(0.3) {
					c = -b.Coefficient
				}
				ms = append(ms, g.permuted(b, c))
				continue
			case len(b.Exponents) >= 2 && g.p(0.7):
				// same variables, the exponents of two of them swapped or the order changed
				q := g.permuted(b, g.coef())
				q.Exponents = append([]int{}, q.Exponents...)
				p := g.perm(len(q.Exponents))
				ex := make([]int, len(p))
				for i := range p {
					ex[i] = q.Exponents[p[i]]
				}
				q.Exponents = ex
				if !g.Messy && hasForm(ms, q) {
					n--
					if n < 1 {
						n = 1
					}
					if len(ms) >= n {
						break
					}
					continue
				}
				ms = append(ms, q)
				continue
			}
		}
		m := g.mono()
		if !g.Messy && (m.Coefficient == 0 || hasForm(ms, m)) {
			if len(ms) > 0 || m.Coefficient == 0 {
				n--
				if len(ms) >= n || n < 1 {
					if len(ms) > 0 {
						break
					}
					n = 1
				}
				continue
			}
		}
		ms = append(ms, m)
	}
	if g.Spare && g.p(0.5) {
		full := make([]sym.Monomial, len(ms)+1+g.n(3))
		copy(full, ms)
		for i := len(ms); i < len(full); i++ {
			full[i] = g.mono()
		}
		ms = full[:len(ms)]
		g.Watch = append(g.Watch, sym.Polynomial{Monomials: full})
	}
	return sym.Polynomial{Monomials: ms}
}

func hasForm(ms []sym.Monomial, m sym.Monomial) bool {
	a, _ := refMono(m)
	for _, x := range ms {
		b, _ := refMono(x)
		for k := range a {
			if _, ok := b[k]; ok {
				return true
			}
		}
	}
	return false
}

// Val is one operand.
type Val struct {
	Obj  any
	Kind string
	Ref  RMat
}

func (v Val) R() int { return v.Ref.R }
func (v Val) C() int { return v.Ref.C }
func (v Val) E() sym.Expression {
	e, _ := v.Obj.(sym.Expression)
	return e
}

func kindOf(x any) string {
	switch x.(type) {
	case sym.K:
		return "K"
	case sym.Variable:
		return "Variable"
	case sym.Monomial:
		return "Monomial"
	case sym.Polynomial:
		return "Polynomial"
	case sym.KVector:
		return "KVector"
	case sym.VariableVector:
		return "VariableVector"
	case sym.MonomialVector:
		return "MonomialVector"
	case sym.PolynomialVector:
		return "PolynomialVector"
	case sym.KMatrix:
		return "KMatrix"
	case sym.VariableMatrix:
		return "VariableMatrix"
	case sym.MonomialMatrix:
		return "MonomialMatrix"
	case sym.PolynomialMatrix:
		return "PolynomialMatrix"
	}
	return fmt.Sprintf("%T", x)
}

var (
	scalarKinds = []string{"K", "Variable", "Monomial", "Polynomial"}
	vectorKinds = []string{"KVector", "VariableVector", "MonomialVector", "PolynomialVector"}
	matrixKinds = []string{"KMatrix", "VariableMatrix", "MonomialMatrix", "PolynomialMatrix"}
	exprKinds   = append(append(append([]string{}, scalarKinds...), vectorKinds...), matrixKinds...)
	foreignS    = []string{"float64", "int"}
	foreignV    = []string{"mat.VecDense", "*mat.VecDense"}
	foreignM    = []string{"mat.Dense", "*mat.Dense"}
)

func mkVal(obj any) Val {
	r, err := toRef(obj)
	if notOdd(err) != nil {
		panic(fmt.Sprintf("harness: generated operand is not well-formed: %v (%v)", err, obj))
	}
	return Val{obj, kindOf(obj), r}
}

func spareSlice[T any](g *Gen, n int, f func() T) []T {
	capn := n
	if g.Spare && g.p(0.4) {
		capn = n + 1 + g.n(3)
	}
	s := make([]T, capn)
	for i := range s {
		s[i] = f()
	}
	if capn > n {
		g.Watch = append(g.Watch, s)
	}
	return s[:n]
}

func (g *Gen) monoE() sym.Monomial {
	return g.mono()
}

// of makes an operand of the given kind and shape.
func (g *Gen) of(kind string, r, c int) Val {
	rows := func() int { return r }
	_ = rows
	switch kind {
	case "K":
		return mkVal(sym.K(g.coef()))
	case "float64":
		return mkVal(g.coef())
	case "int":
		if g.p(0.1) { // beyond what narrower number types hold
			n := 1<<g.rng(7, 53) + g.rng(-2, 2)
			if g.p(0.5) {
				n = -n
			}
			return mkVal(n)
		}
		return mkVal(g.rng(-5, 9))
	case "Variable":
		return mkVal(g.variable())
	case "Monomial":
		return mkVal(g.mono())
	case "Polynomial":
		return mkVal(g.poly())
	case "KVector":
		return mkVal(g.structured(sym.KVector(spareSlice(g, r, func() sym.K { return sym.K(g.coef()) })), r, 1))
	case "VariableVector":
		return mkVal(g.structured(sym.VariableVector(spareSlice(g, r, g.variable)), r, 1))
	case "MonomialVector":
		return mkVal(g.structured(sym.MonomialVector(spareSlice(g, r, g.monoE)), r, 1))
	case "PolynomialVector":
		return mkVal(g.structured(sym.PolynomialVector(spareSlice(g, r, g.poly)), r, 1))
	case "KMatrix":
		m := sym.KMatrix{}
		for i := 0; i < r; i++ {
			m = append(m, spareSlice(g, c, func() sym.K { return sym.K(g.coef()) }))
		}
		return mkVal(g.structured(m, r, c))
	case "VariableMatrix":
		m := sym.VariableMatrix{}
		for i := 0; i < r; i++ {
			m = append(m, spareSlice(g, c, g.variable))
		}
		return mkVal(g.structured(m, r, c))
	case "MonomialMatrix":
		m := sym.MonomialMatrix{}
		for i := 0; i < r; i++ {
			m = append(m, spareSlice(g, c, g.monoE))
		}
		return mkVal(g.structured(m, r, c))
	case "PolynomialMatrix":
		m := sym.PolynomialMatrix{}
		for i := 0; i < r; i++ {
			m = append(m, spareSlice(g, c, g.poly))
		}
		return mkVal(g.structured(m, r, c))
	case "mat.VecDense":
		return mkVal(*g.vecDense(r))
	case "*mat.VecDense":
		return mkVal(g.vecDense(r))
	case "mat.Dense":
		return mkVal(*g.dense(r, c))
	case "*mat.Dense":
		return mkVal(g.dense(r, c))
	}
	panic("harness: kind " + kind)
}

func (g *Gen) vecDense(n int) *mat.VecDense {
	switch g.n(3) {
	case 0: // a strided column view
		d := g.fill(mat.NewDense(n+g.n(2), 1+g.n(3), nil))
		_, c := d.Dims()
		v := d.ColView(g.n(c)).(*mat.VecDense)
		return v.SliceVec(0, n).(*mat.VecDense)
	case 1: // a slice of a longer vector
		v := mat.NewVecDense(n+2, nil)
		for i := 0; i < n+2; i++ {
			v.SetVec(i, g.coef())
		}
		return v.SliceVec(1, n+1).(*mat.VecDense)
	}
	v := mat.NewVecDense(n, nil)
	for i := 0; i < n; i++ {
		v.SetVec(i, g.coef())
	}
	return v
}

func (g *Gen) fill(d *mat.Dense) *mat.Dense {
	r, c := d.Dims()
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			d.Set(i, j, g.coef())
		}
	}
	return d
}

func (g *Gen) dense(r, c int) *mat.Dense {
	if g.p(0.4) { // a view into a larger matrix
		d := g.fill(mat.NewDense(r+2, c+2, nil))
		i, j := g.n(3), g.n(3)
		return d.Slice(i, i+r, j, j+c).(*mat.Dense)
	}
	return g.fill(mat.NewDense(r, c, nil))
}

// kindFor picks a kind that can have the given shape.
func (g *Gen) kindFor(r, c int, foreign bool) string {
	var ks []string
	switch {
	case r == 1 && c == 1:
		switch x := g.f(); {
		case g.Wide && x < 0.5:
			return "Polynomial"
		case x < 0.6:
			ks = scalarKinds
		case x < 0.8:
			ks = vectorKinds
		default:
			ks = matrixKinds
		}
		if foreign && g.p(0.15) {
			ks = append(append(append([]string{}, foreignS...), foreignS...), append(foreignV, foreignM...)...)
		}
	case c == 1:
		ks = vectorKinds
		if g.p(0.25) {
			ks = matrixKinds
		}
		if foreign && g.p(0.15) {
			ks = append(append([]string{}, foreignV...), foreignM...)
		}
	default:
		ks = matrixKinds
		if foreign && g.p(0.15) {
			ks = foreignM
		}
	}
	return ks[g.n(len(ks))]
}

func (g *Gen) shape() (int, int) {
	switch {
	case g.Huge && g.p(0.07):
		return 100 + g.n(300), 1
	case g.Huge && g.p(0.5):
		return 17 + g.n(90), 1
	case g.Huge && g.p(0.3):
		return 1, 17 + g.n(90)
	case g.Huge:
		return 2 + g.n(24), 2 + g.n(24)
	case g.Big && g.p(0.4):
		return 5 + g.n(40), 1
	case g.Big && g.p(0.2):
		return 1, 5 + g.n(20)
	case g.Big:
		return 1 + g.n(9), 1 + g.n(12)
	case g.Heavy && g.p(0.9):
		return 1, 1
	}
	switch x := g.f(); {
	case x < 0.4:
		return 1, 1
	case x < 0.65:
		if g.p(0.17) {
			return 5 + g.n(6), 1
		}
		return 1 + g.n(4), 1
	case x < 0.75:
		return 1, 1 + g.n(4)
	default:
		return 1 + g.n(4), 1 + g.n(4)
	}
}

func (g *Gen) val() Val {
	r, c := g.shape()
	return g.of(g.kindFor(r, c, false), r, c)
}

func (g *Gen) scalar() Val {
	return g.of(scalarKinds[g.n(4)], 1, 1)
}

// addPair makes two operands that may be added or compared.
func (g *Gen) addPair() (Val, Val) {
	r, c := g.shape()
	lr, lc, rr, rc := r, c, r, c
	switch x := g.f(); {
	case x < 0.15:
		lr, lc = 1, 1
	case x < 0.3:
		rr, rc = 1, 1
	}
	l := g.of(g.kindFor(lr, lc, false), lr, lc)
	if lr == rr && lc == rc && g.p(0.22) {
		if g.p(0.4) {
			return l, l
		}
		return l, g.related(l)
	}
	return l, g.of(g.kindFor(rr, rc, true), rr, rc)
}

func (g *Gen) mulPair() (Val, Val) {
	var lr, lc, rr, rc int
	switch x := g.f(); {
	case x < 0.3 || g.Heavy && g.p(0.9): // scalars
		lr, lc, rr, rc = 1, 1, 1, 1
	case x < 0.45:
		lr, lc = 1, 1
		rr, rc = g.shape()
	case x < 0.6:
		lr, lc = g.shape()
		rr, rc = 1, 1
	default:
		lr, lc = 1+g.n(3), 1+g.n(3)
		if g.Big {
			lr, lc = 1+g.n(6), 1+g.n(8)
		}
		if g.Huge && g.p(0.5) {
			lc = 1 + g.n(50)
		}
		rr, rc = lc, 1+g.n(3)
		if g.Big {
			rc = 1 + g.n(6)
		}
		if g.p(0.4) {
			rc = 1
		}
		if g.p(0.1) {
			lr = 1
		}
	}
	l := g.of(g.kindFor(lr, lc, false), lr, lc)
	if l.C() == l.R() && !g.Heavy && g.p(0.16) {
		if g.p(0.4) {
			return l, l
		}
		return l, g.related(l)
	}
	return l, g.of(g.kindFor(rr, rc, true), rr, rc)
}
