package main

// Conversions, constraints, implication, classification.

import (
	"fmt"
	"math"
	"strings"

	getKMatrix "github.com/MatProGo-dev/SymbolicMath.go/get/KMatrix"
	getKVector "github.com/MatProGo-dev/SymbolicMath.go/get/KVector"
	sym "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
	"gonum.org/v1/gonum/mat"
)

// anyConstraint makes a constraint by a comparison or as a literal.
func (c *Ctx) anyConstraint(kind int) (sym.Constraint, RMat, RMat, bool) {
	if c.p(0.5) && kind < 0 {
		return c.constraint()
	}
	if kind < 0 {
		kind = c.n(3)
	}
	s := c.sense()
	switch kind {
	case 0:
		l, r := c.scalar(), c.scalar()
		r = c.maybeRelated(l, r)
		return sym.ScalarConstraint{LeftHandSide: l.Obj.(sym.ScalarExpression), RightHandSide: r.Obj.(sym.ScalarExpression), Sense: s}, l.Ref, r.Ref, true
	case 1:
		n := 1 + c.n(4)
		if c.p(0.1) {
			n = 5 + c.n(8)
		}
		l, r := c.of(vectorKinds[c.n(4)], n, 1), c.of(vectorKinds[c.n(4)], n, 1)
		r = c.maybeRelated(l, r)
		return sym.VectorConstraint{LeftHandSide: l.Obj.(sym.VectorExpression), RightHandSide: r.Obj.(sym.VectorExpression), Sense: s}, l.Ref, r.Ref, true
	default:
		n, m := 1+c.n(3), 1+c.n(3)
		l, r := c.of(matrixKinds[c.n(4)], n, m), c.of(matrixKinds[c.n(4)], n, m)
		r = c.maybeRelated(l, r)
		return sym.MatrixConstraint{LeftHandSide: l.Obj.(sym.MatrixExpression), RightHandSide: r.Obj.(sym.MatrixExpression), Sense: s}, l.Ref, r.Ref, true
	}
}

// maybeRelated sometimes replaces the right side by one that resembles the left.
func (c *Ctx) maybeRelated(l, r Val) Val {
	if c.p(0.15) {
		return c.related(l)
	}
	return r
}

func conStr(l, r RMat, s sym.ConstrSense) string {
	return fmt.Sprintf("%s %c %s", l.String(), s, r.String())
}

func flip(s sym.ConstrSense) sym.ConstrSense {
	switch s {
	case sym.SenseLessThanEqual:
		return sym.SenseGreaterThanEqual
	case sym.SenseGreaterThanEqual:
		return sym.SenseLessThanEqual
	}
	return s
}

// sizesWithin tells whether every calculation behind p stays between lo and hi.
func sizesWithin(p RPoly, lo, hi float64) bool {
	for _, t := range p {
		if t.Mag > hi || t.Mag < lo && t.Mag > 0 || t.Val != 0 && math.Abs(t.Val) < lo {
			return false
		}
	}
	return true
}

// sameRelation decides whether (got ⋈ 0) and (want ⋈ 0) are the same up to a
// non-zero factor. hint is the factor tried first.
func sameRelation(got RPoly, gs sym.ConstrSense, want RPoly, ws sym.ConstrSense, hint float64, tol float64) string {
	try := func(f float64) string {
		if f == 0 || math.IsNaN(f) || math.IsInf(f, 0) {
			return "no factor"
		}
		if d := rDiff(got, rScale(want, f), tol); d != "" {
			return d
		}
		s := ws
		if f < 0 {
			s = flip(s)
		}
		if s != gs {
			return fmt.Sprintf("the relation is %c, expected %c", gs, s)
		}
		return ""
	}
	first := try(hint)
	if first == "" {
		return ""
	}
	best, key := 0.0, ""
	for k, t := range want {
		if t.Mag > 0 && math.Abs(t.Val)/t.Mag > 1e-3 && math.Abs(t.Val) > best {
			best, key = math.Abs(t.Val), k
		}
	}
	if best > 0 {
		f := got[key].Val / want[key].Val
		if f != 0 && try(f) == "" {
			return ""
		}
	}
	return first
}

func (c *Ctx) noConstantLeft(what string, l RMat, wl, wr RMat) bool {
	for i, p := range l.E {
		t := p.constant()
		ref := wl.E[i].constant().Mag + wr.E[i].constant().Mag
		if !closeVal(t.Val, 0, math.Max(t.Mag, ref), tolChain) {
			c.fail("%s: constant term %v on the left side of the simplified constraint", what, t.Val)
			return false
		}
	}
	return true
}

func runConstraint(c *Ctx) {
	c.small(4, 3, 3)
	c.long()
	if c.Coef == coefWild {
		c.Coef = coefGeneral
	}
	switch x := c.f(); {
	case x < 0.5: // simplify
		con, l, r, ok := c.anyConstraint(-1)
		if !ok {
			return
		}
		what := fmt.Sprintf("(%s).AsSimplifiedConstraint()", conStr(l, r, con.ConstrSense()))
		f := func() any { return con.AsSimplifiedConstraint() }
		onlyVars := false // Simplify moves the variables; AsSimplifiedConstraint the constants too
		if sc, isS := con.(sym.ScalarConstraint); isS && c.p(0.5) {
			what = fmt.Sprintf("(%s).Simplify()", conStr(l, r, con.ConstrSense()))
			f = func() any { return sc.Simplify() }
			onlyVars = true
		}
		res, ok := c.must(what, f)
		c.seen(nontrivial(l, r), "simplify", con)
		if !ok {
			return
		}
		c.count(fmt.Sprintf("simplified %T", con))
		out := res.(sym.Constraint)
		gl, gr, gs := sidesOf(out)
		rl, e1 := toRef(gl)
		rr, e2 := toRef(gr)
		if rl.E == nil || rr.E == nil || rl.R != l.R || rl.C != l.C || rr.R != l.R || rr.C != l.C {
			c.fail("%s: malformed result (%v, %v), sides %T %dx%d and %T %dx%d", what, e1, e2, gl, rl.R, rl.C, gr, rr.R, rr.C)
			return
		}
		c.sample("%s -> %s", what, conStr(rl, rr, gs))
		for i := range rl.E {
			got := rSub(rl.E[i], rr.E[i])
			want := rSub(l.E[i], r.E[i])
			if d := sameRelation(got, gs, want, con.ConstrSense(), 1, tolChain); d != "" {
				c.fail("%s = %s: entry %d describes another set: %s", what, conStr(rl, rr, gs), i, d)
				return
			}
		}
		for _, p := range rr.E {
			for _, t := range p {
				if len(t.Facs) > 0 && t.Val != 0 {
					c.fail("%s = %s: a variable is left on the right side", what, conStr(rl, rr, gs))
					return
				}
			}
		}
		if !onlyVars {
			c.noConstantLeft(what+" = "+conStr(rl, rr, gs), rl, l, r)
		}
	case x < 0.75: // scale
		con, l, r, _ := c.anyConstraint(0)
		sc := con.(sym.ScalarConstraint)
		var f float64
		switch c.n(4) {
		case 0:
			f = []float64{-1, 1, -2, 0.5, -0.25, 3, -7}[c.n(7)]
		case 1:
			f = (c.f()*2 - 1) * 10
		case 2:
			f = math.Pow(10, float64(c.rng(-20, 20)))
			if c.p(0.5) {
				f = -f
			}
		default:
			f = -math.Ldexp(1, c.rng(-60, 60))
		}
		if c.p(0.15) && c.Scale == 0 && sizesWithin(l.E[0], 1e-30, 1e25) && sizesWithin(r.E[0], 1e-30, 1e25) {
			// factors whose squares are out of range
			f = math.Copysign(math.Pow(10, float64(c.rng(140, 255))*[]float64{1, -1}[c.n(2)]), c.f()-0.6)
			c.count("scaled by a factor of extreme size")
		}
		if f == 0 {
			f = -1
		}
		what := fmt.Sprintf("(%s).ScaleBy(%v)", conStr(l, r, sc.Sense), f)
		res, ok := c.must(what, func() any { return sc.ScaleBy(f) })
		c.seen(nontrivial(l, r), "scale", con, f)
		if !ok {
			return
		}
		if f < 0 {
			c.count("scaled by a negative factor")
		} else {
			c.count("scaled by a positive factor")
		}
		gl, gr, gs := sidesOf(res.(sym.Constraint))
		rl, _ := toRef(gl)
		rr, _ := toRef(gr)
		if rl.E == nil || rr.E == nil || !rl.is11() || !rr.is11() {
			c.fail("%s: malformed result", what)
			return
		}
		if d := sameRelation(rSub(rl.E[0], rr.E[0]), gs, rSub(l.E[0], r.E[0]), sc.Sense, f, tolChain); d != "" {
			c.fail("%s = %s: %s", what, conStr(rl, rr, gs), d)
		}
	default: // substitute
		con, l, r, ok := c.anyConstraint(-1)
		if !ok {
			return
		}
		x := c.someVar()
		c.small(2, 2, 2)
		rep := c.replacement()
		m := map[uint64]RPoly{x.ID: mkVal(rep).Ref.E[0]}
		what := fmt.Sprintf("(%s).Substitute(v%d, %s)", conStr(l, r, con.ConstrSense()), x.ID, str(rep))
		res, ok := c.must(what, func() any { return con.Substitute(x, rep) })
		c.seen(nontrivial(l, r), "subst", con, x.ID, rep)
		if !ok {
			return
		}
		c.count(fmt.Sprintf("substituted in %T", con))
		s := func(p RPoly) RPoly { return rSubst(p, m) }
		c.expectConstraint(what, res, l.mapE(s), r.mapE(s), con.ConstrSense(), tolChain)
	}
}

// linear operands

func (c *Ctx) linearScalar() Val {
	switch c.n(6) {
	case 0:
		return c.of("K", 1, 1)
	case 1:
		return c.of("Variable", 1, 1)
	case 2:
		return mkVal(c.monoOf(c.coef(), []int{c.n(len(c.Vars))}, []int{1}))
	default:
		return mkVal(c.linearPoly())
	}
}

func (c *Ctx) linearPoly() sym.Polynomial {
	var ms []sym.Monomial
	for _, i := range c.perm(len(c.Vars)) {
		if c.p(0.7) {
			ms = append(ms, c.monoOf(c.coef(), []int{i}, []int{1}))
			if c.Messy && c.p(0.3) {
				ms = append(ms, c.monoOf(c.coef(), []int{i}, []int{1}))
			}
		}
	}
	if c.p(0.7) || len(ms) == 0 {
		ms = append(ms, sym.Monomial{Coefficient: c.coef()})
		if c.Messy && c.p(0.3) {
			ms = append(ms, sym.Monomial{Coefficient: c.coef()})
		}
	}
	if c.p(0.5) {
		q := c.perm(len(ms))
		out := make([]sym.Monomial, len(ms))
		for i, k := range q {
			out[i] = ms[k]
		}
		ms = out
	}
	return sym.Polynomial{Monomials: ms}
}

func (c *Ctx) linearVector(n int) Val {
	switch c.n(5) {
	case 0:
		return c.of("KVector", n, 1)
	case 1:
		return c.of("VariableVector", n, 1)
	case 2:
		mv := sym.MonomialVector{}
		for i := 0; i < n; i++ {
			mv = append(mv, c.monoOf(c.coef(), []int{c.n(len(c.Vars))}, []int{1}))
		}
		if c.p(0.4) {
			mv[c.n(n)] = sym.Monomial{Coefficient: c.coef()}
		}
		return mkVal(c.linearOr(c.structured(mv, n, 1), mv))
	default:
		pv := sym.PolynomialVector{}
		for i := 0; i < n; i++ {
			pv = append(pv, c.linearPoly())
		}
		return mkVal(c.linearOr(c.structured(pv, n, 1), pv))
	}
}

func (c *Ctx) linearOr(x, y any) any {
	if synDegree(x) > 1 {
		return y
	}
	return x
}

// listFor makes a list that contains all variables of the case, in random
// order, and sometimes others.
func (c *Ctx) listFor() []sym.Variable {
	var out []sym.Variable
	for _, i := range c.perm(len(c.Vars)) {
		out = append(out, c.Vars[i])
	}
	if c.p(0.3) {
		v := c.addVarLike()
		k := c.n(len(out) + 1)
		out = append(out[:k], append([]sym.Variable{v}, out[k:]...)...)
	}
	return out
}

func linCoefs(p RPoly, list []sym.Variable) []Term {
	out := make([]Term, len(list))
	for i, v := range list {
		out[i] = p.coeff([]Fac{{v.ID, 1}})
	}
	return out
}

func runMatrixForm(c *Ctx) {
	if c.Coef == coefWild && c.p(0.5) {
		c.Coef = coefGeneral
	}
	vector := c.p(0.6)
	s := c.sense()
	n := 1
	var l, r Val
	if vector {
		n = 1 + c.n(4)
		if c.p(0.08) {
			n = 5 + c.n(12)
		}
		l, r = c.linearVector(n), c.linearVector(n)
	} else {
		l, r = c.linearScalar(), c.linearScalar()
	}
	if c.p(0.12) {
		if q := c.related(l); synDegree(q.Obj) <= 1 {
			r = q
		}
	}
	refuseWhy := ""
	if c.p(0.15) { // nonlinear on one side
		bad := c.nonlinear(vector, n)
		if c.p(0.5) {
			l = bad
		} else {
			r = bad
		}
		refuseWhy = "nonlinear"
	}
	var con sym.Constraint
	if vector {
		con = sym.VectorConstraint{LeftHandSide: l.Obj.(sym.VectorExpression), RightHandSide: r.Obj.(sym.VectorExpression), Sense: s}
	} else {
		con = sym.ScalarConstraint{LeftHandSide: l.Obj.(sym.ScalarExpression), RightHandSide: r.Obj.(sym.ScalarExpression), Sense: s}
	}
	if c.p(0.3) {
		if res, pan := try(func() any { return c.compare(l.E(), r.Obj, s) }); pan == nil {
			con = res.(sym.Constraint)
		}
	}
	// inequality form for inequalities, equality form for equalities; equality
	// form for inequalities is refused
	form := "inequality"
	if s == sym.SenseEqual || c.p(0.1) {
		form = "equality"
	}
	if s == sym.SenseEqual && c.p(0.1) {
		form = "inequality"
	}
	if (form == "equality") != (s == sym.SenseEqual) && refuseWhy == "" {
		refuseWhy = "sense"
	}
	list := c.listFor()
	// without a list, the columns are those of the variables in some order
	var lists [][]sym.Variable
	arg := [][]sym.Variable{list}
	if c.p(0.2) && refuseWhy == "" {
		occurs := map[uint64]bool{}
		for i := range l.Ref.E {
			for _, p := range []RPoly{rSub(l.Ref.E[i], r.Ref.E[i])} {
				for _, t := range p {
					for _, fc := range t.Facs {
						if math.Abs(t.Val) > 1e-6*t.Mag {
							occurs[fc.ID] = true
						}
					}
				}
			}
		}
		all := synVars(l.Obj)
		for v := range synVars(r.Obj) {
			all[v] = true
		}
		if len(occurs) == len(all) && len(all) > 0 && len(all) <= 4 {
			list = nil
			for _, v := range c.Vars {
				if occurs[v.ID] {
					list = append(list, v)
				}
			}
			if len(list) == len(all) {
				arg = nil
				lists = permutations(list)
			}
		}
	}
	if arg != nil {
		lists = [][]sym.Variable{list}
	}
	ids := []uint64{}
	for _, v := range list {
		ids = append(ids, v.ID)
	}
	name := map[string]string{"inequality": "LinearInequalityConstraintRepresentation", "equality": "LinearEqualityConstraintRepresentation"}[form]
	what := fmt.Sprintf("(%s).%s(%v)", conStr(l.Ref, r.Ref, s), name, ids)
	if arg == nil {
		what = fmt.Sprintf("(%s).%s()", conStr(l.Ref, r.Ref, s), name)
	}
	type pair struct {
		A any
		B any
	}
	f := func() any {
		switch k := con.(type) {
		case sym.ScalarConstraint:
			var A mat.VecDense
			var b float64
			if form == "inequality" {
				A, b = k.LinearInequalityConstraintRepresentation(arg...)
			} else {
				A, b = k.LinearEqualityConstraintRepresentation(arg...)
			}
			return pair{*mat.DenseCopyOf(A.T()), b}
		case sym.VectorConstraint:
			var A mat.Dense
			var b mat.VecDense
			if form == "inequality" {
				A, b = k.LinearInequalityConstraintRepresentation(arg...)
			} else {
				A, b = k.LinearEqualityConstraintRepresentation(arg...)
			}
			return pair{A, b}
		}
		panic("harness: constraint kind")
	}
	if _, isM := con.(sym.MatrixConstraint); isM {
		return
	}
	if refuseWhy != "" {
		res, pan := try(f)
		c.count("refusals expected: " + refuseWhy)
		c.seen(true, what)
		if pan == nil {
			c.fail("%s must be refused (%s), but returned %v", what, refuseWhy, res)
		}
		return
	}
	res, ok := c.must(what, f)
	c.seen(nontrivial(l.Ref, r.Ref), form, con, ids)
	if !ok {
		return
	}
	c.count(fmt.Sprintf("%s form of %T, sense %c", form, con, s))
	p := res.(pair)
	A, _ := toRef(p.A)
	B, _ := toRef(p.B)
	if A.E == nil || B.E == nil || A.R != n || A.C != len(list) || B.R != n || B.C != 1 {
		c.fail("%s: A is %dx%d and b is %dx%d, expected %dx%d and %dx1", what, A.R, A.C, B.R, B.C, n, len(list), n)
		return
	}
	c.sample("%s -> A=%s b=%s", what, A, B)
	if arg == nil {
		c.count("no list given")
	}
	gs := sym.ConstrSense(sym.SenseLessThanEqual)
	if form == "equality" {
		gs = sym.SenseEqual
	}
	hint := 1.0
	if s == sym.SenseGreaterThanEqual {
		hint = -1
	}
	why := ""
next:
	for _, list := range lists {
		for i := 0; i < n; i++ {
			// the row says: A_i x - b_i (<= or =) 0
			got := RPoly{}
			for j, v := range list {
				t := A.at(i, j).constant()
				got.addTerm([]Fac{{v.ID, 1}}, t.Val, t.Mag)
			}
			t := B.at(i, 0).constant()
			got.addTerm(nil, -t.Val, t.Mag)
			want := rSub(l.Ref.E[i], r.Ref.E[i])
			if d := sameRelation(got, gs, want, s, hint, tolChain); d != "" {
				if why == "" {
					why = fmt.Sprintf("row %d: %s", i, d)
				}
				continue next
			}
		}
		return
	}
	c.fail("%s: A=%s b=%s: %s", what, A, B, why)
}

func permutations(l []sym.Variable) [][]sym.Variable {
	if len(l) <= 1 {
		return [][]sym.Variable{l}
	}
	var out [][]sym.Variable
	for i := range l {
		rest := append(append([]sym.Variable{}, l[:i]...), l[i+1:]...)
		for _, p := range permutations(rest) {
			out = append(out, append([]sym.Variable{l[i]}, p...))
		}
	}
	return out
}

// nonlinear makes a scalar or vector with a term of degree at least two that
// cannot cancel.
func (c *Ctx) nonlinear(vector bool, n int) Val {
	i := c.n(len(c.Vars))
	term := c.monoOf(1+c.f(), []int{i}, []int{2 + c.n(2)})
	if len(c.Vars) > 1 && c.p(0.5) {
		p := c.perm(len(c.Vars))
		term = c.monoOf(1+c.f(), p[:2], []int{1, 1})
	}
	scalar := func() Val {
		if c.p(0.4) {
			return mkVal(term)
		}
		q := c.linearPoly()
		q.Monomials = append(append([]sym.Monomial{}, q.Monomials...), term)
		k := c.n(len(q.Monomials))
		j := len(q.Monomials) - 1
		q.Monomials[k], q.Monomials[j] = q.Monomials[j], q.Monomials[k]
		return mkVal(q)
	}
	if !vector {
		return scalar()
	}
	pv := sym.PolynomialVector{}
	for k := 0; k < n; k++ {
		pv = append(pv, c.linearPoly())
	}
	switch b := scalar().Obj.(type) {
	case sym.Monomial:
		pv[c.n(n)] = b.ToPolynomial()
	case sym.Polynomial:
		pv[c.n(n)] = b
	}
	return mkVal(pv)
}

// implication

// onLine is a linear constraint a*x + b ⋈ 0 in one variable with an exactly
// representable bound.
type onLine struct {
	sense sym.ConstrSense // after making the coefficient positive
	bound float64
}

// lineConstraint writes x ⋈ bound in a random way: with the variable and
// constants on any side and any coefficient.
func (c *Ctx) lineConstraint(x sym.Variable, bound float64, s sym.ConstrSense, exact bool) sym.ScalarConstraint {
	var a float64
	if exact {
		a = math.Ldexp(1, c.rng(-6, 6))
	} else {
		a = 0.1 + 9*c.f()
	}
	if c.p(0.5) {
		a = -a
	}
	if a < 0 {
		s = flip(s)
	}
	// a x ⋈ a*bound ; split over the sides
	lx, rx := a, 0.0
	lc, rc := 0.0, a*bound
	if c.p(0.5) {
		d := math.Ldexp(float64(c.rng(-8, 8)), -3)
		lx, rx = lx+d, rx+d
	}
	if c.p(0.5) {
		d := math.Ldexp(float64(c.rng(-64, 64)), -3)
		lc, rc = lc+d, rc+d
	}
	if c.p(0.5) {
		lx, rx, lc, rc = rx, lx, rc, lc
		s = flip(s)
	}
	return sym.ScalarConstraint{LeftHandSide: c.sideOf(x, lx, lc), RightHandSide: c.sideOf(x, rx, rc), Sense: s}
}

func (c *Ctx) sideOf(x sym.Variable, k, d float64) sym.ScalarExpression {
	switch {
	case k == 0 && c.p(0.8):
		return sym.K(d)
	case k == 0:
		if c.p(0.5) {
			return sym.Monomial{Coefficient: d}
		}
		return sym.Polynomial{Monomials: []sym.Monomial{{Coefficient: d}}}
	case k == 1 && d == 0 && c.p(0.6):
		return x
	case d == 0 && c.p(0.6):
		return sym.Monomial{Coefficient: k, VariableFactors: []sym.Variable{x}, Exponents: []int{1}}
	}
	ms := []sym.Monomial{{Coefficient: k, VariableFactors: []sym.Variable{x}, Exponents: []int{1}}}
	if d != 0 || c.p(0.3) {
		ms = append(ms, sym.Monomial{Coefficient: d})
	}
	if c.p(0.3) { // split the term
		ms[0].Coefficient = k - 0.5
		if k == 0.5 {
			ms[0].Coefficient = k
		} else {
			ms = append(ms, sym.Monomial{Coefficient: 0.5, VariableFactors: []sym.Variable{x}, Exponents: []int{1}})
		}
	}
	if len(ms) > 1 && c.p(0.5) {
		ms[0], ms[1] = ms[1], ms[0]
	}
	return sym.Polynomial{Monomials: ms}
}

func lineImplies(a, b onLine) bool {
	switch a.sense {
	case sym.SenseLessThanEqual:
		return b.sense == sym.SenseLessThanEqual && a.bound <= b.bound
	case sym.SenseGreaterThanEqual:
		return b.sense == sym.SenseGreaterThanEqual && a.bound >= b.bound
	}
	switch b.sense {
	case sym.SenseEqual:
		return a.bound == b.bound
	case sym.SenseLessThanEqual:
		return a.bound <= b.bound
	}
	return a.bound >= b.bound
}

func scStr(k sym.ScalarConstraint) string {
	return fmt.Sprintf("[%s %c %s]", rawStr(k.LeftHandSide), k.Sense, rawStr(k.RightHandSide))
}

// holds evaluates a constraint at a point; margin is the distance from the
// boundary relative to the magnitude of the terms (positive inside).
func holds(l, r RMat, s sym.ConstrSense, at map[uint64]float64) (margin float64) {
	margin = math.Inf(1)
	for i := range l.E {
		v, m := rEval(rSub(l.E[i], r.E[i]), at)
		if m == 0 {
			m = 1
		}
		d := v / m
		switch s {
		case sym.SenseLessThanEqual:
			d = -d
		case sym.SenseEqual:
			d = -math.Abs(d)
		}
		margin = math.Min(margin, d)
	}
	return
}

func runImplies(c *Ctx) {
	switch x := c.f(); {
	case x < 0.5: // two linear constraints in one variable: exact oracle
		exact := c.p(0.6)
		x := c.variable()
		b1 := math.Ldexp(float64(c.rng(-40, 40)), -2)
		b2 := b1
		if c.p(0.6) {
			b2 = math.Ldexp(float64(c.rng(-40, 40)), -2)
		}
		if !exact && math.Abs(b1-b2) < 0.2 {
			b2 = b1 + 0.25
		}
		if exact && c.p(0.3) { // bounds a hair apart, or next to zero
			if c.p(0.3) {
				b1 = 0
			}
			b2 = b1
			d := math.Ldexp(float64(c.rng(-1, 1)), -10-c.n(27))
			if c.p(0.5) {
				b1 += d
			} else {
				b2 += d
			}
			c.count("bounds less than 0.001 apart")
		}
		A, B := onLine{c.sense(), b1}, onLine{c.sense(), b2}
		k1, k2 := c.lineConstraint(x, A.bound, A.sense, exact), c.lineConstraint(x, B.bound, B.sense, exact)
		var first sym.Constraint = k1
		what := fmt.Sprintf("%s.ImpliesThisIsAlsoSatisfied(%s)", scStr(k1), scStr(k2))
		res, ok := c.must(what, func() any { return first.ImpliesThisIsAlsoSatisfied(k2) })
		want := lineImplies(A, B)
		c.seen(true, "line", k1, k2)
		if !ok {
			return
		}
		c.count(fmt.Sprintf("one variable: answer %v", res))
		c.sample("%s -> %v", what, res)
		if res.(bool) != want {
			c.fail("%s = %v, but x %c %v and x %c %v", what, res, A.sense, A.bound, B.sense, B.bound)
		}
	case x < 0.53:
		c.formImplies()
	case x < 0.58:
		c.vectorImplies()
	case x < 0.83: // any constraints: soundness at sampled points
		c.small(3, 3, 2)
		c.Coef = coefDyadic
		if c.p(0.6) && len(c.Vars) > 1 {
			c.Vars = c.Vars[:1+c.n(2)]
		}
		con, l, r, ok := c.anyConstraint(-1)
		if !ok {
			return
		}
		var other sym.Constraint
		var ol, or RMat
		switch {
		case c.p(0.3): // derived from one entry of the first
			i := c.n(len(l.E))
			var e sym.ScalarConstraint
			switch k := con.(type) {
			case sym.ScalarConstraint:
				e = k
			case sym.VectorConstraint:
				res, pan := try(func() any { return k.AtVec(i) })
				if pan != nil {
					return
				}
				e = res.(sym.ScalarConstraint)
			case sym.MatrixConstraint:
				res, pan := try(func() any { return k.At(i/l.C, i%l.C) })
				if pan != nil {
					return
				}
				e = res.(sym.ScalarConstraint)
			}
			if c.p(0.3) {
				e.LeftHandSide = c.related(mkVal(e.LeftHandSide)).Obj.(sym.ScalarExpression)
			}
			if c.p(0.5) {
				e.RightHandSide = sym.K(float64(c.rng(-4, 4)))
			}
			if c.p(0.5) {
				e.Sense = c.sense()
			}
			a, _ := toRef(e.LeftHandSide)
			b, _ := toRef(e.RightHandSide)
			if a.E == nil || b.E == nil {
				return
			}
			other, ol, or = e, a, b
		case c.p(0.5):
			x := c.variable()
			e := c.lineConstraint(x, float64(c.rng(-3, 3)), c.sense(), true)
			a, _ := toRef(e.LeftHandSide)
			b, _ := toRef(e.RightHandSide)
			other, ol, or = e, a, b
		default:
			other, ol, or, ok = c.anyConstraint(-1)
			if !ok {
				return
			}
		}
		what := fmt.Sprintf("[%s].ImpliesThisIsAlsoSatisfied([%s])", conStr(l, r, con.ConstrSense()), conStr(ol, or, other.ConstrSense()))
		res, ok := c.must(what, func() any { return con.ImpliesThisIsAlsoSatisfied(other) })
		c.seen(nontrivial(l, r), "any", con, other)
		if !ok {
			return
		}
		c.count(fmt.Sprintf("any constraints: answer %v for %T", res, con))
		if !res.(bool) {
			return
		}
		c.checkSound(what, l, r, con.ConstrSense(), ol, or, other.ConstrSense())
	default: // nonnegativity
		runNonneg(c)
	}
}

// formImplies: constraints on linear forms in several variables, the second
// often a multiple of the first or nearly so. For two constraints it is decided
// exactly whether one implies the other; a positive answer must be right.
func (c *Ctx) formImplies() {
	type form struct {
		k     []float64
		s     sym.ConstrSense
		bound float64
	}
	for len(c.Vars) < 2 {
		c.addVar(0)
	}
	n := 2 + c.n(min(3, len(c.Vars)-1))
	ix := c.perm(len(c.Vars))[:n]
	num := func() float64 { return math.Ldexp(float64(c.rng(-3, 3)), c.rng(-1, 1)) }
	first := form{make([]float64, n), c.sense(), num()}
	for i := range first.k {
		if first.k[i] = num(); first.k[i] == 0 {
			first.k[i] = 1
		}
	}
	next := func(f form) form {
		out := form{append([]float64{}, f.k...), f.s, f.bound}
		m := []float64{1, 1, -1, -1, 2, 0.5, -2}[c.n(7)]
		for i := range out.k {
			out.k[i] *= m
		}
		out.bound *= m
		if m < 0 && c.p(0.7) {
			out.s = flip(out.s)
		}
		if c.p(0.5) {
			i := c.n(n)
			switch c.n(4) {
			case 0:
				out.k[i] = -out.k[i]
			case 1:
				out.k[i] += num()
			case 2:
				out.k[i] = 0
			default:
				j := c.n(n)
				out.k[i], out.k[j] = out.k[j], out.k[i]
			}
		}
		if c.p(0.4) {
			out.bound += num()
		}
		if c.p(0.3) {
			out.s = c.sense()
		}
		return out
	}
	term := func(k float64, i int) sym.Monomial {
		return sym.Monomial{Coefficient: k, VariableFactors: []sym.Variable{c.Vars[ix[i]]}, Exponents: []int{1}}
	}
	sides := func(f form) (l, r sym.Polynomial, s sym.ConstrSense) {
		for _, i := range c.perm(n) {
			if f.k[i] == 0 && c.p(0.8) {
				continue
			}
			switch {
			case c.p(0.7):
				l.Monomials = append(l.Monomials, term(f.k[i], i))
			case c.p(0.5):
				r.Monomials = append(r.Monomials, term(-f.k[i], i))
			default:
				l.Monomials = append(l.Monomials, term(f.k[i]+1, i))
				r.Monomials = append(r.Monomials, term(1, i))
			}
		}
		d := 0.0
		if c.p(0.3) {
			d = num()
			l.Monomials = append(l.Monomials, sym.Monomial{Coefficient: d})
		}
		r.Monomials = append(r.Monomials, sym.Monomial{Coefficient: f.bound + d})
		if len(l.Monomials) == 0 {
			l.Monomials = append(l.Monomials, sym.Monomial{Coefficient: 0})
		}
		if c.p(0.2) {
			return r, l, flip(f.s)
		}
		return l, r, f.s
	}
	implied := func(a, b form) bool {
		constant := true
		for _, k := range b.k {
			constant = constant && k == 0
		}
		if constant {
			switch b.s {
			case sym.SenseLessThanEqual:
				return 0 <= b.bound
			case sym.SenseGreaterThanEqual:
				return 0 >= b.bound
			}
			return b.bound == 0
		}
		// b.k = lam * a.k ? (numbers of few digits: exact)
		lam := 0.0
		for i := range a.k {
			if a.k[i] != 0 {
				lam = b.k[i] / a.k[i]
				for j := range a.k {
					if b.k[j]*a.k[i] != b.k[i]*a.k[j] {
						return false
					}
				}
				break
			}
		}
		if lam == 0 {
			return false
		}
		s := a.s
		if lam < 0 {
			s = flip(s)
		}
		// lam*a: b.k x (s) lam*bound; compare over the common denominator
		return lineImplies(onLine{s, lam * a.bound}, onLine{b.s, b.bound})
	}
	allZero := func(f form) bool {
		for _, k := range f.k {
			if k != 0 {
				return false
			}
		}
		return true
	}
	if c.p(0.7) || allZero(first) {
		second := next(first)
		if allZero(second) {
			c.count("linear forms: constant")
		}
		l1, r1, s1 := sides(first)
		l2, r2, s2 := sides(second)
		a := sym.ScalarConstraint{LeftHandSide: l1, RightHandSide: r1, Sense: s1}
		b := sym.ScalarConstraint{LeftHandSide: l2, RightHandSide: r2, Sense: s2}
		what := fmt.Sprintf("%s.ImpliesThisIsAlsoSatisfied(%s)", scStr(a), scStr(b))
		res, ok := c.must(what, func() any { return a.ImpliesThisIsAlsoSatisfied(b) })
		c.seen(true, "forms", a, b)
		if !ok {
			return
		}
		want := implied(first, second)
		c.count(fmt.Sprintf("linear forms: answer %v (true implication: %v)", res, want))
		if res.(bool) && !want {
			c.fail("%s = true, which does not follow", what)
		}
		return
	}
	// several at once
	m := 2 + c.n(3)
	var ls, rs sym.PolynomialVector
	f := first
	for i := 0; i < m; i++ {
		l, r, s := sides(f)
		if s != first.s {
			l, r = r, l
		}
		ls, rs = append(ls, l), append(rs, r)
		s = first.s
		f = next(f)
		f.s = s
	}
	l2, r2, s2 := sides(next(f))
	a := sym.VectorConstraint{LeftHandSide: ls, RightHandSide: rs, Sense: first.s}
	b := sym.ScalarConstraint{LeftHandSide: l2, RightHandSide: r2, Sense: s2}
	al, _ := toRef(ls)
	ar, _ := toRef(rs)
	bl, _ := toRef(l2)
	br, _ := toRef(r2)
	what := fmt.Sprintf("[%s].ImpliesThisIsAlsoSatisfied(%s)", conStr(al, ar, first.s), scStr(b))
	res, ok := c.must(what, func() any { return a.ImpliesThisIsAlsoSatisfied(b) })
	c.seen(true, "forms", a, b)
	if !ok {
		return
	}
	c.count(fmt.Sprintf("vectors of linear forms: answer %v", res))
	if res.(bool) {
		c.checkSound(what, al, ar, first.s, bl, br, s2)
	}
}

// vectorImplies: a vector or matrix constraint each of whose entries bounds one
// variable, and another such constraint. What the first allows is a box.
func (c *Ctx) vectorImplies() {
	type box map[uint64][2]float64
	s := c.sense()
	get := func(b box, id uint64) [2]float64 {
		if iv, ok := b[id]; ok {
			return iv
		}
		return [2]float64{math.Inf(-1), math.Inf(1)}
	}
	make1 := func(n int, s sym.ConstrSense) (l, r []sym.Polynomial, b box, vars []sym.Variable) {
		b = box{}
		for i := 0; i < n; i++ {
			x := c.variable()
			bound := math.Ldexp(float64(c.rng(-6, 6)), -1)
			// a x + d (s) a bound + d with a > 0, or the other way around
			a := math.Ldexp(1, c.rng(-3, 3))
			d := float64(c.rng(-3, 3))
			lp := sym.Polynomial{Monomials: []sym.Monomial{{Coefficient: a, VariableFactors: []sym.Variable{x}, Exponents: []int{1}}}}
			if d != 0 {
				lp.Monomials = append(lp.Monomials, sym.Monomial{Coefficient: d})
			}
			rp := sym.Polynomial{Monomials: []sym.Monomial{{Coefficient: a*bound + d}}}
			iv := get(b, x.ID)
			up, down := s != sym.SenseGreaterThanEqual, s != sym.SenseLessThanEqual
			if c.p(0.3) { // variable on the right, which turns the relation around
				lp, rp = rp, lp
				up, down = s != sym.SenseLessThanEqual, s != sym.SenseGreaterThanEqual
			}
			if up {
				iv[1] = math.Min(iv[1], bound)
			}
			if down {
				iv[0] = math.Max(iv[0], bound)
			}
			b[x.ID] = iv
			vars = append(vars, x)
			l, r = append(l, lp), append(r, rp)
		}
		return
	}
	n := 1 + c.n(5)
	if c.p(0.1) {
		n = 6 + c.n(8)
	}
	l, r, b, _ := make1(n, s)
	side := func(ps []sym.Polynomial) sym.VectorExpression {
		if c.p(0.7) {
			return sym.PolynomialVector(ps)
		}
		var es []sym.ScalarExpression
		for _, p := range ps {
			es = append(es, p.AsSimplifiedExpression().(sym.ScalarExpression))
		}
		return sym.ConcretizeVectorExpression(es)
	}
	var con sym.Constraint
	kind := c.n(4)
	switch {
	case kind == 0 && n%2 == 0:
		w := n / 2
		con = sym.MatrixConstraint{LeftHandSide: sym.PolynomialMatrix{l[:w], l[w:]}, RightHandSide: sym.PolynomialMatrix{r[:w], r[w:]}, Sense: s}
	default:
		con = sym.VectorConstraint{LeftHandSide: side(l), RightHandSide: side(r), Sense: s}
	}
	os := c.sense()
	m := 1
	if c.p(0.3) {
		m = 1 + c.n(3)
	}
	ol, or, ob, _ := make1(m, os)
	if c.p(0.4) { // about an entry of the first
		i := c.n(n)
		ol, or = []sym.Polynomial{l[i]}, []sym.Polynomial{r[i]}
		os = s
		if c.p(0.4) {
			os = c.sense()
		}
		m = 1
		ob = box{}
		lr, _ := toRef(l[i])
		rr, _ := toRef(r[i])
		p := rSub(lr.E[0], rr.E[0])
		var id uint64
		for v := range p.vars() {
			id = v
		}
		k, d := p.coeff([]Fac{{id, 1}}).Val, p.coeff(nil).Val
		up, down := os != sym.SenseGreaterThanEqual, os != sym.SenseLessThanEqual
		if k < 0 {
			up, down = down, up
		}
		iv := [2]float64{math.Inf(-1), math.Inf(1)}
		if up {
			iv[1] = -d / k
		}
		if down {
			iv[0] = -d / k
		}
		ob[id] = iv
	}
	var other sym.Constraint
	if m == 1 && c.p(0.85) {
		other = sym.ScalarConstraint{LeftHandSide: ol[0], RightHandSide: or[0], Sense: os}
	} else {
		other = sym.VectorConstraint{LeftHandSide: side(ol), RightHandSide: side(or), Sense: os}
	}
	if c.p(0.1) {
		con, other, b, ob = other, con, ob, b
	}
	empty := func(b box) bool {
		for _, iv := range b {
			if iv[0] > iv[1] {
				return true
			}
		}
		return false
	}
	holds := true
	for id, iv := range ob {
		have := get(b, id)
		if have[0] < iv[0] || have[1] > iv[1] {
			holds = false
		}
	}
	str := func(k sym.Constraint) string {
		lr, _ := toRef(k.Left())
		rr, _ := toRef(k.Right())
		return conStr(lr, rr, k.ConstrSense())
	}
	what := fmt.Sprintf("[%s].ImpliesThisIsAlsoSatisfied([%s])", str(con), str(other))
	res, ok := c.must(what, func() any { return con.ImpliesThisIsAlsoSatisfied(other) })
	c.seen(true, "boxes", con, other)
	if !ok {
		return
	}
	c.count(fmt.Sprintf("boxes: answer %v for %T and %T", res, con, other))
	c.sample("%s -> %v", what, res)
	if res.(bool) && !holds && !empty(b) {
		c.fail("%s = true, but the first allows %v and the second requires %v", what, b, ob)
	}
}

// checkSound looks for a point in the first set and outside the second.
func (c *Ctx) checkSound(what string, l, r RMat, s sym.ConstrSense, ol, or RMat, os sym.ConstrSense) {
	vals := []float64{0, 1, -1, 2, -2, 0.5, -0.5, 3, -3, 10, -10, 100, -100, 0.25, -0.25, 1e4, -1e4}
	for k := 0; k < 400; k++ {
		at := map[uint64]float64{}
		for _, v := range c.Vars {
			if k < 100 {
				at[v.ID] = vals[c.n(len(vals))]
			} else {
				at[v.ID] = math.Ldexp(float64(c.rng(-256, 256)), -c.n(8))
			}
		}
		if s == sym.SenseEqual || c.p(0.3) {
			// move onto the boundary of the first constraint along one variable when it is linear there
			v := c.variable()
			i := c.n(len(l.E))
			p := rSub(l.E[i], r.E[i])
			at[v.ID] = 0
			p0, _ := rEval(p, at)
			at[v.ID] = 1
			p1, _ := rEval(p, at)
			at[v.ID] = 2
			p2, _ := rEval(p, at)
			if p1 != p0 && math.Abs(p2-2*p1+p0) < 1e-12 {
				at[v.ID] = -p0 / (p1 - p0)
			}
		}
		c.countN("points tried against positive answers", 1)
		if holds(l, r, s, at) >= 0 && holds(ol, or, os, at) < -1e-9 {
			c.fail("%s = true, but at %v the first holds and the second does not", what, at)
			return
		}
	}
}

func runNonneg(c *Ctx) {
	var k sym.ScalarConstraint
	want := false
	known := true
	switch x := c.f(); {
	case x < 0.45: // x ⋈ bound in disguise
		bound := 0.0
		if c.p(0.3) {
			bound = math.Ldexp(float64(c.rng(-8, 8)), -1)
			if c.p(0.4) {
				bound = math.Ldexp(bound, -10-c.n(26))
				c.count("tiny bounds")
			}
		}
		s := c.sense()
		k = c.lineConstraint(c.variable(), bound, s, true)
		want = bound == 0 && s == sym.SenseGreaterThanEqual
	case x < 0.75: // linear, several variables
		c.Coef = coefDyadic
		l, r := c.linearScalar(), c.linearScalar()
		k = sym.ScalarConstraint{LeftHandSide: l.Obj.(sym.ScalarExpression), RightHandSide: r.Obj.(sym.ScalarExpression), Sense: c.sense()}
		p := rSub(l.Ref.E[0], r.Ref.E[0]).clean()
		if k.Sense == sym.SenseLessThanEqual {
			p = rScale(p, -1)
		}
		if len(p) == 1 && k.Sense != sym.SenseEqual {
			for _, t := range p {
				want = len(t.Facs) == 1 && t.Val > 0
			}
		}
	default: // nonlinear: reported only when equivalent
		c.Coef = coefDyadic
		c.small(3, 3, 2)
		con, l, r, _ := c.anyConstraint(0)
		k = con.(sym.ScalarConstraint)
		p := rSub(l.E[0], r.E[0]).clean()
		known = p.degree() <= 1
		if k.Sense == sym.SenseLessThanEqual {
			p = rScale(p, -1)
		}
		if len(p) == 1 && k.Sense != sym.SenseEqual {
			for _, t := range p {
				want = len(t.Facs) == 1 && t.Val > 0 && t.Facs[0].Exp%2 == 1
			}
		}
		// syntactically nonlinear sides are outside the completeness claim
		ld, _ := toRef(k.LeftHandSide)
		rd, _ := toRef(k.RightHandSide)
		if ld.E[0].degree() > 1 || rd.E[0].degree() > 1 {
			known = false
		}
		if !known && len(p) > 1 && !nonnegPossible(p) {
			want = false
		} else if !known && len(p) > 1 {
			return
		}
	}
	what := scStr(k) + ".IsNonnegativityConstraint()"
	res, ok := c.must(what, func() any { return k.IsNonnegativityConstraint() })
	c.seen(true, "nonneg", k)
	if !ok {
		return
	}
	c.count(fmt.Sprintf("nonnegativity: answer %v", res))
	c.sample("%s -> %v", what, res)
	got := res.(bool)
	if got && !want {
		c.fail("%s = true, but it is not equivalent to one variable being >= 0", what)
	} else if known && want && !got {
		c.fail("%s = false, but it says that one variable is >= 0", what)
	}
}

// nonnegPossible: could {p >= 0} be {x >= 0} for some variable x? Only when p
// vanishes at x = 0 and has the sign of x; tested at points.
func nonnegPossible(p RPoly) bool {
	if len(p.vars()) != 1 {
		return true // not decided here
	}
	var id uint64
	for v := range p.vars() {
		id = v
	}
	for _, x := range []float64{0.01, 0.1, 0.5, 1, 2, 5, 50, 1000} {
		if v, _ := rEval(p, map[uint64]float64{id: x}); v < 0 {
			return false
		}
		if v, _ := rEval(p, map[uint64]float64{id: -x}); v >= 0 {
			return false
		}
	}
	return true
}

// classification

func synVars(x any) map[uint64]bool {
	out := map[uint64]bool{}
	for _, v := range varsIn(x) {
		out[v.ID] = true
	}
	return out
}

func synDegree(x any) int {
	d := 0
	mono := func(m sym.Monomial) {
		s := 0
		for _, e := range m.Exponents {
			s += e
		}
		d = max(d, s)
	}
	poly := func(p sym.Polynomial) {
		for _, m := range p.Monomials {
			mono(m)
		}
	}
	switch v := x.(type) {
	case sym.Variable, sym.VariableVector, sym.VariableMatrix:
		return 1
	case sym.Monomial:
		mono(v)
	case sym.Polynomial:
		poly(v)
	case sym.MonomialVector:
		for _, m := range v {
			mono(m)
		}
	case sym.PolynomialVector:
		for _, p := range v {
			poly(p)
		}
	case sym.MonomialMatrix:
		for _, row := range v {
			for _, m := range row {
				mono(m)
			}
		}
	case sym.PolynomialMatrix:
		for _, row := range v {
			for _, p := range row {
				poly(p)
			}
		}
	}
	return d
}

func semVars(m RMat) map[uint64]bool {
	out := map[uint64]bool{}
	for _, p := range m.E {
		for id := range p.vars() {
			out[id] = true
		}
	}
	return out
}

func semDegree(m RMat) int {
	d := 0
	for _, p := range m.E {
		d = max(d, p.degree())
	}
	return d
}

// checkVarList: every occurring variable once, no other. Variables that only
// occur in terms that cancel may be listed or not.
func (c *Ctx) checkVarList(what string, got []sym.Variable, sem, syn map[uint64]bool) bool {
	seen := map[uint64]bool{}
	for _, v := range got {
		if seen[v.ID] {
			c.fail("%s lists the variable v%d twice", what, v.ID)
			return false
		}
		seen[v.ID] = true
		if !syn[v.ID] {
			c.fail("%s lists the variable v%d, which does not occur", what, v.ID)
			return false
		}
	}
	for id := range sem {
		if !seen[id] {
			c.fail("%s does not list the variable v%d, which occurs", what, id)
			return false
		}
	}
	return true
}

func runClassify(c *Ctx) {
	if c.p(0.5) {
		c.Messy = false
		c.NoZero = true
	}
	if c.p(0.4) {
		c.MaxExp, c.MaxFac = min(c.MaxExp, 2), min(c.MaxFac, 2)
	}
	switch x := c.f(); {
	case x < 0.6:
		v := c.anyExpr()
		e := v.E()
		sem, syn := semVars(v.Ref), synVars(v.Obj)
		ds, dy := semDegree(v.Ref), synDegree(v.Obj)
		name := v.Kind + " " + rawStr(v.Obj)
		c.seen(nontrivial(v.Ref), v.Obj)
		c.count("classified " + v.Kind)
		res, ok := c.must("("+name+").Variables()", func() any { return e.Variables() })
		if !ok || !c.checkVarList("("+name+").Variables()", res.([]sym.Variable), sem, syn) {
			return
		}
		list := res.([]sym.Variable)
		if n := sym.NumVariables(e); n != len(list) {
			c.fail("NumVariables(%s) = %d, but %d are listed", name, n, len(list))
		}
		ids := sym.VariableIDs(e)
		if len(ids) != len(list) {
			c.fail("VariableIDs(%s) = %v", name, ids)
		} else {
			m := map[uint64]bool{}
			for _, id := range ids {
				m[id] = true
			}
			for _, w := range list {
				if !m[w.ID] {
					c.fail("VariableIDs(%s) = %v lacks %d", name, ids, w.ID)
				}
			}
		}
		d := -1
		if pl, isPL := v.Obj.(sym.PolynomialLike); isPL {
			res, ok := c.must("("+name+").Degree()", func() any { return pl.Degree() })
			if !ok {
				return
			}
			d = res.(int)
			c.count(fmt.Sprintf("degree %d", d))
			if d < ds || d > dy {
				c.fail("(%s).Degree() = %d, expected %d", name, d, ds)
				return
			}
		} else {
			c.fail("%s has no degree", name)
			return
		}
		c.sample("%s: degree %d, %d variables", name, d, len(list))
		bound := func(what string, got bool, k int) {
			if dy <= k && !got || ds > k && got {
				c.fail("%s(%s) = %v for degree %d", what, name, got, ds)
			}
		}
		if res, ok := c.must("IsLinear("+name+")", func() any { return sym.IsLinear(e) }); ok {
			bound("IsLinear", res.(bool), 1)
		}
		if res, ok := c.must("IsQuadratic("+name+")", func() any { return sym.IsQuadratic(e) }); ok {
			bound("IsQuadratic", res.(bool), 2)
		}
		var isC func() bool
		switch k := v.Obj.(type) {
		case interface{ IsConstant() bool }:
			isC = k.IsConstant
		case interface{ IsConstantVector() bool }:
			isC = k.IsConstantVector
		}
		if isC != nil {
			if res, ok := c.must("("+name+").IsConstant()", func() any { return isC() }); ok {
				got := res.(bool)
				if len(syn) == 0 && !got || len(sem) > 0 && got {
					c.fail("(%s).IsConstant() = %v", name, got)
				}
			}
		}
	case x < 0.75: // constraints
		con, l, r, ok := c.anyConstraint(-1)
		if !ok {
			return
		}
		gl, gr, _ := sidesOf(con)
		sem, syn := semVars(l), synVars(gl)
		for id := range semVars(r) {
			sem[id] = true
		}
		for id := range synVars(gr) {
			syn[id] = true
		}
		name := conStr(l, r, con.ConstrSense())
		c.seen(nontrivial(l, r), con)
		c.count(fmt.Sprintf("classified %T", con))
		res, ok := c.must("("+name+").Variables()", func() any { return con.Variables() })
		if !ok || !c.checkVarList("("+name+").Variables()", res.([]sym.Variable), sem, syn) {
			return
		}
		if res, ok := c.must("("+name+").IsLinear()", func() any { return con.IsLinear() }); ok {
			ds := max(semDegree(l), semDegree(r))
			dy := max(synDegree(gl), synDegree(gr))
			if got := res.(bool); dy <= 1 && !got || ds > 1 && got {
				c.fail("(%s).IsLinear() = %v", name, got)
			}
		}
	case x < 0.85: // lists of variables
		var lists [][]sym.Variable
		want := map[uint64]bool{}
		for i := 0; i <= c.n(3); i++ {
			var l []sym.Variable
			for k := 0; k < c.n(6); k++ {
				v := c.someVar()
				l = append(l, v)
				want[v.ID] = true
			}
			lists = append(lists, l)
		}
		var all []sym.Variable
		for _, l := range lists {
			all = append(all, l...)
		}
		c.seen(len(all) > 1, lists)
		c.count("variable lists")
		if res, ok := c.must("UnionOfVariables", func() any { return sym.UnionOfVariables(lists...) }); ok {
			c.checkVarList("UnionOfVariables", res.([]sym.Variable), want, want)
		}
		if res, ok := c.must("UniqueVars", func() any { return sym.UniqueVars(all) }); ok {
			c.checkVarList("UniqueVars", res.([]sym.Variable), want, want)
		}
	default: // terms
		m := c.mono()
		c.seen(len(m.Exponents) > 0, m)
		c.count("terms")
		v := c.someVar()
		p, _ := refMono(m)
		one := false
		for _, t := range p {
			one = len(t.Facs) == 1 && t.Facs[0] == Fac{v.ID, 1}
		}
		if got := m.IsDegreeOneContainingVariable(v); got != one {
			c.fail("(%s).IsDegreeOneContainingVariable(v%d) = %v", rawStr(m), v.ID, got)
		}
		if got := m.IsVariable(v); got != (one && m.Coefficient == 1) {
			c.fail("(%s).IsVariable(v%d) = %v", rawStr(m), v.ID, got)
		}
		if got := m.IsZero(); got != (m.Coefficient == 0) {
			c.fail("(%s).IsZero() = %v", rawStr(m), got)
		}
		q := c.mono()
		if c.p(0.5) {
			q = c.permuted(m, c.coef())
			if len(q.Exponents) > 1 && c.p(0.5) {
				q.Exponents[0], q.Exponents[1] = q.Exponents[1], q.Exponents[0]
			}
		}
		same := hasForm([]sym.Monomial{m}, q)
		if got := m.MatchesFormOf(q); got != same {
			c.fail("(%s).MatchesFormOf(%s) = %v", rawStr(m), rawStr(q), got)
		}
		pol := c.poly()
		idx := pol.MonomialIndex(q)
		if (idx >= 0) != hasForm(pol.Monomials, q) || idx >= 0 && !hasForm(pol.Monomials[idx:idx+1], q) {
			c.fail("(%s).MonomialIndex(%s) = %d", rawStr(pol), rawStr(q), idx)
		}
		k := sym.Monomial{Coefficient: 1}
		ci := pol.ConstantMonomialIndex()
		if (ci >= 0) != hasForm(pol.Monomials, k) || ci >= 0 && !hasForm(pol.Monomials[ci:ci+1], k) {
			c.fail("(%s).ConstantMonomialIndex() = %d", rawStr(pol), ci)
		}
		vm := v.ToMonomial()
		vi := pol.VariableMonomialIndex(v)
		if (vi >= 0) != hasForm(pol.Monomials, vm) || vi >= 0 && !hasForm(pol.Monomials[vi:vi+1], vm) {
			c.fail("(%s).VariableMonomialIndex(v%d) = %d", rawStr(pol), v.ID, vi)
		}
	}
}

// conversions

type conv struct {
	name string
	kind string // expected kind, "" = any
	f    func(x any) any
}

func convsFor(x any) []conv {
	var out []conv
	add := func(name, kind string, f func() any) {
		out = append(out, conv{name, kind, func(any) any { return f() }})
	}
	fst := func(a any, err error) any {
		if err != nil {
			panic(err)
		}
		return a
	}
	switch v := x.(type) {
	case sym.K:
		add("ToMonomial", "Monomial", func() any { return v.ToMonomial() })
		add("ToPolynomial", "Polynomial", func() any { return v.ToPolynomial() })
	case sym.Variable:
		add("ToMonomial", "Monomial", func() any { return v.ToMonomial() })
		add("ToPolynomial", "Polynomial", func() any { return v.ToPolynomial() })
	case sym.Monomial:
		add("ToPolynomial", "Polynomial", func() any { return v.ToPolynomial() })
		add("Copy", "Monomial", func() any { return v.Copy() })
	case sym.Polynomial:
		add("Copy", "Polynomial", func() any { return v.Copy() })
	case sym.KVector:
		add("ToVecDense", "", func() any { return v.ToVecDense() })
		add("ToMonomialVector", "MonomialVector", func() any { return v.ToMonomialVector() })
		add("ToPolynomialVector", "PolynomialVector", func() any { return v.ToPolynomialVector() })
		add("getKVector.From", "KVector", func() any { return getKVector.From(v) })
	case sym.VariableVector:
		add("ToMonomialVector", "MonomialVector", func() any { return v.ToMonomialVector() })
		add("ToPolynomialVector", "PolynomialVector", func() any { return v.ToPolynomialVector() })
		add("Copy", "VariableVector", func() any { return v.Copy() })
	case sym.MonomialVector:
		add("ToPolynomialVector", "PolynomialVector", func() any { return v.ToPolynomialVector() })
	case sym.KMatrix:
		add("ToDense", "", func() any { return v.ToDense() })
		add("ToMonomialMatrix", "MonomialMatrix", func() any { return v.ToMonomialMatrix() })
		add("ToPolynomialMatrix", "PolynomialMatrix", func() any { return v.ToPolynomialMatrix() })
		add("getKMatrix.From", "KMatrix", func() any { return getKMatrix.From(v) })
	case sym.VariableMatrix:
		add("ToMonomialMatrix", "MonomialMatrix", func() any { return v.ToMonomialMatrix() })
		add("ToPolynomialMatrix", "PolynomialMatrix", func() any { return v.ToPolynomialMatrix() })
	case sym.MonomialMatrix:
		if w, ok := x.(interface{ ToPolynomialMatrix() sym.PolynomialMatrix }); ok {
			add("ToPolynomialMatrix", "PolynomialMatrix", func() any { return w.ToPolynomialMatrix() })
		}
	case mat.VecDense:
		add("VecDenseToKVector", "KVector", func() any { return sym.VecDenseToKVector(v) })
		add("getKVector.From", "KVector", func() any { return getKVector.From(v) })
		add("ToVectorExpression", "KVector", func() any { return fst(sym.ToVectorExpression(v)) })
		add("ToExpression", "KVector", func() any { return fst(sym.ToExpression(v)) })
	case *mat.VecDense:
		add("VecDenseToKVector", "KVector", func() any { return sym.VecDenseToKVector(*v) })
		add("getKVector.From", "KVector", func() any { return getKVector.From(v) })
		add("ToVectorExpression", "KVector", func() any { return fst(sym.ToVectorExpression(v)) })
		add("ToExpression", "KVector", func() any { return fst(sym.ToExpression(v)) })
	case mat.Dense:
		add("DenseToKMatrix", "KMatrix", func() any { return sym.DenseToKMatrix(v) })
		add("getKMatrix.From", "KMatrix", func() any { return getKMatrix.From(v) })
		add("ToMatrixExpression", "KMatrix", func() any { return fst(sym.ToMatrixExpression(v)) })
		add("ToExpression", "KMatrix", func() any { return fst(sym.ToExpression(v)) })
	case *mat.Dense:
		add("DenseToKMatrix", "KMatrix", func() any { return sym.DenseToKMatrix(*v) })
		add("getKMatrix.From", "KMatrix", func() any { return getKMatrix.From(v) })
		add("ToMatrixExpression", "KMatrix", func() any { return fst(sym.ToMatrixExpression(v)) })
		add("ToExpression", "KMatrix", func() any { return fst(sym.ToExpression(v)) })
	case float64:
		add("ToScalarExpression", "K", func() any { return fst(sym.ToScalarExpression(v)) })
		add("ToExpression", "K", func() any { return fst(sym.ToExpression(v)) })
	}
	if e, ok := x.(sym.Expression); ok {
		k := kindOf(x)
		add("ToExpression", k, func() any { return fst(sym.ToExpression(e)) })
		add("ToPolynomialLike", k, func() any { return fst(sym.ToPolynomialLike(e)) })
	}
	if e, ok := x.(sym.ScalarExpression); ok {
		add("ToScalarExpression", kindOf(x), func() any { return fst(sym.ToScalarExpression(e)) })
		add("ToPolynomialLikeScalar", kindOf(x), func() any { return fst(sym.ToPolynomialLikeScalar(e)) })
		add("ConcretizeExpression", "", func() any { return sym.ConcretizeExpression(e) })
	}
	if e, ok := x.(sym.VectorExpression); ok {
		add("ToVectorExpression", kindOf(x), func() any { return fst(sym.ToVectorExpression(e)) })
		add("ToPolynomialLikeVector", kindOf(x), func() any { return fst(sym.ToPolynomialLikeVector(e)) })
		add("ToScalarExpressions", "", func() any { return e.ToScalarExpressions() })
		add("ToScalarExpressions+ConcretizeVectorExpression", "", func() any { return sym.ConcretizeVectorExpression(e.ToScalarExpressions()) })
	}
	if e, ok := x.(sym.MatrixExpression); ok {
		add("ToMatrixExpression", kindOf(x), func() any { return fst(sym.ToMatrixExpression(e)) })
		add("ToPolynomialLikeMatrix", kindOf(x), func() any { return fst(sym.ToPolynomialLikeMatrix(e)) })
		add("At+ConcretizeMatrixExpression", "", func() any {
			var rows [][]sym.ScalarExpression
			d := e.Dims()
			for i := 0; i < d[0]; i++ {
				var row []sym.ScalarExpression
				for j := 0; j < d[1]; j++ {
					row = append(row, e.At(i, j))
				}
				rows = append(rows, row)
			}
			return sym.ConcretizeMatrixExpression(rows)
		})
	}
	return out
}

// scribble overwrites everything the caller may write to: gonum objects and
// Go slices (not the library's own expression values).
func (c *Ctx) scribble(x any) {
	switch v := x.(type) {
	case *mat.VecDense:
		for i := 0; i < v.Len(); i++ {
			v.SetVec(i, -777.25-float64(i))
		}
	case mat.VecDense:
		c.scribble(&v)
	case *mat.Dense:
		r, k := v.Dims()
		for i := 0; i < r; i++ {
			for j := 0; j < k; j++ {
				v.Set(i, j, -777.25-float64(i*k+j))
			}
		}
	case mat.Dense:
		c.scribble(&v)
	case []sym.ScalarExpression:
		for i := range v {
			v[i] = sym.K(-777.25)
		}
	case []sym.Variable:
		for i := range v {
			v[i] = c.addVarLike()
		}
		if cap(v) > len(v) {
			_ = append(v, c.addVarLike())
		}
	case []float64:
		for i := range v {
			v[i] = -777.25
		}
	case [][]float64:
		for i := range v {
			c.scribble(v[i])
		}
	case []int:
		for i := range v {
			v[i] = -777
		}
	case []uint64:
		for i := range v {
			v[i] = 777
		}
	case [][]sym.ScalarExpression:
		for i := range v {
			for j := range v[i] {
				v[i][j] = sym.K(-777.25)
			}
		}
	}
}

func cloneForeign(x any) any {
	switch v := x.(type) {
	case *mat.VecDense:
		return mat.VecDenseCopyOf(v)
	case mat.VecDense:
		return *mat.VecDenseCopyOf(&v)
	case *mat.Dense:
		return mat.DenseCopyOf(v)
	case mat.Dense:
		return *mat.DenseCopyOf(&v)
	}
	return x
}

// libConst is the library constant of the same value as a foreign operand.
func libConst(x any) any {
	switch v := x.(type) {
	case float64:
		return sym.K(v)
	case int:
		return sym.K(float64(v))
	case *mat.VecDense:
		k := sym.KVector{}
		for i := 0; i < v.Len(); i++ {
			k = append(k, sym.K(v.AtVec(i)))
		}
		return k
	case mat.VecDense:
		return libConst(&v)
	case *mat.Dense:
		r, n := v.Dims()
		m := sym.KMatrix{}
		for i := 0; i < r; i++ {
			row := []sym.K{}
			for j := 0; j < n; j++ {
				row = append(row, sym.K(v.At(i, j)))
			}
			m = append(m, row)
		}
		return m
	case mat.Dense:
		return libConst(&v)
	}
	return x
}

// builders: the constant vectors and matrices the library builds are new ones
// with the stated entries each time, whatever happened to earlier ones.
func (c *Ctx) builders() {
	n, m := 1+c.n(5), 1+c.n(5)
	if c.p(0.2) {
		n, m = 1+c.n(40), 1+c.n(12)
	}
	var f func() any
	var want func(i, j int) float64
	name := ""
	switch c.n(5) {
	case 0:
		m, name = 1, fmt.Sprintf("ZerosVector(%d)", n)
		f, want = func() any { return sym.ZerosVector(n) }, func(i, j int) float64 { return 0 }
	case 1:
		m, name = 1, fmt.Sprintf("OnesVector(%d)", n)
		f, want = func() any { return sym.OnesVector(n) }, func(i, j int) float64 { return 1 }
	case 2:
		name = fmt.Sprintf("ZerosMatrix(%d,%d)", n, m)
		f, want = func() any { return sym.ZerosMatrix(n, m) }, func(i, j int) float64 { return 0 }
	case 3:
		name = fmt.Sprintf("OnesMatrix(%d,%d)", n, m)
		f, want = func() any { return sym.OnesMatrix(n, m) }, func(i, j int) float64 { return 1 }
	default:
		m, name = n, fmt.Sprintf("Identity(%d)", n)
		f, want = func() any { return sym.Identity(n) }, func(i, j int) float64 {
			if i == j {
				return 1
			}
			return 0
		}
	}
	c.seen(true, name)
	c.count("builder " + strings.SplitN(name, "(", 2)[0])
	check := func(what string, x any) bool {
		var a mat.Matrix
		switch v := x.(type) {
		case mat.VecDense:
			a = &v
		case mat.Dense:
			a = &v
		}
		r, k := a.Dims()
		if r != n || k != m {
			c.fail("%s is %dx%d", what, r, k)
			return false
		}
		for i := 0; i < r; i++ {
			for j := 0; j < k; j++ {
				if a.At(i, j) != want(i, j) {
					c.fail("%s has the entry %v at (%d,%d)", what, a.At(i, j), i, j)
					return false
				}
			}
		}
		return true
	}
	a, ok := c.must(name, f)
	if !ok || !check(name, a) {
		return
	}
	b, ok := c.must(name, f)
	if !ok || !check("a second "+name, b) {
		return
	}
	c.scribble(a)
	if !check(name+" after writing into another one", b) {
		return
	}
	if d, ok := c.must(name, f); ok {
		check(name+" asked for after writing into an earlier one", d)
	}
}

// copies: a copy has the value of the original and shares nothing with it.
func (c *Ctx) copies() {
	v := c.of([]string{"Monomial", "Polynomial", "Polynomial", "VariableVector"}[c.n(4)], 1, 1)
	var res any
	var ok bool
	what := fmt.Sprintf("(%s).Copy()", str(v.Obj))
	c.seen(true, "Copy", v.Obj)
	switch k := v.Obj.(type) {
	case sym.Monomial:
		res, ok = c.must(what, func() any { return k.Copy() })
	case sym.Polynomial:
		res, ok = c.must(what, func() any { return k.Copy() })
	case sym.VariableVector:
		n := 1 + c.n(5)
		v = c.of("VariableVector", n, 1)
		k = v.Obj.(sym.VariableVector)
		what = fmt.Sprintf("(%s).Copy()", str(v.Obj))
		res, ok = c.must(what, func() any { return k.Copy() })
	}
	if !ok || !c.expect(what, res, v.Ref, 0) {
		return
	}
	c.count("copy of " + v.Kind)
	if kindOf(res) != v.Kind {
		c.fail("%s is a %s", what, kindOf(res))
		return
	}
	a, b := v.Obj, res
	if c.p(0.5) {
		a, b = res, v.Obj
	}
	h := deepHash(a)
	mono := func(m *sym.Monomial) {
		for i := range m.Exponents {
			m.Exponents[i] += 3
		}
		for i := range m.VariableFactors {
			m.VariableFactors[i] = c.addVarLike()
		}
		m.Coefficient = -777.25
	}
	switch k := b.(type) {
	case sym.Monomial:
		mono(&k)
	case sym.Polynomial:
		for i := range k.Monomials {
			mono(&k.Monomials[i])
		}
		for i := range k.Monomials {
			k.Monomials[i] = sym.Monomial{Coefficient: 5}
		}
	case sym.VariableVector:
		for i := range k {
			k[i] = c.addVarLike()
		}
	}
	if deepHash(a) != h {
		c.fail("%s: writing into one of original and copy changed the other to %s", what, rawStr(a))
	}
}

func runConvert(c *Ctx) {
	switch x := c.f(); {
	case x < 0.03:
		c.builders()
	case x < 0.07:
		c.copies()
	case x < 0.45: // conversions keep the value and the result is detached
		var v Val
		if c.p(0.35) {
			n := 1 + c.n(4)
			switch c.n(6) {
			case 0, 1:
				v = c.of(foreignV[c.n(2)], n, 1)
			case 2, 3:
				v = c.of(foreignM[c.n(2)], n, 1+c.n(4))
			case 4:
				v = c.of("float64", 1, 1)
			default:
				c.goSlices()
				return
			}
		} else {
			v = c.anyExpr()
		}
		cs := convsFor(v.Obj)
		k := cs[c.n(len(cs))]
		what := fmt.Sprintf("%s of (%s)", k.name, str(v.Obj))
		res, ok := c.must(what, func() any { return k.f(v.Obj) })
		c.seen(true, k.name, v.Obj)
		if !ok {
			return
		}
		c.count("conversion " + k.name + " of " + v.Kind)
		c.sample("%s -> %s", what, str(res))
		if !c.expect(what, res, v.Ref, 0) {
			return
		}
		if k.kind != "" && kindOf(res) != k.kind {
			c.fail("%s gives a %s, expected a %s", what, kindOf(res), k.kind)
			return
		}
		// writing into the foreign side does not change the other one
		if v.E() == nil {
			h := deepHash(res)
			c.scribble(v.Obj)
			if deepHash(res) != h {
				c.fail("%s: writing into the converted object changed the result to %s", what, str(res))
			}
		} else {
			h := deepHash(v.Obj)
			c.scribble(res)
			if deepHash(v.Obj) != h {
				c.fail("%s: writing into the result changed the original to %s", what, rawStr(v.Obj))
			}
		}
	case x < 0.65: // queries are detached
		v := c.anyExpr()
		e := v.E()
		h := deepHash(v.Obj)
		type q struct {
			name string
			f    func() any
		}
		qs := []q{
			{"Variables", func() any { return e.Variables() }},
			{"Dims", func() any { return e.Dims() }},
			{"VariableIDs", func() any { return sym.VariableIDs(e) }},
		}
		switch k := v.Obj.(type) {
		case interface{ Constant() mat.VecDense }:
			qs = append(qs, q{"Constant", func() any { return k.Constant() }})
		case interface{ Constant() mat.Dense }:
			qs = append(qs, q{"Constant", func() any { return k.Constant() }})
		}
		list := c.listFor()
		switch k := v.Obj.(type) {
		case interface {
			LinearCoeff(...[]sym.Variable) mat.VecDense
		}:
			qs = append(qs, q{"LinearCoeff", func() any { return k.LinearCoeff(list) }})
		case interface {
			LinearCoeff(...[]sym.Variable) mat.Dense
		}:
			qs = append(qs, q{"LinearCoeff", func() any { return k.LinearCoeff(list) }})
		}
		if k, ok := v.Obj.(sym.VectorExpression); ok {
			qs = append(qs, q{"ToScalarExpressions", func() any { return k.ToScalarExpressions() }})
		}
		k := qs[c.n(len(qs))]
		if c.p(0.4) {
			k = qs[0]
		}
		what := fmt.Sprintf("(%s %s).%s()", v.Kind, rawStr(v.Obj), k.name)
		a, ok := c.must(what, k.f)
		c.seen(true, k.name, v.Obj)
		if !ok {
			return
		}
		b, ok := c.must(what, k.f)
		if !ok {
			return
		}
		c.count("query " + k.name + " of " + v.Kind)
		hb := hashAny(b)
		c.scribble(a)
		if deepHash(v.Obj) != h {
			c.fail("%s: writing into the answer changed the expression to %s", what, rawStr(v.Obj))
			return
		}
		if hashAny(b) != hb {
			c.fail("%s: writing into one answer changed another one", what)
			return
		}
		d, ok := c.must(what, k.f)
		if ok && hashAny(d) != hb {
			c.fail("%s: the answer differs after writing into an earlier one", what)
		}
	default: // a foreign operand acts like the library constant
		l, r := c.addPair()
		op := []string{"Plus", "Minus", "Eq", "LessEq", "GreaterEq"}[c.n(5)]
		if c.p(0.4) {
			l, r = c.mulPair()
			op = "Multiply"
		}
		// make the right operand foreign
		rr, rc := r.R(), r.C()
		switch {
		case rr == 1 && rc == 1 && c.p(0.5):
			r = c.of(foreignS[c.n(2)], 1, 1)
		case rc == 1 && c.p(0.6):
			r = c.of(foreignV[c.n(2)], rr, 1)
		default:
			r = c.of(foreignM[c.n(2)], rr, rc)
		}
		kc := libConst(r.Obj)
		call := func(x any) func() any {
			return func() any {
				switch op {
				case "Eq":
					return l.E().Eq(x)
				case "LessEq":
					return l.E().LessEq(x)
				case "GreaterEq":
					return l.E().GreaterEq(x)
				}
				return doBin(op, l.E(), x)
			}
		}
		what := fmt.Sprintf("(%s).%s(%s)", str(l.Obj), op, str(r.Obj))
		a, pa := try(call(r.Obj))
		b, pb := try(call(kc))
		c.seen(nontrivial(l.Ref), op, l.Obj, kc)
		if pa != nil || pb != nil {
			c.count("foreign operand refused")
			return
		}
		c.count("foreign operand " + r.Kind + " in " + op)
		var sa, sb []any
		if ca, isC := a.(sym.Constraint); isC {
			la, ra, s1 := sidesOf(ca)
			cb, isC2 := b.(sym.Constraint)
			if !isC2 {
				c.fail("%s: %T with the foreign operand, %T with the constant", what, a, b)
				return
			}
			lb, rb, s2 := sidesOf(cb)
			if s1 != s2 {
				c.fail("%s: sense %c with the foreign operand, %c with the constant", what, s1, s2)
				return
			}
			sa, sb = []any{la, ra}, []any{lb, rb}
		} else {
			sa, sb = []any{a}, []any{b}
		}
		for i := range sa {
			want, _ := toRef(sb[i])
			// the two may round differently: what was cancelled counts in full
			if len(sb) == 1 && want.E != nil && (op == "Plus" || op == "Minus" || op == "Multiply") {
				if m, ok := refBin(op, l.Ref, r.Ref); ok && m.R == want.R && m.C == want.C {
					want = withMagOf(want, m)
				}
			}
			if want.E == nil || !c.expect(what+" compared with the library constant", sa[i], want, tolOne) {
				return
			}
			if kindOf(sa[i]) != kindOf(sb[i]) {
				c.count("kind differs between foreign operand and constant")
			}
		}
		// detached from the operand
		var h []uint64
		for i := range sa {
			h = append(h, deepHash(sa[i]))
		}
		c.scribble(r.Obj)
		for i := range sa {
			if deepHash(sa[i]) != h[i] {
				c.fail("%s: writing into the operand afterwards changed the result to %s", what, str(sa[i]))
				return
			}
		}
	}
}

func hashAny(x any) uint64 {
	switch x.(type) {
	case mat.VecDense, *mat.VecDense, mat.Dense, *mat.Dense:
		m, _ := toRef(x)
		return deepHash(fmt.Sprint(m.R, m.C, m))
	}
	return deepHash(x)
}

func (c *Ctx) goSlices() {
	n, m := 1+c.n(4), 1+c.n(4)
	if c.p(0.02) {
		n, m = 1+c.n(80), 1+c.n(40)
	}
	var in, out any
	var want RMat
	name := ""
	switch c.n(3) {
	case 0:
		s := make([]float64, n, n+c.n(3))
		want = newRMat(n, 1)
		for i := range s {
			s[i] = c.coef()
			want.set(i, 0, rConst(s[i]))
		}
		in, name = s, "getKVector.From([]float64)"
	case 1:
		s := make([]int, n, n+c.n(3))
		want = newRMat(n, 1)
		for i := range s {
			s[i] = c.rng(-1000000, 1000000)
			if c.p(0.2) {
				s[i] = []int{1<<24 + 1, 1<<31 - 1, 1 << 31, -1<<31 - 1, 1<<32 + 1, 1<<53 - 1, -(1<<53 - 1), 1<<40 + 12345, math.MinInt64}[c.n(9)]
			}
			want.set(i, 0, rConst(float64(s[i])))
		}
		in, name = s, "getKVector.From([]int)"
	default:
		s := make([][]float64, n)
		want = newRMat(n, m)
		for i := range s {
			s[i] = make([]float64, m)
			for j := range s[i] {
				s[i][j] = c.coef()
				want.set(i, j, rConst(s[i][j]))
			}
		}
		in, name = s, "getKMatrix.From([][]float64)"
	}
	what := fmt.Sprintf("%s of %v", name, in)
	res, ok := c.must(what, func() any {
		if s, is := in.([][]float64); is {
			return getKMatrix.From(s)
		}
		return getKVector.From(in)
	})
	c.seen(true, in)
	if !ok {
		return
	}
	out = res
	c.count(name)
	if !c.expect(what, out, want, 0) {
		return
	}
	c.scribble(in)
	c.expect(what+" after writing into the slice", out, want, 0)
}

func init() {
	register(&Prop{ID: "S12", Quick: 4800000, Thorough: 36000000, Run: runConvert,
		Rule: "one conversion (then a write into the foreign side), one query asked twice (with a write into the answer), or one operation with a gonum object or Go number repeated with the library constant; distinct: contents and conversion"})
	register(&Prop{ID: "S14", Quick: 4000000, Thorough: 30000000, Run: runConstraint,
		Rule: "one scalar, vector or matrix constraint (from a comparison or a literal) simplified, scaled by a positive or negative factor, or substituted into; non-trivial: a variable occurs; distinct: contents"})
	register(&Prop{ID: "S15", Quick: 4000000, Thorough: 30000000, Run: runMatrixForm,
		Rule: "one linear scalar or vector constraint of any kinds, its matrix form for a list of all variables in random order (sometimes with others); 15 % nonlinear, which have to be refused; non-trivial: a variable occurs; distinct: contents and list"})
	register(&Prop{ID: "S16", Quick: 3000000, Thorough: 22500000, Run: runImplies,
		Rule: "one pair of constraints asked for implication (one-variable linear pairs against an exact interval oracle, any others against up to 400 sampled points), or one constraint asked for nonnegativity against an exact oracle; distinct: contents"})
	register(&Prop{ID: "S22", Quick: 5000000, Thorough: 37500000, Run: runClassify,
		Rule: "one expression, constraint, list of variables or term classified; non-trivial: a variable occurs; distinct: contents"})
}
