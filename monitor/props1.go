package main

// Powers, derivatives, substitution, simplification, constants and linear
// coefficients, structure, comparisons.

import (
	"fmt"
	"math"

	sym "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
	"gonum.org/v1/gonum/mat"
)

// small makes the generator produce operands whose powers and compositions
// stay of moderate size.
func (c *Ctx) small(terms, exp, fac int) {
	c.MaxTerm = min(c.MaxTerm, terms)
	c.MaxExp = min(c.MaxExp, exp)
	c.MaxFac = min(c.MaxFac, fac)
	if c.Coef == coefWild && c.p(0.7) {
		c.Coef = coefGeneral
	}
}

// long makes a few cases with terms of many factors, or with many terms of
// few factors, for the properties that multiply out.
func (c *Ctx) long() {
	if c.Wide || c.Huge || c.Big || !c.p(0.03) {
		return
	}
	c.Long = true
	for n := 5 + c.n(9); len(c.Vars) < n; {
		c.addVar(c.n(2))
	}
	c.MaxExp = 1 + c.n(2)
	if c.p(0.5) {
		c.MaxTerm, c.MaxFac = 1+c.n(2), 5+c.n(7)
	} else {
		c.MaxTerm, c.MaxFac = 6+c.n(14), 1
		c.Wide, c.OneWide = c.p(0.6), true
	}
}

func (c *Ctx) anyExpr() Val { return c.val() }

// must runs a call that has to return a value.
func (c *Ctx) must(what string, f func() any) (any, bool) {
	res, pan := try(f)
	if pan != nil {
		c.fail("%s panicked: %v", what, clip(fmt.Sprint(pan), 300))
		return nil, false
	}
	return res, true
}

func (c *Ctx) refuse(what string, f func() any) {
	res, pan := try(f)
	c.count("refusals expected")
	c.w.evals++
	if pan == nil {
		c.fail("%s must be refused, but returned %s", what, str(res))
	}
}

func (c *Ctx) someVar() sym.Variable {
	if c.p(0.1) {
		return c.addVarLike()
	}
	return c.variable()
}

// addVarLike adds a variable that occurs in no operand made so far.
func (c *Ctx) addVarLike() sym.Variable {
	var id uint64 = 77777
	for _, v := range c.Vars {
		if v.ID >= id {
			id = v.ID + 1
		}
	}
	v := sym.Variable{ID: id, Lower: -1, Upper: 2, Type: sym.Continuous, Name: fmt.Sprintf("v_%d", len(c.Vars)+20), Environment: c.Env}
	return v
}

func (c *Ctx) replacement() sym.ScalarExpression {
	return c.scalar().Obj.(sym.ScalarExpression)
}

// bigPower makes a base that stays small when it is raised to a large power.
func (c *Ctx) bigPower() (Val, int) {
	n := 14 + c.n(60)
	if c.p(0.4) {
		n = []int{63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1024}[c.n(16)]
	}
	k := (0.6 + 0.9*c.f()) * []float64{1, -1}[c.n(2)]
	if c.p(0.3) {
		k = []float64{1, -1, 2, -2, 0.5}[c.n(5)]
	}
	one := func() sym.Monomial {
		p := c.perm(len(c.Vars))[:1+c.n(min(2, len(c.Vars)))]
		m := c.monoOf(k, p, nil)
		for i := range m.Exponents {
			m.Exponents[i] = 1 + c.n(3)
		}
		return m
	}
	switch c.n(6) {
	case 0:
		return mkVal(sym.K(k)), n
	case 1:
		return mkVal(c.variable()), n
	case 2:
		return mkVal(one()), n
	case 3:
		return mkVal(sym.Polynomial{Monomials: []sym.Monomial{one()}}), n
	case 4:
		d := 1 + c.n(2)
		m := sym.KMatrix{}
		for i := 0; i < d; i++ {
			m = append(m, make([]sym.K, d))
			for j := range m[i] {
				m[i][j] = sym.K((c.f()*2 - 1) / float64(d) * 1.4)
			}
		}
		return mkVal(m), min(n, 130)
	}
	return mkVal(sym.Polynomial{Monomials: []sym.Monomial{one(), {Coefficient: 0.5 + c.f()}}}), 14 + n%24
}

// highTerm makes a term with exponents that are large already.
func (c *Ctx) highTerm() (Val, int) {
	p := c.perm(len(c.Vars))[:1+c.n(min(3, len(c.Vars)))]
	m := c.monoOf([]float64{1, 1, 1, -1, 0.5, 1.0625}[c.n(6)], p, nil)
	for i := range m.Exponents {
		switch c.n(3) {
		case 0:
			m.Exponents[i] = hugeExps[c.n(27)]
		case 1:
			m.Exponents[i] = 90 + c.n(40000)
		default:
			m.Exponents[i] = 1 + c.n(40)
		}
	}
	n := 2 + c.n(12)
	if c.p(0.5) {
		n = 14 + c.n(240)
	}
	if c.p(0.2) {
		return mkVal(sym.Polynomial{Monomials: []sym.Monomial{m}}), n
	}
	return mkVal(m), n
}

func runPower(c *Ctx) {
	c.small(4, 3, 3)
	var v Val
	n := c.n(5)
	switch x := c.f(); {
	case x < 0.03: // exponents far beyond the usual ones
		v, n = c.bigPower()
		if c.p(0.3) {
			v, n = c.highTerm()
			c.count("power of a term of large exponents")
		}
	case x < 0.5:
		v = c.scalar()
		if v.Kind != "Polynomial" {
			n = c.n(14)
			if c.Coef == coefWild {
				n = c.n(5)
			}
		}
	case x < 0.65:
		v = c.of(vectorKinds[c.n(4)], 1, 1)
	case x < 0.92:
		c.small(2, 2, 2)
		d := 1 + c.n(3)
		n = c.n(4)
		v = c.of(matrixKinds[c.n(4)], d, d)
		if v.Kind == "KMatrix" || d == 1 {
			n = c.n(7)
		}
	case x < 0.96: // longer vectors and non-square matrices are refused
		if c.p(0.5) {
			v = c.of(vectorKinds[c.n(4)], 2+c.n(3), 1)
		} else {
			r := 1 + c.n(4)
			q := 1 + c.n(4)
			if q == r {
				q++
			}
			v = c.of(matrixKinds[c.n(4)], r, q)
		}
		c.refuse(fmt.Sprintf("(%s).Power(%d)", str(v.Obj), n), func() any { return v.E().Power(n) })
		return
	default:
		v = c.scalar()
		if c.p(0.5) {
			d := 1 + c.n(3)
			v = c.of(matrixKinds[c.n(4)], d, d)
		}
		n = -1 - c.n(4)
		c.refuse(fmt.Sprintf("(%s).Power(%d)", str(v.Obj), n), func() any { return v.E().Power(n) })
		return
	}
	if len(v.Ref.E[0]) > 2 && n > 13 {
		n = 13
	}
	if len(v.Ref.E[0]) > 6 && n > 3 {
		n = 3
	}
	what := fmt.Sprintf("(%s).Power(%d)", str(v.Obj), n)
	res, ok := c.must(what, func() any { return v.E().Power(n) })
	c.seen(n > 1 && nontrivial(v.Ref), n, v.Obj)
	if !ok {
		return
	}
	switch {
	case n <= 16:
		c.count(fmt.Sprintf("exponent %d", n))
	case n <= 64:
		c.count("exponent 17..64")
	default:
		c.count("exponent 65..")
	}
	c.count("power of " + v.Kind)
	c.sample("%s -> %s", what, str(res))
	want := mPow(v.Ref, n)
	c.expect(what, res, want, tolChain)
}

func runDeriv(c *Ctx) {
	v := c.anyExpr()
	cur := any(v.E())
	ref := v.Ref
	steps := 1
	if c.p(0.35) {
		steps += 1 + c.n(2)
	}
	what := str(v.Obj)
	for s := 0; s < steps; s++ {
		x := c.someVar()
		what = fmt.Sprintf("(%s).DerivativeWrt(v%d)", what, x.ID)
		e, ok := cur.(sym.Expression)
		if !ok {
			c.fail("%s: not an expression", what)
			return
		}
		res, ok := c.must(what, func() any { return e.DerivativeWrt(x) })
		occurs := false
		for _, p := range ref.E {
			occurs = occurs || p.vars()[x.ID]
		}
		c.seen(occurs, s, cur, x.ID)
		if !ok {
			return
		}
		ref = ref.mapE(func(p RPoly) RPoly { return rDeriv(p, x.ID) })
		if occurs {
			c.count("occurring variable")
		} else {
			c.count("absent variable")
		}
		c.count("derivative of " + kindOf(cur))
		c.sample("%s -> %s", what, str(res))
		if !c.expect(what, res, ref, tolOne) {
			return
		}
		cur = res
	}
}

func runSubst(c *Ctx) {
	c.small(4, 3, 3)
	c.long()
	v := c.anyExpr()
	x := c.someVar()
	c.small(3, 2, 2)
	rep := c.replacement()
	if c.p(0.1) { // self-referring replacement
		rep = sym.Polynomial{Monomials: []sym.Monomial{x.ToMonomial(), {Coefficient: c.coef()}}}
	}
	rr := mkVal(rep).Ref.E[0]
	what := fmt.Sprintf("(%s).Substitute(v%d, %s)", str(v.Obj), x.ID, str(rep))
	res, ok := c.must(what, func() any { return v.E().Substitute(x, rep) })
	occurs := false
	for _, p := range v.Ref.E {
		occurs = occurs || p.vars()[x.ID]
	}
	c.seen(occurs, v.Obj, x.ID, rep)
	if !ok {
		return
	}
	if occurs {
		c.count("occurring variable")
	} else {
		c.count("absent variable")
	}
	c.count("substitution in " + v.Kind + " by " + kindOf(rep))
	c.sample("%s -> %s", what, str(res))
	want := v.Ref.mapE(func(p RPoly) RPoly { return rSubst(p, map[uint64]RPoly{x.ID: rr}) })
	c.expect(what, res, want, tolChain)
}

// subMap makes a substitution map and its reference.
func (c *Ctx) subMap() (map[sym.Variable]sym.Expression, map[uint64]RPoly, string) {
	m := map[sym.Variable]sym.Expression{}
	r := map[uint64]RPoly{}
	kind := ""
	put := func(v sym.Variable, e sym.Expression) {
		m[v] = e
		r[v.ID] = mkVal(e).Ref.E[0]
	}
	switch x := c.f(); {
	case (c.Long && x < 0.4 || x < 0.06) && len(c.Vars) > 1: // a swap or a cycle of some of the variables
		kind = "partial permutation"
		p := c.perm(len(c.Vars))[:2+c.n(len(c.Vars)-1)]
		if c.p(0.5) {
			p = p[:2]
		}
		for i := range p {
			put(c.Vars[p[i]], c.Vars[p[(i+1)%len(p)]])
		}
	case c.Long && x > 0.6:
		kind = "mixed, long"
		for i, k := range c.perm(len(c.Vars)) {
			switch {
			case c.p(0.4):
			case i < 2:
				put(c.Vars[k], c.scalar().E())
			case c.p(0.5):
				put(c.Vars[k], sym.K(c.coef()))
			default:
				put(c.Vars[k], c.variable())
			}
		}
	case x < 0.3 && len(c.Vars) > 1: // a permutation of variables: swaps and cycles
		kind = "permutation"
		p := c.perm(len(c.Vars))
		for i, v := range c.Vars {
			put(v, c.Vars[p[i]])
		}
	case x < 0.5:
		kind = "evaluation"
		for _, v := range c.Vars {
			put(v, sym.K(float64(c.rng(-4, 4))))
		}
	case x < 0.6 && !c.Long:
		kind = "chain"
		for i, v := range c.Vars {
			w := c.Vars[(i+1)%len(c.Vars)]
			put(v, sym.Polynomial{Monomials: []sym.Monomial{w.ToMonomial(), {Coefficient: float64(1 + i)}}})
		}
	default:
		kind = "mixed"
		for _, v := range c.Vars {
			if c.p(0.6) {
				put(v, c.scalar().E())
			}
		}
		if c.p(0.3) {
			put(c.addVarLike(), c.scalar().E())
		}
	}
	return m, r, kind
}

func mapStr(m map[sym.Variable]sym.Expression) string {
	s := ""
	for v, e := range m {
		s += fmt.Sprintf("v%d->%s; ", v.ID, str(e))
	}
	return s
}

func runSubMap(c *Ctx) {
	c.small(4, 3, 3)
	c.long()
	if !c.Long && c.p(0.01) { // many keys
		for n := 8 + c.n(70); len(c.Vars) < n; {
			c.addVar(c.n(2))
		}
		c.MaxExp = min(c.MaxExp, 2)
		c.MaxTerm, c.Wide, c.Heavy = 10+c.n(30), c.p(0.5), c.p(0.7)
		c.count("map with many keys")
	}
	if c.p(0.2) {
		runSubMapConstraint(c)
		return
	}
	v := c.anyExpr()
	c.Wide = false
	c.small(2, 2, 2)
	m, r, kind := c.subMap()
	want := v.Ref.mapE(func(p RPoly) RPoly { return rSubst(p, r) })
	what := fmt.Sprintf("(%s).SubstituteAccordingTo({%s})", str(v.Obj), mapStr(m))
	reps := 1 + c.n(3)
	for k := 0; k < reps; k++ {
		res, ok := c.must(what, func() any { return v.E().SubstituteAccordingTo(m) })
		c.seen(len(m) > 1 && nontrivial(v.Ref), v.Obj, m)
		if !ok {
			return
		}
		c.count("map kind " + kind)
		c.count("map into " + v.Kind)
		c.sample("%s -> %s", what, str(res))
		if !c.expect(fmt.Sprintf("call %d: %s", k+1, what), res, want, tolChain) {
			return
		}
	}
}

func runSubMapConstraint(c *Ctx) {
	con, l, r, ok := c.constraint()
	if !ok {
		return
	}
	c.small(2, 2, 2)
	m, rm, _ := c.subMap()
	what := fmt.Sprintf("(%s %c %s).SubstituteAccordingTo({%s})", l.String(), con.ConstrSense(), r.String(), mapStr(m))
	res, ok := c.must(what, func() any { return con.SubstituteAccordingTo(m) })
	c.seen(len(m) > 1, con, m)
	if !ok {
		return
	}
	c.count("map into constraint")
	sub := func(p RPoly) RPoly { return rSubst(p, rm) }
	c.expectConstraint(what, res, l.mapE(sub), r.mapE(sub), con.ConstrSense(), tolChain)
}

// expectConstraint compares a returned constraint with the expected sides.
func (c *Ctx) expectConstraint(what string, res any, l, r RMat, s sym.ConstrSense, tol float64) bool {
	con, ok := res.(sym.Constraint)
	if !ok {
		c.fail("%s returned %T", what, res)
		return false
	}
	lx, rx, sx := sidesOf(con)
	return c.expect(what+": left side", lx, l, tol) && c.expect(what+": right side", rx, r, tol) &&
		func() bool {
			if sx != s {
				c.fail("%s: sense %c, expected %c", what, sx, s)
				return false
			}
			return true
		}()
}

// sidesOf reads the fields of a constraint.
func sidesOf(c sym.Constraint) (l, r any, s sym.ConstrSense) {
	switch x := c.(type) {
	case sym.ScalarConstraint:
		return x.LeftHandSide, x.RightHandSide, x.Sense
	case sym.VectorConstraint:
		return x.LeftHandSide, x.RightHandSide, x.Sense
	case sym.MatrixConstraint:
		return x.LeftHandSide, x.RightHandSide, x.Sense
	}
	return nil, nil, 0
}

func (c *Ctx) sense() sym.ConstrSense {
	return []sym.ConstrSense{sym.SenseEqual, sym.SenseLessThanEqual, sym.SenseGreaterThanEqual}[c.n(3)]
}

// compare builds a constraint through one of the comparison methods.
func (c *Ctx) compare(l sym.Expression, r any, s sym.ConstrSense) sym.Constraint {
	if c.p(0.6) {
		switch s {
		case sym.SenseEqual:
			return l.Eq(r)
		case sym.SenseLessThanEqual:
			return l.LessEq(r)
		default:
			return l.GreaterEq(r)
		}
	}
	return l.Comparison(r, s)
}

// constraint makes a constraint by comparing two operands; ok is false when
// the comparison of these kinds is not supported.
func (c *Ctx) constraint() (sym.Constraint, RMat, RMat, bool) {
	l, r := c.addPair()
	s := c.sense()
	res, pan := try(func() any { return c.compare(l.E(), r.Obj, s) })
	if pan != nil {
		return nil, RMat{}, RMat{}, false
	}
	con := res.(sym.Constraint)
	lr, rr := spread(l.Ref, r.Ref)
	return con, lr, rr, true
}

// spread gives a 1x1 side the shape of the other one.
func spread(l, r RMat) (RMat, RMat) {
	if l.is11() && !r.is11() {
		l = r.mapE(func(RPoly) RPoly { return l.E[0] })
	} else if r.is11() && !l.is11() {
		r = l.mapE(func(RPoly) RPoly { return r.E[0] })
	}
	return l, r
}

// canonical judges the structure of a simplified scalar.
func canonical(x any) string {
	nz := func(p RPoly) int {
		n := 0
		for _, t := range p {
			if t.Val != 0 {
				n++
			}
		}
		return n
	}
	switch v := x.(type) {
	case sym.K, sym.Variable:
		return ""
	case sym.Monomial:
		p, err := refMono(v)
		switch {
		case err != nil:
			return err.Error()
		case len(v.VariableFactors) == 0:
			return "a monomial without variables is not the constant it could be"
		case v.Coefficient == 0:
			return "a monomial with coefficient zero is not the constant 0"
		case v.Coefficient == 1 && len(v.Exponents) == 1 && v.Exponents[0] == 1:
			return "a monomial is not the variable it could be"
		}
		_ = p
		return ""
	case sym.Polynomial:
		p, err := refPoly(v)
		if err != nil {
			return err.Error()
		}
		if len(p) != len(v.Monomials) {
			return "like terms are left"
		}
		if nz(p) != len(p) {
			return "zero terms are left"
		}
		if len(p) < 2 {
			return "a polynomial of one term is not the simpler kind it could be"
		}
		return ""
	}
	return ""
}

// dusty scatters terms over p that are far smaller than the others.
func (c *Ctx) dusty(p sym.Polynomial) sym.Polynomial {
	tiny := func() float64 {
		k := math.Pow(10, -16-14*c.f())
		if c.p(0.5) {
			k = -k
		}
		return k
	}
	if c.p(0.4) { // only one ordinary term is left, besides the small ones
		v := c.variable()
		k := []float64{1, 1, 1, 2, -1}[c.n(5)]
		p = sym.Polynomial{}
		for n := c.n(3); n > 0; n-- {
			m := c.mono()
			q := c.permuted(m, -m.Coefficient)
			p.Monomials = append(p.Monomials, m, q)
		}
		x := sym.Monomial{Coefficient: k, VariableFactors: []sym.Variable{v}, Exponents: []int{1}}
		if c.p(0.5) {
			y := cpMono(x)
			x.Coefficient, y.Coefficient = k/2, k/2
			p.Monomials = append(p.Monomials, y)
		}
		p.Monomials = append(p.Monomials, x)
	}
	out := cpPoly(p)
	for n := 1 + c.n(2); n > 0; n-- {
		m := sym.Monomial{Coefficient: tiny()}
		if c.p(0.5) {
			m = c.mono()
			m.Coefficient = tiny()
		}
		out.Monomials = append(out.Monomials, m)
	}
	ms := make([]sym.Monomial, 0, len(out.Monomials))
	for _, i := range c.perm(len(out.Monomials)) {
		ms = append(ms, out.Monomials[i])
	}
	return sym.Polynomial{Monomials: ms}
}

func runSimplify(c *Ctx) {
	c.Messy = c.p(0.85)
	if c.Messy && c.p(0.5) {
		c.Coef = coefDyadic
	}
	c.MaxTerm = 1 + c.n(8)
	v := c.anyExpr()
	if c.p(0.5) {
		v = c.of("Polynomial", 1, 1)
	}
	dust := false
	if !c.Heavy && c.Scale == 0 && (v.Kind == "Polynomial" || v.Kind == "PolynomialVector" || v.Kind == "PolynomialMatrix") && c.p(0.1) {
		// terms far smaller than the others count, too
		dust = true
		v = mkVal(mapEntries(v.Obj, func(i, j int, x any) any {
			if !v.Ref.is11() && c.p(0.6) {
				return x
			}
			return c.dusty(x.(sym.Polynomial))
		}))
		c.count("terms of very different sizes")
	}
	e := v.E()
	call := "AsSimplifiedExpression"
	f := func(e sym.Expression) any { return e.AsSimplifiedExpression() }
	switch p := v.Obj.(type) {
	case sym.Polynomial:
		if c.p(0.4) {
			call = "Simplify"
			f = func(e sym.Expression) any { return e.(sym.Polynomial).Simplify() }
			_ = p
		}
	case sym.PolynomialVector:
		if c.p(0.5) {
			call = "Simplify"
			f = func(e sym.Expression) any {
				if pv, ok := e.(sym.PolynomialVector); ok {
					return pv.Simplify()
				}
				return e
			}
		}
	case sym.PolynomialMatrix:
		if c.p(0.5) {
			call = "Simplify"
			f = func(e sym.Expression) any {
				if pm, ok := e.(sym.PolynomialMatrix); ok {
					return pm.Simplify()
				}
				return e
			}
		}
	}
	what := fmt.Sprintf("(%s %s).%s()", v.Kind, rawStr(v.Obj), call)
	res, ok := c.must(what, func() any { return f(e) })
	c.seen(nontrivial(v.Ref), call, v.Obj)
	if !ok {
		return
	}
	c.count(call + " of " + v.Kind)
	c.sample("%s -> %s", what, str(res))
	if !c.expect(what, res, v.Ref, tolOne) {
		return
	}
	re := res.(sym.Expression)
	if _, poly := res.(sym.Polynomial); call == "Simplify" && poly {
		if d := canonicalPoly(res.(sym.Polynomial)); d != "" {
			c.fail("%s = %s: %s", what, rawStr(res), d)
		}
	} else {
		switch res.(type) {
		case sym.ScalarExpression:
			if d := canonical(res); d != "" {
				c.fail("%s = %s: %s", what, rawStr(res), d)
			}
		default:
			if d := canonicalEntries(res); d != "" {
				c.fail("%s = %s: %s", what, rawStr(res), d)
			}
		}
		// exact cancellation must be recognised
		if c.Coef == coefDyadic && v.Ref.is11() && !dust {
			if s, isS := res.(sym.ScalarExpression); isS {
				want := v.Ref.E[0].clean()
				if kw := kindWanted(want); kw != kindOf(s) {
					c.fail("%s = %s has kind %s although %s suffices", what, rawStr(res), kindOf(s), kw)
				}
			}
		}
	}
	again, ok := c.must(what+" again", func() any { return f(re) })
	if !ok {
		return
	}
	ra, _ := toRef(res)
	rb, _ := toRef(again)
	if rb.E == nil || kindOf(res) != kindOf(again) || mDiff(rb, ra, 0) != "" || sizeOf(res) != sizeOf(again) {
		c.fail("%s = %s, but simplifying again gives %s %s", what, rawStr(res), kindOf(again), rawStr(again))
	}
}

func kindWanted(p RPoly) string {
	switch {
	case len(p) == 0:
		return "K"
	case len(p) > 1:
		return "Polynomial"
	}
	for _, t := range p {
		switch {
		case len(t.Facs) == 0:
			return "K"
		case len(t.Facs) == 1 && t.Facs[0].Exp == 1 && t.Val == 1:
			return "Variable"
		}
	}
	return "Monomial"
}

func canonicalPoly(p sym.Polynomial) string {
	r, err := refPoly(p)
	if err != nil {
		return err.Error()
	}
	if len(r) != len(p.Monomials) {
		return "like terms are left"
	}
	for k, t := range r {
		if t.Val == 0 && !(len(r) == 1 && k == "") {
			return "zero terms are left"
		}
	}
	return ""
}

func canonicalEntries(x any) string {
	var ps []sym.Polynomial
	switch v := x.(type) {
	case sym.PolynomialVector:
		ps = v
	case sym.PolynomialMatrix:
		for _, row := range v {
			ps = append(ps, row...)
		}
	}
	for i, p := range ps {
		if d := canonicalPoly(p); d != "" {
			return fmt.Sprintf("entry %d: %s", i, d)
		}
	}
	return ""
}

func sizeOf(x any) int {
	switch v := x.(type) {
	case sym.Polynomial:
		return len(v.Monomials)
	case sym.PolynomialVector:
		n := 0
		for _, p := range v {
			n += len(p.Monomials)
		}
		return n
	case sym.PolynomialMatrix:
		n := 0
		for _, r := range v {
			n += sizeOf(sym.PolynomialVector(r))
		}
		return n
	}
	return 1
}

// rawStr prints the terms of polynomials as they are stored.
func rawStr(x any) string {
	mono := func(m sym.Monomial) string {
		s := fmt.Sprintf("%v", m.Coefficient)
		for i, v := range m.VariableFactors {
			e := 0
			if i < len(m.Exponents) {
				e = m.Exponents[i]
			}
			s += fmt.Sprintf("*v%d^%d", v.ID, e)
		}
		return s
	}
	switch v := x.(type) {
	case sym.Monomial:
		return mono(v)
	case sym.Polynomial:
		s := ""
		for i, m := range v.Monomials {
			if i > 0 {
				s += " + "
			}
			s += mono(m)
		}
		return s
	case sym.PolynomialVector:
		s := "["
		for _, p := range v {
			s += rawStr(p) + "; "
		}
		return s + "]"
	}
	return str(x)
}

func runCoeffs(c *Ctx) {
	c.Coef = []int{coefDyadic, coefDyadic, coefGeneral, coefWild}[c.n(4)]
	if c.p(0.6) {
		c.MaxExp, c.MaxFac = min(c.MaxExp, 2), min(c.MaxFac, 2)
	}
	v := c.anyExpr()
	// constant part
	type k0 interface{ Constant() float64 }
	type kv interface{ Constant() mat.VecDense }
	type km interface{ Constant() mat.Dense }
	var res any
	ok := true
	what := fmt.Sprintf("(%s %s).Constant()", v.Kind, rawStr(v.Obj))
	switch e := v.Obj.(type) {
	case k0:
		res, ok = c.must(what, func() any { return e.Constant() })
	case kv:
		res, ok = c.must(what, func() any { return e.Constant() })
	case km:
		res, ok = c.must(what, func() any { return e.Constant() })
	default:
		ok = false
	}
	c.seen(nontrivial(v.Ref), v.Obj)
	if ok {
		c.count("constant of " + v.Kind)
		want := v.Ref.mapE(func(p RPoly) RPoly {
			t := p.constant()
			q := RPoly{}
			q.addTerm(nil, t.Val, t.Mag)
			return q
		})
		c.expect(what, res, want, tolOne)
	}
	// linear coefficients
	type l0 interface {
		LinearCoeff(...[]sym.Variable) mat.VecDense
	}
	type lv interface {
		LinearCoeff(...[]sym.Variable) mat.Dense
	}
	var wrt []sym.Variable
	withList := c.p(0.75)
	if withList {
		for _, i := range c.perm(len(c.Vars)) {
			if c.p(0.75) {
				wrt = append(wrt, c.Vars[i])
			}
		}
		if c.p(0.3) || len(wrt) == 0 {
			wrt = append(wrt, c.addVarLike())
			if c.p(0.5) {
				k := len(wrt) - 1
				wrt[0], wrt[k] = wrt[k], wrt[0]
			}
		}
		if c.p(0.05) { // a variable listed twice: each position has its own entry
			x := wrt[c.n(len(wrt))]
			k := c.n(len(wrt) + 1)
			wrt = append(wrt[:k:k], append([]sym.Variable{x}, wrt[k:]...)...)
			c.count("variable listed twice")
		}
	} else {
		r, ok := c.must("Variables()", func() any { return v.E().Variables() })
		if !ok {
			return
		}
		wrt = r.([]sym.Variable)
		if len(wrt) == 0 {
			return // linear coefficients of a constant need a list
		}
	}
	args := [][]sym.Variable{}
	if withList {
		args = append(args, wrt)
	}
	ids := []uint64{}
	for _, x := range wrt {
		ids = append(ids, x.ID)
	}
	what = fmt.Sprintf("(%s %s).LinearCoeff(%v given=%v)", v.Kind, rawStr(v.Obj), ids, withList)
	lin := func(p RPoly, id uint64) RPoly {
		t := p.coeff([]Fac{{id, 1}})
		q := RPoly{}
		q.addTerm(nil, t.Val, t.Mag)
		return q
	}
	switch e := v.Obj.(type) {
	case l0:
		res, ok := c.must(what, func() any { return e.LinearCoeff(args...) })
		c.count("coefficients of " + v.Kind)
		if !ok {
			return
		}
		want := newRMat(len(wrt), 1)
		for i, x := range wrt {
			want.set(i, 0, lin(v.Ref.E[0], x.ID))
		}
		c.sample("%s -> %s", what, str(res))
		c.expect(what, res, want, tolOne)
	case lv:
		res, ok := c.must(what, func() any { return e.LinearCoeff(args...) })
		c.count("coefficients of " + v.Kind)
		if !ok {
			return
		}
		want := newRMat(v.R(), len(wrt))
		for i := 0; i < v.R(); i++ {
			for j, x := range wrt {
				want.set(i, j, lin(v.Ref.at(i, 0), x.ID))
			}
		}
		c.sample("%s -> %s", what, str(res))
		c.expect(what, res, want, tolOne)
	}
}

func sub(m RMat, i, j int) RMat { return RMat{1, 1, []RPoly{m.at(i, j)}} }

func (c *Ctx) checkDims(what string, e sym.Expression, m RMat) bool {
	d, ok := c.must(what+".Dims()", func() any { return e.Dims() })
	if !ok {
		return false
	}
	dd := d.([]int)
	if len(dd) != 2 || dd[0] != m.R || dd[1] != m.C {
		c.fail("%s.Dims() = %v for a %dx%d object", what, dd, m.R, m.C)
		return false
	}
	if l, ok := e.(interface{ Len() int }); ok && l.Len() != m.R {
		c.fail("%s.Len() = %d for a %dx%d object", what, l.Len(), m.R, m.C)
		return false
	}
	if l, ok := e.(interface{ Length() int }); ok && l.Length() != m.R {
		c.fail("%s.Length() = %d for a %dx%d object", what, l.Length(), m.R, m.C)
		return false
	}
	return true
}

func runStructure(c *Ctx) {
	switch x := c.f(); {
	case x < 0.3: // transpose, twice
		v := c.anyExpr()
		what := fmt.Sprintf("(%s).Transpose()", str(v.Obj))
		res, ok := c.must(what, func() any { return v.E().Transpose() })
		c.seen(v.R()*v.C() > 1, "T", v.Obj)
		if !ok || !c.expect(what, res, mTranspose(v.Ref), 0) {
			return
		}
		c.count("transpose of " + v.Kind)
		c.sample("%s -> %s", what, str(res))
		te := res.(sym.Expression)
		if !c.checkDims(what, te, mTranspose(v.Ref)) {
			return
		}
		res2, ok := c.must(what+".Transpose()", func() any { return te.Transpose() })
		if ok {
			c.expect(what+".Transpose()", res2, v.Ref, 0)
		}
	case x < 0.55: // indexing, all entries
		v := c.anyExpr()
		if !c.checkDims(str(v.Obj), v.E(), v.Ref) {
			return
		}
		for i := 0; i < v.R(); i++ {
			for j := 0; j < v.C(); j++ {
				what := fmt.Sprintf("(%s).At(%d,%d)", str(v.Obj), i, j)
				res, ok := c.must(what, func() any { return v.E().At(i, j) })
				c.seen(v.R()*v.C() > 1, "At", i, j, v.Obj)
				if !ok || !c.expect(what, res, sub(v.Ref, i, j), 0) {
					return
				}
			}
			if ve, ok := v.Obj.(interface {
				AtVec(int) sym.ScalarExpression
			}); ok {
				what := fmt.Sprintf("(%s).AtVec(%d)", str(v.Obj), i)
				res, ok := c.must(what, func() any { return ve.AtVec(i) })
				if !ok || !c.expect(what, res, sub(v.Ref, i, 0), 0) {
					return
				}
			}
		}
		c.count("all entries of " + v.Kind)
	default:
		k := 1 + c.n(4)
		if c.p(0.15) {
			k = 5 + c.n(9)
			c.count("stacks of five and more")
		}
		horiz := c.p(0.5)
		fixed, part := 1+c.n(3), 3
		if c.p(0.01) && !c.Heavy && !c.Big {
			k = 14 + c.n(60)
			fixed, part = 1+c.n(2), 2
			c.count("stacks of fourteen and more")
		}
		if c.Big || c.p(0.02) {
			c.bigShapes()
			fixed, part = 1+c.n(30), 1+c.n(16)
			c.count("stacks of large blocks")
		}
		var vs []Val
		var es []sym.Expression
		desc := ""
		total := 0
		for i := 0; i < k; i++ {
			r, q := fixed, 1+c.n(part)
			if !horiz {
				r, q = q, fixed
			}
			v := c.of(c.kindFor(r, q, false), r, q)
			if i > 0 && c.p(0.2) {
				v = c.relative(vs[c.n(i)])
				r, q = v.R(), v.C()
			}
			vs = append(vs, v)
			es = append(es, v.E())
			desc += str(v.Obj) + ", "
			if horiz {
				total += q
			} else {
				total += r
			}
		}
		var want RMat
		name := "VStack"
		f := func() any { return sym.VStack(es...) }
		if horiz {
			name = "HStack"
			f = func() any { return sym.HStack(es...) }
			want = newRMat(fixed, total)
			off := 0
			for _, v := range vs {
				for i := 0; i < fixed; i++ {
					for j := 0; j < v.C(); j++ {
						want.set(i, off+j, v.Ref.at(i, j))
					}
				}
				off += v.C()
			}
		} else {
			want = newRMat(total, fixed)
			off := 0
			for _, v := range vs {
				for i := 0; i < v.R(); i++ {
					for j := 0; j < fixed; j++ {
						want.set(off+i, j, v.Ref.at(i, j))
					}
				}
				off += v.R()
			}
		}
		what := fmt.Sprintf("%s(%s)", name, desc)
		res, ok := c.must(what, f)
		objs := []any{name}
		for _, v := range vs {
			objs = append(objs, v.Obj)
		}
		c.seen(k > 1, objs...)
		if !ok {
			return
		}
		c.count(name)
		c.sample("%s -> %s", what, str(res))
		if c.expect(what, res, want, 0) {
			c.checkDims(what, res.(sym.Expression), want)
		}
	}
}

func runCompare(c *Ctx) {
	if c.p(0.2) {
		runCompile(c)
		return
	}
	l, r := c.addPair()
	s := c.sense()
	what := fmt.Sprintf("(%s) %c (%s)", str(l.Obj), s, str(r.Obj))
	res, pan := try(func() any { return c.compare(l.E(), r.Obj, s) })
	if pan != nil {
		c.count("refused")
		c.w.evals++
		return
	}
	c.seen(nontrivial(l.Ref, r.Ref), l.Obj, r.Obj, s)
	lr, rr := spread(l.Ref, r.Ref)
	if !c.expectConstraint(what, res, lr, rr, s, 0) {
		return
	}
	con := res.(sym.Constraint)
	c.count(fmt.Sprintf("%T", con))
	c.sample("%s -> %T", what, con)
	// the accessors agree
	if !c.expect(what+" Left()", con.Left(), lr, 0) || !c.expect(what+" Right()", con.Right(), rr, 0) || con.ConstrSense() != s {
		if con.ConstrSense() != s {
			c.fail("%s: ConstrSense() = %c", what, con.ConstrSense())
		}
		return
	}
	switch k := con.(type) {
	case sym.VectorConstraint:
		if k.Len() != lr.R || k.Dims()[0] != lr.R || k.Dims()[1] != 1 {
			c.fail("%s: Len() = %d, Dims() = %v", what, k.Len(), k.Dims())
		}
		for i := 0; i < lr.R; i++ {
			e, ok := c.must(fmt.Sprintf("(%s).AtVec(%d)", what, i), func() any { return k.AtVec(i) })
			if !ok || !c.expectConstraint(fmt.Sprintf("(%s).AtVec(%d)", what, i), e, sub(lr, i, 0), sub(rr, i, 0), s, 0) {
				return
			}
		}
	case sym.MatrixConstraint:
		if k.Dims()[0] != lr.R || k.Dims()[1] != lr.C {
			c.fail("%s: Dims() = %v", what, k.Dims())
		}
		for i := 0; i < lr.R; i++ {
			for j := 0; j < lr.C; j++ {
				w := fmt.Sprintf("(%s).At(%d,%d)", what, i, j)
				e, ok := c.must(w, func() any { return k.At(i, j) })
				if !ok || !c.expectConstraint(w, e, sub(lr, i, j), sub(rr, i, j), s, 0) {
					return
				}
			}
		}
	}
}

func runCompile(c *Ctx) {
	n := 1 + c.n(4)
	if c.p(0.01) {
		n = 10 + c.n(90)
		c.MaxTerm, c.MaxFac, c.MaxExp, c.Wide, c.Big, c.Huge = 2, min(c.MaxFac, 2), 2, false, false, false
	}
	var cons []sym.Constraint
	type row struct {
		l, r RMat
		s    sym.ConstrSense
	}
	var want []row
	desc := ""
	for i := 0; i < n; i++ {
		con, l, r, ok := c.constraint()
		if !ok {
			continue
		}
		cons = append(cons, con)
		desc += fmt.Sprintf("%s %c %s, ", l, con.ConstrSense(), r)
		for a := 0; a < l.R; a++ {
			for b := 0; b < l.C; b++ {
				want = append(want, row{sub(l, a, b), sub(r, a, b), con.ConstrSense()})
			}
		}
	}
	if len(cons) == 0 {
		return
	}
	what := "CompileConstraintsIntoScalarConstraints(" + desc + ")"
	res, ok := c.must(what, func() any { return sym.CompileConstraintsIntoScalarConstraints(cons) })
	c.seen(len(want) > 1, cons)
	if !ok {
		return
	}
	c.count("flattened lists")
	got := res.([]sym.ScalarConstraint)
	if len(got) != len(want) {
		c.fail("%s returned %d constraints, expected %d", what, len(got), len(want))
		return
	}
	for i, w := range want {
		if !c.expectConstraint(fmt.Sprintf("%s[%d]", what, i), got[i], w.l, w.r, w.s, 0) {
			return
		}
	}
}

func init() {
	register(&Prop{ID: "S03", Quick: 2000000, Thorough: 15000000, Run: runPower,
		Rule: "one base (scalar of any kind, length-one vector, square matrix up to 3x3) raised to an exponent 0..13, plus requests that have to be refused; non-trivial: exponent at least 2 and a variable occurs; distinct: base contents and exponent"})
	register(&Prop{ID: "S04", Quick: 4000000, Thorough: 30000000, Run: runDeriv,
		Rule: "one expression of any of the 12 kinds differentiated one to three times with respect to occurring and absent variables; non-trivial: the variable occurs; distinct: expression contents, variable and position in the chain"})
	register(&Prop{ID: "S05", Quick: 2500000, Thorough: 18750000, Run: runSubst,
		Rule: "one expression of any kind, one variable, one scalar replacement (sometimes containing the variable); non-trivial: the variable occurs; distinct: contents"})
	register(&Prop{ID: "S06", Quick: 2000000, Thorough: 15000000, Run: runSubMap,
		Rule: "one expression or constraint and a map (permutations and cycles of the variables, evaluations, chains, mixed), applied up to three times to observe different map iteration orders; non-trivial: at least two mapped variables and a variable occurs; distinct: contents"})
	register(&Prop{ID: "S07", Quick: 4800000, Thorough: 36000000, Run: runSimplify,
		Rule: "one expression, mostly polynomials with repeated, permuted, cancelling and zero terms, simplified twice; non-trivial: contains a variable; distinct: contents"})
	register(&Prop{ID: "S10", Quick: 5000000, Thorough: 37500000, Run: runCoeffs,
		Rule: "constant part and linear coefficients (with a list of occurring and absent variables in random order, or without) of one expression; non-trivial: contains a variable; distinct: contents"})
	register(&Prop{ID: "S11", Quick: 2400000, Thorough: 18000000, Run: runStructure,
		Rule: "one expression transposed twice, or read at every index, or a list of up to 13 expressions stacked; non-trivial: more than one entry or operand; distinct: contents"})
	register(&Prop{ID: "S13", Quick: 4000000, Thorough: 30000000, Run: runCompare,
		Rule: "one comparison, its sides and every entry read back, or a list of constraints flattened; non-trivial: a variable occurs; distinct: contents and sense"})
}
