package main

// Ill-formed requests (S17).

import (
	"fmt"
	"math"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"

	getKMatrix "github.com/MatProGo-dev/SymbolicMath.go/get/KMatrix"
	getKVector "github.com/MatProGo-dev/SymbolicMath.go/get/KVector"
	"github.com/MatProGo-dev/SymbolicMath.go/smErrors"
	sym "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
)

// badKinds are the malformed operands; badObject makes one.
var badScalars = []string{"bad Variable", "bad Monomial", "empty Polynomial", "Polynomial of bad Monomial"}
var badVectors = []string{"VariableVector of bad Variable", "MonomialVector of bad Monomial", "PolynomialVector of empty Polynomial",
	"PolynomialVector of bad Monomial", "empty MonomialVector", "empty PolynomialVector"}
var badMatrices = []string{"empty VariableMatrix", "empty MonomialMatrix", "empty PolynomialMatrix",
	"ragged VariableMatrix", "ragged MonomialMatrix", "ragged PolynomialMatrix",
	"VariableMatrix of bad Variable", "MonomialMatrix of bad Monomial", "PolynomialMatrix of empty Polynomial", "PolynomialMatrix of bad Monomial"}
var badKinds = append(append(append([]string{}, badScalars...), badVectors...), badMatrices...)

func (c *Ctx) badVariable() sym.Variable {
	v := c.variable()
	switch c.n(4) {
	case 0:
		v.Lower = v.Upper
	case 1:
		v.Lower, v.Upper = 3, 3-math.Abs(c.f()*5)
	case 2:
		v.Lower, v.Upper = 0, 0
	default:
		v.Lower, v.Upper = math.Inf(1), math.Inf(-1)
	}
	return v
}

func (c *Ctx) badMonomial() sym.Monomial {
	m := c.mono()
	switch {
	case len(m.Exponents) > 0 && c.p(0.5):
		m.Exponents = m.Exponents[:len(m.Exponents)-1]
	case c.p(0.5):
		m.VariableFactors = append(append([]sym.Variable{}, m.VariableFactors...), c.variable())
	default:
		m.Exponents = append(append([]int{}, m.Exponents...), 1)
	}
	return m
}

func (c *Ctx) badPolynomial(empty bool) sym.Polynomial {
	if empty {
		if c.p(0.5) {
			return sym.Polynomial{}
		}
		return sym.Polynomial{Monomials: []sym.Monomial{}}
	}
	p := c.poly()
	ms := append([]sym.Monomial{}, p.Monomials...)
	ms[c.n(len(ms))] = c.badMonomial()
	return sym.Polynomial{Monomials: ms}
}

// bad makes a malformed operand, of the given dimensions where it has some.
func (c *Ctx) bad(kind string, r, w int) sym.Expression {
	i, j := c.n(r), c.n(w)
	switch kind {
	case "bad Variable":
		return c.badVariable()
	case "bad Monomial":
		return c.badMonomial()
	case "empty Polynomial":
		return c.badPolynomial(true)
	case "Polynomial of bad Monomial":
		return c.badPolynomial(false)
	case "VariableVector of bad Variable":
		v := c.of("VariableVector", r, 1).Obj.(sym.VariableVector).Copy()
		v[i] = c.badVariable()
		return v
	case "MonomialVector of bad Monomial":
		v := c.of("MonomialVector", r, 1).Obj.(sym.MonomialVector)
		v[i] = c.badMonomial()
		return v
	case "PolynomialVector of empty Polynomial", "PolynomialVector of bad Monomial":
		v := c.of("PolynomialVector", r, 1).Obj.(sym.PolynomialVector)
		v[i] = c.badPolynomial(strings.HasSuffix(kind, "empty Polynomial"))
		return v
	case "empty MonomialVector":
		return sym.MonomialVector{}
	case "empty PolynomialVector":
		return sym.PolynomialVector{}
	case "empty VariableMatrix":
		return sym.VariableMatrix{}
	case "empty MonomialMatrix":
		return sym.MonomialMatrix{}
	case "empty PolynomialMatrix":
		return sym.PolynomialMatrix{}
	case "VariableMatrix of bad Variable":
		v := c.of("VariableMatrix", r, w).Obj.(sym.VariableMatrix)
		v[i][j] = c.badVariable()
		return v
	case "MonomialMatrix of bad Monomial":
		v := c.of("MonomialMatrix", r, w).Obj.(sym.MonomialMatrix)
		v[i][j] = c.badMonomial()
		return v
	case "PolynomialMatrix of empty Polynomial", "PolynomialMatrix of bad Monomial":
		v := c.of("PolynomialMatrix", r, w).Obj.(sym.PolynomialMatrix)
		v[i][j] = c.badPolynomial(strings.HasSuffix(kind, "empty Polynomial"))
		return v
	}
	// ragged: one row other than the first is shorter or longer
	if r < 2 {
		r = 2
	}
	k := 1 + c.n(r-1)
	n := w + 1
	if w > 1 && c.p(0.5) {
		n = w - 1
	}
	switch kind {
	case "ragged VariableMatrix":
		v := c.of("VariableMatrix", r, w).Obj.(sym.VariableMatrix)
		v[k] = c.of("VariableVector", n, 1).Obj.(sym.VariableVector)
		return v
	case "ragged MonomialMatrix":
		v := c.of("MonomialMatrix", r, w).Obj.(sym.MonomialMatrix)
		v[k] = c.of("MonomialVector", n, 1).Obj.(sym.MonomialVector)
		return v
	case "ragged PolynomialMatrix":
		v := c.of("PolynomialMatrix", r, w).Obj.(sym.PolynomialMatrix)
		v[k] = c.of("PolynomialVector", n, 1).Obj.(sym.PolynomialVector)
		return v
	}
	panic("harness: " + kind)
}

var refSurveyMu sync.Mutex
var refSurvey = map[string][2]int{}

// mustRefuse records whether an ill-formed request was refused.
func (c *Ctx) mustRefuse(key, what string, f func() any) (pan any) {
	var res any
	res, pan = try(f)
	if os.Getenv("SURVEY_OUT") != "" {
		refSurveyMu.Lock()
		x := refSurvey[key]
		if pan != nil {
			x[0]++
		} else {
			x[1]++
		}
		refSurvey[key] = x
		refSurveyMu.Unlock()
		return pan
	}
	if exempt(key) {
		return pan
	}
	c.count(strings.SplitN(key, "|", 2)[0])
	if pan == nil {
		c.fail("%s is ill-formed (%s), but was answered: %s", what, key, rawStr(res))
		return pan
	}
	c.readableRefusal(key, what, pan)
	return pan
}

// readableRefusal: the refusal is a statement of what is wrong, not a crash of
// the library on the way. (Entry access of three kinds relies on Go's own
// bounds check; that is a refusal.)
func (c *Ctx) readableRefusal(key, what string, pan any) {
	if re, ok := pan.(runtime.Error); ok {
		if !strings.HasPrefix(key, "index") {
			c.fail("%s is ill-formed (%s); instead of refusing it the library crashed: %v", what, key, re)
		}
		return
	}
	txt, p := try(func() any {
		if e, ok := pan.(error); ok {
			return e.Error()
		}
		return fmt.Sprint(pan)
	})
	if s, _ := txt.(string); p != nil || s == "" {
		c.fail("%s was refused (%s), but the text of the refusal is %q (%v)", what, key, txt, p)
	}
}

// namesDims: a refusal because of dimensions names those of the operands.
func (c *Ctx) namesDims(what string, pan any, l, r RMat) {
	switch e := pan.(type) {
	case smErrors.MatrixDimensionError:
		c.count("dimension errors naming both operands")
		txt := e.Error()
		a, b := fmt.Sprintf("(%d,%d)", l.R, l.C), fmt.Sprintf("(%d,%d)", r.R, r.C)
		i := strings.Index(txt, a)
		if i < 0 || strings.Index(txt[i+len(a):], b) < 0 {
			c.fail("%s was refused with %q, which does not name the dimensions %s and %s", what, txt, a, b)
		}
	case smErrors.VectorDimensionError:
		c.count("dimension errors naming both lengths")
		txt := e.Error()
		a, b := fmt.Sprintf("dimension %d ", l.R), fmt.Sprintf("dimension %d", r.R)
		i := strings.Index(txt, a)
		if i < 0 || strings.Index(txt[i+len(a):], b) < 0 {
			c.fail("%s was refused with %q, which does not name the lengths %d and %d", what, txt, l.R, r.R)
		}
	default:
		c.count(fmt.Sprintf("dimension refusals of type %T", pan))
	}
}

func exempt(key string) bool { return exemptKeys[key] }

var exemptKeys = map[string]bool{}

// exempt: questions that change nothing are answered for some malformed
// objects, and constants do not look at what is substituted into them or
// differentiated by. (The list is what the library does; nothing is claimed
// for these.)
func init() {
	for _, l := range strings.Split(`argument DerivativeWrt|K
argument DerivativeWrt|KMatrix
argument DerivativeWrt|KVector
receiver AsSimplifiedExpression|VariableMatrix of bad Variable
receiver AsSimplifiedExpression|VariableVector of bad Variable
receiver AsSimplifiedExpression|bad Variable
receiver AsSimplifiedExpression|empty VariableMatrix
receiver AsSimplifiedExpression|ragged VariableMatrix
receiver String|bad Variable
receiver Transpose|bad Variable`, "\n") {
		exemptKeys[l] = true
	}
	for _, k := range badKinds {
		for _, q := range []string{"Variables", "Dims", "Degree", "Constant"} {
			exemptKeys["receiver "+q+"|"+k] = true
		}
		for _, q := range []string{"K", "KVector", "KMatrix"} {
			exemptKeys["argument Substitute expression|"+q+"|"+k] = true
			exemptKeys["argument map value|"+q+"|"+k] = true
			exemptKeys["argument Substitute variable|"+q] = true
			exemptKeys["argument map value not scalar|"+q] = true
			exemptKeys["argument map key|"+q] = true
		}
	}
}

func (c *Ctx) badRequest() {
	refusedErr := func(x any, err error) any {
		if err != nil {
			panic(err)
		}
		return x
	}
	x, name := c.strange()
	n := 2 + c.n(2)
	var row []sym.ScalarExpression
	for i := 0; i < n; i++ {
		row = append(row, c.scalar().Obj.(sym.ScalarExpression))
	}
	v := c.of(vectorKinds[c.n(4)], n, 1)
	m := c.of(matrixKinds[c.n(4)], n, n)
	vm := v
	if c.p(0.5) {
		vm = m
	}
	key, f := "", func() any { return nil }
	switch c.n(16) {
	case 0:
		key, f = "ConcretizeVectorExpression of nothing", func() any { return sym.ConcretizeVectorExpression(nil) }
	case 1:
		key, f = "ConcretizeMatrixExpression of nothing", func() any { return sym.ConcretizeMatrixExpression(nil) }
	case 2:
		r2 := row[:n-1]
		rows := [][]sym.ScalarExpression{row, row, row}
		rows[1+c.n(2)] = r2
		if c.p(0.5) {
			rows[0] = r2
			rows[1] = row
		}
		key, f = "ConcretizeMatrixExpression of ragged rows", func() any { return sym.ConcretizeMatrixExpression(rows) }
	case 3:
		key, f = "ConcretizeExpression of "+name, func() any { return sym.ConcretizeExpression(x) }
	case 4:
		key, f = "ToExpression of "+name, func() any { return refusedErr(sym.ToExpression(x)) }
	case 5:
		key, f = "ToScalarExpression of "+vm.Kind, func() any { return refusedErr(sym.ToScalarExpression(vm.Obj)) }
	case 6:
		key, f = "ToVectorExpression of "+m.Kind, func() any { return refusedErr(sym.ToVectorExpression(m.Obj)) }
	case 7:
		s := c.scalar()
		key, f = "ToMatrixExpression of "+s.Kind, func() any { return refusedErr(sym.ToMatrixExpression(s.Obj)) }
	case 8:
		key, f = "ToPolynomialLikeScalar of "+vm.Kind, func() any { return refusedErr(sym.ToPolynomialLikeScalar(vm.Obj)) }
	case 9:
		key, f = "ToPolynomialLikeVector of "+m.Kind, func() any { return refusedErr(sym.ToPolynomialLikeVector(m.Obj)) }
	case 10:
		key, f = "getKVector.From of "+name, func() any {
			if name == "[]int" {
				panic("is supported")
			}
			return getKVector.From(x)
		}
	case 11:
		key, f = "getKMatrix.From of "+name, func() any { return getKMatrix.From(x) }
	case 12:
		rows := [][]float64{make([]float64, n), make([]float64, n), make([]float64, n)}
		k := 1 + c.n(2)
		rows[k] = make([]float64, n+1-2*c.n(2))
		key, f = "getKMatrix.From of ragged rows", func() any { return getKMatrix.From(rows) }
	case 13:
		key, f = "HStack of nothing", func() any { return sym.HStack() }
		if c.p(0.5) {
			key, f = "VStack of nothing", func() any { return sym.VStack() }
		}
	case 14:
		l := c.listFor()
		lv := c.linearVector(n)
		ls := c.linearScalar()
		if ls.Kind == "K" || c.p(0.5) {
			key, f = "LinearCoeff for two lists "+lv.Kind, func() any { return lv.Obj.(sym.VectorExpression).LinearCoeff(l, l) }
		} else {
			key, f = "LinearCoeff for two lists "+ls.Kind, func() any { return ls.Obj.(sym.ScalarExpression).LinearCoeff(l, l) }
		}
	default:
		mo := c.mono()
		r, _ := refMono(mo)
		if r.degree() == 1 && mo.Coefficient == 1 { // perhaps a variable
			mo.Coefficient = 3
		}
		key, f = "ToVariable of a monomial that is none", func() any { return mo.ToVariable() }
		_ = r
	}
	c.seen(true, key, row, vm.Obj)
	c.mustRefuse("request "+key+"|", key, f)
}

// rawDesc describes a malformed object.
func rawDesc(x any) string {
	return clip(fmt.Sprintf("%s", rawStr(x)), 500)
}

func runIllFormed(c *Ctx) {
	c.small(4, 3, 3)
	c.long()
	c.Spare = false
	switch x := c.f(); {
	case x < 0.25:
		c.badDimensions()
	case x < 0.5:
		c.badReceiver()
	case x < 0.72:
		c.badArgument()
	case x < 0.77:
		c.badType()
	case x < 0.8:
		c.badRequest()
	case x < 0.9:
		c.badIndex()
	default:
		c.badConstraint()
	}
}

// differentShapes gives two shapes that are neither equal nor 1x1.
func (c *Ctx) differentShapes() (r1, c1, r2, c2 int) {
	for {
		r1, c1 = c.shape()
		r2, c2 = c.shape()
		if c.p(0.3) {
			r2, c2 = c1, r1
		}
		if c.p(0.3) { // off by one
			r2, c2 = r1, c1
			if c.p(0.5) {
				r2++
			} else {
				c2++
			}
		}
		if c.p(0.5) {
			r1, c1, r2, c2 = r2, c2, r1, c1
		}
		if (r1 != r2 || c1 != c2) && r1*c1 > 1 && r2*c2 > 1 {
			return
		}
	}
}

func (c *Ctx) badDimensions() {
	switch c.n(6) {
	case 0, 1, 2:
		r1, c1, r2, c2 := c.differentShapes()
		l, r := c.of(c.kindFor(r1, c1, false), r1, c1), c.of(c.kindFor(r2, c2, true), r2, c2)
		op := binOps[c.n(len(binOps))]
		if op == "Multiply" {
			op = "Minus"
		}
		c.seen(true, op, l.Obj, r.Obj)
		what := fmt.Sprintf("(%s).%s(%s)", str(l.Obj), op, str(r.Obj))
		pan := c.mustRefuse("dimensions "+op+"|"+l.Kind+" "+r.Kind, what, binCall(op, l.E(), r.Obj))
		c.namesDims(what, pan, l.Ref, r.Ref)
	case 3:
		var l, r Val
		for {
			r1, c1 := c.shape()
			r2, c2 := c.shape()
			if c.p(0.4) {
				r2 = c1 + 1
			}
			if c1 != r2 && r1*c1 > 1 && r2*c2 > 1 {
				l, r = c.of(c.kindFor(r1, c1, false), r1, c1), c.of(c.kindFor(r2, c2, true), r2, c2)
				break
			}
		}
		c.seen(true, "Multiply", l.Obj, r.Obj)
		what := fmt.Sprintf("(%s).Multiply(%s)", str(l.Obj), str(r.Obj))
		pan := c.mustRefuse("dimensions Multiply|"+l.Kind+" "+r.Kind, what, binCall("Multiply", l.E(), r.Obj))
		c.namesDims(what, pan, l.Ref, r.Ref)
	default:
		n := 2 + c.n(3)
		if c.p(0.1) {
			n = 5 + c.n(16)
		}
		h := c.p(0.5)
		r0, w0 := 1+c.n(3), 1+c.n(3)
		bad := 1 + c.n(n-1)
		var es []sym.Expression
		s := ""
		for i := 0; i < n; i++ {
			r, w := r0, w0
			if h {
				w = 1 + c.n(3)
				if i == bad {
					r = r0 + 1 + c.n(2)
				}
			} else {
				r = 1 + c.n(3)
				if i == bad {
					w = w0 + 1 + c.n(2)
				}
			}
			v := c.of(c.kindFor(r, w, false), r, w)
			es = append(es, v.E())
			s += str(v.Obj) + "; "
		}
		if c.p(0.5) {
			es[0], es[bad] = es[bad], es[0]
		}
		c.seen(true, "stack", h, es)
		if h {
			c.mustRefuse("dimensions HStack|", "HStack of "+s, func() any { return sym.HStack(es...) })
		} else {
			c.mustRefuse("dimensions VStack|", "VStack of "+s, func() any { return sym.VStack(es...) })
		}
	}
}

func binCall(op string, l sym.Expression, r any) func() any {
	return func() any {
		switch op {
		case "minusFn":
			re, ok := r.(sym.Expression)
			if !ok {
				return l.Minus(r)
			}
			return sym.Minus(l, re)
		case "LessEq":
			return l.LessEq(r)
		case "GreaterEq":
			return l.GreaterEq(r)
		case "Eq":
			return l.Eq(r)
		case "Comparison":
			return l.Comparison(r, sym.SenseEqual)
		}
		return doBin(op, l, r)
	}
}

var unaryOps = []string{"Variables", "Constant", "LinearCoeff", "DerivativeWrt", "Substitute", "SubstituteAccordingTo", "Power",
	"At", "Transpose", "AsSimplifiedExpression", "Degree", "String", "Dims"}

func (c *Ctx) unary(op string, e sym.Expression) (f func() any, ok bool) {
	v := c.variable()
	switch op {
	case "Variables":
		return func() any { return e.Variables() }, true
	case "Constant":
		switch w := e.(type) {
		case interface{ Constant() float64 }:
			return func() any { return w.Constant() }, true
		}
		return nil, false
	case "LinearCoeff":
		switch w := e.(type) {
		case sym.ScalarExpression:
			return func() any { return w.LinearCoeff([]sym.Variable{v}) }, true
		case sym.VectorExpression:
			return func() any { return w.LinearCoeff([]sym.Variable{v}) }, true
		}
		return nil, false
	case "DerivativeWrt":
		return func() any { return e.DerivativeWrt(v) }, true
	case "Substitute":
		return func() any { return e.Substitute(v, sym.K(2)) }, true
	case "SubstituteAccordingTo":
		return func() any { return e.SubstituteAccordingTo(map[sym.Variable]sym.Expression{v: sym.K(2)}) }, true
	case "Power":
		n := c.n(4)
		return func() any { return e.Power(n) }, true
	case "At":
		return func() any { return e.At(0, 0) }, true
	case "Transpose":
		return func() any { return e.Transpose() }, true
	case "AsSimplifiedExpression":
		return func() any { return e.AsSimplifiedExpression() }, true
	case "Degree":
		if w, ok := e.(sym.PolynomialLike); ok {
			return func() any { return w.Degree() }, true
		}
		return nil, false
	case "String":
		return func() any { return e.String() }, true
	case "Dims":
		return func() any { return e.Dims() }, true
	}
	panic("harness: " + op)
}

func (c *Ctx) badReceiver() {
	if c.p(0.1) {
		v := c.anyExpr()
		var err error
		_, pan := try(func() any { err = v.E().Check(); return nil })
		c.seen(true, "good Check", v.Obj)
		c.count("Check of well-formed")
		if pan != nil || err != nil {
			c.fail("the validity check of a well-formed expression fails: %s: %v %v", str(v.Obj), err, pan)
		}
	}
	k := badKinds[c.n(len(badKinds))]
	r, w := 1+c.n(3), 1+c.n(3)
	e := c.bad(k, r, w)
	if c.p(0.1) {
		c.seen(true, "Check", e)
		var err error
		_, pan := try(func() any { err = e.Check(); return nil })
		c.count("Check")
		if pan == nil && err == nil {
			c.fail("the validity check of a malformed object (%s) passes: %s", k, rawDesc(e))
		}
		return
	}
	if c.p(0.5) {
		op := binOps[c.n(len(binOps))]
		var o Val
		switch {
		case op == "Multiply" && c.p(0.5):
			n := 1 + c.n(2)
			o = c.of(c.kindFor(w, n, true), w, n)
		case c.p(0.5):
			o = c.of(c.kindFor(1, 1, true), 1, 1)
		default:
			if strings.Contains(k, "Vector") {
				w = 1
			}
			o = c.of(c.kindFor(r, w, true), r, w)
		}
		c.seen(true, op, e, o.Obj)
		c.mustRefuse("receiver "+op+"|"+k+"|"+o.Kind, fmt.Sprintf("(%s).%s(%s)", rawDesc(e), op, str(o.Obj)), binCall(op, e, o.Obj))
		return
	}
	op := unaryOps[c.n(len(unaryOps))]
	f, ok := c.unary(op, e)
	if !ok {
		return
	}
	c.seen(true, op, e)
	c.mustRefuse("receiver "+op+"|"+k, fmt.Sprintf("(%s).%s", rawDesc(e), op), f)
}

func (c *Ctx) badArgument() {
	switch c.n(5) {
	case 0, 1, 2: // binary
		k := badKinds[c.n(len(badKinds))]
		r, w := 1+c.n(3), 1+c.n(3)
		if strings.Contains(k, "Vector") {
			w = 1
		}
		e := c.bad(k, r, w)
		op := binOps[c.n(len(binOps))]
		var o Val
		switch {
		case op == "Multiply" && c.p(0.5):
			n := 1 + c.n(2)
			o = c.of(c.kindFor(n, r, false), n, r)
		case c.p(0.5):
			o = c.of(c.kindFor(1, 1, false), 1, 1)
		default:
			o = c.of(c.kindFor(r, w, false), r, w)
		}
		c.seen(true, op, o.Obj, e)
		c.mustRefuse("argument "+op+"|"+o.Kind+"|"+k, fmt.Sprintf("(%s).%s(%s)", str(o.Obj), op, rawDesc(e)), binCall(op, o.E(), e))
	case 3: // derivative and substitution
		v := c.anyExpr()
		bv := c.badVariable()
		k := badScalars[c.n(len(badScalars))]
		be := c.bad(k, 1, 1).(sym.ScalarExpression)
		gv := c.variable()
		switch c.n(6) {
		case 0:
			c.seen(true, "d", v.Obj, bv)
			c.mustRefuse("argument DerivativeWrt|"+v.Kind, fmt.Sprintf("(%s).DerivativeWrt(variable with bounds %v, %v)", str(v.Obj), bv.Lower, bv.Upper), func() any { return v.E().DerivativeWrt(bv) })
		case 1:
			c.seen(true, "s", v.Obj, bv)
			c.mustRefuse("argument Substitute variable|"+v.Kind, fmt.Sprintf("(%s).Substitute(variable with bounds %v, %v)", str(v.Obj), bv.Lower, bv.Upper), func() any { return v.E().Substitute(bv, sym.K(1)) })
		case 2:
			c.seen(true, "e", v.Obj, be)
			c.mustRefuse("argument Substitute expression|"+v.Kind+"|"+k, fmt.Sprintf("(%s).Substitute(v%d, %s)", str(v.Obj), gv.ID, rawDesc(be)), func() any { return v.E().Substitute(gv, be) })
		case 3:
			c.seen(true, "mk", v.Obj, bv)
			c.mustRefuse("argument map key|"+v.Kind, fmt.Sprintf("(%s).SubstituteAccordingTo with a key with bounds %v, %v", str(v.Obj), bv.Lower, bv.Upper), func() any {
				return v.E().SubstituteAccordingTo(map[sym.Variable]sym.Expression{gv: sym.K(1), bv: sym.K(1)})
			})
		case 4:
			c.seen(true, "mv", v.Obj, be)
			c.mustRefuse("argument map value|"+v.Kind+"|"+k, fmt.Sprintf("(%s).SubstituteAccordingTo({v%d: %s})", str(v.Obj), gv.ID, rawDesc(be)), func() any {
				return v.E().SubstituteAccordingTo(map[sym.Variable]sym.Expression{gv: be})
			})
		default:
			n := 1 + c.n(3)
			nv := c.of(vectorKinds[c.n(4)], n, 1)
			if c.p(0.4) {
				nv = c.of(matrixKinds[c.n(4)], n, 2)
			}
			c.seen(true, "mvv", v.Obj, nv.Obj)
			c.mustRefuse("argument map value not scalar|"+v.Kind, fmt.Sprintf("(%s).SubstituteAccordingTo({v%d: %s})", str(v.Obj), gv.ID, str(nv.Obj)), func() any {
				return v.E().SubstituteAccordingTo(map[sym.Variable]sym.Expression{gv: nv.E()})
			})
		}
	default: // powers
		v := c.anyExpr()
		neg := -1 - c.n(3)
		c.seen(true, "power", v.Obj, neg)
		c.mustRefuse("argument negative Power|"+v.Kind, fmt.Sprintf("(%s).Power(%d)", str(v.Obj), neg), func() any { return v.E().Power(neg) })
		r, w := 1+c.n(3), 1+c.n(3)
		if r == w {
			w++
		}
		m := c.of(c.kindFor(r, w, false), r, w)
		e := 2 + c.n(2)
		c.seen(true, "power", m.Obj, e)
		c.mustRefuse("not square Power|"+m.Kind, fmt.Sprintf("(%s).Power(%d)", str(m.Obj), e), func() any { return m.E().Power(e) })
	}
}

type stranger struct{ A int }

func (c *Ctx) strange() (any, string) {
	switch c.n(10) {
	case 0:
		return "1", "string"
	case 1:
		return nil, "nil"
	case 2:
		return true, "bool"
	case 3:
		return []int{1, 2}, "[]int"
	case 4:
		return stranger{1}, "struct"
	case 5:
		return complex(1, 2), "complex"
	case 6:
		return &stranger{1}, "*struct"
	case 7:
		return map[string]int{"a": 1}, "map"
	case 8:
		return func() {}, "func"
	}
	return sym.SenseEqual, "ConstrSense"
}

func (c *Ctx) badType() {
	v := c.anyExpr()
	x, name := c.strange()
	op := append(binOps, "Comparison")[c.n(len(binOps)+1)]
	if op == "minusFn" {
		op = "Minus"
	}
	c.seen(true, op, v.Obj, name)
	c.mustRefuse("type "+op+"|"+v.Kind+"|"+name, fmt.Sprintf("(%s).%s(%s)", str(v.Obj), op, name), binCall(op, v.E(), x))
}

func (c *Ctx) badIndex() {
	v := c.anyExpr()
	bad := func(n int) int {
		switch c.n(3) {
		case 0:
			return n + c.n(3)
		case 1:
			return -1 - c.n(2)
		}
		return n
	}
	i, j := c.n(v.R()), c.n(v.C())
	switch c.n(3) {
	case 0:
		i = bad(v.R())
	case 1:
		j = bad(v.C())
	default:
		i, j = bad(v.R()), bad(v.C())
		if v.R() != v.C() && c.p(0.6) { // the transposed position
			i, j = v.C()-1, v.R()-1
		}
	}
	c.seen(true, "At", v.Obj, i, j)
	c.mustRefuse("index At|"+v.Kind, fmt.Sprintf("(%s).At(%d, %d)", str(v.Obj), i, j), func() any { return v.E().At(i, j) })
	if w, ok := v.Obj.(sym.VectorExpression); ok {
		k := bad(v.R())
		c.mustRefuse("index AtVec|"+v.Kind, fmt.Sprintf("(%s).AtVec(%d)", str(v.Obj), k), func() any { return w.AtVec(k) })
	}
	if con, _, _, ok := c.anyConstraint(1 + c.n(2)); ok {
		switch k := con.(type) {
		case sym.VectorConstraint:
			x := bad(k.Len())
			c.mustRefuse("index VectorConstraint.AtVec|", fmt.Sprintf("(%s).AtVec(%d)", show(con), x), func() any { return k.AtVec(x) })
		case sym.MatrixConstraint:
			d := k.Dims()
			x, y := c.n(d[0]), c.n(d[1])
			if c.p(0.5) {
				x = bad(d[0])
			} else {
				y = bad(d[1])
			}
			c.mustRefuse("index MatrixConstraint.At|", fmt.Sprintf("(%s).At(%d, %d)", show(con), x, y), func() any { return k.At(x, y) })
		}
	}
}

func (c *Ctx) badConstraint() {
	// a literal constraint with a malformed side, an unknown relation, or
	// sides of different dimensions; and its well-formed version
	var con sym.Constraint
	s := c.sense()
	what := []string{"side", "sense", "dimensions", "good"}[c.n(4)]
	if what == "sense" {
		s = sym.ConstrSense([]byte{0, 'x', 7, '!'}[c.n(4)])
	}
	r, w := 1+c.n(3), 1+c.n(3)
	kind := c.n(3)
	pickSide := func(ks []string, r, w int, bads []string) sym.Expression {
		if what == "side" {
			what = "side done"
			return c.bad(bads[c.n(len(bads))], r, w)
		}
		return c.of(ks[c.n(4)], r, w).E()
	}
	switch kind {
	case 0:
		if what == "dimensions" {
			what = "good"
		}
		l, rr := pickSide(scalarKinds, 1, 1, badScalars), pickSide(scalarKinds, 1, 1, badScalars)
		if c.p(0.5) {
			l, rr = rr, l
		}
		con = sym.ScalarConstraint{LeftHandSide: l.(sym.ScalarExpression), RightHandSide: rr.(sym.ScalarExpression), Sense: s}
	case 1:
		r2 := r
		if what == "dimensions" {
			r2 = r + 1 + c.n(2)
			if r == 1 {
				r, r2 = 2, 3
			}
		}
		l, rr := pickSide(vectorKinds, r, 1, badVectors), pickSide(vectorKinds, r2, 1, badVectors)
		if c.p(0.5) {
			l, rr = rr, l
		}
		con = sym.VectorConstraint{LeftHandSide: l.(sym.VectorExpression), RightHandSide: rr.(sym.VectorExpression), Sense: s}
	default:
		r2, w2 := r, w
		if what == "dimensions" {
			if c.p(0.5) {
				r2, r = r+1, r+1
				r++
			} else {
				w2 = w + 1
				if r*w == 1 {
					r, r2 = 2, 2
				}
			}
		}
		l, rr := pickSide(matrixKinds, r, w, badMatrices), pickSide(matrixKinds, r2, w2, badMatrices)
		if c.p(0.5) {
			l, rr = rr, l
		}
		con = sym.MatrixConstraint{LeftHandSide: l.(sym.MatrixExpression), RightHandSide: rr.(sym.MatrixExpression), Sense: s}
	}
	c.seen(true, "constraint", what, con)
	key := fmt.Sprintf("%s %d", what, kind)
	text := func() string {
		l, r, s := sidesOf(con)
		return fmt.Sprintf("%s %q %s", rawDesc(l), byte(s), rawDesc(r))
	}
	var err error
	_, pan := try(func() any { err = con.(interface{ Check() error }).Check(); return nil })
	c.count("constraint Check " + key)
	if what == "good" {
		if pan != nil || err != nil {
			c.fail("the validity check of a well-formed constraint fails: %s: %v %v", text(), err, pan)
		}
		return
	}
	c.mustRefuse("constraint Check|"+key, "Check of "+text(), func() any {
		if pan != nil || err != nil {
			panic("refused")
		}
		return "passes"
	})
	ops := map[string]func() any{
		"AsSimplifiedConstraint": func() any { return con.AsSimplifiedConstraint() },
		"Substitute":             func() any { return con.Substitute(c.variable(), sym.K(1)) },
		"SubstituteAccordingTo": func() any {
			return con.SubstituteAccordingTo(map[sym.Variable]sym.Expression{c.variable(): sym.K(1)})
		},
		"IsLinear":     func() any { return con.IsLinear() },
		"ImpliesOther": func() any { return con.ImpliesThisIsAlsoSatisfied(con) },
	}
	switch k := con.(type) {
	case sym.ScalarConstraint:
		ops["Simplify"] = func() any { return k.Simplify() }
		ops["ScaleBy"] = func() any { return k.ScaleBy(2) }
		ops["String"] = func() any { return k.String() }
		ops["LinearInequalityConstraintRepresentation"] = func() any { a, _ := k.LinearInequalityConstraintRepresentation(); return a }
		ops["LinearEqualityConstraintRepresentation"] = func() any { a, _ := k.LinearEqualityConstraintRepresentation(); return a }
	case sym.VectorConstraint:
		ops["LinearInequalityConstraintRepresentation"] = func() any { a, _ := k.LinearInequalityConstraintRepresentation(); return a }
		ops["LinearEqualityConstraintRepresentation"] = func() any { a, _ := k.LinearEqualityConstraintRepresentation(); return a }
		ops["Len"] = func() any { return k.Len() }
		ops["Dims"] = func() any { return k.Dims() }
	case sym.MatrixConstraint:
		ops["Dims"] = func() any { return k.Dims() }
	}
	var names []string
	for n := range ops {
		names = append(names, n)
	}
	sort.Strings(names)
	n := names[c.n(len(names))]
	if n == "IsLinear" {
		return // a question; nothing is claimed for malformed constraints
	}
	c.mustRefuse("constraint "+n+"|"+key, n+" of "+text(), ops[n])
}

func init() {
	register(&Prop{ID: "S17", Quick: 6000000, Thorough: 45000000, Run: runIllFormed, Finish: func(map[string]any) {
		f := os.Getenv("SURVEY_OUT")
		if f == "" {
			return
		}
		var sb strings.Builder
		for k, x := range refSurvey {
			if x[1] > 0 {
				fmt.Fprintf(&sb, "%s\t%d\t%d\n", k, x[0], x[1])
			}
		}
		os.WriteFile(f, []byte(sb.String()), 0o644)
	},
		Rule: "one ill-formed request: incompatible dimensions, a malformed receiver or argument, an unsupported type, an index outside, or a literal constraint that is malformed (and well-formed ones, whose check has to pass); distinct: request and contents"})
}
