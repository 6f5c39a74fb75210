package main

// A generator of calls: any exported method of any live object, and the
// package functions, with arguments drawn from the same live objects. Used
// for histories (S08) and for concurrent use (S09).

import (
	"fmt"
	"reflect"

	"strings"

	getKMatrix "github.com/MatProGo-dev/SymbolicMath.go/get/KMatrix"
	getKVector "github.com/MatProGo-dev/SymbolicMath.go/get/KVector"
	sym "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
	"gonum.org/v1/gonum/mat"
)

// call is one prepared operation; running it again is the same operation on
// the same objects.
type call struct {
	name string
	desc func() string
	args []any // argument objects that are not in the pool
	run  func() []any
}

func (k *call) exec() (res []any, pan any) {
	defer func() {
		if r := recover(); r != nil {
			pan, res = r, nil
		}
	}()
	return k.run(), nil
}

type pool struct {
	c     *Ctx
	exprs []Val
	cons  []sym.Constraint
	lists [][]sym.Variable
	sexps [][]sym.ScalarExpression
	maps  []map[sym.Variable]sym.Expression
	nums  []any // gonum objects
	big   bool  // one object beyond the usual size
}

// terms is the number of terms stored; it bounds the cost of later operations.
func terms(v Val) int { return sizeOf(v.Obj) }

func (p *pool) addExpr(x any) {
	r, err := toRef(x)
	if notOdd(err) != nil || r.E == nil {
		return
	}
	v := Val{x, kindOf(x), r}
	entries, most := 36, 60
	if p.big {
		entries, most = 80, 130
	}
	if r.R*r.C > entries || terms(v) > most || maxDeg(r) > 12 || synDegree(x) > 14 {
		return
	}
	if len(p.exprs) < 24 {
		p.exprs = append(p.exprs, v)
	} else {
		p.exprs[p.c.n(len(p.exprs))] = v
	}
}

func (p *pool) conSmall(k sym.Constraint) bool {
	l, r, _ := sidesOf(k)
	entries, most := 36, 60
	if p.big {
		entries, most = 80, 130
	}
	for _, s := range []any{l, r} {
		m, err := toRef(s)
		if notOdd(err) != nil || m.R*m.C > entries || sizeOf(s) > most || synDegree(s) > 8 {
			return false
		}
	}
	return true
}

func (p *pool) add(x any) {
	switch v := x.(type) {
	case nil:
	case sym.Expression:
		p.addExpr(v)
	case sym.Constraint:
		if p.conSmall(v) && len(p.cons) < 16 {
			p.cons = append(p.cons, v)
		}
	case []sym.Variable:
		if len(v) > 0 && len(p.lists) < 8 {
			p.lists = append(p.lists, v)
		}
	case []sym.ScalarExpression:
		if len(v) > 0 && len(p.sexps) < 8 {
			p.sexps = append(p.sexps, v)
		}
	case map[sym.Variable]sym.Expression:
		p.maps = append(p.maps, v)
	case []sym.ScalarConstraint:
		for _, k := range v {
			p.add(k)
		}
	case mat.VecDense, *mat.VecDense, mat.Dense, *mat.Dense:
		if len(p.nums) < 8 {
			p.nums = append(p.nums, v)
		}
	}
}

func newPool(c *Ctx) *pool {
	p := &pool{c: c}
	c.small(4, 3, 3)
	c.long()
	if c.p(0.75) {
		c.Spare = true
	}
	n := 3 + c.n(4)
	for i := 0; i < n; i++ {
		v := c.val()
		p.add(v.Obj)
	}
	for i := 0; i < 2; i++ {
		p.add(c.scalar().Obj)
	}
	p.add(c.linearScalar().Obj)
	p.add(c.poly())
	for i := 0; i < 2; i++ {
		p.lists = append(p.lists, spareSlice(c.Gen, len(c.Vars), c.Gen.variable))
	}
	// one list of all the variables
	if !c.Huge && !c.Long && c.p(0.06) {
		p.addBig()
	}
	i := 0
	pm := c.perm(len(c.Vars))
	p.lists = append(p.lists, spareSlice(c.Gen, len(c.Vars), func() sym.Variable { i++; return c.Vars[pm[(i-1)%len(pm)]] }))
	for i := 0; i < 2; i++ {
		m, _, _ := c.subMap()
		p.maps = append(p.maps, m)
	}
	p.sexps = append(p.sexps, spareSlice(c.Gen, 1+c.n(3), func() sym.ScalarExpression { return c.scalar().Obj.(sym.ScalarExpression) }))
	p.nums = append(p.nums, c.vecDense(1+c.n(3)), *c.dense(1+c.n(3), 1+c.n(3)))
	for i := 0; i < 3; i++ {
		if k, _, _, ok := c.anyConstraint(c.n(3)); ok {
			p.add(k)
		}
	}
	p.add(sym.ScalarConstraint{LeftHandSide: c.linearScalar().Obj.(sym.ScalarExpression), RightHandSide: c.linearScalar().Obj.(sym.ScalarExpression), Sense: c.sense()})
	nv := 1 + c.n(3)
	if l, ok := c.linearVector(nv).Obj.(sym.VectorExpression); ok {
		p.add(sym.VectorConstraint{LeftHandSide: l, RightHandSide: c.of("KVector", nv, 1).Obj.(sym.KVector), Sense: c.sense()})
	}
	return p
}

// addBig adds one or two objects beyond the usual size: a long vector, a
// large matrix or a polynomial of many terms, in low degree.
func (p *pool) addBig() {
	c := p.c
	g := *c.Gen
	p.big = true
	c.count("pools with a large object")
	c.Gen.MaxExp, c.Gen.MaxFac, c.Gen.MaxTerm = min(g.MaxExp, 2), min(g.MaxFac, 2), min(g.MaxTerm, 2)
	for i := 1 + c.n(2); i > 0; i-- {
		switch c.n(4) {
		case 0:
			n := 17 + c.n(48)
			p.add(c.of(c.kindFor(n, 1, false), n, 1).Obj)
		case 1:
			n := 2 + c.n(9)
			m := 9 + c.n(72)/n
			p.add(c.of(c.kindFor(n, min(m, 80/n), false), n, min(m, 80/n)).Obj)
		case 2:
			for n := 6 + c.n(8); len(c.Vars) < n; {
				c.addVar(c.n(2))
			}
			c.Gen.MaxTerm, c.Gen.Wide = 20+c.n(90), true
			p.add(c.poly())
			c.Gen.MaxTerm, c.Gen.Wide = min(g.MaxTerm, 2), g.Wide
		default: // as factor and term by term
			n := 17 + c.n(30)
			if l, ok := c.linearVector(n).Obj.(sym.VectorExpression); ok {
				p.add(l)
				p.add(sym.VectorConstraint{LeftHandSide: l, RightHandSide: c.of("KVector", n, 1).Obj.(sym.KVector), Sense: c.sense()})
			}
		}
	}
}

// all objects that exist at the start
func (p *pool) roots() []any {
	var out []any
	for _, e := range p.exprs {
		out = append(out, e.Obj)
	}
	for _, k := range p.cons {
		out = append(out, k)
	}
	for _, l := range p.lists {
		out = append(out, l)
	}
	for _, l := range p.sexps {
		out = append(out, l)
	}
	for _, m := range p.maps {
		out = append(out, m)
	}
	out = append(out, p.nums...)
	out = append(out, p.c.Watch...)
	return out
}

func (p *pool) expr(ok func(Val) bool) (Val, bool) {
	n := len(p.exprs)
	s := p.c.n(n)
	if p.c.p(0.5) { // a kind first
		k := exprKinds[p.c.n(len(exprKinds))]
		for i := 0; i < n; i++ {
			if v := p.exprs[(s+i)%n]; v.Kind == k && (ok == nil || ok(v)) {
				return v, true
			}
		}
	}
	for i := 0; i < n; i++ {
		if v := p.exprs[(s+i)%n]; ok == nil || ok(v) {
			return v, true
		}
	}
	return Val{}, false
}

func (p *pool) scalarArg() sym.ScalarExpression {
	v, ok := p.expr(func(v Val) bool { return isScalarKind(v.Kind) && terms(v) <= 6 && synDegree(v.Obj) <= 4 })
	if !ok || p.c.p(0.1) {
		p.c.small(2, 2, 2)
		return p.c.scalar().Obj.(sym.ScalarExpression)
	}
	return v.Obj.(sym.ScalarExpression)
}

func isScalarKind(k string) bool {
	return k == "K" || k == "Variable" || k == "Monomial" || k == "Polynomial"
}

func (p *pool) variable() sym.Variable {
	if p.c.p(0.1) {
		return p.c.addVarLike()
	}
	return p.c.variable()
}

// addend makes an operand that can be added to or compared with one of the given dimensions.
func (p *pool) addend(r, c int) any {
	g := p.c
	if r*c > 1 && g.p(0.06) || r*c == 1 && g.p(0.15) {
		for _, x := range p.nums {
			if m, e := toRef(x); e == nil && m.R == r && m.C == c {
				return x
			}
		}
		if r*c == 1 {
			return g.coef()
		}
	}
	if v, ok := p.expr(func(v Val) bool { return v.R() == r && v.C() == c || v.Ref.is11() || r*c == 1 }); ok && g.p(0.8) {
		return v.Obj
	}
	return g.of(g.kindFor(r, c, false), r, c).Obj
}

func (p *pool) factor(r, c, size int) (any, bool) {
	g := p.c
	v, ok := p.expr(func(v Val) bool {
		return (v.R() == c || v.Ref.is11() || r*c == 1) && terms(v)*size <= 300
	})
	if ok && g.p(0.8) {
		return v.Obj, true
	}
	if size > 60 {
		return nil, false
	}
	rc := 1
	if g.p(0.4) {
		rc = 1 + g.n(3)
	}
	g.small(2, 2, 2)
	return g.of(g.kindFor(c, rc, false), c, rc).Obj, true
}

var (
	tVar    = reflect.TypeOf(sym.Variable{})
	tVars   = reflect.TypeOf([]sym.Variable{})
	tSExpr  = reflect.TypeOf((*sym.ScalarExpression)(nil)).Elem()
	tExpr   = reflect.TypeOf((*sym.Expression)(nil)).Elem()
	tCon    = reflect.TypeOf((*sym.Constraint)(nil)).Elem()
	tMap    = reflect.TypeOf(map[sym.Variable]sym.Expression{})
	tMono   = reflect.TypeOf(sym.Monomial{})
	tSense  = reflect.TypeOf(sym.SenseEqual)
	tInt    = reflect.TypeOf(0)
	tFloat  = reflect.TypeOf(0.0)
	tAny    = reflect.TypeOf((*any)(nil)).Elem()
	tVarsVa = reflect.TypeOf([][]sym.Variable{})
)

// methods that are asked for more often than the others
var heavyMethods = map[string]bool{
	"Plus": true, "Minus": true, "Multiply": true, "Power": true, "Substitute": true, "SubstituteAccordingTo": true,
	"DerivativeWrt": true, "Transpose": true, "AsSimplifiedExpression": true, "Simplify": true, "Copy": true,
	"LinearCoeff": true, "Constant": true, "Variables": true, "ToPolynomial": true, "ToPolynomialVector": true,
	"ToPolynomialMatrix": true, "ToMonomial": true, "ToMonomialVector": true, "AsSimplifiedConstraint": true,
	"ScaleBy": true, "LinearEqualityConstraintRepresentation": true, "LinearInequalityConstraintRepresentation": true,
	"ImpliesThisIsAlsoSatisfied": true, "MonomialIndex": true, "MatchesFormOf": true, "LessEq": true, "ToMonomialMatrix": true,
	"ToScalarExpressions": true,
}

// methodCall prepares a call of a method of obj.
func (p *pool) methodCall(obj any, v *Val) *call {
	c := p.c
	rv := reflect.ValueOf(obj)
	rt := rv.Type()
	var mi int
	for try := 0; ; try++ {
		mi = c.n(rt.NumMethod())
		if heavyMethods[rt.Method(mi).Name] || try > 3 || c.p(0.25) {
			break
		}
	}
	name := rt.Method(mi).Name
	m := rv.Method(mi)
	mt := m.Type()
	r, w := 1, 1
	size := 1
	deg := 0
	if v != nil {
		r, w = v.R(), v.C()
		size = terms(*v)
		deg = synDegree(obj)
	} else if k, ok := obj.(sym.Constraint); ok {
		l, rr, _ := sidesOf(k)
		a, _ := toRef(l)
		b, _ := toRef(rr)
		r, w = max(a.R, b.R), max(a.C, b.C)
		deg = max(synDegree(l), synDegree(rr))
	}
	var args []reflect.Value
	var keep []any
	put := func(x any) {
		args = append(args, reflect.ValueOf(x))
		keep = append(keep, x)
	}
	nin := mt.NumIn()
	for i := 0; i < nin; i++ {
		t := mt.In(i)
		switch t {
		case tVar:
			put(p.variable())
		case tVarsVa: // wrt ...[]Variable
			if c.p(0.75) {
				put(p.lists[c.n(len(p.lists))])
			}
		case tSExpr:
			s := p.scalarArg()
			if deg > 4 && sizeOf(s) > 2 {
				s = p.variable()
			}
			put(s)
		case tMap:
			mm := p.maps[c.n(len(p.maps))]
			if deg > 5 {
				for _, e := range mm {
					if sizeOf(e) > 2 {
						return nil
					}
				}
			}
			put(mm)
		case tMono:
			if q, ok := obj.(sym.Polynomial); ok && len(q.Monomials) > 0 && c.p(0.7) {
				put(q.Monomials[c.n(len(q.Monomials))])
			} else {
				put(c.mono())
			}
		case tSense:
			put(c.sense())
		case tFloat:
			f := c.coef()
			if f == 0 {
				f = 2
			}
			put(f)
		case tInt:
			switch name {
			case "Power":
				e := c.n(4)
				if size > 12 && e > 2 || size*r > 24 || deg > 6 {
					e = 1
				}
				put(e)
			default:
				lim := r
				if name == "At" && i == 1 {
					lim = w
				}
				if lim < 1 {
					lim = 1
				}
				put(c.n(lim))
			}
		case tCon:
			if len(p.cons) == 0 {
				return nil
			}
			put(p.cons[c.n(len(p.cons))])
		case tAny:
			if name == "Multiply" {
				x, ok := p.factor(r, w, size)
				if !ok {
					return nil
				}
				put(x)
			} else {
				put(p.addend(r, w))
			}
		case tExpr:
			put(p.addend(r, w))
		default:
			return nil
		}
	}
	full := strings.TrimPrefix(rt.String(), "symbolic.") + "." + name
	if v == nil && (name == "Simplify" || name == "AsSimplifiedConstraint") && deg > 8 {
		return nil
	}
	return &call{
		name: full,
		desc: func() string {
			s := fmt.Sprintf("(%s).%s(", show(obj), name)
			for i, a := range keep {
				if i > 0 {
					s += ", "
				}
				s += show(a)
			}
			return s + ")"
		},
		args: keep,
		run: func() []any {
			var out []any
			for _, x := range m.Call(args) {
				out = append(out, x.Interface())
			}
			return out
		},
	}
}

func show(x any) string {
	switch v := x.(type) {
	case sym.Constraint:
		l, r, s := sidesOf(v)
		return clip(fmt.Sprintf("%s %c= %s", str(l), s, str(r)), 600)
	case []sym.Variable:
		return clip(fmt.Sprintf("variables %v", varIDs(v)), 300)
	case map[sym.Variable]sym.Expression:
		return "{" + clip(mapStr(v), 500) + "}"
	case []sym.ScalarExpression:
		s := "["
		for _, e := range v {
			s += str(e) + "; "
		}
		return clip(s, 500) + "]"
	case sym.Expression, mat.VecDense, *mat.VecDense, mat.Dense, *mat.Dense, float64, int:
		return clip(str(x), 600)
	}
	return clip(fmt.Sprintf("%T %v", x, x), 300)
}

func varIDs(l []sym.Variable) []uint64 {
	var out []uint64
	for _, v := range l {
		out = append(out, v.ID)
	}
	return out
}

func must1(x any, err error) any {
	if err != nil {
		return err.Error()
	}
	return x
}

// funcCall prepares a call of a package function.
func (p *pool) funcCall() *call {
	c := p.c
	e, _ := p.expr(nil)
	l1, l2 := p.lists[c.n(len(p.lists))], p.lists[c.n(len(p.lists))]
	mk := func(name string, f func() []any, args ...any) *call {
		return &call{name: name, args: args, run: f, desc: func() string {
			s := name + "("
			for i, a := range args {
				if i > 0 {
					s += ", "
				}
				s += show(a)
			}
			return s + ")"
		}}
	}
	ex := e.E()
	switch c.n(24) {
	case 0, 1:
		var es []sym.Expression
		var as []any
		n := 1 + c.n(3)
		es, as = append(es, ex), append(as, ex)
		for len(es) < n {
			if v, ok := p.expr(func(v Val) bool { return v.R() == e.R() && v.C() == e.C() }); ok {
				es, as = append(es, v.E()), append(as, v.Obj)
			}
		}
		if c.p(0.5) {
			return mk("HStack", func() []any { return []any{sym.HStack(es...)} }, as...)
		}
		return mk("VStack", func() []any { return []any{sym.VStack(es...)} }, as...)
	case 2:
		o := p.addend(e.R(), e.C())
		oe, ok := o.(sym.Expression)
		if !ok {
			return nil
		}
		return mk("Minus", func() []any { return []any{sym.Minus(ex, oe)} }, ex, oe)
	case 3:
		s := p.sexps[c.n(len(p.sexps))]
		return mk("ConcretizeVectorExpression", func() []any { return []any{sym.ConcretizeVectorExpression(s)} }, s)
	case 4:
		s := p.sexps[c.n(len(p.sexps))]
		return mk("ConcretizeExpression", func() []any { return []any{sym.ConcretizeExpression(s)} }, s)
	case 5:
		return mk("ConcretizeExpression", func() []any { return []any{sym.ConcretizeExpression(ex)} }, ex)
	case 6:
		s := p.sexps[c.n(len(p.sexps))]
		rows := [][]sym.ScalarExpression{s, s}
		return mk("ConcretizeMatrixExpression", func() []any { return []any{sym.ConcretizeMatrixExpression(rows)} }, s)
	case 7:
		return mk("UnionOfVariables", func() []any { return []any{sym.UnionOfVariables(l1, l2)} }, l1, l2)
	case 8:
		return mk("UniqueVars", func() []any { return []any{sym.UniqueVars(l1)} }, l1)
	case 9, 10:
		if len(p.cons) == 0 {
			return nil
		}
		k := p.cons[c.n(len(p.cons))]
		return mk("VariablesInThisConstraint", func() []any { return []any{sym.VariablesInThisConstraint(k)} }, k)
	case 11, 12:
		if len(p.cons) == 0 {
			return nil
		}
		ks := append([]sym.Constraint{}, p.cons[:1+c.n(len(p.cons))]...)
		return mk("CompileConstraintsIntoScalarConstraints", func() []any { return []any{sym.CompileConstraintsIntoScalarConstraints(ks)} }, ks)
	case 13:
		return mk("VariableIDs", func() []any {
			return []any{sym.VariableIDs(ex), sym.NumVariables(ex), sym.IsLinear(ex), sym.IsQuadratic(ex)}
		}, ex)
	case 14:
		ids := sym.VariableIDs(ex)
		ids = append(ids, ids...)
		return mk("Unique", func() []any { return []any{sym.Unique(ids)} }, ids)
	case 15:
		x := p.nums[c.n(len(p.nums))]
		return mk("from gonum", func() []any {
			switch v := x.(type) {
			case mat.VecDense:
				return []any{sym.VecDenseToKVector(v), getKVector.From(v)}
			case *mat.VecDense:
				return []any{sym.VecDenseToKVector(*v), getKVector.From(v)}
			case mat.Dense:
				return []any{sym.DenseToKMatrix(v), getKMatrix.From(v)}
			case *mat.Dense:
				return []any{sym.DenseToKMatrix(*v), getKMatrix.From(v)}
			}
			return nil
		}, x)
	case 16:
		m := p.maps[c.n(len(p.maps))]
		return mk("CheckSubstitutionMap", func() []any { return []any{fmt.Sprint(sym.CheckSubstitutionMap(m))} }, m)
	case 17:
		v := p.variable()
		return mk("FindInSlice", func() []any {
			i, err := sym.FindInSlice(v, l1)
			return []any{i, fmt.Sprint(err)}
		}, v, l1)
	case 18:
		return mk("conversions", func() []any {
			out := []any{must1(sym.ToExpression(ex)), must1(sym.ToPolynomialLike(ex))}
			if e.C() == 1 {
				out = append(out, must1(sym.ToVectorExpression(ex)), must1(sym.ToPolynomialLikeVector(ex)))
			}
			out = append(out, must1(sym.ToMatrixExpression(ex)), must1(sym.ToScalarExpression(ex)), must1(sym.ToPolynomialLikeMatrix(ex)), must1(sym.ToPolynomialLikeScalar(ex)))
			return out
		}, ex)
	case 19:
		if w, ok := ex.(sym.MatrixExpression); ok {
			o, ok := p.factor(e.R(), e.C(), terms(e))
			if om, is := o.(sym.MatrixExpression); ok && is {
				return mk("MatrixMultiplyTemplate", func() []any { return []any{sym.MatrixMultiplyTemplate(w, om)} }, w, om)
			}
		}
		if w, ok := ex.(sym.VectorExpression); ok {
			o, ok := p.factor(e.R(), e.C(), terms(e))
			if om, is := o.(sym.Expression); ok && is {
				return mk("VectorMultiplyTemplate", func() []any { return []any{sym.VectorMultiplyTemplate(w, om)} }, w, om)
			}
		}
		return nil
	case 20:
		if w, ok := ex.(sym.MatrixExpression); ok {
			o, ok := p.addend(e.R(), e.C()).(sym.MatrixExpression)
			if ok {
				return mk("MatrixPlusTemplate", func() []any { return []any{sym.MatrixPlusTemplate(w, o)} }, w, o)
			}
		}
		if w, ok := ex.(sym.VectorExpression); ok {
			o, ok := p.addend(e.R(), e.C()).(sym.Expression)
			if ok {
				return mk("VectorPlusTemplate", func() []any { return []any{sym.VectorPlusTemplate(w, o)} }, w, o)
			}
		}
		return nil
	case 21:
		if terms(e) > 16 || synDegree(ex) > 5 {
			return nil
		}
		n := c.n(3)
		switch w := ex.(type) {
		case sym.ScalarExpression:
			return mk("ScalarPowerTemplate", func() []any { return []any{sym.ScalarPowerTemplate(w, n)} }, w, n)
		case sym.VectorExpression:
			return mk("VectorPowerTemplate", func() []any { return []any{sym.VectorPowerTemplate(w, n)} }, w, n)
		case sym.MatrixExpression:
			return mk("MatrixPowerTemplate", func() []any { return []any{sym.MatrixPowerTemplate(w, n)} }, w, n)
		}
		return nil
	case 22:
		v, s := p.variable(), p.scalarArg()
		if synDegree(ex) > 4 {
			return nil
		}
		switch w := ex.(type) {
		case sym.VectorExpression:
			return mk("VectorSubstituteTemplate", func() []any { return []any{sym.VectorSubstituteTemplate(w, v, s)} }, w, v, s)
		case sym.MatrixExpression:
			return mk("MatrixSubstituteTemplate", func() []any { return []any{sym.MatrixSubstituteTemplate(w, v, s)} }, w, v, s)
		}
		return nil
	default:
		if w, ok := ex.(sym.PolynomialLikeVector); ok {
			return mk("PolynomialLikeVector_SharedLinearCoeffCalc", func() []any {
				return []any{sym.PolynomialLikeVector_SharedLinearCoeffCalc(w, l1)}
			}, w, l1)
		}
		return mk("Is...", func() []any {
			return []any{sym.IsExpression(ex), sym.IsPolynomialLike(ex), sym.IsScalarExpression(ex), sym.IsVectorExpression(ex), sym.IsMatrixExpression(ex)}
		}, ex)
	}
}

func (p *pool) next() *call {
	c := p.c
	for i := 0; i < 20; i++ {
		var k *call
		switch x := c.f(); {
		case x < 0.68:
			v, _ := p.expr(nil)
			k = p.methodCall(v.Obj, &v)
		case x < 0.83:
			if len(p.cons) == 0 {
				continue
			}
			k = p.methodCall(p.cons[c.n(len(p.cons))], nil)
		default:
			k = p.funcCall()
		}
		if k != nil {
			return k
		}
	}
	return nil
}

// ---- S08 ----

type snap struct {
	obj  any
	hash uint64
	text string
	from string
}

// overwritten writes to a list that was returned: it belongs to the caller.
func overwritten(x any) bool {
	switch l := x.(type) {
	case []sym.Variable:
		for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
		}
		for i := range l {
			l[i].ID += 1000003
			l[i].Name = "overwritten"
		}
		if l = l[:cap(l)]; len(l) > 0 {
			l[len(l)-1].ID++
		}
	case []uint64:
		for i := range l {
			l[i] += 1000003
		}
	case []int:
		for i := range l {
			l[i] += 1003
		}
	default:
		return false
	}
	return true
}

func runHistory(c *Ctx) {
	p := newPool(c)
	var snaps []snap
	seen := map[string]bool{}
	watch := func(x any, from string) {
		switch x.(type) {
		case nil, bool, int, float64, string, sym.Variable, sym.K, uint64, sym.ConstrSense:
			return
		}
		snaps = append(snaps, snap{x, fullHash(x), show(x), from})
	}
	for _, x := range p.roots() {
		watch(x, "at the start")
	}
	steps := 8 + c.n(20)
	if c.Tier == "thorough" && c.p(0.2) {
		steps += 40
	}
	check := func(done string) bool {
		for _, s := range snaps {
			if fullHash(s.obj) != s.hash {
				c.fail("after %s, an object that existed before (created %s) has changed:\n   was %s\n   is  %s", done, s.from, s.text, show(s.obj))
				return false
			}
		}
		return true
	}
	ops := 0
	var log []string
	wn := len(c.Watch)
	for i := 0; i < steps; i++ {
		k := p.next()
		if k == nil {
			continue
		}
		// objects made as arguments exist before the call
		for ; wn < len(c.Watch); wn++ {
			watch(c.Watch[wn], "as a sibling")
		}
		for _, a := range k.args {
			watch(a, "as an argument")
		}
		res, pan := k.exec()
		ops++
		c.count(k.name)
		if pan != nil {
			c.count("refused")
		}
		if len(log) < 40 {
			log = append(log, k.name)
		}
		if !check(fmt.Sprintf("step %d, %s", i+1, k.desc())) {
			return
		}
		for _, x := range res {
			if x == nil {
				continue
			}
			if c.p(0.3) && overwritten(x) {
				c.count("returned lists overwritten")
				if !check(fmt.Sprintf("step %d, %s, and writing to the list it returned", i+1, k.desc())) {
					return
				}
				continue
			}
			watch(x, fmt.Sprintf("by step %d, %s", i+1, k.name))
			p.add(x)
		}
		seen[k.name] = true
	}
	c.countN("operations", ops)
	c.countN("snapshots compared", len(snaps))
	c.seen(ops > 0, log, len(snaps), c.Idx)
	c.sample("history %v", log)
}

// fullHash covers, for gonum objects, also the storage outside the view.
func fullHash(x any) uint64 {
	switch v := x.(type) {
	case *mat.Dense:
		r := v.RawMatrix()
		return deepHash([]any{r.Rows, r.Cols, r.Stride, r.Data[:cap(r.Data)]})
	case mat.Dense:
		return fullHash(&v)
	case *mat.VecDense:
		r := v.RawVector()
		return deepHash([]any{r.N, r.Inc, r.Data[:cap(r.Data)]})
	case mat.VecDense:
		return fullHash(&v)
	}
	return deepHash(x)
}

func init() {
	register(&Prop{ID: "S08", Quick: 125000, Thorough: 1000000, Run: runHistory,
		Rule: "each case is one history: 8 to 27 (thorough: to 67) operations - any exported method or function - on a growing pool of expressions, constraints, variable lists, maps and gonum objects; after every operation the full content of every object ever seen is compared with its snapshot; distinct: histories"})
}
