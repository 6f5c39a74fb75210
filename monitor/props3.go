package main

// Totality: what is supported for some operands of given kinds and shapes
// completes for all of them.

import (
	_ "embed"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"

	sym "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
)

var surveyMu sync.Mutex
var survey = map[string][2]int{}
var surveyEx = map[string]string{}

// shapeClass describes how the two shapes go together.
func shapeClass(op string, l, r Val) string {
	switch {
	case l.Ref.is11() && r.Ref.is11():
		return "1x1,1x1"
	case l.Ref.is11():
		return "1x1,any"
	case r.Ref.is11():
		return "any,1x1"
	case op == "Multiply":
		cls := "product"
		if l.R() == 1 && r.C() == 1 {
			return "row*column"
		}
		if r.C() == 1 {
			return "matrix*column"
		}
		if l.C() == 1 {
			return "column*row"
		}
		return cls
	case l.C() == 1:
		return "equal columns"
	}
	return "equal"
}

var binOps = []string{"Plus", "Minus", "minusFn", "Multiply", "LessEq", "GreaterEq", "Eq"}

func (c *Ctx) anyBin() (op string, l, r Val, f func() any) {
	op = binOps[c.n(len(binOps))]
	if op == "Multiply" {
		l, r = c.mulPair()
	} else {
		l, r = c.addPair()
	}
	if op == "minusFn" && r.E() == nil {
		op = "Minus"
	}
	le := l.E()
	switch op {
	case "minusFn":
		f = func() any { return sym.Minus(le, r.E()) }
	case "LessEq":
		f = func() any { return le.LessEq(r.Obj) }
	case "GreaterEq":
		f = func() any { return le.GreaterEq(r.Obj) }
	case "Eq":
		f = func() any { return le.Eq(r.Obj) }
	default:
		f = func() any { return doBin(op, le, r.Obj) }
	}
	return
}

func supportKey(op string, l, r Val) string {
	return op + " " + l.Kind + " " + r.Kind + " " + shapeClass(op, l, r)
}

func runSurvey(c *Ctx) {
	op, l, r, f := c.anyBin()
	_, pan := try(f)
	c.seen(true, op, l.Obj, r.Obj)
	k := supportKey(op, l, r)
	surveyMu.Lock()
	x := survey[k]
	if pan == nil {
		x[0]++
	} else {
		x[1]++
		if _, ok := surveyEx[k]; !ok {
			surveyEx[k] = fmt.Sprintf("case %d (%s) %s (%s): %v", c.Idx, clip(str(l.Obj), 150), op, clip(str(r.Obj), 150), clip(fmt.Sprint(pan), 200))
		}
	}
	survey[k] = x
	surveyMu.Unlock()
}

func init() {
	register(&Prop{ID: "survey", Quick: 2000000, Thorough: 20000000, Run: runSurvey, Finish: func(map[string]any) {
		var ks []string
		for k := range survey {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var sb strings.Builder
		for _, k := range ks {
			x := survey[k]
			s := "yes"
			if x[0] == 0 {
				s = "no"
			} else if x[1] > 0 {
				s = "MIXED"
			}
			fmt.Fprintf(&sb, "%s\t%s\t%d\t%d\t%s\n", s, k, x[0], x[1], surveyEx[k])
		}
		if f := os.Getenv("SURVEY_OUT"); f != "" {
			os.WriteFile(f, []byte(sb.String()), 0o644)
		}
	}})
	register(&Prop{ID: "S18", Quick: 2000000, Thorough: 15000000, Run: runTotal,
		Rule:   "each case runs a chain of 1 to 4 operations on generated operands, of which the support table (kinds and shape class) says that the library supports them; each has to complete and return a well-formed, usable value; non-trivial: an operand contains a variable; distinct: different operation and operand contents",
		Assume: []string{"support of a binary operation for a pair of kinds and shapes is taken from monitor/support.txt, which records what the library answered on the pinned tree with repairs"},
	})
}

//go:embed support.txt
var supportText string

var supported = func() map[string]bool {
	m := map[string]bool{}
	for _, l := range strings.Split(supportText, "\n") {
		if l != "" {
			m[l] = true
		}
	}
	return m
}()

// usable checks a returned value: well-formed, recognised and self-consistent.
func (c *Ctx) usable(what string, res any) (Val, bool) {
	r, err := toRef(res)
	if c.Odd {
		err = notOdd(err)
	}
	if err != nil {
		c.fail("%s returned a malformed %T: %v", what, res, err)
		return Val{}, false
	}
	e, ok := res.(sym.Expression)
	if !ok {
		c.fail("%s returned %T, which is no expression", what, res)
		return Val{}, false
	}
	v := Val{res, kindOf(res), r}
	bad := ""
	_, pan := try(func() any {
		if err := e.Check(); err != nil {
			bad = "its validity check fails: " + err.Error()
			return nil
		}
		if !sym.IsExpression(res) {
			bad = "IsExpression does not recognise it"
			return nil
		}
		if d := e.Dims(); len(d) != 2 || d[0] != r.R || d[1] != r.C {
			bad = fmt.Sprintf("it reports dimensions %v, but is %dx%d", d, r.R, r.C)
			return nil
		}
		_, s := res.(sym.ScalarExpression)
		_, w := res.(sym.VectorExpression)
		_, m := res.(sym.MatrixExpression)
		if s != sym.IsScalarExpression(res) || w != sym.IsVectorExpression(res) || m != sym.IsMatrixExpression(res) {
			bad = fmt.Sprintf("%T is not recognised as its kind of expression", res)
			return nil
		}
		_ = e.String()
		_ = e.Transpose()
		_ = e.AsSimplifiedExpression()
		_ = e.At(r.R-1, r.C-1)
		_ = e.Variables()
		return nil
	})
	if pan != nil {
		bad = fmt.Sprintf("using it panics: %v", clip(fmt.Sprint(pan), 300))
	}
	if bad != "" {
		c.fail("%s = %s (%T): %s", what, str(res), res, bad)
		return v, false
	}
	return v, true
}

func runTotal(c *Ctx) {
	c.small(5, 4, 3)
	c.long()
	steps := 1
	if c.p(0.5) {
		steps += 1 + c.n(3)
	}
	cur := c.val()
	if c.p(0.15) {
		c.small(3, 2, 2)
		cur = c.of("Polynomial", 1, 1)
	}
	hist := str(cur.Obj)
	for s := 0; s < steps; s++ {
		if cur.Ref.terms() > 200 || termLen(cur.Ref) > 60 {
			c.count("chain cut: large")
			return
		}
		var what string
		var f func() any
		var operands []any
		switch k := c.n(14); k {
		case 0:
			what, f = fmt.Sprintf("(%s).Transpose()", hist), func() any { return cur.E().Transpose() }
		case 1:
			x := c.someVar()
			what, f = fmt.Sprintf("(%s).DerivativeWrt(v%d)", hist, x.ID), func() any { return cur.E().DerivativeWrt(x) }
		case 2:
			if maxDeg(cur.Ref) > 6 {
				return
			}
			x, rep := c.someVar(), c.smallScalar()
			what, f = fmt.Sprintf("(%s).Substitute(v%d, %s)", hist, x.ID, str(rep)), func() any { return cur.E().Substitute(x, rep) }
		case 3:
			if maxDeg(cur.Ref) > 6 {
				return
			}
			c.small(2, 2, 2)
			m, _, _ := c.subMap()
			what, f = fmt.Sprintf("(%s).SubstituteAccordingTo(%s)", hist, mapStr(m)), func() any { return cur.E().SubstituteAccordingTo(m) }
		case 4:
			what, f = fmt.Sprintf("(%s).AsSimplifiedExpression()", hist), func() any { return cur.E().AsSimplifiedExpression() }
		case 5:
			if cur.R() != cur.C() || (cur.R() > 1 && strings.HasSuffix(cur.Kind, "Vector")) || termLen(cur.Ref) > 4 || cur.R() > 3 {
				continue
			}
			n := c.n(4)
			what, f = fmt.Sprintf("(%s).Power(%d)", hist, n), func() any { return cur.E().Power(n) }
		case 6:
			i, j := c.n(cur.R()), c.n(cur.C())
			what, f = fmt.Sprintf("(%s).At(%d,%d)", hist, i, j), func() any { return cur.E().At(i, j) }
		case 7: // stacking
			es := []sym.Expression{cur.E()}
			name := "VStack"
			if c.p(0.5) {
				name = "HStack"
			}
			for q := c.n(3); q > 0; q-- {
				r, w := 1+c.n(3), cur.C()
				if name == "HStack" {
					r, w = cur.R(), 1+c.n(3)
				}
				es = append(es, c.of(c.kindFor(r, w, false), r, w).E())
			}
			f = func() any { return sym.VStack(es...) }
			if name == "HStack" {
				f = func() any { return sym.HStack(es...) }
			}
			what = fmt.Sprintf("%s(%s, %d more)", name, hist, len(es)-1)
			operands = append(operands, es)
		default: // binary, the current value on either side
			op := binOps[c.n(4)]
			var l, r Val
			if c.p(0.65) {
				l, r = cur, c.partner(op, cur, false)
			} else {
				l, r = c.partner(op, cur, true), cur
			}
			if l.E() == nil || (op == "minusFn" && r.E() == nil) {
				continue
			}
			if !supported[supportKey(op, l, r)] {
				c.count("unsupported by the table")
				continue
			}
			if op == "Multiply" && termLen(l.Ref)*termLen(r.Ref) > 150 {
				continue
			}
			operands = append(operands, l.Obj, r.Obj)
			what = fmt.Sprintf("(%s).%s(%s)", str(l.Obj), op, str(r.Obj))
			if op == "minusFn" {
				f = func() any { return sym.Minus(l.E(), r.E()) }
			} else {
				f = func() any { return doBin(op, l.E(), r.Obj) }
			}
			c.count(op + " " + l.Kind + " " + r.Kind)
		}
		// comparisons end a chain
		if c.p(0.12) {
			op := binOps[4+c.n(3)]
			l, r := cur, c.partner("Plus", cur, false)
			if supported[supportKey(op, l, r)] {
				c.comparesWell(op, l, r)
			}
			return
		}
		res, ok := c.must(what, f)
		c.seen(nontrivial(cur.Ref), what, cur.Obj, operands)
		if !ok {
			return
		}
		v, ok := c.usable(what, res)
		if !ok {
			return
		}
		c.count("result " + v.Kind)
		c.sample("%s -> %s", what, str(res))
		cur, hist = v, what
		if len(hist) > 1500 {
			hist = str(cur.Obj)
		}
	}
}

func (c *Ctx) comparesWell(op string, l, r Val) {
	what := fmt.Sprintf("(%s).%s(%s)", str(l.Obj), op, str(r.Obj))
	var con sym.Constraint
	res, ok := c.must(what, func() any {
		switch op {
		case "LessEq":
			return l.E().LessEq(r.Obj)
		case "GreaterEq":
			return l.E().GreaterEq(r.Obj)
		}
		return l.E().Eq(r.Obj)
	})
	c.seen(true, op, l.Obj, r.Obj)
	if !ok {
		return
	}
	c.count("comparison " + op)
	con, _ = res.(sym.Constraint)
	if con == nil {
		c.fail("%s returned %T", what, res)
		return
	}
	bad := ""
	_, pan := try(func() any {
		if err := con.Check(); err != nil {
			bad = "its validity check fails: " + err.Error()
			return nil
		}
		if !sym.IsConstraint(res) {
			bad = "IsConstraint does not recognise it"
			return nil
		}
		for _, side := range []sym.Expression{con.Left(), con.Right()} {
			if _, err := toRef(side); err != nil && (!c.Odd || notOdd(err) != nil) {
				bad = "a side is malformed: " + err.Error()
				return nil
			}
		}
		_ = con.Variables()
		_ = con.IsLinear()
		_ = con.AsSimplifiedConstraint()
		_ = sym.CompileConstraintsIntoScalarConstraints([]sym.Constraint{con})
		_ = con.ImpliesThisIsAlsoSatisfied(con)
		return nil
	})
	if pan != nil {
		bad = fmt.Sprintf("using it panics: %v", clip(fmt.Sprint(pan), 300))
	}
	if bad != "" {
		c.fail("%s = %T: %s", what, res, bad)
	}
}

// termLen is the number of terms of the longest entry, maxDeg the highest degree.
func termLen(m RMat) int {
	n := 1
	for _, p := range m.E {
		n = max(n, len(p))
	}
	return n
}

func maxDeg(m RMat) int {
	n := 0
	for _, p := range m.E {
		n = max(n, p.degree())
	}
	return n
}

// smallScalar is a scalar of few terms and low degree.
func (c *Ctx) smallScalar() sym.ScalarExpression {
	a, b, d := c.MaxTerm, c.MaxExp, c.MaxFac
	c.small(2, 2, 2)
	s := c.replacement()
	c.MaxTerm, c.MaxExp, c.MaxFac = a, b, d
	return s
}

// partner makes an operand that fits v in op (on the left side if left).
func (c *Ctx) partner(op string, v Val, left bool) Val {
	a, b, d := c.MaxTerm, c.MaxExp, c.MaxFac
	c.small(3, 3, 2)
	defer func() { c.MaxTerm, c.MaxExp, c.MaxFac = a, b, d }()
	r, w := v.R(), v.C()
	switch {
	case op != "Multiply":
		if v.Ref.is11() && c.p(0.4) {
			r, w = c.shape()
		} else if c.p(0.2) {
			r, w = 1, 1
		} else if c.p(0.1) {
			// cancel against (a copy of) itself
			return v
		}
	case v.Ref.is11() && c.p(0.5):
		r, w = c.shape()
	case c.p(0.25):
		r, w = 1, 1
	case left:
		r, w = 1+c.n(3), v.R()
	default:
		r, w = v.C(), 1+c.n(3)
		if c.p(0.4) {
			w = 1
		}
	}
	return c.of(c.kindFor(r, w, !left), r, w)
}
