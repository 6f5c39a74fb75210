package main

// Composed calculations: random expression trees over the operations, and
// pairs of trees that an algebraic law makes equal.

import (
	"errors"
	"fmt"
	"strings"

	sym "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
)

// node is a calculation.
type node struct {
	op   string
	args []*node
	leaf Val
	v    sym.Variable
	rep  sym.ScalarExpression
	m    map[sym.Variable]sym.Expression
	rm   map[uint64]RPoly
	n    int
}

func leafOf(v Val) *node { return &node{op: "leaf", leaf: v} }

func (t *node) String() string {
	var as []string
	for _, a := range t.args {
		as = append(as, a.String())
	}
	switch t.op {
	case "leaf":
		return "(" + str(t.leaf.Obj) + ")"
	case "Power":
		return fmt.Sprintf("%s.Power(%d)", as[0], t.n)
	case "DerivativeWrt":
		return fmt.Sprintf("%s.DerivativeWrt(v%d)", as[0], t.v.ID)
	case "Substitute":
		return fmt.Sprintf("%s.Substitute(v%d, %s)", as[0], t.v.ID, str(t.rep))
	case "SubstituteAccordingTo":
		return fmt.Sprintf("%s.SubstituteAccordingTo(%s)", as[0], mapStr(t.m))
	case "HStack", "VStack":
		return t.op + "(" + strings.Join(as, ", ") + ")"
	}
	return as[0] + "." + t.op + "(" + strings.Join(as[1:], ", ") + ")"
}

var errUnsupported = errors.New("unsupported")

// refEval gives the meaning of a calculation.
func (t *node) refEval() RMat {
	if t.op == "leaf" {
		return t.leaf.Ref
	}
	var as []RMat
	for _, a := range t.args {
		as = append(as, a.refEval())
	}
	switch t.op {
	case "Plus", "Minus", "Multiply", "minusFn":
		op := t.op
		if op == "minusFn" {
			op = "Minus"
		}
		out, ok := refBin(op, as[0], as[1])
		if !ok {
			panic("harness: incompatible tree")
		}
		return out
	case "Transpose":
		return mTranspose(as[0])
	case "Power":
		return mPow(as[0], t.n)
	case "DerivativeWrt":
		return as[0].mapE(func(p RPoly) RPoly { return rDeriv(p, t.v.ID) })
	case "Substitute":
		r := mkVal(t.rep).Ref.E[0]
		return as[0].mapE(func(p RPoly) RPoly { return rSubst(p, map[uint64]RPoly{t.v.ID: r}) })
	case "SubstituteAccordingTo":
		return as[0].mapE(func(p RPoly) RPoly { return rSubst(p, t.rm) })
	case "AsSimplifiedExpression":
		return as[0]
	case "HStack", "VStack":
		return stackRef(t.op, as)
	}
	panic("harness: tree op " + t.op)
}

func stackRef(op string, as []RMat) RMat {
	if op == "VStack" {
		out := RMat{0, as[0].C, nil}
		for _, a := range as {
			out.R += a.R
			out.E = append(out.E, a.E...)
		}
		return out
	}
	w := 0
	for _, a := range as {
		w += a.C
	}
	out := newRMat(as[0].R, w)
	for i := 0; i < out.R; i++ {
		j := 0
		for _, a := range as {
			for k := 0; k < a.C; k++ {
				out.set(i, j, a.at(i, k))
				j++
			}
		}
	}
	return out
}

type libPanic struct {
	at  *node
	pan any
}

func (e libPanic) Error() string { return fmt.Sprintf("%v", e.pan) }

// libEval computes it with the library.
func (c *Ctx) libEval(t *node) (any, error) {
	if t.op == "leaf" {
		return t.leaf.Obj, nil
	}
	var as []any
	var vs []Val
	for _, a := range t.args {
		x, err := c.libEval(a)
		if err != nil {
			return nil, err
		}
		r, err := toRef(x)
		if r.E == nil {
			return nil, libPanic{t, fmt.Sprintf("an intermediate result is malformed: %v", err)}
		}
		as = append(as, x)
		vs = append(vs, Val{x, kindOf(x), r})
	}
	e, ok := as[0].(sym.Expression)
	if !ok {
		return nil, errUnsupported
	}
	var f func() any
	must := true
	switch t.op {
	case "Plus", "Minus", "Multiply", "minusFn":
		if !supported[supportKey(t.op, vs[0], vs[1])] {
			must = false
		}
		if t.op == "minusFn" {
			r, ok := as[1].(sym.Expression)
			if !ok {
				return nil, errUnsupported
			}
			f = func() any { return sym.Minus(e, r) }
		} else {
			f = func() any { return doBin(t.op, e, as[1]) }
		}
	case "Transpose":
		f = func() any { return e.Transpose() }
	case "Power":
		f = func() any { return e.Power(t.n) }
	case "DerivativeWrt":
		f = func() any { return e.DerivativeWrt(t.v) }
	case "Substitute":
		f = func() any { return e.Substitute(t.v, t.rep) }
	case "SubstituteAccordingTo":
		f = func() any { return e.SubstituteAccordingTo(t.m) }
	case "AsSimplifiedExpression":
		f = func() any { return e.AsSimplifiedExpression() }
	case "HStack", "VStack":
		var es []sym.Expression
		for _, a := range as {
			x, ok := a.(sym.Expression)
			if !ok {
				return nil, errUnsupported
			}
			es = append(es, x)
		}
		f = func() any { return sym.VStack(es...) }
		if t.op == "HStack" {
			f = func() any { return sym.HStack(es...) }
		}
	}
	res, pan := try(f)
	if pan != nil {
		if !must {
			return nil, errUnsupported
		}
		return nil, libPanic{t, pan}
	}
	c.count("operation " + t.op)
	return res, nil
}

func (t *node) size() int {
	n := 1
	for _, a := range t.args {
		n += a.size()
	}
	return n
}

// tree makes a random calculation of shape r x w.
func (c *Ctx) tree(r, w, depth int) *node {
	if depth == 0 || c.p(0.15) {
		return leafOf(c.of(c.kindFor(r, w, false), r, w))
	}
	un := func(op string, a *node) *node { return &node{op: op, args: []*node{a}} }
	switch c.n(13) {
	case 0, 1, 2: // sum or difference, sometimes with a 1x1 operand
		op := []string{"Plus", "Minus", "Plus", "minusFn"}[c.n(4)]
		lr, lw, rr, rw := r, w, r, w
		if c.p(0.15) {
			lr, lw = 1, 1
		} else if c.p(0.2) {
			rr, rw = 1, 1
		}
		return &node{op: op, args: []*node{c.tree(lr, lw, depth-1), c.tree(rr, rw, depth-1)}}
	case 3, 4, 5, 6: // product
		k := 1 + c.n(3)
		if r*w > 1 && c.p(0.35) {
			if c.p(0.5) {
				return &node{op: "Multiply", args: []*node{c.tree(1, 1, depth-1), c.tree(r, w, depth-1)}}
			}
			return &node{op: "Multiply", args: []*node{c.tree(r, w, depth-1), c.tree(1, 1, depth-1)}}
		}
		return &node{op: "Multiply", args: []*node{c.tree(r, k, depth-1), c.tree(k, w, depth-1)}}
	case 7:
		return un("Transpose", c.tree(w, r, depth-1))
	case 8:
		t := un("DerivativeWrt", c.tree(r, w, depth-1))
		t.v = c.someVar()
		return t
	case 9:
		t := un("Substitute", c.tree(r, w, depth-1))
		t.v, t.rep = c.someVar(), c.smallScalar()
		return t
	case 10:
		t := un("SubstituteAccordingTo", c.tree(r, w, depth-1))
		t.m, t.rm, _ = c.subMap()
		return t
	case 11:
		if r == w {
			t := un("Power", c.tree(r, w, depth-1))
			t.n = c.n(3)
			return t
		}
		return un("AsSimplifiedExpression", c.tree(r, w, depth-1))
	default:
		if r > 1 && c.p(0.5) {
			k := 1 + c.n(r-1)
			return &node{op: "VStack", args: []*node{c.tree(k, w, depth-1), c.tree(r-k, w, depth-1)}}
		}
		if w > 1 {
			k := 1 + c.n(w-1)
			return &node{op: "HStack", args: []*node{c.tree(r, k, depth-1), c.tree(r, w-k, depth-1)}}
		}
		return un("AsSimplifiedExpression", c.tree(r, w, depth-1))
	}
}

// cost bounds the number of terms that a calculation may produce.
func (t *node) cost() (terms, deg float64) {
	if t.op == "leaf" {
		return float64(termLen(t.leaf.Ref)), float64(maxDeg(t.leaf.Ref))
	}
	var ts, ds []float64
	for _, a := range t.args {
		x, d := a.cost()
		ts, ds = append(ts, x), append(ds, d)
	}
	switch t.op {
	case "Plus", "Minus", "minusFn":
		return ts[0] + ts[1], max(ds[0], ds[1])
	case "Multiply":
		return 3 * ts[0] * ts[1], ds[0] + ds[1]
	case "Power":
		x, d := 1.0, 0.0
		for i := 0; i < t.n; i++ {
			x, d = x*3*ts[0], d+ds[0]
		}
		return x, d
	case "Substitute", "SubstituteAccordingTo":
		// a term of degree d becomes at most (terms of the replacement)^d
		k, rd := 2.0, 2.0
		x := ts[0]
		for i := 0.0; i < ds[0]; i++ {
			x *= k
		}
		return x, ds[0] * rd
	}
	x, d := 0.0, 0.0
	for i := range ts {
		x, d = max(x, ts[i]), max(d, ds[i])
	}
	return x, d
}

func (t *node) affordable() bool {
	x, d := t.cost()
	if x > 400 || d > 24 {
		return false
	}
	for _, a := range t.args {
		if !a.affordable() {
			return false
		}
	}
	return true
}

func deriv(t *node, v sym.Variable) *node { return &node{op: "DerivativeWrt", args: []*node{t}, v: v} }
func bin(op string, a, b *node) *node     { return &node{op: op, args: []*node{a, b}} }
func transp(t *node) *node                { return &node{op: "Transpose", args: []*node{t}} }

// law makes two calculations that are equal.
func (c *Ctx) law() (string, *node, *node) {
	r, k, w := 1+c.n(3), 1+c.n(3), 1+c.n(3)
	if c.p(0.4) {
		r, k, w = 1, 1, 1
	} else if c.p(0.04) {
		r, w = 1+c.n(9), 1+c.n(9)
	}
	T := func(r, w int) *node { return c.tree(r, w, c.n(2)) }
	sub := func(t *node, m map[sym.Variable]sym.Expression, rm map[uint64]RPoly) *node {
		return &node{op: "SubstituteAccordingTo", args: []*node{t}, m: m, rm: rm}
	}
	switch c.n(16) {
	case 0:
		a, b := T(r, w), T(r, w)
		return "a+b = b+a", bin("Plus", a, b), bin("Plus", b, a)
	case 1:
		a, b, d := T(r, w), T(r, w), T(r, w)
		return "(a+b)+c = a+(b+c)", bin("Plus", bin("Plus", a, b), d), bin("Plus", a, bin("Plus", b, d))
	case 2:
		a, b, d := T(r, k), T(k, w), T(k, w)
		return "a(b+c) = ab+ac", bin("Multiply", a, bin("Plus", b, d)), bin("Plus", bin("Multiply", a, b), bin("Multiply", a, d))
	case 3:
		a, b, d := T(r, k), T(r, k), T(k, w)
		return "(a-b)c = ac-bc", bin("Multiply", bin("Minus", a, b), d), bin("Minus", bin("Multiply", a, d), bin("Multiply", b, d))
	case 4:
		a, b, d := T(r, k), T(k, w), T(w, 1+c.n(2))
		return "(ab)c = a(bc)", bin("Multiply", bin("Multiply", a, b), d), bin("Multiply", a, bin("Multiply", b, d))
	case 5:
		a, b := T(r, k), T(k, w)
		return "(ab)' = b'a'", transp(bin("Multiply", a, b)), bin("Multiply", transp(b), transp(a))
	case 6:
		a, b, v := T(r, k), T(k, w), c.variable()
		return "product rule", deriv(bin("Multiply", a, b), v), bin("Plus", bin("Multiply", deriv(a, v), b), bin("Multiply", a, deriv(b, v)))
	case 7:
		a, b, v := T(r, w), T(r, w), c.variable()
		return "derivative of a sum", deriv(bin("Plus", a, b), v), bin("Plus", deriv(a, v), deriv(b, v))
	case 8, 9: // evaluation commutes with arithmetic
		m, rm := map[sym.Variable]sym.Expression{}, map[uint64]RPoly{}
		for _, v := range c.Vars {
			x := float64(c.rng(-3, 3))
			m[v], rm[v.ID] = sym.K(x), rConst(x)
		}
		op := []string{"Plus", "Minus", "Multiply"}[c.n(3)]
		a, b := T(r, k), T(r, k)
		if op == "Multiply" {
			b = T(k, w)
		}
		return "evaluation of " + op, sub(bin(op, a, b), m, rm), bin(op, sub(a, m, rm), sub(b, m, rm))
	case 10:
		a, b := T(r, w), T(r, w)
		return "a-b+b = a", bin("Plus", bin("Minus", a, b), b), a
	case 11:
		a := T(r, r)
		i, j := c.n(3), c.n(2)
		p := func(n int) *node { return &node{op: "Power", args: []*node{a}, n: n} }
		return "a^(i+j) = a^i a^j", p(i + j), bin("Multiply", p(i), p(j))
	case 12: // the quadratic form computed both ways
		q := leafOf(c.of(matrixKinds[c.n(4)], k, k))
		x := leafOf(c.of(vectorKinds[c.n(4)], k, 1))
		return "x'(Qx) = (x'Q)x", bin("Multiply", transp(x), bin("Multiply", q, x)), bin("Multiply", bin("Multiply", transp(x), q), x)
	case 13:
		a, b := T(1, 1), T(r, w)
		return "s A = A s", bin("Multiply", a, b), bin("Multiply", b, a)
	case 14:
		a, v, u := T(r, w), c.variable(), c.variable()
		return "mixed derivatives commute", deriv(deriv(a, v), u), deriv(deriv(a, u), v)
	default:
		a, b := T(r, w), T(k, w)
		return "(VStack)' = HStack of transposes", transp(&node{op: "VStack", args: []*node{a, b}}), &node{op: "HStack", args: []*node{transp(a), transp(b)}}
	}
}

const tolDeep = 2e-11

func runProgram(c *Ctx) {
	c.small(3, 2, 2)
	c.long()
	if c.Coef == coefWild {
		c.Coef = coefGeneral
	}
	var name string
	var ts []*node
	if c.p(0.45) {
		n, a, b := c.law()
		name, ts = n, []*node{a, b}
	} else {
		r, w := c.shape()
		if r > 4 && c.p(0.7) {
			r = 4
		}
		name, ts = "calculation", []*node{c.tree(r, w, 2+c.n(3))}
	}
	for _, t := range ts {
		if !t.affordable() {
			c.count("skipped: would be too large")
			return
		}
	}
	var got []RMat
	for _, t := range ts {
		res, err := c.libEval(t)
		if err == errUnsupported {
			c.count("skipped: unsupported combination")
			return
		}
		c.seen(t.size() > 2, t.String())
		if err != nil {
			c.fail("%s: %s\n   at %s: %s", name, clip(t.String(), 2500), err.(libPanic).at.op, clip(err.Error(), 400))
			return
		}
		c.countN("operations in answered calculations", t.size())
		if !c.expect(name+": "+clip(t.String(), 2500), res, t.refEval(), tolDeep) {
			return
		}
		g, _ := toRef(res)
		got = append(got, g)
		c.sample("%s -> %s", t.String(), str(res))
	}
	c.count(name)
	if len(got) == 2 {
		// both sides were compared with the reference; compare them with each other
		want := ts[0].refEval()
		if d := mDiffMag(got[0], got[1], want, tolDeep); d != "" {
			c.fail("%s: the two sides differ: %s\n   %s = %s\n   %s = %s", name, d, ts[0], got[0], ts[1], got[1])
		}
	}
}

// mDiffMag compares two results using the magnitudes of the reference.
func mDiffMag(a, b, mag RMat, tol float64) string {
	if a.R != b.R || a.C != b.C {
		return fmt.Sprintf("shapes %dx%d and %dx%d", a.R, a.C, b.R, b.C)
	}
	for i := range a.E {
		for k, t := range a.E[i] {
			m := mag.E[i][k].Mag
			if !closeVal(b.E[i][k].Val, t.Val, 4*m, tol) {
				return fmt.Sprintf("entry %d, term %s: %v and %v", i, facStr(t.Facs), t.Val, b.E[i][k].Val)
			}
		}
		for k, t := range b.E[i] {
			if _, ok := a.E[i][k]; !ok && !closeVal(t.Val, 0, 4*mag.E[i][k].Mag, tol) {
				return fmt.Sprintf("entry %d, term %s: missing and %v", i, facStr(t.Facs), t.Val)
			}
		}
	}
	return ""
}

func init() {
	register(&Prop{ID: "S21", Quick: 1600000, Thorough: 12000000, Run: runProgram,
		Rule: "each case is one random calculation (a tree of operations over generated operands) or a pair of calculations that an algebraic law makes equal, computed with the library and on reference polynomials; non-trivial: at least two operations; distinct: different calculation text"})
}
