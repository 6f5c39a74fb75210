package main

// Public checks, recognisers, list helpers and templates (S23).

import (
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/MatProGo-dev/SymbolicMath.go/smErrors"
	sym "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
	"gonum.org/v1/gonum/mat"
)

// boxOf is an object of which only the dimensions are known.
type boxOf struct{ id, r, c int }

func (b boxOf) Dims() []int { return []int{b.r, b.c} }

// lineOf has a length too.
type lineOf struct{ boxOf }

func (l lineOf) Len() int { return l.r }

func (c *Ctx) dim() int {
	switch x := c.f(); {
	case x < 0.85:
		return 1 + c.n(4)
	case x < 0.95:
		return 1 + c.n(40)
	}
	return 1 + c.n(1<<30)
}

func (c *Ctx) box(r, w int) smErrors.MatrixLike {
	if r <= 4 && w <= 4 && c.p(0.4) {
		return c.of(c.kindFor(r, w, false), r, w).E()
	}
	b := boxOf{c.n(1 << 30), r, w}
	if w == 1 && c.p(0.5) {
		return lineOf{b}
	}
	return b
}

func dimStr(e smErrors.MatrixLike) string { return fmt.Sprintf("(%d,%d)", e.Dims()[0], e.Dims()[1]) }

func sameBox(a, b smErrors.MatrixLike) bool { return deepHash(a) == deepHash(b) }

// mentions: the words occur in the text in this order.
func mentions(txt string, words ...string) bool {
	for _, w := range words {
		i := strings.Index(txt, w)
		if i < 0 {
			return false
		}
		txt = txt[i+len(w):]
	}
	return true
}

// dimError: the error of a failed dimension check names what does not fit.
func (c *Ctx) dimError(what string, err error, a, b smErrors.MatrixLike) {
	switch e := err.(type) {
	case smErrors.MatrixDimensionError:
		if !sameBox(e.Arg1, a) || !sameBox(e.Arg2, b) {
			c.fail("%s: the error is about %v and %v", what, e.Arg1, e.Arg2)
			return
		}
		ds := e.ArgDimsAsStrings()
		if len(ds) != 2 || ds[0] != dimStr(a) || ds[1] != dimStr(b) || !mentions(e.Error(), e.Operation, ds[0], ds[1]) {
			c.fail("%s: the error names the dimensions %v in %q", what, ds, e.Error())
		}
	case smErrors.VectorDimensionError:
		if !sameBox(e.Arg1, a) || !sameBox(e.Arg2, b) || !mentions(e.Error(), e.Operation, fmt.Sprint(a.Dims()[0]), fmt.Sprint(b.Dims()[0])) {
			c.fail("%s: the error is %q", what, e.Error())
		}
	default:
		c.fail("%s: the error is of type %T", what, err)
	}
}

func (c *Ctx) dimensionChecks() {
	r1, c1 := c.dim(), c.dim()
	r2, c2 := r1, c1
	switch x := c.f(); {
	case x < 0.2:
	case x < 0.35:
		r2, c2 = c1, r1
	case x < 0.45:
		r2, c2 = c1, c.dim()
	case x < 0.6:
		r2 = r1 + 1
	case x < 0.7:
		c2 = c1 + 1
	case x < 0.8:
		r2, c2 = 1, 1
	default:
		r2, c2 = c.dim(), c.dim()
	}
	if c.p(0.2) {
		c1, c2 = 1, 1
	}
	if c.p(0.5) {
		r1, c1, r2, c2 = r2, c2, r1, c1
	}
	same := r1 == r2 && c1 == c2
	scalar := r1*c1 == 1 || r2*c2 == 1
	if c.p(0.35) {
		c.stackChecks()
		return
	}
	a, b := c.box(r1, c1), c.box(r2, c2)
	name := ""
	want := same || scalar
	var f func() any
	switch c.n(5) {
	case 0:
		name, f = "CheckDimensionsInAddition", func() any { return smErrors.CheckDimensionsInAddition(a, b) }
	case 1:
		name, f = "CheckDimensionsInSubtraction", func() any { return smErrors.CheckDimensionsInSubtraction(a, b) }
	case 2:
		want = c1 == r2 || scalar
		name, f = "CheckDimensionsInMultiplication", func() any { return smErrors.CheckDimensionsInMultiplication(a, b) }
	case 3:
		s := c.sense()
		name, f = "CheckDimensionsInComparison", func() any { return smErrors.CheckDimensionsInComparison(a, b, s.String()) }
	default:
		ae, ok1 := a.(sym.Expression)
		be, ok2 := b.(sym.Expression)
		if !ok1 || !ok2 {
			ae, be = c.of(c.kindFor(r1%5+1, c1%5+1, false), r1%5+1, c1%5+1).E(), c.of(c.kindFor(r2%5+1, c2%5+1, false), r2%5+1, c2%5+1).E()
			a, b = ae, be
			want = ae.Dims()[0] == be.Dims()[0] && ae.Dims()[1] == be.Dims()[1]
		}
		want = want || sym.IsScalarExpression(ae) || sym.IsScalarExpression(be)
		if !want || !scalar { // 1x1 vectors and matrices: not claimed for this variant
			s := c.sense()
			name, f = "symbolic.CheckDimensionsInComparison", func() any { return sym.CheckDimensionsInComparison(ae, be, s) }
			break
		}
		return
	}
	what := fmt.Sprintf("%s of %T %s and %T %s", name, a, dimStr(a), b, dimStr(b))
	c.seen(true, name, r1, c1, r2, c2, fmt.Sprintf("%T %T", a, b))
	res, ok := c.must(what, f)
	if !ok {
		return
	}
	err, _ := res.(error)
	c.count(fmt.Sprintf("%s: passes %v", name, err == nil))
	c.sample("%s -> %v", what, err)
	if (err == nil) != want {
		c.fail("%s gives %v", what, err)
		return
	}
	if err != nil {
		c.dimError(what, err, a, b)
	}
}

func (c *Ctx) stackChecks() {
	n := c.n(7)
	odd := 0.12
	if c.p(0.08) { // many, nearly all of which agree
		n = 7 + c.n(60)
		odd = 1 / float64(n)
	}
	h := c.p(0.5)
	fixed := c.dim()
	var es []smErrors.MatrixLike
	want := true
	desc := ""
	for i := 0; i < n; i++ {
		f, o := fixed, c.dim()
		if c.p(odd) {
			f = c.dim()
		}
		want = want && f == fixed
		if i == 0 {
			fixed, want = f, true
		}
		if !h {
			f, o = o, f
		}
		b := c.box(f, o)
		es = append(es, b)
		desc += dimStr(b) + " "
	}
	name, f := "CheckDimensionsInVStack", func() any { return smErrors.CheckDimensionsInVStack(es...) }
	at := 1
	if h {
		name, f = "CheckDimensionsInHStack", func() any { return smErrors.CheckDimensionsInHStack(es...) }
		at = 0
	}
	what := name + " of " + desc
	c.seen(n > 1, what)
	res, ok := c.must(what, f)
	if !ok {
		return
	}
	err, _ := res.(error)
	c.count(fmt.Sprintf("%s: passes %v", name, err == nil))
	if (err == nil) != want {
		c.fail("%s gives %v", what, err)
		return
	}
	if err == nil {
		return
	}
	var e smErrors.MatrixDimensionError
	if !errors.As(err, &e) || e.Arg1.Dims()[at] == e.Arg2.Dims()[at] || !mentions(e.Error(), dimStr(e.Arg1), dimStr(e.Arg2)) {
		c.fail("%s: the error is %q", what, err)
	}
}

func (c *Ctx) indexChecks() {
	r, w := c.dim(), c.dim()
	b := c.box(r, w)
	near := func(n int) int {
		switch c.n(5) {
		case 0:
			return c.n(n)
		case 1:
			return n - 1 + c.n(3)
		case 2:
			return -1 - c.n(3)
		case 3:
			return []int{math.MinInt, math.MaxInt, math.MinInt32, math.MaxInt32, -n}[c.n(5)]
		}
		return 0
	}
	i, j := near(r), near(w)
	if c.p(0.5) {
		what := fmt.Sprintf("CheckIndexOnMatrix(%d, %d) of %T %s", i, j, b, dimStr(b))
		c.seen(true, what)
		res, ok := c.must(what, func() any { return smErrors.CheckIndexOnMatrix(i, j, b) })
		if !ok {
			return
		}
		err, _ := res.(error)
		in := i >= 0 && i < r && j >= 0 && j < w
		c.count(fmt.Sprintf("CheckIndexOnMatrix: passes %v", err == nil))
		if (err == nil) != in {
			c.fail("%s gives %v", what, err)
		} else if err != nil {
			e, is := err.(smErrors.InvalidMatrixIndexError)
			if !is || e.RowIndex != i || e.ColIndex != j || !mentions(e.Error(), fmt.Sprint(i), fmt.Sprint(j), fmt.Sprint(r), fmt.Sprint(w)) {
				c.fail("%s: the error is %q", what, err)
			}
		}
		return
	}
	what := fmt.Sprintf("CheckIndexOnVector(%d) of %T %s", i, b, dimStr(b))
	c.seen(true, what)
	res, ok := c.must(what, func() any { return smErrors.CheckIndexOnVector(i, b) })
	if !ok {
		return
	}
	err, _ := res.(error)
	c.count(fmt.Sprintf("CheckIndexOnVector: passes %v", err == nil))
	if (err == nil) != (i >= 0 && i < r) {
		c.fail("%s gives %v", what, err)
	} else if err != nil {
		e, is := err.(smErrors.InvalidVectorIndexError)
		if !is || e.Index != i || !mentions(e.Error(), fmt.Sprint(i), fmt.Sprint(r)) {
			c.fail("%s: the error is %q", what, err)
		}
	}
}

// someValue is a Go value of any type together with what it is to the library.
func (c *Ctx) someValue() (x any, scalar, vector, matrix bool) {
	switch c.n(5) {
	case 0, 1:
		v := c.anyExpr()
		s, ve, m := classOf(v.Kind)
		return v.Obj, s, ve, m
	case 2:
		n, m := 1+c.n(3), 1+c.n(3)
		switch c.n(3) {
		case 0:
			return c.of(foreignV[c.n(2)], n, 1).Obj, false, true, false
		case 1:
			return c.of(foreignM[c.n(2)], n, m).Obj, false, false, true
		}
		return c.coef(), true, false, false
	}
	v := c.anyExpr()
	sc, l, _, ok := c.anyConstraint(-1)
	if !ok {
		sc = sym.ScalarConstraint{LeftHandSide: sym.K(1), RightHandSide: sym.K(2), Sense: '='}
	}
	_ = l
	others := []any{3, int64(3), uint64(3), float32(1.5), "x", true, nil, 'x', complex(1, 2),
		[]float64{1, 2}, []int{1}, [][]float64{{1}}, []sym.ScalarExpression{sym.K(1)}, []sym.Variable{c.variable()},
		[]sym.Expression{v.E()}, &v.Obj, v.Ref, sc, struct{}{}, func() {}, make(chan int), map[sym.Variable]sym.Expression{},
		mat.NewSymDense(1, []float64{1}), mat.NewDiagDense(1, []float64{2}), boxOf{1, 1, 1}, lineOf{boxOf{1, 1, 1}}, errors.New("x"), sym.SenseEqual}
	return others[c.n(len(others))], false, false, false
}

func classOf(kind string) (s, v, m bool) {
	switch {
	case strings.HasSuffix(kind, "Matrix"):
		return false, false, true
	case strings.HasSuffix(kind, "Vector"):
		return false, true, false
	}
	return true, false, false
}

func isPtr(x any) bool {
	switch x.(type) {
	case *mat.VecDense, *mat.Dense:
		return true
	}
	return false
}

func (c *Ctx) recognisers() {
	x, s, v, m := c.someValue()
	what := fmt.Sprintf("%T %s", x, clip(rawStr(x), 200))
	c.seen(true, what)
	type q struct {
		name string
		f    func() bool
		want bool
	}
	qs := []q{
		{"IsScalarExpression", func() bool { return sym.IsScalarExpression(x) }, s},
		{"IsVectorExpression", func() bool { return sym.IsVectorExpression(x) }, v},
		{"IsMatrixExpression", func() bool { return sym.IsMatrixExpression(x) }, m},
		{"IsExpression", func() bool { return sym.IsExpression(x) }, s || v || m},
	}
	if !isPtr(x) {
		qs = append(qs,
			q{"IsPolynomialLikeScalar", func() bool { return sym.IsPolynomialLikeScalar(x) }, s},
			q{"IsPolynomialLikeVector", func() bool { return sym.IsPolynomialLikeVector(x) }, v},
			q{"IsPolynomialLikeMatrix", func() bool { return sym.IsPolynomialLikeMatrix(x) }, m},
			q{"IsPolynomialLike", func() bool { return sym.IsPolynomialLike(x) }, s || v || m})
	}
	switch x.(type) {
	case sym.ScalarConstraint, sym.VectorConstraint, sym.MatrixConstraint:
		qs = append(qs, q{"IsConstraint", func() bool { return sym.IsConstraint(x) }, true})
	default:
		qs = append(qs, q{"IsConstraint", func() bool { return sym.IsConstraint(x) }, false})
	}
	for _, k := range qs {
		res, ok := c.must(k.name+" of "+what, func() any { return k.f() })
		if !ok {
			return
		}
		if res.(bool) != k.want {
			c.fail("%s of %s = %v", k.name, what, res)
			return
		}
	}
	c.count(fmt.Sprintf("recognised %T", x))
	// a conversion succeeds exactly for what is recognised
	type cv struct {
		name string
		f    func() (any, error)
		want bool
	}
	cs := []cv{
		{"ToScalarExpression", func() (any, error) { return sym.ToScalarExpression(x) }, s},
		{"ToVectorExpression", func() (any, error) { return sym.ToVectorExpression(x) }, v},
		{"ToMatrixExpression", func() (any, error) { return sym.ToMatrixExpression(x) }, m},
		{"ToExpression", func() (any, error) { return sym.ToExpression(x) }, s || v || m},
	}
	if !isPtr(x) {
		cs = append(cs,
			cv{"ToPolynomialLikeScalar", func() (any, error) { return sym.ToPolynomialLikeScalar(x) }, s},
			cv{"ToPolynomialLikeVector", func() (any, error) { return sym.ToPolynomialLikeVector(x) }, v},
			cv{"ToPolynomialLikeMatrix", func() (any, error) { return sym.ToPolynomialLikeMatrix(x) }, m},
			cv{"ToPolynomialLike", func() (any, error) { return sym.ToPolynomialLike(x) }, s || v || m})
	}
	for _, k := range cs {
		var res any
		var err error
		_, pan := try(func() any { res, err = k.f(); return nil })
		c.w.evals++
		switch {
		case k.want && (pan != nil || err != nil):
			c.fail("%s of %s: %v %v", k.name, what, pan, err)
			return
		case !k.want && pan == nil && err == nil:
			c.fail("%s of %s gives %s without an error", k.name, what, rawStr(res))
			return
		case k.want:
			want, _ := toRef(x)
			if !c.expect(k.name+" of "+what, res, want, 0) {
				return
			}
		}
	}
	// and a matrix is square when its dimensions agree
	if me, ok := x.(sym.MatrixExpression); ok {
		r, _ := toRef(x)
		if got := sym.IsSquare(me); got != (r.R == r.C) {
			c.fail("IsSquare of the %dx%d matrix %s = %v", r.R, r.C, what, got)
		}
	}
}

func checkFound[T any](c *Ctx, what string, list []T, same func(T) bool, f func() (int, error)) {
	var i int
	var err error
	_, pan := try(func() any { i, err = f(); return nil })
	if pan != nil {
		c.fail("%s panicked: %v", what, pan)
		return
	}
	has := false
	for _, y := range list {
		has = has || same(y)
	}
	c.count(fmt.Sprintf("FindInSlice of %T: found %v", list, has))
	switch {
	case err != nil:
		c.fail("%s: error %v", what, err)
	case has && (i < 0 || i >= len(list) || !same(list[i])):
		c.fail("%s = %d, which is not where it is", what, i)
	case !has && i != -1:
		c.fail("%s = %d, but it is not in there", what, i)
	}
}

// arranged puts a list in an order that short cuts may rely on: sorted, sorted
// and then turned, or the same entries twice over.
func arranged[T any](c *Ctx, l []T, less func(a, b T) bool) []T {
	if len(l) < 2 || !c.p(0.35) {
		return l
	}
	out := append([]T{}, l...)
	sort.SliceStable(out, func(i, j int) bool { return less(out[i], out[j]) })
	if c.p(0.3) {
		for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
			out[i], out[j] = out[j], out[i]
		}
	}
	switch c.n(5) {
	case 0:
		k := c.n(len(out))
		out = append(append([]T{}, out[k:]...), out[:k]...)
	case 1:
		out = append(out, out[:1+c.n(len(out))]...)
	case 2:
		i, j := c.n(len(out)), c.n(len(out))
		out[i], out[j] = out[j], out[i]
	case 3:
		out[len(out)-1] = out[c.n(len(out))]
	}
	return out
}

func (c *Ctx) lists() {
	n := c.n(8)
	if c.p(0.1) {
		n = c.n(60)
	}
	span := 1 + c.n(10)
	if c.p(0.015) {
		n, span = 60+c.n(500), 1+c.n(400)
		for m := c.n(400); len(c.Vars) < m; {
			c.addVar(c.n(2))
		}
	}
	switch c.n(7) {
	case 0, 1: // variables
		var l []sym.Variable
		for i := 0; i < n; i++ {
			l = append(l, c.someVar())
		}
		l = arranged(c, l, func(a, b sym.Variable) bool { return a.ID < b.ID })
		x := c.someVar()
		what := fmt.Sprintf("FindInSlice(v%d, %v)", x.ID, idsOf(l))
		c.seen(n > 0, what)
		checkFound(c, what, l, func(y sym.Variable) bool { return y.ID == x.ID }, func() (int, error) { return sym.FindInSlice(x, l) })
	case 2:
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, strings.Repeat("a", c.n(span))+strings.Repeat("b", c.n(2)))
		}
		x := strings.Repeat("a", c.n(span))
		if c.p(0.4) { // texts that are nearly equal
			words := []string{"x", "X", "x ", " x", "x\x00", "é", "e\u0301", "É", "x_1", "x_10", "x_1 ", "\xff", "\x7f", "", "0", "-0", "00", "1", "1.0", "x²", "x2"}
			word := func() string {
				w := words[c.n(len(words))]
				if c.p(0.3) {
					w += words[c.n(len(words))]
				}
				if b := []byte(w); len(b) > 0 && c.p(0.3) { // one bit apart
					b[c.n(len(b))] ^= 1 << c.n(8)
					w = string(b)
				}
				return w
			}
			for i := range l {
				l[i] = word()
			}
			x = word()
			if b := []byte(x); n > 0 && c.p(0.5) {
				b = []byte(l[c.n(n)])
				if len(b) > 0 && c.p(0.7) {
					b[c.n(len(b))] ^= 1 << c.n(8)
				}
				x = string(b)
			}
		}
		l = arranged(c, l, func(a, b string) bool { return a < b })
		what := fmt.Sprintf("FindInSlice(%q, %q)", x, l)
		c.seen(n > 0, what)
		checkFound(c, what, l, func(y string) bool { return y == x }, func() (int, error) { return sym.FindInSlice(x, l) })
	case 3:
		var l []int
		for i := 0; i < n; i++ {
			l = append(l, c.rng(-span, span))
		}
		x := c.rng(-span, span)
		if c.p(0.3) { // numbers that agree in their lower or upper bits
			for i := range l {
				l[i] ^= c.n(2)<<32 | c.n(2)<<16 | c.n(2)<<8 | c.n(2)<<31 | c.n(2)<<62
			}
			if n > 0 && c.p(0.7) {
				x = l[c.n(n)]
				if c.p(0.5) {
					x ^= 1 << c.n(63)
				}
			}
		}
		l = arranged(c, l, func(a, b int) bool { return a < b })
		what := fmt.Sprintf("FindInSlice(%d, %v)", x, l)
		c.seen(n > 0, what)
		checkFound(c, what, l, func(y int) bool { return y == x }, func() (int, error) { return sym.FindInSlice(x, l) })
	case 4, 5:
		var l []uint64
		base := []uint64{0, 1, 1 << 31, 1 << 32, 1<<63 - 3, math.MaxUint64 - 20}[c.n(6)]
		for i := 0; i < n; i++ {
			l = append(l, base+uint64(c.n(2*span)))
		}
		x := base + uint64(c.n(2*span))
		if c.p(0.3) {
			for i := range l {
				l[i] ^= uint64(c.n(2))<<32 | uint64(c.n(4))<<62 | uint64(c.n(2))<<8 | uint64(c.n(2))<<16
			}
			if n > 0 && c.p(0.7) {
				x = l[c.n(n)]
				if c.p(0.5) {
					x ^= 1 << c.n(64)
				}
			}
		}
		l = arranged(c, l, func(a, b uint64) bool { return a < b })
		what := fmt.Sprintf("FindInSlice(%d, %v)", x, l)
		c.seen(n > 0, what)
		if c.p(0.5) {
			checkFound(c, what, l, func(y uint64) bool { return y == x }, func() (int, error) { return sym.FindInSlice(x, l) })
			return
		}
		what = fmt.Sprintf("Unique(%v)", l)
		res, ok := c.must(what, func() any { return sym.Unique(l) })
		if !ok {
			return
		}
		c.count("Unique")
		want := map[uint64]bool{}
		for _, y := range l {
			want[y] = true
		}
		for _, y := range res.([]uint64) {
			if !want[y] {
				c.fail("%s = %v", what, res)
				return
			}
			delete(want, y)
		}
		if len(want) > 0 {
			c.fail("%s = %v", what, res)
		}
	default: // what cannot be in the list at all
		xs := []any{"x", 3, uint64(3), c.variable(), 1.5, nil, sym.K(3), int64(3)}
		ls := []any{[]string{"x"}, []int{3}, []uint64{3}, []sym.Variable{c.variable()}, []float64{1.5}, nil, 3, []any{3}}
		i, j := c.n(len(xs)), c.n(len(ls))
		if i == j && i < 4 {
			return
		}
		what := fmt.Sprintf("FindInSlice(%T, %T)", xs[i], ls[j])
		c.seen(true, what)
		c.count("FindInSlice of foreign types")
		var k int
		var err error
		_, pan := try(func() any { k, err = sym.FindInSlice(xs[i], ls[j]); return nil })
		if pan != nil {
			c.fail("%s panicked: %v", what, pan)
		} else if k != -1 || err == nil {
			c.fail("%s = %d, %v", what, k, err)
		}
	}
}

func idsOf(l []sym.Variable) (out []uint64) {
	for _, v := range l {
		out = append(out, v.ID)
	}
	return
}

func (c *Ctx) mapsAndSenses() {
	if c.p(0.25) {
		b := sym.ConstrSense(c.n(256))
		want := map[sym.ConstrSense]string{sym.SenseEqual: "=", sym.SenseLessThanEqual: "<=", sym.SenseGreaterThanEqual: ">="}[b]
		what := fmt.Sprintf("the sense %d", b)
		c.seen(true, what)
		c.count("senses")
		err, pan := try(func() any { return b.Check() })
		if pan == nil && (err == nil) != (want != "") {
			c.fail("%s: Check() = %v", what, err)
		} else if pan != nil && want != "" {
			c.fail("%s: Check() panicked: %v", what, pan)
		}
		if want != "" {
			if s, ok := c.must(what+" String()", func() any { return b.String() }); ok && s != want {
				c.fail("%s: String() = %q", what, s)
			}
		}
		return
	}
	m := map[sym.Variable]sym.Expression{}
	bad := ""
	size, odd := c.n(5), 0.25
	if c.p(0.04) {
		for m := 10 + c.n(40); len(c.Vars) < m; {
			c.addVar(c.n(2))
		}
		size, odd = 5+c.n(40), 0.05
	}
	for i := size; i > 0; i-- {
		k := c.someVar()
		var e sym.Expression = c.scalar().E()
		if bad == "" && c.p(odd) {
			switch c.n(3) {
			case 0:
				k = c.badVariable()
				bad = "an invalid key"
			case 1:
				e = c.bad(badKinds[c.n(len(badKinds))], 1+c.n(3), 1+c.n(3))
				bad = fmt.Sprintf("an ill-formed %T as value", e)
			default:
				r, w := 1+c.n(3), 1+c.n(3)
				if c.p(0.5) {
					w = 1
				}
				kk := c.kindFor(r, w, false)
				if s, _, _ := classOf(kk); s {
					kk = "VariableVector"
				}
				e = c.of(kk, r, w).E()
				bad = fmt.Sprintf("a %s as value", kk)
			}
			if _, dup := m[k]; dup {
				return
			}
			m[k] = e
			break
		}
		m[k] = e
	}
	what := fmt.Sprintf("CheckSubstitutionMap of %d replacements with %q", len(m), bad)
	c.seen(len(m) > 0, "map", m, bad)
	res, ok := c.must(what, func() any { return sym.CheckSubstitutionMap(m) })
	if !ok {
		return
	}
	err, _ := res.(error)
	c.count(fmt.Sprintf("CheckSubstitutionMap: passes %v", err == nil))
	if (err == nil) != (bad == "") {
		c.fail("%s gives %v", what, err)
	}
}

// templates: the generic building blocks compute what the operations compute.
func (c *Ctx) templates() {
	c.small(4, 3, 3)
	if c.p(0.15) {
		c.badTemplate()
		return
	}
	c.long()
	switch c.n(8) {
	case 0: // lists of scalars
		r, w := 1+c.n(4), 1+c.n(4)
		kinds := [][]string{{"K"}, {"Variable"}, {"K", "Variable"}, {"Monomial", "Variable"}, {"K", "Variable", "Monomial", "Polynomial"}}[c.n(5)]
		rows := make([][]sym.ScalarExpression, r)
		want := newRMat(r, w)
		for i := range rows {
			for j := 0; j < w; j++ {
				v := c.of(kinds[c.n(len(kinds))], 1, 1)
				rows[i] = append(rows[i], v.Obj.(sym.ScalarExpression))
				want.set(i, j, v.Ref.E[0])
			}
		}
		name, f := "ConcretizeMatrixExpression", func() any { return sym.ConcretizeMatrixExpression(rows) }
		switch {
		case c.p(0.3):
			name, f = "ConcretizeExpression", func() any { return sym.ConcretizeExpression(rows) }
		case w == 1 || c.p(0.4):
			var col []sym.ScalarExpression
			cw := newRMat(r, 1)
			for i := range rows {
				col = append(col, rows[i][0])
				cw.set(i, 0, want.at(i, 0))
			}
			want = cw
			name, f = "ConcretizeVectorExpression", func() any { return sym.ConcretizeVectorExpression(col) }
			if c.p(0.5) {
				name, f = "ConcretizeExpression", func() any { return sym.ConcretizeExpression(col) }
			}
		}
		c.template(name, f, want, 0, rows)
	case 1: // ill-formed lists
		rows := [][]sym.ScalarExpression{{c.scalar().Obj.(sym.ScalarExpression)}, {c.scalar().Obj.(sym.ScalarExpression)}}
		name := ""
		switch c.n(4) {
		case 0:
			rows, name = nil, "no rows"
		case 1:
			rows, name = make([][]sym.ScalarExpression, 1+c.n(3)), "rows without entries"
		case 2:
			k := c.n(2)
			rows[k], name = append(rows[k], sym.K(1)), "ragged rows"
		default:
			rows[c.n(2)][0], name = nil, "a missing entry"
		}
		c.seen(true, name, rows)
		c.count("refusal of " + name)
		res, pan := try(func() any {
			if c.p(0.5) {
				return sym.ConcretizeExpression(rows)
			}
			return sym.ConcretizeMatrixExpression(rows)
		})
		if pan == nil {
			c.fail("a matrix of %s was made: %s", name, rawStr(res))
		}
	case 2:
		r, w := 1+c.n(3), 1+c.n(3)
		a, b := c.of(matrixKinds[c.n(4)], r, w), c.of(matrixKinds[c.n(4)], r, w)
		want, _ := mPlus(a.Ref, b.Ref, rAdd)
		c.template("MatrixPlusTemplate", func() any {
			return sym.MatrixPlusTemplate(a.Obj.(sym.MatrixExpression), b.Obj.(sym.MatrixExpression))
		}, want, tolOne, a.Obj, b.Obj)
	case 3:
		r, k, w := 1+c.n(3), 1+c.n(3), 1+c.n(3)
		a, b := c.of(matrixKinds[c.n(4)], r, k), c.of(matrixKinds[c.n(4)], k, w)
		want := newRMat(r, w)
		for i := 0; i < r; i++ {
			for j := 0; j < w; j++ {
				p := RPoly{}
				for l := 0; l < k; l++ {
					p = rAdd(p, rMul(a.Ref.at(i, l), b.Ref.at(l, j)))
				}
				want.set(i, j, p)
			}
		}
		c.template("MatrixMultiplyTemplate", func() any {
			return sym.MatrixMultiplyTemplate(a.Obj.(sym.MatrixExpression), b.Obj.(sym.MatrixExpression))
		}, want, tolChain, a.Obj, b.Obj)
	case 4:
		n, m := 1+c.n(4), 1
		if c.p(0.5) {
			m = n
		}
		if c.p(0.2) {
			m = 1 + c.n(4)
		}
		a := c.of(vectorKinds[c.n(4)], n, 1)
		b := c.of(vectorKinds[c.n(4)], m, 1)
		if m == 1 && c.p(0.5) {
			b = c.scalar()
		}
		f := func() any { return sym.VectorPlusTemplate(a.Obj.(sym.VectorExpression), b.E()) }
		if n != m && n > 1 && m > 1 {
			c.seen(true, "VectorPlusTemplate", a.Obj, b.Obj)
			c.count("refusal of vectors of different length")
			if res, pan := try(f); pan == nil {
				c.fail("VectorPlusTemplate of lengths %d and %d gives %s", n, m, rawStr(res))
			}
			return
		}
		want, _ := mPlus(a.Ref, b.Ref, rAdd)
		c.template("VectorPlusTemplate", f, want, tolOne, a.Obj, b.Obj)
	case 5:
		a, b := c.of(vectorKinds[c.n(4)], 1+c.n(4), 1), c.scalar()
		c.template("VectorMultiplyTemplate", func() any { return sym.VectorMultiplyTemplate(a.Obj.(sym.VectorExpression), b.E()) },
			a.Ref.mapE(func(p RPoly) RPoly { return rMul(p, b.Ref.E[0]) }), tolChain, a.Obj, b.Obj)
	case 6:
		c.small(3, 2, 2)
		x := c.someVar()
		rep := c.scalar()
		g := func(p RPoly) RPoly { return rSubst(p, map[uint64]RPoly{x.ID: rep.Ref.E[0]}) }
		s := rep.Obj.(sym.ScalarExpression)
		if c.p(0.5) {
			a := c.of(vectorKinds[c.n(4)], 1+c.n(4), 1)
			c.template("VectorSubstituteTemplate", func() any {
				return sym.VectorSubstituteTemplate(a.Obj.(sym.VectorExpression), x, s)
			}, a.Ref.mapE(g), tolChain, a.Obj, x.ID, rep.Obj)
			return
		}
		a := c.of(matrixKinds[c.n(4)], 1+c.n(3), 1+c.n(3))
		c.template("MatrixSubstituteTemplate", func() any {
			return sym.MatrixSubstituteTemplate(a.Obj.(sym.MatrixExpression), x, s)
		}, a.Ref.mapE(g), tolChain, a.Obj, x.ID, rep.Obj)
	default:
		c.small(3, 2, 2)
		n := c.n(4)
		switch c.n(3) {
		case 0:
			a := c.scalar()
			c.template("ScalarPowerTemplate", func() any { return sym.ScalarPowerTemplate(a.Obj.(sym.ScalarExpression), n) }, mPow(a.Ref, n), tolChain, a.Obj, n)
		case 1:
			a := c.of(vectorKinds[c.n(4)], 1, 1)
			c.template("VectorPowerTemplate", func() any { return sym.VectorPowerTemplate(a.Obj.(sym.VectorExpression), n) }, mPow(a.Ref, n), tolChain, a.Obj, n)
		default:
			k := 1 + c.n(3)
			a := c.of(matrixKinds[c.n(4)], k, k)
			c.template("MatrixPowerTemplate", func() any { return sym.MatrixPowerTemplate(a.Obj.(sym.MatrixExpression), n) }, mPow(a.Ref, n), tolChain, a.Obj, n)
		}
	}
}

// badTemplate gives a template operands that do not fit or are malformed.
func (c *Ctx) badTemplate() {
	matrix := func(r, w int) sym.MatrixExpression { return c.of(matrixKinds[c.n(4)], r, w).Obj.(sym.MatrixExpression) }
	vector := func(n int) sym.VectorExpression { return c.of(vectorKinds[c.n(4)], n, 1).Obj.(sym.VectorExpression) }
	var name, why string
	var f func() any
	var args []any
	switch c.n(4) {
	case 0: // dimensions
		r, w, r2, w2 := 1+c.n(4), 1+c.n(4), 1+c.n(4), 1+c.n(4)
		if c.p(0.5) { // just off
			r2, w2 = r, w
			if c.p(0.5) {
				r2++
			} else {
				w2++
			}
			if c.p(0.5) {
				r, w, r2, w2 = r2, w2, r, w
			}
		}
		if r*w == 1 || r2*w2 == 1 {
			return
		}
		a, b := matrix(r, w), matrix(r2, w2)
		args = []any{a, b}
		why = fmt.Sprintf("%dx%d and %dx%d", r, w, r2, w2)
		switch {
		case (r != r2 || w != w2) && c.p(0.5):
			name, f = "MatrixPlusTemplate", func() any { return sym.MatrixPlusTemplate(a, b) }
		case w != r2:
			name, f = "MatrixMultiplyTemplate", func() any { return sym.MatrixMultiplyTemplate(a, b) }
		default:
			return
		}
	case 1: // powers
		n := c.n(4)
		switch c.n(5) {
		case 0:
			s, k := c.scalar().Obj.(sym.ScalarExpression), -1-c.n(5)
			args, why = []any{s, k}, "a negative exponent"
			name, f = "ScalarPowerTemplate", func() any { return sym.ScalarPowerTemplate(s, k) }
		case 1:
			s, k := vector(1), -1-c.n(5)
			args, why = []any{s, k}, "a negative exponent"
			name, f = "VectorPowerTemplate", func() any { return sym.VectorPowerTemplate(s, k) }
		case 2:
			s, k := vector(2+c.n(4)), n
			args, why = []any{s, k}, "a vector of several entries"
			name, f = "VectorPowerTemplate", func() any { return sym.VectorPowerTemplate(s, k) }
		case 3:
			d := 1 + c.n(3)
			s, k := matrix(d, d), -1-c.n(5)
			args, why = []any{s, k}, "a negative exponent"
			name, f = "MatrixPowerTemplate", func() any { return sym.MatrixPowerTemplate(s, k) }
		default:
			d := 1 + c.n(3)
			s, k := matrix(d, d+1), n
			if c.p(0.5) {
				s = matrix(d+1, d)
			}
			args, why = []any{s, k}, "a matrix that is not square"
			name, f = "MatrixPowerTemplate", func() any { return sym.MatrixPowerTemplate(s, k) }
		}
	case 2: // a malformed operand
		r, w := 1+c.n(3), 1+c.n(3)
		why = badMatrices[c.n(len(badMatrices))]
		a := c.bad(why, r, w).(sym.MatrixExpression)
		switch c.n(4) {
		case 0:
			if d := c.n(2); d == 0 {
				b := matrix(r, w)
				args = []any{a, b}
				name, f = "MatrixPlusTemplate", func() any { return sym.MatrixPlusTemplate(a, b) }
			} else {
				b := matrix(r, w)
				args = []any{b, a}
				name, f = "MatrixPlusTemplate", func() any { return sym.MatrixPlusTemplate(b, a) }
			}
		case 1:
			b, d := matrix(w, 1+c.n(3)), matrix(1+c.n(3), r)
			if c.p(0.5) {
				args = []any{a, b}
				name, f = "MatrixMultiplyTemplate", func() any { return sym.MatrixMultiplyTemplate(a, b) }
			} else {
				args = []any{d, a}
				name, f = "MatrixMultiplyTemplate", func() any { return sym.MatrixMultiplyTemplate(d, a) }
			}
		case 2:
			n := 1 + c.n(3)
			args = []any{a, n}
			name, f = "MatrixPowerTemplate", func() any { return sym.MatrixPowerTemplate(a, n) }
		default:
			x, s := c.variable(), c.scalar().Obj.(sym.ScalarExpression)
			args = []any{a, x.ID, s}
			name, f = "MatrixSubstituteTemplate", func() any { return sym.MatrixSubstituteTemplate(a, x, s) }
		}
	default: // a malformed vector, scalar or variable
		n := 1 + c.n(4)
		why = badVectors[c.n(len(badVectors))]
		a := c.bad(why, n, 1).(sym.VectorExpression)
		s := c.scalar().Obj.(sym.ScalarExpression)
		x := c.variable()
		switch c.n(7) {
		case 0:
			b := vector(n)
			args = []any{a, b}
			name, f = "VectorPlusTemplate", func() any { return sym.VectorPlusTemplate(a, b) }
		case 1:
			b := vector(n)
			args = []any{b, a}
			name, f = "VectorPlusTemplate", func() any { return sym.VectorPlusTemplate(b, a) }
		case 2:
			args = []any{a, s}
			name, f = "VectorMultiplyTemplate", func() any { return sym.VectorMultiplyTemplate(a, s) }
		case 3:
			args = []any{a, x.ID, s}
			name, f = "VectorSubstituteTemplate", func() any { return sym.VectorSubstituteTemplate(a, x, s) }
		case 4: // a malformed variable or replacement
			b := vector(n)
			if c.p(0.5) {
				x, why = c.badVariable(), "bad variable"
			} else {
				why = badScalars[c.n(len(badScalars))]
				s = c.bad(why, 1, 1).(sym.ScalarExpression)
			}
			args = []any{b, x.ID, s}
			name, f = "VectorSubstituteTemplate", func() any { return sym.VectorSubstituteTemplate(b, x, s) }
		case 5:
			b := matrix(n, 1+c.n(3))
			if c.p(0.5) {
				x, why = c.badVariable(), "bad variable"
			} else {
				why = badScalars[c.n(len(badScalars))]
				s = c.bad(why, 1, 1).(sym.ScalarExpression)
			}
			args = []any{b, x.ID, s}
			name, f = "MatrixSubstituteTemplate", func() any { return sym.MatrixSubstituteTemplate(b, x, s) }
		default:
			why = badScalars[c.n(len(badScalars))]
			s = c.bad(why, 1, 1).(sym.ScalarExpression)
			k := 1 + c.n(3)
			args = []any{s, k}
			name, f = "ScalarPowerTemplate", func() any { return sym.ScalarPowerTemplate(s, k) }
		}
	}
	c.seen(true, append([]any{name, why}, args...)...)
	c.count("refusal by " + name)
	res, pan := try(f)
	if pan == nil {
		what := ""
		for _, a := range args {
			what += " " + clip(rawDesc(a), 300)
		}
		c.fail("%s of%s (%s) gives %s", name, what, why, rawDesc(res))
	}
}

func (c *Ctx) template(name string, f func() any, want RMat, tol float64, args ...any) {
	c.seen(nontrivial(want), append([]any{name}, args...)...)
	what := name + " of"
	for _, a := range args {
		what += " " + clip(rawStr(a), 300)
	}
	res, ok := c.must(what, f)
	if !ok {
		return
	}
	c.count(name)
	c.sample("%s -> %s", what, str(res))
	if c.expect(what, res, want, tol) {
		c.checkDims(what, res.(sym.Expression), want)
	}
}

func runHelpers(c *Ctx) {
	switch x := c.f(); {
	case x < 0.25:
		c.dimensionChecks()
	case x < 0.35:
		c.indexChecks()
	case x < 0.5:
		c.recognisers()
	case x < 0.62:
		c.lists()
	case x < 0.75:
		c.mapsAndSenses()
	default:
		c.templates()
	}
}

func init() {
	register(&Prop{ID: "S23", Quick: 4000000, Thorough: 30000000, Run: runHelpers,
		Rule: "one public check (dimensions, index, substitution map, sense), one value offered to all recognisers and conversions, one list helper, or one generic template; non-trivial: lists or maps with entries, results with variables; distinct: arguments"})
}
