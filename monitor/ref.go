package main

// The reference model: polynomials as finite maps from monomials to
// coefficients, and matrices of them. It shares no code with the library.
// Every coefficient carries a magnitude (the sum of the absolute values of
// everything that was added up to form it), which bounds the rounding error
// that any evaluation order may legitimately produce.

import (
	"encoding/binary"
	"fmt"
	"math"
	"sort"
	"strings"
)

// Fac is one factor v^Exp of a monomial.
type Fac struct {
	ID  uint64
	Exp int
}

type Term struct {
	Facs []Fac // sorted by ID, distinct, positive exponents
	Val  float64
	Mag  float64
}

// RPoly maps the monomial key to its term.
type RPoly map[string]Term

func facKey(f []Fac) string {
	b := make([]byte, 0, 4*len(f))
	for _, x := range f {
		b = binary.AppendUvarint(b, x.ID)
		b = binary.AppendUvarint(b, uint64(x.Exp))
	}
	return string(b)
}

func (p RPoly) addTerm(f []Fac, val, mag float64) {
	k := facKey(f)
	t, ok := p[k]
	if !ok {
		p[k] = Term{f, val, mag}
		return
	}
	t.Val += val
	t.Mag += mag
	p[k] = t
}

func rConst(c float64) RPoly {
	p := RPoly{}
	p.addTerm(nil, c, math.Abs(c))
	return p
}

func rVar(id uint64) RPoly {
	p := RPoly{}
	p.addTerm([]Fac{{id, 1}}, 1, 1)
	return p
}

func rAdd(a, b RPoly) RPoly {
	out := make(RPoly, len(a)+len(b))
	for k, t := range a {
		out[k] = t
	}
	for _, t := range b {
		out.addTerm(t.Facs, t.Val, t.Mag)
	}
	return out
}

func rScale(a RPoly, c float64) RPoly {
	out := make(RPoly, len(a))
	for k, t := range a {
		out[k] = Term{t.Facs, t.Val * c, t.Mag * math.Abs(c)}
	}
	return out
}

func rSub(a, b RPoly) RPoly { return rAdd(a, rScale(b, -1)) }

func mulFacs(a, b []Fac) []Fac {
	out := make([]Fac, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j == len(b) || (i < len(a) && a[i].ID < b[j].ID):
			out = append(out, a[i])
			i++
		case i == len(a) || b[j].ID < a[i].ID:
			out = append(out, b[j])
			j++
		default:
			out = append(out, Fac{a[i].ID, a[i].Exp + b[j].Exp})
			i++
			j++
		}
	}
	return out
}

func rMul(a, b RPoly) RPoly {
	out := make(RPoly, len(a)*len(b))
	// deterministic order of accumulation is not needed: the tolerance covers it
	for _, s := range a {
		for _, t := range b {
			out.addTerm(mulFacs(s.Facs, t.Facs), s.Val*t.Val, s.Mag*t.Mag)
		}
	}
	return out
}

func rPow(a RPoly, n int) RPoly {
	out := rConst(1)
	for i := 0; i < n; i++ {
		out = rMul(out, a)
	}
	return out
}

func rDeriv(a RPoly, id uint64) RPoly {
	out := RPoly{}
	for _, t := range a {
		for i, f := range t.Facs {
			if f.ID != id {
				continue
			}
			nf := make([]Fac, 0, len(t.Facs))
			nf = append(nf, t.Facs[:i]...)
			if f.Exp > 1 {
				nf = append(nf, Fac{f.ID, f.Exp - 1})
			}
			nf = append(nf, t.Facs[i+1:]...)
			out.addTerm(nf, t.Val*float64(f.Exp), t.Mag*float64(f.Exp))
		}
	}
	return out
}

// rSubst replaces all variables of the map simultaneously.
func rSubst(a RPoly, m map[uint64]RPoly) RPoly {
	out := RPoly{}
	for _, t := range a {
		cur := RPoly{}
		var keep []Fac
		for _, f := range t.Facs {
			if _, ok := m[f.ID]; !ok {
				keep = append(keep, f)
			}
		}
		cur.addTerm(keep, t.Val, t.Mag)
		for _, f := range t.Facs {
			if r, ok := m[f.ID]; ok {
				cur = rMul(cur, rPow(r, f.Exp))
			}
		}
		for _, s := range cur {
			out.addTerm(s.Facs, s.Val, s.Mag)
		}
	}
	return out
}

func rEval(a RPoly, at map[uint64]float64) (val, mag float64) {
	for _, t := range a {
		v, m := t.Val, t.Mag
		for _, f := range t.Facs {
			x := math.Pow(at[f.ID], float64(f.Exp))
			v *= x
			m *= math.Abs(x)
		}
		val += v
		mag += m
	}
	return
}

func (p RPoly) sorted() []Term {
	ts := make([]Term, 0, len(p))
	for _, t := range p {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return facKey(ts[i].Facs) < facKey(ts[j].Facs) })
	return ts
}

func (p RPoly) String() string {
	var sb strings.Builder
	for i, t := range p.sorted() {
		if i > 0 {
			sb.WriteString(" + ")
		}
		fmt.Fprintf(&sb, "%v", t.Val)
		for _, f := range t.Facs {
			fmt.Fprintf(&sb, "*v%d", f.ID)
			if f.Exp != 1 {
				fmt.Fprintf(&sb, "^%d", f.Exp)
			}
		}
	}
	if sb.Len() == 0 {
		return "0"
	}
	return sb.String()
}

// clean drops the terms whose value is indistinguishable from zero.
func (p RPoly) clean() RPoly {
	out := RPoly{}
	for k, t := range p {
		if t.Val != 0 {
			out[k] = t
		}
	}
	return out
}

func (p RPoly) degree() int {
	d := 0
	for _, t := range p {
		if t.Val == 0 {
			continue
		}
		s := 0
		for _, f := range t.Facs {
			s += f.Exp
		}
		if s > d {
			d = s
		}
	}
	return d
}

func (p RPoly) constant() Term { return p[""] }

func (p RPoly) coeff(f []Fac) Term { return p[facKey(f)] }

func (p RPoly) vars() map[uint64]bool {
	out := map[uint64]bool{}
	for _, t := range p {
		if t.Val == 0 {
			continue
		}
		for _, f := range t.Facs {
			out[f.ID] = true
		}
	}
	return out
}

const (
	tolOne   = 1e-13 // one operation
	tolChain = 2e-12 // several operations
	tolAbs   = 1e-290
)

func closeVal(got, want, mag, tol float64) bool {
	if got == want {
		return true
	}
	if math.IsNaN(got) || math.IsInf(got, 0) {
		return false
	}
	return math.Abs(got-want) <= tol*mag+tolAbs
}

// rDiff compares a library value (got) with the reference (want); the
// magnitudes of both sides bound the rounding. "" means equal.
func rDiff(got, want RPoly, tol float64) string {
	for k, w := range want {
		g := got[k]
		m := w.Mag
		if !closeVal(g.Val, w.Val, m, tol) {
			return fmt.Sprintf("coefficient of %s: got %v, want %v", facStr(w.Facs), g.Val, w.Val)
		}
	}
	for k, g := range got {
		if _, ok := want[k]; !ok && !closeVal(g.Val, 0, 0, tol) {
			return fmt.Sprintf("unexpected term %v*%s", g.Val, facStr(g.Facs))
		}
	}
	return ""
}

func facStr(f []Fac) string {
	if len(f) == 0 {
		return "1"
	}
	s := []string{}
	for _, x := range f {
		s = append(s, fmt.Sprintf("v%d^%d", x.ID, x.Exp))
	}
	return strings.Join(s, "*")
}

// withMagOf gives the values of a the magnitudes of b, a calculation of the
// same result (whose terms may have been cancelled in a).
func withMagOf(a, b RMat) RMat {
	out := newRMat(a.R, a.C)
	for i := range a.E {
		for k, t := range a.E[i] {
			t.Mag = math.Max(t.Mag, b.E[i][k].Mag)
			out.E[i][k] = t
		}
		for k, t := range b.E[i] {
			if _, ok := a.E[i][k]; !ok {
				out.E[i][k] = Term{t.Facs, 0, t.Mag}
			}
		}
	}
	return out
}

// RMat is a matrix of reference polynomials.
type RMat struct {
	R, C int
	E    []RPoly
}

func newRMat(r, c int) RMat {
	m := RMat{r, c, make([]RPoly, r*c)}
	for i := range m.E {
		m.E[i] = RPoly{}
	}
	return m
}

func (m RMat) at(i, j int) RPoly     { return m.E[i*m.C+j] }
func (m RMat) set(i, j int, p RPoly) { m.E[i*m.C+j] = p }
func (m RMat) is11() bool            { return m.R == 1 && m.C == 1 }

func (m RMat) mapE(f func(RPoly) RPoly) RMat {
	out := RMat{m.R, m.C, make([]RPoly, len(m.E))}
	for i, e := range m.E {
		out.E[i] = f(e)
	}
	return out
}

func (m RMat) terms() int {
	n := 0
	for _, e := range m.E {
		n += len(e)
	}
	return n
}

func mPlus(a, b RMat, f func(x, y RPoly) RPoly) (RMat, bool) {
	switch {
	case a.R == b.R && a.C == b.C:
		out := newRMat(a.R, a.C)
		for i := range a.E {
			out.E[i] = f(a.E[i], b.E[i])
		}
		return out, true
	case a.is11():
		return b.mapE(func(y RPoly) RPoly { return f(a.E[0], y) }), true
	case b.is11():
		return a.mapE(func(x RPoly) RPoly { return f(x, b.E[0]) }), true
	}
	return RMat{}, false
}

// mMul: matrix product, or scaling when a factor is 1x1.
func mMul(a, b RMat) (RMat, bool) {
	switch {
	case a.is11():
		return b.mapE(func(y RPoly) RPoly { return rMul(a.E[0], y) }), true
	case b.is11():
		return a.mapE(func(x RPoly) RPoly { return rMul(x, b.E[0]) }), true
	case a.C == b.R:
		out := newRMat(a.R, b.C)
		for i := 0; i < a.R; i++ {
			for j := 0; j < b.C; j++ {
				s := RPoly{}
				for k := 0; k < a.C; k++ {
					s = rAdd(s, rMul(a.at(i, k), b.at(k, j)))
				}
				out.set(i, j, s)
			}
		}
		return out, true
	}
	return RMat{}, false
}

func mTranspose(a RMat) RMat {
	out := newRMat(a.C, a.R)
	for i := 0; i < a.R; i++ {
		for j := 0; j < a.C; j++ {
			out.set(j, i, a.at(i, j))
		}
	}
	return out
}

func mIdentity(n int) RMat {
	out := newRMat(n, n)
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if i == j {
				out.set(i, j, rConst(1))
			} else {
				out.set(i, j, rConst(0))
			}
		}
	}
	return out
}

func mPow(a RMat, n int) RMat {
	out := mIdentity(a.R)
	for i := 0; i < n; i++ {
		out, _ = mMul(out, a)
	}
	return out
}

func mDiff(got, want RMat, tol float64) string {
	if got.R != want.R || got.C != want.C {
		return fmt.Sprintf("shape: got %dx%d, want %dx%d", got.R, got.C, want.R, want.C)
	}
	for i := range want.E {
		if d := rDiff(got.E[i], want.E[i], tol); d != "" {
			return fmt.Sprintf("entry (%d,%d): %s", i/want.C, i%want.C, d)
		}
	}
	return ""
}

func (m RMat) String() string {
	if m.is11() {
		return m.E[0].String()
	}
	var sb strings.Builder
	sb.WriteString("[")
	for i := 0; i < m.R; i++ {
		if i > 0 {
			sb.WriteString("; ")
		}
		for j := 0; j < m.C; j++ {
			if j > 0 {
				sb.WriteString(", ")
			}
			sb.WriteString(m.at(i, j).String())
		}
	}
	sb.WriteString("]")
	return sb.String()
}
