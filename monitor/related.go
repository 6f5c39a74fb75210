package main

// Operands with structure, and operands that resemble another one. Short cuts
// for "equal", "opposite", "symmetric", "diagonal", ... are taken only then.

import (
	"math"
	"strings"

	sym "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
)

func cpMono(m sym.Monomial) sym.Monomial {
	return sym.Monomial{Coefficient: m.Coefficient,
		VariableFactors: append([]sym.Variable{}, m.VariableFactors...), Exponents: append([]int{}, m.Exponents...)}
}

func cpPoly(p sym.Polynomial) sym.Polynomial {
	out := sym.Polynomial{}
	for _, m := range p.Monomials {
		out.Monomials = append(out.Monomials, cpMono(m))
	}
	return out
}

// grid reads the entries of an expression as polynomials of its own kind.
func mapEntries(obj any, f func(i, j int, x any) any) any {
	switch o := obj.(type) {
	case sym.K, sym.Variable, sym.Monomial, sym.Polynomial:
		return f(0, 0, o)
	case sym.KVector:
		return mapVec(o, f)
	case sym.VariableVector:
		return mapVec(o, f)
	case sym.MonomialVector:
		return mapVec(o, f)
	case sym.PolynomialVector:
		return mapVec(o, f)
	case sym.KMatrix:
		return mapMat(o, f)
	case sym.VariableMatrix:
		return mapMat(o, f)
	case sym.MonomialMatrix:
		return mapMat(o, f)
	case sym.PolynomialMatrix:
		return mapMat(o, f)
	}
	panic("harness: mapEntries")
}

func mapVec[S ~[]T, T any](o S, f func(i, j int, x any) any) any {
	out := make(S, len(o))
	for i := range o {
		out[i] = f(i, 0, o[i]).(T)
	}
	return out
}

func mapMat[S ~[][]T, T any](o S, f func(i, j int, x any) any) any {
	out := make(S, len(o))
	for i := range o {
		out[i] = make([]T, len(o[i]))
		for j := range o[i] {
			out[i][j] = f(i, j, o[i][j]).(T)
		}
	}
	return out
}

func entryAt(obj any, i, j int) any {
	switch o := obj.(type) {
	case sym.KVector:
		return o[i]
	case sym.VariableVector:
		return o[i]
	case sym.MonomialVector:
		return o[i]
	case sym.PolynomialVector:
		return o[i]
	case sym.KMatrix:
		return o[i][j]
	case sym.VariableMatrix:
		return o[i][j]
	case sym.MonomialMatrix:
		return o[i][j]
	case sym.PolynomialMatrix:
		return o[i][j]
	}
	return obj
}

func fresh(x any) any {
	switch e := x.(type) {
	case sym.Monomial:
		return cpMono(e)
	case sym.Polynomial:
		return cpPoly(e)
	}
	return x
}

func scaled(x any, k float64) any {
	switch e := x.(type) {
	case sym.K:
		return e * sym.K(k)
	case sym.Monomial:
		m := cpMono(e)
		m.Coefficient *= k
		return m
	case sym.Polynomial:
		p := cpPoly(e)
		for i := range p.Monomials {
			p.Monomials[i].Coefficient *= k
		}
		return p
	}
	return x
}

func constantLike(x any, k float64) any {
	switch x.(type) {
	case sym.K:
		return sym.K(k)
	case sym.Monomial:
		return sym.Monomial{Coefficient: k}
	case sym.Polynomial:
		return sym.Polynomial{Monomials: []sym.Monomial{{Coefficient: k}}}
	}
	return nil
}

// nudged changes a number in its later digits.
func (g *Gen) nudged(k float64) float64 {
	return k * (1 + math.Ldexp(float64(1-2*g.n(2)), -20-g.n(20)))
}

// altered changes one small thing in an entry.
func (g *Gen) altered(x any) any {
	switch e := x.(type) {
	case sym.K:
		if e != 0 && g.p(0.25) {
			return sym.K(g.nudged(float64(e)))
		}
		return sym.K(g.coef())
	case sym.Variable:
		return g.variable()
	case sym.Monomial:
		m := cpMono(e)
		switch n := len(m.Exponents); {
		case n > 0 && n == len(m.VariableFactors) && g.p(0.4):
			m.Exponents[g.n(n)]++
		case n > 1 && n == len(m.VariableFactors) && g.p(0.4):
			i, j := g.n(n), g.n(n)
			m.Exponents[i], m.Exponents[j] = m.Exponents[j], m.Exponents[i]
		case m.Coefficient != 0 && g.p(0.2):
			m.Coefficient = g.nudged(m.Coefficient)
		default:
			m.Coefficient = g.coef()
		}
		return m
	case sym.Polynomial:
		p := cpPoly(e)
		i := g.n(len(p.Monomials))
		switch {
		case g.p(0.3):
			p.Monomials[i].Coefficient = -p.Monomials[i].Coefficient
		case g.p(0.2) && len(p.Monomials) > 1:
			p.Monomials = append(p.Monomials[:i], p.Monomials[i+1:]...)
		case g.p(0.2):
			j := g.n(len(p.Monomials))
			p.Monomials[i], p.Monomials[j] = p.Monomials[j], p.Monomials[i]
		default:
			p.Monomials[i] = g.altered(p.Monomials[i]).(sym.Monomial)
		}
		return p
	}
	return x
}

// related makes an operand of the same kind and shape that resembles v.
func (g *Gen) related(v Val) Val {
	switch v.Kind {
	case "float64", "int", "mat.VecDense", "*mat.VecDense", "mat.Dense", "*mat.Dense":
		return v
	}
	r, c := v.R(), v.C()
	ti, tj := g.n(r), g.n(c)
	if g.p(0.3) {
		ti, tj = r-1, c-1
	}
	k := 1.0
	if g.p(0.5) {
		k = []float64{-1, -1, -1, 2, -2, 0.5}[g.n(6)]
	}
	alter := g.p(0.55)
	obj := v.Obj
	switch how := g.n(6); {
	case how == 0 && r > 1: // rows in reverse
		obj = mapEntries(obj, func(i, j int, x any) any { return fresh(entryAt(v.Obj, r-1-i, j)) })
	case how == 1 && r > 1 && r == c: // transposed
		obj = mapEntries(obj, func(i, j int, x any) any { return fresh(entryAt(v.Obj, j, i)) })
	case how == 2 && r > 1: // shifted
		obj = mapEntries(obj, func(i, j int, x any) any { return fresh(entryAt(v.Obj, (i+1)%r, j)) })
	}
	out := mapEntries(obj, func(i, j int, x any) any {
		x = scaled(fresh(x), k)
		if alter && i == ti && j == tj {
			x = g.altered(x)
		}
		return x
	})
	return mkVal(out)
}

// structured gives the entries of a vector or matrix a pattern.
func (g *Gen) structured(obj any, r, c int) any {
	if r*c < 2 || g.OneWide || !g.p(0.12) {
		return obj
	}
	at := func(i, j int) any { return entryAt(obj, i, j) }
	zero, one := constantLike(at(0, 0), 0), constantLike(at(0, 0), 1)
	share := g.p(0.5) // equal entries share their storage
	cp := func(x any) any {
		if share {
			return x
		}
		return fresh(x)
	}
	var f func(i, j int, x any) any
	switch how := g.n(9); {
	case how == 0: // all equal
		f = func(i, j int, x any) any { return cp(at(0, 0)) }
	case how == 1: // one after the other
		p := 2 + g.n(2)
		f = func(i, j int, x any) any {
			q := (i*c + j) / p * p
			return cp(at(q/c, q%c))
		}
	case how == 2 && c > 1: // equal rows
		f = func(i, j int, x any) any { return cp(at(0, j)) }
	case how == 3 && r > 1: // equal columns
		f = func(i, j int, x any) any { return cp(at(i, 0)) }
	case how <= 5 && r == c: // symmetric
		f = func(i, j int, x any) any { return cp(at(min(i, j), max(i, j))) }
	case zero == nil || g.NoZero:
		n := 1 + g.n(r*c)
		f = func(i, j int, x any) any { q := (i*c + j) % n; return cp(at(q/c, q%c)) }
	case how == 6 && r == c: // diagonal, identity or a permutation
		kind := g.n(4)
		perm := g.perm(r)
		f = func(i, j int, x any) any {
			switch {
			case kind == 0 && i == j:
				return x
			case kind == 1 && i == j, kind == 2 && perm[i] == j:
				return one
			case kind == 3 && i == r-1-j:
				return one
			}
			return zero
		}
	case how == 7 && c > 1: // triangular, with or without the diagonal
		d, up := g.n(2), g.p(0.5)
		f = func(i, j int, x any) any {
			if up && j >= i+d || !up && i >= j+d {
				return x
			}
			return zero
		}
	default: // few entries are not zero
		n := g.n(3)
		keep := map[int]bool{}
		for ; n > 0; n-- {
			keep[g.n(r*c)] = true
		}
		line := g.p(0.3)
		f = func(i, j int, x any) any {
			if line && (i == r-1 || j == c-1) || keep[i*c+j] {
				return x
			}
			return zero
		}
	}
	out := mapEntries(obj, f)
	if g.p(0.3) { // all but one
		ti, tj := g.n(r), g.n(c)
		if g.p(0.4) {
			ti, tj = r-1, c-1
		}
		out = mapEntries(out, func(i, j int, x any) any {
			if i == ti && j == tj {
				return g.altered(at(i, j))
			}
			return x
		})
	}
	return out
}

// relative makes another block for a stack from one that is there: the same,
// one that resembles it, or its transpose where that fits.
func (g *Gen) relative(v Val) Val {
	if g.p(0.3) {
		return v
	}
	isMat := strings.HasSuffix(v.Kind, "Matrix")
	if isMat && g.p(0.4) && (v.R() == v.C()) {
		v = mkVal(mapEntries(v.Obj, func(i, j int, x any) any { return fresh(entryAt(v.Obj, j, i)) }))
		if g.p(0.7) {
			return v
		}
	}
	return g.related(v)
}
