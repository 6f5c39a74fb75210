package main

// Reads library objects through their exported fields only (never through
// library methods), judging at the same time whether they are well-formed.

import (
	"errors"
	"fmt"
	"hash/fnv"
	"math"
	"reflect"

	sym "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
	"gonum.org/v1/gonum/mat"
)

func polyOfVar(v sym.Variable) RPoly { return rVar(v.ID) }

// oddTerm reports a term in unreduced form: with an exponent of zero or with a
// variable listed twice. A user can write such terms (they pass the validity
// check); operations on reduced operands must not produce them.
type oddTerm string

func (e oddTerm) Error() string { return string(e) }

// notOdd drops reports of unreduced terms.
func notOdd(err error) error {
	if _, odd := err.(oddTerm); odd {
		return nil
	}
	return err
}

func refMono(m sym.Monomial) (RPoly, error) {
	var err error
	if len(m.Exponents) != len(m.VariableFactors) {
		return nil, fmt.Errorf("monomial with %d exponents and %d variables", len(m.Exponents), len(m.VariableFactors))
	}
	f := make([]Fac, 0, len(m.Exponents))
	for i, v := range m.VariableFactors {
		e := m.Exponents[i]
		if e <= 0 {
			err = oddTerm(fmt.Sprintf("monomial with exponent %d", e))
		}
		if e < 0 {
			return nil, err
		}
		if e == 0 {
			continue
		}
		// insertion sort
		pos := len(f)
		dup := false
		for k := range f {
			if f[k].ID == v.ID {
				f[k].Exp += e
				dup = true
				err = oddTerm(fmt.Sprintf("monomial with the variable %d twice", v.ID))
				break
			}
			if f[k].ID > v.ID {
				pos = k
				break
			}
		}
		if dup {
			continue
		}
		f = append(f, Fac{})
		copy(f[pos+1:], f[pos:])
		f[pos] = Fac{v.ID, e}
	}
	p := RPoly{}
	p.addTerm(f, m.Coefficient, math.Abs(m.Coefficient))
	return p, err
}

func refPoly(q sym.Polynomial) (RPoly, error) {
	var err error
	if len(q.Monomials) == 0 {
		err = errors.New("polynomial without terms")
	}
	p := RPoly{}
	for _, m := range q.Monomials {
		r, e := refMono(m)
		if e != nil {
			err = e
		}
		if r == nil {
			return nil, e
		}
		for _, t := range r {
			p.addTerm(t.Facs, t.Val, t.Mag)
		}
	}
	return p, err
}

var errKind = errors.New("not a known kind of expression")

// toRef interprets any operand: expression, number or gonum object. The
// error reports the first way in which it is not well-formed; the matrix is
// still usable unless its E is nil.
func toRef(x any) (RMat, error) {
	var bad error
	note := func(e error) {
		if e != nil && bad == nil {
			bad = e
		}
	}
	one := func(p RPoly, e error) (RMat, error) {
		if p == nil {
			return RMat{}, e
		}
		return RMat{1, 1, []RPoly{p}}, e
	}
	grid := func(r, c int, rowLen func(int) int, f func(i, j int) (RPoly, error)) (RMat, error) {
		if r == 0 || c == 0 {
			return RMat{}, errors.New("empty vector or matrix")
		}
		out := newRMat(r, c)
		for i := 0; i < r; i++ {
			if rowLen(i) != c {
				return RMat{}, fmt.Errorf("ragged matrix: row %d has %d entries, row 0 has %d", i, rowLen(i), c)
			}
			for j := 0; j < c; j++ {
				p, e := f(i, j)
				note(e)
				if p == nil {
					return RMat{}, e
				}
				out.set(i, j, p)
			}
		}
		return out, bad
	}
	switch v := x.(type) {
	case nil:
		return RMat{}, errors.New("nil")
	case float64:
		return one(rConst(v), nil)
	case int:
		return one(rConst(float64(v)), nil)
	case sym.K:
		return one(rConst(float64(v)), nil)
	case sym.Variable:
		return one(rVar(v.ID), nil)
	case sym.Monomial:
		return one(refMono(v))
	case sym.Polynomial:
		return one(refPoly(v))
	case sym.KVector:
		return grid(len(v), 1, func(int) int { return 1 }, func(i, j int) (RPoly, error) { return rConst(float64(v[i])), nil })
	case sym.VariableVector:
		return grid(len(v), 1, func(int) int { return 1 }, func(i, j int) (RPoly, error) { return rVar(v[i].ID), nil })
	case sym.MonomialVector:
		return grid(len(v), 1, func(int) int { return 1 }, func(i, j int) (RPoly, error) { return refMono(v[i]) })
	case sym.PolynomialVector:
		return grid(len(v), 1, func(int) int { return 1 }, func(i, j int) (RPoly, error) { return refPoly(v[i]) })
	case sym.KMatrix:
		if len(v) == 0 {
			return RMat{}, errors.New("empty matrix")
		}
		return grid(len(v), len(v[0]), func(i int) int { return len(v[i]) }, func(i, j int) (RPoly, error) { return rConst(float64(v[i][j])), nil })
	case sym.VariableMatrix:
		if len(v) == 0 {
			return RMat{}, errors.New("empty matrix")
		}
		return grid(len(v), len(v[0]), func(i int) int { return len(v[i]) }, func(i, j int) (RPoly, error) { return rVar(v[i][j].ID), nil })
	case sym.MonomialMatrix:
		if len(v) == 0 {
			return RMat{}, errors.New("empty matrix")
		}
		return grid(len(v), len(v[0]), func(i int) int { return len(v[i]) }, func(i, j int) (RPoly, error) { return refMono(v[i][j]) })
	case sym.PolynomialMatrix:
		if len(v) == 0 {
			return RMat{}, errors.New("empty matrix")
		}
		return grid(len(v), len(v[0]), func(i int) int { return len(v[i]) }, func(i, j int) (RPoly, error) { return refPoly(v[i][j]) })
	case mat.VecDense:
		return toRef(&v)
	case *mat.VecDense:
		return grid(v.Len(), 1, func(int) int { return 1 }, func(i, j int) (RPoly, error) { return rConst(v.AtVec(i)), nil })
	case mat.Dense:
		return toRef(&v)
	case *mat.Dense:
		r, c := v.Dims()
		return grid(r, c, func(int) int { return c }, func(i, j int) (RPoly, error) { return rConst(v.At(i, j)), nil })
	case []sym.ScalarExpression:
		out := RMat{len(v), 1, nil}
		for _, e := range v {
			r, err := toRef(e)
			note(err)
			if r.E == nil || !r.is11() {
				return RMat{}, fmt.Errorf("slice entry is not scalar: %v", err)
			}
			out.E = append(out.E, r.E[0])
		}
		return out, bad
	}
	return RMat{}, fmt.Errorf("%w: %T", errKind, x)
}

// varsIn lists all Variable structs occurring in an object (with repeats).
func varsIn(x any) []sym.Variable {
	var out []sym.Variable
	var walk func(v reflect.Value)
	vt := reflect.TypeOf(sym.Variable{})
	walk = func(v reflect.Value) {
		if !v.IsValid() {
			return
		}
		if v.Type() == vt {
			out = append(out, v.Interface().(sym.Variable))
			return
		}
		switch v.Kind() {
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Struct:
			if _, ok := v.Interface().(mat.VecDense); ok {
				return
			}
			if _, ok := v.Interface().(mat.Dense); ok {
				return
			}
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		case reflect.Map:
			for _, k := range v.MapKeys() {
				walk(k)
				walk(v.MapIndex(k))
			}
		}
	}
	walk(reflect.ValueOf(x))
	return out
}

// deepHash hashes the full visible content (every field and every slice
// element within its length). Spare capacity is not content: the generator
// puts sibling objects there, whose own content is watched. Environments are
// identified by their address.
func deepHash(x any) uint64 {
	h := fnv.New64a()
	var buf [8]byte
	w64 := func(u uint64) {
		for i := range buf {
			buf[i] = byte(u >> (8 * i))
		}
		h.Write(buf[:])
	}
	envT := reflect.TypeOf((*sym.Environment)(nil)).Elem()
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		if !v.IsValid() {
			w64(0xdead)
			return
		}
		switch v.Kind() {
		case reflect.Interface:
			if v.IsNil() {
				w64(0xbeef)
				return
			}
			if v.Type() == envT {
				e := v.Elem()
				if e.Kind() == reflect.Pointer {
					w64(uint64(e.Pointer()))
				}
				return
			}
			e := v.Elem()
			h.Write([]byte(e.Type().String()))
			walk(e)
		case reflect.Pointer:
			if v.IsNil() {
				w64(1)
				return
			}
			walk(v.Elem())
		case reflect.Slice:
			w64(uint64(v.Len()))
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Map:
			// order-independent: sum of the hashes of the pairs
			var sum uint64
			it := v.MapRange()
			for it.Next() {
				sum += deepHash([]any{it.Key().Interface(), it.Value().Interface()})
			}
			w64(uint64(v.Len()))
			w64(sum)
		case reflect.Float64:
			w64(math.Float64bits(v.Float()))
		case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int8, reflect.Int16:
			w64(uint64(v.Int()))
		case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint8, reflect.Uint16:
			w64(v.Uint())
		case reflect.Bool:
			if v.Bool() {
				w64(3)
			} else {
				w64(2)
			}
		case reflect.String:
			w64(uint64(v.Len()))
			h.Write([]byte(v.String()))
		default:
			panic("deepHash: " + v.Kind().String())
		}
	}
	walk(reflect.ValueOf(x))
	return h.Sum64()
}
