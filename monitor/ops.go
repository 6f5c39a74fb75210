package main

import (
	sym "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
)

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// binary operations of the Expression interface
func doBin(op string, l sym.Expression, r any) sym.Expression {
	switch op {
	case "Plus":
		return l.Plus(r)
	case "Minus":
		return l.Minus(r)
	case "Multiply":
		return l.Multiply(r)
	}
	panic("harness: op " + op)
}

func refBin(op string, l, r RMat) (RMat, bool) {
	switch op {
	case "Plus":
		return mPlus(l, r, rAdd)
	case "Minus":
		return mPlus(l, r, rSub)
	case "Multiply":
		return mMul(l, r)
	}
	panic("harness: op " + op)
}

func (c *Ctx) expect(what string, res any, want RMat, tol float64) bool {
	got, err := toRef(res)
	if got.E == nil {
		c.fail("%s returned a malformed object (%T): %v", what, res, err)
		return false
	}
	if d := mDiff(got, want, tol); d != "" {
		c.fail("%s = %s\n   expected %s\n   %s", what, str(res), want, d)
		return false
	}
	return true
}

func nontrivial(ms ...RMat) bool {
	for _, m := range ms {
		for _, e := range m.E {
			for _, t := range e {
				if len(t.Facs) > 0 && t.Val != 0 {
					return true
				}
			}
		}
	}
	return false
}

func init() {
	register(&Prop{
		ID: "S01", Quick: 3600000, Thorough: 27000000,
		Rule: "each case adds, subtracts (and for expressions compares with the package function Minus) one generated pair of operands of any kinds with equal or 1x1 shape; non-trivial: some operand contains a variable; distinct: different operand contents",
		Run: func(c *Ctx) {
			l, r := c.addPair()
			op := "Plus"
			if c.p(0.4) {
				op = "Minus"
			}
			if c.p(0.05) {
				op = "minusFn"
			}
			c.bin(op, l, r)
		},
	})
	register(&Prop{
		ID: "S02", Quick: 3200000, Thorough: 24000000,
		Rule: "each case multiplies one generated pair of operands of any kinds with matching or 1x1 shape; non-trivial: some operand contains a variable; distinct: different operand contents",
		Run: func(c *Ctx) {
			l, r := c.mulPair()
			c.bin("Multiply", l, r)
		},
	})
}

func (c *Ctx) bin(op string, l, r Val) {
	var f func() any
	ref := op
	if op == "minusFn" {
		re := r.E()
		if re == nil {
			return
		}
		f = func() any { return sym.Minus(l.E(), re) }
		ref = "Minus"
	} else {
		f = func() any { return doBin(op, l.E(), r.Obj) }
	}
	want, ok := refBin(ref, l.Ref, r.Ref)
	if !ok {
		panic("harness: incompatible pair")
	}
	res, pan := try(f)
	if pan != nil {
		c.count("refused " + op + " " + l.Kind + "," + r.Kind)
		c.w.evals++
		return
	}
	c.count("answered " + op)
	c.seen(nontrivial(l.Ref, r.Ref), op, l.Obj, r.Obj)
	c.sample("%s: (%s) and (%s) -> %s", op, str(l.Obj), str(r.Obj), str(res))
	c.expect("("+str(l.Obj)+")."+op+"("+str(r.Obj)+")", res, want, tolOne)
}
