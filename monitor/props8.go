package main

// The printed text (S20).

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	sym "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
)

// reading: how a name in the text is read
type reading map[string]uint64

var (
	numRe  = regexp.MustCompile(`^[0-9]+(\.[0-9]+)?([eE][-+]?[0-9]+)?`)
	nameRe = regexp.MustCompile(`^[A-Za-z](_[0-9]+)?`)
	expRe  = regexp.MustCompile(`^\s*(\^|\*\*)\s*([0-9]+)`)
)

// parsePoly reads a sum of terms: optional sign, optional number, then
// juxtaposed (or *-separated) names with optional ^exponent.
func (rd reading) parsePoly(s string) (RPoly, error) {
	out := RPoly{}
	s = strings.TrimSpace(s)
	if s == "" {
		return nil, fmt.Errorf("empty text")
	}
	first := true
	for s != "" {
		sign := 1.0
		seenSign := false
		for s != "" && (s[0] == '+' || s[0] == '-' || s[0] == ' ') {
			if s[0] == '-' {
				sign = -sign
			}
			if s[0] != ' ' {
				seenSign = true
			}
			s = s[1:]
		}
		if !first && !seenSign {
			return nil, fmt.Errorf("two terms without a sign before %q", s)
		}
		first = false
		coef := sign
		got := false
		term := rConst(1)
		if m := numRe.FindString(s); m != "" {
			x, err := strconv.ParseFloat(m, 64)
			if err != nil {
				return nil, err
			}
			coef *= x
			s = s[len(m):]
			got = true
		}
		for {
			t := strings.TrimLeft(s, " *")
			m := nameRe.FindString(t)
			for name := range rd {
				if len(name) > len(m) && strings.HasPrefix(t, name) {
					m = name
				}
			}
			if m == "" {
				break
			}
			id, ok := rd[m]
			if !ok {
				return nil, fmt.Errorf("unknown name %q", m)
			}
			s = t[len(m):]
			e := 1
			if em := expRe.FindStringSubmatch(s); em != nil {
				e, _ = strconv.Atoi(em[2])
				s = s[len(em[0]):]
			}
			if e > 0 {
				pw := RPoly{}
				pw.addTerm([]Fac{{id, e}}, 1, 1)
				term = rMul(term, pw)
			}
			got = true
		}
		if !got {
			return nil, fmt.Errorf("no term at %q", clip(s, 40))
		}
		out = rAdd(out, rMul(term, rConst(coef)))
		s = strings.TrimLeft(s, " \t\n")
		if s != "" && s[0] != '+' && s[0] != '-' {
			return nil, fmt.Errorf("unexpected text %q", clip(s, 40))
		}
	}
	return out, nil
}

// parse reads a printed expression of the given shape.
func (rd reading) parse(s string, scalar bool) (RMat, error) {
	if i := strings.Index(s, "="); i >= 0 {
		s = s[i+1:]
	}
	s = strings.TrimSpace(s)
	if scalar || !strings.Contains(s, "[") {
		p, err := rd.parsePoly(s)
		if err != nil {
			return RMat{}, err
		}
		return RMat{1, 1, []RPoly{p}}, nil
	}
	// the innermost brackets are the rows (of a vector: the column)
	var rows [][]RPoly
	start := -1
	depth, max := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '[':
			start = i + 1
			depth++
			if depth > max {
				max = depth
			}
		case ']':
			depth--
			if start >= 0 {
				var row []RPoly
				for _, e := range strings.Split(s[start:i], ",") {
					p, err := rd.parsePoly(e)
					if err != nil {
						return RMat{}, err
					}
					row = append(row, p)
				}
				rows = append(rows, row)
				start = -1
			}
		}
	}
	if len(rows) == 0 {
		return RMat{}, fmt.Errorf("no entries")
	}
	if max == 1 { // a vector
		return RMat{len(rows[0]), 1, rows[0]}, nil
	}
	out := newRMat(len(rows), len(rows[0]))
	for i, r := range rows {
		if len(r) != len(rows[0]) {
			return RMat{}, fmt.Errorf("row %d has %d entries", i, len(r))
		}
		for j := range r {
			out.set(i, j, r[j])
		}
	}
	return out, nil
}

func runPrint(c *Ctx) {
	if c.p(0.04) { // names with signs that mean something to the formatter
		for i := range c.Vars {
			if i >= len(varNames) {
				break
			}
			v := &c.Vars[i]
			if c.p(0.7) {
				v.Name = varNames[i] + []string{"%", "%d", "%v", "%s", "%%", "%!", "%q_1", "_%d", "é", "λ", "'", "\\n", "\"", "$1", "{", "&lt;", "~"}[c.n(17)]
			}
		}
		c.count("unusual names")
	}
	// names differ
	rd := reading{}
	for _, v := range c.Vars {
		if _, dup := rd[v.Name]; dup {
			c.count("names not distinct")
			return
		}
		rd[v.Name] = v.ID
	}
	if c.MaxExp == 9 && c.p(0.5) {
		c.MaxExp = 25
	}
	if c.p(0.2) {
		c.printConstraint(rd)
		return
	}
	v := c.anyExpr()
	if c.p(0.4) { // a computed expression
		if _, l, r, f := c.anyBin(); true {
			_ = l
			_ = r
			if res, pan := try(f); pan == nil {
				if e, ok := res.(sym.Expression); ok {
					if m, err := toRef(e); err == nil {
						v = Val{e, kindOf(e), m}
					}
				}
			}
		}
	}
	if c.p(0.3) {
		d, pan := try(func() any { return v.E().Transpose() })
		if pan == nil {
			if m, err := toRef(d); err == nil {
				v = Val{d, kindOf(d), m}
			}
		}
	}
	var text string
	var how string
	switch c.n(3) {
	case 0:
		how = "String"
	case 1:
		how = "%v"
	default:
		how = "%s"
	}
	what := fmt.Sprintf("the text (%s) of %s", how, str(v.Obj))
	res, ok := c.must(what, func() any {
		if how == "String" {
			return v.E().String()
		}
		return fmt.Sprintf(how, v.Obj)
	})
	c.seen(nontrivial(v.Ref), v.Obj)
	if !ok {
		return
	}
	text = res.(string)
	c.count(v.Kind)
	c.sample("%s -> %q", str(v.Obj), text)
	got, err := rd.parse(text, isScalarKind(v.Kind))
	if err != nil {
		c.fail("%s, %q, cannot be read back: %v", what, text, err)
		return
	}
	if d := mDiff(got, v.Ref, tolOne); d != "" {
		c.fail("%s is %q, which reads as %s\n   %s", what, text, got, d)
	}
}

func (c *Ctx) printConstraint(rd reading) {
	l, r := c.scalar(), c.scalar()
	s := c.sense()
	var con sym.ScalarConstraint
	if c.p(0.5) {
		con = sym.ScalarConstraint{LeftHandSide: l.Obj.(sym.ScalarExpression), RightHandSide: r.Obj.(sym.ScalarExpression), Sense: s}
	} else {
		x, pan := try(func() any { return c.compare(l.E(), r.Obj, s) })
		k, ok := x.(sym.ScalarConstraint)
		if pan != nil || !ok {
			return
		}
		con = k
	}
	la, ra, _ := sidesOf(con)
	what := "the text of the constraint " + show(con)
	res, ok := c.must(what, func() any {
		if c.p(0.5) {
			return fmt.Sprint(con)
		}
		return con.String()
	})
	c.seen(true, con)
	if !ok {
		return
	}
	text := res.(string)
	c.count("constraint")
	rel := map[sym.ConstrSense][]string{sym.SenseLessThanEqual: {"<="}, sym.SenseGreaterThanEqual: {">="}, sym.SenseEqual: {"==", "="}}[s]
	for _, w := range rel {
		i := strings.Index(text, " "+w+" ")
		if i < 0 {
			continue
		}
		gl, e1 := rd.parse(text[:i], true)
		gr, e2 := rd.parse(text[i+len(w)+2:], true)
		ml, _ := toRef(la)
		mr, _ := toRef(ra)
		if e1 != nil || e2 != nil {
			c.fail("%s, %q, cannot be read back: %v %v", what, text, e1, e2)
			return
		}
		if d := mDiff(gl, ml, tolOne); d != "" {
			c.fail("%s is %q; left: %s", what, text, d)
		}
		if d := mDiff(gr, mr, tolOne); d != "" {
			c.fail("%s is %q; right: %s", what, text, d)
		}
		return
	}
	c.fail("%s, %q, shows no relation %v between the sides", what, text, rel)
}

func init() {
	register(&Prop{ID: "S20", Quick: 3200000, Thorough: 24000000, Run: runPrint,
		Rule: "one generated or computed expression of any kind (or scalar constraint) printed and read back by an independent parser; non-trivial: a variable occurs; distinct: contents"})
}
