package main

// Variables: identity, environments, and their data in results (S19).

import (
	"fmt"
	"math"
	"sync"

	sym "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
)

// myEnv is an environment that a user might write.
type myEnv struct {
	name string
	by   map[uint64]sym.Variable
	ids  []uint64
}

func (e *myEnv) GetName() string { return e.name }
func (e *myEnv) TrackVariable(v sym.Variable) bool {
	if _, ok := e.by[v.ID]; ok {
		return false
	}
	e.by[v.ID] = v
	e.ids = append(e.ids, v.ID)
	return true
}
func (e *myEnv) AllTrackedVariables() []sym.Variable {
	var out []sym.Variable
	for _, id := range e.ids {
		out = append(out, e.by[id])
	}
	return out
}

var defaultEnvMu sync.Mutex

type envState struct {
	env  sym.Environment // nil: the default environment, given by no argument
	want []sym.Variable  // what it has to track, in order
	ids  map[uint64]bool
	own  *sym.BasicEnvironment
}

func (s *envState) args() []sym.Environment {
	if s.env == nil {
		return nil
	}
	return []sym.Environment{s.env}
}

func (s *envState) tracked() []sym.Variable {
	if s.env == nil {
		return sym.DefaultEnvironment.AllTrackedVariables()
	}
	return s.env.AllTrackedVariables()
}

func runVariables(c *Ctx) {
	if c.p(0.4) {
		c.environments()
	} else {
		c.preserved()
	}
}

func (c *Ctx) environments() {
	n := 1 + c.n(3)
	var ss []*envState
	for i := 0; i < n; i++ {
		s := &envState{ids: map[uint64]bool{}}
		name := []string{"env", fmt.Sprintf("env%d", i)}[c.n(2)]
		switch {
		case c.p(0.2):
			s.env = &myEnv{name: name, by: map[uint64]sym.Variable{}}
		default:
			e := sym.MakeBasicEnvironment(name)
			s.own = &e
			s.env = &e
		}
		if got := s.env.GetName(); got != name {
			c.fail("an environment made with the name %q is named %q", name, got)
			return
		}
		if k := len(s.tracked()); k != 0 {
			c.fail("a new environment tracks %d variables", k)
			return
		}
		ss = append(ss, s)
	}
	if c.p(0.1) {
		defaultEnvMu.Lock()
		defer defaultEnvMu.Unlock()
		s := &envState{ids: map[uint64]bool{}}
		for _, v := range s.tracked() {
			s.want = append(s.want, v)
			s.ids[v.ID] = true
		}
		if len(s.want) > 300 { // keep it small
			sym.DefaultEnvironment = sym.MakeBasicEnvironment("DefaultEnvironment")
			s.want, s.ids = nil, map[uint64]bool{}
		}
		ss = append(ss, s)
	}
	same := func(a, b sym.Variable) bool {
		return a == b
	}
	check := func(what string) bool {
		for i, s := range ss {
			got := s.tracked()
			if len(got) != len(s.want) {
				c.fail("after %s, environment %d tracks %d variables instead of %d", what, i, len(got), len(s.want))
				return false
			}
			for k := range got {
				if !same(got[k], s.want[k]) {
					c.fail("after %s, environment %d tracks %+v at place %d instead of %+v", what, i, noEnv(got[k]), k, noEnv(s.want[k]))
					return false
				}
			}
		}
		return true
	}
	steps := 3 + c.n(12)
	var log []string
	for st := 0; st < steps; st++ {
		si := c.n(len(ss))
		s := ss[si]
		var news []sym.Variable
		what := ""
		lo, hi, typ := math.Inf(-1), math.Inf(1), sym.Continuous
		a, b := 1+c.n(4), 1+c.n(3)
		if c.p(0.02) {
			a, b = 9+c.n(40), 1+c.n(14)
		}
		switch c.n(9) {
		case 0, 1:
			what = "NewVariable"
			news = []sym.Variable{sym.NewVariable(s.args()...)}
		case 2:
			what = "NewContinuousVariable"
			news = []sym.Variable{sym.NewContinuousVariable(s.args()...)}
		case 3:
			what = "NewBinaryVariable"
			lo, hi, typ = 0, 1, sym.Binary
			news = []sym.Variable{sym.NewBinaryVariable(s.args()...)}
		case 4:
			what = "NewVariableVector"
			v := sym.NewVariableVector(a, s.args()...)
			if len(v) != a {
				c.fail("NewVariableVector(%d) has %d entries", a, len(v))
				return
			}
			news = v
		case 5, 6:
			what = "NewVariableMatrix"
			f := sym.NewVariableMatrix
			if c.p(0.5) {
				f, what = sym.NewVariableMatrixClassic, "NewVariableMatrixClassic"
			}
			m := f(a, b, s.args()...)
			if len(m) != a {
				c.fail("%s(%d, %d) has %d rows", what, a, b, len(m))
				return
			}
			for _, r := range m {
				if len(r) != b {
					c.fail("%s(%d, %d) has a row of %d", what, a, b, len(r))
					return
				}
				news = append(news, r...)
			}
		default: // a user tracks a variable
			if s.env == nil {
				continue
			}
			id := uint64(c.n(12))
			if c.p(0.3) {
				id = c.u64()
			}
			if c.p(0.12) {
				// a run of successive identifiers, in some order
				n := 2 + c.n(40)
				first := uint64(c.n(60))
				if c.p(0.5) {
					first = uint64(len(s.want)) + uint64(n*c.n(2)) + uint64(c.n(3))
				}
				order := c.perm(n)
				sorted := c.p(0.5)
				c.count("runs of tracked identifiers")
				for k := 0; k < n; k++ {
					id := first + uint64(k)
					if !sorted {
						id = first + uint64(order[k])
					}
					v := sym.Variable{ID: id, Lower: -1, Upper: 4, Type: sym.Integer, Name: "mine", Environment: s.env}
					if ok := s.env.TrackVariable(v); s.own != nil && ok == s.ids[id] {
						c.fail("TrackVariable said %v, but the id %d is new: %v", ok, id, !s.ids[id])
						return
					}
					if !s.ids[id] {
						s.ids[id] = true
						s.want = append(s.want, v)
					}
				}
				what = fmt.Sprintf("TrackVariable of %d ids from %d", n, first)
				log = append(log, what)
				if !check(what) {
					return
				}
				continue
			}
			v := sym.Variable{ID: id, Lower: -1, Upper: 4, Type: sym.Integer, Name: "mine", Environment: s.env}
			fresh := !s.ids[id]
			what = fmt.Sprintf("TrackVariable of id %d", id)
			log = append(log, what)
			ok := s.env.TrackVariable(v)
			c.count("TrackVariable")
			if s.own != nil && ok != fresh {
				c.fail("%s said %v, but the id is new: %v", what, ok, fresh)
				return
			}
			if fresh {
				s.ids[id] = true
				s.want = append(s.want, v)
			}
			if !check(what) {
				return
			}
			continue
		}
		log = append(log, fmt.Sprintf("%s in %d", what, si))
		c.count(what)
		for _, v := range news {
			env := s.env
			if env == nil {
				env = &sym.DefaultEnvironment
			}
			if s.ids[v.ID] {
				c.fail("%s gave the identifier %d, which the environment already tracks (%v)", what, v.ID, log)
				return
			}
			if v.Lower != lo && !(v.Lower < -1e99 && math.IsInf(lo, -1)) || v.Upper != hi && !(v.Upper > 1e99 && math.IsInf(hi, 1)) || v.Type != typ || v.Environment != env {
				c.fail("%s gave a variable with %+v", what, noEnv(v))
				return
			}
			if err := v.Check(); err != nil {
				c.fail("%s gave an invalid variable: %v", what, err)
				return
			}
			s.ids[v.ID] = true
			s.want = append(s.want, v)
		}
		if !check(what) {
			return
		}
	}
	// names of the variables that the library names differ
	for _, s := range ss {
		names := map[string]uint64{}
		for _, v := range s.want {
			if v.Name == "mine" {
				continue
			}
			if o, ok := names[v.Name]; ok && o != v.ID {
				c.fail("two variables of one environment are both named %q (ids %d and %d): %v", v.Name, o, v.ID, log)
				return
			}
			names[v.Name] = v.ID
		}
	}
	c.seen(true, log)
	c.sample("environments: %v", log)
}

func noEnv(v sym.Variable) string {
	return fmt.Sprintf("{ID %d Lower %v Upper %v Type %v Name %q Env %p}", v.ID, v.Lower, v.Upper, v.Type, v.Name, v.Environment)
}

// preserved: every variable in a result is one of the operands' variables.
func (c *Ctx) preserved() {
	p := newPool(c)
	known := map[uint64]sym.Variable{}
	conflict := false
	learn := func(x any) {
		for _, v := range varsIn(x) {
			if o, ok := known[v.ID]; ok && o != v {
				conflict = true
			}
			known[v.ID] = v
		}
	}
	for _, x := range p.roots() {
		learn(x)
	}
	tracked := hashVars(c.Env.AllTrackedVariables())
	steps := 3 + c.n(10)
	var log []string
	for i := 0; i < steps; i++ {
		k := p.next()
		if k == nil {
			continue
		}
		for _, a := range k.args {
			learn(a)
		}
		if conflict {
			c.count("conflicting data")
			return
		}
		res, pan := k.exec()
		log = append(log, k.name)
		if pan != nil {
			continue
		}
		n := 0
		for _, x := range res {
			for _, v := range varsIn(x) {
				n++
				o, ok := known[v.ID]
				if !ok {
					c.fail("%s gave %s, with the variable %s, which is none of the operands'", k.desc(), show(x), noEnv(v))
					return
				}
				if o != v {
					c.fail("%s gave %s, with the variable %s, which is %s in the operands", k.desc(), show(x), noEnv(v), noEnv(o))
					return
				}
			}
			p.add(x)
		}
		c.countN("variables of results compared", n)
		c.count(k.name)
	}
	if h := hashVars(c.Env.AllTrackedVariables()); h != tracked {
		c.fail("the environment's variables changed by operations on expressions: %v", log)
		return
	}
	c.seen(len(log) > 0, log, c.Idx)
}

func hashVars(l []sym.Variable) uint64 { return deepHash(l) }

func init() {
	register(&Prop{ID: "S19", Quick: 960000, Thorough: 7200000, Run: runVariables,
		Rule: "40 %: a history of creating variables, vectors and matrices of variables and tracking user-made ones in 1 to 4 environments (library, user-written, default), the tracked variables compared with a model after every step; 60 %: a history of operations, every Variable in every result compared with the operands'; distinct: histories"})
}
