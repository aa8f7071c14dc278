// C09: the constraint solver is feasible, optimal, and reports conflicts.
package c09

import (
	"errors"
	"fmt"
	"math"
	"testing"

	"github.com/metafates/bento/internal/casso"
	"github.com/metafates/bento/verif/kit"
	"github.com/metafates/bento/verif/kit/lp"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { kit.Main(m) }

// linear is Σ coef·var + constant (op) 0 with a strength; coefficients are halves.
type linear struct {
	coef     []int
	constant int
	op       casso.RelationOperator
	strength int64 // 0: required
}

func (l linear) String() string {
	op := map[casso.RelationOperator]string{casso.RelationOperatorEqual: "=", casso.RelationOperatorLessThanEqual: "<=", casso.RelationOperatorGreaterThanEqual: ">="}[l.op]
	s := "required"
	if l.strength > 0 {
		s = fmt.Sprint(l.strength)
	}
	return fmt.Sprintf("{%v/2·x %+d/2 %s 0 @%s}", l.coef, l.constant, op, s)
}

func (l linear) at(x []float64) float64 {
	v := float64(l.constant) / 2
	for i, c := range l.coef {
		v += float64(c) / 2 * x[i]
	}
	return v
}

// violation is how far x is from meeting the constraint.
func (l linear) violation(x []float64) float64 {
	v := l.at(x)
	switch l.op {
	case casso.RelationOperatorLessThanEqual:
		return max(0, v)
	case casso.RelationOperatorGreaterThanEqual:
		return max(0, -v)
	}
	return math.Abs(v)
}

// reference solves the constraints exactly.
func reference(vars int, cs []linear) (least lp.Q, feasible bool) {
	p := &lp.Program{}
	var pos, neg []int
	for range vars {
		pos = append(pos, p.Var(lp.Int(0)))
		neg = append(neg, p.Var(lp.Int(0)))
	}
	for _, c := range cs {
		var terms []lp.Term
		for i, k := range c.coef {
			if k != 0 {
				terms = append(terms, lp.Term{Var: pos[i], C: lp.Int(int64(k))}, lp.Term{Var: neg[i], C: lp.Int(int64(-k))})
			}
		}
		rhs := lp.Int(int64(-c.constant))
		start := -1
		// over: left side too large, under: too small
		if c.strength == 0 {
			switch c.op {
			case casso.RelationOperatorLessThanEqual:
				under := p.Var(lp.Int(0))
				terms = append(terms, lp.Term{Var: under, C: lp.Int(1)})
				if rhs.Sign() >= 0 {
					start = under
				}
			case casso.RelationOperatorGreaterThanEqual:
				over := p.Var(lp.Int(0))
				terms = append(terms, lp.Term{Var: over, C: lp.Int(-1)})
				if rhs.Sign() <= 0 {
					start = over
				}
			}
		} else {
			up, down := lp.Int(c.strength), lp.Int(c.strength)
			if c.op == casso.RelationOperatorLessThanEqual {
				down = lp.Int(0)
			}
			if c.op == casso.RelationOperatorGreaterThanEqual {
				up = lp.Int(0)
			}
			over, under := p.Var(up), p.Var(down)
			terms = append(terms, lp.Term{Var: over, C: lp.Int(-1)}, lp.Term{Var: under, C: lp.Int(1)})
			start = under
			if rhs.Sign() < 0 {
				start = over
			}
		}
		p.Equation(rhs, start, terms...)
	}
	least, _, feasible, bounded := p.Solve()
	if !bounded {
		panic("unbounded")
	}
	return least, feasible // in halves
}

// build makes the constraint in one of the ways the package offers.
func build(t *rapid.T, l linear, vars []casso.Variable) casso.Constraint {
	strength := casso.Required
	if l.strength > 0 {
		strength = casso.Strength(l.strength)
	}
	rel := casso.WeightedRelation{Operator: l.op, Strength: strength}
	var left, right []casso.Term
	for i, c := range l.coef {
		if c == 0 {
			continue
		}
		k := float64(c) / 2
		if rapid.IntRange(0, 2).Draw(t, "side") == 0 {
			right = append(right, casso.NewTerm(vars[i], -k))
		} else {
			left = append(left, casso.NewTerm(vars[i], k))
		}
	}
	constant := float64(l.constant) / 2
	if len(right) == 1 && right[0].Coefficient == 1 && rapid.Bool().Draw(t, "variable") {
		return rel.ExpressionLHS(casso.NewExpression(constant, left...)).VariableRHS(right[0].Variable)
	}
	if len(right) == 0 && rapid.Bool().Draw(t, "constant") {
		e := casso.NewExpression(0, left...)
		if len(left) == 1 && left[0].Coefficient == 1 {
			return rel.VariableLHS(left[0].Variable).ConstantRHS(-constant)
		}
		return rel.ExpressionLHS(e).ConstantRHS(-constant)
	}
	// both sides scaled, and scaled back by hand
	lhs, rhs := casso.NewExpression(constant, left...), casso.NewExpression(0, right...)
	if rapid.IntRange(0, 3).Draw(t, "scaled") == 0 {
		half := make([]casso.Term, len(left))
		for i, term := range left {
			half[i] = casso.NewTerm(term.Variable, term.Coefficient/4)
		}
		lhs = casso.NewExpression(constant/4, half...).MulConstant(8).DivConstant(2)
	}
	return rel.ExpressionLHS(lhs).ExpressionRHS(rhs)
}

func property(t *rapid.T) {
	n := rapid.IntRange(1, 5).Draw(t, "vars")
	vars := make([]casso.Variable, n)
	for i := range vars {
		vars[i] = casso.NewVariable()
	}
	// tight constraints meet in the same points, so that many bases describe one solution
	tight := rapid.IntRange(0, 2).Draw(t, "tight") == 1
	one := rapid.Custom(func(t *rapid.T) linear {
		l := linear{
			coef:     make([]int, n),
			constant: rapid.OneOf(rapid.IntRange(-10, 10), rapid.IntRange(-400, 400)).Draw(t, "constant"),
			op:       rapid.SampledFrom([]casso.RelationOperator{casso.RelationOperatorEqual, casso.RelationOperatorLessThanEqual, casso.RelationOperatorGreaterThanEqual}).Draw(t, "op"),
		}
		for k := rapid.IntRange(1, 3).Draw(t, "terms"); k > 0; k-- {
			l.coef[rapid.IntRange(0, n-1).Draw(t, "var")] = rapid.OneOf(rapid.SampledFrom([]int{2, -2}), rapid.IntRange(-6, 6)).Draw(t, "coef")
		}
		if tight {
			for i, c := range l.coef {
				l.coef[i] = 2 * min(1, max(-1, c))
			}
			l.constant = rapid.SampledFrom([]int{0, 0, 2, -2, 4, -4}).Draw(t, "tightConstant")
		}
		if rapid.IntRange(0, 2).Draw(t, "soft") > 0 {
			l.strength = rapid.SampledFrom([]int64{1, 10, 100, 1000, 100_000, 1_000_000}).Draw(t, "strength")
		}
		return l
	})
	list := rapid.SliceOfN(one, 1, 12).Draw(t, "constraints")
	desc := fmt.Sprintf("%d variables %v", n, list)
	kit.Journal(desc)

	kit.Guard(desc, func() {
		solver := casso.NewSolver()
		seen := make([]float64, n)
		outcome := "accepted"
		soft := false
		var strength int64
		for i := 0; i < len(list); {
			if rapid.IntRange(0, 19).Draw(t, "reset") == 13 {
				solver.Reset()
				list = list[i:]
				seen = make([]float64, n)
				t.Logf("reset")
				outcome += ""
				// start over with what is left
				kit.Class("reset")
				rest(t, desc, &solver, vars, list)
				outcome = "reset"
				break
			}
			c := build(t, list[i], vars)
			added := []casso.Constraint{c}
			if i+1 < len(list) && rapid.IntRange(0, 5).Draw(t, "together") == 3 {
				for k := rapid.IntRange(1, min(3, len(list)-1-i)).Draw(t, "more"); k > 0; k-- {
					c = build(t, list[i+len(added)], vars)
					added = append(added, c)
				}
			}
			var err error
			if len(added) > 1 {
				t.Logf("#%d to #%d are added together", i, i+len(added)-1)
				err = solver.AddConstraints(added...)
			} else {
				err = solver.AddConstraint(c)
			}
			for _, l := range list[i : i+len(added)] {
				if l.strength > 0 {
					soft = true
				}
				strength = max(strength, l.strength)
			}
			i += len(added)
			least, feasible := reference(n, list[:i])
			if !feasible {
				if !errors.Is(err, casso.ErrUnsatisfiableConstraint) {
					t.Fatalf("%s: #%d conflicts with other required ones but the result is %v", desc, i-1, err)
				}
				outcome = "rejected"
				break
			}
			if err != nil {
				t.Fatalf("%s: #%d can be met, error %v", desc, i-1, err)
			}
			check(t, desc, &solver, vars, list[:i], least, strength)
			if rapid.IntRange(0, 2).Draw(t, "fetch") == 0 {
				fetch(t, desc, &solver, vars, seen)
			}
			if rapid.IntRange(0, 9).Draw(t, "again") == 7 {
				if err := solver.AddConstraint(c); !errors.Is(err, casso.ErrDuplicateConstraint) {
					t.Fatalf("%s: adding #%d twice gives %v", desc, i-1, err)
				}
			}
		}
		if outcome == "accepted" {
			fetch(t, desc, &solver, vars, seen)
		}
		kit.Case(desc, len(list) > 2 && soft, outcome)
	})
}

func rest(t *rapid.T, desc string, solver *casso.Solver, vars []casso.Variable, list []linear) {
	seen := make([]float64, len(vars))
	var strength int64
	for i, l := range list {
		err := solver.AddConstraint(build(t, l, vars))
		least, feasible := reference(len(vars), list[:i+1])
		if !feasible {
			if !errors.Is(err, casso.ErrUnsatisfiableConstraint) {
				t.Fatalf("%s: after a reset #%d conflicts but the result is %v", desc, i, err)
			}
			return
		}
		if err != nil {
			t.Fatalf("%s: after a reset #%d can be met, error %v", desc, i, err)
		}
		strength = max(strength, l.strength)
		check(t, desc, solver, vars, list[:i+1], least, strength)
	}
	fetch(t, desc, solver, vars, seen)
}

// check compares the values of the variables with the constraints.
func check(t *rapid.T, desc string, solver *casso.Solver, vars []casso.Variable, cs []linear, least lp.Q, strength int64) {
	x := make([]float64, len(vars))
	for i, v := range vars {
		x[i] = solver.GetValue(v)
	}
	total := 0.0
	for i, c := range cs {
		v := c.violation(x)
		if c.strength == 0 && v > 1e-6 {
			t.Fatalf("%s: after %d constraints the required #%d is violated by %g; x=%v", desc, len(cs), i, v, x)
		}
		total += v * float64(c.strength)
	}
	want := least.Float() / 2
	if tolerance := 1e-7 + 1e-9*want + 1e-8*float64(strength); math.Abs(total-want) > tolerance {
		t.Fatalf("%s: after %d constraints the weighted violation is %g, the least possible is %g; x=%v", desc, len(cs), total, want, x)
	}
}

// fetch follows the values of variables by the changes reported alone.
func fetch(t *rapid.T, desc string, solver *casso.Solver, vars []casso.Variable, seen []float64) {
	told := map[casso.Variable]bool{}
	for _, c := range solver.FetchChanges() {
		known := false
		for i, v := range vars {
			if v == c.Variable {
				seen[i] = c.Constant
				known = true
			}
		}
		if !known {
			t.Fatalf("%s: a change of variable %d is reported, which is in no constraint", desc, c.Variable)
		}
		if told[c.Variable] {
			t.Fatalf("%s: a change of variable %d is reported twice", desc, c.Variable)
		}
		told[c.Variable] = true
	}
	for i, v := range vars {
		if got := solver.GetValue(v); got != seen[i] {
			t.Fatalf("%s: variable #%d is %v, the changes reported say %v", desc, i, got, seen[i])
		}
	}
}

func TestProperty(t *testing.T) { rapid.Check(t, property) }

// expressions derives expressions from each other; each must stay what it was and mean what the operation says.
func expressions(t *rapid.T) {
	const n = 3
	point := [n]float64{3, 50, 700}
	vars := [n]casso.Variable{casso.NewVariable(), casso.NewVariable(), casso.NewVariable()}
	eval := func(e casso.Expression) float64 {
		sum := e.Constant
		for _, term := range e.Terms {
			for i, v := range vars {
				if v == term.Variable {
					sum += term.Coefficient * point[i]
				}
			}
		}
		return sum
	}
	type known struct {
		e    casso.Expression
		want float64
	}
	index := rapid.IntRange(0, n-1)
	number := rapid.SampledFrom([]float64{-2, 1, 2, 4, 0.5})
	pool := []known{}
	for range rapid.IntRange(1, 2).Draw(t, "bases") {
		i := index.Draw(t, "i")
		pool = append(pool, known{casso.NewExpressionFromTerm(casso.NewTerm(vars[i], 2)), 2 * point[i]})
	}
	i, j := index.Draw(t, "i"), index.Draw(t, "j")
	pool = append(pool, known{vars[i].Sub(vars[j]), point[i] - point[j]})
	pool = append(pool, known{casso.NewExpressionFromConstant(5), 5})
	history := ""
	uses := map[int]int{}
	for range rapid.IntRange(2, 10).Draw(t, "steps") {
		from := rapid.IntRange(0, len(pool)-1).Draw(t, "from")
		uses[from]++
		k := pool[from]
		var next known
		switch op := rapid.IntRange(0, 5).Draw(t, "op"); op {
		case 0:
			c := number.Draw(t, "c")
			next = known{k.e.SubConstant(c), k.want - c}
			history += fmt.Sprintf(" #%d-%v", from, c)
		case 1:
			with := rapid.IntRange(0, len(pool)-1).Draw(t, "with")
			next = known{k.e.Sub(pool[with].e), k.want - pool[with].want}
			history += fmt.Sprintf(" #%d-#%d", from, with)
		case 2:
			v := index.Draw(t, "v")
			next = known{k.e.SubVariable(vars[v]), k.want - point[v]}
			history += fmt.Sprintf(" #%d-x%d", from, v)
		case 3:
			c := number.Draw(t, "c")
			next = known{k.e.MulConstant(c), k.want * c}
			history += fmt.Sprintf(" #%d*%v", from, c)
		case 4:
			c := number.Draw(t, "c")
			next = known{k.e.DivConstant(c), k.want / c}
			history += fmt.Sprintf(" #%d/%v", from, c)
		case 5:
			next = known{k.e.Negate(), -k.want}
			history += fmt.Sprintf(" -#%d", from)
		}
		pool = append(pool, next)
		for i, k := range pool {
			if got := eval(k.e); math.Abs(got-k.want) > 1e-6*(1+math.Abs(k.want)) {
				t.Fatalf("expression #%d is %v, not %v, after%s", i, got, k.want, history)
			}
		}
	}
	shared := false
	for _, u := range uses {
		shared = shared || u > 1
	}
	kit.Case(fmt.Sprint(i, j, history), shared, "expressions")
}

func TestExpressions(t *testing.T) { rapid.Check(t, expressions) }
