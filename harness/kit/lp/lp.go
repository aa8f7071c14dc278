package lp

// Term is a coefficient of a variable.
type Term struct {
	Var int
	C   Q
}

// Program is a linear program over non-negative variables: minimise the cost
// subject to equations.
type Program struct {
	cost  []Q
	rows  []map[int]Q
	rhs   []Q
	basic []int
}

// Var adds a variable that is at least zero and costs c per unit.
func (p *Program) Var(c Q) int {
	p.cost = append(p.cost, c)
	return len(p.cost) - 1
}

// Equation adds Σ terms = rhs. A variable which occurs in no other equation, with a coefficient
// of the sign of rhs, may be named as the one to start with; -1 if there is none.
func (p *Program) Equation(rhs Q, start int, terms ...Term) {
	row := map[int]Q{}
	for _, t := range terms {
		if v, ok := row[t.Var]; ok {
			row[t.Var] = v.Add(t.C)
		} else {
			row[t.Var] = t.C
		}
	}
	for v, c := range row {
		if c.Sign() == 0 {
			delete(row, v)
		}
	}
	p.rows = append(p.rows, row)
	p.rhs = append(p.rhs, rhs)
	p.basic = append(p.basic, start)
}

type tableau struct {
	t     [][]Q // rows, the last column is the right hand side
	obj   []Q
	basis []int
	cols  int
}

// Solve returns the least cost, whether the equations can be met at all, and whether the cost is bounded.
func (p *Program) Solve() (least Q, values []Q, feasible, bounded bool) {
	n := len(p.cost)
	art := 0
	for _, b := range p.basic {
		if b < 0 {
			art++
		}
	}
	t := &tableau{cols: n + art, basis: make([]int, len(p.rows))}
	next := n
	for i, row := range p.rows {
		r := make([]Q, t.cols+1)
		for j := range r {
			r[j] = Int(0)
		}
		for v, c := range row {
			r[v] = c
		}
		r[t.cols] = p.rhs[i]
		b := p.basic[i]
		if b >= 0 {
			inv := r[b].Inv()
			for j := range r {
				r[j] = r[j].Mul(inv)
			}
		} else {
			if r[t.cols].Sign() < 0 {
				for j := range r {
					r[j] = r[j].Neg()
				}
			}
			r[next] = Int(1)
			b = next
			next++
		}
		if r[t.cols].Sign() < 0 {
			panic("lp: the start is not feasible")
		}
		t.t = append(t.t, r)
		t.basis[i] = b
	}
	if art > 0 {
		phase := make([]Q, t.cols)
		for j := range phase {
			phase[j] = Int(0)
			if j >= n {
				phase[j] = Int(1)
			}
		}
		t.price(phase)
		t.run(t.cols)
		if t.obj[t.cols].Sign() != 0 {
			return Int(0), nil, false, true
		}
		// drive the artificial variables out
		for i, b := range t.basis {
			if b < n {
				continue
			}
			for j := 0; j < n; j++ {
				if t.t[i][j].Sign() != 0 {
					t.pivot(i, j)
					break
				}
			}
		}
	}
	cost := make([]Q, t.cols)
	for j := range cost {
		cost[j] = Int(0)
		if j < n {
			cost[j] = p.cost[j]
		}
	}
	t.price(cost)
	if !t.run(n) {
		return Int(0), nil, true, false
	}
	values = make([]Q, n)
	for j := range values {
		values[j] = Int(0)
	}
	for i, b := range t.basis {
		if b < n {
			values[b] = t.t[i][t.cols]
		}
	}
	return t.obj[t.cols].Neg(), values, true, true
}

// price sets up the row of reduced costs; its last entry is minus the cost.
func (t *tableau) price(cost []Q) {
	t.obj = append(append([]Q{}, cost...), Int(0))
	for i, b := range t.basis {
		c := t.obj[b]
		if c.Sign() == 0 {
			continue
		}
		for j, v := range t.t[i] {
			if v.Sign() != 0 {
				t.obj[j] = t.obj[j].Sub(c.Mul(v))
			}
		}
	}
}

func (t *tableau) run(cols int) bool {
	stalled := 0
	for {
		enter := -1
		for j := 0; j < cols; j++ {
			if t.obj[j].Sign() < 0 && (enter < 0 || stalled < 20 && t.obj[j].Cmp(t.obj[enter]) < 0) {
				enter = j
				if stalled >= 20 { // Bland's rule, which cannot cycle
					break
				}
			}
		}
		if enter < 0 {
			return true
		}
		leave := -1
		var best Q
		for i := range t.t {
			if t.t[i][enter].Sign() <= 0 {
				continue
			}
			ratio := t.t[i][t.cols].Mul(t.t[i][enter].Inv())
			if leave >= 0 {
				c := ratio.Cmp(best)
				if c > 0 || c == 0 && t.basis[i] > t.basis[leave] {
					continue
				}
			}
			leave, best = i, ratio
		}
		if leave < 0 {
			return false
		}
		if best.Sign() == 0 {
			stalled++
		} else {
			stalled = 0
		}
		t.pivot(leave, enter)
	}
}

func (t *tableau) pivot(r, c int) {
	inv := t.t[r][c].Inv()
	var nz []int
	for j, v := range t.t[r] {
		if v.Sign() != 0 {
			t.t[r][j] = v.Mul(inv)
			nz = append(nz, j)
		}
	}
	for i := range t.t {
		if i == r || t.t[i][c].Sign() == 0 {
			continue
		}
		f := t.t[i][c]
		for _, j := range nz {
			t.t[i][j] = t.t[i][j].Sub(f.Mul(t.t[r][j]))
		}
	}
	if f := t.obj[c]; f.Sign() != 0 {
		for _, j := range nz {
			t.obj[j] = t.obj[j].Sub(f.Mul(t.t[r][j]))
		}
	}
	t.basis[r] = c
}
