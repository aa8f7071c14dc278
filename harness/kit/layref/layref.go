// Package layref is a reference model of the layout: which sizes are an optimal compromise
// between weighted constraints, solved exactly.
package layref

import (
	"github.com/metafates/bento"
	"github.com/metafates/bento/verif/kit/lp"
)

// Weights of the constraints, by priority.
const (
	edge       = 1_001_000_999 // the outermost spacers are empty
	spacer     = 100_100_100
	limit      = 100_000_000
	length     = 10_000_000
	percentage = 1_000_000
	ratio      = 100_000
	preference = 10_000
	fill       = 1_000
	grow       = 100
	spaceGrow  = 10
	equalGrow  = 1
)

type op int

const (
	eq op = iota
	le
	ge
)

// soft is: coefficients · positions (op) rhs, at a weight.
type soft struct {
	c      map[int]lp.Q
	op     op
	rhs    lp.Q
	weight int64
}

// Model is the set of constraints of a layout in an area of a given size. Positions are the starts and ends
// of the segments, in hundredths of a cell.
type Model struct {
	n     int
	size  int64
	softs []soft
}

type expr struct {
	c map[int]lp.Q
	k lp.Q
}

func (e expr) scaled(q lp.Q) expr {
	out := expr{c: map[int]lp.Q{}, k: e.k.Mul(q)}
	for v, c := range e.c {
		out.c[v] = c.Mul(q)
	}
	return out
}

func (e expr) minus(f expr) expr {
	out := expr{c: map[int]lp.Q{}, k: e.k.Sub(f.k)}
	for v, c := range e.c {
		out.c[v] = c
	}
	for v, c := range f.c {
		if o, ok := out.c[v]; ok {
			out.c[v] = o.Sub(c)
		} else {
			out.c[v] = c.Neg()
		}
	}
	return out
}

func number(k lp.Q) expr { return expr{c: map[int]lp.Q{}, k: k} }

func (m *Model) add(lhs expr, o op, rhs expr, weight int64) {
	d := lhs.minus(rhs)
	m.softs = append(m.softs, soft{c: d.c, op: o, rhs: d.k.Neg(), weight: weight})
}

// position 0 is the start, 1..2n the segments' starts and ends, 2n+1 the end of the area.
func (m *Model) position(i int) expr {
	switch i {
	case 0:
		return number(lp.Int(0))
	case 2*m.n + 1:
		return number(lp.Int(m.size))
	}
	return expr{c: map[int]lp.Q{i - 1: lp.Int(1)}, k: lp.Int(0)}
}

func (m *Model) segment(i int) expr { return m.position(2*i + 2).minus(m.position(2*i + 1)) }
func (m *Model) spacer(i int) expr  { return m.position(2*i + 1).minus(m.position(2 * i)) }

func cells(n int) expr { return number(lp.Int(int64(n) * 100)) }

// New makes the model of a layout's constraints, flex and spacing.
func New(l bento.Layout, size int) *Model {
	m := &Model{n: len(l.Constraints), size: int64(size) * 100}
	spacing := 0
	switch s := l.Spacing.(type) {
	case bento.SpacingSpace:
		spacing = int(s)
	case bento.SpacingOverlap:
		spacing = -int(s)
	}
	area := number(lp.Int(m.size))
	first, last := m.spacer(0), m.spacer(m.n)
	var inner []expr
	for i := 1; i < m.n; i++ {
		inner = append(inner, m.spacer(i))
	}
	fixed := func() {
		for _, s := range inner {
			m.add(s, eq, cells(spacing), spacer)
		}
	}
	equal := func(all []expr) {
		for i := 0; i+1 < len(all); i++ {
			m.add(all[i], eq, all[i+1], spacer)
		}
		for _, s := range all {
			m.add(s, ge, cells(spacing), spacer)
			m.add(s, eq, area, spaceGrow)
		}
	}
	switch l.Flex {
	case bento.FlexLegacy:
		fixed()
		m.add(first, eq, cells(0), edge)
		m.add(last, eq, cells(0), edge)
	case bento.FlexStart:
		fixed()
		m.add(first, eq, cells(0), edge)
		m.add(last, eq, area, grow)
	case bento.FlexEnd:
		fixed()
		m.add(last, eq, cells(0), edge)
		m.add(first, eq, area, grow)
	case bento.FlexCenter:
		fixed()
		m.add(first, eq, area, grow)
		m.add(last, eq, area, grow)
		m.add(first, eq, last, spacer)
	case bento.FlexSpaceBetween:
		equal(inner)
		m.add(first, eq, cells(0), edge)
		m.add(last, eq, cells(0), edge)
	case bento.FlexSpaceAround:
		equal(append(append([]expr{first}, inner...), last))
	}
	legacy := l.Flex == bento.FlexLegacy
	type share struct {
		size   expr
		factor lp.Q
	}
	var shares []share
	for i, c := range l.Constraints {
		seg := m.segment(i)
		switch c := c.(type) {
		case bento.ConstraintMax:
			m.add(seg, le, cells(int(c)), limit)
			m.add(seg, eq, cells(int(c)), preference)
		case bento.ConstraintMin:
			m.add(seg, ge, cells(int(c)), limit)
			if legacy {
				m.add(seg, eq, cells(int(c)), preference)
			} else {
				m.add(seg, eq, area, fill)
				shares = append(shares, share{seg, lp.Int(1)})
			}
		case bento.ConstraintLen:
			m.add(seg, eq, cells(int(c)), length)
		case bento.ConstraintPercentage:
			m.add(seg, eq, area.scaled(lp.Frac(int64(c), 100)), percentage)
		case bento.ConstraintRatio:
			m.add(seg, eq, area.scaled(lp.Frac(int64(c.Num), int64(max(1, c.Den)))), ratio)
		case bento.ConstraintFill:
			m.add(seg, eq, area, fill)
			f := lp.Frac(1, 1_000_000)
			if c > 0 {
				f = lp.Int(int64(c))
			}
			shares = append(shares, share{seg, f})
		}
	}
	for i := range shares {
		for j := i + 1; j < len(shares); j++ {
			m.add(shares[i].size.scaled(shares[j].factor), eq, shares[j].size.scaled(shares[i].factor), grow)
		}
	}
	if !legacy {
		for i := 0; i+1 < m.n; i++ {
			m.add(m.segment(i), eq, m.segment(i+1), equalGrow)
		}
	}
	return m
}

// Least solves for the least weighted violation with positions limited to lo..hi.
func (m *Model) Least(lo, hi []int64) lp.Q {
	p := &lp.Program{}
	vars := make([]int, 2*m.n)
	for i := range vars {
		vars[i] = p.Var(lp.Int(0))
	}
	for i, v := range vars {
		slack := p.Var(lp.Int(0))
		p.Equation(lp.Int(hi[i]-lo[i]), slack, lp.Term{Var: v, C: lp.Int(1)}, lp.Term{Var: slack, C: lp.Int(1)})
	}
	for i := 0; i < m.n; i++ { // segments do not end before they start
		slack := p.Var(lp.Int(0))
		p.Equation(lp.Int(lo[2*i+1]-lo[2*i]), slack,
			lp.Term{Var: vars[2*i], C: lp.Int(1)}, lp.Term{Var: vars[2*i+1], C: lp.Int(-1)}, lp.Term{Var: slack, C: lp.Int(1)})
	}
	for _, s := range m.softs {
		var terms []lp.Term
		rhs := s.rhs
		for v := range vars {
			c, ok := s.c[v]
			if !ok || c.Sign() == 0 {
				continue
			}
			terms = append(terms, lp.Term{Var: vars[v], C: c})
			rhs = rhs.Sub(c.Mul(lp.Int(lo[v])))
		}
		above, below := lp.Int(s.weight), lp.Int(s.weight)
		switch s.op {
		case le:
			below = lp.Int(0)
		case ge:
			above = lp.Int(0)
		}
		over, under := p.Var(above), p.Var(below)
		terms = append(terms, lp.Term{Var: over, C: lp.Int(-1)}, lp.Term{Var: under, C: lp.Int(1)})
		start := under
		if rhs.Sign() < 0 {
			start = over
		}
		p.Equation(rhs, start, terms...)
	}
	least, _, feasible, bounded := p.Solve()
	if !feasible || !bounded {
		panic("layref: no solution")
	}
	return least
}

// Whole is the least violation with positions anywhere in the area.
func (m *Model) Whole() lp.Q {
	lo, hi := make([]int64, 2*m.n), make([]int64, 2*m.n)
	for i := range hi {
		hi[i] = m.size
	}
	return m.Least(lo, hi)
}

// Near is the least violation with positions which round to the given cells (starts and ends of the segments).
func (m *Model) Near(at []int) lp.Q {
	lo, hi := make([]int64, 2*m.n), make([]int64, 2*m.n)
	for i, a := range at {
		lo[i] = min(max(0, int64(a)*100-51), m.size)
		hi[i] = max(0, min(m.size, int64(a)*100+51))
	}
	return m.Least(lo, hi)
}
