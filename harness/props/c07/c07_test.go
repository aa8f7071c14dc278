// C07: layout is deterministic and independent of position and axis.
package c07

import (
	"fmt"
	"slices"
	"sync"
	"testing"

	"github.com/metafates/bento"
	"github.com/metafates/bento/verif/kit"
	"github.com/metafates/bento/verif/kit/lay"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	lay.Huge = true
	kit.Main(m)
}

func shift(rs bento.Splitted, dx, dy int) bento.Splitted {
	out := slices.Clone(rs)
	for i := range out {
		out[i].X += dx
		out[i].Y += dy
	}
	return out
}

func transpose(r bento.Rect) bento.Rect {
	return bento.NewRect(r.Height, r.Width).Positioned(r.Y, r.X)
}

func property(t *rapid.T) {
	l := lay.Layout(16, true).Draw(t, "layout")
	area := lay.Area().Draw(t, "area")
	dx, dy := rapid.IntRange(-30, 100).Draw(t, "dx"), rapid.IntRange(-30, 100).Draw(t, "dy")
	dx, dy = max(dx, -area.X), max(dy, -area.Y)
	scribble := rapid.Bool().Draw(t, "scribble")
	elsewhere := area
	if rapid.Bool().Draw(t, "elsewhere") {
		elsewhere = lay.Area().Draw(t, "another area")
	}
	repeats := rapid.IntRange(2, 6).Draw(t, "repeats")
	desc := fmt.Sprintf("%s area=%v by=%d,%d", lay.Describe(l), area, dx, dy)
	kit.Case(desc, len(l.Constraints) > 1 && !area.Inner(l.Padding).IsEmpty() && (dx != 0 || dy != 0), lay.FlexName(l.Flex))

	kit.Guard(desc, func() {
		seg, sp := l.SplitWithSpacers(area)
		seg, sp = slices.Clone(seg), slices.Clone(sp)
		for i := 0; i < repeats; i++ {
			seg2, sp2 := l.SplitWithSpacers(area)
			if scribble {
				// What a caller does with a result is its own business.
				s, p := slices.Clone(seg2), slices.Clone(sp2)
				for i := range seg2 {
					seg2[i] = bento.NewRect(77, 77)
				}
				for i := range sp2 {
					sp2[i] = bento.NewRect(78, 78)
				}
				slices.Reverse(l.Split(elsewhere))
				seg2, sp2 = s, p
			}
			if !slices.Equal(seg, seg2) || !slices.Equal(sp, sp2) {
				t.Fatalf("%s: repeated, the split differs:\n%v %v\n%v %v", desc, seg, sp, seg2, sp2)
			}
		}
		if only := l.Split(area); !slices.Equal(seg, only) {
			t.Fatalf("%s: Split gives %v, SplitWithSpacers %v", desc, only, seg)
		}

		if !area.Inner(l.Padding).IsEmpty() {
			moved := area.Positioned(area.X+dx, area.Y+dy)
			mseg, msp := l.SplitWithSpacers(moved)
			if !slices.Equal(shift(seg, dx, dy), mseg) || !slices.Equal(shift(sp, dx, dy), msp) {
				t.Fatalf("%s: moved to %v, the split is not just moved:\n%v %v\n%v %v", desc, moved, seg, sp, mseg, msp)
			}
		}

		// the same along the other axis
		other := l
		if l.Direction == bento.DirectionHorizontal {
			other = other.Vertical()
		} else {
			other = other.Horizontal()
		}
		p := l.Padding
		other = other.WithPadding(bento.Padding{Top: p.Left, Left: p.Top, Bottom: p.Right, Right: p.Bottom})
		tseg, tsp := other.SplitWithSpacers(transpose(area))
		for i := range tseg {
			tseg[i] = transpose(tseg[i])
		}
		for i := range tsp {
			tsp[i] = transpose(tsp[i])
		}
		if !slices.Equal(seg, tseg) || !slices.Equal(sp, tsp) {
			t.Fatalf("%s: along the other axis the split is\n%v %v\ninstead of\n%v %v", desc, tseg, tsp, seg, sp)
		}
	})
}

// TestConcurrent: splitting at the same time changes nothing.
func TestConcurrent(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		type job struct {
			l       bento.Layout
			area    bento.Rect
			seg, sp bento.Splitted
		}
		var jobs []job
		var desc string
		for i, n := 0, rapid.IntRange(2, 6).Draw(t, "jobs"); i < n; i++ {
			j := job{l: lay.Layout(8, true).Draw(t, "layout"), area: lay.Area().Draw(t, "area")}
			jobs = append(jobs, j)
			desc += fmt.Sprintf("%s area=%v; ", lay.Describe(j.l), j.area)
		}
		times := rapid.IntRange(1, 4).Draw(t, "times")
		kit.Case(desc, true, "concurrent")
		kit.Guard(desc, func() {
			for i := range jobs {
				seg, sp := jobs[i].l.SplitWithSpacers(jobs[i].area)
				jobs[i].seg, jobs[i].sp = slices.Clone(seg), slices.Clone(sp)
			}
			wrong := make([]string, len(jobs)*2)
			var wg sync.WaitGroup
			for g := range wrong {
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer func() {
						if r := recover(); r != nil {
							wrong[g] = fmt.Sprintf("panic: %v", r)
						}
					}()
					j := jobs[g%len(jobs)]
					for range times {
						seg, sp := j.l.SplitWithSpacers(j.area)
						if !slices.Equal(seg, j.seg) || !slices.Equal(sp, j.sp) {
							wrong[g] = fmt.Sprintf("%s area=%v: alone %v %v, at the same time as others %v %v", lay.Describe(j.l), j.area, j.seg, j.sp, seg, sp)
							return
						}
						slices.Reverse(seg)
						slices.Reverse(sp)
					}
				}()
			}
			wg.Wait()
			for _, w := range wrong {
				if w != "" {
					t.Fatalf("%s\n%s", w, desc)
				}
			}
		})
	})
}

func TestProperty(t *testing.T) { rapid.Check(t, property) }
