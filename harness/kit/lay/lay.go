// Package lay generates layouts.
package lay

import (
	"fmt"
	"strings"

	"github.com/metafates/bento"
	"github.com/metafates/bento/verif/kit"
	"pgregory.net/rapid"
)

// Flexes lists every flex mode.
var Flexes = []bento.Flex{bento.FlexLegacy, bento.FlexStart, bento.FlexEnd, bento.FlexCenter, bento.FlexSpaceBetween, bento.FlexSpaceAround}

// FlexName names a flex mode.
func FlexName(f bento.Flex) string {
	switch f {
	case bento.FlexLegacy:
		return "legacy"
	case bento.FlexStart:
		return "start"
	case bento.FlexEnd:
		return "end"
	case bento.FlexCenter:
		return "center"
	case bento.FlexSpaceBetween:
		return "between"
	case bento.FlexSpaceAround:
		return "around"
	}
	return "?"
}

// Huge allows sizes up to the largest integer.
var Huge bool

// Size draws a cell count: mostly small, sometimes far beyond any area.
func Size() *rapid.Generator[int] {
	if Huge {
		return rapid.OneOf(rapid.IntRange(0, 12), rapid.IntRange(0, 12), rapid.IntRange(0, 60), rapid.SampledFrom([]int{0, 1, 100, 255, 1000, 65535, 1 << 31, 1 << 40, 1 << 62, 1<<63 - 1}))
	}
	return rapid.OneOf(rapid.IntRange(0, 12), rapid.IntRange(0, 12), rapid.IntRange(0, 60), rapid.SampledFrom([]int{0, 1, 100, 255, 1000, 65535}))
}

// Constraint draws any constraint.
func Constraint() *rapid.Generator[bento.Constraint] {
	return rapid.Custom(func(t *rapid.T) bento.Constraint {
		switch rapid.IntRange(0, 5).Draw(t, "kind") {
		case 0:
			return bento.ConstraintLen(Size().Draw(t, "len"))
		case 1:
			return bento.ConstraintMin(Size().Draw(t, "min"))
		case 2:
			return bento.ConstraintMax(Size().Draw(t, "max"))
		case 3:
			return bento.ConstraintPercentage(rapid.OneOf(rapid.IntRange(0, 100), rapid.SampledFrom([]int{0, 10, 25, 33, 50, 66, 100, 150})).Draw(t, "percent"))
		case 4:
			if kit.Rarely(t, 3, "fine") {
				return bento.ConstraintRatio{Num: rapid.IntRange(0, 10000).Draw(t, "num"), Den: rapid.IntRange(0, 10000).Draw(t, "den")}
			}
			return bento.ConstraintRatio{Num: rapid.IntRange(0, 4).Draw(t, "num"), Den: rapid.IntRange(0, 6).Draw(t, "den")}
		}
		if kit.Rarely(t, 4, "large") {
			return bento.ConstraintFill(rapid.IntRange(0, 1000).Draw(t, "fill"))
		}
		return bento.ConstraintFill(rapid.OneOf(rapid.IntRange(1, 4), rapid.IntRange(0, 20)).Draw(t, "fill"))
	})
}

// Spacing draws a non-negative spacing, or an overlap when allowed.
func Spacing(overlap bool) *rapid.Generator[bento.Spacing] {
	return rapid.Custom(func(t *rapid.T) bento.Spacing {
		if overlap && rapid.IntRange(0, 3).Draw(t, "overlap") == 0 {
			return bento.SpacingOverlap(rapid.IntRange(0, 4).Draw(t, "by"))
		}
		return bento.SpacingSpace(rapid.OneOf(rapid.Just(0), rapid.IntRange(0, 3), rapid.IntRange(0, 20)).Draw(t, "spacing"))
	})
}

// Padding draws a padding with all sides independent.
func Padding(limit int) *rapid.Generator[bento.Padding] {
	return rapid.Custom(func(t *rapid.T) bento.Padding {
		if rapid.IntRange(0, 2).Draw(t, "pad") > 0 {
			return bento.Padding{}
		}
		g := rapid.IntRange(0, limit)
		return bento.Padding{Top: g.Draw(t, "top"), Right: g.Draw(t, "right"), Bottom: g.Draw(t, "bottom"), Left: g.Draw(t, "left")}
	})
}

// Area draws an area of any size from nothing up.
func Area() *rapid.Generator[bento.Rect] {
	side := rapid.OneOf(rapid.IntRange(0, 8), rapid.IntRange(0, 40), rapid.IntRange(0, 200))
	return rapid.Custom(func(t *rapid.T) bento.Rect {
		return bento.NewRect(side.Draw(t, "w"), side.Draw(t, "h")).
			Positioned(rapid.IntRange(0, 30).Draw(t, "x"), rapid.IntRange(0, 30).Draw(t, "y"))
	})
}

// Count draws how many constraints there are.
func Count(many int) *rapid.Generator[int] {
	return rapid.Custom(func(t *rapid.T) int {
		if many > 6 && rapid.IntRange(0, 39).Draw(t, "many") == 0 {
			if rapid.IntRange(0, 9).Draw(t, "more") > 0 {
				many = min(many, 24)
			}
			return rapid.IntRange(7, many).Draw(t, "n")
		}
		return rapid.IntRange(0, 6).Draw(t, "n")
	})
}

// Layout draws a layout of up to many constraints.
func Layout(many int, overlap bool) *rapid.Generator[bento.Layout] {
	return rapid.Custom(func(t *rapid.T) bento.Layout {
		n := Count(many).Draw(t, "count")
		cs := make([]bento.Constraint, n)
		uniform := rapid.IntRange(0, 4).Draw(t, "uniform") == 0
		for i := range cs {
			if uniform && i > 0 {
				cs[i] = cs[0]
				continue
			}
			cs[i] = Constraint().Draw(t, "constraint")
		}
		l := bento.NewLayout(cs...).
			WithFlex(rapid.SampledFrom(Flexes).Draw(t, "flex")).
			WithSpacing(Spacing(overlap).Draw(t, "spacing")).
			WithPadding(Padding(5).Draw(t, "padding"))
		if rapid.Bool().Draw(t, "horizontal") {
			return l.Horizontal()
		}
		return l.Vertical()
	})
}

// Describe prints a layout.
func Describe(l bento.Layout) string {
	var sb strings.Builder
	dir := "vertical"
	if l.Direction == bento.DirectionHorizontal {
		dir = "horizontal"
	}
	fmt.Fprintf(&sb, "%s flex=%s spacing=%T(%v) pad=%v", dir, FlexName(l.Flex), l.Spacing, l.Spacing, l.Padding)
	for i, c := range l.Constraints {
		if i == 14 {
			fmt.Fprintf(&sb, " …%d", len(l.Constraints))
			break
		}
		fmt.Fprintf(&sb, " %v", c)
	}
	return sb.String()
}
