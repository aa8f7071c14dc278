From c7a9d6a03ea2c7625ebd7d5fe8820af107c7528f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:04 +0000
Subject: [PATCH 01/57] fix: emit the hidden attribute and keep the remaining
 blink when one is removed

---
 terminal_backend.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/terminal_backend.go b/terminal_backend.go
index 42a61b4..0578b76 100644
--- a/terminal_backend.go
+++ b/terminal_backend.go
@@ -336,6 +336,18 @@ func (d _StyleModifierDiff) queue(w io.Writer) error {
 
 	if removed.Contains(ModifierSlowBlink) || removed.Contains(ModifierRapidBlink) {
 		cmds = append(cmds, ansi.SetAttribute(ansi.AttrNoBlink))
+
+		if d.To.Contains(ModifierSlowBlink) {
+			cmds = append(cmds, ansi.SetAttribute(ansi.AttrSlowBlink))
+		}
+
+		if d.To.Contains(ModifierRapidBlink) {
+			cmds = append(cmds, ansi.SetAttribute(ansi.AttrRapidBlink))
+		}
+	}
+
+	if removed.Contains(ModifierHidden) {
+		cmds = append(cmds, ansi.SetAttribute(ansi.AttrNoHidden))
 	}
 
 	added := bit.Difference(d.To, d.From)
@@ -372,6 +384,10 @@ func (d _StyleModifierDiff) queue(w io.Writer) error {
 		cmds = append(cmds, ansi.SetAttribute(ansi.AttrRapidBlink))
 	}
 
+	if added.Contains(ModifierHidden) {
+		cmds = append(cmds, ansi.SetAttribute(ansi.AttrHidden))
+	}
+
 	if err := queue(w, cmds...); err != nil {
 		return fmt.Errorf("queue: %w", err)
 	}
-- 
2.43.0


From e0c96bbeaf6347151a5d2d8d8d54a9aaa3d671d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:33 +0000
Subject: [PATCH 02/57] fix: write default color parameters instead of empty
 ones

---
 internal/ansi/command.go | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/internal/ansi/command.go b/internal/ansi/command.go
index 25d2aa8..6f9179e 100644
--- a/internal/ansi/command.go
+++ b/internal/ansi/command.go
@@ -60,16 +60,29 @@ var _ Command = (*SetColors)(nil)
 type SetColors Colors
 
 func (c SetColors) WriteANSI(w io.Writer) error {
-	switch {
-	case c.Foreground != nil && c.Background != nil:
-		return write(w, CSI+c.Foreground.Sequence(false)+";"+c.Background.Sequence(true)+"m")
-	case c.Foreground == nil && c.Background != nil:
-		return write(w, CSI+c.Foreground.Sequence(false)+"m")
-	case c.Foreground != nil && c.Background == nil:
-		return write(w, CSI+c.Background.Sequence(true)+"m")
-	default:
-		return nil
+	fg := colorSequence(c.Foreground, false)
+	bg := colorSequence(c.Background, true)
+
+	return write(w, CSI+fg+";"+bg+"m")
+}
+
+// colorSequence returns SGR parameters for the given color.
+//
+// The absence of a color (either nil or one with an empty sequence, such as [termenv.NoColor])
+// means the default one. An empty parameter must not be written, since terminals treat it
+// as 0, which resets all of the attributes.
+func colorSequence(color termenv.Color, bg bool) string {
+	if color != nil {
+		if sequence := color.Sequence(bg); sequence != "" {
+			return sequence
+		}
 	}
+
+	if bg {
+		return "49"
+	}
+
+	return "39"
 }
 
 var _ Command = (*Print)(nil)
-- 
2.43.0


From 53b1b29f5f140e019261dabfee4fb6da6b2fde5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:04 +0000
Subject: [PATCH 03/57] fix: skip zero-width graphemes and never exceed the
 width in Buffer.SetStringN

---
 buffer.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/buffer.go b/buffer.go
index 9c33822..7573ea3 100644
--- a/buffer.go
+++ b/buffer.go
@@ -113,6 +113,15 @@ func (b *Buffer) SetStringN(x, y int, value string, maxWidth int, style Style) (
 		symbol := graphemes.Str()
 		width := graphemes.Width()
 
+		// zero-width graphemes and control characters
+		if width == 0 {
+			continue
+		}
+
+		if width > remainingWidth {
+			break
+		}
+
 		remainingWidth -= width
 
 		b.CellAt(Position{x, y}).SetSymbol(symbol).SetStyle(style)
-- 
2.43.0


From c5358c52a38f5dd45f26e22adaad31199acd14d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:03 +0000
Subject: [PATCH 04/57] fix: make Padding.WithLeft set the left side

---
 padding.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padding.go b/padding.go
index ba0906c..7a59a52 100644
--- a/padding.go
+++ b/padding.go
@@ -49,6 +49,6 @@ func (p Padding) WithBottom(s int) Padding {
 }
 
 func (p Padding) WithLeft(s int) Padding {
-	p.Bottom = s
+	p.Left = s
 	return p
 }
-- 
2.43.0


From 0cd97ad845e2facdfc55a2ecef2c8bede0c69311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:03 +0000
Subject: [PATCH 05/57] fix: do not drop text after a line longer than 64 KiB

---
 widget/textwidget/line.go | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/widget/textwidget/line.go b/widget/textwidget/line.go
index e926608..08bf895 100644
--- a/widget/textwidget/line.go
+++ b/widget/textwidget/line.go
@@ -1,7 +1,6 @@
 package textwidget
 
 import (
-	"bufio"
 	"slices"
 	"strings"
 
@@ -24,12 +23,8 @@ func NewLinesStr(s ...string) Lines {
 	if joined == "" {
 		lines = []Line{NewLineStr("")}
 	} else {
-		scanner := bufio.NewScanner(strings.NewReader(joined))
-
-		for scanner.Scan() {
-			line := NewLineStr(scanner.Text())
-
-			lines = append(lines, line)
+		for _, line := range splitLines(joined) {
+			lines = append(lines, NewLineStr(line))
 		}
 	}
 
@@ -107,13 +102,9 @@ func NewLine(spans ...Span) Line {
 }
 
 func NewLineStr(s string) Line {
-	lines := bufio.NewScanner(strings.NewReader(s))
-
 	var spans []Span
 
-	for lines.Scan() {
-		line := lines.Text()
-
+	for _, line := range splitLines(s) {
 		spans = append(spans, NewSpan(line))
 	}
 
@@ -296,6 +287,21 @@ func (l Line) size() int {
 	return size
 }
 
+// splitLines splits s into lines without their end-of-line markers.
+// Unlike [bufio.Scanner] it does not limit the length of a line.
+func splitLines(s string) []string {
+	var lines []string
+
+	for s != "" {
+		line, rest, _ := strings.Cut(s, "\n")
+
+		lines = append(lines, strings.TrimSuffix(line, "\r"))
+		s = rest
+	}
+
+	return lines
+}
+
 func setLine(x, y int, buffer *bento.Buffer, line *Line, maxWidth int) (int, int) {
 	remainingWidth := maxWidth
 
-- 
2.43.0


From 80dff2974f4bc57e2ea5f94a4d9de6f420037585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:03 +0000
Subject: [PATCH 06/57] fix: apply the style of an aligned line to its text

---
 widget/textwidget/line.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/widget/textwidget/line.go b/widget/textwidget/line.go
index 08bf895..875bd38 100644
--- a/widget/textwidget/line.go
+++ b/widget/textwidget/line.go
@@ -223,8 +223,6 @@ func (l Line) renderWithAlignment(
 		Height:   1,
 	}
 
-	buffer.SetStyle(area.WithWidth(min(area.Width, lineWidth)), l.Style)
-
 	alignment := l.Alignment
 	if alignment == bento.AlignmentNone {
 		alignment = parentAlignment
@@ -248,6 +246,8 @@ func (l Line) renderWithAlignment(
 
 		area = area.IndentX(indentWidth)
 
+		buffer.SetStyle(area.WithWidth(lineWidth), l.Style)
+
 		renderSpans(l.Spans, area, buffer, 0)
 	} else {
 		// There is not enough space to render the whole line. As the right side is truncated by
@@ -263,6 +263,8 @@ func (l Line) renderWithAlignment(
 			skipWidth = max(0, lineWidth-areaWidth)
 		}
 
+		buffer.SetStyle(area, l.Style)
+
 		renderSpans(l.Spans, area, buffer, skipWidth)
 	}
 }
-- 
2.43.0


From 2907c3c7a3482f22089cb7f7d1a7a35c02410c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:50 +0000
Subject: [PATCH 07/57] fix: attach zero-width graphemes to visible cells only

---
 widget/textwidget/span.go | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/widget/textwidget/span.go b/widget/textwidget/span.go
index 7c6848f..d6ef57c 100644
--- a/widget/textwidget/span.go
+++ b/widget/textwidget/span.go
@@ -52,7 +52,15 @@ func (s Span) Render(area bento.Rect, buffer *bento.Buffer) {
 
 	x, y := area.X, area.Y
 
-	for i, gr := range s.StyledGraphemes(bento.NewStyle()) {
+	var (
+		// cell of the last rendered grapheme
+		last *bento.Cell
+
+		// zero-width graphemes preceding the first visible one
+		prefix string
+	)
+
+	for _, gr := range s.StyledGraphemes(bento.NewStyle()) {
 		symbolWidth := gr.Width()
 
 		nextX := x + symbolWidth
@@ -60,22 +68,21 @@ func (s Span) Render(area bento.Rect, buffer *bento.Buffer) {
 			break
 		}
 
-		switch {
-		case i == 0:
-			// the first grapheme is always set on the cell
-			buffer.CellAt(bento.Position{X: x, Y: y}).SetSymbol(gr.String()).SetStyle(gr.Style)
-		case x == area.X:
-			// there is one or more zero-width graphemes in the first cell, so the first cell
-			// must be appended to.
-			buffer.CellAt(bento.Position{X: x, Y: y}).AppendSymbol(gr.String()).SetStyle(gr.Style)
-		case symbolWidth == 0:
-			// append zero-width graphemes to the previous cell
-			buffer.CellAt(bento.Position{X: x - 1, Y: y}).AppendSymbol(gr.String()).SetStyle(gr.Style)
-		default:
-			// just a normal grapheme (not first, not zero-width, not overflowing the area)
-			buffer.CellAt(bento.Position{X: x, Y: y}).SetSymbol(gr.String()).SetStyle(gr.Style)
+		if symbolWidth == 0 {
+			// zero-width graphemes do not take a cell, attach them to a neighbouring visible one
+			if last == nil {
+				prefix += gr.String()
+			} else {
+				last.AppendSymbol(gr.String())
+			}
+
+			continue
 		}
 
+		last = buffer.CellAt(bento.Position{X: x, Y: y})
+		last.SetSymbol(prefix + gr.String()).SetStyle(gr.Style)
+		prefix = ""
+
 		for xHidden := x + 1; xHidden < nextX; xHidden++ {
 			buffer.CellAt(bento.Position{X: xHidden, Y: y}).Reset()
 		}
-- 
2.43.0


From 1f135644cc22f7e80ece6632fd05e459f02144b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:09 +0000
Subject: [PATCH 08/57] fix: do not lose a span when truncating it past a
 zero-width grapheme

---
 widget/textwidget/span.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/widget/textwidget/span.go b/widget/textwidget/span.go
index d6ef57c..9de006c 100644
--- a/widget/textwidget/span.go
+++ b/widget/textwidget/span.go
@@ -186,13 +186,9 @@ func unicodeTruncateStart(s string, maxWidth int) (string, int) {
 		return s, currentWidth
 	}
 
-	for {
+	for s != "" {
 		_, rest, width, newState := uniseg.FirstGraphemeClusterInString(s, state)
 
-		if width == 0 {
-			break
-		}
-
 		currentWidth -= width
 
 		if currentWidth <= maxWidth {
-- 
2.43.0


From 709a994ae12e22443cdbbbe6de7418db29f2d3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:46 +0000
Subject: [PATCH 09/57] fix: do not share backing arrays between values derived
 by builders

---
 layout.go                   | 3 ++-
 widget/blockwidget/block.go | 2 +-
 widget/textwidget/line.go   | 4 ++--
 widget/textwidget/text.go   | 6 ++++--
 4 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/layout.go b/layout.go
index f6f1b9c..09321f3 100644
--- a/layout.go
+++ b/layout.go
@@ -3,6 +3,7 @@ package bento
 import (
 	"fmt"
 	"math"
+	"slices"
 
 	"github.com/metafates/bento/internal/casso"
 )
@@ -99,7 +100,7 @@ func (l Layout) WithSpacing(spacing Spacing) Layout {
 }
 
 func (l Layout) WithConstraints(constraints ...Constraint) Layout {
-	l.Constraints = append(l.Constraints, constraints...)
+	l.Constraints = append(slices.Clip(l.Constraints), constraints...)
 	return l
 }
 
diff --git a/widget/blockwidget/block.go b/widget/blockwidget/block.go
index 773d471..c87120f 100644
--- a/widget/blockwidget/block.go
+++ b/widget/blockwidget/block.go
@@ -72,7 +72,7 @@ func (b Block) WithTitle(title Title) Block {
 		title.Line = title.Line.WithAlignment(title.Alignment)
 	}
 
-	b.titles = append(b.titles, title)
+	b.titles = append(slices.Clip(b.titles), title)
 	return b
 }
 
diff --git a/widget/textwidget/line.go b/widget/textwidget/line.go
index 875bd38..226ea7a 100644
--- a/widget/textwidget/line.go
+++ b/widget/textwidget/line.go
@@ -124,12 +124,12 @@ func (l Line) String() string {
 }
 
 func (l Line) WithSpans(spans ...Span) Line {
-	l.Spans = append(l.Spans, spans...)
+	l.Spans = append(slices.Clip(l.Spans), spans...)
 	return l
 }
 
 func (l Line) WithSpansStr(spans ...string) Line {
-	l.Spans = slices.Grow(l.Spans, len(spans))
+	l.Spans = slices.Grow(slices.Clip(l.Spans), len(spans))
 
 	for _, s := range spans {
 		l.Spans = append(l.Spans, NewSpan(s))
diff --git a/widget/textwidget/text.go b/widget/textwidget/text.go
index ebd552b..56072ac 100644
--- a/widget/textwidget/text.go
+++ b/widget/textwidget/text.go
@@ -1,6 +1,8 @@
 package textwidget
 
 import (
+	"slices"
+
 	"github.com/metafates/bento"
 )
 
@@ -27,12 +29,12 @@ func NewText(lines ...Line) Text {
 }
 
 func (t Text) WithLines(lines ...Line) Text {
-	t.Lines = append(t.Lines, lines...)
+	t.Lines = append(slices.Clip(t.Lines), lines...)
 	return t
 }
 
 func (t Text) WithLinesStr(lines ...string) Text {
-	t.Lines = append(t.Lines, NewLinesStr(lines...)...)
+	t.Lines = append(slices.Clip(t.Lines), NewLinesStr(lines...)...)
 	return t
 }
 
-- 
2.43.0


From 77ed5529a1eb4579bd2e242d19986fc5bfe979bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:43 +0000
Subject: [PATCH 10/57] fix: do not let the symbols of a solver overflow

---
 internal/casso/casso.go  | 2 +-
 internal/casso/solver.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/casso/casso.go b/internal/casso/casso.go
index 1487d5b..c04cd62 100644
--- a/internal/casso/casso.go
+++ b/internal/casso/casso.go
@@ -182,7 +182,7 @@ const (
 )
 
 type _Symbol struct {
-	Value uint8
+	Value uint64
 	Type  SymbolType
 }
 
diff --git a/internal/casso/solver.go b/internal/casso/solver.go
index fd223d3..51614b4 100644
--- a/internal/casso/solver.go
+++ b/internal/casso/solver.go
@@ -24,7 +24,7 @@ type _EditInfo struct {
 type _VariableData struct {
 	constant float64
 	symbol   _Symbol
-	id       uint8
+	id       uint64
 }
 
 type Solver struct {
@@ -39,7 +39,7 @@ type Solver struct {
 	infeasibleRows     []_Symbol
 	objective          _Row
 	artificial         *_Row
-	idTick             uint8
+	idTick             uint64
 }
 
 func NewSolver() Solver {
-- 
2.43.0


From 2281e49e3cfa995653774075675a2a48e6770b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:01 +0000
Subject: [PATCH 11/57] fix: make the choice of pivots deterministic

---
 internal/casso/solver.go | 46 +++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/internal/casso/solver.go b/internal/casso/solver.go
index 51614b4..01f3eb5 100644
--- a/internal/casso/solver.go
+++ b/internal/casso/solver.go
@@ -3,6 +3,7 @@ package casso
 import (
 	"fmt"
 	"math"
+	"slices"
 )
 
 type PublicChange struct {
@@ -303,7 +304,8 @@ func (s *Solver) getLeavingRow(entering _Symbol) (_Symbol, _Row, bool) {
 			if temp < 0 {
 				tempRatio := -r.constant / temp
 
-				if tempRatio < ratio {
+				// break ties by the symbol, so that the choice does not depend on the order of iteration
+				if tempRatio < ratio || (ok && tempRatio == ratio && s.Value < found.Value) {
 					ratio = tempRatio
 					found = s
 					ok = true
@@ -429,10 +431,8 @@ func (s *Solver) getVarSymbol(v Variable) _Symbol {
 }
 
 func chooseSubject(row _Row, tag _Tag) _Symbol {
-	for s := range row.cells {
-		if s.Type == SymbolTypeExternal {
-			return s
-		}
+	if subject := firstSymbol(row, SymbolTypeExternal); subject.Type != SymbolTypeInvalid {
+		return subject
 	}
 
 	for _, s := range []_Symbol{tag.marker, tag.other} {
@@ -457,23 +457,45 @@ func allDummies(row _Row) bool {
 	return true
 }
 
+// getEnteringSymbol returns the symbol with the most negative coefficient of the objective.
+// If there are several of them the first created is returned, so that the choice
+// does not depend on the (random) order of iteration.
 func getEnteringSymbol(objective _Row) _Symbol {
+	entering := newInvalidSymbol()
+
+	var lowest float64
+
 	for s, v := range objective.cells {
-		if s.Type != SymbolTypeDummy && v < 0 {
-			return s
+		if s.Type == SymbolTypeDummy || v >= 0 {
+			continue
+		}
+
+		if v < lowest || (v == lowest && s.Value < entering.Value) {
+			entering = s
+			lowest = v
 		}
 	}
 
-	return newInvalidSymbol()
+	return entering
 }
 
 func anyPivotableSymbol(row _Row) _Symbol {
+	return firstSymbol(row, SymbolTypeSlack, SymbolTypeError)
+}
+
+// firstSymbol returns the first created symbol among those of the given types in the row.
+func firstSymbol(row _Row, types ...SymbolType) _Symbol {
+	first := newInvalidSymbol()
+
 	for s := range row.cells {
-		switch s.Type {
-		case SymbolTypeSlack, SymbolTypeError:
-			return s
+		if !slices.Contains(types, s.Type) {
+			continue
+		}
+
+		if first.Type == SymbolTypeInvalid || s.Value < first.Value {
+			first = s
 		}
 	}
 
-	return newInvalidSymbol()
+	return first
 }
-- 
2.43.0


From 74236a680b81d37e4db56a9cc41b109b8292f499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:59 +0000
Subject: [PATCH 12/57] fix: lay out independently of the position of the area

---
 layout.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/layout.go b/layout.go
index 09321f3..ce4d2d2 100644
--- a/layout.go
+++ b/layout.go
@@ -124,15 +124,14 @@ func (l Layout) split(area Rect) (segments []Rect, spacers []Rect, err error) {
 
 	innerArea := area.Inner(l.Padding)
 
+	// Solve relative to the start of the area, so that its position does not affect the sizes
 	var areaStart, areaEnd float64
 
 	switch l.Direction {
 	case DirectionHorizontal:
-		areaStart = float64(innerArea.X) * _floatPrecisionMultiplier
-		areaEnd = float64(innerArea.Right()) * _floatPrecisionMultiplier
+		areaEnd = float64(innerArea.Width) * _floatPrecisionMultiplier
 	case DirectionVertical:
-		areaStart = float64(innerArea.Y) * _floatPrecisionMultiplier
-		areaEnd = float64(innerArea.Bottom()) * _floatPrecisionMultiplier
+		areaEnd = float64(innerArea.Height) * _floatPrecisionMultiplier
 	}
 
 	variableCount := len(l.Constraints)*2 + 2
@@ -228,7 +227,7 @@ func changesToRects(
 		case DirectionHorizontal:
 			rect := Rect{
 				Position: Position{
-					X: startRounded,
+					X: area.X + startRounded,
 					Y: area.Y,
 				},
 				Width:  size,
@@ -240,7 +239,7 @@ func changesToRects(
 			rect := Rect{
 				Position: Position{
 					X: area.X,
-					Y: startRounded,
+					Y: area.Y + startRounded,
 				},
 				Width:  area.Width,
 				Height: size,
-- 
2.43.0


From 41e03b95f28b77e577e2788004809cf53941ded6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:07 +0000
Subject: [PATCH 13/57] fix: do not fail on rounding errors of a bounded
 objective

---
 internal/casso/solver.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/casso/solver.go b/internal/casso/solver.go
index 01f3eb5..1852bb6 100644
--- a/internal/casso/solver.go
+++ b/internal/casso/solver.go
@@ -243,7 +243,11 @@ func (s *Solver) optimize(objective *_Row) error {
 
 		leaving, row, ok := s.getLeavingRow(entering)
 		if !ok {
-			return InternalSolverError("unbounded objective")
+			// The objective is a weighted sum of errors, none of which is negative.
+			// It is always bounded, therefore this coefficient is just a rounding error.
+			objective.Remove(entering)
+
+			continue
 		}
 
 		row.SolveForSymbols(leaving, entering)
-- 
2.43.0


From e446c333fe77f5e118f792ee5ae143e7deb8a1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:07 +0000
Subject: [PATCH 14/57] fix: keep layouts with many equal spacers solvable

---
 layout.go | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/layout.go b/layout.go
index ce4d2d2..cc61e76 100644
--- a/layout.go
+++ b/layout.go
@@ -426,15 +426,11 @@ func configureFlexConstraints(
 			}
 		}
 	case FlexSpaceAround:
-		if len(spacersExceptFirstAndLast) >= 2 {
-			for _, indices := range combinations(len(spacersExceptFirstAndLast), 2) {
-				i, j := indices[0], indices[1]
+		for i := 0; i < len(spacersExceptFirstAndLast)-1; i++ {
+			left, right := spacersExceptFirstAndLast[i], spacersExceptFirstAndLast[i+1]
 
-				left, right := spacersExceptFirstAndLast[i], spacersExceptFirstAndLast[j]
-
-				if err := solver.AddConstraint(left.hasSize(right.size(), _spacerSizeEq)); err != nil {
-					return fmt.Errorf("add has size constraint: %w", err)
-				}
+			if err := solver.AddConstraint(left.hasSize(right.size(), _spacerSizeEq)); err != nil {
+				return fmt.Errorf("add has size constraint: %w", err)
 			}
 		}
 
@@ -450,15 +446,11 @@ func configureFlexConstraints(
 		}
 
 	case FlexSpaceBetween:
-		if len(spacersExceptFirstAndLast) >= 2 {
-			for _, indices := range combinations(len(spacersExceptFirstAndLast), 2) {
-				i, j := indices[0], indices[1]
+		for i := 0; i < len(spacersExceptFirstAndLast)-1; i++ {
+			left, right := spacersExceptFirstAndLast[i], spacersExceptFirstAndLast[i+1]
 
-				left, right := spacersExceptFirstAndLast[i], spacersExceptFirstAndLast[j]
-
-				if err := solver.AddConstraint(left.hasSize(right.size(), _spacerSizeEq)); err != nil {
-					return fmt.Errorf("add has size constraint: %w", err)
-				}
+			if err := solver.AddConstraint(left.hasSize(right.size(), _spacerSizeEq)); err != nil {
+				return fmt.Errorf("add has size constraint: %w", err)
 			}
 		}
 
-- 
2.43.0


From ca73ba58a963bdb7a8492f700dde25f6d4693653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 15/57] fix: do not let rounding errors choose the pivots of a
 solver

---
 internal/casso/solver.go | 68 ++++++++++++++++++++++++++++++----------
 1 file changed, 52 insertions(+), 16 deletions(-)

diff --git a/internal/casso/solver.go b/internal/casso/solver.go
index 1852bb6..ad1be18 100644
--- a/internal/casso/solver.go
+++ b/internal/casso/solver.go
@@ -293,30 +293,61 @@ func (s *Solver) substitute(symbol _Symbol, row _Row) {
 	}
 }
 
+// getLeavingRow returns the row limiting the entering symbol the most.
+//
+// Rounding errors must not decide which row that is: dividing by a coefficient which is one itself
+// blows up the whole tableau. Therefore limits exceeding the lowest one by a rounding error are accepted too
+// and of these rows one with a comparably large coefficient is taken (as in the ratio test by Harris).
+// If there are several of them the first created is returned, so that the choice
+// does not depend on the (random) order of iteration.
 func (s *Solver) getLeavingRow(entering _Symbol) (_Symbol, _Row, bool) {
-	ratio := math.Inf(1)
+	const (
+		tolerance  = 1e-6
+		comparable = 0.5
+	)
+
+	// candidates calls fn for each row which limits the entering symbol
+	candidates := func(fn func(symbol _Symbol, constant, coefficient float64)) {
+		for symbol, row := range s.rows {
+			if symbol.Type == SymbolTypeExternal {
+				continue
+			}
+
+			if coefficient := row.CoefficientFor(entering); coefficient < 0 {
+				fn(symbol, max(0, row.constant), -coefficient)
+			}
+		}
+	}
+
+	limit := math.Inf(1)
+
+	candidates(func(_ _Symbol, constant, coefficient float64) {
+		limit = min(limit, (constant+tolerance)/coefficient)
+	})
+
+	var largest float64
+
+	candidates(func(_ _Symbol, constant, coefficient float64) {
+		if constant/coefficient <= limit {
+			largest = max(largest, coefficient)
+		}
+	})
 
 	var (
 		found _Symbol
 		ok    bool
 	)
 
-	for s, r := range s.rows {
-		if s.Type != SymbolTypeExternal {
-			temp := r.CoefficientFor(entering)
-
-			if temp < 0 {
-				tempRatio := -r.constant / temp
+	candidates(func(symbol _Symbol, constant, coefficient float64) {
+		if constant/coefficient > limit || coefficient < largest*comparable {
+			return
+		}
 
-				// break ties by the symbol, so that the choice does not depend on the order of iteration
-				if tempRatio < ratio || (ok && tempRatio == ratio && s.Value < found.Value) {
-					ratio = tempRatio
-					found = s
-					ok = true
-				}
-			}
+		if !ok || symbol.Value < found.Value {
+			found = symbol
+			ok = true
 		}
-	}
+	})
 
 	if !ok {
 		return _Symbol{}, _Row{}, false
@@ -464,13 +495,18 @@ func allDummies(row _Row) bool {
 // getEnteringSymbol returns the symbol with the most negative coefficient of the objective.
 // If there are several of them the first created is returned, so that the choice
 // does not depend on the (random) order of iteration.
+//
+// Coefficients just below zero are rounding errors: the strengths summed up in the objective are
+// as large as [Required]. Pivoting on them gains nothing and may go on forever.
 func getEnteringSymbol(objective _Row) _Symbol {
+	const epsilon = 1e-6
+
 	entering := newInvalidSymbol()
 
 	var lowest float64
 
 	for s, v := range objective.cells {
-		if s.Type == SymbolTypeDummy || v >= 0 {
+		if s.Type == SymbolTypeDummy || v > -epsilon {
 			continue
 		}
 
-- 
2.43.0


From 3dce989a57210fbe32f3c234acf789bbeefd1d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 16/57] fix: put equal space around segments, not only between
 them

---
 layout.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/layout.go b/layout.go
index cc61e76..5dd117b 100644
--- a/layout.go
+++ b/layout.go
@@ -426,15 +426,15 @@ func configureFlexConstraints(
 			}
 		}
 	case FlexSpaceAround:
-		for i := 0; i < len(spacersExceptFirstAndLast)-1; i++ {
-			left, right := spacersExceptFirstAndLast[i], spacersExceptFirstAndLast[i+1]
+		for i := 0; i < len(spacers)-1; i++ {
+			left, right := spacers[i], spacers[i+1]
 
 			if err := solver.AddConstraint(left.hasSize(right.size(), _spacerSizeEq)); err != nil {
 				return fmt.Errorf("add has size constraint: %w", err)
 			}
 		}
 
-		for _, s := range spacersExceptFirstAndLast {
+		for _, s := range spacers {
 			err := solver.AddConstraints(
 				s.hasMinSize(spacing, _spacerSizeEq),
 				s.hasSize(area.size(), _spaceGrow),
-- 
2.43.0


From 5184cc8f03c5a0a2333448d1edcf82834196af15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 17/57] fix: report changes of the last fetch only

---
 internal/casso/solver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/casso/solver.go b/internal/casso/solver.go
index ad1be18..a50ac23 100644
--- a/internal/casso/solver.go
+++ b/internal/casso/solver.go
@@ -131,7 +131,7 @@ func (s *Solver) FetchChanges() []PublicChange {
 		s.shouldClearChanges = true
 	}
 
-	clear(s.publicChanges)
+	s.publicChanges = nil
 
 	for v := range s.changed {
 		if varData, ok := s.varData[v]; ok {
-- 
2.43.0


From 58f0c11b6d933768170f82ee356d2a5fd8f47c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:18 +0000
Subject: [PATCH 18/57] fix: do not share terms between expressions derived
 from one

---
 internal/casso/operators.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/casso/operators.go b/internal/casso/operators.go
index b110b63..59ddb2d 100644
--- a/internal/casso/operators.go
+++ b/internal/casso/operators.go
@@ -14,14 +14,14 @@ func (e Expression) SubConstant(other float64) Expression {
 func (e Expression) Sub(other Expression) Expression {
 	other = other.Negate()
 
-	e.Terms = append(e.Terms, other.Terms...)
+	e.Terms = append(slices.Clip(e.Terms), other.Terms...)
 	e.Constant += other.Constant
 
 	return e
 }
 
 func (e Expression) SubVariable(other Variable) Expression {
-	e.Terms = append(e.Terms, NewTerm(other, -1.0))
+	e.Terms = append(slices.Clip(e.Terms), NewTerm(other, -1.0))
 
 	return e
 }
-- 
2.43.0


From d3a7f8757e2163f355c9d8eb558e2ff7e3360fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 19/57] fix: show one line of text per row in paragraphs
 without wrapping

---
 internal/reflow/truncator.go | 74 ++++++++++++++++--------------------
 1 file changed, 32 insertions(+), 42 deletions(-)

diff --git a/internal/reflow/truncator.go b/internal/reflow/truncator.go
index e891787..54bc27b 100644
--- a/internal/reflow/truncator.go
+++ b/internal/reflow/truncator.go
@@ -35,64 +35,54 @@ func (lt *LineTruncator) NextLine() (WrappedLine, bool) {
 		return WrappedLine{}, false
 	}
 
-	clear(lt.currentLine)
+	lt.currentLine = lt.currentLine[:0]
+
+	if len(lt.inputLines) == 0 {
+		return WrappedLine{}, false
+	}
+
+	line := lt.inputLines[0]
+	lt.inputLines = lt.inputLines[1:]
 
 	var currentLineWidth int
 
-	linesExhausted := true
 	horizontalOffset := lt.horizontalOffset
-	currentAlignment := bento.AlignmentLeft
-
-	var lastIndex int
-	for i, line := range lt.inputLines {
-		lastIndex = i
-		currentLine := line.Graphemes
-		currentAlignment = line.Alignment
-		alignment := line.Alignment
-		linesExhausted = false
-
-		for _, g := range currentLine {
-			if g.Width() > lt.maxLineWidth {
-				continue
-			}
 
-			if currentLineWidth+g.Width() > lt.maxLineWidth {
-				break
-			}
+	for _, g := range line.Graphemes {
+		if g.Width() > lt.maxLineWidth {
+			continue
+		}
 
-			var symbol string
+		if currentLineWidth+g.Width() > lt.maxLineWidth {
+			break
+		}
+
+		var symbol string
 
-			if horizontalOffset == 0 || alignment != bento.AlignmentLeft {
-				symbol = g.String()
+		if horizontalOffset == 0 || line.Alignment != bento.AlignmentLeft {
+			symbol = g.String()
+		} else {
+			width := g.Width()
+
+			if width > horizontalOffset {
+				symbol = trimOffset(g.String(), horizontalOffset)
+				horizontalOffset = 0
 			} else {
-				width := g.Width()
-
-				if width > horizontalOffset {
-					symbol = trimOffset(g.String(), horizontalOffset)
-					horizontalOffset = 0
-				} else {
-					horizontalOffset -= width
-				}
+				horizontalOffset -= width
 			}
-
-			currentLineWidth += uniseg.StringWidth(symbol)
-			lt.currentLine = append(lt.currentLine, textwidget.StyledGrapheme{
-				Style:    g.Style,
-				Grapheme: grapheme.New(symbol),
-			})
 		}
-	}
-
-	lt.inputLines = lt.inputLines[min(len(lt.inputLines), lastIndex+1):]
 
-	if linesExhausted {
-		return WrappedLine{}, false
+		currentLineWidth += uniseg.StringWidth(symbol)
+		lt.currentLine = append(lt.currentLine, textwidget.StyledGrapheme{
+			Style:    g.Style,
+			Grapheme: grapheme.New(symbol),
+		})
 	}
 
 	return WrappedLine{
 		Line:      lt.currentLine,
 		Width:     currentLineWidth,
-		Alignment: currentAlignment,
+		Alignment: line.Alignment,
 	}, true
 }
 
-- 
2.43.0


From 073c74baa2c6aee3c9a82ebab2c3a606a86ab9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:53 +0000
Subject: [PATCH 20/57] fix: align paragraphs without alignment to the left

---
 widget/paragraphwidget/paragraph.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/widget/paragraphwidget/paragraph.go b/widget/paragraphwidget/paragraph.go
index 7427a82..c43369e 100644
--- a/widget/paragraphwidget/paragraph.go
+++ b/widget/paragraphwidget/paragraph.go
@@ -110,6 +110,10 @@ func (p Paragraph) render(textArea bento.Rect, buffer *bento.Buffer) {
 			alignment = p.Alignment
 		}
 
+		if alignment == bento.AlignmentNone {
+			alignment = bento.AlignmentLeft
+		}
+
 		styled = append(styled, reflow.InputLine{
 			Graphemes: graphemes,
 			Alignment: alignment,
-- 
2.43.0


From 47d8cb0290506cc8e1c6d177dd694fa038ddd0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:56 +0000
Subject: [PATCH 21/57] fix: empty the buffers of the word wrapper instead of
 zeroing their elements

---
 internal/reflow/wrapper.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/reflow/wrapper.go b/internal/reflow/wrapper.go
index b406f41..2d771a6 100644
--- a/internal/reflow/wrapper.go
+++ b/internal/reflow/wrapper.go
@@ -52,9 +52,9 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 		nonWhitespacePrevious bool
 	)
 
-	clear(ww.pendingWord)
+	ww.pendingWord = ww.pendingWord[:0]
 	ww.pendingWhitespace.Clear()
-	clear(pendingLine)
+	pendingLine = pendingLine[:0]
 
 	for _, g := range lineSymbols {
 		isWhitespace := g.IsWhitespace()
@@ -78,7 +78,7 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 			}
 
 			pendingLine = append(pendingLine, ww.pendingWord...)
-			clear(ww.pendingWord)
+			ww.pendingWord = ww.pendingWord[:0]
 
 			lineWidth += wordWidth
 
@@ -94,7 +94,7 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 			remainingWidth := max(0, ww.maxLineWidth-lineWidth)
 
 			ww.wrappedLines.PushBack(slices.Clone(pendingLine))
-			clear(pendingLine)
+			pendingLine = pendingLine[:0]
 
 			lineWidth = 0
 
@@ -142,7 +142,7 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 	}
 
 	pendingLine = append(pendingLine, ww.pendingWord...)
-	clear(ww.pendingWord)
+	ww.pendingWord = ww.pendingWord[:0]
 
 	if len(pendingLine) > 0 {
 		ww.wrappedLines.PushBack(pendingLine)
-- 
2.43.0


From e04addf01892bf48cc396f39d024de65dd3b584a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:10 +0000
Subject: [PATCH 22/57] fix: wrap before a wide grapheme that does not fit the
 row

---
 internal/reflow/wrapper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/reflow/wrapper.go b/internal/reflow/wrapper.go
index 2d771a6..8052e86 100644
--- a/internal/reflow/wrapper.go
+++ b/internal/reflow/wrapper.go
@@ -88,7 +88,7 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 		}
 
 		lineFull := lineWidth >= ww.maxLineWidth
-		pendingWordOverflow := symbolWidth > 0 && lineWidth+whitespaceWidth+wordWidth >= ww.maxLineWidth
+		pendingWordOverflow := symbolWidth > 0 && lineWidth+whitespaceWidth+wordWidth+symbolWidth > ww.maxLineWidth
 
 		if lineFull || pendingWordOverflow {
 			remainingWidth := max(0, ww.maxLineWidth-lineWidth)
-- 
2.43.0


From af5c2200dbbcf169874be961cff484582b385cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:04 +0000
Subject: [PATCH 23/57] fix: break a word before a wide grapheme that overflows
 the row it moved to

---
 internal/reflow/wrapper.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/reflow/wrapper.go b/internal/reflow/wrapper.go
index 8052e86..f458994 100644
--- a/internal/reflow/wrapper.go
+++ b/internal/reflow/wrapper.go
@@ -116,6 +116,13 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 				ww.pendingWhitespace.PopFront()
 			}
 
+			// a wide grapheme may not fit the row the pending word has moved to
+			if wordWidth > 0 && wordWidth+symbolWidth > ww.maxLineWidth {
+				ww.wrappedLines.PushBack(slices.Clone(ww.pendingWord))
+				ww.pendingWord = ww.pendingWord[:0]
+				wordWidth = 0
+			}
+
 			if isWhitespace && ww.pendingWhitespace.IsEmpty() {
 				continue
 			}
-- 
2.43.0


From 0150e2bd5baf0b79c1b59a7405989cd12442e1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:05 +0000
Subject: [PATCH 24/57] fix: do not wrap around when selecting past the last
 item of a list

---
 widget/listwidget/state.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/widget/listwidget/state.go b/widget/listwidget/state.go
index 4e8464c..ac9c720 100644
--- a/widget/listwidget/state.go
+++ b/widget/listwidget/state.go
@@ -77,7 +77,7 @@ func (s *State) SelectNext() {
 	var next int
 
 	if s.selected != nil {
-		next = *s.selected + 1
+		next = saturatingAdd(*s.selected, 1)
 	}
 
 	s.Select(next)
@@ -108,7 +108,7 @@ func (s *State) ScrollDownBy(amount int) {
 		selected = *s.selected
 	}
 
-	s.Select(selected + amount)
+	s.Select(saturatingAdd(selected, amount))
 }
 
 func (s *State) ScrollUpBy(amount int) {
@@ -138,3 +138,13 @@ func (s *State) Selected(max_ int) (index int, ok bool) {
 
 	return min(max_, max(0, *s.selected)), true
 }
+
+// saturatingAdd adds b to a, which is not negative, without overflowing. The selected index
+// may be [math.MaxInt] until the list is rendered.
+func saturatingAdd(a, b int) int {
+	if b > math.MaxInt-a {
+		return math.MaxInt
+	}
+
+	return a + b
+}
-- 
2.43.0


From 0e82cba2d6e119d17239829460871e1168507041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:04 +0000
Subject: [PATCH 25/57] fix: do not leave an empty grapheme behind when
 deleting the first word of an input

---
 widget/inputwidget/state.go | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/widget/inputwidget/state.go b/widget/inputwidget/state.go
index beb4d38..464c550 100644
--- a/widget/inputwidget/state.go
+++ b/widget/inputwidget/state.go
@@ -86,23 +86,14 @@ func (s *State) DeleteWordUnderCursor() {
 }
 
 func (s *State) deleteWhile(cond func(g grapheme.Grapheme) bool) {
-	before, under, after := s.splitAtCursor()
+	start := s.cursor
 
-	current := under
-
-	for cond(current) {
-		if len(before) == 0 {
-			current = grapheme.Grapheme{}
-			break
-		}
-		s.MoveCursorLeft()
-
-		current = before[len(before)-1]
-		before = before[:len(before)-1]
+	for start > 0 && cond(s.graphemes[start-1]) {
+		start--
 	}
 
-	s.graphemes = append(before, current)
-	s.graphemes = append(s.graphemes, after...)
+	s.graphemes = slices.Delete(s.graphemes, start, s.cursor)
+	s.setCursor(start)
 }
 
 func (s *State) DeleteUnderCursor() {
-- 
2.43.0


From 72c9b6a2f154fad7502e80be77777ef1a8ab11da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:04 +0000
Subject: [PATCH 26/57] fix: keep the cursor of a scrolled input visible, on
 its grapheme and in bounds

---
 widget/inputwidget/state.go | 62 +++++++++++--------------------------
 1 file changed, 18 insertions(+), 44 deletions(-)

diff --git a/widget/inputwidget/state.go b/widget/inputwidget/state.go
index 464c550..b8ba9b7 100644
--- a/widget/inputwidget/state.go
+++ b/widget/inputwidget/state.go
@@ -5,7 +5,6 @@ import (
 
 	"github.com/metafates/bento"
 	"github.com/metafates/bento/internal/grapheme"
-	"github.com/metafates/bento/internal/sliceutil"
 	"github.com/rivo/uniseg"
 )
 
@@ -207,62 +206,37 @@ func (s *State) splitAtCursor() (before grapheme.Graphemes, under grapheme.Graph
 	return before, under, after
 }
 
+// getBounds returns the range of graphemes visible in maxWidth columns, with one more column
+// reserved for the cursor. The range starts at the offset, unless the cursor (or the grapheme
+// before it) would not be visible then.
 func (s *State) getBounds(maxWidth int) (int, int) {
 	if len(s.graphemes) == 0 {
 		return 0, 0
 	}
 
-	offset := min(s.offset, max(0, len(s.graphemes)-1))
-
-	firstVisibleIndex := offset
-	lastVisibleIndex := offset
-
-	var widthFromOffset int
-
-	for _, g := range sliceutil.Skip(s.graphemes, offset) {
-		if widthFromOffset+g.Width() > maxWidth {
-			break
-		}
-
-		widthFromOffset += g.Width()
-
-		lastVisibleIndex++
-	}
-
-	indexToDisplay := offset
-	if s.cursor != 0 {
-		indexToDisplay = min(s.cursor-1, lastVisibleIndex)
+	// the cursor takes the place of the grapheme it is on
+	cursorWidth := 1
+	if s.cursor < len(s.graphemes) {
+		cursorWidth = max(1, s.graphemes[s.cursor].Width())
 	}
 
-	for indexToDisplay >= lastVisibleIndex {
-		widthFromOffset += s.graphemes[lastVisibleIndex].Width()
+	firstVisibleIndex := min(s.offset, max(0, s.cursor-1))
+	width := s.graphemes[firstVisibleIndex:s.cursor].Width()
 
-		lastVisibleIndex++
-
-		for widthFromOffset > maxWidth {
-			widthFromOffset = max(0, widthFromOffset-s.graphemes[firstVisibleIndex].Width())
-
-			firstVisibleIndex++
-		}
+	for firstVisibleIndex < s.cursor && width+cursorWidth > maxWidth+1 {
+		width -= s.graphemes[firstVisibleIndex].Width()
+		firstVisibleIndex++
 	}
 
-	for indexToDisplay < firstVisibleIndex {
-		firstVisibleIndex--
-
-		widthFromOffset += s.graphemes[firstVisibleIndex].Width()
+	lastVisibleIndex := s.cursor
 
-		for widthFromOffset > maxWidth {
-			lastVisibleIndex--
-
-			widthFromOffset = max(0, widthFromOffset-s.graphemes[lastVisibleIndex].Width())
+	for _, g := range s.graphemes[s.cursor:] {
+		if lastVisibleIndex > s.cursor && width+g.Width() > maxWidth {
+			break
 		}
-	}
 
-	if s.cursor-firstVisibleIndex >= lastVisibleIndex {
-		diff := s.cursor - lastVisibleIndex
-
-		firstVisibleIndex += diff
-		lastVisibleIndex += diff
+		width += g.Width()
+		lastVisibleIndex++
 	}
 
 	return firstVisibleIndex, lastVisibleIndex
-- 
2.43.0


From 218b508ec67195b19635fd62ff999052c3a60246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:05 +0000
Subject: [PATCH 27/57] fix: show the placeholder of an input only if the input
 is empty

---
 widget/inputwidget/input.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/widget/inputwidget/input.go b/widget/inputwidget/input.go
index bf9410b..3a2774a 100644
--- a/widget/inputwidget/input.go
+++ b/widget/inputwidget/input.go
@@ -127,7 +127,8 @@ func (i Input) RenderStateful(area bento.Rect, buffer *bento.Buffer, state *Stat
 		offset:    state.offset,
 	}
 
-	before, cursor, after := i.split(tempState)
+	// the visible part of a state may be empty when the state is not
+	before, cursor, after := i.split(tempState, state.isEmpty())
 
 	if state.showCursor {
 		cursor = cursor.WithStylePatch(i.cursorStyle)
@@ -153,8 +154,8 @@ func (i Input) RenderStateful(area bento.Rect, buffer *bento.Buffer, state *Stat
 	line.Render(area, buffer)
 }
 
-func (i Input) split(state State) (beforeSpan, cursorSpan, afterSpan textwidget.Span) {
-	if state.isEmpty() {
+func (i Input) split(state State, isEmpty bool) (beforeSpan, cursorSpan, afterSpan textwidget.Span) {
+	if isEmpty {
 		placeholder := i.placeholder
 		if len(placeholder) == 0 {
 			return textwidget.NewSpan(""), textwidget.NewSpan(""), textwidget.NewSpan("")
-- 
2.43.0


From 48d23387da5f684beb75d8071c522838f6bbce5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:08 +0000
Subject: [PATCH 28/57] fix: clip a block to the buffer it is drawn to

---
 widget/blockwidget/block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/widget/blockwidget/block.go b/widget/blockwidget/block.go
index c87120f..7980179 100644
--- a/widget/blockwidget/block.go
+++ b/widget/blockwidget/block.go
@@ -165,7 +165,7 @@ func (b Block) hasTitleAtPosition(position TitlePosition) bool {
 }
 
 func (b Block) Render(area bento.Rect, buffer *bento.Buffer) {
-	area = area.Intersection(area)
+	area = area.Intersection(buffer.Area())
 	if area.IsEmpty() {
 		return
 	}
-- 
2.43.0


From e0b2dfe619bd9f03a5ecd6a4995a1789e634b208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:39 +0000
Subject: [PATCH 29/57] fix: draw horizontal scrollbars on the edge they are
 named after

---
 widget/scrollwidget/scroll.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/widget/scrollwidget/scroll.go b/widget/scrollwidget/scroll.go
index a521405..6493ac5 100644
--- a/widget/scrollwidget/scroll.go
+++ b/widget/scrollwidget/scroll.go
@@ -259,7 +259,7 @@ func (s Scroll) scrollbarArea(area bento.Rect) (bento.Rect, bool) {
 
 		return columns[len(columns)-1], true
 
-	case OrientationHorizontalBottom:
+	case OrientationHorizontalTop:
 		rows := area.Rows()
 		if len(rows) == 0 {
 			return bento.Rect{}, false
@@ -267,7 +267,7 @@ func (s Scroll) scrollbarArea(area bento.Rect) (bento.Rect, bool) {
 
 		return rows[0], true
 
-	case OrientationHorizontalTop:
+	case OrientationHorizontalBottom:
 		rows := area.Rows()
 		if len(rows) == 0 {
 			return bento.Rect{}, false
-- 
2.43.0


From 3b4878a5f2ad78c5326b11b1fa8a3ee070340d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:50 +0000
Subject: [PATCH 30/57] fix: do not leave cells for missing begin and end
 symbols of a scrollbar

---
 widget/scrollwidget/scroll.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/widget/scrollwidget/scroll.go b/widget/scrollwidget/scroll.go
index 6493ac5..b6408ca 100644
--- a/widget/scrollwidget/scroll.go
+++ b/widget/scrollwidget/scroll.go
@@ -112,7 +112,7 @@ func (s Scroll) barSymbols(area bento.Rect, state State) []*_Symbol {
 
 	var begin *_Symbol
 
-	if s.beginSymbol != nil {
+	if s.beginSymbol != nil && *s.beginSymbol != "" {
 		begin = &_Symbol{
 			Symbol: *s.beginSymbol,
 			Style:  s.beginStyle,
@@ -135,15 +135,19 @@ func (s Scroll) barSymbols(area bento.Rect, state State) []*_Symbol {
 
 	var end *_Symbol
 
-	if s.endSymbol != nil {
+	if s.endSymbol != nil && *s.endSymbol != "" {
 		end = &_Symbol{
 			Symbol: *s.endSymbol,
 			Style:  s.endStyle,
 		}
 	}
 
+	var symbols []*_Symbol
+
 	// <
-	symbols := []*_Symbol{begin}
+	if begin != nil {
+		symbols = append(symbols, begin)
+	}
 
 	// <═══
 	symbols = append(symbols, sliceutil.Repeat(track, trackStartLen)...)
@@ -155,7 +159,9 @@ func (s Scroll) barSymbols(area bento.Rect, state State) []*_Symbol {
 	symbols = append(symbols, sliceutil.Repeat(track, trackEndLen)...)
 
 	// <═══█████═══════>
-	symbols = append(symbols, end)
+	if end != nil {
+		symbols = append(symbols, end)
+	}
 
 	return symbols
 }
-- 
2.43.0


From 78175c5646cafdce9aa675cc47d4aa126f36081c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:09 +0000
Subject: [PATCH 31/57] fix: reject gauge ratios that are not between 0 and 1

---
 widget/gaugewidget/gauge.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/widget/gaugewidget/gauge.go b/widget/gaugewidget/gauge.go
index 4916537..7a881f2 100644
--- a/widget/gaugewidget/gauge.go
+++ b/widget/gaugewidget/gauge.go
@@ -41,7 +41,8 @@ func New() Gauge {
 //
 // See [Gauge.WithPercent] to set from a percentage.
 func (g Gauge) WithRatio(ratio float64) Gauge {
-	if ratio < 0 && ratio > 1 {
+	// negated, so that it holds for NaN
+	if !(ratio >= 0 && ratio <= 1) {
 		panic("ratio should be between 0 and 1 inclusively")
 	}
 
-- 
2.43.0


From 042d6b31baeb145b2108902873326f019d66b1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:55 +0000
Subject: [PATCH 32/57] fix: apply the padding of a popup once, not once per
 axis

---
 widget/popupwidget/popup.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/widget/popupwidget/popup.go b/widget/popupwidget/popup.go
index 5d6e1ed..a4de47a 100644
--- a/widget/popupwidget/popup.go
+++ b/widget/popupwidget/popup.go
@@ -86,7 +86,7 @@ func (p Popup) Right() Popup {
 
 func (p Popup) Inner(area bento.Rect) bento.Rect {
 	vertical := bento.NewLayout(p.Height).Vertical().WithPadding(p.Padding).WithFlex(p.Vertical)
-	horizontal := bento.NewLayout(p.Width).Horizontal().WithPadding(p.Padding).WithFlex(p.Horizontal)
+	horizontal := bento.NewLayout(p.Width).Horizontal().WithFlex(p.Horizontal)
 
 	inner := area
 	inner = vertical.Split(inner).Unwrap()
@@ -101,7 +101,7 @@ func (p Popup) Inner(area bento.Rect) bento.Rect {
 
 func (p Popup) Render(area bento.Rect, buffer *bento.Buffer) {
 	vertical := bento.NewLayout(p.Height).Vertical().WithPadding(p.Padding).WithFlex(p.Vertical)
-	horizontal := bento.NewLayout(p.Width).Horizontal().WithPadding(p.Padding).WithFlex(p.Horizontal)
+	horizontal := bento.NewLayout(p.Width).Horizontal().WithFlex(p.Horizontal)
 
 	area = vertical.Split(area).Unwrap()
 	area = horizontal.Split(area).Unwrap()
-- 
2.43.0


From 929f31ec276384296826c5dbf71e960c1b8985d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 33/57] fix: render the content of a popup

---
 widget/popupwidget/popup.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/widget/popupwidget/popup.go b/widget/popupwidget/popup.go
index a4de47a..d9b7295 100644
--- a/widget/popupwidget/popup.go
+++ b/widget/popupwidget/popup.go
@@ -100,6 +100,8 @@ func (p Popup) Inner(area bento.Rect) bento.Rect {
 }
 
 func (p Popup) Render(area bento.Rect, buffer *bento.Buffer) {
+	inner := p.Inner(area)
+
 	vertical := bento.NewLayout(p.Height).Vertical().WithPadding(p.Padding).WithFlex(p.Vertical)
 	horizontal := bento.NewLayout(p.Width).Horizontal().WithFlex(p.Horizontal)
 
@@ -112,4 +114,7 @@ func (p Popup) Render(area bento.Rect, buffer *bento.Buffer) {
 	if p.Block != nil {
 		p.Block.Render(area, buffer)
 	}
+	if p.Content != nil {
+		p.Content.Render(inner, buffer)
+	}
 }
-- 
2.43.0


From 03dfc0075714db31f8ea73cd30e2261f459ee366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:22 +0000
Subject: [PATCH 34/57] fix: do not take a mouse event out of the input that
 follows a sequence

---
 input.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/input.go b/input.go
index 4490cb3..5bbcdb6 100644
--- a/input.go
+++ b/input.go
@@ -610,7 +610,7 @@ loop:
 
 var (
 	unknownCSIRe  = regexp.MustCompile(`^\x1b\[[\x30-\x3f]*[\x20-\x2f]*[\x40-\x7e]`)
-	mouseSGRRegex = regexp.MustCompile(`(\d+);(\d+);(\d+)([Mm])`)
+	mouseSGRRegex = regexp.MustCompile(`^(\d+);(\d+);(\d+)([Mm])`)
 )
 
 func detectOneMsg(b []byte, canHaveMoreData bool) (w int, msg Msg) {
-- 
2.43.0


From 83b96ea26bcf9abe86e36aec9b86120f0afa97eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:22 +0000
Subject: [PATCH 35/57] fix: detect focus reports that other input follows

---
 input.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/input.go b/input.go
index 5bbcdb6..1ab4f9a 100644
--- a/input.go
+++ b/input.go
@@ -720,9 +720,16 @@ func detectOneMsg(b []byte, canHaveMoreData bool) (w int, msg Msg) {
 // nolint: gomnd
 func detectReportFocus(input []byte) (hasRF bool, width int, msg Msg) {
 	switch {
-	case bytes.Equal(input, []byte("\x1b[I")):
+	case bytes.HasPrefix(input, []byte("\x1b[I")):
 		return true, 3, FocusMsg{}
-	case bytes.Equal(input, []byte("\x1b[O")):
+	case bytes.HasPrefix(input, []byte("\x1b[O")):
+		// Some key sequences start with the report of lost focus.
+		if len(input) > 3 {
+			if _, ok := sequences[string(input[:4])]; ok {
+				return false, 0, nil
+			}
+		}
+
 		return true, 3, BlurMsg{}
 	}
 	return false, 0, nil
-- 
2.43.0


From 1125234d0c94949fabf39acf82b6fe4fe7e1f573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:22 +0000
Subject: [PATCH 36/57] fix: do not mistake a replacement character for invalid
 input

---
 input.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/input.go b/input.go
index 1ab4f9a..b0ebc6a 100644
--- a/input.go
+++ b/input.go
@@ -673,7 +673,7 @@ func detectOneMsg(b []byte, canHaveMoreData bool) (w int, msg Msg) {
 	for rw := 0; i < len(b); i += rw {
 		var r rune
 		r, rw = utf8.DecodeRune(b[i:])
-		if r == utf8.RuneError || r <= rune(keyUS) || r == rune(keyDEL) || r == ' ' {
+		if (r == utf8.RuneError && rw <= 1) || r <= rune(keyUS) || r == rune(keyDEL) || r == ' ' {
 			// Rune errors are handled below; control characters and spaces will
 			// be handled by detectSequence in the next call to detectOneMsg.
 			break
@@ -770,7 +770,7 @@ func detectBracketedPaste(input []byte) (hasBp bool, width int, msg Msg) {
 	k := Key{Type: KeyRunes, Paste: true}
 	for len(paste) > 0 {
 		r, w := utf8.DecodeRune(paste)
-		if r != utf8.RuneError {
+		if r != utf8.RuneError || w > 1 {
 			k.Runes = append(k.Runes, r)
 		}
 		paste = paste[w:]
-- 
2.43.0


From 75064353f6e9594ca868708838534bea127052ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:09 +0000
Subject: [PATCH 37/57] fix: do not tear sequences and runes at the end of a
 full read buffer

---
 input.go | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/input.go b/input.go
index b0ebc6a..3f10b00 100644
--- a/input.go
+++ b/input.go
@@ -614,6 +614,11 @@ var (
 )
 
 func detectOneMsg(b []byte, canHaveMoreData bool) (w int, msg Msg) {
+	if canHaveMoreData && isIncompleteSequence(b) {
+		// The rest of the sequence may be in the remainder of the input.
+		return 0, nil
+	}
+
 	// Detect mouse events.
 	// X10 mouse events have a length of 6 bytes
 	const mouseEventX10Len = 6
@@ -685,6 +690,10 @@ func detectOneMsg(b []byte, canHaveMoreData bool) (w int, msg Msg) {
 			break
 		}
 	}
+	if canHaveMoreData && len(runes) == 0 && !utf8.FullRune(b[i:]) {
+		// The rest of the rune may be in the remainder of the input.
+		return 0, nil
+	}
 	if i >= len(b) && canHaveMoreData {
 		// We have encountered the end of the input buffer. Alas, we can't
 		// be sure whether the data in the remainder of the buffer is
@@ -825,6 +834,34 @@ var extSequences = func() map[string]Key {
 	return s
 }()
 
+// sequencePrefixes holds every proper prefix of the sequences.
+var sequencePrefixes = func() map[string]struct{} {
+	prefixes := map[string]struct{}{}
+	for seq := range extSequences {
+		for i := 1; i < len(seq); i++ {
+			prefixes[seq[:i]] = struct{}{}
+		}
+	}
+	return prefixes
+}()
+
+var incompleteCSIRe = regexp.MustCompile(`^\x1b\[[\x30-\x3f]*[\x20-\x2f]*$`)
+
+// isIncompleteSequence reports whether more input could make
+// the whole of the given one a single (or a longer) sequence.
+func isIncompleteSequence(input []byte) bool {
+	if _, ok := sequencePrefixes[string(input)]; ok {
+		return true
+	}
+
+	const mouseEventX10Len = 6
+	if bytes.HasPrefix(input, []byte("\x1b[M")) && len(input) < mouseEventX10Len {
+		return true
+	}
+
+	return incompleteCSIRe.Match(input)
+}
+
 // detectSequence uses a longest prefix match over the input
 // sequence and a hash map.
 func detectSequence(input []byte) (hasSeq bool, width int, msg Msg) {
-- 
2.43.0


From ac6c275baa196e6c68a66b04336e8fd4e49165aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 38/57] fix: decode what is left over when the input ends

---
 input.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/input.go b/input.go
index 3f10b00..3c7765f 100644
--- a/input.go
+++ b/input.go
@@ -3,6 +3,7 @@ package bento
 import (
 	"bytes"
 	"context"
+	"errors"
 	"fmt"
 	"io"
 	"regexp"
@@ -564,9 +565,14 @@ func readAnsiInputs(ctx context.Context, msgs chan<- Msg, input io.Reader) error
 loop:
 	for {
 		// Read and block.
-		numBytes, err := input.Read(buf[:])
-		if err != nil {
-			return fmt.Errorf("error reading input: %w", err)
+		numBytes, readErr := input.Read(buf[:])
+		if readErr != nil {
+			readErr = fmt.Errorf("error reading input: %w", readErr)
+
+			// What is left over is all there will be once the input ended.
+			if !errors.Is(readErr, io.EOF) {
+				return readErr
+			}
 		}
 		b := buf[:numBytes]
 		if leftOverFromPrevIteration != nil {
@@ -580,12 +586,15 @@ loop:
 		// be more data in the OS buffer ready to be read in, to complete
 		// the last message in the input. In that case, we will retry with
 		// the left over data in the next iteration.
-		canHaveMoreData := numBytes == len(buf)
+		canHaveMoreData := numBytes == len(buf) && readErr == nil
 
 		var i, w int
 		for i, w = 0, 0; i < len(b); i += w {
 			var msg Msg
 			w, msg = detectOneMsg(b[i:], canHaveMoreData)
+			if w == 0 && readErr != nil {
+				return readErr
+			}
 			if w == 0 {
 				// Expecting more bytes beyond the current buffer. Try waiting
 				// for more input.
@@ -604,6 +613,9 @@ loop:
 				return err
 			}
 		}
+		if readErr != nil {
+			return readErr
+		}
 		leftOverFromPrevIteration = nil
 	}
 }
-- 
2.43.0


From bf890b493ac24c94d992524a0bd5368e94db8ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:49 +0000
Subject: [PATCH 39/57] fix: decode alt+insert, not shift+delete, as alt+insert

---
 input.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/input.go b/input.go
index 3c7765f..bd21f8a 100644
--- a/input.go
+++ b/input.go
@@ -407,7 +407,7 @@ var sequences = map[string]Key{
 	"\x1b[Z": {Type: KeyShiftTab},
 
 	"\x1b[2~":   {Type: KeyInsert},
-	"\x1b[3;2~": {Type: KeyInsert, Alt: true},
+	"\x1b[2;3~": {Type: KeyInsert, Alt: true},
 
 	"\x1b[3~":   {Type: KeyDelete},
 	"\x1b[3;3~": {Type: KeyDelete, Alt: true},
-- 
2.43.0


From 325e68fb881c92aacac565ca6a3a1a576e4d3419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:38 +0000
Subject: [PATCH 40/57] fix: run the commands of a batch

---
 app.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/app.go b/app.go
index 93a426b..4cb7025 100644
--- a/app.go
+++ b/app.go
@@ -314,6 +314,12 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 				if err := a.terminal.Resize(NewRect(msg.Width, msg.Height)); err != nil {
 					return model, fmt.Errorf("resize: %w", err)
 				}
+			case BatchMsg:
+				for _, cmd := range msg {
+					a.handleCmd(cmd)
+				}
+
+				continue
 			case sequenceMsg:
 				go func() {
 					// Execute commands one at a time, in order.
-- 
2.43.0


From cfb1c4a9d8710e136b55cb056875bd0a7d3a2cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:38 +0000
Subject: [PATCH 41/57] fix: wait for nested batches and sequences of a
 sequence

---
 app.go | 67 ++++++++++++++++++++++++++++++++++++----------------------
 1 file changed, 42 insertions(+), 25 deletions(-)

diff --git a/app.go b/app.go
index 4cb7025..2b5741e 100644
--- a/app.go
+++ b/app.go
@@ -321,31 +321,9 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 
 				continue
 			case sequenceMsg:
-				go func() {
-					// Execute commands one at a time, in order.
-					for _, cmd := range msg {
-						if cmd == nil {
-							continue
-						}
-
-						msg := cmd()
-						if batchMsg, ok := msg.(BatchMsg); ok {
-							g, _ := errgroup.WithContext(a.ctx)
-							for _, cmd := range batchMsg {
-								cmd := cmd
-								g.Go(func() error {
-									a.Send(cmd())
-									return nil
-								})
-							}
-
-							_ = g.Wait() // wait for all commands from batch msg to finish
-							continue
-						}
-
-						a.Send(msg)
-					}
-				}()
+				go a.execSequence(msg)
+
+				continue
 			}
 
 			var cmd Cmd
@@ -356,6 +334,45 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 	}
 }
 
+// execSequence executes commands one at a time, in order.
+func (a *appRunner) execSequence(cmds sequenceMsg) {
+	for _, cmd := range cmds {
+		a.execCmd(cmd)
+	}
+}
+
+// execBatch executes commands concurrently and waits for all of them to finish.
+func (a *appRunner) execBatch(cmds BatchMsg) {
+	var g errgroup.Group
+
+	for _, cmd := range cmds {
+		cmd := cmd
+		g.Go(func() error {
+			a.execCmd(cmd)
+			return nil
+		})
+	}
+
+	_ = g.Wait()
+}
+
+// execCmd executes the command, with all the commands it consists of,
+// and sends the resulting messages.
+func (a *appRunner) execCmd(cmd Cmd) {
+	if cmd == nil {
+		return
+	}
+
+	switch msg := cmd().(type) {
+	case BatchMsg:
+		a.execBatch(msg)
+	case sequenceMsg:
+		a.execSequence(msg)
+	default:
+		a.Send(msg)
+	}
+}
+
 func (a *appRunner) recoverFromPanic() {
 	if r := recover(); r != nil {
 		a.shutdown()
-- 
2.43.0


From cfcac04de247ef8c44c1ecac9bba0f6ba1565b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:39 +0000
Subject: [PATCH 42/57] fix: do not wait to hand over a command when the app is
 cancelled

---
 app.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/app.go b/app.go
index 2b5741e..14a3364 100644
--- a/app.go
+++ b/app.go
@@ -328,7 +328,13 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 
 			var cmd Cmd
 			model, cmd = model.Update(msg) // run update
-			a.cmds <- cmd
+
+			select {
+			case <-a.ctx.Done():
+				return model, nil
+			case a.cmds <- cmd:
+			}
+
 			a.draw(model)
 		}
 	}
-- 
2.43.0


From 31d8409d812a7c157f38b2cfe2f7e9ed7a255fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:39 +0000
Subject: [PATCH 43/57] fix: end the app when drawing fails instead of blocking
 it

---
 app.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/app.go b/app.go
index 14a3364..0ed7cbd 100644
--- a/app.go
+++ b/app.go
@@ -202,7 +202,11 @@ func (a *appRunner) Run() (model Model, err error) {
 	}
 
 	a.initModel()
-	a.draw(a.model)
+
+	err = a.draw(a.model)
+	if err != nil {
+		return a.model, err
+	}
 
 	err = a.initCancelReader()
 	if err != nil {
@@ -225,7 +229,9 @@ func (a *appRunner) Run() (model Model, err error) {
 		return model, err
 	}
 
-	a.draw(model)
+	if err := a.draw(model); err != nil {
+		return model, err
+	}
 
 	if err := a.shutdown(); err != nil {
 		return model, fmt.Errorf("shutdown: %w", err)
@@ -335,7 +341,9 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 			case a.cmds <- cmd:
 			}
 
-			a.draw(model)
+			if err := a.draw(model); err != nil {
+				return model, err
+			}
 		}
 	}
 }
@@ -395,11 +403,12 @@ func (a *appRunner) shutdown() error {
 	return a.restore()
 }
 
-func (a *appRunner) draw(widget Widget) {
-	_, err := a.terminal.Draw(widget)
-	if err != nil {
-		a.errs <- err
+func (a *appRunner) draw(widget Widget) error {
+	if _, err := a.terminal.Draw(widget); err != nil {
+		return fmt.Errorf("draw: %w", err)
 	}
+
+	return nil
 }
 
 func (a *appRunner) init() error {
-- 
2.43.0


From ed2040e791335671d3d4427d864b8404e33dde0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:30 +0000
Subject: [PATCH 44/57] fix: restore the terminal however the app ends

---
 app.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/app.go b/app.go
index 0ed7cbd..a1b5c43 100644
--- a/app.go
+++ b/app.go
@@ -196,6 +196,13 @@ func (a *appRunner) Run() (model Model, err error) {
 
 	defer a.recoverFromPanic()
 
+	// Give the terminal back however the app ends.
+	defer func() {
+		if shutdownErr := a.shutdown(); shutdownErr != nil && err == nil {
+			err = fmt.Errorf("shutdown: %w", shutdownErr)
+		}
+	}()
+
 	err = a.init()
 	if err != nil {
 		return a.model, fmt.Errorf("init: %w", err)
@@ -229,15 +236,7 @@ func (a *appRunner) Run() (model Model, err error) {
 		return model, err
 	}
 
-	if err := a.draw(model); err != nil {
-		return model, err
-	}
-
-	if err := a.shutdown(); err != nil {
-		return model, fmt.Errorf("shutdown: %w", err)
-	}
-
-	return model, nil
+	return model, a.draw(model)
 }
 
 func (a *appRunner) Send(msg Msg) {
-- 
2.43.0


From 97d7233a14a89633143f7916f6b954dcbe584a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:30 +0000
Subject: [PATCH 45/57] fix: restore the rest of the terminal when a part of it
 fails

---
 app.go |  8 +++++---
 tty.go | 10 ++++++----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/app.go b/app.go
index a1b5c43..666d436 100644
--- a/app.go
+++ b/app.go
@@ -423,15 +423,17 @@ func (a *appRunner) init() error {
 }
 
 func (a *appRunner) restore() error {
+	var errs []error
+
 	if err := a.restoreTerminal(); err != nil {
-		return fmt.Errorf("restore terminal: %w", err)
+		errs = append(errs, fmt.Errorf("restore terminal: %w", err))
 	}
 
 	if err := a.terminal.LeaveAlternateScreen(); err != nil {
-		return fmt.Errorf("leave alt screen buffer: %w", err)
+		errs = append(errs, fmt.Errorf("leave alt screen buffer: %w", err))
 	}
 
-	return nil
+	return errors.Join(errs...)
 }
 
 // channelHandlers manages the series of channels returned by various processes.
diff --git a/tty.go b/tty.go
index b6c168a..81718b0 100644
--- a/tty.go
+++ b/tty.go
@@ -24,12 +24,14 @@ func (a *appRunner) initTerminal() error {
 // restoreTerminal restores the terminal to the state prior to running the
 // Bento app.
 func (a *appRunner) restoreTerminal() error {
+	var errs []error
+
 	if err := a.terminal.DisableBracketedPaste(); err != nil {
-		return fmt.Errorf("disable bracketed paste: %w", err)
+		errs = append(errs, fmt.Errorf("disable bracketed paste: %w", err))
 	}
 
 	if err := a.terminal.ShowCursor(); err != nil {
-		return fmt.Errorf("show cursor: %w", err)
+		errs = append(errs, fmt.Errorf("show cursor: %w", err))
 	}
 	// a.disableMouse()
 
@@ -44,10 +46,10 @@ func (a *appRunner) restoreTerminal() error {
 	// time.Sleep(time.Millisecond * 10) //nolint:gomnd
 	// }
 	if err := a.terminal.DisableRawMode(); err != nil {
-		return fmt.Errorf("disable raw mode: %w", err)
+		errs = append(errs, fmt.Errorf("disable raw mode: %w", err))
 	}
 
-	return nil
+	return errors.Join(errs...)
 }
 
 func (a *appRunner) initCancelReader() error {
-- 
2.43.0


From c0e80ff5efdde1740c14fd6e3c439d832838e739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:31 +0000
Subject: [PATCH 46/57] fix: end the app with an error when the model or a
 command panics

---
 app.go | 43 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/app.go b/app.go
index 666d436..e86c0f5 100644
--- a/app.go
+++ b/app.go
@@ -194,15 +194,21 @@ func (a *appRunner) Run() (model Model, err error) {
 		}
 	}()
 
-	defer a.recoverFromPanic()
-
 	// Give the terminal back however the app ends.
 	defer func() {
 		if shutdownErr := a.shutdown(); shutdownErr != nil && err == nil {
 			err = fmt.Errorf("shutdown: %w", shutdownErr)
 		}
+
+		var panicErr *panicError
+		if errors.As(err, &panicErr) {
+			fmt.Printf("Caught panic:\n\n%v\n\n", panicErr.value)
+			os.Stderr.Write(panicErr.stack)
+		}
 	}()
 
+	defer a.recoverFromPanic(&err)
+
 	err = a.init()
 	if err != nil {
 		return a.model, fmt.Errorf("init: %w", err)
@@ -279,7 +285,7 @@ func (a *appRunner) handleCmd(cmd Cmd) {
 	// possible to cancel them so we'll have to leak the goroutine
 	// until Cmd returns.
 	go func() {
-		defer a.recoverFromPanic()
+		defer a.recoverFromCmdPanic()
 
 		msg := cmd() // this can be long.
 		a.Send(msg)
@@ -349,6 +355,8 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 
 // execSequence executes commands one at a time, in order.
 func (a *appRunner) execSequence(cmds sequenceMsg) {
+	defer a.recoverFromCmdPanic()
+
 	for _, cmd := range cmds {
 		a.execCmd(cmd)
 	}
@@ -361,6 +369,8 @@ func (a *appRunner) execBatch(cmds BatchMsg) {
 	for _, cmd := range cmds {
 		cmd := cmd
 		g.Go(func() error {
+			defer a.recoverFromCmdPanic()
+
 			a.execCmd(cmd)
 			return nil
 		})
@@ -386,11 +396,30 @@ func (a *appRunner) execCmd(cmd Cmd) {
 	}
 }
 
-func (a *appRunner) recoverFromPanic() {
+// panicError is the error an app ends with when its model or a command panics.
+type panicError struct {
+	value any
+	stack []byte
+}
+
+func (e *panicError) Error() string {
+	return fmt.Sprintf("panic: %v", e.value)
+}
+
+// recoverFromPanic turns a panic of the model into an error.
+func (a *appRunner) recoverFromPanic(err *error) {
+	if r := recover(); r != nil {
+		*err = &panicError{value: r, stack: debug.Stack()}
+	}
+}
+
+// recoverFromCmdPanic ends the app with an error when a command panics.
+func (a *appRunner) recoverFromCmdPanic() {
 	if r := recover(); r != nil {
-		a.shutdown()
-		fmt.Printf("Caught panic:\n\n%s\n\nRestoring terminal...\n\n", r)
-		debug.PrintStack()
+		select {
+		case <-a.ctx.Done():
+		case a.errs <- &panicError{value: r, stack: debug.Stack()}:
+		}
 	}
 }
 
-- 
2.43.0


From ef966f9a2792bc66bd9540b8b5857c67e64dc4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:31 +0000
Subject: [PATCH 47/57] fix: report errors of the terminal size

---
 tty.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tty.go b/tty.go
index 81718b0..125e3ba 100644
--- a/tty.go
+++ b/tty.go
@@ -93,10 +93,6 @@ func (a *appRunner) waitForReadLoop() {
 // via a WindowSizeMsg.
 func (a *appRunner) checkResize() {
 	size, ok, err := a.terminal.Size()
-	if !ok {
-		return
-	}
-
 	if err != nil {
 		select {
 		case <-a.ctx.Done():
@@ -106,5 +102,9 @@ func (a *appRunner) checkResize() {
 		return
 	}
 
+	if !ok {
+		return
+	}
+
 	a.Send(WindowSizeMsg(size))
 }
-- 
2.43.0


From 158c77628cf1ec71bafe9af933ba119ff19103b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:32 +0000
Subject: [PATCH 48/57] fix: stop reading the input when the app ends

---
 app.go | 8 ++++++++
 tty.go | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/app.go b/app.go
index e86c0f5..d86f69d 100644
--- a/app.go
+++ b/app.go
@@ -428,6 +428,14 @@ func (a *appRunner) shutdown() error {
 
 	a.handlers.shutdown()
 
+	if a.cancelReader != nil {
+		if a.cancelReader.Cancel() {
+			a.waitForReadLoop()
+		}
+
+		_ = a.cancelReader.Close()
+	}
+
 	return a.restore()
 }
 
diff --git a/tty.go b/tty.go
index 125e3ba..4de7b1f 100644
--- a/tty.go
+++ b/tty.go
@@ -53,7 +53,7 @@ func (a *appRunner) restoreTerminal() error {
 }
 
 func (a *appRunner) initCancelReader() error {
-	r, err := newInputReader(a.terminal)
+	r, err := newInputReader(a.terminal.Input())
 	if err != nil {
 		return fmt.Errorf("new reader: %w", err)
 	}
-- 
2.43.0


From f4662a093b29c779b4130404b0679bbdf1f50669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:06 +0000
Subject: [PATCH 49/57] fix: do not miss or reorder window sizes

The initial size was sent by a goroutine of its own, so that a resize at
the start could be missed, be overtaken by the older size, or be handled
after the app had ended.
---
 app.go             | 6 ++----
 signals_unix.go    | 7 ++++---
 signals_windows.go | 5 +++--
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/app.go b/app.go
index d86f69d..b040900 100644
--- a/app.go
+++ b/app.go
@@ -295,10 +295,8 @@ func (a *appRunner) handleCmd(cmd Cmd) {
 func (a *appRunner) handleResize() {
 	ch := make(chan struct{})
 
-	// Get the initial terminal size and send it to the program.
-	go a.checkResize()
-
-	// Listen for window resizes.
+	// Send the initial terminal size to the program and listen for window
+	// resizes. This is done by one goroutine so that sizes arrive in order.
 	go a.listenForResize(ch)
 
 	a.handlers.add(ch)
diff --git a/signals_unix.go b/signals_unix.go
index 3a25748..52772ca 100644
--- a/signals_unix.go
+++ b/signals_unix.go
@@ -9,7 +9,8 @@ import (
 	"syscall"
 )
 
-// listenForResize sends messages (or errors) when the terminal resizes.
+// listenForResize sends messages (or errors) with the initial size of the
+// terminal and when it resizes.
 // Argument output should be the file descriptor for the terminal; usually
 // os.Stdout.
 func (a *appRunner) listenForResize(done chan struct{}) {
@@ -22,12 +23,12 @@ func (a *appRunner) listenForResize(done chan struct{}) {
 	}()
 
 	for {
+		a.checkResize()
+
 		select {
 		case <-a.ctx.Done():
 			return
 		case <-sig:
 		}
-
-		a.checkResize()
 	}
 }
diff --git a/signals_windows.go b/signals_windows.go
index 43fb53f..de188c5 100644
--- a/signals_windows.go
+++ b/signals_windows.go
@@ -3,8 +3,9 @@
 
 package bento
 
-// listenForResize is not available on windows because windows does not
-// implement syscall.SIGWINCH.
+// listenForResize only sends the initial size of the terminal on windows
+// because windows does not implement syscall.SIGWINCH.
 func (a *appRunner) listenForResize(done chan struct{}) {
+	a.checkResize()
 	close(done)
 }
-- 
2.43.0


From fc77efa14c82ae6a2fc9d4df4e1f8997791eb2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:27 +0000
Subject: [PATCH 50/57] fix: do not spin on a huge scroll padding of a list

---
 widget/listwidget/list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/widget/listwidget/list.go b/widget/listwidget/list.go
index cb53940..d2a47a6 100644
--- a/widget/listwidget/list.go
+++ b/widget/listwidget/list.go
@@ -305,7 +305,7 @@ func (l List) applyScrollPaddingToSelectedIndex(selected int, maxHeight, firstVi
 	// where the offset would have excluded some items that we want to include, or could
 	// cause the offset value to be set to an inconsistent value each time we render.
 	// The padding value will be reduced in case any of these issues would occur
-	scrollPadding := l.scrollPadding
+	scrollPadding := min(l.scrollPadding, len(l.items))
 
 	for scrollPadding > 0 {
 		var heightAroundSelected int
-- 
2.43.0


From 5756dabce0668d83721f4028ec6c4bd6769b0cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:09 +0000
Subject: [PATCH 51/57] fix: a negative list offset made rendering the list
 panic

---
 widget/listwidget/state.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/widget/listwidget/state.go b/widget/listwidget/state.go
index ac9c720..1a60302 100644
--- a/widget/listwidget/state.go
+++ b/widget/listwidget/state.go
@@ -65,7 +65,7 @@ func (s *State) update(key bento.Key) bool {
 }
 
 func (s *State) SetOffset(offset int) {
-	s.offset = offset
+	s.offset = max(0, offset)
 }
 
 func (s *State) Select(index int) {
-- 
2.43.0


From 2de16fe06c6923be0a05a67357441bd911827fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:09 +0000
Subject: [PATCH 52/57] fix: a paragraph scrolled by a negative number of rows
 was drawn outside of its area

---
 widget/paragraphwidget/paragraph.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/widget/paragraphwidget/paragraph.go b/widget/paragraphwidget/paragraph.go
index c43369e..7a75e74 100644
--- a/widget/paragraphwidget/paragraph.go
+++ b/widget/paragraphwidget/paragraph.go
@@ -137,13 +137,15 @@ func (p Paragraph) render(textArea bento.Rect, buffer *bento.Buffer) {
 func (p Paragraph) renderText(composer reflow.LineComposer, area bento.Rect, buffer *bento.Buffer) {
 	var y int
 
+	scroll := max(0, p.Scroll.Y)
+
 	for {
 		currentLine, ok := composer.NextLine()
 		if !ok {
 			break
 		}
 
-		if y >= p.Scroll.Y {
+		if y >= scroll {
 			x := getLineOffset(currentLine.Width, area.Width, currentLine.Alignment)
 
 			for _, grapheme := range currentLine.Line {
@@ -161,7 +163,7 @@ func (p Paragraph) renderText(composer reflow.LineComposer, area bento.Rect, buf
 				buffer.
 					CellAt(bento.Position{
 						X: area.Left() + x,
-						Y: area.Top() + y - p.Scroll.Y,
+						Y: area.Top() + y - scroll,
 					}).
 					SetSymbol(symbol).
 					SetStyle(grapheme.Style)
@@ -172,7 +174,7 @@ func (p Paragraph) renderText(composer reflow.LineComposer, area bento.Rect, buf
 
 		y++
 
-		if y >= area.Height+p.Scroll.Y {
+		if y >= area.Height+scroll {
 			break
 		}
 	}
-- 
2.43.0


From 0fbd1b0cb170da990238fb811ad9eb6f05aa6125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:14 +0000
Subject: [PATCH 53/57] fix: close the terminal opened for input when its size
 can't be read

---
 app.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/app.go b/app.go
index b040900..e868f91 100644
--- a/app.go
+++ b/app.go
@@ -126,6 +126,10 @@ func (a App) Run() (Model, error) {
 	backend := NewDefaultBackend(input, a.output)
 	terminal, err := NewTerminal(&backend, ViewportFullscreen{})
 	if err != nil {
+		if closeInput != nil {
+			_ = closeInput()
+		}
+
 		return nil, fmt.Errorf("new terminal: %w", err)
 	}
 
-- 
2.43.0


From df2306df59ff262208ccfbeb155e7bd0f32177ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:55 +0000
Subject: [PATCH 54/57] fix: padding too large for integers yields an empty
 rectangle

---
 rect.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/rect.go b/rect.go
index f531d38..d268658 100644
--- a/rect.go
+++ b/rect.go
@@ -51,10 +51,8 @@ func (r Rect) Bottom() int {
 }
 
 func (r Rect) Inner(padding Padding) Rect {
-	horizontal := padding.Right + padding.Left
-	vertical := padding.Top + padding.Bottom
-
-	if r.Width < horizontal || r.Height < vertical {
+	// Sums of the sides may exceed the range of integers.
+	if padding.Left > r.Width-padding.Right || padding.Top > r.Height-padding.Bottom {
 		return Rect{}
 	}
 
@@ -63,8 +61,8 @@ func (r Rect) Inner(padding Padding) Rect {
 			r.X+padding.Left,
 			r.Y+padding.Top,
 		),
-		Width:  max(0, r.Width-horizontal),
-		Height: max(0, r.Height-vertical),
+		Width:  max(0, r.Width-padding.Left-padding.Right),
+		Height: max(0, r.Height-padding.Top-padding.Bottom),
 	}
 }
 
-- 
2.43.0


From bda241eaccd93240297b506889508f0c364b4ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:55 +0000
Subject: [PATCH 55/57] fix: do not overflow integers for scrollbars of huge
 contents

---
 widget/scrollwidget/scroll.go | 11 ++++++-----
 widget/scrollwidget/state.go  |  4 ++--
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/widget/scrollwidget/scroll.go b/widget/scrollwidget/scroll.go
index b6408ca..03b5475 100644
--- a/widget/scrollwidget/scroll.go
+++ b/widget/scrollwidget/scroll.go
@@ -213,15 +213,16 @@ func (s Scroll) partLens(
 	// Ensure that the position of the thumb is within the bounds of the content taking into
 	// account the content and viewport length. When the last line of the content is at the top
 	// of the viewport, the thumb should be at the bottom of the track.
+	// These are floats since their sums and products may exceed the range of integers.
 	maxPosition := max(0, state.contentLen-1)
-	startPosition := max(0, min(maxPosition, state.position))
-	maxViewportPosition := maxPosition + viewportLen
-	endPosition := startPosition + viewportLen
+	startPosition := float64(max(0, min(maxPosition, state.position)))
+	maxViewportPosition := float64(maxPosition) + float64(viewportLen)
+	endPosition := startPosition + float64(viewportLen)
 
 	// Calculate the start and end positions of the thumb. The size will be proportional to the
 	// viewport length compared to the total amount of possible visible rows.
-	thumbStartF := float64(startPosition*trackLen) / float64(maxViewportPosition)
-	thumbEndF := float64(endPosition*trackLen) / float64(maxViewportPosition)
+	thumbStartF := startPosition * float64(trackLen) / maxViewportPosition
+	thumbEndF := endPosition * float64(trackLen) / maxViewportPosition
 
 	// Make sure that the thumb is at least 1 cell long by ensuring that the start of the thumb
 	// is less than the track_len. We use the positions instead of the sizes and use nearest
diff --git a/widget/scrollwidget/state.go b/widget/scrollwidget/state.go
index b48c7ae..183862a 100644
--- a/widget/scrollwidget/state.go
+++ b/widget/scrollwidget/state.go
@@ -49,12 +49,12 @@ func (s *State) SetViewportContentLen(l int) *State {
 
 // Decrements the scroll position by one, ensuring it doesn't go below zero.
 func (s *State) Prev() {
-	s.position = max(0, s.position-1)
+	s.position = max(1, s.position) - 1
 }
 
 // Increments the scroll position by one, ensuring it doesn't exceed the length of the content.
 func (s *State) Next() {
-	s.position = min(s.position+1, max(0, s.contentLen-1))
+	s.position = min(s.position, max(0, s.contentLen-1)-1) + 1
 }
 
 func (s *State) First() {
-- 
2.43.0


From 6d48c58db5378bd774a4f4395d180fc2cdc8860f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:17 +0000
Subject: [PATCH 56/57] fix: repaint after a draw that failed or panicked

An error of the backend or a panic of the widget left the unfinished frame in
the buffer, so that the next frame did not start out blank, and what had been
shown of it was not replaced.
---
 terminal.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/terminal.go b/terminal.go
index 9e71d4a..bfbdc7b 100644
--- a/terminal.go
+++ b/terminal.go
@@ -26,6 +26,10 @@ type Terminal struct {
 
 	hiddenCursor bool
 
+	// unfinished is set while a frame is drawn or the terminal is cleared, and
+	// stays set if that fails: what the terminal shows is unknown then.
+	unfinished bool
+
 	frameCount int
 }
 
@@ -118,6 +122,14 @@ func (t *Terminal) DisableRawMode() error {
 }
 
 func (t *Terminal) Draw(widget Widget) (CompletedFrame, error) {
+	if t.unfinished {
+		if err := t.Clear(); err != nil {
+			return CompletedFrame{}, fmt.Errorf("clear: %w", err)
+		}
+	}
+
+	t.unfinished = true
+
 	frame := t.GetFrame()
 
 	frame.RenderWidget(widget, frame.Area())
@@ -153,6 +165,7 @@ func (t *Terminal) Draw(widget Widget) (CompletedFrame, error) {
 	}
 
 	t.frameCount++
+	t.unfinished = false
 
 	return completedFrame, nil
 }
@@ -244,6 +257,12 @@ func (t *Terminal) Resize(area Rect) error {
 }
 
 func (t *Terminal) Clear() error {
+	if t.unfinished {
+		t.CurrentBuffer().Reset()
+	}
+
+	t.unfinished = true
+
 	switch t.viewport.(type) {
 	case ViewportFullscreen:
 		if err := t.backend.ClearAll(); err != nil {
@@ -272,6 +291,7 @@ func (t *Terminal) Clear() error {
 	}
 
 	t.PreviousBuffer().Reset()
+	t.unfinished = false
 
 	return nil
 }
-- 
2.43.0


From 2a3f6676167b9ce4c7f2c4a932ba38cd8291bda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:36 +0000
Subject: [PATCH 57/57] fix: reports of unknown control sequences change with
 the next read

They shared the memory of the buffer that input is read into.
---
 input.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/input.go b/input.go
index bd21f8a..4883b26 100644
--- a/input.go
+++ b/input.go
@@ -890,7 +890,8 @@ func detectSequence(input []byte) (hasSeq bool, width int, msg Msg) {
 	}
 	// Is this an unknown CSI sequence?
 	if loc := unknownCSIRe.FindIndex(input); loc != nil {
-		return true, loc[1], unknownCSISequenceMsg(input[:loc[1]])
+		// The input is a buffer that is read into again.
+		return true, loc[1], unknownCSISequenceMsg(bytes.Clone(input[:loc[1]]))
 	}
 
 	return false, 0, nil
-- 
2.43.0

