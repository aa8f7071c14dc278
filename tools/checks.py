#!/usr/bin/env python3
"""Writes ../checks.json: how each property is decided. Then run `run.py manifest`."""
import json, os
checks = {}
def C(id, technique, rule, note, tests, assumptions=(), **kw):
    checks[id] = dict(pkg="props/" + id.lower(), technique=technique, rule=rule, level_note=note,
                      assumptions=list(assumptions), tests=tests, **kw)

UNISEG = "the width of a grapheme cluster is what uniseg says, the measure library and harness share"

C("C01", "stateful property-based testing (rapid) of draw/resize/clear histories against a terminal emulator",
  "A case is a colour profile, a viewport and a generated history of draw, redraw, blank, resize and clear operations on a pseudo terminal, in a third of the cases with calls of its backend that fail having done all, some or nothing, and widgets that panic. Non-trivial: at least two draws, so that the second depends on the first; distinct by the whole history.",
  "Searches generated histories only; trusts the harness's own terminal emulator, uniseg for cluster widths (which the library uses as well) and termenv for converting colours to reduced profiles.",
  {"TestProperty": [240000, 3000000]},
  ["frames are well-formed: symbols of width 1 or 2, wide ones followed by a blank cell and not in the last column", "the terminal measures clusters as uniseg does"])
C("C02", "property-based testing (rapid): generated buffer pairs, the listed changes applied to a model screen",
  "A case is a pair of well-formed buffers of one area. Non-trivial: the buffers differ; distinct by the content of both.",
  "Searches generated pairs up to the drawn sizes; the oracle is a screen model with wide cells.",
  {"TestProperty": [600000, 6000000]}, [UNISEG, "buffers are well-formed: symbols of width 1 or 2"])
C("C03", "property-based testing (rapid): generated strings, budgets and positions against a cluster-wise reference writer",
  "A case is a buffer, a start position, a string, a width budget and a style. Non-trivial: the string has at least one cluster with width and room to be written; distinct by all of it.",
  "Searches generated inputs; cluster boundaries and widths are those of uniseg.",
  {"TestProperty": [1600000, 16000000]}, [UNISEG])
C("C04", "property-based testing (rapid): algebraic laws over generated styles, setter chains and regions",
  "A case is a pair of styles and a cell with a chain of setters, a buffer with a region, or calls on a cell. Non-trivial: the styles set something, the region meets the buffer, or there is more than one call; distinct by all of it.",
  "Searches generated values; the oracle is a set model of colours and modifiers.",
  {"TestAlgebra": [750000, 7500000], "TestRegion": [500000, 5000000], "TestCell": [300000, 3000000]})
C("C05", "property-based testing (rapid): generated layouts and areas against the tiling invariant",
  "A case is a layout (constraints, flex, spacing, padding, direction) and an area. Non-trivial: at least two constraints and a padded area that is not empty; distinct by all of it.",
  "Searches generated layouts of up to 36 constraints; no reference needed, the invariant decides.",
  {"TestProperty": [100000, 4000000]}, ["constraint values are not negative"])
C("C06", "property-based testing (rapid): generated layouts against an exact rational linear program, and direct size rules",
  "A case is a layout of up to 7 constraints of any kind with flex, spacing or overlap and a size. Non-trivial: at least two constraints and a size above zero (for the direct rules: something left to share); distinct by all of it.",
  "Searches generated layouts. The reference minimises the weighted violation exactly over rationals and once more with positions bound to those that round to the result; both must be equal. The weights by priority are part of the reference; the direct rules (exact lengths, limits, proportional fills where there is room) do without them.",
  {"TestOptimal": [120000, 4000000], "TestRoom": [60000, 2000000]}, ["constraint values are not negative"])
C("C07", "metamorphic property-based testing (rapid): repeated, moved, transposed and concurrent splits of generated layouts",
  "A case is a layout, an area and an offset. Non-trivial: at least two constraints, a padded area that is not empty and an offset other than zero; distinct by all of it.",
  "Searches generated layouts; compares the code with itself, so errors common to both sides go to C05, C06 and C08.",
  {"TestProperty": [40000, 1500000], "TestConcurrent": [4000, 150000]}, ["constraint values are not negative"])
C("C08", "property-based testing (rapid): generated fitting layouts against exact (rational) expected positions",
  "A case is a flex mode, lengths that fit with their spacing, an excess, padding, direction and offset. Non-trivial: at least two segments and some excess; distinct by all of it.",
  "Searches generated layouts of up to 20 lengths; positions must be within half a cell of the exact ones.",
  {"TestProperty": [60000, 2000000]}, ["a single segment takes all of the area under space-between"])
C("C09", "stateful property-based testing (rapid): constraint histories on the solver against an exact rational simplex",
  "A case is a number of variables and a history of added constraints (and resets), checked after each; or a tree of operations on expressions. Non-trivial: more than two constraints, one of them not required (or an expression used twice); distinct by the history.",
  "Searches generated histories of up to 12 constraints over up to 5 variables; a history ends at the first rejected constraint, after which the solver promises nothing.",
  {"TestProperty": [300000, 10000000], "TestExpressions": [100000, 3000000]}, ["the reference simplex (exact rationals, Bland's rule when stalling) is right"])
C("C10", "property-based testing (rapid): generated widgets of every kind, nested, in generated areas of a buffer with known surroundings",
  "A case is a widget of any of 14 kinds with generated content, settings and state history (blocks and popups hold further widgets), a buffer at any offset and an area of it. Non-trivial: the area is not empty and not the whole buffer; distinct by all of it.",
  "Searches generated widgets and areas of up to 36x12; every cell of the buffer is compared. What is drawn inside of the area is the subject of C11 to C19.",
  {"TestProperty": [600000, 6000000]}, [UNISEG])
C("C11", "property-based testing (rapid): generated texts, lines and spans against a column-wise reference renderer",
  "A case is a text, line or span with styles and alignments, an area and a buffer, or a chain of setters on them. Non-trivial: something visible is to be shown in an area that is not empty (for setters: more than two); distinct by all of it.",
  "Searches generated content; cluster boundaries and widths are those of uniseg.",
  {"TestText": [240000, 2400000], "TestLine": [320000, 3200000], "TestSpan": [320000, 3200000], "TestPrint": [320000, 3200000], "TestBuffer": [160000, 1600000], "TestSetters": [80000, 800000], "TestZeroWidth": [80000, 800000]}, [UNISEG])
C("C12", "property-based and metamorphic testing (rapid): generated paragraphs, their rows read back cluster by cluster against the rules of wrapping",
  "A case is a paragraph (lines of words and whitespace with styles and alignments), its wrapping, scroll, block and area. Non-trivial: the area is not empty and at least one line is wrapped (or, unwrapped, there are two lines); distinct by all of it.",
  "Searches generated paragraphs of up to 4 lines. Wrapping is judged by its promises (order, completeness, greedy rows, words kept whole), each line read back on its own with every cluster marked; the paragraph as drawn must then show exactly those rows. Sideways scrolling is checked for left aligned lines only.",
  {"TestWrap": [300000, 8000000], "TestTruncate": [300000, 6000000]}, [UNISEG])
C("C13", "stateful property-based testing (rapid): histories of selection, scrolling, item changes and renders against a window model",
  "A case is a list's settings and a history of operations with renders between them. Non-trivial: at least two renders, two items, and a render in which the window had to move; distinct by the history.",
  "Searches generated histories of up to 14 operations on lists of up to some 20 items. What is shown when the selected item alone is taller than the area is not specified.",
  {"TestProperty": [360000, 4000000]}, [UNISEG])
C("C14", "stateful property-based testing (rapid): key histories against a reference text field, rendered at any width in between",
  "A case is an input's settings and a history of keys, pastes, method calls and renders. Non-trivial: at least two renders, one of them too narrow for all of the text; distinct by the history.",
  "Searches generated histories of up to 25 operations. With zero-width clusters in the text (TestZeroWidth) only the value and the safety of rendering are checked.",
  {"TestProperty": [50000, 1500000], "TestZeroWidth": [30000, 500000]}, [UNISEG, "clusters typed one after the other do not merge into one"])
C("C15", "property-based testing (rapid): generated blocks against a cell-wise reference of borders, titles and inner area",
  "A case is a chain of setters, titles included, and an area. Non-trivial: the area is not empty and there is a border or a title; distinct by all of it.",
  "Searches generated blocks. Where titles overlap and one of them holds a wide cluster, their row is not checked.",
  {"TestProperty": [1200000, 12000000], "TestBorderSet": [100000, 1000000]}, [UNISEG, "paddings are not negative"])
C("C16", "stateful property-based testing (rapid): histories of position changes, the drawn bar against exact proportions",
  "A case is an orientation, an area, content and viewport lengths and a history of position changes, drawn after each. Non-trivial: at least two bars drawn; distinct by all of it.",
  "Searches generated histories; thumb ends must be within rounding of the exact proportion. Negative positions are only drawn as the first one.",
  {"TestProperty": [750000, 7500000]})
C("C17", "property-based testing (rapid): generated gauges against exact proportions, ratio setters over all floats",
  "A case is a gauge (ratio, label, styles, unicode mode) and an area; or a ratio or percentage to set. Non-trivial: the inner area is not empty and the ratio is not zero (for setters: a value at or beyond the limits, or not a number); distinct by all of it.",
  "Searches generated gauges. The fill is compared with the exact proportion; where a partly filled cell starts is checked by eighths.",
  {"TestProperty": [900000, 9000000], "TestRange": [600000, 6000000]}, [UNISEG])
C("C18", "property-based testing (rapid): generated tabs against a cell-wise reference row",
  "A case is a list of titles with divider, paddings, styles, selection, block and area. Non-trivial: at least two titles and an area that is not empty; distinct by all of it.",
  "Searches generated tabs. What is shown in the column behind a wide cluster that was cut is not specified.",
  {"TestProperty": [600000, 6000000]}, [UNISEG])
C("C19", "property-based testing (rapid): generated popups, fills, clears and throbbers over sentinel content against cell-wise references",
  "A case is prior content, an area and a popup (sizes of any kind, place, padding, style, block, content), a fill, a clear, or a throbber after a number of steps. Non-trivial: the covered rectangle is neither empty nor all there is (for throbbers: not empty); distinct by all of it.",
  "Searches generated widgets. Place and size are judged by direct rules; block and content are drawn once more by themselves for comparison, their own look is C15's.",
  {"TestPopup": [120000, 2000000], "TestFill": [120000, 1500000], "TestThrobber": [120000, 1500000]}, ["symbols to fill with are one column wide"])
OV = {"zz_verif_export.go": "overlay/zz_verif_export.go"}
AMB = "pairs of encodings that terminals send alike are not generated next to each other: a lone escape followed by more in the same read, alt+[ and alt+O before what completes a sequence, alt+esc before [ or O, the loss of focus before A to D"
C("C20", "property-based testing (rapid): generated histories of user actions, encoded as terminals do, against the messages they stand for",
  "A case is a history of actions (text, control keys, special keys, alt, pastes, focus, mouse) arriving in pieces that end between actions. Non-trivial: at least two actions of different kinds; distinct by the bytes and pieces.",
  "Searches generated histories of up to 35 actions; the reference is the harness's own table of sequences and its own encoder of mouse reports. Needs the unexported decoder, exported to the harness by an overlay file; if that does not build, an app is run on a pseudo terminal and typed at instead.",
  {"TestProperty": [800000, 15000000]}, [AMB], overlay=OV)
C("C21", "property-based and metamorphic testing (rapid): arbitrary bytes in arbitrary reads, shifted against the read buffer",
  "A case is a stream of bytes (actions, fragments and truncations of sequences, invalid UTF-8, anything) in pieces, mostly around the end of the read buffer. Non-trivial: the stream is longer than a few bytes, reaches a full buffer (boundary tests) or holds invalid bytes next to valid ones (noise); distinct by bytes and pieces.",
  "Searches generated streams. Boundary independence is judged against the actions the stream was made of, or against the same bytes placed elsewhere in the buffer. If the overlay does not build, only the tests that need no control over reads run.",
  {"TestBoundary": [60000, 2000000], "TestTotal": [60000, 2000000], "TestShift": [60000, 2000000], "TestNoise": [60000, 2000000], "TestTruncated": [60000, 2000000], "TestUnknown": [60000, 2000000]}, [AMB], overlay=OV)
C("C22", "fault-injecting property-based testing (rapid): apps on a pseudo terminal, ended in any way at any point, the terminal inspected afterwards",
  "A case is what ends the app (quit, cancellation, panic, failing output or input), where and when that happens, perhaps twice, what else goes on meanwhile, and the terminal's settings. Non-trivial: it happens once the app is running; distinct by all of it.",
  "Searches generated faults and schedules of the Go runtime as they come, with 1 to 4 processors. After the output failed only settings and input are checked, after the input failed only screen and modes: the other side cannot be reached.",
  {"TestProperty": [60000, 1500000]}, ["output, once it fails, keeps failing"], gomaxprocs=4)
C("C23", "stateful property-based testing (rapid, race detector): trees of commands, keys and resizes delivered to a recording model on a pseudo terminal",
  "A case is a tree of batches and sequences returned by init, trees returned by updates and by keys, text typed and resizes meanwhile, number of processors and yields. Non-trivial: more than one command and at least one sequence; distinct by all of it.",
  "Searches generated trees of up to some 30 commands and schedules as the Go runtime produces them under the race detector; nothing due happening for 20 s counts as lost.",
  {"TestProperty": [32000, 500000]}, (), race=True, gomaxprocs=4, shrinktime="10s")
C("C24", "fault-injecting property-based testing (rapid): apps on a pseudo terminal, ended in any way at any point under any load",
  "A case is what ends the app (quit, cancellation, deadline, panic, failing output or input, hang-up, no terminal), where and when, perhaps twice, and the load: producers, blocked commands, sequences, batches, typing, resizes. Non-trivial: the app is running and loaded; distinct by all of it.",
  "Searches generated faults and schedules of the Go runtime as they come, with 1 to 4 processors; not having returned after 20 s counts as hanging.",
  {"TestProperty": [100000, 3000000]}, ["output, once it fails, keeps failing"], gomaxprocs=4, shrinktime="10s")
C("C25", "stateful property-based testing (rapid): trees of builder calls, every earlier value observed again after each call",
  "A case is a kind of value and a tree of builder calls on it. Non-trivial: at least one value had two calls made on it, so that they could interfere; distinct by the tree and the initial content.",
  "Searches generated call trees of up to 9 calls; values are observed by rendering them and by their exported fields.",
  {"TestProperty": [60000, 2000000]}, ["callers do not change slices they have passed in"])
C("C26", "property-based testing (rapid): generated strings against an independent line splitter and round trips",
  "A case is a string, a way to build text from it, a style and an alignment, or a history of appending lines and spans to a text. Non-trivial: more than one line or more than 4096 bytes; distinct by all of it.",
  "Searches generated strings of up to some 70 kB and 300 lines.",
  {"TestProperty": [110000, 2000000], "TestAppending": [100000, 2000000]}, [UNISEG, "a carriage return at the very end of a string, without a newline, is not generated: bufio.ScanLines, whose rules the library follows, removes it"])
C("C27", "property-based testing (rapid): generated rectangles and paddings against sets of positions",
  "A case is a pair of rectangles, a padding with a chain of setters and an indent. Non-trivial: both rectangles hold a position; distinct by all of it.",
  "Searches generated values; the oracle enumerates the positions of each rectangle, or looks around the corners of those too large for that.",
  {"TestProperty": [1700000, 18000000], "TestLarge": [300000, 5000000]}, ["sides and paddings are not negative"])
C("C28", "stateful property-based testing (rapid): several throbbers and their ticks in flight against a step-counting model",
  "A case is a history of starting throbbers and delivering ticks and other messages to them in any order. Non-trivial: at least one message consumed and one refused; distinct by the history.",
  "Searches generated histories; the initial tick of a throbber is started and delivered once only.",
  {"TestProperty": [40000, 1500000]}, ["the first tick, made before any step, is not delivered twice"])

C("C29", "stateful property-based testing (rapid): histories of resizes of a pseudo terminal, sizes told and frames on the screen compared",
  "A case is a first size, a history of resizes and typed text with pauses, beginning before or after the app listens, a pattern to draw, the time updates take and the number of processors. Non-trivial: at least two changes; distinct by all of it.",
  "Searches generated histories of up to 8 changes and schedules as the Go runtime produces them; a size that was not told within 20 s counts as missed.",
  {"TestProperty": [32000, 800000]}, ["sizes are at least 1x1"], gomaxprocs=4, shrinktime="10s")
C("C30", "fault-injecting property-based testing (rapid): goroutines and files of the process counted before and after apps ended in any way",
  "A case is what ends the app, where and when, perhaps twice, and the load. Non-trivial: the app is running and loaded; distinct by all of it.",
  "Searches generated faults and schedules of the Go runtime as they come, with 1 to 4 processors; what is still there after 20 s counts as left.",
  {"TestProperty": [24000, 600000]}, (), gomaxprocs=4, shrinktime="10s")

C("C31", "metamorphic property-based testing (rapid): sequences of draws of generated widgets into moved areas of other buffers, compared with the first",
  "A case is a widget of any of 14 kinds with generated content, settings and state, prior content, and a sequence of draws into areas of one size at several places, with other sizes and another widget in between. Non-trivial: the area is not empty and at least two places differ; distinct by all of it.",
  "Searches generated widgets and areas of up to 36x12; compares the code with itself, what is drawn is the subject of C11 to C19.",
  {"TestProperty": [240000, 5000000]}, [UNISEG])

C("C32", "stateful property-based testing (rapid): histories of backend operations against a model of the terminal, compared with a terminal emulator",
  "A case is a terminal with line settings, or an output that is none, of a size, and a history of operations. Non-trivial: something drawn, something cleared and a mode switched; distinct by the whole history.",
  "Searches generated histories on screens of up to 12x6; trusts the harness's own terminal emulator. The position of the cursor itself (which is asked of the process's controlling terminal) is not read back.",
  {"TestProperty": [240000, 4000000]},
  ["cells are updated as the difference of buffers has them: the column after a wide cluster is not updated", "modes are switched on and off in turn"])

NOTES = "All checks: python3 run.py check ID builds the check against /repo's working tree and runs it in 8 processes with seeds derived from VERIF_SEED. A failing case is shrunk by rapid and stored under replays/; python3 run.py replay FILE runs it again."
out = {"notes": NOTES, "not_applicable": {}, "checks": dict(sorted(checks.items()))}
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "checks.json"), "w") as f:
    json.dump(out, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(checks))
