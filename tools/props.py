#!/usr/bin/env python3
"""Writes ../properties.jsonl. One P(...) per property."""
import json, os
out = []
def P(id, title, statement, over, q, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    out.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": q},
                "why_tests_cant": why, "anchors": a})

P("C01", "After any history of draws the terminal shows exactly the rendered frame",
  "After every successful draw, whatever draws, resizes and clears preceded it, failed ones and ones a widget's panic ended included, the cells a terminal displays inside the viewport are exactly those of the frame the widget rendered: symbol, foreground, background and every text attribute (colours as far as the terminal's colour profile can show them), wide characters whole. Every frame starts out blank. A draw leaves the cursor hidden and no colour or attribute switched on. A draw, resize or clear returns the error of the terminal that made it fail, and no other.",
  ["histories", "inputs", "configurations", "fault_sequences"], "every sequence of draw, redraw, resize and clear, with failures of the terminal at any call and panics of the widget, every well-formed frame content (styles, wide clusters), every colour profile, fullscreen and fixed viewports",
  "No test covers the terminal, the diffing or the escape sequences at all; the guarantee is about unbounded histories where each frame's output depends on the one before it.",
  ["terminal.go", "terminal_backend.go", "buffer.go", "internal/ansi/command.go", "internal/ansi/attr.go"],
  [("double buffering and diffing", "terminal.go: Draw, Flush, SwapBuffers, Resize, Clear"), ("attribute and colour deltas", "terminal_backend.go: DefaultBackend.Draw, _StyleModifierDiff")],
  ["bytes written to the terminal, interpreted by a terminal emulator"],
  [("buffers/current", "the frame being rendered and the one on screen", "terminal.go")])

P("C02", "The difference of two buffers turns one screen into the other, minimally",
  "Sending the difference from buffer A to buffer B to a screen that shows A makes it show B, for any two well-formed buffers of the same area. The difference lists positions in row-major order, each at most once and with B's cell, never the covered half of a wide symbol or a cell marked to be skipped. A cell is listed only if it differs or had been covered by a wide symbol; equal buffers have an empty difference.",
  ["inputs"], "every pair of well-formed buffers of one area, any offset, wide symbols starting, ending and overlapping anywhere, skipped cells",
  "No test calls the diff; correctness depends on every relative placement of wide symbols in the two buffers.",
  ["buffer.go"], [("invalidated/toSkip counters", "buffer.go: Buffer.Diff"), ("index to position", "buffer.go: PosOf")], ["the returned list of positioned cells"])

P("C03", "A string written to a buffer stays in its row, its budget and whole clusters",
  "Writing a string at a position inside a buffer puts its printable grapheme clusters one after another from there, each taking its own width with blank continuation cells for wide ones, skipping zero-width and control characters. It stops before the first cluster that would exceed the right edge or the width budget, so no wide cluster is ever cut and nothing panics, and returns the position after the last cell written. Every other cell of the buffer keeps its content.",
  ["inputs"], "every string (any mix of wide, combining, zero-width and control characters), start position, budget, style, buffer area and prior content",
  "Only ASCII strings reach this function in the existing tests; edges, budgets and wide clusters are unbounded inputs.",
  ["buffer.go", "cell.go"], [("remaining width loop", "buffer.go: SetStringN, SetString")], ["buffer cells and the returned position"])

P("C04", "Styles compose: patching equals applying one after the other",
  "Applying style A and then style B to any cell gives the same cell as applying A patched with B; the empty style changes nothing and unset colours leave the cell's colours alone. Every colour and modifier setter affects exactly what it names: afterwards that colour or modifier is set (or removed), everything else is as before, and the last setter of a modifier wins. Styling a region of a buffer affects exactly the cells of that region that lie in the buffer.",
  ["inputs", "histories"], "every pair and chain of styles, every cell, every region (overlapping the buffer partially or not at all)",
  "Existing tests compare a few literal styles; the algebraic law quantifies over all combinations of set, added and removed attributes.",
  ["style.go", "cell.go", "buffer.go", "internal/bit/bit.go"], [("modifier set arithmetic", "style.go: WithModifier, WithoutModifier, Patched; cell.go: SetStyle"), ("clipping", "buffer.go: SetStyle")], ["cells after styling"])

P("C05", "A layout tiles its area in order, without gaps, overlap or spill",
  "For any constraints, flex, padding and area, splitting returns one segment per constraint and one spacer more than constraints; with non-negative spacing they lie in the padded area in order, spacer and segment alternating, each starting where the previous ended, from the area's start to its end. Across the layout direction every one spans the padded area. With overlapping spacing every segment still lies inside the padded area.",
  ["inputs", "configurations"], "every list of constraints (dozens of them, any kind and value), every flex mode, spacing, padding, direction and area including empty and tiny ones",
  "The existing tests use at most a handful of constraints in one flex mode without padding or spacing.",
  ["layout.go", "rect.go", "internal/casso/solver.go"], [("required constraints", "layout.go: configureArea, configureVariableInAreaConstraints, configureVariableConstraints"), ("rounding of shared edges", "layout.go: changesToRects")], ["returned segments and spacers"])

P("C06", "Segment sizes honour constraints by priority, as close as the space allows",
  "The sizes of the segments are an optimal compromise between all the constraints of a layout by their documented priority (spacing, then minimum and maximum limits, lengths, percentages, ratios, then growth of fills and spacers), up to rounding to whole cells. In particular limits are respected and lengths, percentages and ratios exact whenever there is room for it, fills share the remaining space in proportion to their factors, and a lower priority is sacrificed before a higher one.",
  ["inputs", "configurations"], "every list of constraints of any kind and value, every flex mode, spacing and area size",
  "The existing tests list example splits of up to five constraints in the default flex mode; optimality is a statement about every combination.",
  ["layout.go", "internal/casso/solver.go", "internal/casso/casso.go"], [("strengths", "layout.go: configureConstraints, configureFillConstraints, configureFlexConstraints"), ("simplex", "internal/casso/solver.go")], ["returned segments and spacers against an independently computed optimum"])

P("C07", "Layout is deterministic and independent of position and axis",
  "Splitting the same area with the same layout always gives the same result, whatever else is split meanwhile, even from several goroutines, and whatever callers do with the results. Moving the area moves the result by the same offset and nothing else, and swapping horizontal with vertical together with the axes of area and padding gives the transposed result.",
  ["inputs", "histories", "schedules"], "every layout and area, any number of repetitions, any offset",
  "Tests compare single calls; the solver iterates over hash maps whose order changes between calls.",
  ["layout.go", "internal/casso/solver.go"], [("pivot choice", "internal/casso/solver.go: getEnteringSymbol, getLeavingRow, chooseSubject"), ("axis mapping", "layout.go: split, changesToRects")], ["returned segments and spacers of repeated, shifted and transposed splits"])

P("C08", "Flex modes put excess space where they say",
  "When fixed lengths and the spacing between them fit into the area, every segment has exactly its length. The excess space goes after the last segment (start), before the first (end), equally to both sides (center), only between segments in equal parts (space-between), equally between and around all segments (space-around, where the spacing applies around them too), or into the last segment (legacy; also the single one of space-between), to within one cell of rounding; gaps are never smaller than the spacing.",
  ["inputs", "configurations"], "every list of fixed lengths that fits, every flex mode, spacing, direction and area",
  "Apart from one example the existing tests only exercise the legacy mode.",
  ["layout.go", "flex.go", "spacing.go"], [("spacer constraints", "layout.go: configureFlexConstraints")], ["returned segments and spacers"])

P("C09", "The constraint solver is correct: feasible, optimal, and it reports conflicts",
  "Whatever linear constraints with strengths are added in whatever order, the solver rejects one as unsatisfiable exactly when the required constraints conflict. Otherwise the values it reports satisfy every required constraint and minimise the total weighted violation of the others; fetching changes reports each variable whose value changed since the last fetch, and no other. Operations on expressions and a reset of the solver leave no trace in others.",
  ["inputs", "histories"], "every sequence of added equalities and inequalities over several variables, any strengths and coefficients",
  "The solver has no tests of its own; its correctness over pivoting histories cannot be sampled by layouts.",
  ["internal/casso/solver.go", "internal/casso/casso.go", "internal/casso/operators.go"], [("simplex tableau", "internal/casso/solver.go: AddConstraint, optimize, substitute, addWithArtificialVariable")], ["reported variable values and errors, against an independent linear program"])

P("C10", "Widgets render into any area without panic and never outside of it",
  "Every widget (text, lines, spans, paragraph, list, block, gauge, scrollbar, tabs, input, throbber, fill, clear, popup), with any content and settings, renders without panicking or getting stuck into any area inside the buffer, including empty and tiny ones; text, lines, spans and blocks also into areas that reach beyond it. It changes no cell outside that area, every cell keeps a symbol of one or two columns, and no wide symbol reaches over the area's edge; text, lines and spans also leave no other symbol in a column that a wide symbol covers.",
  ["inputs", "configurations"], "every widget configuration, content of any clusters, and every area of the buffer from 0x0 up",
  "Existing tests render two widgets into a few comfortable areas.",
  ["widget/", "buffer.go", "rect.go"], [("area clipping in every Render", "widget/*/*.go"), ("width budget", "buffer.go: SetStringN")], ["buffer cells in and around the area"])

P("C11", "Lines and text are aligned and truncated to the area as their alignment says",
  "A line that fits is shown in full at the left, centre or right of its area according to its own alignment or else its text's; one that does not fit shows the leading, middle or trailing part, never more than the area's width and never a partial wide cluster. Each line of a text occupies its own row from the top, extra lines are dropped, and the text's, line's and span's styles apply in that order of increasing precedence. A setter sets what it names and nothing else, and a cluster without width stays with the visible one before it (or the first).",
  ["inputs", "configurations"], "every text of any lines, spans, styles and alignments, any area",
  "Existing tests have two or three literal lines of ASCII.",
  ["widget/textwidget/line.go", "widget/textwidget/text.go", "widget/textwidget/span.go"], [("alignment and truncation", "widget/textwidget/line.go: Render, renderWithAlignment"), ("truncation of strings", "widget/textwidget/span.go")], ["buffer cells"])

P("C12", "A wrapped paragraph shows all of its text; a truncated one the prefix of lines",
  "Without wrapping each line of the text occupies exactly one row, cut at the area's width. With wrapping no row is wider than the area, rows break between words and take as many as fit, a word is broken only if it (with the indentation before it, unless trimmed) is longer than a row, and read in order the rows contain all of the text, only whitespace at breaks being dropped (none but what exceeds a row without trimming). Scrolling by n rows shows the same rows from the n-th on, alignment and styles preserved.",
  ["inputs", "configurations"], "every text of words, whitespace, wide clusters and empty lines, every width and height, wrapping and trimming, scroll offsets, alignments",
  "No test covers the paragraph or the wrapping code; wrapping is a state machine whose bugs need particular word/width combinations.",
  ["widget/paragraphwidget/paragraph.go", "widget/paragraphwidget/wrap.go", "internal/reflow/wrapper.go", "internal/reflow/truncator.go"], [("word wrapper", "internal/reflow/wrapper.go: NextLine"), ("truncator", "internal/reflow/truncator.go")], ["buffer rows"])

P("C13", "A list always shows its selection and a contiguous window of its items",
  "After any history of selection moves, scrolls, item changes and renders, the rows of a list show consecutive items in order, each with all its lines as far as they fit, starting at the remembered offset, which moves only as far as needed. If an item is selected it lies completely inside the window whenever it fits at all, is marked by the highlight symbol and style, and no other item is. Selecting next, previous, first and last never leaves the list's range once rendered.",
  ["histories", "inputs"], "every sequence of operations on the list state interleaved with renders of changing items, heights, directions, highlight settings and areas",
  "Two existing tests render one selection each; the window is state that depends on the whole history.",
  ["widget/listwidget/list.go", "widget/listwidget/state.go"], [("visible window", "widget/listwidget/list.go: getItemsBounds"), ("saturating selection", "widget/listwidget/state.go")], ["buffer rows and the list state"],
  [("offset/selected", "first visible item and selection", "widget/listwidget/state.go")])

P("C14", "The text input edits like a text field and always shows its cursor",
  "After any sequence of typing, pasting, cursor movement, word and line deletion, the input's value equals that of a reference text field given the same keys, the cursor staying between the first and last position. Rendering shows the prompt and a contiguous part of the text (or the placeholder exactly when the text is empty) with the cursor visible at its position, whatever the width the prompt leaves. No key sequence or width makes it panic.",
  ["histories", "inputs"], "every sequence of key messages, pastes of any clusters, renders at any width between them",
  "The input has no tests; cursor, scroll offset and text interact over the whole history.",
  ["widget/inputwidget/state.go", "widget/inputwidget/input.go", "internal/grapheme/"], [("editing operations", "widget/inputwidget/state.go"), ("visible window", "widget/inputwidget/input.go: getBounds")], ["the state's text and the rendered row"],
  [("cursor/offset/graphemes", "position, scroll and content", "widget/inputwidget/state.go")])

P("C15", "A block draws its borders and titles on the edge and yields the rest as inner",
  "A block draws exactly the borders requested, with the symbols of its set and its border style, on the edges of its area, corners where two meet, and leaves its inside to the content except for its style. The inner area is the area minus borders, title rows and padding, never extends beyond the area, and drawing the block does not touch its symbols. Titles appear in order on their edge at their alignment, between the corners, clipped to the room there is. Sets of border symbols derived part by part differ in those parts alone.",
  ["inputs", "configurations"], "every combination of sides, border types, title lists with positions and alignments, padding and area",
  "The block has no tests; 16 side sets times title alignments times areas.",
  ["widget/blockwidget/block.go", "widget/blockwidget/border.go", "widget/blockwidget/title.go"], [("borders", "widget/blockwidget/block.go: renderBorders"), ("titles", "widget/blockwidget/block.go: renderTitles"), ("inner", "widget/blockwidget/block.go: Inner")], ["buffer cells and the inner rectangle"])

P("C16", "A scrollbar's thumb shows the viewport's place in the content",
  "A scrollbar occupies only the edge its orientation names, begin and end symbols at the ends and track and thumb between. The thumb has at least one cell, stays within the track, touches the track's start at the first position and its end at the last, and never moves backwards as the position grows. Its length is the viewport's proportion of the content to rounding; position changes through the state saturate at both ends.",
  ["inputs", "histories", "configurations"], "every content length, viewport length, position, orientation, symbol set and area, and every sequence of state moves",
  "The scrollbar has no tests.",
  ["widget/scrollwidget/scroll.go", "widget/scrollwidget/state.go", "widget/scrollwidget/set.go"], [("part lengths", "widget/scrollwidget/scroll.go: partLengths"), ("edge selection", "widget/scrollwidget/scroll.go: scrollbarArea")], ["buffer cells along the edge"])

P("C17", "A gauge fills exactly its ratio of the area and shows its label",
  "A gauge fills the leading cells of every row in proportion to its ratio: 0 fills nothing, 1 everything, a larger ratio never fills less, and the fill differs from the exact proportion by less than one cell (one eighth in unicode mode). The label, by default the rounded percentage, is centred and covers the fill in its cells. A ratio outside 0..1 or a percentage outside 0..100 is rejected when it is set.",
  ["inputs", "configurations"], "every ratio (including NaN and infinities), label, style, unicode mode and area",
  "The gauge has no tests; fill is a numeric function of ratio and width.",
  ["widget/gaugewidget/gauge.go"], [("fill width", "widget/gaugewidget/gauge.go: renderGauge"), ("ratio check", "widget/gaugewidget/gauge.go: WithRatio, WithPercent")], ["buffer cells; the panic on bad ratios"])

P("C18", "Tabs show every title in order with dividers and highlight only the selected one",
  "Tabs show their titles in order on one row, each between its paddings and separated by exactly one divider, as far as the width allows, cut at the area's edge. The highlight style covers exactly the selected title, and nothing when none or no existing one is selected.",
  ["inputs", "configurations"], "every list of titles, divider, paddings, selection and area",
  "Tabs have no tests.",
  ["widget/tabswidget/tabs.go"], [("sequential placement", "widget/tabswidget/tabs.go: renderTabs")], ["buffer row"])

P("C19", "Popups are centred and cleared, fill and clear cover exactly their area",
  "A popup covers a rectangle of the requested size (limited to the area) centred in the area to within a cell (or at the edge requested), its padding taken off once; it wipes the former content of the rectangle, and draws its block and content inside, leaving everything around untouched. The clear widget resets exactly the cells of its area, the fill widget sets exactly those to its symbol and style, and a throbber shows the frame of its current step, centred.",
  ["inputs", "configurations"], "every size constraint, area, prior content, symbol and style",
  "None of these widgets has tests.",
  ["widget/popupwidget/popup.go", "widget/clearwidget/clear.go", "widget/fillwidget/fill.go", "widget/throbberwidget/throbber.go"], [("centering", "widget/popupwidget/popup.go: Render"), ("reset", "widget/clearwidget/clear.go")], ["buffer cells"])

P("C20", "Typed keys and mouse actions decode to the messages they stand for, in order",
  "For any sequence of keystrokes, alt-combinations, special keys, bracketed pastes, focus changes and mouse actions encoded as terminals send them, the messages delivered are exactly those events in order: key, runes, alt and paste flags, button, modifiers, action and position; nothing is lost, merged with another kind or invented. Adjacent printable characters may arrive in one message but their concatenation is what was typed. The string of a message names its key or action (alt+ in front, pastes in brackets), so that comparing strings tells actions apart.",
  ["inputs", "histories"], "every sequence of events and every adjacency between them, every coordinate, button and modifier, any Unicode text",
  "The input decoder has no tests; ambiguity arises between adjacent encodings.",
  ["input.go", "mouse.go"], [("sequence tables and longest match", "input.go: detectOneMsg, detectSequence"), ("mouse decoding", "mouse.go: parseSGRMouseEvent, parseX10MouseEvent"), ("paste", "input.go: detectBracketedPaste")], ["messages delivered to the model"])

P("C21", "Input decoding is total and independent of read-buffer boundaries",
  "Any byte stream whatsoever, split into any reads, is decoded without panic, without endless loop and to the end, each read ending in a state to continue from. A stream delivered in reads that fill the read buffer decodes to the same events as if it came at once: no escape sequence, paste or multi-byte character is torn by a buffer boundary. What has been read completely is delivered without waiting for more, but for the last message of a read that fills the buffer. Invalid bytes never swallow the valid input that follows them. A control sequence that stands for no action is told as one message that is no action, never as keys of its characters, and a message delivered does not change with what is read later.",
  ["inputs", "fault_sequences"], "every byte string including invalid UTF-8 and truncated sequences, every chunking, streams longer than the read buffer",
  "The input decoder has no tests; boundaries fall anywhere.",
  ["input.go"], [("buffered read loop", "input.go: readInputs"), ("leftover handling", "input.go: readInputs, detectOneMsg")], ["messages delivered, termination"])

P("C22", "However the app ends, the terminal is given back as it was found",
  "When running an app returns, be it by a quit message, cancelled context, an error while drawing or reading, or a panic in the model's init, update, render or a command, the terminal has left the alternate screen and shows what it showed before, its cursor is visible, its rendition is the default one, bracketed paste is off, its line settings are what they were before, and its input is no longer read: the next reader of the terminal gets all of it.",
  ["fault_sequences", "crash_points", "histories"], "every way to end and every point of the run at which it happens",
  "No test runs an app.",
  ["app.go", "tty.go", "terminal_backend.go"], [("shutdown and recovery", "app.go: shutdown, recoverFromPanic, restore"), ("terminal modes", "tty.go: initTerminal, restoreTerminal")], ["terminal modes, alternate screen and cursor after Run returned"])

P("C23", "The app delivers every message exactly once, to one update at a time",
  "Every command returned by init or update, alone or in batches and sequences of any nesting, runs exactly once and its non-nil message reaches update exactly once; the commands of a sequence run one after another in order, each one's message delivered before the next's. Input reaches update in the order it was typed. Update and render never run concurrently, each update works on the model the previous one returned, every update is followed by a render of its model, and running returns the last model. Commands run beside the app: one that takes long delays neither input nor updates nor the other commands of its batch.",
  ["schedules", "histories"], "every tree of batches and sequences, every interleaving of commands, input and resizes",
  "No test runs an app; delivery depends on goroutine schedules.",
  ["app.go", "cmd.go"], [("event loop", "app.go: eventLoop"), ("command goroutines", "app.go: handleCommands, handleCmd"), ("batch/sequence", "cmd.go: Batch, Sequence")], ["the calls of a recording model, in order"])

P("C24", "Running an app always ends: no way to stop it leaves it hanging",
  "After a quit message, a cancelled context, an input or output failure or a panic, at any moment and with any number of commands running, pending or producing messages, running the app returns promptly, with no error after quit and a non-nil error when it was cancelled or failed.",
  ["schedules", "fault_sequences", "crash_points"], "every moment and cause of ending, under every load of commands and messages",
  "No test runs an app; deadlocks need a particular moment.",
  ["app.go"], [("context selection on every channel operation", "app.go: eventLoop, draw, Send, handleCommands")], ["whether and with what Run returns"])

P("C25", "Builders return new values and never change the ones they were called on",
  "Calling any of the With- or modifier methods of layouts, texts, lines, spans, blocks, titles, lists, gauges, tabs, styles, paddings or rectangles leaves the receiver, every value derived from it earlier and the slices passed in as they were: two values built from a common base do not influence each other.",
  ["histories", "inputs"], "every tree of builder calls sharing prefixes",
  "Tests build each value once; aliasing needs two derivations of a common base with spare capacity.",
  ["layout.go", "widget/textwidget/", "widget/blockwidget/", "widget/listwidget/", "widget/tabswidget/"], [("value receivers and copied slices", "With* methods")], ["rendering of earlier values before and after later builder calls"])

P("C26", "Text built from a string keeps all of it, split at newlines",
  "Text made from a string has one line per newline-separated line of it (a trailing newline adds none, a carriage return before a newline is not part of the line), whatever their number and length, and rendering or reading its lines gives back the content. Lines and spans appended to it come after all that it holds, spans in its last line. Width is that of the widest line and height the number of lines; a style or alignment given to it applies to all its lines without overriding their own.",
  ["inputs"], "every string: lines of any length, empty lines, CRLF, any clusters",
  "Existing tests use short literals.",
  ["widget/textwidget/text.go", "widget/textwidget/line.go", "widget/textwidget/span.go"], [("line splitting", "widget/textwidget/line.go: NewLinesStr")], ["lines, width, height and rendered rows"])

P("C27", "Rectangle geometry is exact",
  "The intersection of two rectangles holds exactly the positions both hold and is commutative; rows and columns partition a rectangle in order; padding takes exactly what each side names and yields an empty rectangle when it does not fit; indentation and repositioning keep the other edges; every padding setter sets its own side alone.",
  ["inputs"], "every pair of rectangles, every padding, every position",
  "There are no geometry tests.",
  ["rect.go", "padding.go", "position.go"], [("edge arithmetic", "rect.go"), ("setters", "padding.go")], ["rectangles and the positions they contain"])

P("C28", "A throbber advances only on its own ticks and wraps around its symbols",
  "A throbber's state moves to the next symbol, wrapping around after the last, exactly when it receives a tick addressed to it, consumes that message and schedules its next tick; ticks of other throbbers, outdated ticks of its own and any other message leave it unchanged and unconsumed.",
  ["histories"], "every interleaving of ticks of several throbbers and other messages",
  "No test covers throbbers.",
  ["widget/throbberwidget/state.go", "widget/throbberwidget/msg.go"], [("tick addressing", "widget/throbberwidget/state.go: TryUpdate")], ["the shown symbol, the consumed flag and the returned command"])

P("C29", "The app follows the size of its terminal",
  "A running app's model is told the size of the terminal at the start and whenever it changed; sizes are told in the order they were taken, so that, once the terminal keeps its size, the last size told is the real one, however many resizes there were and whenever they happened. Every frame is rendered into exactly the area of the size last told, and the screen then shows that frame alone, with nothing left of frames of other sizes, whatever of the former content the terminal kept.",
  ["schedules", "histories"], "every history and timing of resizes, beginning before the app listens",
  "No test runs an app.",
  ["app.go", "tty.go", "signals_unix.go", "terminal.go"], [("size messages", "tty.go: checkResize; signals_unix.go: listenForResize"), ("resizing", "app.go: eventLoop; terminal.go: Resize")], ["sizes told, areas rendered into, the screen"])

P("C30", "An ended app leaves nothing running and nothing open",
  "Once running an app has returned, however it ended, and the commands that were still running have returned as well, no goroutine of the app is left and no file descriptor it opened is open.",
  ["fault_sequences", "schedules", "histories"], "every way to end at every moment, with any number of commands running, pending or blocked",
  "No test runs an app.",
  ["app.go", "tty.go", "signals_unix.go"], [("context selection on every channel operation", "app.go: Send, execSequence, execBatch, recoverFromCmdPanic"), ("closing the reader", "app.go: shutdown")], ["goroutines and file descriptors of the process after the app ended"])

P("C31", "A widget draws the same wherever and however often it is drawn",
  "Drawing a widget changes nothing but the buffer: drawn again, with its state as before, it draws exactly the same cells, whatever other widgets were drawn and whatever areas it was drawn into in between. Drawn into an area of the same size at another place of any other buffer with the same prior content there, it draws the same cells at that place.",
  ["histories", "inputs", "configurations"], "every widget configuration, content and state, every sequence of draws, every place of area and buffer",
  "Existing tests draw a widget once, into a buffer that begins at the origin.",
  ["widget/", "buffer.go"], [("working copies", "widget/blockwidget/block.go: filterTitles; widget/paragraphwidget; widget/listwidget"), ("positions relative to area and buffer", "buffer.go: IndexOf; every Render")], ["buffer cells after each draw"])

P("C32", "Each operation of the terminal backend has its effect and no other",
  "Whatever operations preceded it, each operation of the default backend does to the terminal what it is named for and nothing else: drawing shows exactly the cells given, at their positions, in any order, with the next flush at the latest, and leaves colours and attributes off; the clearing operations blank exactly the part of the screen they name and leave the cursor; the cursor goes where it is set and is hidden or shown; alternate screen and bracketed paste go on and off, the main screen being kept meanwhile; raw mode passes input and output on untouched, and switching it off gives the line settings back; reading returns what was typed; the size is that of the terminal, or none if the output is no file. An operation whose output fails says so.",
  ["histories", "inputs", "configurations", "fault_sequences"], "every sequence of operations, every list of cells in any order, terminals with any line settings, outputs that are no terminals or fail",
  "No test covers the backend; each operation's effect depends on the state the ones before left the terminal in.",
  ["terminal_backend.go", "terminal_backend_unix.go", "internal/ansi/command.go", "internal/ansi/attr.go"], [("operations", "terminal_backend.go: DefaultBackend"), ("control sequences", "internal/ansi/command.go")], ["bytes written to the terminal, interpreted by a terminal emulator; line settings of a pseudo terminal"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in out:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(out))
