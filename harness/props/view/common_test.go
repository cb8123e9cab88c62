package view

import (
	"context"
	"fmt"
	"reflect"
	"strings"
	"unsafe"

	prompt "github.com/c-bata/go-prompt"
	"github.com/gdamore/tcell"
	"pgregory.net/rapid"

	"sigs.k8s.io/instrumentation-tools/promq/term"
)

const mark = '\u25a0'

// markStyle tells untouched cells apart.
var markStyle = tcell.StyleDefault.Foreground(tcell.ColorRed).Bold(true)

// newScreen is a screen with marks everywhere.
func newScreen(cols, rows int) tcell.SimulationScreen {
	s := tcell.NewSimulationScreen("UTF-8")
	if err := s.Init(); err != nil {
		panic(err)
	}
	s.SetSize(cols, rows)
	s.Fill(mark, markStyle)
	return s
}

// cell is what one character of a screen holds.
type cell struct {
	text string // base and combining characters
	sty  tcell.Style
	any  bool // covered by the right half of a wide character: contents do not show
}

func at(s tcell.Screen, col, row int) cell {
	rn, comb, sty, _ := s.GetContent(col, row)
	return cell{text: string(append([]rune{rn}, comb...)), sty: sty}
}

var blank = cell{text: " ", sty: tcell.StyleDefault}
var untouched = cell{text: string(mark), sty: markStyle}

func (c cell) String() string {
	if c.any {
		return "(anything)"
	}
	return fmt.Sprintf("%q/%x", c.text, int64(c.sty))
}

var styles = []tcell.Style{
	tcell.StyleDefault,
	tcell.StyleDefault.Foreground(tcell.ColorGreen),
	tcell.StyleDefault.Background(tcell.ColorBlue).Bold(true),
	tcell.StyleDefault.Underline(true),
}

// dump is the screen region as text, for messages.
func dump(s tcell.Screen, b term.PositionBox) string {
	var out strings.Builder
	for r := b.StartRow; r < b.StartRow+b.Rows; r++ {
		out.WriteString("  |")
		for c := b.StartCol; c < b.StartCol+b.Cols; c++ {
			out.WriteString(at(s, c, r).text)
		}
		out.WriteString("|\n")
	}
	return out.String()
}

// Box is a region of the screen.
type Box struct{ Col, Row, Cols, Rows int }

func (b Box) pos() term.PositionBox {
	return term.PositionBox{StartCol: b.Col, StartRow: b.Row, Cols: b.Cols, Rows: b.Rows}
}

func (b Box) has(col, row int) bool {
	return col >= b.Col && col < b.Col+b.Cols && row >= b.Row && row < b.Row+b.Rows
}

// pieces of text: plain, wide, combining, astral
var pieces = []string{"a", "b", "x", "Z", "0", " ", "  ", "-", "{", "\"", "é", "ß", "\u2264", "漢", "字", "ｱ", "한", "😀", "e\u0301", "o\u0308\u0323", "漢\u0301", "a\u0301\u0302\u0303\u0304\u0305\u0306\u0307", "word", "metric_name", "le=\"0.5\""}

// genText is text of single characters of one and two columns, with marks that combine with the character before.
func genText(t *rapid.T, newlines bool) string {
	n := rapid.IntRange(0, 14).Draw(t, "n")
	var b strings.Builder
	for i := 0; i < n; i++ {
		k := rapid.IntRange(0, len(pieces)+2).Draw(t, "piece")
		switch {
		case k < len(pieces):
			b.WriteString(pieces[k])
		case newlines:
			b.WriteString("\n")
		default:
			b.WriteString("q")
		}
	}
	return b.String()
}

// cursorLog is the part of the runner that the prompt widget draws its cursor with.
type cursorLog struct {
	col, row int
	shown    bool
	repaints int
}

func (c *cursorLog) ShowCursor(col, row int) { c.col, c.row, c.shown = col, row, true }
func (c *cursorLog) HideCursor()             { c.shown = false }
func (c *cursorLog) RequestRepaint()         { c.repaints++ }

// poke sets a field of one of go-prompt's structs, which keep them private.
func peek(p any, field string) reflect.Value {
	v := reflect.ValueOf(p).Elem().FieldByName(field)
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

// consoleOf runs the prompt widget up to its set-up, and returns the two halves of the console it hands to go-prompt.
// The widget has been stopped by then.
func consoleOf(v *term.PromptView) (prompt.ConsoleWriter, prompt.ConsoleParser) {
	w, in, stop := liveConsoleOf(v)
	stop()
	return w, in
}

// liveConsoleOf does the same and leaves the widget waiting for its first size, until stop is called.
func liveConsoleOf(v *term.PromptView) (w prompt.ConsoleWriter, in prompt.ConsoleParser, stop func()) {
	v.SetupPrompt = func(opts ...prompt.Option) *prompt.Prompt {
		p := &prompt.Prompt{}
		peek(p, "renderer").Set(reflect.ValueOf(&prompt.Render{}))
		for _, o := range opts {
			if err := o(p); err != nil {
				panic(err)
			}
		}
		in = peek(p, "in").Interface().(prompt.ConsoleParser)
		w = peek(peek(p, "renderer").Interface(), "out").Interface().(prompt.ConsoleWriter)
		return p
	}
	v.HandleInput = func(string) (*string, bool) { return nil, true }
	ctx, cancel := context.WithCancel(context.Background())
	ready := make(chan struct{})
	v.OnSetup = func() { close(ready) }
	done := make(chan error, 1)
	go func() { done <- v.Run(ctx, nil, cancel) }()
	select {
	case <-ready:
	case err := <-done:
		panic(err)
	}
	return w, in, func() {
		cancel()
		if err := <-done; err != nil {
			panic(err)
		}
	}
}
