package view

import (
	"fmt"
	"runtime"
	"sync"
	"testing"

	prompt "github.com/c-bata/go-prompt"
	"github.com/gdamore/tcell"
	"pgregory.net/rapid"

	"sigs.k8s.io/instrumentation-tools/promq/term"
	"verif.local/harness/kit"
)

// lockedLog records every place the cursor was shown at.
type lockedLog struct {
	mu  sync.Mutex
	pos [][2]int
}

func (c *lockedLog) ShowCursor(col, row int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.pos = append(c.pos, [2]int{col, row})
}
func (c *lockedLog) HideCursor()     {}
func (c *lockedLog) RequestRepaint() {}

// Pair is what the prompt's thread and the drawing thread do at the same time.
type Pair struct {
	Prompt []ConOp
	Draw   []ConOp
	Keys   int
	Yield  int // of either side, every so many operations
}

func (p Pair) bothMove() bool {
	b := 0
	for _, o := range p.Draw {
		if o.Op == "box" {
			b++
		}
	}
	s := 0
	for _, o := range p.Prompt {
		if o.Op == "show" || o.Op == "write" {
			s++
		}
	}
	return b > 1 && s > 1
}

// C28: the prompt works while it is drawn and resized.
func TestC28(t *testing.T) {
	kit.Run(t, kit.Spec[Pair]{
		ID:    "C28",
		Rule:  "pairs of concurrent histories, under the race detector: 10-60 calls of go-prompt's console interface, reads and size queries on one thread, 5-40 boxes, redraws and key presses on the other; non-trivial when the box changes more than once while the prompt writes or shows its cursor more than once",
		Trace: true,
		Flaky: true,
		Gen: func(t *rapid.T) Pair {
			var p Pair
			n := rapid.IntRange(10, 60).Draw(t, "prompt")
			for i := 0; i < n; i++ {
				op := ConOp{Op: rapid.SampledFrom(append([]string{"read", "size", "show", "show"}, conOps[:len(conOps)-3]...)).Draw(t, "op")}
				switch op.Op {
				case "write":
					op.Text = genText(t, rapid.IntRange(0, 4).Draw(t, "nl") == 0)
				case "up", "down", "forward", "backward", "color":
					op.N = rapid.IntRange(0, 12).Draw(t, "n")
				}
				p.Prompt = append(p.Prompt, op)
			}
			n = rapid.IntRange(5, 40).Draw(t, "draw")
			for i := 0; i < n; i++ {
				op := ConOp{Op: rapid.SampledFrom([]string{"box", "draw", "key"}).Draw(t, "op")}
				switch op.Op {
				case "key":
					if p.Keys++; p.Keys > 25 {
						continue
					}
				case "box":
					op.Box = &Box{rapid.IntRange(0, 16).Draw(t, "col"), rapid.IntRange(0, 16).Draw(t, "row"), rapid.IntRange(1, 20).Draw(t, "cols"), rapid.IntRange(1, 8).Draw(t, "rows")}
				}
				p.Draw = append(p.Draw, op)
			}
			p.Yield = rapid.IntRange(1, 6).Draw(t, "yield")
			return p
		},
		Check: func(r *kit.R, p Pair) {
			cur := &lockedLog{}
			v := &term.PromptView{Screen: cur}
			w, in := consoleOf(v)
			box := Box{3, 2, 12, 5}
			boxes := []Box{box}
			v.SetBox(box.pos())
			if p.bothMove() {
				r.NonTrivial()
			}
			var wg sync.WaitGroup
			var broke [2]string
			side := func(n int, f func()) {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						broke[n] = fmt.Sprint(e)
					}
				}()
				f()
			}
			var start sync.WaitGroup
			start.Add(2)
			wg.Add(2)
			go side(0, func() {
				start.Done()
				start.Wait()
				for i, op := range p.Prompt {
					if i%p.Yield == 0 {
						runtime.Gosched()
					}
					switch op.Op {
					case "write":
						w.WriteStr(op.Text)
					case "newline":
						w.WriteRaw([]byte("\n"))
					case "color":
						w.SetColor(prompt.Color(op.N), prompt.DefaultColor, false)
					case "eraseScreen":
						w.EraseScreen()
					case "eraseUp":
						w.EraseUp()
					case "eraseDown":
						w.EraseDown()
					case "eraseStart":
						w.EraseStartOfLine()
					case "eraseEnd":
						w.EraseEndOfLine()
					case "eraseLine":
						w.EraseLine()
					case "goto":
						w.CursorGoTo(0, 0)
					case "up":
						w.CursorUp(op.N)
					case "down":
						w.CursorDown(op.N)
					case "forward":
						w.CursorForward(op.N)
					case "backward":
						w.CursorBackward(op.N)
					case "scrollDown":
						w.ScrollDown()
					case "scrollUp":
						w.ScrollUp()
					case "show":
						w.ShowCursor()
					case "hide":
						w.HideCursor()
					case "flush":
						w.Flush()
					case "read":
						in.Read()
					case "size":
						in.GetWinSize()
					}
				}
			})
			go side(1, func() {
				start.Done()
				start.Wait()
				s := newScreen(36, 24)
				defer s.Fini()
				for i, op := range p.Draw {
					if i%p.Yield == 0 {
						runtime.Gosched()
					}
					switch op.Op {
					case "box":
						box = *op.Box
						boxes = append(boxes, box)
						v.SetBox(box.pos())
					case "draw":
						v.FlushTo(s)
					case "key":
						v.HandleKey(tcell.NewEventKey(tcell.KeyRune, 'k', 0))
					}
				}
			})
			wg.Wait()
			for n, b := range broke {
				if b != "" {
					r.Failf("panic", "the %s side panicked: %s", []string{"prompt", "drawing"}[n], b)
				}
			}
			for _, p := range cur.pos {
				ok := false
				for _, b := range boxes {
					ok = ok || p[0] >= b.Col && p[0] <= b.Col+b.Cols && p[1] >= b.Row && p[1] < b.Row+b.Rows
				}
				if !ok {
					r.Failf("cursor", "the cursor is shown at column %d row %d, which is in none of the boxes the prompt ever had", p[0], p[1])
				}
			}
			// whatever happened, the console works on
			m := &tty{sty: tcell.StyleDefault}
			m.resize(box)
			w.SetColor(prompt.DefaultColor, prompt.DefaultColor, false)
			w.EraseScreen()
			w.CursorGoTo(0, 0)
			w.WriteStr("all is\nwell")
			m.write("all is\nwell")
			s := newScreen(36, 24)
			defer s.Fini()
			v.FlushTo(s)
			for row := 0; row < 24; row++ {
				for col := 0; col < 36; col++ {
					want := untouched
					if box.has(col, row) {
						want = m.grid[row-box.Row][col-box.Col]
					}
					if got := at(s, col, row); got != want {
						r.Failf("content", "afterwards, row %d column %d shows %s, wanted %s, with the box %+v", row, col, got, want, box)
					}
				}
			}
		},
	})
}
