package view

import (
	"context"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/gdamore/tcell"
	"pgregory.net/rapid"

	"sigs.k8s.io/instrumentation-tools/promq/term"
	"verif.local/harness/kit"
)

// fakeScreen is the simulation screen, made safe to finish while something draws on it.
type fakeScreen struct {
	tcell.SimulationScreen
	mu    sync.Mutex
	finis int
	shows int
	fini  chan struct{}
}

func newFakeScreen() *fakeScreen {
	return &fakeScreen{SimulationScreen: tcell.NewSimulationScreen("UTF-8"), fini: make(chan struct{})}
}

func (s *fakeScreen) Show() {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.finis == 0 {
		s.SimulationScreen.Show()
		s.shows++
	}
}

func (s *fakeScreen) Fini() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.finis++
	if s.finis == 1 {
		s.SimulationScreen.Fini()
		close(s.fini)
	}
}

// post queues an event, waiting for room unless the screen is finished.
func (s *fakeScreen) post(ev tcell.Event) {
	for s.PostEvent(ev) != nil {
		select {
		case <-s.fini:
			return
		case <-time.After(50 * time.Microsecond):
		}
	}
}

// shown is what the user sees.
func (s *fakeScreen) shown() ([]string, int, int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	cells, w, h := s.GetContents()
	var lines []string
	for r := 0; r < h; r++ {
		l := ""
		for c := 0; c < w; c++ {
			l += string(cells[r*w+c].Runes)
		}
		lines = append(lines, l)
	}
	return lines, w, h
}

// cellsShown gives each cell's text.
func (s *fakeScreen) cellsShown() [][]string {
	s.mu.Lock()
	defer s.mu.Unlock()
	cells, w, h := s.GetContents()
	var rows [][]string
	for r := 0; r < h; r++ {
		var row []string
		for c := 0; c < w; c++ {
			row = append(row, string(cells[r*w+c].Runes))
		}
		rows = append(rows, row)
	}
	return rows
}

// paint is a view that fills part of its box with a character.
type paint struct {
	mu      sync.Mutex
	id      int
	ch      rune
	box     term.PositionBox
	boxes   int
	flushes int
}

func (p *paint) SetBox(b term.PositionBox) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.box = b
	p.boxes++
}

// covers says which cells view id paints in a box: each a different part.
func covers(id int, b term.PositionBox, col, row int) bool {
	if col < b.StartCol || col >= b.StartCol+b.Cols || row < b.StartRow || row >= b.StartRow+b.Rows {
		return false
	}
	return id%4 == 0 || (col+row*id)%(id+1) != 0
}

func (p *paint) FlushTo(s tcell.Screen) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.flushes++
	for r := 0; r < p.box.Rows; r++ {
		for c := 0; c < p.box.Cols; c++ {
			if covers(p.id, p.box, p.box.StartCol+c, p.box.StartRow+r) {
				s.SetContent(p.box.StartCol+c, p.box.StartRow+r, p.ch, nil, tcell.StyleDefault)
			}
		}
	}
}

// RunOp is something that happens while the event loop runs.
type RunOp struct {
	Op   string // key, resize, update, repaint, show, hide
	N, M int
	Sync bool // wait until everything so far was handled, and look
}

// Running is one life of the event loop.
type Running struct {
	Initial int // view shown from the start, -1: none
	Ops     []RunOp
	Early   bool // shut down without waiting for the last operations
}

const quiet = tcell.KeyF63 // the key press that tells that everything before it was handled

// C26: the event loop.
func TestC26(t *testing.T) {
	kit.Run(t, kit.Spec[Running]{
		ID:    "C26",
		Rule:  "lives of the event loop over a simulated screen: 1-30 key presses, resizes, new views (each painting a different part of its box), repaints after a change of content, cursor moves, in bursts of up to 7 between looks, shut down in the quiet or in the middle of a burst; non-trivial when at least two views were shown and the screen was resized",
		Batch: 20,
		Hang:  20 * time.Second,
		Gen: func(t *rapid.T) Running {
			l := Running{Initial: rapid.IntRange(-1, 3).Draw(t, "initial"), Early: rapid.IntRange(0, 2).Draw(t, "early") == 0}
			n := rapid.IntRange(1, 30).Draw(t, "ops")
			since := 0
			for i := 0; i < n; i++ {
				op := RunOp{Op: rapid.SampledFrom([]string{"key", "key", "resize", "update", "update", "repaint", "repaint", "show", "hide"}).Draw(t, "op"), Sync: rapid.IntRange(0, 2).Draw(t, "sync") == 0}
				switch op.Op {
				case "key":
					op.N = rapid.SampledFrom([]int{'a', 'b', '漢', int(tcell.KeyEnter), int(tcell.KeyUp), int(tcell.KeyF1), int(tcell.KeyCtrlA)}).Draw(t, "key")
				case "resize":
					op.N, op.M = rapid.IntRange(1, 30).Draw(t, "cols"), rapid.IntRange(1, 12).Draw(t, "rows")
				case "update":
					op.N, op.M = rapid.IntRange(0, 5).Draw(t, "view"), rapid.IntRange(0, 6).Draw(t, "shape")
				case "repaint":
					op.N = rapid.IntRange(0, 20).Draw(t, "content")
				case "show":
					op.N, op.M = rapid.IntRange(0, 29).Draw(t, "col"), rapid.IntRange(0, 11).Draw(t, "row")
				}
				since++
				if since == 7 {
					op.Sync = true
				}
				if op.Sync {
					since = 0
				}
				l.Ops = append(l.Ops, op)
			}
			return l
		},
		Check: func(r *kit.R, l Running) {
			views := make([]*paint, 6)
			for i := range views {
				views[i] = &paint{id: i, ch: rune('A' + i)}
			}
			s := newFakeScreen()
			var mu sync.Mutex
			var keys []string
			quieted := make(chan struct{}, 100)
			started := make(chan struct{})
			runner := &term.Runner{
				MakeScreen: func() (tcell.Screen, error) { return s, nil },
				OnStart:    func() { close(started) },
				KeyHandler: func(e *tcell.EventKey) {
					if e.Key() == quiet {
						quieted <- struct{}{}
						return
					}
					mu.Lock()
					keys = append(keys, fmt.Sprint(e.Key(), e.Rune()))
					mu.Unlock()
				},
			}
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			done := make(chan error, 1)
			current := -1
			var initial term.View
			if l.Initial >= 0 {
				initial, current = views[l.Initial], l.Initial
			}
			go func() { done <- runner.Run(ctx, initial) }()
			select {
			case <-started:
			case <-time.After(15 * time.Second):
				r.Failf("stuck", "OnStart is never called")
			}
			if l.Initial >= 0 {
				views[l.Initial].mu.Lock()
				if views[l.Initial].flushes == 0 {
					r.Failf("initial", "the initial view is not drawn before the loop starts")
				}
				views[l.Initial].mu.Unlock()
			}
			cols, rows := 80, 25
			boxed := map[int]term.PositionBox{}
			var typed []string
			shown, curCol, curRow := false, 0, 0
			shownViews := map[int]bool{}
			resized := false
			wait := func(i int) {
				s.post(tcell.NewEventKey(quiet, 0, 0))
				select {
				case <-quieted:
				case err := <-done:
					r.Failf("stopped", "op %d: the loop stopped by itself: %v", i, err)
				case <-time.After(15 * time.Second):
					r.Failf("stuck", "op %d: the loop handles no more events", i)
				}
			}
			look := func(i int) {
				wait(i)
				wait(i)
				mu.Lock()
				have := append([]string{}, keys...)
				mu.Unlock()
				if fmt.Sprint(have) != fmt.Sprint(typed) {
					r.Failf("keys", "op %d: the handler got the keys %v, pressed were %v", i, have, typed)
				}
				lines, w, h := s.shown()
				if w != cols || h != rows {
					panic("the screen is not the size it was given")
				}
				box, has := boxed[current]
				if current >= 0 && has {
					views[current].mu.Lock()
					got := views[current].box
					views[current].mu.Unlock()
					if got != box {
						r.Failf("box", "op %d: the view has the box %+v, the screen is %d by %d", i, got, cols, rows)
					}
				}
				if current >= 0 && has {
					for row := 0; row < h; row++ {
						for col, rn := range []rune(lines[row]) {
							want := ' '
							if covers(views[current].id, box, col, row) {
								want = views[current].ch
							}
							if rn != want {
								r.Failf("screen", "op %d: row %d column %d shows %q, wanted %q of view %c", i, row, col, rn, want, views[current].ch)
							}
						}
					}
				}
				// the cursor is drawn with the next repaint
				runner.RequestRepaint()
				wait(i)
				if current >= 0 {
					x, y, vis := s.GetCursor()
					in := shown && curCol < cols && curRow < rows
					if vis != in && (vis || in) {
						r.Failf("cursor", "op %d: the cursor is visible: %v, wanted %v", i, vis, in)
					}
					if in && (x != curCol || y != curRow) {
						r.Failf("cursor", "op %d: the cursor is at %d,%d, wanted %d,%d", i, x, y, curCol, curRow)
					}
				}
			}
			for i, op := range l.Ops {
				switch op.Op {
				case "key":
					k, rn := tcell.Key(op.N), rune(0)
					if op.N == 'a' || op.N == 'b' || op.N == '漢' {
						k, rn = tcell.KeyRune, rune(op.N)
					}
					ev := tcell.NewEventKey(k, rn, 0)
					s.post(ev)
					typed = append(typed, fmt.Sprint(ev.Key(), ev.Rune()))
				case "resize":
					wait(i) // the simulated screen changes its buffer at once
					s.SetSize(op.N, op.M)
					cols, rows = op.N, op.M
					shown = false // the simulated screen hides the cursor
					s.post(tcell.NewEventResize(op.N, op.M))
					if current >= 0 {
						boxed[current] = term.PositionBox{Cols: cols, Rows: rows}
						resized = true
					}
				case "update":
					wait(i)
					if op.M > 0 { // the view paints another part of its box from now on
						views[op.N].mu.Lock()
						views[op.N].id = op.M
						views[op.N].mu.Unlock()
					}
					runner.RequestUpdate(views[op.N])
					current = op.N
					boxed[current] = term.PositionBox{Cols: cols, Rows: rows}
					shownViews[current] = true
				case "repaint":
					if current >= 0 {
						views[current].mu.Lock()
						views[current].ch = rune('a' + op.N)
						views[current].mu.Unlock()
					}
					wait(i)
					runner.RequestRepaint()
				case "show":
					runner.ShowCursor(op.N, op.M)
					shown, curCol, curRow = true, op.N, op.M
				case "hide":
					runner.HideCursor()
					shown = false
				}
				r.Tag(op.Op)
				if op.Sync {
					look(i)
				}
			}
			if len(shownViews) > 1 && resized {
				r.NonTrivial()
			}
			if !l.Early {
				look(len(l.Ops))
			}
			cancel()
			select {
			case err := <-done:
				if err != nil {
					r.Failf("error", "Run: %v", err)
				}
			case <-time.After(15 * time.Second):
				r.Failf("stuck", "Run does not return after its context is closed")
			}
			if s.finis != 1 {
				r.Failf("fini", "the screen was shut down %d times", s.finis)
			}
			flushes := 0
			for _, v := range views {
				v.mu.Lock()
				flushes += v.flushes
				v.mu.Unlock()
			}
			time.Sleep(200 * time.Microsecond)
			for _, v := range views {
				v.mu.Lock()
				flushes -= v.flushes
				v.mu.Unlock()
			}
			if flushes != 0 {
				r.Failf("after", "views are drawn after Run returned")
			}
		},
	})
}
