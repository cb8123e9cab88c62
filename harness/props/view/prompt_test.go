package view

import (
	"context"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	prompt "github.com/c-bata/go-prompt"
	"github.com/gdamore/tcell"
	"pgregory.net/rapid"

	"sigs.k8s.io/instrumentation-tools/promq/term"
	"verif.local/harness/kit"
)

// newPrompt is prompt.New without the terminal that it insists on opening.
func newPrompt(opts ...prompt.Option) *prompt.Prompt {
	p := &prompt.Prompt{}
	rend := &prompt.Render{}
	peek(rend, "prefix").SetString("> ")
	peek(rend, "livePrefixCallback").Set(reflect.ValueOf(func() (string, bool) { return "", false }))
	peek(p, "renderer").Set(reflect.ValueOf(rend))
	peek(p, "buf").Set(reflect.ValueOf(prompt.NewBuffer()))
	peek(p, "history").Set(reflect.ValueOf(prompt.NewHistory()))
	peek(p, "completion").Set(reflect.ValueOf(prompt.NewCompletionManager(func(prompt.Document) []prompt.Suggest { return nil }, 6)))
	peek(p, "keyBindMode").SetString(string(prompt.EmacsKeyBind))
	for _, o := range opts {
		if err := o(p); err != nil {
			panic(err)
		}
	}
	return p
}

// Press is a key, or text typed in one go.
type Press struct {
	Key  string // "" for text
	Text string
	Wait bool // let the prompt read before the next key
}

// Entered is one line: what is pressed before Enter, and what the handler answers.
type Entered struct {
	Press  []Press
	Output *string
}

// Session is one life of the prompt on the screen.
type Session struct {
	Box     Box
	Side    int // columns of another pane next to it
	Initial *string
	Lines   []Entered
	Ahead   int // keys pressed after the last line, at once
	Resize  *Box
	Early   *Box // given to the prompt before it runs; it is shown after the initial input is handled
}

var editKeys = map[string]tcell.Key{"left": tcell.KeyLeft, "right": tcell.KeyRight, "home": tcell.KeyHome, "end": tcell.KeyEnd, "backspace": tcell.KeyBackspace2, "delete": tcell.KeyDelete,
	"ctrlA": tcell.KeyCtrlA, "ctrlE": tcell.KeyCtrlE, "ctrlK": tcell.KeyCtrlK, "ctrlU": tcell.KeyCtrlU, "f5": tcell.KeyF5, "f30": tcell.KeyF30}

var editNames = []string{"left", "left", "right", "home", "end", "backspace", "delete", "ctrlA", "ctrlE", "ctrlK", "ctrlU", "f30"}

// edit is what a line editor makes of the keys.
func edit(ps []Press) string {
	var buf []rune
	pos := 0
	for _, p := range ps {
		switch p.Key {
		case "":
			ins := []rune(p.Text)
			buf = append(buf[:pos:pos], append(ins, buf[pos:]...)...)
			pos += len(ins)
		case "left":
			pos = max(0, pos-1)
		case "right":
			pos = min(len(buf), pos+1)
		case "home", "ctrlA":
			pos = 0
		case "end", "ctrlE":
			pos = len(buf)
		case "backspace":
			if pos > 0 {
				buf = append(buf[:pos-1:pos-1], buf[pos:]...)
				pos--
			}
		case "delete":
			if pos < len(buf) {
				buf = append(buf[:pos:pos], buf[pos+1:]...)
			}
		case "ctrlK":
			buf = buf[:pos]
		case "ctrlU":
			buf = buf[pos:]
			pos = 0
		}
	}
	return string(buf)
}

func genLine(t *rapid.T, label string) string {
	return rapid.StringOfN(rapid.SampledFrom([]rune("abcxyz_{}=\"(), 019éß≤")), 0, 24, -1).Draw(t, label)
}

// genAnswer draws a line of an answer, now and then with wide characters and combining ones.
func genAnswer(t *rapid.T) string {
	if rapid.IntRange(0, 3).Draw(t, "wide") != 2 {
		return genLine(t, "output")
	}
	return rapid.StringOfN(rapid.SampledFrom([]rune("ab世e\u0301界漢 xy字")), 0, 40, -1).Draw(t, "output")
}

// C27: typing at the prompt.
func TestC27(t *testing.T) {
	kit.Run(t, kit.Spec[Session]{
		ID:    "C27",
		Rule:  "sessions at a real go-prompt inside the event loop, in a pane next to another one: optional initial input, 1-5 lines of 0-9 runs of text and editing keys pressed at once or one at a time, answers of 0-3 lines or none, up to 60 keys pressed ahead of the shutdown, sometimes a resize between lines, or a box given before the start; non-trivial when at least two lines with text were entered",
		Batch: 6,
		Hang:  40 * time.Second,
		Gen: func(t *rapid.T) Session {
			z := Session{Box: Box{0, 0, rapid.IntRange(24, 60).Draw(t, "cols"), rapid.IntRange(14, 20).Draw(t, "rows")}, Side: rapid.IntRange(0, 10).Draw(t, "side")}
			if rapid.IntRange(0, 2).Draw(t, "init") == 0 {
				s := genLine(t, "initial")
				if rapid.IntRange(0, 3).Draw(t, "long") == 0 {
					s += " + " + genLine(t, "initial2") + " or " + genLine(t, "initial3")
				}
				z.Initial = &s
			}
			n := rapid.IntRange(1, 5).Draw(t, "lines")
			for i := 0; i < n; i++ {
				var e Entered
				k := rapid.IntRange(0, 9).Draw(t, "presses")
				for j := 0; j < k; j++ {
					p := Press{Wait: rapid.IntRange(0, 5).Draw(t, "wait") == 0}
					if rapid.IntRange(0, 2).Draw(t, "what") > 0 {
						p.Text = genLine(t, "text")
					} else {
						p.Key = rapid.SampledFrom(editNames).Draw(t, "key")
					}
					e.Press = append(e.Press, p)
				}
				if rapid.IntRange(0, 2).Draw(t, "out") > 0 {
					s := ""
					for l := rapid.IntRange(1, 3).Draw(t, "outlines"); l > 0; l-- {
						s += genAnswer(t) + "\n"
					}
					e.Output = &s
				}
				z.Lines = append(z.Lines, e)
			}
			if rapid.IntRange(0, 2).Draw(t, "pasted") == 0 {
				z.Ahead = rapid.IntRange(1, 60).Draw(t, "ahead")
			}
			if rapid.IntRange(0, 4).Draw(t, "resized") == 0 {
				z.Resize = &Box{0, 0, rapid.IntRange(24, 60).Draw(t, "cols"), rapid.IntRange(14, 20).Draw(t, "rows")}
			}
			if rapid.IntRange(0, 3).Draw(t, "early") == 0 {
				z.Early = &Box{rapid.IntRange(0, 2).Draw(t, "ecol"), rapid.IntRange(0, 2).Draw(t, "erow"), z.Box.Cols, rapid.IntRange(1, 20).Draw(t, "erows")}
				if rapid.Bool().Draw(t, "esame") {
					z.Early.Rows = z.Box.Rows
				}
			}
			return z
		},
		Check: func(r *kit.R, z Session) {
			var want []string
			if z.Initial != nil {
				want = append(want, *z.Initial)
			}
			text := 0
			for _, e := range z.Lines {
				l := edit(e.Press)
				want = append(want, l)
				if l != "" {
					text++
				}
			}
			if text > 1 {
				r.NonTrivial()
			}
			s := newFakeScreen()
			var mu sync.Mutex
			var got []string
			entered := make(chan int, 100)
			started, setup := make(chan struct{}), make(chan struct{})
			finish := make(chan struct{})
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			runner := &term.Runner{MakeScreen: func() (tcell.Screen, error) { return s, nil }}
			pv := &term.PromptView{
				Screen:      runner,
				SetupPrompt: func(opts ...prompt.Option) *prompt.Prompt { return newPrompt(opts...) },
				OnSetup:     func() { close(setup) },
			}
			pv.HandleInput = func(in string) (*string, bool) {
				mu.Lock()
				got = append(got, in)
				n := len(got)
				mu.Unlock()
				entered <- n
				if n > len(want) {
					return nil, true
				}
				i := n - 1
				if z.Initial != nil {
					i--
				}
				if n == len(want) {
					<-finish
				}
				if i < 0 || z.Lines[i].Output == nil {
					return nil, n == len(want)
				}
				return z.Lines[i].Output, n == len(want)
			}
			quieted := make(chan struct{}, 10)
			runner.KeyHandler = func(e *tcell.EventKey) {
				if e.Key() == quiet {
					quieted <- struct{}{}
					return
				}
				pv.HandleKey(e)
			}
			runner.OnStart = func() {
				s.SetSize(z.Box.Cols+z.Side, z.Box.Rows)
				close(started)
			}
			const limit = 15 * time.Second // for each step
			ran := make(chan string, 2)
			go func() { ran <- fmt.Sprint("the runner: ", runner.Run(ctx, nil)) }()
			<-started
			if z.Early != nil {
				pv.SetBox(term.PositionBox{StartCol: z.Early.Col, StartRow: z.Early.Row, Cols: z.Early.Cols, Rows: z.Early.Rows})
			}
			go func() { ran <- fmt.Sprint("the prompt: ", pv.Run(ctx, z.Initial, cancel)) }()
			<-setup
			side := &paint{id: 0, ch: '#'}
			view := &term.SplitView{Dock: term.PosRight, DockSize: z.Side, Docked: side, Flexed: pv}
			if z.Early == nil {
				runner.RequestUpdate(view)
			}
			box := z.Box
			fail := func(sig, f string, args ...any) {
				mu.Lock()
				defer mu.Unlock()
				r.Failf(sig, "%s; entered so far: %q of %q", fmt.Sprintf(f, args...), got, want)
			}
			await := func(n int) {
				select {
				case k := <-entered:
					mu.Lock()
					in := got[k-1]
					mu.Unlock()
					if k != n || in != want[n-1] {
						fail("input", "line %d is handled as %q, typed was %q", n, in, want[n-1])
					}
				case e := <-ran:
					fail("stopped", "%s, before the last line", e)
				case <-time.After(limit):
					fail("stuck", "line %d is never handled", n)
				}
			}
			n := 0
			if z.Initial != nil {
				n++
				await(n)
			}
			if z.Early != nil {
				r.Tag("box before the start")
				runner.RequestUpdate(view)
			}
			for i, e := range z.Lines {
				if z.Resize != nil && i == len(z.Lines)/2 && i > 0 {
					s.post(tcell.NewEventKey(quiet, 0, 0))
					<-quieted
					box = *z.Resize
					s.SetSize(box.Cols+z.Side, box.Rows)
					s.post(tcell.NewEventResize(box.Cols+z.Side, box.Rows))
				}
				for _, p := range e.Press {
					if p.Key != "" {
						s.post(tcell.NewEventKey(editKeys[p.Key], 0, 0))
					}
					for _, rn := range p.Text {
						s.post(tcell.NewEventKey(tcell.KeyRune, rn, 0))
					}
					if p.Wait {
						time.Sleep(12 * time.Millisecond)
					}
				}
				s.post(tcell.NewEventKey(tcell.KeyEnter, '\r', 0))
				n++
				await(n)
			}
			if z.Resize == nil && (z.Early == nil || z.Early.Rows == z.Box.Rows) {
				// the last line is being handled: everything before its answer is on the screen
				var all strings.Builder
				for i, w := range want {
					all.WriteString("> " + w + "\n")
					k := i
					if z.Initial != nil {
						k--
					}
					if k >= 0 && i < len(want)-1 && z.Lines[k].Output != nil {
						all.WriteString(*z.Lines[k].Output)
					}
				}
				lines := lay(glyphs(all.String(), 0), box.Cols)
				if over := len(lines) - box.Rows; over > 0 {
					lines = lines[over:]
					r.Tag("scrolled")
				}
				diff := ""
				for try := 0; ; try++ {
					runner.RequestRepaint()
					s.post(tcell.NewEventKey(quiet, 0, 0))
					select {
					case <-quieted:
					case <-time.After(limit):
						fail("stuck", "the loop handles no more events")
					}
					diff = ""
					have := s.cellsShown()
					for row, l := range have {
						for col, got := range l {
							w := " "
							if col >= box.Cols {
								w = "#"
							} else if row < len(lines) && col < len(lines[row]) {
								if lines[row][col].any {
									continue
								}
								w = lines[row][col].text
							}
							if got != w && diff == "" {
								text, _, _ := s.shown()
								diff = fmt.Sprintf("row %d column %d shows %q, wanted %q; the screen:\n%s", row, col, got, w, strings.Join(text, "\n"))
							}
						}
					}
					if diff == "" {
						break
					}
					if try > 200 {
						fail("screen", "%s", diff)
					}
					time.Sleep(5 * time.Millisecond)
				}
			} else {
				r.Tag("resized")
			}
			go func() {
				for i := 0; i < z.Ahead; i++ {
					s.post(tcell.NewEventKey(tcell.KeyRune, 'k', 0))
				}
			}()
			if z.Ahead > 0 {
				time.Sleep(3 * time.Millisecond)
				r.Tag("keys ahead")
			}
			close(finish)
			for i := 0; i < 2; i++ {
				select {
				case e := <-ran:
					if !strings.HasSuffix(e, "<nil>") {
						fail("error", "%s", e)
					}
				case <-time.After(limit):
					fail("stuck", "the event loop or the prompt does not return after the handler asked to stop, with %d keys pressed ahead", z.Ahead)
				}
			}
			mu.Lock()
			defer mu.Unlock()
			if len(got) != len(want) {
				r.Failf("extra", "entered: %q, typed: %q", got, want)
			}
		},
	})
}
