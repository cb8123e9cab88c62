package view

import (
	"bytes"
	"errors"
	"fmt"
	"runtime"
	"syscall"
	"testing"
	"time"
	"unicode/utf8"

	prompt "github.com/c-bata/go-prompt"
	"github.com/gdamore/tcell"
	"pgregory.net/rapid"

	"sigs.k8s.io/instrumentation-tools/promq/term"
	"verif.local/harness/kit"
)

// KeyOp is a key press, or one read of go-prompt's.
type KeyOp struct {
	Read bool
	Key  int16
	Rune int32
	Mod  int16
}

type named struct {
	key  tcell.Key
	mod  tcell.ModMask
	want prompt.Key
}

// special maps what tcell calls a key to what go-prompt calls it.
var special = func() []named {
	l := []named{
		{tcell.KeyTab, 0, prompt.Tab}, {tcell.KeyEnter, 0, prompt.ControlM}, {tcell.KeyEscape, 0, prompt.Escape}, {tcell.KeyBackspace, 0, prompt.Backspace},
		{tcell.KeyBackspace2, 0, prompt.Backspace}, {tcell.KeyBacktab, 0, prompt.BackTab}, {tcell.KeyInsert, 0, prompt.Insert}, {tcell.KeyHome, 0, prompt.Home},
		{tcell.KeyEnd, 0, prompt.End}, {tcell.KeyPgUp, 0, prompt.PageUp}, {tcell.KeyPgDn, 0, prompt.PageDown}, {tcell.KeyCtrlSpace, tcell.ModCtrl, prompt.ControlSpace},
		{tcell.KeyCtrlBackslash, tcell.ModCtrl, prompt.ControlBackslash}, {tcell.KeyCtrlRightSq, tcell.ModCtrl, prompt.ControlSquareClose},
		{tcell.KeyCtrlCarat, tcell.ModCtrl, prompt.ControlCircumflex}, {tcell.KeyCtrlUnderscore, tcell.ModCtrl, prompt.ControlUnderscore},
	}
	for _, d := range []struct {
		k       tcell.Key
		p, c, s prompt.Key
	}{
		{tcell.KeyUp, prompt.Up, prompt.ControlUp, prompt.ShiftUp}, {tcell.KeyDown, prompt.Down, prompt.ControlDown, prompt.ShiftDown},
		{tcell.KeyLeft, prompt.Left, prompt.ControlLeft, prompt.ShiftLeft}, {tcell.KeyRight, prompt.Right, prompt.ControlRight, prompt.ShiftRight},
		{tcell.KeyDelete, prompt.Delete, prompt.ControlDelete, prompt.ShiftDelete},
	} {
		l = append(l, named{d.k, 0, d.p}, named{d.k, tcell.ModCtrl, d.c}, named{d.k, tcell.ModShift, d.s}, named{d.k, tcell.ModAlt, d.p}, named{d.k, tcell.ModCtrl | tcell.ModShift, d.c}, named{d.k, tcell.ModCtrl | tcell.ModAlt, d.c}, named{d.k, tcell.ModAlt | tcell.ModShift, d.s})
	}
	ctrl := []prompt.Key{prompt.ControlA, prompt.ControlB, prompt.ControlC, prompt.ControlD, prompt.ControlE, prompt.ControlF, prompt.ControlG, -1 /* H: backspace */, -1 /* I: tab */, -1, /* J: go-prompt reads no such key */
		prompt.ControlK, prompt.ControlL, prompt.ControlM, prompt.ControlN, prompt.ControlO, prompt.ControlP, prompt.ControlQ, prompt.ControlR, prompt.ControlS, prompt.ControlT, prompt.ControlU, prompt.ControlV, prompt.ControlW, prompt.ControlX, prompt.ControlY, prompt.ControlZ}
	for i, k := range ctrl {
		if k >= 0 {
			l = append(l, named{tcell.KeyCtrlA + tcell.Key(i), tcell.ModCtrl, k})
		}
	}
	fs := []prompt.Key{prompt.F1, prompt.F2, prompt.F3, prompt.F4, prompt.F5, prompt.F6, prompt.F7, prompt.F8, prompt.F9, prompt.F10, prompt.F11, prompt.F12,
		prompt.F13, prompt.F14, prompt.F15, prompt.F16, prompt.F17, prompt.F18, prompt.F19, prompt.F20, prompt.F21, prompt.F22, prompt.F23, prompt.F24}
	for i, k := range fs {
		l = append(l, named{tcell.KeyF1 + tcell.Key(i), 0, k})
	}
	return l
}()

// nothing are keys that the prompt has no notion of.
var nothing = []tcell.Key{tcell.KeyF25, tcell.KeyF40, tcell.KeyF64, tcell.KeyPrint, tcell.KeyPause, tcell.KeyHelp, tcell.KeyUpLeft, tcell.KeyCenter, tcell.KeyClear, tcell.KeyExit, tcell.KeyCancel}

var typedRunes = []rune{'a', 'b', '{', '"', ' ', '~', '0', '(', 'é', 'ÿ', '\u0080', '\u07ff', '\u0800', '漢', '😀', '\u0301', utf8.MaxRune, '\ufffd', '\u00a0'}

// C25: keys into bytes.
func TestC25(t *testing.T) {
	kit.Run(t, kit.Spec[[]KeyOp]{
		ID:   "C25",
		Rule: "sequences of up to 40 key presses (printable characters of 1-4 bytes, every special key go-prompt knows with its modifiers, keys it does not know) and reads, at most 25 keys waiting; every case ends by reading until nothing waits; in one case of six, floods of 26-150 keys (also more than the widget can hold) pressed by one thread while another one reads; non-trivial when a read returned several characters at once that a special key ended",
		Gen: func(t *rapid.T) []KeyOp {
			n := rapid.IntRange(1, 40).Draw(t, "ops")
			flood := rapid.IntRange(0, 5).Draw(t, "flood") == 3
			if flood {
				n = rapid.IntRange(26, 150).Draw(t, "ops")
			}
			var ops []KeyOp
			waiting := 0
			for i := 0; i < n; i++ {
				k := rapid.IntRange(0, 11).Draw(t, "op")
				switch {
				case !flood && (k < 2 || waiting == 25):
					ops = append(ops, KeyOp{Read: true})
					waiting = max(waiting-1, 0)
					continue
				case k < 8:
					rn := rapid.SampledFrom(typedRunes).Draw(t, "rune")
					ops = append(ops, KeyOp{Key: int16(tcell.KeyRune), Rune: rn, Mod: rapid.SampledFrom([]int16{0, 0, 0, int16(tcell.ModShift), int16(tcell.ModAlt)}).Draw(t, "mod")})
				case k < 11:
					s := rapid.SampledFrom(special).Draw(t, "special")
					ops = append(ops, KeyOp{Key: int16(s.key), Mod: int16(s.mod)})
				default:
					ops = append(ops, KeyOp{Key: int16(rapid.SampledFrom(nothing).Draw(t, "unknown"))})
				}
				waiting++
			}
			return ops
		},
		Check: func(r *kit.R, ops []KeyOp) {
			v := &term.PromptView{Screen: &cursorLog{}}
			_, in, stop := liveConsoleOf(v)
			defer v.SetBox(term.PositionBox{Rows: 1, Cols: 1}) // lets the widget's goroutine go
			defer stop()
			// what is still to be read: characters, or one special key
			type unit struct {
				rn  rune
				key prompt.Key
				nil bool
			}
			var queue []unit
			unknown := 0
			pending := func() bool {
				for _, u := range queue {
					if !u.nil {
						return true
					}
				}
				return false
			}
			read := func(what string) {
				var got []byte
				var err error
				r.Guard("panic", what, func() { got, err = in.Read() })
				if err != nil {
					if !errors.Is(err, syscall.EWOULDBLOCK) {
						r.Failf("error", "%s: %v", what, err)
					}
					if len(got) != 0 {
						r.Failf("error", "%s: %q and %v", what, got, err)
					}
					// a key that means nothing to the prompt may have been taken
					if unknown == 0 && pending() {
						r.Failf("lost", "%s: nothing to read, with %d keys waiting", what, len(queue))
					}
					unknown = max(unknown-1, 0)
					return
				}
				for len(queue) > 0 && queue[0].nil {
					queue = queue[1:]
				}
				if len(queue) == 0 {
					r.Failf("extra", "%s: read %q, with no key waiting", what, got)
				}
				if u := queue[0]; u.rn == 0 {
					queue = queue[1:]
					if k := prompt.GetKey(got); k != u.key {
						r.Failf("key", "%s: read %q, which go-prompt takes for the key %v; the key pressed was %v", what, got, k, u.key)
					}
					r.Tag("special")
					return
				}
				var want []byte
				n := 0
				for len(queue) > 0 && queue[0].rn != 0 {
					want = utf8.AppendRune(want, queue[0].rn)
					queue = queue[1:]
					n++
				}
				if !bytes.Equal(got, want) {
					r.Failf("text", "%s: read %q, wanted %q", what, got, want)
				}
				if n > 1 && len(queue) > 0 {
					r.NonTrivial()
				}
			}
			unitOf := func(op KeyOp) unit {
				if tcell.Key(op.Key) == tcell.KeyRune {
					return unit{rn: op.Rune}
				}
				for _, s := range special {
					if s.key == tcell.Key(op.Key) && s.mod == tcell.ModMask(op.Mod) {
						return unit{key: s.want}
					}
				}
				return unit{nil: true}
			}
			press := func(op KeyOp) {
				v.HandleKey(tcell.NewEventKey(tcell.Key(op.Key), op.Rune, tcell.ModMask(op.Mod)))
			}
			flood := len(ops) > 25
			for _, op := range ops {
				flood = flood && !op.Read
			}
			if flood {
				pressed := make(chan struct{})
				go func() {
					defer close(pressed)
					for _, op := range ops {
						press(op)
					}
				}()
				for _, op := range ops {
					if u := unitOf(op); !u.nil {
						queue = append(queue, u)
					}
				}
				// everything must come out, however the reads cut it up
				for end, empty := time.Now().Add(20*time.Second), 0; len(queue) > 0; {
					got, err := in.Read()
					if err != nil {
						select {
						case <-pressed:
							// all are waiting, and each unknown one may take a read
							if empty++; empty > len(ops)+1 {
								r.Failf("lost", "a flood of %d keys: %d are never read", len(ops), len(queue))
							}
						default:
							if time.Now().After(end) {
								r.Failf("stuck", "a flood of %d keys: pressing does not end, with %d to be read", len(ops), len(queue))
							}
						}
						runtime.Gosched()
						continue
					}
					if queue[0].rn == 0 {
						if k := prompt.GetKey(got); k != queue[0].key {
							r.Failf("key", "in a flood: read %q, which go-prompt takes for the key %v; the key pressed was %v", got, k, queue[0].key)
						}
						queue = queue[1:]
						continue
					}
					n := 0
					for rest := got; len(rest) > 0; n++ {
						rn, size := utf8.DecodeRune(rest)
						if len(queue) == 0 || queue[0].rn != rn || !bytes.Equal(rest[:size], utf8.AppendRune(nil, rn)) {
							r.Failf("text", "in a flood: read %q, of which %q was not pressed there", got, rest)
						}
						rest, queue = rest[size:], queue[1:]
					}
					if n > 1 {
						r.NonTrivial()
					}
				}
				<-pressed
				r.Tag("flood")
				for i := 0; i <= len(ops); i++ { // unknown keys at the end
					if got, err := in.Read(); err == nil {
						r.Failf("extra", "after a flood: read %q, with no key waiting", got)
					}
				}
				return
			}
			for i, op := range ops {
				if op.Read {
					read(fmt.Sprintf("op %d", i))
					continue
				}
				press(op)
				u := unitOf(op)
				queue = append(queue, u)
				if u.nil {
					unknown++
				}
			}
			for i := 0; pending() && i < 2*len(ops)+4; i++ {
				read(fmt.Sprintf("final read %d", i))
			}
			if pending() {
				r.Failf("lost", "%d keys are never read", len(queue))
			}
			for ; unknown > 0; unknown-- {
				in.Read()
			}
			if got, err := in.Read(); !errors.Is(err, syscall.EWOULDBLOCK) || len(got) != 0 {
				r.Failf("extra", "with nothing waiting: %q, %v", got, err)
			}
		},
	})
}
