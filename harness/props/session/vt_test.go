package session

import (
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unicode/utf8"
	"unsafe"

	"github.com/mattn/go-runewidth"
)

// cell is one cell of the terminal: what it shows and in which colour (-1 is the default).
type cell struct {
	rn rune
	fg int
}

// vt is a terminal: as much of xterm as tcell uses.
type vt struct {
	mu         sync.Mutex
	cols, rows int
	cells      [][]cell
	x, y       int
	wrap       bool
	fg         int
	alt        bool
	cursor     bool
	pend       []byte
	unknown    []string
	bytes      int
}

func newVT(cols, rows int) *vt {
	t := &vt{cursor: true, fg: -1}
	t.resize(cols, rows)
	return t
}

func (t *vt) resize(cols, rows int) {
	t.mu.Lock()
	defer t.mu.Unlock()
	old := t.cells
	t.cells = make([][]cell, rows)
	for y := range t.cells {
		t.cells[y] = make([]cell, cols)
		for x := range t.cells[y] {
			t.cells[y][x] = cell{' ', -1}
			if y < len(old) && x < len(old[y]) {
				t.cells[y][x] = old[y][x]
			}
		}
	}
	t.cols, t.rows = cols, rows
	t.clamp()
}

func (t *vt) clamp() {
	t.x = min(max(t.x, 0), t.cols-1)
	t.y = min(max(t.y, 0), t.rows-1)
	t.wrap = false
}

func (t *vt) clear(y0, x0, y1, x1 int) { // from (y0, x0) up to and with (y1, x1), in reading order
	for y := y0; y <= y1; y++ {
		a, b := 0, t.cols-1
		if y == y0 {
			a = x0
		}
		if y == y1 {
			b = x1
		}
		for x := a; x <= b; x++ {
			t.cells[y][x] = cell{' ', -1}
		}
	}
}

func (t *vt) scroll() {
	copy(t.cells, t.cells[1:])
	last := make([]cell, t.cols)
	for i := range last {
		last[i] = cell{' ', -1}
	}
	t.cells[t.rows-1] = last
}

func (t *vt) put(rn rune) {
	w := runewidth.RuneWidth(rn)
	if w == 0 {
		return
	}
	if t.wrap || t.x+w > t.cols {
		t.x = 0
		t.wrap = false
		if t.y++; t.y >= t.rows {
			t.y = t.rows - 1
			t.scroll()
		}
	}
	t.cells[t.y][t.x] = cell{rn, t.fg}
	if w == 2 && t.x+1 < t.cols {
		t.cells[t.y][t.x+1] = cell{0, t.fg}
	}
	if t.x += w; t.x >= t.cols {
		t.x = t.cols - 1
		t.wrap = true
	}
}

func (t *vt) write(b []byte) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.bytes += len(b)
	t.pend = append(t.pend, b...)
	for len(t.pend) > 0 {
		n := t.step(t.pend)
		if n == 0 {
			return
		}
		t.pend = t.pend[n:]
	}
}

// step takes one character or sequence off the front, and says how long it was; 0 when it is not all there.
func (t *vt) step(b []byte) int {
	switch c := b[0]; {
	case c == 0x1b:
		if len(b) < 2 {
			return 0
		}
		switch b[1] {
		case '[':
			for i := 2; i < len(b); i++ {
				if b[i] >= 0x40 && b[i] <= 0x7e {
					t.csi(string(b[2:i]), b[i])
					return i + 1
				}
			}
			return 0
		case ']':
			for i := 2; i < len(b); i++ {
				if b[i] == 7 {
					return i + 1
				}
				if b[i] == '\\' && b[i-1] == 0x1b {
					return i + 1
				}
			}
			return 0
		case '(', ')':
			if len(b) < 3 {
				return 0
			}
			return 3
		case '=', '>', '7', '8':
			return 2
		}
		t.unknown = append(t.unknown, fmt.Sprintf("ESC %q", b[1]))
		return 2
	case c == '\r':
		t.x, t.wrap = 0, false
		return 1
	case c == '\n':
		if t.y++; t.y >= t.rows {
			t.y = t.rows - 1
			t.scroll()
		}
		return 1
	case c == 8:
		t.x--
		t.clamp()
		return 1
	case c < 0x20:
		return 1
	}
	if !utf8.FullRune(b) {
		return 0
	}
	rn, n := utf8.DecodeRune(b)
	t.put(rn)
	return n
}

func (t *vt) csi(arg string, final byte) {
	private := strings.HasPrefix(arg, "?")
	var ps []int
	for _, p := range strings.Split(strings.TrimPrefix(arg, "?"), ";") {
		n, err := strconv.Atoi(p)
		if err != nil {
			n = -1
		}
		ps = append(ps, n)
	}
	p := func(i, def int) int {
		if i < len(ps) && ps[i] > 0 {
			return ps[i]
		}
		return def
	}
	switch final {
	case 'H', 'f':
		t.y, t.x = p(0, 1)-1, p(1, 1)-1
		t.clamp()
	case 'A':
		t.y -= p(0, 1)
		t.clamp()
	case 'B':
		t.y += p(0, 1)
		t.clamp()
	case 'C':
		t.x += p(0, 1)
		t.clamp()
	case 'D':
		t.x -= p(0, 1)
		t.clamp()
	case 'G':
		t.x = p(0, 1) - 1
		t.clamp()
	case 'J':
		switch p(0, 0) {
		case 0:
			t.clear(t.y, t.x, t.rows-1, t.cols-1)
		case 1:
			t.clear(0, 0, t.y, t.x)
		default:
			t.clear(0, 0, t.rows-1, t.cols-1)
		}
	case 'K':
		switch p(0, 0) {
		case 0:
			t.clear(t.y, t.x, t.y, t.cols-1)
		case 1:
			t.clear(t.y, 0, t.y, t.x)
		default:
			t.clear(t.y, 0, t.y, t.cols-1)
		}
	case 'm':
		for i := 0; i < len(ps); i++ {
			switch n := max(ps[i], 0); {
			case n == 0, n == 39:
				t.fg = -1
			case n >= 30 && n <= 37:
				t.fg = n - 30
			case n >= 90 && n <= 97:
				t.fg = n - 90 + 8
			case (n == 38 || n == 48) && i+2 < len(ps) && ps[i+1] == 5:
				if n == 38 {
					t.fg = ps[i+2]
				}
				i += 2
			case (n == 38 || n == 48) && i+4 < len(ps) && ps[i+1] == 2:
				i += 4
			}
		}
	case 'h', 'l':
		if private {
			for _, n := range ps {
				switch n {
				case 25:
					t.cursor = final == 'h'
				case 1049, 47, 1047:
					t.alt = final == 'h'
					t.clear(0, 0, t.rows-1, t.cols-1)
				}
			}
		}
	case 't', 'r', 'n', 'c':
	default:
		t.unknown = append(t.unknown, "CSI "+arg+string(final))
	}
}

// text is what a block of cells shows, each row without its trailing blanks.
func (t *vt) text(y0, x0, y1, x1 int) []string {
	var out []string
	for y := max(y0, 0); y < y1 && y < t.rows; y++ {
		var sb strings.Builder
		for x := max(x0, 0); x < x1 && x < t.cols; x++ {
			if rn := t.cells[y][x].rn; rn != 0 {
				sb.WriteRune(rn)
			}
		}
		out = append(out, strings.TrimRight(sb.String(), " "))
	}
	return out
}

func (t *vt) String() string {
	var sb strings.Builder
	for _, l := range t.text(0, 0, t.rows, t.cols) {
		sb.WriteString("|" + l + "\n")
	}
	return sb.String()
}

// session is promq in a terminal.
type session struct {
	*vt
	cmd   *exec.Cmd
	ptm   *os.File
	ended chan struct{}
	err   error
	tail  []byte // of what it wrote
}

func ioctl(f *os.File, req uintptr, arg unsafe.Pointer) error {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), req, uintptr(arg)); e != 0 {
		return e
	}
	return nil
}

type winsize struct{ rows, cols, x, y uint16 }

func (s *session) setSize(cols, rows int) error {
	ws := winsize{uint16(rows), uint16(cols), 0, 0}
	return ioctl(s.ptm, syscall.TIOCSWINSZ, unsafe.Pointer(&ws))
}

func start(bin string, env, args []string, cols, rows int) (*session, error) {
	fd, err := syscall.Open("/dev/ptmx", syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	if err != nil {
		return nil, fmt.Errorf("no terminals here: %w", err)
	}
	ptm := os.NewFile(uintptr(fd), "ptmx")
	var n, lock int32
	if err := ioctl(ptm, syscall.TIOCSPTLCK, unsafe.Pointer(&lock)); err != nil {
		return nil, err
	}
	if err := ioctl(ptm, syscall.TIOCGPTN, unsafe.Pointer(&n)); err != nil {
		return nil, err
	}
	pts, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, err
	}
	s := &session{vt: newVT(cols, rows), ptm: ptm, ended: make(chan struct{})}
	if err := s.setSize(cols, rows); err != nil {
		return nil, err
	}
	s.cmd = exec.Command(bin, args...)
	s.cmd.Env = env
	s.cmd.Stdin, s.cmd.Stdout, s.cmd.Stderr = pts, pts, pts
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0}
	if err := s.cmd.Start(); err != nil {
		return nil, err
	}
	pts.Close()
	drained := make(chan struct{})
	go func() {
		defer close(drained)
		buf := make([]byte, 1<<16)
		for {
			n, err := ptm.Read(buf)
			s.write(buf[:n])
			s.mu.Lock()
			if s.tail = append(s.tail, buf[:n]...); len(s.tail) > 1<<17 {
				s.tail = append([]byte(nil), s.tail[len(s.tail)-1<<16:]...)
			}
			s.mu.Unlock()
			if err != nil {
				return
			}
		}
	}()
	go func() {
		s.err = s.cmd.Wait()
		select {
		case <-drained:
		case <-time.After(time.Second):
		}
		close(s.ended)
	}()
	return s, nil
}

// lastWords are what the program wrote after leaving the full-screen mode, or else last.
func (s *session) lastWords() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	t := string(s.tail)
	for _, mark := range []string{"panic: ", "fatal error: ", "SIGQUIT: ", "DATA RACE"} {
		if i := strings.Index(t, mark); i >= 0 {
			t = t[i:]
			break
		}
	}
	if len(t) > 9000 {
		t = t[:9000]
	}
	return strings.ReplaceAll(t, "\r", "")
}

func (s *session) close() {
	syscall.Kill(-s.cmd.Process.Pid, syscall.SIGKILL)
	s.cmd.Process.Kill()
	<-s.ended
	s.ptm.Close()
}

func (s *session) typed(text string) {
	s.ptm.Write([]byte(text))
}

// until waits for the screen to satisfy cond (under the lock).
func (s *session) until(d time.Duration, cond func() bool) bool {
	end := time.Now().Add(d)
	for {
		s.mu.Lock()
		ok := cond()
		s.mu.Unlock()
		if ok {
			return true
		}
		select {
		case <-s.ended:
			s.mu.Lock()
			defer s.mu.Unlock()
			return cond()
		default:
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(5 * time.Millisecond)
	}
}
