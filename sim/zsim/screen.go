//go:build go1.23

package zsim

import (
	"fmt"
	"strings"
	"unsafe"

	"github.com/gdamore/tcell"
)

// Screen is the simulated terminal: cell handling is tcell's own simulation
// screen, the event queue (capacity 10, as in the real one) is the simulator's.
type Screen struct {
	tcell.SimulationScreen
	evch   chan tcell.Event
	quit   chan struct{}
	inited bool
	fini   bool
	Shows  int64
	W, H   int
	lastEv tcell.Event
}

func NewScreen() (tcell.Screen, error) {
	s := &Screen{SimulationScreen: tcell.NewSimulationScreen("UTF-8"), W: 80, H: 60}
	if P != nil && P.cfg.ScreenW > 0 {
		s.W = P.cfg.ScreenW
	}
	s.evch = make(chan tcell.Event, 10)
	s.quit = make(chan struct{})
	if P != nil {
		P.screens = append(P.screens, s)
	}
	return s, nil
}

func (s *Screen) Init() error {
	Point()
	s.lock()
	if err := s.SimulationScreen.Init(); err != nil {
		return err
	}
	s.SimulationScreen.SetSize(s.W, s.H)
	s.inited = true
	s.SimulationScreen.Show() // applies the size
	_ = s.PostEvent(tcell.NewEventResize(s.W, s.H))
	return nil
}

func (s *Screen) Fini() {
	Point()
	s.lock()
	if s.fini {
		return
	}
	s.fini = true
	Close(s.quit)
}

func (s *Screen) Show() {
	Point()
	s.lock()
	s.Shows++
	s.SimulationScreen.Show()
	if P.cfg.Shots {
		n := 0
		lines, rev := s.lines()
		for _, l := range lines {
			if l != "" {
				n++
			}
		}
		upd := false
		if t := fmt.Sprintf("%T", s.lastEv); s.lastEv != nil {
			upd = !strings.HasPrefix(t, "*tcell.") && !strings.HasPrefix(t, "*views.")
		}
		P.shots = append(P.shots, Shot{Step: P.steps, Rows: n, Slow: P.slow, Gs: len(P.gs), Lines: lines, Rev: rev, W: s.W, SlowN: P.slowN, Upd: upd})
	}
}

// Shot is what the terminal showed at one moment.
type Shot struct {
	Step int64
	Rows int    // lines with text
	Slow string // operation that waits for a slow disk at the time
	Gs   int    // goroutines that had not ended

	Lines []string // what they say
	Rev   []int    // how many cells of each are highlighted, from the left; -1: others
	W     int      // width of the terminal
	SlowN int64    // which wait for the disk that is, counted
	Upd   bool     // shown after a request to show how things are
}

func (s *Screen) Sync() {
	Point()
	s.lock()
	s.SimulationScreen.Show()
}

func (s *Screen) PollEvent() tcell.Event {
	r := Select(false, RecvCase((<-chan struct{})(s.quit)), RecvCase((<-chan tcell.Event)(s.evch)))
	if r.I == 0 {
		s.lastEv = nil
		return nil
	}
	s.lastEv = SelVal((<-chan tcell.Event)(s.evch), r)
	return s.lastEv
}

func (s *Screen) PostEventWait(ev tcell.Event) {
	Send((chan<- tcell.Event)(s.evch))(ev)
}

func (s *Screen) PostEvent(ev tcell.Event) error {
	if Select(true, SendCase((chan<- tcell.Event)(s.evch))(ev)).I < 0 {
		return tcell.ErrEventQFull
	}
	return nil
}

// inject models the terminal's input loop delivering a key press or resize.
func (s *Screen) inject(kind string, arg int) {
	p := P
	p.spawn(func() {
		if kind == "resize" {
			s.W, s.H = 20+arg%120, 1+arg%70
			s.SimulationScreen.SetSize(s.W, s.H)
			s.PostEventWait(tcell.NewEventResize(s.W, s.H))
			return
		}
		mod := tcell.ModCtrl
		if arg >= 256 {
			s.PostEventWait(tcell.NewEventKey(tcell.KeyRune, rune(arg), tcell.ModNone))
			return
		}
		if tcell.Key(arg) == tcell.KeyCtrlC {
			p.cancelled = true
			p.cancelAt = p.steps
		}
		s.PostEventWait(tcell.NewEventKey(tcell.Key(arg), 0, mod))
	})
}

// A real screen's methods take its lock.
func (s *Screen) lock() {
	if p := P; p != nil && p.cur != nil {
		p.hbBoth(unsafe.Pointer(s))
	}
}

func (s *Screen) Clear()                      { s.lock(); s.SimulationScreen.Clear() }
func (s *Screen) Fill(r rune, st tcell.Style) { s.lock(); s.SimulationScreen.Fill(r, st) }
func (s *Screen) Size() (int, int)            { s.lock(); return s.SimulationScreen.Size() }
func (s *Screen) SetStyle(st tcell.Style)     { s.lock(); s.SimulationScreen.SetStyle(st) }
func (s *Screen) ShowCursor(x, y int)         { s.lock(); s.SimulationScreen.ShowCursor(x, y) }
func (s *Screen) HideCursor()                 { s.lock(); s.SimulationScreen.HideCursor() }
func (s *Screen) SetContent(x, y int, r rune, c []rune, st tcell.Style) {
	s.lock()
	s.SimulationScreen.SetContent(x, y, r, c, st)
}
func (s *Screen) SetCell(x, y int, st tcell.Style, ch ...rune) {
	s.lock()
	s.SimulationScreen.SetCell(x, y, st, ch...)
}
func (s *Screen) GetContent(x, y int) (rune, []rune, tcell.Style, int) {
	s.lock()
	return s.SimulationScreen.GetContent(x, y)
}

// lines returns the visible text and how much of each line is highlighted.
func (s *Screen) lines() (text []string, rev []int) {
	cells, w, h := s.GetContents()
	for y := 0; y < h; y++ {
		var b strings.Builder
		n, end := 0, false
		for x := 0; x < w && y*w+x < len(cells); x++ {
			c := cells[y*w+x]
			if len(c.Runes) > 0 {
				b.WriteRune(c.Runes[0])
			} else {
				b.WriteByte(' ')
			}
			_, _, attr := c.Style.Decompose()
			switch r := attr&tcell.AttrReverse != 0; {
			case r && !end && n >= 0:
				n++
			case r:
				n = -1
			default:
				end = true
			}
		}
		text = append(text, strings.TrimRight(b.String(), " "))
		rev = append(rev, n)
	}
	return
}

// Lines returns the visible text.
func (s *Screen) Lines() []string {
	l, _ := s.lines()
	return l
}

func (s *Screen) Live() bool { return s.inited && !s.fini }
