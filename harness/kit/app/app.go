// Package app runs apps on pseudo terminals.
package app

import (
	"context"
	"fmt"
	"io"
	"os"
	"os/signal"
	"runtime/pprof"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/metafates/bento"
	"github.com/metafates/bento/verif/pty"
	"github.com/metafates/bento/verif/vt"
	"golang.org/x/sys/unix"
)

// Limit is how long anything that takes milliseconds may take.
const Limit = 30 * time.Second

var (
	devNull, devFull, dir *os.File
	realIn, realOut       = os.Stdin, os.Stdout
	realErr               = os.Stderr
)

// Setup prepares the process for running apps.
func Setup(*testing.M) {
	os.Setenv("TERM", "xterm-256color")
	os.Setenv("COLORTERM", "truecolor")
	os.Unsetenv("CI")
	os.Unsetenv("NO_COLOR")
	open := func(name string, flag int) *os.File {
		f, err := os.OpenFile(name, flag, 0)
		if err != nil {
			panic(err)
		}
		return f
	}
	// Become the leader of a session, to have a controlling terminal now and
	// then. What that terminal makes of keys and hang-ups is of no interest.
	_, _ = unix.Setsid()
	signal.Ignore(syscall.SIGHUP, syscall.SIGINT, syscall.SIGQUIT, syscall.SIGTSTP, syscall.SIGTTIN, syscall.SIGTTOU)
	devNull, devFull, dir = open("/dev/null", os.O_RDWR), open("/dev/full", os.O_RDWR), open("/", os.O_RDONLY)
}

// Session is one run of an app.
type Session struct {
	Pair   *pty.Pair
	In     *os.File
	Out    *os.File
	Before unix.Termios
	Emu    *vt.Term
	syncs  int
	piped  *os.File // the other end of the standard input, if it is a pipe

	Cancel context.CancelFunc
	Done   chan struct{}

	// Once Done is closed:
	Model bento.Model
	Err   error
	Panic any
	Stack string
}

// Open makes a terminal for a session, with settings derived from flags.
func Open(w, h int, flags uint) *Session {
	p, err := pty.Open(w, h)
	if err != nil {
		panic(err)
	}
	s := &Session{Pair: p, Done: make(chan struct{}), Emu: vt.New(w, h)}
	t, err := p.Termios()
	if err != nil {
		panic(err)
	}
	for i, f := range []struct {
		field *uint32
		bit   uint32
	}{
		{&t.Lflag, unix.ECHO}, {&t.Lflag, unix.ICANON}, {&t.Lflag, unix.ISIG}, {&t.Iflag, unix.ICRNL},
		{&t.Oflag, unix.OPOST}, {&t.Iflag, unix.IXON}, {&t.Lflag, unix.IEXTEN}, {&t.Iflag, unix.ISTRIP},
	} {
		if flags&(1<<i) != 0 {
			*f.field ^= f.bit
		}
	}
	t.Cc[unix.VMIN], t.Cc[unix.VTIME] = 1, uint8(flags>>8&1)
	if err := unix.IoctlSetTermios(int(p.Slave.Fd()), unix.TCSETS, t); err != nil {
		panic(err)
	}
	t, err = p.Termios()
	if err != nil {
		panic(err)
	}
	s.Before = *t

	// Separate descriptors, so that each can be broken by itself.
	dup := func(name string) *os.File {
		fd, err := unix.FcntlInt(p.Slave.Fd(), unix.F_DUPFD_CLOEXEC, 3)
		if err != nil {
			panic(err)
		}
		return os.NewFile(uintptr(fd), name)
	}
	s.In, s.Out = dup("in"), dup("out")
	return s
}

// piped is what waits in the pipe.
const piped = "some data\n"

// Pipe makes the standard input a pipe with some data, and the terminal the
// controlling one. It returns false if that is impossible here.
func (s *Session) Pipe() bool {
	if err := unix.IoctlSetInt(int(s.Pair.Slave.Fd()), unix.TIOCSCTTY, 0); err != nil {
		return false
	}
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	if _, err := w.WriteString(piped); err != nil {
		panic(err)
	}
	s.In.Close()
	s.In, s.piped = r, w
	return true
}

// Piped returns what is left in the pipe, and what there was.
func (s *Session) Piped() (left, was string) {
	s.piped.Close()
	b, err := io.ReadAll(s.In)
	if err != nil {
		panic(err)
	}
	return string(b), piped
}

// BreakOutput makes every write of the app fail from now on.
func (s *Session) BreakOutput() { s.redirect(devFull, s.Out) }

// BreakInput makes every read of the app fail from now on.
func (s *Session) BreakInput() {
	s.redirect(dir, s.In)
	s.Type("x")
}

func (s *Session) redirect(from, to *os.File) {
	if err := unix.Dup3(int(from.Fd()), int(to.Fd()), unix.O_CLOEXEC); err != nil {
		panic(err)
	}
}

// Type sends bytes as if typed. Nothing happens when the terminal is gone.
func (s *Session) Type(b string) { _, _ = s.Pair.Master.WriteString(b) }

// Resize changes the size of the terminal and tells the process.
func (s *Session) Resize(w, h int) {
	if err := s.Pair.SetSize(w, h); err != nil {
		panic(err)
	}
	_ = syscall.Kill(os.Getpid(), syscall.SIGWINCH)
}

// Shake changes the size of the terminal as Resize does, and what the terminal
// showed is lost. Output until then is read into the emulator.
func (s *Session) Shake(w, h int) {
	s.collect()
	s.Emu.Resize(w, h)
	s.Resize(w, h)
}

// Start runs the app.
func (s *Session) Start(model bento.Model, ctx context.Context) {
	os.Stdin, os.Stdout, os.Stderr = s.In, s.Out, devNull
	a := bento.NewApp(model)
	if ctx != nil {
		a = a.WithContext(ctx)
	}
	go func() {
		defer close(s.Done)
		defer func() {
			if r := recover(); r != nil {
				s.Panic = r
			}
		}()
		s.Model, s.Err = a.Run()
	}()
}

// Wait waits for the app to end, as long as it makes progress.
func (s *Session) Wait(limit time.Duration) bool {
	select {
	case <-s.Done:
		return true
	case <-time.After(limit):
		var sb strings.Builder
		_ = pprof.Lookup("goroutine").WriteTo(&sb, 1)
		s.Stack = sb.String()
		return false
	}
}

// Where names the functions of the app that goroutines are blocked in.
func (s *Session) Where() string {
	var out []string
	for _, l := range strings.Split(s.Stack, "\n") {
		if strings.Contains(l, "bento.(*appRunner)") {
			f := strings.Fields(l)
			out = append(out, f[len(f)-2]+" "+f[len(f)-1])
		}
	}
	return strings.Join(out, ", ")
}

// collect reads all output so far into the emulator.
func (s *Session) collect() {
	var t unix.Termios
	if now, err := s.Pair.Termios(); err == nil {
		t = *now
	}
	s.syncs++
	marker := fmt.Sprintf("\x1b]777;sync %d\x07", s.syncs)
	var err error
	// A terminal drops output in some cases, so the marker is written again
	// when it does not arrive. Those that are left over do not show.
	for start := time.Now(); time.Since(start) < Limit; {
		_, _ = s.Pair.Slave.WriteString(marker)
		var b []byte
		if b, err = s.Pair.TakeUntil(marker, time.Second); err == nil {
			s.Emu.Write(b)
			return
		}
	}
	panic(fmt.Sprintf("%v (%+v)", err, t))
}

// Sync reads all output so far into the emulator.
func (s *Session) Sync() {
	s.collect()
	s.Emu.Sync()
}

// Leftover types a line at the terminal and returns whether the next reader of
// it gets all of that, and what it gets.
func (s *Session) Leftover(line string) (bool, string) {
	t := s.Before
	t.Lflag &^= unix.ICANON | unix.ECHO
	t.Iflag = 0
	t.Cc[unix.VMIN], t.Cc[unix.VTIME] = 0, 0
	_ = unix.IoctlSetTermios(int(s.Pair.Slave.Fd()), unix.TCSETS, &t)
	s.Type(line)
	got := ""
	buf := make([]byte, 256)
	// A reader that still waits would be served first.
	for end := time.Now().Add(3 * time.Second); time.Now().Before(end); {
		n, _ := unix.Read(int(s.Pair.Slave.Fd()), buf)
		if n > 0 {
			got += string(buf[:n])
		} else if strings.HasSuffix(got, line) {
			return true, got
		} else {
			time.Sleep(100 * time.Microsecond)
		}
	}
	return false, got
}

// Close gives everything back.
func (s *Session) Close() {
	os.Stdin, os.Stdout, os.Stderr = realIn, realOut, realErr
	if s.piped != nil {
		// The process is without a controlling terminal again.
		_ = unix.IoctlSetInt(int(s.Pair.Slave.Fd()), unix.TIOCNOTTY, 0)
		s.piped.Close()
	}
	s.In.Close()
	s.Out.Close()
	s.Pair.Close()
}
