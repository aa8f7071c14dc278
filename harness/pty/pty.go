// Package pty opens pseudo terminals and keeps what the program wrote to them.
package pty

import (
	"fmt"
	"os"
	"strconv"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"golang.org/x/sys/unix"
)

// Pair is a pseudo terminal: the program uses Slave, the harness Master.
type Pair struct {
	Master, Slave *os.File
	fd            int

	mu      sync.Mutex
	out     []byte
	closed  bool
	changed chan struct{}
	done    chan struct{}
}

// Open makes a pseudo terminal of the given size and starts collecting its output.
func Open(w, h int) (*Pair, error) {
	fd, err := unix.Open("/dev/ptmx", unix.O_RDWR|unix.O_NOCTTY|unix.O_NONBLOCK|unix.O_CLOEXEC, 0)
	if err != nil {
		return nil, fmt.Errorf("open ptmx: %w", err)
	}
	m := os.NewFile(uintptr(fd), "/dev/ptmx")
	var n uint32
	if err := ioctl(uintptr(fd), unix.TIOCGPTN, uintptr(unsafe.Pointer(&n))); err != nil {
		m.Close()
		return nil, fmt.Errorf("pts number: %w", err)
	}
	var unlock int32
	if err := ioctl(uintptr(fd), unix.TIOCSPTLCK, uintptr(unsafe.Pointer(&unlock))); err != nil {
		m.Close()
		return nil, fmt.Errorf("unlock pts: %w", err)
	}
	s, err := os.OpenFile("/dev/pts/"+strconv.Itoa(int(n)), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		m.Close()
		return nil, fmt.Errorf("open pts: %w", err)
	}
	p := &Pair{Master: m, fd: fd, Slave: s, changed: make(chan struct{}, 1), done: make(chan struct{})}
	if err := p.SetSize(w, h); err != nil {
		return nil, err
	}
	go p.drain()
	return p, nil
}

func ioctl(fd, req, arg uintptr) error {
	_, _, e := unix.Syscall(unix.SYS_IOCTL, fd, req, arg)
	if e != 0 {
		return e
	}
	return nil
}

// SetSize changes the window size.
func (p *Pair) SetSize(w, h int) error {
	return unix.IoctlSetWinsize(p.fd, unix.TIOCSWINSZ, &unix.Winsize{Col: uint16(w), Row: uint16(h)})
}

// Raw turns off every translation of the line discipline.
func (p *Pair) Raw() error {
	t, err := p.Termios()
	if err != nil {
		return err
	}
	t.Iflag, t.Oflag, t.Lflag = 0, 0, 0
	t.Cflag |= unix.CS8
	t.Cc[unix.VMIN], t.Cc[unix.VTIME] = 1, 0
	return unix.IoctlSetTermios(p.fd, unix.TCSETS, t)
}

// Termios reads the line discipline settings.
func (p *Pair) Termios() (*unix.Termios, error) {
	return unix.IoctlGetTermios(p.fd, unix.TCGETS)
}

func (p *Pair) drain() {
	defer close(p.done)
	buf := make([]byte, 65536)
	for {
		n, err := p.Master.Read(buf)
		p.mu.Lock()
		p.out = append(p.out, buf[:n]...)
		if err != nil {
			p.closed = true
		}
		p.mu.Unlock()
		select {
		case p.changed <- struct{}{}:
		default:
		}
		if err != nil {
			return
		}
	}
}

// Take returns and forgets what was written so far.
func (p *Pair) Take() []byte {
	p.mu.Lock()
	defer p.mu.Unlock()
	b := p.out
	p.out = nil
	return b
}

// TakeUntil waits until marker arrived, returning (and forgetting) what came
// before it.
func (p *Pair) TakeUntil(marker string, limit time.Duration) ([]byte, error) {
	deadline := time.Now().Add(limit)
	for {
		p.mu.Lock()
		i := indexOf(p.out, marker)
		if i >= 0 {
			b := append([]byte(nil), p.out[:i]...)
			p.out = append([]byte(nil), p.out[i+len(marker):]...)
			p.mu.Unlock()
			return b, nil
		}
		closed := p.closed
		p.mu.Unlock()
		if closed {
			return nil, fmt.Errorf("pty closed before the marker arrived")
		}
		left := time.Until(deadline)
		if left <= 0 {
			return nil, fmt.Errorf("marker did not arrive within %v", limit)
		}
		select {
		case <-p.changed:
		case <-time.After(min(left, 50*time.Millisecond)):
		}
	}
}

func indexOf(b []byte, m string) int {
	for i := 0; i+len(m) <= len(b); i++ {
		if string(b[i:i+len(m)]) == m {
			return i
		}
	}
	return -1
}

// Close releases the pseudo terminal.
func (p *Pair) Close() {
	p.Slave.Close()
	p.Master.Close()
	<-p.done
}
