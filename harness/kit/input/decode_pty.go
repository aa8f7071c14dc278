//go:build !verif_overlay

package input

import (
	"sync"
	"testing"
	"time"

	"github.com/metafates/bento"
	"github.com/metafates/bento/verif/kit/app"
	"golang.org/x/sys/unix"
)

// This takes the place of decode_overlay.go where the decoder cannot be called
// directly: an app is run on a pseudo terminal and typed at.

// Exact reports whether reads can be made to return exactly what is wanted.
const Exact = false

// BufferSize is how much is read at once.
var BufferSize = 256

// Setup prepares decoding.
func Setup(m *testing.M) { app.Setup(m) }

const mark = "\x1e\x1f\x1e\x1f\x1e\x1f"

type recorder struct {
	mu   *sync.Mutex
	msgs *[]bento.Msg
	quit *bool
}

func (recorder) Init() bento.Cmd                  { return nil }
func (recorder) Render(bento.Rect, *bento.Buffer) {}
func (r recorder) Update(m bento.Msg) (bento.Model, bento.Cmd) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if _, ok := m.(bento.WindowSizeMsg); ok {
		return r, nil
	}
	*r.msgs = append(*r.msgs, m)
	if n := len(*r.msgs) - len(mark); n >= 0 && !*r.quit {
		for i := range mark {
			k, ok := (*r.msgs)[n+i].(bento.KeyMsg)
			if !ok || k.Type != bento.KeyType(mark[i]) || k.Alt {
				return r, nil
			}
		}
		*r.msgs = (*r.msgs)[:n]
		*r.quit = true
		return r, bento.Quit
	}
	return r, nil
}

// Decode returns the messages of chunks read one by one.
func Decode(chunks []string) (out []bento.Msg, full int, err error) {
	s := app.Open(20, 4, 0)
	defer s.Close()
	quit := false
	r := recorder{&sync.Mutex{}, &out, &quit}
	s.Start(r, nil)
	drained := func() {
		for end := time.Now().Add(2 * time.Second); time.Now().Before(end); {
			n, err := unix.IoctlGetInt(int(s.Pair.Slave.Fd()), unix.TIOCINQ)
			if err == nil && n == 0 {
				return
			}
			time.Sleep(20 * time.Microsecond)
		}
	}
	// Raw mode first.
	for end := time.Now().Add(2 * time.Second); time.Now().Before(end); {
		if t, err := s.Pair.Termios(); err == nil && t.Lflag&unix.ICANON == 0 {
			break
		}
		time.Sleep(20 * time.Microsecond)
	}
	for _, c := range append(append([]string(nil), chunks...), mark) {
		for len(c) > 0 {
			n := min(len(c), 200)
			s.Type(c[:n])
			time.Sleep(200 * time.Microsecond)
			drained()
			c = c[n:]
		}
	}
	s.Wait(5 * time.Second)
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]bento.Msg(nil), out...), 0, nil
}

// DecodeLooking does not look here.
func DecodeLooking(chunks []string) (out []bento.Msg, full int, looks []Look, err error) {
	out, full, err = Decode(chunks)
	return out, full, nil, err
}
