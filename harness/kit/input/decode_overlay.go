//go:build verif_overlay

package input

import (
	"context"
	"fmt"
	"io"
	"testing"

	"github.com/metafates/bento"
)

// Exact reports whether reads can be made to return exactly what is wanted.
const Exact = true

// reader returns one chunk per read, in pieces where the buffer is smaller.
type reader struct {
	chunks []string
	full   int // reads that filled the buffer
	size   int
	read   int // bytes handed over
	filled bool
	msgs   chan bento.Msg
	looks  []Look
}

func (r *reader) Read(p []byte) (int, error) {
	for len(r.chunks) > 0 && r.chunks[0] == "" {
		r.chunks = r.chunks[1:]
	}
	r.size = len(p)
	if r.read > 0 && r.msgs != nil {
		r.looks = append(r.looks, Look{r.read, len(r.msgs), r.filled})
	}
	if len(r.chunks) == 0 {
		return 0, io.EOF
	}
	n := copy(p, r.chunks[0])
	r.chunks[0] = r.chunks[0][n:]
	r.read += n
	r.filled = n == len(p)
	if n == len(p) {
		r.full++
	}
	return n, nil
}

// BufferSize is how much is read at once.
var BufferSize = func() int {
	r := &reader{chunks: []string{"x"}}
	_ = bento.VerifReadInputs(context.Background(), make(chan bento.Msg, 8), r)
	return max(r.size, 1)
}()

// Decode returns the messages of chunks read one by one, and how many reads
// filled the buffer.
func Decode(chunks []string) (out []bento.Msg, full int, err error) {
	out, full, _, err = DecodeLooking(chunks)
	return out, full, err
}

// DecodeLooking looks how far decoding got whenever it wants to read again.
func DecodeLooking(chunks []string) (out []bento.Msg, full int, looks []Look, err error) {
	total := 16
	for _, c := range chunks {
		total += len(c)
	}
	r := &reader{chunks: append([]string(nil), chunks...)}
	msgs := make(chan bento.Msg, total)
	r.msgs = msgs
	err = bento.VerifReadInputs(context.Background(), msgs, r)
	close(msgs)
	for m := range msgs {
		out = append(out, m)
	}
	if err == nil {
		return out, r.full, r.looks, fmt.Errorf("stopped without an error before the end of the input")
	}
	return out, r.full, r.looks, nil
}

// Setup prepares decoding.
func Setup(*testing.M) {}
