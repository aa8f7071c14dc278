//go:build verif_overlay

package bento

import (
	"context"
	"io"
)

// VerifReadInputs exposes the input decoder to the checks.
func VerifReadInputs(ctx context.Context, msgs chan<- Msg, input io.Reader) error {
	return readInputs(ctx, msgs, input)
}
