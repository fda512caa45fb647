//go:build vbuf

package regexp

// VerifBuf makes g use a buffer of n bytes.
func VerifBuf(g *Grep, n int) { g.buf = make([]byte, n) }
