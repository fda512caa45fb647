//go:build vidx

package index

import "os"

// Access for the harness, to identifiers that the package's own tests use too.

func VerifWriteVersion(v int) { writeVersion = v }

func VerifFlushPost(ix *IndexWriter) { ix.flushPost() }

// VerifEncode writes deltas with the delta encoder and returns the bytes.
func VerifEncode(f *os.File, deltas []int) {
	b := &Buffer{buf: make([]byte, 0, 1<<16), file: f}
	var w deltaWriter
	w.init(b)
	for _, d := range deltas {
		w.Write(d)
	}
	w.Flush()
	b.Flush()
}

// VerifDecode reads n deltas with the delta decoder.
func VerifDecode(data []byte, n int) []int {
	var r deltaReader
	r.init(&Index{version: 2}, data)
	var x []int
	for i := 0; i < n; i++ {
		x = append(x, r.next())
	}
	return x
}
