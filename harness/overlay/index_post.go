//go:build vpost

package index

// VerifPostCap makes the writer spill when it has accumulated n postings.
func VerifPostCap(ix *IndexWriter, n int) { ix.post = make([]postEntry, 0, n) }
