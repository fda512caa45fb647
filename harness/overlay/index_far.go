//go:build vfar

package index

import "os"

// VerifFar writes posting lists for trigrams 1, 2, ... with the given numbers of files (ids 0, 1, ...)
// as if there were gaps[k] further bytes before list k, and returns their offsets from the
// beginning of the lists, and the posting index.
func VerifFar(data, idx *os.File, base int64, gaps []int64, counts []int) (offs []int64, index string) {
	d := &Buffer{name: data.Name(), buf: make([]byte, 0, 256<<10), file: data, fileOff: base}
	x := &Buffer{name: idx.Name(), buf: make([]byte, 0, 256<<10), file: idx}
	var w postDataWriter
	w.init(d, x)
	start := d.Offset()
	for k, g := range gaps {
		d.fileOff += g
		offs = append(offs, int64(d.Offset()-start))
		w.trigram(uint32(k + 1))
		for i := 0; i < counts[k]; i++ {
			w.fileid(i)
		}
		w.endTrigram()
	}
	w.flush()
	d.Flush()
	x.Flush()
	return offs, idx.Name()
}
