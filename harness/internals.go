package main

import (
	"os"

	"github.com/google/codesearch/index"
	"github.com/google/codesearch/regexp"
)

// Entry points into the packages' internals (see overlay/), nil if this build of the
// code does not have the identifiers they need.
var (
	setWriteVersion func(v int)
	flushPost       func(ix *index.IndexWriter)
	encodeDeltas    func(f *os.File, deltas []int)
	decodeDeltas    func(data []byte, n int) []int
	farIndex        func(data, idx *os.File, base int64, gaps []int64, counts []int) ([]int64, string)
	setPostCap      func(ix *index.IndexWriter, n int)
	setGrepBuf      func(g *regexp.Grep, n int)
)
