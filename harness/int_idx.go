//go:build vidx

package main

import "github.com/google/codesearch/index"

func init() {
	setWriteVersion = index.VerifWriteVersion
	flushPost = index.VerifFlushPost
	encodeDeltas = index.VerifEncode
	decodeDeltas = index.VerifDecode
}
