//go:build vbuf

package main

import "github.com/google/codesearch/regexp"

func init() { setGrepBuf = regexp.VerifBuf }
