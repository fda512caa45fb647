//go:build vpost

package main

import "github.com/google/codesearch/index"

func init() { setPostCap = index.VerifPostCap }
