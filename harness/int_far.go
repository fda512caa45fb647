//go:build vfar

package main

import "github.com/google/codesearch/index"

func init() { farIndex = index.VerifFar }
