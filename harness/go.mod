module verif

go 1.23

require github.com/google/codesearch v0.0.0

replace github.com/google/codesearch => /repo
