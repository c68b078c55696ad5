module verifsim

go 1.24

require github.com/forsyth/jsonpath v0.0.0

replace github.com/forsyth/jsonpath => /repo
