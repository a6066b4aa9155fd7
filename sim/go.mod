module verifsim

go 1.21

require github.com/arl/go-detour v0.0.0

replace github.com/arl/go-detour => /repo
