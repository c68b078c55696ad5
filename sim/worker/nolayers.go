//go:build !layers

package main

import "verifsim/scen"

// layers are only there in the workers for C19, so that nothing else depends on them.
type layers struct{}

func (*layers) make(*scen.Scenario)                   {}
func (*layers) finish(*scenRun)                       {}
func (*layers) eval(scen.Op) func(any) ([]any, error) { return nil }
func (*layers) text(scen.Op) string                   { return "" }
func (*layers) want(scen.Op) string                   { return "" }
