//go:build !sched && !race

package webcheck

import "verif/harness/pbt"

// parts selects what the build variant runs.
func parts(id string, plain ...pbt.Part) []pbt.Part { return plain }
