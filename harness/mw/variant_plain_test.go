//go:build !sched && !race

package mwcheck

import "verif/harness/pbt"

func parts(id string, plain ...pbt.Part) []pbt.Part { return plain }
