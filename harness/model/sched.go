package model

import "pgregory.net/rapid"

// GenSchedule draws where threads are preempted (distances in scheduling points)
// and by whom. Most schedules have few preemptions, since most bugs need few of
// them; some are walks which switch all the time, for the bugs that need several
// threads to get into each other's way again and again. far is the longest
// distance.
func GenSchedule(t *rapid.T, far int) (at, to []int) {
	if Chance(t, "walk", 30) {
		n := Int(t, "steps", 6, 60)
		for i := 0; i < n; i++ {
			at = append(at, Pick(t, "at", 0, 0, 0, 1, 1, 2, 3, 5))
		}
		for i := Int(t, "choices", 2, 16); i > 0; i-- {
			to = append(to, Int(t, "to", 0, 3))
		}
		if Chance(t, "later", 50) {
			at = append([]int{Int(t, "start", 0, far)}, at...)
		}
		return at, to
	}
	for i := Int(t, "preempt", 0, 6); i > 0; i-- {
		if Chance(t, "far", 40) {
			at = append(at, Int(t, "at", 0, far))
		} else {
			at = append(at, Int(t, "at", 0, 12))
		}
	}
	for i := Int(t, "choices", 1, 8); i > 0; i-- {
		to = append(to, Int(t, "to", 0, 3))
	}
	return at, to
}
