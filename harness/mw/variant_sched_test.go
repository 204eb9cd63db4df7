//go:build sched

package mwcheck

import (
	"fmt"

	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/pbt"
	"verif/harness/vsched"
)

func parts(id string, plain ...pbt.Part) []pbt.Part {
	return []pbt.Part{pbt.P("schedule", 12000, 400000, func(t *rapid.T) idCase {
		c := genID(t)
		c.At, c.To = model.GenSchedule(t, 40)
		return c
	}, checkIDsSched)}
}

func checkIDsSched(r *pbt.R, c idCase) error {
	var w *idWorld
	var before string
	var ids []string
	var err error
	res := vsched.Run(r.T, vsched.Schedule{At: c.At, To: c.To}, func(t *vsched.T) {
		w = newIDWorld(c)
		before, err = w.issue(idReq{})
		for i, qs := range c.Threads {
			t.Go(fmt.Sprintf("thread %d", i), func() {
				for _, q := range qs {
					id, e := w.issue(q)
					if e != nil {
						err = e
					}
					ids = append(ids, id)
				}
			})
		}
	}, func() error {
		if err != nil {
			return err
		}
		after, err := w.issue(idReq{})
		if err != nil {
			return err
		}
		return judgeIDs(before, ids, after)
	})
	r.NonTrivialIf(res.Preempted > 0)
	return res.Err
}
