//go:build sched

package webcheck

import (
	"fmt"

	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/pbt"
	"verif/harness/vsched"
)

// parts selects what the build variant runs: here, generated schedules of the
// instrumented packages.
func parts(id string, plain ...pbt.Part) []pbt.Part {
	switch id {
	case "C02":
		return []pbt.Part{pbt.P("schedule", 16000, 500000, func(t *rapid.T) concCase {
			c := genConc(5)(t)
			s := genSchedule(t)
			c.At, c.To = s.At, s.To
			return c
		}, checkConcSched)}
	case "C09":
		return []pbt.Part{pbt.P("schedule", 20000, 500000, func(t *rapid.T) editCase {
			c := genEditors(t)
			s := genSchedule(t)
			c.At, c.To = s.At, s.To
			return c
		}, checkEditSched)}
	case "C10":
		return []pbt.Part{pbt.P("schedule", 12000, 400000, genCtxSched, checkCtxSched)}
	}
	return nil
}

func genSchedule(t *rapid.T) vsched.Schedule {
	at, to := model.GenSchedule(t, 150)
	return vsched.Schedule{At: at, To: to}
}

type ctxSched struct {
	Ctx     ctxCase
	Threads [][]ctxReq
	Sch     vsched.Schedule
}

func genCtxSched(t *rapid.T) ctxSched {
	c := ctxSched{Ctx: ctxCase{Layers: model.Int(t, "layers", 1, 2)}}
	for i := model.Int(t, "before", 0, 2); i > 0; i-- {
		c.Ctx.Reqs = append(c.Ctx.Reqs, genCtxReq(t, 1))
	}
	for i := model.Int(t, "threads", 2, 3); i > 0; i-- {
		var qs []ctxReq
		for j := model.Int(t, "reqs", 1, 3); j > 0; j-- {
			qs = append(qs, genCtxReq(t, 1))
		}
		c.Threads = append(c.Threads, qs)
	}
	c.Sch = genSchedule(t)
	return c
}

func checkCtxSched(r *pbt.R, c ctxSched) error {
	var err error
	var cw *ctxWorld
	res := vsched.Run(r.T, c.Sch, func(t *vsched.T) {
		cw = newCtxWorld(c.Ctx)
		for i := range c.Ctx.Reqs {
			if e := cw.issue(&c.Ctx.Reqs[i]); e != nil && err == nil {
				err = e
			}
		}
		for i, qs := range c.Threads {
			qs := qs
			t.Go(fmt.Sprintf("thread %d", i), func() {
				for j := range qs {
					if e := cw.issue(&qs[j]); e != nil && err == nil {
						err = e
					}
				}
			})
		}
	}, func() error {
		if err != nil {
			return err
		}
		return cw.checkKept()
	})
	r.NonTrivialIf(res.Preempted > 0)
	return res.Err
}

func checkConcSched(r *pbt.R, c concCase) error {
	var w *concWorld
	res := vsched.Run(r.T, vsched.Schedule{At: c.At, To: c.To}, func(t *vsched.T) {
		w = newConcWorld(c)
		for i, ops := range c.Threads {
			ops := ops
			t.Go(fmt.Sprintf("thread %d", i), func() {
				for _, o := range ops {
					w.do(o)
				}
			})
		}
	}, func() error {
		for _, q := range c.Probes {
			w.request(q, nil)
		}
		return nil
	})
	if res.Err != nil {
		return res.Err
	}
	return w.judge(r, c)
}

func checkEditSched(r *pbt.R, c editCase) error {
	var w *editWorld
	res := vsched.Run(r.T, vsched.Schedule{At: c.At, To: c.To}, func(t *vsched.T) {
		w = newEditWorld(c)
		for i, ops := range c.Threads {
			t.Go(fmt.Sprintf("thread %d", i), func() { w.thread(i, ops) })
		}
	}, func() error { return nil })
	if res.Err != nil {
		return res.Err
	}
	return w.judge(r, c)
}
