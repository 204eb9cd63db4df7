//go:build race

package webcheck

import (
	"sync"

	"verif/harness/pbt"
)

// parts selects what the build variant runs: here, real goroutines under the
// race detector.
func parts(id string, plain ...pbt.Part) []pbt.Part {
	switch id {
	case "C02":
		return []pbt.Part{pbt.P("goroutines", 4000, 80000, genConc(5), func(r *pbt.R, c concCase) error {
			w := newConcWorld(c)
			var wg sync.WaitGroup
			start := make(chan struct{})
			for _, ops := range c.Threads {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					for _, o := range ops {
						w.do(o)
					}
				}()
			}
			close(start)
			wg.Wait()
			for _, q := range c.Probes {
				w.request(q, nil)
			}
			return w.judge(r, c)
		})}
	case "C09":
		return []pbt.Part{pbt.P("goroutines", 4000, 80000, genEditors, func(r *pbt.R, c editCase) error {
			w := newEditWorld(c)
			var wg sync.WaitGroup
			start := make(chan struct{})
			for i, ops := range c.Threads {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					w.thread(i, ops)
				}()
			}
			close(start)
			wg.Wait()
			return w.judge(r, c)
		})}
	case "C10":
		return []pbt.Part{pbt.P("goroutines", 3000, 60000, genCtx, func(r *pbt.R, c ctxCase) error {
			r.NonTrivialIf(len(c.Reqs) > 1)
			cw := newCtxWorld(c)
			errs := make(chan error, 4*len(c.Reqs))
			start := make(chan struct{})
			for k := 0; k < 4; k++ {
				go func() {
					<-start
					for i := range c.Reqs {
						errs <- cw.issue(&c.Reqs[i])
					}
				}()
			}
			close(start)
			var err error
			for k := 0; k < 4*len(c.Reqs); k++ {
				if e := <-errs; e != nil && err == nil {
					err = e
				}
			}
			if err == nil {
				err = cw.checkKept()
			}
			return err
		})}
	}
	return nil
}
