//go:build race

package mwcheck

import (
	"sync"

	"verif/harness/pbt"
)

func parts(id string, plain ...pbt.Part) []pbt.Part {
	return []pbt.Part{pbt.P("goroutines", 3000, 60000, genID, func(r *pbt.R, c idCase) error {
		r.NonTrivial()
		w := newIDWorld(c)
		before, err := w.issue(idReq{})
		if err != nil {
			return err
		}
		var mu sync.Mutex
		var ids []string
		var wg sync.WaitGroup
		start := make(chan struct{})
		for _, qs := range c.Threads {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for _, q := range qs {
					id, e := w.issue(q)
					mu.Lock()
					if e != nil {
						err = e
					}
					ids = append(ids, id)
					mu.Unlock()
				}
			}()
		}
		close(start)
		wg.Wait()
		if err != nil {
			return err
		}
		after, err := w.issue(idReq{})
		if err != nil {
			return err
		}
		return judgeIDs(before, ids, after)
	})}
}
