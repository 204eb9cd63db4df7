package vsched

import (
	"runtime"
	"unsafe"
)

// goidOff is where the runtime keeps a goroutine's number, found by looking for
// numbers known from stack traces; 0 if it was not found.
var goidOff = findGoid()

func findGoid() uintptr {
	if getg() == 0 {
		return 0
	}
	type probe struct {
		id  int64
		mem [64]int64
	}
	ch := make(chan probe)
	var ps []probe
	for i := 0; i < 5; i++ {
		go func() {
			p := probe{id: slowGoid()}
			g := getg()
			for i := range p.mem {
				p.mem[i] = *(*int64)(unsafe.Pointer(g + uintptr(i)*8))
			}
			ch <- p
		}()
		ps = append(ps, <-ch)
	}
	for off := 1; off < len(ps[0].mem); off++ {
		ok := true
		for _, p := range ps {
			ok = ok && p.mem[off] == p.id
		}
		for _, p := range ps[1:] {
			ok = ok && p.id != ps[0].id
		}
		if ok {
			return uintptr(off) * 8
		}
	}
	return 0
}

// Goid is the number of the calling goroutine.
func Goid() int64 {
	if goidOff == 0 {
		return slowGoid()
	}
	return *(*int64)(unsafe.Pointer(getg() + goidOff))
}

func goid() int64 { return Goid() }

func slowGoid() int64 {
	var buf [40]byte
	n := runtime.Stack(buf[:], false)
	var id int64
	for _, c := range buf[len("goroutine "):n] {
		if c < '0' || c > '9' {
			break
		}
		id = id*10 + int64(c-'0')
	}
	return id
}
