//go:build amd64 && !race

package vsched

func getg() uintptr
