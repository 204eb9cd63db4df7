module verif/harness

go 1.26

require (
	github.com/zenazn/goji v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/zenazn/goji => /repo
