package main

import (
	"verif/e2e"
)

// params prepares the end-to-end part of a check
func (c *check) params(n int, race bool) e2e.Params {
	bin, err := buildRecorder(race)
	if err != nil {
		c.fatal("%v", err)
	}
	return e2e.Params{R: c.res, Prop: c.id, Bin: bin, Scratch: scratch, Seed: c.seed, N: n, Thorough: c.thorough()}
}
