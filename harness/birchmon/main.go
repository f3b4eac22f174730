package main

import (
	"time"

	"verif/harness/mon"
)

func init() {
	// dates are the same wherever the process runs: a zone with summer time
	// and, before 1937, an offset that isn't whole minutes.
	if zone, err := time.LoadLocation("Europe/Amsterdam"); err == nil {
		time.Local = zone
	} else {
		time.Local = time.FixedZone("LMT", 19*60+32)
	}
}

func main() { mon.Main() }
