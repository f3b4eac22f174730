//go:build !race

package mon

const raceEnabled = false
