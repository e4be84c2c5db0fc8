//go:build !race

package props

const raceEnabled = false
