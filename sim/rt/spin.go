//go:build !race

package rt

// spin makes tasks wait without synchronising with each other, which only the
// race detector cares about.
const spin = false
