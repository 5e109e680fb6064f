//go:build race

package rt

// spin makes tasks wait without synchronising with each other.
const spin = true
