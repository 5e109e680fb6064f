package world

import (
	"regexp"
	"strings"
)

// The dictionary: constants that are new in the sources since the baseline of
// cmd/instr. It's empty for the sources as they were, and only adds to the
// variety of what is generated.
var (
	dictSegs    []string // parts of path segments of requests
	dictTmpls   []string // static templates
	dictHeaders []string
	dictMethods []string
	dictHosts   []string
	dictInts    []int // numbers of things, lengths
)

var (
	dictSegRe    = regexp.MustCompile(`^[A-Za-z0-9._~!;,=@+:&'()*-]{1,40}$`)
	dictTmplRe   = regexp.MustCompile(`^[A-Za-z0-9_-]{1,40}$`)
	dictTokenRe  = regexp.MustCompile(`^[A-Za-z][A-Za-z0-9-]{0,40}$`)
	dictHostRe   = regexp.MustCompile(`^[a-z0-9.-]{1,60}$`)
	dictNoHeader = map[string]bool{"host": true, "content-length": true, "transfer-encoding": true, "trailer": true, "expect": true, "te": true}
)

func setDict(ss []string, is []int) {
	for _, s := range ss {
		if dictSegRe.MatchString(s) && strings.Trim(s, ".") != "" {
			dictSegs = append(dictSegs, s)
		}
		if dictTmplRe.MatchString(s) {
			dictTmpls = append(dictTmpls, s)
		}
		if dictTokenRe.MatchString(s) {
			if !dictNoHeader[strings.ToLower(s)] {
				dictHeaders = append(dictHeaders, s)
			}
			if s != "CONNECT" {
				dictMethods = append(dictMethods, strings.ToUpper(s))
			}
		}
		if dictHostRe.MatchString(s) && strings.Trim(s, ".-") == s && !strings.Contains(s, "..") {
			dictHosts = append(dictHosts, s)
		}
	}
	for _, i := range is {
		if i >= 3 && i <= 1500 {
			dictInts = append(dictInts, i)
		}
	}
}

// fromDict tells whether one in n times something of the dictionary is used.
func (r *Rng) fromDict(ss []string, n int) bool { return len(ss) > 0 && r.P(n) }

// dictSeg makes a path segment with a string of the dictionary.
func dictSeg(r *Rng, s string) string {
	d := r.Pick(dictSegs...)
	switch r.N(4) {
	case 0:
		return d
	case 1:
		return d + s
	case 2:
		return s + d
	}
	i := r.N(len(s) + 1)
	return s[:i] + d + s[i:]
}

// dictCount replaces the number n by one near to a number of the dictionary,
// unless that's more than max.
func (r *Rng) dictCount(n, max, p int) int {
	if len(dictInts) == 0 || !r.P(p) {
		return n
	}
	if d := r.PickI(dictInts...) - 1 + r.N(4); d <= max {
		return d
	}
	return n
}
