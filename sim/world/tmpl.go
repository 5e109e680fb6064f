// Package world is the simulated world around nanomux: scenarios, the
// reference model, simulated clients and connections, and the oracles.
package world

import (
	"regexp"
	"strconv"
	"strings"
)

// Rng is a small deterministic generator.
type Rng struct{ s uint64 }

// NewRng returns a generator for the given values.
func NewRng(vs ...uint64) *Rng {
	r := &Rng{0x2545f4914f6cdd1d}
	for _, v := range vs {
		r.s ^= v
		r.U()
	}
	return r
}

// U returns the next value.
func (r *Rng) U() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a value in [0,n).
func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U() % uint64(n))
}

// P is true with probability 1/n.
func (r *Rng) P(n int) bool { return r.N(n) == 0 }

// Pct is true with the given probability in percent.
func (r *Rng) Pct(p int) bool { return r.N(100) < p }

// Pick returns one of the strings.
func (r *Rng) Pick(ss ...string) string { return ss[r.N(len(ss))] }

// PickI returns one of the ints.
func (r *Rng) PickI(ss ...int) int { return ss[r.N(len(ss))] }

// Part is a literal or a value of a template.
type Part struct {
	Lit string `json:"l,omitempty"`
	Val string `json:"v,omitempty"`
	Pat string `json:"p,omitempty"` // empty: wildcard or repeated value
}

// Tmpl is a template of a host or of a path segment.
type Tmpl struct {
	Name  string `json:"n,omitempty"` // explicit name
	Parts []Part `json:"t"`

	re   *regexp.Regexp
	seq  []*regexp.Regexp
	vals []string // names of the groups
}

// Static tells if there is no value.
func (t *Tmpl) Static() bool {
	for i := range t.Parts {
		if t.Parts[i].Val != "" {
			return false
		}
	}
	return true
}

// Wild tells if the template is a wildcard.
func (t *Tmpl) Wild() bool {
	return len(t.Parts) == 1 && t.Parts[0].Val != "" && t.Parts[0].Pat == ""
}

// Lit returns the text of a static template.
func (t *Tmpl) Lit() string {
	s := ""
	for _, p := range t.Parts {
		s += p.Lit
	}
	return s
}

// ValueNames returns the different value names in order.
func (t *Tmpl) ValueNames() []string {
	var out []string
	for _, p := range t.Parts {
		if p.Val != "" && !has(out, p.Val) {
			out = append(out, p.Val)
		}
	}
	return out
}

// EffName is the name the library gives the template.
func (t *Tmpl) EffName() string {
	if t.Name != "" {
		return t.Name
	}
	n := ""
	k := 0
	for _, p := range t.Parts {
		if p.Val != "" {
			k++
			n = p.Val
		}
	}
	if k == 1 {
		return n
	}
	return ""
}

// Content prints the template without its name. In a URL template the slashes
// have to be escaped.
func (t *Tmpl) Content(inURL bool) string {
	var b strings.Builder
	seen := map[string]bool{}
	for i, p := range t.Parts {
		if p.Val == "" {
			s := p.Lit
			s = strings.ReplaceAll(s, "{", `\{`)
			s = strings.ReplaceAll(s, "}", `\}`)
			if i == 0 && t.Name == "" && strings.HasPrefix(s, "$") {
				s = `\` + s
			}
			b.WriteString(s)
			continue
		}
		b.WriteByte('{')
		b.WriteString(strings.ReplaceAll(p.Val, ":", `\:`))
		if p.Pat != "" && !seen[p.Val] {
			b.WriteByte(':')
			b.WriteString(p.Pat)
		}
		seen[p.Val] = true
		b.WriteByte('}')
	}
	s := b.String()
	if inURL {
		s = strings.ReplaceAll(s, "/", "%2F")
	}
	return s
}

// Str prints the template.
func (t *Tmpl) Str(inURL bool) string {
	s := t.Content(inURL)
	if t.Name != "" {
		n := strings.ReplaceAll(t.Name, ":", `\:`)
		if inURL {
			n = strings.ReplaceAll(n, "/", "%2F")
		}
		return "$" + n + ":" + s
	}
	return s
}

// Class identifies what the template matches.
func (t *Tmpl) Class() string {
	idx := map[string]int{}
	var b strings.Builder
	for _, p := range t.Parts {
		if p.Val == "" {
			b.WriteString("L" + strconv.Itoa(len(p.Lit)) + p.Lit)
			continue
		}
		if _, ok := idx[p.Val]; !ok {
			idx[p.Val] = len(idx)
		}
		b.WriteString("V" + strconv.Itoa(idx[p.Val]) + "(" + p.Pat + ")")
	}
	return b.String()
}

func (t *Tmpl) compile() {
	if t.re != nil || t.vals != nil {
		return
	}
	var b strings.Builder
	b.WriteString(`\A(?s:`)
	pats := map[string]string{}
	for _, p := range t.Parts {
		if p.Val == "" {
			b.WriteString(regexp.QuoteMeta(p.Lit))
			continue
		}
		pat := p.Pat
		if pat == "" {
			pat = pats[p.Val]
		}
		if pat == "" {
			pat = ".+"
		}
		pats[p.Val] = pat
		b.WriteString("(" + uncaptured(pat) + ")")
		t.vals = append(t.vals, p.Val)
	}
	b.WriteString(`)\z`)
	t.re = regexp.MustCompile(b.String())
	if t.vals == nil {
		t.vals = []string{}
	}
}

// uncaptured makes the groups of a pattern non-capturing.
func uncaptured(pat string) string {
	var b strings.Builder
	class := -1
	for i := 0; i < len(pat); i++ {
		c := pat[i]
		b.WriteByte(c)
		switch {
		case c == '\\' && i+1 < len(pat):
			i++
			b.WriteByte(pat[i])
		case class >= 0:
			if c == ']' && i > class+1 && !(i == class+2 && pat[i-1] == '^') {
				class = -1
			}
		case c == '[':
			class = i
		case c == '(' && (i+1 == len(pat) || pat[i+1] != '?'):
			b.WriteString("?:")
		}
	}
	return b.String()
}

// Match matches the whole string and returns the values in order of their
// first appearance.
func (t *Tmpl) Match(s string) (ok bool, vals []KV) {
	if t.Static() {
		return t.Lit() == s, nil
	}
	if t.Wild() {
		return s != "", []KV{{t.Parts[0].Val, s}}
	}
	t.compile()
	m := t.re.FindStringSubmatch(s)
	if m == nil {
		return false, nil
	}
	for i, n := range t.vals {
		j := -1
		for k := range vals {
			if vals[k].K == n {
				j = k
			}
		}
		if j >= 0 {
			if vals[j].V != m[i+1] {
				return false, nil
			}
			continue
		}
		vals = append(vals, KV{n, m[i+1]})
	}
	return true, vals
}

// seqMatch matches a string value by value, each of them leftmost and as long
// as its pattern wants, those after a wildcard from the end. It's what nanomux
// is known to do, and is used to stay away from strings for which that isn't
// the same as matching the template as a whole.
func (t *Tmpl) seqMatch(s string) (ok bool, vals []KV) {
	if t.seq == nil {
		t.seq = make([]*regexp.Regexp, len(t.Parts))
		pats := map[string]string{}
		wild := false
		for i, p := range t.Parts {
			if p.Val == "" {
				continue
			}
			pat := p.Pat
			if pat == "" {
				pat = pats[p.Val]
			}
			if pat == "" {
				pats[p.Val] = "" // the wildcard
				wild = true
				continue
			}
			pats[p.Val] = pat
			pat = "(?:" + uncaptured(pat) + ")"
			switch {
			case wild:
				pat += "$"
			case i == len(t.Parts)-1:
				pat = "^" + pat + "$"
			default:
				pat = "^" + pat
			}
			t.seq[i] = regexp.MustCompile(pat)
		}
	}
	set := func(k, v string) bool {
		for _, kv := range vals {
			if kv.K == k {
				return kv.V == v
			}
		}
		vals = append(vals, KV{k, v})
		return true
	}
	i, k := 0, len(t.Parts)-1
	for ; i <= k && (t.Parts[i].Val == "" || t.seq[i] != nil); i++ {
		if p := t.Parts[i]; p.Val == "" {
			if !strings.HasPrefix(s, p.Lit) {
				return false, nil
			}
			s = s[len(p.Lit):]
		} else {
			at := t.seq[i].FindStringIndex(s)
			if at == nil || !set(p.Val, s[:at[1]]) {
				return false, nil
			}
			s = s[at[1]:]
		}
	}
	if i > k {
		return s == "", vals
	}
	w := t.Parts[i].Val
	for ; k > i; k-- {
		if p := t.Parts[k]; p.Val == "" {
			if !strings.HasSuffix(s, p.Lit) {
				return false, nil
			}
			s = s[:len(s)-len(p.Lit)]
		} else {
			at := t.seq[k].FindStringIndex(s)
			if at == nil || !set(p.Val, s[at[0]:]) {
				return false, nil
			}
			s = s[:at[0]]
		}
	}
	set(w, s)
	return true, vals
}

// unclear tells if the template may reasonably match the string in another
// way than it does in the model.
func (t *Tmpl) unclear(s string) bool {
	if t.Static() || t.Wild() {
		return false
	}
	a, va := t.Match(s)
	b, vb := t.seqMatch(s)
	if a != b {
		return true
	}
	for _, x := range va {
		same := false
		for _, y := range vb {
			same = same || x == y
		}
		if !same {
			return true
		}
	}
	return false
}

// KV is a named value.
type KV struct{ K, V string }

func has(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

// SameTmpl tells if two templates match the same strings.
func SameTmpl(a, b *Tmpl) bool { return a.Class() == b.Class() }

// A proto is a kind of a template the generator knows values for.
type proto struct {
	parts []Part // value names are a, b, c
	gen   func(r *Rng) string
}

func digits(r *Rng) string {
	n := 1 + r.N(4)
	if r.P(12) {
		n = 20
	}
	s := ""
	for i := 0; i < n; i++ {
		s += string(rune('0' + r.N(10)))
	}
	return s
}

var words = []string{"a", "b", "foo", "bar", "red", "green", "zoo", "x", "users", "abc", "longerword"}

func word(r *Rng) string { return words[r.N(len(words))] }

func oddValue(r *Rng) string {
	switch r.N(24) {
	case 0:
		return r.Pick("\xff", "a\xc3(", "\xed\xa0\x80", "\x00", "a\x00b", "\t", "\r\n", "\x7f", "\ufeff", "e\u0301", "\u202e")
	case 1:
		s := r.Pick("long", "é", "a b", "x/")
		n := 100 + r.N(400)
		if r.P(8) {
			n = 2000 + r.N(5000)
		}
		return strings.Repeat(s, n/len(s))
	}
	return r.Pick("a b", "100%", "a/b", "é", "日本", "a+b", "x;y", "k=v&l", "q?", "#h", "a:b", "%2F", "%41",
		"~t", "{z}", "$s", "'q'", "a,b", "@", "a%2Fb", "\"", "<>", "\\", "*", "!", "(p)", "[0]")
}

func lit(s string) Part    { return Part{Lit: s} }
func val(v, p string) Part { return Part{Val: v, Pat: p} }

var pathProtos = []proto{
	0: {[]Part{val("a", `\d+`)}, digits},
	1: {[]Part{val("a", `[a-z]+`)}, word},
	2: {[]Part{lit("id-"), val("a", `\d+`)}, func(r *Rng) string { return "id-" + digits(r) }},
	3: {[]Part{val("a", `\d+`), lit("-"), val("b", `[a-z]+`)}, func(r *Rng) string { return digits(r) + "-" + word(r) }},
	4: {[]Part{val("a", `red|green`)}, func(r *Rng) string { return r.Pick("red", "green") }},
	5: {[]Part{val("a", `[a-z]+`), lit("_"), val("b", `\d+`), lit("_"), val("c", `\d{2}`)},
		func(r *Rng) string { return word(r) + "_" + digits(r) + "_" + r.Pick("07", "42") }},
	6:  {[]Part{val("a", `\d+`), lit("x"), val("a", ``)}, func(r *Rng) string { d := digits(r); return d + "x" + d }},
	7:  {[]Part{lit("file."), val("a", ``)}, func(r *Rng) string { return "file." + r.Pick("txt", "tar.gz", "a b", "é", "x/y") }},
	8:  {[]Part{val("a", ``), lit(".json")}, func(r *Rng) string { return r.Pick("a", "b.c", "1", "é%", "x y") + ".json" }},
	9:  {[]Part{val("a", `[а-яё]+`)}, func(r *Rng) string { return r.Pick("мир", "ёж", "да") }},
	10: {[]Part{val("a", `[a-z]+/\d+`)}, func(r *Rng) string { return word(r) + "/" + digits(r) }},
	11: {[]Part{val("a", `a.*`)}, func(r *Rng) string { return r.Pick("a", "abc", "a 1", "a%", "a/z", "a.json") }},
	12: {[]Part{lit("v"), val("a", `\d`), lit("."), val("b", `\d`), lit("."), val("c", `\d`)},
		func(r *Rng) string { return "v" + r.Pick("1", "2") + "." + r.Pick("0", "9") + "." + r.Pick("3", "5") }},
	13: {[]Part{val("a", `[A-Z][a-z]*`)}, func(r *Rng) string { return r.Pick("A", "Ab", "Zoo") }},
	14: {[]Part{val("a", `(foo|bar)\d?`)}, func(r *Rng) string { return r.Pick("foo", "bar", "foo1", "bar7") }},
	15: {[]Part{val("a", `[^/]+@[a-z]+`)}, func(r *Rng) string { return r.Pick("me", "a b", "é", "x+1") + "@" + word(r) }},
	16: {[]Part{val("a", `foo|foo1|[ab]`)}, func(r *Rng) string { return r.Pick("foo", "a", "b") }},
	17: {[]Part{lit("p"), val("a", `\w+`), lit("."), val("b", `\w+`)}, func(r *Rng) string { return "p" + word(r) + "." + digits(r) }},
	18: {[]Part{val("a", `[a-z]+`), lit("${"), val("b", `\d+`), lit("}")}, func(r *Rng) string { return word(r) + "${" + digits(r) + "}" }},
	19: {[]Part{val("a", `[\]a-c]+`)}, func(r *Rng) string { return r.Pick("]", "abc", "a]", "b") }},
	20: {[]Part{val("a", `[]x-z]+\d`)}, func(r *Rng) string { return r.Pick("]1", "xyz2", "z]3") }},
	21: {[]Part{val("a", `[^]0-9]+`)}, func(r *Rng) string { return r.Pick("a b", "é", word(r)) }},
	22: {[]Part{val("a", `\{\d+\}`)}, func(r *Rng) string { return "{" + digits(r) + "}" }},
	23: {[]Part{val("a", `\\|\|`)}, func(r *Rng) string { return r.Pick("\\", "|") }},
	24: {[]Part{val("a", `(a|b)(c|d)|e`)}, func(r *Rng) string { return r.Pick("ac", "bd", "e") }},
	25: {[]Part{val("a", `[|]\d|z\|`), lit("!")}, func(r *Rng) string { return r.Pick("|5", "z|") + "!" }},
	26: {[]Part{val("a", `(?:foo|bar)+`), lit("."), val("b", `([a-z]{2}){1,2}`)}, func(r *Rng) string { return r.Pick("foo", "foobar", "bar") + "." + r.Pick("js", "html") }},
	27: {[]Part{val("a", `[^^]+\^`)}, func(r *Rng) string { return word(r) + "^" }},
	28: {[]Part{val("a", `[a}]+\d`)}, func(r *Rng) string { return r.Pick("a1", "}2", "a}3") }},
	29: {[]Part{val("a", `\(\d\)|[(]x[)]`)}, func(r *Rng) string { return r.Pick("(1)", "(x)") }},
	30: {[]Part{val("a", `(?i)abc|ÄÖ`), lit("$"), val("b", `\d+`)}, func(r *Rng) string { return r.Pick("abc", "ABC", "aBc", "äö") + "$" + digits(r) }},
	31: {[]Part{val("a", `\d+`), lit(","), val("b", `\d+`), lit(","), val("a", ``), lit(";"), val("b", ``)},
		func(r *Rng) string { a, b := digits(r), digits(r); return a + "," + b + "," + a + ";" + b }},
	33: {[]Part{val("a", `\d+`), lit("-"), val("b", ``), lit("-"), val("c", `\d+`)}, func(r *Rng) string {
		return digits(r) + "-" + r.Pick("x", "a b", "é", word(r)) + "-" + digits(r)
	}},
	34: {[]Part{val("a", ``), lit("-"), val("b", `[a-z]+`)}, func(r *Rng) string { return r.Pick("x-y", "7", "A", word(r)) + "-" + word(r) }},
	35: {[]Part{val("a", `red|green`), lit("~"), val("b", ``), lit("~"), val("a", ``)}, func(r *Rng) string {
		a := r.Pick("red", "green")
		return a + "~" + r.Pick("x", "a~b", word(r)) + "~" + a
	}},
	36: {[]Part{val("a", `[A-Za-z]+`), lit("="), val("a", ``)}, func(r *Rng) string {
		a := r.Pick("Red", "x", "Ab", word(r))
		return a + "=" + a
	}},
	37: {[]Part{val("a", ``), lit("."), val("b", `v\d`), lit("."), val("c", `us|eu`)}, func(r *Rng) string {
		return r.Pick("a", "b.c", "1") + ".v" + r.Pick("1", "2") + "." + r.Pick("us", "eu")
	}},
	38: {[]Part{val("a", `[A-Za-z]+`), lit("="), val("a", ``), lit("="), val("b", `\d`)}, func(r *Rng) string {
		a := r.Pick("Red", "x", "Ab", word(r))
		return a + "=" + a + "=" + r.Pick("1", "2")
	}},
	32: {[]Part{lit("}{"), val("a", `\d+`), lit("{")}, func(r *Rng) string { return "}{" + digits(r) + "{" }},
}

var staticPaths = []string{"foo", "bar", "red", "a", "b", "users", "123", "7", "id-5", "a b", "100%", "é", "x/y", "{b}", "$d", "a:b",
	"~x", "file.txt", "zoo", "Abc", "a.json", "мир", "foo1", "12-abc", "*", "!", "a+b", "a&b=c", "x;y", "index.html", "favicon.ico", "a,b", "...", "@me",
	"v1.0.3", "7x7", "e", "ac", "abc]", "}2", "(x)", "{7}", "|", "abc~~", "~~7", "abc_1_07", "'"}

var hostProtos = []proto{
	0: {[]Part{val("a", `[a-z]+`), lit(".example.com")}, func(r *Rng) string { return word(r) + ".example.com" }},
	1: {[]Part{val("a", `[a-z]{3}`), lit(".example.com")}, func(r *Rng) string { return r.Pick("foo", "bar", "abc") + ".example.com" }},
	2: {[]Part{val("a", `\d+`), lit("."), val("b", `us|eu`), lit(".net")}, func(r *Rng) string { return digits(r) + "." + r.Pick("us", "eu") + ".net" }},
	3: {[]Part{val("a", ``), lit(".org")}, func(r *Rng) string { return r.Pick("a", "b.c", "www") + ".org" }},
	4: {[]Part{val("a", `.+`)}, func(r *Rng) string { return r.Pick("anything", "any.thing.io") }},
	5: {[]Part{val("a", `[a-z]+`), lit("."), val("b", `[a-z]+`)}, func(r *Rng) string { return word(r) + "." + r.Pick("io", "dev") }},
	7: {[]Part{val("a", `[a-z]+`), lit("."), val("b", ``), lit("."), val("c", `com|dev`)}, func(r *Rng) string {
		return word(r) + "." + r.Pick("x", "y.z", "1") + "." + r.Pick("com", "dev")
	}},
	8: {[]Part{val("a", `[a-z]+`), lit("-"), val("a", ``), lit(".net")}, func(r *Rng) string {
		a := word(r)
		return a + "-" + a + ".net"
	}},
	6: {[]Part{lit("api."), val("a", `com|net`)}, func(r *Rng) string { return "api." + r.Pick("com", "net") }},
}

var staticHosts = []string{"example.com", "api.example.com", "localhost", "foo.example.com", "example.org", "10.0.0.1", "a.io", "xn--e1afmkfd.xn--p1ai"}

func instantiate(parts []Part, suffix string) []Part {
	out := append([]Part(nil), parts...)
	for i := range out {
		if out[i].Val != "" {
			out[i].Val += suffix
		}
	}
	return out
}

func classOf(parts []Part) string { return (&Tmpl{Parts: parts}).Class() }

var protoByClass = map[string]*proto{}

// samples are values that match a pattern.
var samples = map[string][]string{}

func init() {
	for _, ps := range [][]proto{pathProtos, hostProtos} {
		for i := range ps {
			protoByClass[classOf(ps[i].parts)] = &ps[i]
			t := &Tmpl{Parts: ps[i].parts}
			for k := 0; k < 10; k++ {
				_, vs := t.Match(ps[i].gen(NewRng(uint64(i), uint64(k), 77)))
				for _, v := range vs {
					for _, p := range t.Parts {
						if p.Val == v.K && p.Pat != "" {
							samples[p.Pat] = append(samples[p.Pat], v.V)
						}
					}
				}
			}
		}
	}
}

// variant adds to a template, or takes from it, so that a part of one matches
// what the other one matches.
func (t *Tmpl) variant(r *Rng) *Tmpl {
	n := &Tmpl{Parts: append([]Part(nil), t.Parts...)}
	last := len(n.Parts) - 1
	switch r.N(3) {
	case 0:
		if n.Parts[0].Val == "" {
			n.Parts[0].Lit = "~~" + n.Parts[0].Lit
		} else {
			n.Parts = append([]Part{lit("~~")}, n.Parts...)
		}
	case 1:
		// What comes before doesn't match it.
		if n.Parts[last].Val == "" {
			n.Parts[last].Lit += "~~"
		} else {
			for _, p := range n.Parts {
				if p.Val == n.Parts[last].Val && (p.Pat == "" || strings.ContainsAny(p.Pat, ".^")) && !strings.Contains(p.Pat, `\^`) {
					if p.Pat != "" || p.Val != n.Parts[0].Val {
						return nil
					}
					if len(n.Parts) == 1 || n.Parts[0].Pat == "" {
						return nil
					}
				}
			}
			n.Parts = append(n.Parts, lit("~~"))
		}
	default:
		if last == 0 {
			return nil
		}
		n.Parts = n.Parts[:last]
		if n.Static() || n.Wild() {
			return nil
		}
		for _, p := range n.Parts {
			if p.Val != "" && p.Pat == "" && !strings.Contains(t.Class(), "V0(") {
				return nil
			}
		}
	}
	n.re, n.vals, n.seq = nil, nil, nil
	return n
}

// GenValue returns a string the template matches.
func (t *Tmpl) GenValue(r *Rng) string {
	if t.Static() {
		return t.Lit()
	}
	if t.Wild() {
		if r.fromDict(dictSegs, 4) {
			return dictSeg(r, word(r))
		}
		switch r.N(5) {
		case 0:
			return oddValue(r)
		case 1:
			return digits(r)
		case 2:
			return pathProtos[r.N(len(pathProtos))].gen(r)
		}
		return word(r)
	}
	if p := protoByClass[t.Class()]; p != nil {
		for i := 0; i < 10; i++ {
			s := p.gen(r)
			if ok, _ := t.Match(s); ok {
				return s
			}
		}
	}
	for i := 0; i < 20; i++ {
		var b strings.Builder
		vs := map[string]string{}
		for _, p := range t.Parts {
			if p.Val == "" {
				b.WriteString(p.Lit)
				continue
			}
			if vs[p.Val] == "" {
				vs[p.Val] = digits(r)
				if ss := samples[p.Pat]; len(ss) > 0 {
					vs[p.Val] = ss[r.N(len(ss))]
				} else if i%2 == 1 {
					vs[p.Val] = word(r)
				}
			}
			b.WriteString(vs[p.Val])
		}
		if ok, _ := t.Match(b.String()); ok {
			return b.String()
		}
	}
	return "nomatch"
}
