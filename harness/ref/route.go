// Package ref holds the reference models (oracles) the monitors compare the
// real code against. They are written from the documentation, share no code
// with the library, and favour obviousness over speed.
package ref

import (
	"regexp"
	"strings"
	"unicode"
	"unicode/utf8"
)

// Kind orders the segment kinds from the most to the least specific.
type Kind int

const (
	KLit Kind = iota + 1
	KCon
	KVar
	KWild
	KStar
	KGreedy
)

// Seg is one segment of a parsed route pattern.
type Seg struct {
	Kind Kind
	Text string // literal or wildcard text
	Name string // variable name
	Re   *regexp.Regexp
	ReS  string
}

// Pattern is a parsed route pattern.
type Pattern struct {
	Raw  string
	Segs []Seg
}

// Parse parses a pattern the harness generated; it is only used on patterns
// that are valid by construction.
func Parse(raw string, ci bool) *Pattern {
	p := &Pattern{Raw: raw}
	for _, s := range strings.Split(raw, "/") {
		if s == "" {
			continue
		}
		switch {
		case s == "*":
			p.Segs = append(p.Segs, Seg{Kind: KStar})
		case s == "**":
			p.Segs = append(p.Segs, Seg{Kind: KGreedy})
		case s[0] == '{' && strings.Contains(s, ":"):
			i := strings.Index(s, ":")
			res := s[i+1 : len(s)-1]
			comp := res
			if ci {
				comp = "(?i)" + res
			}
			p.Segs = append(p.Segs, Seg{Kind: KCon, Name: s[1:i], Re: regexp.MustCompile(comp), ReS: res})
		case s[0] == '{':
			p.Segs = append(p.Segs, Seg{Kind: KVar, Name: s[1 : len(s)-1]})
		case strings.ContainsAny(s, "*?"):
			p.Segs = append(p.Segs, Seg{Kind: KWild, Text: s})
		default:
			p.Segs = append(p.Segs, Seg{Kind: KLit, Text: s})
		}
	}
	return p
}

// Normalize splits a request path into its effective segments: empty segments
// vanish, ".." removes the previous segment. maxDepth is the largest number of
// segments alive at any moment.
func Normalize(path string) (segs []string, maxDepth int) {
	for _, s := range strings.Split(path, "/") {
		switch s {
		case "":
		case "..":
			if len(segs) > 0 {
				segs = segs[:len(segs)-1]
			}
		default:
			segs = append(segs, s)
			if len(segs) > maxDepth {
				maxDepth = len(segs)
			}
		}
	}
	return
}

// chars splits a text into its characters; a byte that is not part of any is
// one of its own (and not U+FFFD).
func chars(s string) []rune {
	out := make([]rune, 0, len(s))
	for i, c := range s {
		if c == utf8.RuneError && !strings.HasPrefix(s[i:], "\ufffd") {
			c = unicode.MaxRune + 1 + rune(s[i])
		}
		out = append(out, c)
	}
	return out
}

// Wild reports whether s matches the wildcard text p ('*' any run of
// characters, '?' exactly one).
func Wild(p, s string, ci bool) bool {
	if ci {
		p, s = strings.ToLower(p), strings.ToLower(s)
	}
	pr, sr := chars(p), chars(s)
	// dp[j]: pr[:i] matches sr[:j]
	dp := make([]bool, len(sr)+1)
	dp[0] = true
	for _, c := range pr {
		nd := make([]bool, len(sr)+1)
		if c == '*' {
			ok := false
			for j := range dp {
				ok = ok || dp[j]
				nd[j] = ok
			}
		} else {
			for j := 1; j <= len(sr); j++ {
				nd[j] = dp[j-1] && (c == '?' || c == sr[j-1])
			}
		}
		dp = nd
	}
	return dp[len(sr)]
}

// MatchSeg reports whether a non-greedy pattern segment accepts s.
func (g *Seg) MatchSeg(s string, ci bool) bool {
	switch g.Kind {
	case KLit:
		if ci {
			return strings.EqualFold(g.Text, s)
		}
		return g.Text == s
	case KCon:
		return g.Re.MatchString(s)
	case KVar, KStar:
		return true
	case KWild:
		return Wild(g.Text, s, ci)
	}
	return false
}

// Binding is one way a pattern matches a path: the value of every variable.
type Binding map[string]string

// Matches returns every distinct way p matches segs. A ** that ends the
// pattern covers at least one segment, an inner one any number.
func (p *Pattern) Matches(segs []string, ci bool) (bool, []Binding) {
	if len(p.Segs) == 0 {
		return len(segs) == 0, []Binding{{}}
	}
	var out []Binding
	steps := 0
	var rec func(pi, si int, vals []string)
	rec = func(pi, si int, vals []string) {
		steps++
		if len(out) > 64 || steps > 200000 {
			return
		}
		if pi == len(p.Segs) {
			if si == len(segs) {
				b := Binding{}
				vi := 0
				for _, g := range p.Segs {
					if g.Kind == KCon || g.Kind == KVar {
						if _, dup := b[g.Name]; !dup {
							b[g.Name] = vals[vi]
						}
						vi++
					}
				}
				out = append(out, b)
			}
			return
		}
		g := &p.Segs[pi]
		if g.Kind == KGreedy {
			if pi == len(p.Segs)-1 {
				if si < len(segs) {
					rec(pi+1, len(segs), vals)
				}
				return
			}
			for k := si; k <= len(segs); k++ {
				rec(pi+1, k, vals)
			}
			return
		}
		if si >= len(segs) || !g.MatchSeg(segs[si], ci) {
			return
		}
		if g.Kind == KCon || g.Kind == KVar {
			rec(pi+1, si+1, append(vals[:len(vals):len(vals)], segs[si]))
		} else {
			rec(pi+1, si+1, vals)
		}
	}
	rec(0, 0, nil)
	return len(out) > 0, out
}

// Accepts reports whether p matches segs, in polynomial time.
func (p *Pattern) Accepts(segs []string, ci bool) bool {
	if len(p.Segs) == 0 {
		return len(segs) == 0
	}
	if len(segs) == 0 {
		return false
	}
	// cur[j]: the pattern so far covers segs[:j]
	cur := make([]bool, len(segs)+1)
	cur[0] = true
	for i := range p.Segs {
		g := &p.Segs[i]
		nxt := make([]bool, len(segs)+1)
		if g.Kind == KGreedy {
			ok := false
			for j := range cur {
				if i == len(p.Segs)-1 {
					nxt[j] = ok // at least one segment
					ok = ok || cur[j]
				} else {
					ok = ok || cur[j]
					nxt[j] = ok
				}
			}
		} else {
			for j := 1; j <= len(segs); j++ {
				nxt[j] = cur[j-1] && g.MatchSeg(segs[j-1], ci)
			}
		}
		cur = nxt
	}
	return cur[len(segs)]
}

// Same reports whether two segments are interchangeable for matching.
func sameSeg(a, b *Seg, ci bool) bool {
	if a.Kind != b.Kind {
		return false
	}
	switch a.Kind {
	case KLit, KWild:
		if ci {
			return strings.EqualFold(a.Text, b.Text)
		}
		return a.Text == b.Text
	case KCon:
		return a.ReS == b.ReS
	}
	return true
}

// Duplicate reports whether two patterns are the same pattern up to variable
// names (and letter case, when matching ignores it).
func Duplicate(a, b *Pattern, ci bool) bool {
	if len(a.Segs) != len(b.Segs) {
		return false
	}
	for i := range a.Segs {
		if !sameSeg(&a.Segs[i], &b.Segs[i], ci) {
			return false
		}
	}
	return true
}

// Compare says which of two patterns the documented order prefers: -1 a, +1 b,
// 0 when the documentation does not settle it. The first differing segment
// decides by kind; differences of text inside one kind are left open. Behind a
// shared ** the order is settled when the parts behind it have the same number
// of segments and no other **, or when one of the patterns ends there.
func Compare(a, b *Pattern, ci bool) int {
	n := len(a.Segs)
	if len(b.Segs) < n {
		n = len(b.Segs)
	}
	greedy := false
	tail := func(p *Pattern, from int) bool {
		for i := from; i < len(p.Segs); i++ {
			if p.Segs[i].Kind == KGreedy {
				return false
			}
		}
		return true
	}
	for i := 0; i < n; i++ {
		x, y := &a.Segs[i], &b.Segs[i]
		if x.Kind != y.Kind {
			if greedy && (len(a.Segs) != len(b.Segs) || !tail(a, i) || !tail(b, i)) {
				return 0
			}
			if x.Kind < y.Kind {
				return -1
			}
			return 1
		}
		if !sameSeg(x, y, ci) {
			return 0
		}
		if x.Kind == KGreedy {
			greedy = true
		}
	}
	if len(a.Segs) == len(b.Segs) {
		return 0
	}
	// one is a strict prefix of the other
	if n > 0 && len(a.Segs) > n && b.Segs[n-1].Kind == KGreedy {
		return -1
	}
	if n > 0 && len(b.Segs) > n && a.Segs[n-1].Kind == KGreedy {
		return 1
	}
	return 0
}

// CompareAt is Compare, with the kinds that decided.
func CompareAt(a, b *Pattern, ci bool) (at int, ka, kb Kind) {
	for i := 0; i < len(a.Segs) && i < len(b.Segs); i++ {
		if a.Segs[i].Kind != b.Segs[i].Kind {
			return i, a.Segs[i].Kind, b.Segs[i].Kind
		}
	}
	return -1, 0, 0
}
