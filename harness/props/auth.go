package props

import (
	"context"
	"errors"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ixtendio/gofre/auth"
	gerrors "github.com/ixtendio/gofre/errors"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"

	"verif/harness/core"
)

func init() {
	register("C19", false, runC19)
	register("C20", false, runC20)
	register("C21", true, runC21)
	register("C22", false, runC22)
}

// levels splits a scope.
func levels(scope string, sep rune) []string {
	var out []string
	cur := []byte{}
	for len(scope) > 0 {
		if strings.HasPrefix(scope, string(sep)) {
			out = append(out, string(cur))
			cur = cur[:0]
			scope = scope[len(string(sep)):]
			continue
		}
		cur = append(cur, scope[0])
		scope = scope[1:]
	}
	return append(out, string(cur))
}

// covers is the model of scope coverage.
func covers(p, q []string) bool {
	if len(q) < len(p) {
		return false
	}
	for k := range q {
		if k < len(p) {
			if p[k] != "*" && p[k] != q[k] {
				return false
			}
		} else if p[len(p)-1] != "*" {
			return false
		}
	}
	return true
}

func implied(p, q auth.Permission, sep rune) bool {
	return p.Access&q.Access == q.Access && covers(levels(p.Scope, sep), levels(q.Scope, sep))
}

// scopesOf lists all the scopes of 1 to n levels over some atoms.
func scopesOf(atoms []string, n int) []string {
	var out []string
	prev := []string{}
	for k := 0; k < n; k++ {
		var next []string
		if k == 0 {
			next = append(next, atoms...)
		} else {
			for _, p := range prev {
				for _, a := range atoms {
					next = append(next, p+"/"+a)
				}
			}
		}
		out = append(out, next...)
		prev = next
	}
	return out
}

func genScope(rng *rand.Rand, sep rune, wild bool, max int) string {
	n := 1 + rng.Intn(max)
	l := make([]string, n)
	for k := range l {
		switch rng.Intn(9) {
		case 0, 1, 2:
			l[k] = pick(rng, []string{"a", "b", "c"})
		case 3:
			if wild {
				l[k] = "*"
			} else {
				l[k] = "a"
			}
		case 4:
			l[k] = ""
		case 5:
			l[k] = pick(rng, []string{"A", "aa", "ab", "a*", "**", "*a", "é", " a", "a ", "\xff", "."})
			if !wild && strings.Contains(l[k], "*") {
				l[k] = "ab"
			}
		case 6:
			if wild {
				l[k] = "*"
			}
		default:
			l[k] = strings.ReplaceAll(genText(rng, 4), "*", "x")
		}
		l[k] = strings.ReplaceAll(l[k], string(sep), "s")
	}
	return strings.Join(l, string(sep))
}

func genMask(rng *rand.Rand) auth.Access {
	switch rng.Intn(5) {
	case 0:
		return auth.Access(1 << rng.Intn(9))
	case 1:
		return auth.Access(rng.Intn(8))
	case 2:
		return auth.AccessAll()
	case 3:
		return auth.Access(rng.Uint32())
	}
	return auth.Access(rng.Intn(512))
}

func runC19(r *core.Run) {
	r.Rule("the implication of all pairs of permissions over a small universe of scopes (1 to 3 levels of a, b, empty and *; 4 level requests too) and masks, and of random related pairs beyond it (also with other separators), is compared with a reference; chains of random permissions are checked for transitivity, and every permission for reflexivity. " +
		"A case is one pair, non-trivial when the scopes share a level or one has a *")
	r.Require("granted", 10000)
	r.Require("refused_scope", 10000)
	r.Require("refused_access", 10000)
	r.Require("longer", 1000)
	r.Require("chains", 500)
	r.Require("separators", 3)
	sep := auth.ScopeSeparator
	judge := func(p, q auth.Permission, sep rune, key string) {
		var got bool
		r.Try("Implies", fmt.Sprintf("%#v %#v", p, q), func() { got = p.Implies(q) })
		want := implied(p, q, sep)
		if got != want {
			sig := "granted"
			if want {
				sig = "refused"
			}
			r.Violate(sig+key, fmt.Sprintf("permission %q (access %b) implies %q (access %b): %v, the rules say %v", p.Scope, p.Access, q.Scope, q.Access, got, want), nil)
		}
		if want {
			r.Count("granted", 1)
			if len(levels(q.Scope, sep)) > len(levels(p.Scope, sep)) {
				r.Count("longer", 1)
			}
		} else if covers(levels(p.Scope, sep), levels(q.Scope, sep)) {
			r.Count("refused_access", 1)
		} else {
			r.Count("refused_scope", 1)
		}
	}
	ps := scopesOf([]string{"a", "b", "*", ""}, 3)
	qs := scopesOf([]string{"a", "b", "", "c"}, 4)
	qs = append(qs, scopesOf([]string{"a", "*"}, 3)...)
	for _, p := range ps {
		for _, q := range qs {
			star := strings.Contains(q, "*")
			for m := auth.Access(0); m < 4; m++ {
				for n := auth.Access(0); n < 4; n++ {
					if star {
						continue
					}
					judge(auth.Permission{Scope: p, Access: m}, auth.Permission{Scope: q, Access: n}, sep, ":small")
				}
			}
			r.Case("small"+p+">"+q, strings.Contains(p, "*") || strings.HasPrefix(q, p))
		}
	}
	// reflexive and transitive, wildcards included
	all := append(append([]string{}, ps...), scopesOf([]string{"a", "*"}, 4)...)
	for _, p := range all {
		x := auth.Permission{Scope: p, Access: 5}
		if !x.Implies(x) {
			r.Violate("reflexive", fmt.Sprintf("permission %q does not imply itself", p), nil)
		}
		if !auth.AllPermissions().Implies(x) {
			r.Violate("all", fmt.Sprintf("all permissions do not imply %q", p), nil)
		}
	}
	small := scopesOf([]string{"a", "b", "*"}, 3)
	imp := make([][]bool, len(small))
	for i, p := range small {
		imp[i] = make([]bool, len(small))
		for j, q := range small {
			imp[i][j] = auth.Permission{Scope: p, Access: 1}.Implies(auth.Permission{Scope: q, Access: 1})
		}
	}
	for i := range small {
		for j := range small {
			for k := range small {
				if imp[i][j] && imp[j][k] {
					r.Count("chains", 1)
					if !imp[i][k] {
						r.Violate("transitive", fmt.Sprintf("%q implies %q, which implies %q, which the first one does not imply", small[i], small[j], small[k]), nil)
					}
				}
			}
		}
	}
	defer func() { auth.ScopeSeparator = sep }()
	for si, s := range []rune{'/', '.', '→', ':'} {
		auth.ScopeSeparator = s
		r.Seen("separators", string(s))
		parallel(r, "random", r.N(300000, 4000000), func(i int) {
			rng := r.Rand(fmt.Sprint("c19", si), i)
			p := auth.Permission{Scope: genScope(rng, s, true, 4), Access: genMask(rng)}
			q := auth.Permission{Scope: genScope(rng, s, false, 5), Access: genMask(rng)}
			if rng.Intn(3) != 0 {
				// a request near the permission
				l := levels(p.Scope, s)
				for k := range l {
					if l[k] == "*" {
						l[k] = pick(rng, []string{"a", "x", ""})
					} else if rng.Intn(8) == 0 {
						l[k] = pick(rng, []string{"a", l[k] + "a", strings.ToUpper(l[k])})
					}
				}
				switch rng.Intn(4) {
				case 0:
					l = append(l, "z")
				case 1:
					l = l[:len(l)-rng.Intn(len(l))]
				}
				q.Scope = strings.Join(l, string(s))
			}
			if rng.Intn(2) == 0 {
				q.Access &= p.Access
				if rng.Intn(4) == 0 {
					q.Access |= 1 << rng.Intn(32)
				}
			}
			judge(p, q, s, "")
			r.Case(p.Scope+">"+q.Scope+fmt.Sprint(p.Access, q.Access, s), true)
			if i < 2 {
				r.Sample(fmt.Sprintf("%q %b -> %q %b", p.Scope, p.Access, q.Scope, q.Access))
			}
		})
	}
}

// roleHas is the model of a role.
func roleHas(ro auth.Role, q auth.Permission, sep rune) bool {
	ql := levels(q.Scope, sep)
	for _, d := range ro.DeniedPermissions {
		if d.Access&q.Access != 0 && covers(levels(d.Scope, sep), ql) {
			return false
		}
	}
	for _, a := range ro.AllowedPermissions {
		if implied(a, q, sep) {
			return true
		}
	}
	return false
}

func runC20(r *core.Run) {
	r.Rule("all roles with up to two allowed and two denied permissions over a small universe, and random roles, groups and users beyond it, are asked for permissions and role names; the answers are compared with a reference, repeated with the lists shuffled, and the structures are compared with a copy afterwards. " +
		"A case is one role, group or user with one request, non-trivial when a denied permission matters")
	r.Require("denied", 10000)
	r.Require("granted", 10000)
	r.Require("partial", 300)
	r.Require("users", 1000)
	r.Require("changed_users", 1000)
	sep := auth.ScopeSeparator
	var univ []auth.Permission
	for _, s := range []string{"*", "a", "a/*", "a/b", "*/b", "a/*/c"} {
		for _, m := range []auth.Access{1, 2, 3} {
			univ = append(univ, auth.Permission{Scope: s, Access: m})
		}
	}
	var lists [][]auth.Permission
	lists = append(lists, nil)
	for i := range univ {
		lists = append(lists, []auth.Permission{univ[i]})
	}
	for i := range univ {
		for j := range univ {
			lists = append(lists, []auth.Permission{univ[i], univ[j]})
		}
	}
	var reqs []auth.Permission
	for _, s := range []string{"a", "b", "a/b", "b/b", "a/x", "a/b/c", "a/x/c", "b/x/c"} {
		for _, m := range []auth.Access{1, 2, 3} {
			reqs = append(reqs, auth.Permission{Scope: s, Access: m})
		}
	}
	// the model on every list, once
	type bits uint32
	allow := make([]bits, len(lists))
	deny := make([]bits, len(lists))
	for i, l := range lists {
		for k, q := range reqs {
			if roleHas(auth.Role{AllowedPermissions: l}, q, sep) {
				allow[i] |= 1 << k
			}
			for _, d := range l {
				if d.Access&q.Access != 0 && covers(levels(d.Scope, sep), levels(q.Scope, sep)) {
					deny[i] |= 1 << k
				}
			}
		}
	}
	step := r.N(3, 1)
	parallel(r, "small roles", len(lists), func(i int) {
		var nd, ng int64
		for j := i % step; j < len(lists); j += step {
			ro := auth.Role{Name: "r", AllowedPermissions: lists[i], DeniedPermissions: lists[j]}
			for k, q := range reqs {
				want := allow[i]&(1<<k) != 0 && deny[j]&(1<<k) == 0
				if got := ro.HasPermission(q); got != want {
					r.Violate(fmt.Sprintf("role-%v", got), fmt.Sprintf("a role has permission %v: %v, the rules say %v", q, got, want), map[string]any{"allowed": fmt.Sprint(ro.AllowedPermissions), "denied": fmt.Sprint(ro.DeniedPermissions)})
				}
				if want {
					ng++
				} else if allow[i]&(1<<k) != 0 {
					nd++
				}
			}
			r.Case(fmt.Sprint("small", i, j), allow[i]&deny[j] != 0)
		}
		r.Count("granted", ng)
		r.Count("denied", nd)
	})
	parallel(r, "random", r.N(200000, 1500000), func(i int) {
		rng := r.Rand("c20", i)
		perm := func() auth.Permission {
			p := auth.Permission{Scope: genScope(rng, sep, true, 3), Access: genMask(rng)}
			if rng.Intn(2) == 0 {
				p.Scope = pick(rng, []string{"*", "a", "a/*", "a/b", "*/b", "a/*/c", "a/b/c"})
			}
			return p
		}
		plist := func() []auth.Permission {
			var l []auth.Permission
			for k := rng.Intn(5); k > 0; k-- {
				l = append(l, perm())
			}
			return l
		}
		names := []string{"admin", "user", "", "Admin", "x"}
		role := func() auth.Role {
			ro := auth.Role{Name: pick(rng, names), AllowedPermissions: plist()}
			if rng.Intn(2) == 0 {
				ro.DeniedPermissions = plist()
			}
			return ro
		}
		u := auth.User{Id: fmt.Sprint(i), Name: "n"}
		for g := rng.Intn(4); g > 0; g-- {
			var gr auth.Group
			for k := rng.Intn(4); k > 0; k-- {
				gr.Roles = append(gr.Roles, role())
			}
			u.Groups = append(u.Groups, gr)
		}
		q := auth.Permission{Scope: pick(rng, []string{"a", "a/b", "a/b/c", "b", "b/b", "a/x/c"}), Access: genMask(rng)}
		if rng.Intn(2) == 0 {
			q.Scope = genScope(rng, sep, false, 3)
		}
		if rng.Intn(2) == 0 {
			q.Access = auth.Access(1 + rng.Intn(7))
		}
		if q.Access == 0 {
			q.Access = 1
		}
		for round := 0; round < 3; round++ {
			if round > 0 {
				// the same user again, after the rights were changed in place
				if rng.Intn(2) == 0 || len(u.Groups) == 0 {
					break
				}
				g := &u.Groups[rng.Intn(len(u.Groups))]
				switch rng.Intn(6) {
				case 0:
					g.Roles = append(g.Roles, role())
				case 1:
					g.Roles = nil
				default:
					if len(g.Roles) == 0 {
						break
					}
					ro := &g.Roles[rng.Intn(len(g.Roles))]
					switch rng.Intn(5) {
					case 0:
						ro.DeniedPermissions = append(ro.DeniedPermissions, q)
					case 1:
						ro.DeniedPermissions = nil
					case 2:
						ro.AllowedPermissions = append(ro.AllowedPermissions, auth.AllPermissions())
					case 3:
						ro.Name = pick(rng, names)
					case 4:
						if len(ro.AllowedPermissions) > 0 {
							ro.AllowedPermissions[rng.Intn(len(ro.AllowedPermissions))] = perm()
						}
					}
				}
				r.Count("changed_users", 1)
			}
			before := fmt.Sprintf("%#v", u)
			r.Count("users", 1)
			wantU := false
			interesting := false
			det := map[string]any{"user": before, "permission": fmt.Sprint(q)}
			r.Try("HasPermission", det, func() {
				for gi := range u.Groups {
					g := u.Groups[gi]
					wantG := false
					for ri := range g.Roles {
						ro := g.Roles[ri]
						w := roleHas(ro, q, sep)
						if got := ro.HasPermission(q); got != w {
							r.Violate(fmt.Sprintf("role-%v", got), fmt.Sprintf("a role has permission %q: %v, the rules say %v", q, got, w), map[string]any{"allowed": fmt.Sprint(ro.AllowedPermissions), "denied": fmt.Sprint(ro.DeniedPermissions)})
						}
						only := ro
						only.DeniedPermissions = nil
						if roleHas(only, q, sep) {
							interesting = true
							if !w {
								r.Count("denied", 1)
								full := false
								for _, d := range ro.DeniedPermissions {
									full = full || implied(d, q, sep)
								}
								if !full {
									r.Count("partial", 1)
								}
							} else {
								r.Count("granted", 1)
							}
						}
						sh := auth.Role{Name: ro.Name, AllowedPermissions: shuffled(rng, ro.AllowedPermissions), DeniedPermissions: shuffled(rng, ro.DeniedPermissions)}
						if sh.HasPermission(q) != w {
							r.Violate("order", "the answer of a role depends on the order of its lists", map[string]any{"allowed": fmt.Sprint(sh.AllowedPermissions), "denied": fmt.Sprint(sh.DeniedPermissions), "permission": fmt.Sprint(q)})
						}
						wantG = wantG || w
					}
					if got := g.HasPermission(q); got != wantG {
						r.Violate(fmt.Sprintf("group-%v", got), fmt.Sprintf("a group has a permission: %v, its roles say %v", got, wantG), det)
					}
					wantU = wantU || wantG
				}
				if got := u.HasPermission(q); got != wantU {
					r.Violate(fmt.Sprintf("user-%v", got), fmt.Sprintf("a user has a permission: %v, the groups say %v", got, wantU), det)
				}
				for _, n := range names {
					want := false
					for _, g := range u.Groups {
						wg := false
						for _, ro := range g.Roles {
							wg = wg || ro.Name == n
						}
						if g.HasRole(n) != wg {
							r.Violate("group-role", fmt.Sprintf("a group has the role %q: %v", n, !wg), det)
						}
						want = want || wg
					}
					if u.HasRole(n) != want {
						r.Violate("user-role", fmt.Sprintf("a user has the role %q: %v", n, !want), det)
					}
				}
			})
			if fmt.Sprintf("%#v", u) != before {
				r.Violate("changed", "asking for a permission changes the user", det)
			}
			r.Case(before+fmt.Sprint(q), interesting)
		}
	})
	q := auth.Permission{Scope: "a", Access: 1}
	if (auth.Role{}).HasPermission(q) || (auth.Group{}).HasPermission(q) || (auth.User{}).HasPermission(q) || (auth.User{}).HasRole("") || (auth.Group{}).HasRole("") {
		r.Violate("empty", "an empty role, group or user has something", nil)
	}
}

func shuffled(rng *rand.Rand, l []auth.Permission) []auth.Permission {
	c := append([]auth.Permission(nil), l...)
	rng.Shuffle(len(c), func(a, b int) { c[a], c[b] = c[b], c[a] })
	return c
}

// ---- C22 ----

func runC22(r *core.Run) {
	r.Rule("random permissions (scopes with colons, digits, spaces, line breaks, invalid UTF-8 and empty levels; full 32-bit masks) are formatted and parsed back; mutated and random texts are parsed and compared with a reference parser; scopes are offered to the constructor, with several separators. " +
		"A case is one text or scope, all are non-trivial")
	r.Require("round_trips", 50000)
	r.Require("refused", 20000)
	r.Require("accepted", 20000)
	r.Require("separators", 3)
	sep := auth.ScopeSeparator
	defer func() { auth.ScopeSeparator = sep }()
	for si, s := range []rune{'/', '.', '→'} {
		auth.ScopeSeparator = s
		r.Seen("separators", string(s))
		parallel(r, "texts", r.N(150000, 2000000), func(i int) {
			rng := r.Rand(fmt.Sprint("c22", si), i)
			scope := genScope(rng, s, true, 3)
			if rng.Intn(3) == 0 {
				scope = strings.ReplaceAll(scope, "a", pick(rng, []string{":", "::", ":5", "a:", "\n", "1", "-"}))
			}
			if rng.Intn(4) == 0 {
				scope = string(randBytes(rng, rng.Intn(12)))
			}
			mask := genMask(rng)
			switch rng.Intn(10) {
			case 0:
				mask = math.MaxUint32
			case 1:
				mask = 0
			case 2:
				mask = 1 << 31
			}
			n := strings.Count(scope, string(s))
			p, err := auth.NewPermission(scope, mask)
			if (err == nil) != (n <= 2) {
				r.Violate("new", fmt.Sprintf("a scope of %d levels: error %v", n+1, err), map[string]any{"scope": scope})
				return
			}
			if err == nil && (p.Scope != scope || p.Access != mask) {
				r.Violate("new-value", "the constructor changes the permission", map[string]any{"scope": fmt.Sprintf("%q", scope), "got": fmt.Sprintf("%q", p.Scope)})
			}
			p = auth.Permission{Scope: scope, Access: mask}
			text := p.String()
			if n <= 2 {
				r.Count("round_trips", 1)
				var got auth.Permission
				if r.Try("ParsePermission", fmt.Sprintf("%q", text), func() { got, err = auth.ParsePermission(text) }) && (err != nil || got != p) {
					r.Violate("round-trip", fmt.Sprintf("the permission %q with access %d comes back as %q with access %d, error %v", p.Scope, p.Access, got.Scope, got.Access, err), map[string]any{"text": fmt.Sprintf("%q", text)})
				}
			}
			// other texts
			b := []byte(text)
			for k := rng.Intn(3); k >= 0; k-- {
				at := rng.Intn(len(b) + 1)
				switch rng.Intn(6) {
				case 0:
					if at < len(b) {
						b = append(b[:at], b[at+1:]...)
					}
				case 1:
					b = append(b[:at], append([]byte(pick(rng, []string{":", "-", "+", " ", "_", "0", "9", string(s), "x", ".", "e1", "\x00", "0x", "٣"})), b[at:]...)...)
				case 2:
					b = b[:at]
				case 3:
					b = append(b, pick(rng, []string{"0", "99999999", ":", " ", "\n", ":4294967295", ":4294967296", ":18446744073709551616", ":-1", ":+1", ": 1", ":1 ", ":1_0", ":0x1", ":1.0", ":"})...)
				case 4:
					if at < len(b) {
						b[at] = byte(rng.Intn(256))
					}
				case 5:
					b = append(b[:at], append([]byte(strings.Repeat(string(s), rng.Intn(4))), b[at:]...)...)
				}
			}
			if rng.Intn(10) == 0 {
				b = randBytes(rng, rng.Intn(20))
			}
			t := string(b)
			want, ok, care := refParse(t, s)
			var got auth.Permission
			if !r.Try("ParsePermission", fmt.Sprintf("%q", t), func() { got, err = auth.ParsePermission(t) }) {
				return
			}
			r.Case(t+string(s), true)
			if err != nil {
				r.Count("refused", 1)
				if ok && care {
					r.Violate("refused", fmt.Sprintf("the text %q is refused: %v", t, err), nil)
				}
				return
			}
			r.Count("accepted", 1)
			if !ok {
				r.Violate("accepted", fmt.Sprintf("the malformed text %q is accepted as scope %q, access %d", t, got.Scope, got.Access), nil)
			} else if got != want {
				r.Violate("parsed", fmt.Sprintf("the text %q is parsed as scope %q, access %d", t, got.Scope, got.Access), nil)
			}
		})
	}
}

// refParse is the reference parser; care is false when refusing is fine too.
func refParse(t string, sep rune) (p auth.Permission, ok, care bool) {
	k := strings.LastIndex(t, ":")
	if k < 0 || k == len(t)-1 {
		return
	}
	num := t[k+1:]
	for _, c := range []byte(num) {
		if c < '0' || c > '9' {
			return
		}
	}
	v, _ := new(big.Int).SetString(num, 10)
	if v.Cmp(big.NewInt(math.MaxUint32)) > 0 {
		return
	}
	if strings.Count(t[:k], string(sep)) > 2 {
		return
	}
	return auth.Permission{Scope: t[:k], Access: auth.Access(v.Uint64())}, true, num[0] != '0' || num == "0"
}

// ---- C21 ----

// ownPrincipal is a principal of the application.
type ownPrincipal struct {
	id    string
	has   map[auth.Permission]bool
	calls atomic.Int64
}

func (o *ownPrincipal) Identity() string             { return o.id }
func (o *ownPrincipal) HasRole(roleName string) bool { return false }
func (o *ownPrincipal) HasPermission(p auth.Permission) bool {
	o.calls.Add(1)
	return o.has[p]
}
func (o *ownPrincipal) String() string { return o.id }

// authCase is one request with its principal and requirements.
type authCase struct {
	principals []auth.SecurityPrincipal // supplied by the suppliers, outermost first; nil supplies none
	supErr     int                      // the supplier that fails, or -1
	perms      []auth.Permission
	permErr    bool
	errVal     error
	all        bool
	static     bool
	long       bool
	rng        *rand.Rand
	hasDirect  bool
	direct     any // put in the context behind the suppliers, not always a principal
}

func genPrincipal(rng *rand.Rand, id string, pool []auth.Permission) auth.SecurityPrincipal {
	if rng.Intn(3) == 0 {
		o := &ownPrincipal{id: id, has: map[auth.Permission]bool{}}
		for _, p := range pool {
			o.has[p] = rng.Intn(2) == 0
		}
		return o
	}
	u := auth.User{Id: id, Name: id}
	for g := rng.Intn(3); g > 0; g-- {
		var gr auth.Group
		for k := 1 + rng.Intn(2); k > 0; k-- {
			var ro auth.Role
			for j := rng.Intn(4); j > 0; j-- {
				p := pool[rng.Intn(len(pool))]
				if rng.Intn(3) == 0 {
					p.Scope = pick(rng, []string{"*", "a/*"})
				}
				if rng.Intn(2) == 0 {
					p.Access = auth.AccessAll()
				}
				if rng.Intn(5) == 0 {
					ro.DeniedPermissions = append(ro.DeniedPermissions, p)
				} else {
					ro.AllowedPermissions = append(ro.AllowedPermissions, p)
				}
			}
			gr.Roles = append(gr.Roles, ro)
		}
		u.Groups = append(u.Groups, gr)
	}
	if rng.Intn(2) == 0 {
		return &u
	}
	return u
}

// modelHas is what the principal should answer.
func modelHas(p auth.SecurityPrincipal, q auth.Permission) bool {
	var u auth.User
	switch x := p.(type) {
	case *ownPrincipal:
		return x.has[q]
	case auth.User:
		u = x
	case *auth.User:
		u = *x
	}
	for _, g := range u.Groups {
		for _, ro := range g.Roles {
			if roleHas(ro, q, auth.ScopeSeparator) {
				return true
			}
		}
	}
	return false
}

var almighty = &auth.User{Id: "almighty", Groups: []auth.Group{{Roles: []auth.Role{{AllowedPermissions: []auth.Permission{auth.AllPermissions()}}}}}}

var authPool = []auth.Permission{{Scope: "a", Access: 1}, {Scope: "a/b", Access: 1}, {Scope: "a/b", Access: 2}, {Scope: "a/b/c", Access: 3}, {Scope: "b", Access: 8}, {Scope: "b/c", Access: 4}}

func genAuthCase(rng *rand.Rand, id string) *authCase {
	c := &authCase{supErr: -1, all: rng.Intn(2) == 0, static: rng.Intn(2) == 0, rng: rng}
	n := 1
	switch rng.Intn(8) {
	case 0:
		n = 0
	case 1:
		n = 2
	}
	for k := 0; k < n; k++ {
		if rng.Intn(8) == 0 {
			c.principals = append(c.principals, nil)
		} else {
			pid := fmt.Sprintf("%s-%d", id, k)
			if rng.Intn(2) == 0 {
				pid = pick(rng, []string{"", "u1", "u2", "admin"}) // the same name does not mean the same rights
			}
			c.principals = append(c.principals, genPrincipal(rng, pid, authPool))
		}
	}
	if rng.Intn(4) == 0 { // a middleware of the application that changes the context itself
		switch rng.Intn(4) {
		case 0:
			c.direct = genPrincipal(rng, "direct", authPool)
		case 1:
			c.direct = "root"
		case 2:
			c.direct = auth.AllPermissions()
		}
		c.hasDirect = true
	}
	if n > 0 && rng.Intn(10) == 0 {
		c.supErr = rng.Intn(n)
	}
	for k := rng.Intn(4); k > 0; k-- {
		c.perms = append(c.perms, authPool[rng.Intn(len(authPool))])
	}
	if rng.Intn(12) == 0 { // a long list: all but perhaps one of them granted
		if who := c.effective(); who != nil {
			var has, not []auth.Permission
			for _, p := range authPool {
				if modelHas(who, p) {
					has = append(has, p)
				} else {
					not = append(not, p)
				}
			}
			long, lack := has, not
			if !c.all {
				long, lack = not, has
			}
			c.perms = nil
			for k := rng.Intn(300); k > 0 && len(long) > 0; k-- {
				c.perms = append(c.perms, long[rng.Intn(len(long))])
			}
			if rng.Intn(2) == 0 && len(lack) > 0 {
				at := len(c.perms) - rng.Intn(min(3, len(c.perms)+1))
				c.perms = append(c.perms[:at:at], append([]auth.Permission{lack[rng.Intn(len(lack))]}, c.perms[at:]...)...)
			}
			c.long = len(c.perms) > 64
		}
	}
	if !c.static && rng.Intn(10) == 0 {
		c.permErr = true
	}
	c.errVal = []error{errors.New("supplier of " + id), gerrors.ErrAccessDenied, gerrors.NewObjectNotFoundWithMessage("x" + id)}[rng.Intn(3)]
	return c
}

// effective is the principal everything inside sees.
func (c *authCase) effective() auth.SecurityPrincipal {
	if c.hasDirect {
		p, _ := c.direct.(auth.SecurityPrincipal)
		return p
	}
	var p auth.SecurityPrincipal
	for _, x := range c.principals {
		if x != nil {
			p = x
		}
	}
	return p
}

// model gives whether the handler runs, and the errors allowed otherwise.
func (c *authCase) model() (runs bool, errs []error) {
	if c.supErr >= 0 {
		return false, []error{c.errVal}
	}
	p := c.effective()
	if c.permErr {
		errs = append(errs, c.errVal)
		if p == nil {
			errs = append(errs, gerrors.ErrUnauthorizedRequest)
		}
		return false, errs
	}
	if p == nil {
		return false, []error{gerrors.ErrUnauthorizedRequest}
	}
	ok := c.all
	for _, q := range c.perms {
		if c.all {
			ok = ok && modelHas(p, q)
		} else {
			ok = ok || modelHas(p, q)
		}
	}
	if ok {
		return true, nil
	}
	return false, []error{gerrors.ErrUnauthorizedRequest}
}

func runC21(r *core.Run) {
	r.Rule("chains of principal suppliers, one authorization middleware (all or any; fixed or supplied permissions) and a handler are called with generated principals (users of the library and of the application) and requirements, alone and, over shared chains, by many goroutines at once with rendezvous between the middlewares; the runs of the handler, the principal it sees and the error are compared with a model. " +
		"Built with the race detector. A case is one request, non-trivial when a principal and requirements are present")
	r.Require("runs", 2000)
	r.Require("long_lists", 200)
	r.Require("unauthorized", 2000)
	r.Require("supplier_errors", 200)
	r.Require("context_changed", 500)
	r.Require("request_contexts", 1000)
	r.Require("concurrent", 2000)
	r.Require("http", 500)
	c21Serial(r)
	c21Concurrent(r)
}

func c21Serial(r *core.Run) {
	parallel(r, "serial", r.N(20000, 200000), func(i int) {
		rng := r.Rand("c21", i)
		c := genAuthCase(rng, fmt.Sprint(i))
		if c.long {
			r.Count("long_lists", 1)
		}
		var ran int
		var saw auth.SecurityPrincipal
		var order []string
		want := response.PlainTextHttpResponseOK("x")
		ctx := context.WithValue(context.Background(), ctxKey("k"), i)
		handlerErr := error(nil)
		if rng.Intn(10) == 0 {
			handlerErr = errors.New("own")
		}
		var h handler.Handler = func(cx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			ran++
			saw = auth.GetSecurityPrincipalFromContext(cx)
			if cx.Value(ctxKey("k")) != i {
				r.Violate("context", "values of the context are lost behind the authorization", nil)
			}
			if handlerErr != nil {
				return nil, handlerErr
			}
			return want, nil
		}
		given := append([]auth.Permission(nil), c.perms...)
		var mw middleware.Middleware
		switch {
		case c.static && c.all:
			mw = middleware.AuthorizeAll(given...)
		case c.static:
			mw = middleware.AuthorizeAny(given...)
		default:
			mw = middleware.Authorize(func(cx context.Context, mc path.MatchingContext) ([]auth.Permission, error) {
				order = append(order, "permissions")
				if c.permErr {
					if rng.Intn(2) == 0 {
						return given, c.errVal
					}
					return nil, c.errVal
				}
				return given, nil
			}, c.all)
		}
		chain := mw(h)
		if c.hasDirect {
			inner := chain
			chain = func(cx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
				return inner(context.WithValue(cx, auth.SecurityPrincipalCtxKey, c.direct), mc)
			}
			r.Count("context_changed", 1)
		}
		for k := len(c.principals) - 1; k >= 0; k-- {
			k := k
			chain = middleware.SecurityPrincipalSupplier(func(cx context.Context, mc path.MatchingContext) (auth.SecurityPrincipal, error) {
				if k == c.supErr {
					if rng.Intn(2) == 0 {
						return c.principals[k], c.errVal
					}
					return nil, c.errVal
				}
				return c.principals[k], nil
			})(chain)
		}
		runs, errs := c.model()
		var resp response.HttpResponse
		var err error
		det := func() any {
			return map[string]any{"principals": fmt.Sprintf("%+v", c.principals), "failing_supplier": c.supErr, "permissions": fmt.Sprint(c.perms), "permission_error": c.permErr, "all": c.all, "fixed": c.static, "ran": ran, "error": errText(err)}
		}
		// the chain is used more than once
		for round := 0; round < 3; round++ {
			ran, saw = 0, nil
			if round == 2 {
				// the rights, and what is required, differ at the next request
				for k, p := range c.principals {
					if p != nil {
						c.principals[k] = genPrincipal(rng, p.Identity(), authPool)
					}
				}
				if !c.static && len(c.perms) > 0 {
					c.perms[0] = authPool[rng.Intn(len(authPool))]
					given = append([]auth.Permission(nil), c.perms...)
				}
				runs, errs = c.model()
			}
			// what the request's own context holds is not what the handlers are given
			req := newRequest("GET", "/", nil)
			if rng.Intn(3) == 0 {
				req = req.WithContext(context.WithValue(req.Context(), auth.SecurityPrincipalCtxKey, auth.SecurityPrincipal(almighty)))
				r.Count("request_contexts", 1)
			}
			if !r.Try("authorization", det(), func() { resp, err = chain(ctx, path.MatchingContext{R: req}) }) {
				return
			}
			r.Case(fmt.Sprint(i, c.perms, c.all, c.static, len(c.principals)), c.effective() != nil && len(c.perms) > 0)
			if runs {
				r.Count("runs", 1)
				if ran != 1 {
					r.Violate("not-run", fmt.Sprintf("the handler of an authorized request ran %d times", ran), det())
					return
				}
				if !reflect.DeepEqual(saw, c.effective()) {
					r.Violate("principal", "the handler sees another principal", det())
				}
				if handlerErr != nil && (err != handlerErr || resp != nil) || handlerErr == nil && (err != nil || resp != want) {
					r.Violate("result", "the result of the handler does not pass the authorization unchanged", det())
				}
				continue
			}
			if c.supErr >= 0 || c.permErr {
				r.Count("supplier_errors", 1)
			} else {
				r.Count("unauthorized", 1)
			}
			if ran != 0 {
				r.Violate("run", "the handler ran although the request is not authorized", det())
				return
			}
			ok := false
			for _, e := range errs {
				ok = ok || err == e
			}
			if !ok || resp != nil {
				r.Violate("error", "the error of a refused request is "+errText(err), det())
			}
		}
		if fmt.Sprint(given) != fmt.Sprint(c.perms) {
			r.Violate("changed", "the required permissions were changed", det())
		}
		if i < 3 {
			r.Sample(det())
		}
	})
}

// c21Concurrent: one application, many principals at once.
func c21Concurrent(r *core.Run) {
	type req struct {
		p    auth.SecurityPrincipal
		fail bool
		need []auth.Permission
	}
	for round := 0; round < r.N(10, 80); round++ {
		r.Begin("concurrent round %d", round)
		var mu sync.Mutex
		reqs := map[string]*req{}
		of := func(mc path.MatchingContext) *req {
			mu.Lock()
			defer mu.Unlock()
			return reqs[mc.R.Header.Get("X-Req")]
		}
		m, l := newMux(false)
		ran := sync.Map{}
		bar := newMeet()
		m.CommonMiddlewares(middleware.ErrJsonResponse(), middleware.SecurityPrincipalSupplier(func(ctx context.Context, mc path.MatchingContext) (auth.SecurityPrincipal, error) {
			q := of(mc)
			bar.wait()
			if q.fail {
				return nil, gerrors.ErrWrongCredentials
			}
			return q.p, nil
		}))
		look := func(kind string) handler.Handler {
			return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
				id := mc.R.Header.Get("X-Req")
				n, _ := ran.LoadOrStore(id, new(atomic.Int64))
				n.(*atomic.Int64).Add(1)
				q := of(mc)
				for k := 0; k < 3; k++ {
					if p := auth.GetSecurityPrincipalFromContext(ctx); p == nil || p.Identity() != q.p.Identity() || !reflect.DeepEqual(p, q.p) {
						r.Violate("mixed", "a request runs with the principal of another one", map[string]any{"want": fmt.Sprint(q.p), "got": fmt.Sprint(p)})
					}
					bar.wait()
				}
				return response.PlainTextHttpResponseOK(id), nil
			}
		}
		for k, p := range authPool {
			m.HandleGet(fmt.Sprintf("/all%d", k), look("all"), middleware.AuthorizeAll(p, authPool[(k+1)%len(authPool)]))
			m.HandleGet(fmt.Sprintf("/any%d", k), look("any"), middleware.AuthorizeAny(p, authPool[(k+1)%len(authPool)]))
		}
		m.HandleGet("/sup", look("sup"), middleware.Authorize(func(ctx context.Context, mc path.MatchingContext) ([]auth.Permission, error) {
			q := of(mc)
			bar.wait()
			return q.need, nil
		}, true))
		serve := func(i int, do func(q *http.Request) (int, string, error), url string) {
			rng := r.Rand(fmt.Sprint("c21c", round), i)
			id := fmt.Sprintf("%d-%d", round, i)
			q := &req{fail: rng.Intn(12) == 0}
			if rng.Intn(8) != 0 {
				pid := id
				if rng.Intn(4) == 0 {
					pid = "shared"
				}
				q.p = genPrincipal(rng, pid, authPool)
			}
			for k := rng.Intn(3); k > 0; k-- {
				q.need = append(q.need, authPool[rng.Intn(len(authPool))])
			}
			k := rng.Intn(len(authPool))
			p1, p2 := authPool[k], authPool[(k+1)%len(authPool)]
			var target string
			ok := false
			switch rng.Intn(3) {
			case 0:
				target = fmt.Sprintf("/all%d", k)
				ok = q.p != nil && modelHas(q.p, p1) && modelHas(q.p, p2)
			case 1:
				target = fmt.Sprintf("/any%d", k)
				ok = q.p != nil && (modelHas(q.p, p1) || modelHas(q.p, p2))
			default:
				target = "/sup"
				ok = q.p != nil
				for _, x := range q.need {
					ok = ok && modelHas(q.p, x)
				}
			}
			code := 200
			if q.fail {
				code, ok = 403, false
			} else if !ok {
				code = 401
			}
			mu.Lock()
			reqs[id] = q
			mu.Unlock()
			hr, _ := http.NewRequest("GET", url+target, nil)
			hr.Header.Set("X-Req", id)
			got, body, err := do(hr)
			n, _ := ran.LoadOrStore(id, new(atomic.Int64))
			times := n.(*atomic.Int64).Load()
			r.Count("concurrent", 1)
			r.Case("c"+id+target, q.p != nil)
			if err != nil || got != code || times != map[bool]int64{true: 1}[ok] || ok && body != id {
				r.Violate("concurrent", fmt.Sprintf("of concurrent requests, one that should get %d got %d, its handler ran %d times (%v)", code, got, times, err), map[string]any{"principal": fmt.Sprintf("%+v", q.p), "target": target, "body": clip(body), "need": fmt.Sprint(q.need)})
			}
		}
		burst(16, 400, func(i int) {
			serve(i, func(q *http.Request) (int, string, error) {
				w := httptest.NewRecorder()
				q.RequestURI = q.URL.RequestURI()
				m.ServeHTTP(w, q)
				return w.Code, w.Body.String(), nil
			}, "")
		})
		ts := startServer(m, "h1")
		burst(16, 250, func(i int) {
			r.Count("http", 1)
			serve(1000+i, func(q *http.Request) (int, string, error) {
				a := ts.do(q)
				return a.Code, string(a.Body), a.Err
			}, ts.URL)
		})
		ts.stop()
		if e := l.take(); len(e) > 0 {
			r.Violate("logged", "authorization errors were not handled: "+e[0].Error(), nil)
		}
	}
}

// burst runs n calls on w goroutines.
func burst(w, n int, f func(i int)) {
	var next atomic.Int64
	var wg sync.WaitGroup
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}

// meet lets goroutines wait shortly for one another, so that requests are
// inside the same code at the same time.
type meet struct {
	mu sync.Mutex
	ch chan struct{}
	n  int
}

func newMeet() *meet { return &meet{ch: make(chan struct{})} }

func (m *meet) wait() {
	m.mu.Lock()
	m.n++
	ch := m.ch
	if m.n >= 4 {
		m.n = 0
		close(m.ch)
		m.ch = make(chan struct{})
		m.mu.Unlock()
		return
	}
	m.mu.Unlock()
	select {
	case <-ch:
	case <-time.After(time.Millisecond):
	}
}
