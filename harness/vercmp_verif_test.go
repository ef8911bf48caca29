package rpmutils_test

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

// tokens of a version: "~", a number without leading zeros, or letters
type vtok struct {
	kind int // 0 tilde, 1 end, 2 letters, 3 digits
	s    string
}

func vtokens(s string) []vtok {
	var out []vtok
	isd := func(c byte) bool { return c >= '0' && c <= '9' }
	isa := func(c byte) bool { return c|32 >= 'a' && c|32 <= 'z' }
	for i := 0; i < len(s); {
		switch c := s[i]; {
		case c == '~':
			out = append(out, vtok{0, ""})
			i++
		case isd(c):
			j := i
			for j < len(s) && isd(s[j]) {
				j++
			}
			d := s[i:j]
			for d != "" && d[0] == '0' {
				d = d[1:]
			}
			out = append(out, vtok{3, d})
			i = j
		case isa(c):
			j := i
			for j < len(s) && isa(s[j]) {
				j++
			}
			out = append(out, vtok{2, s[i:j]})
			i = j
		default:
			i++
		}
	}
	return append(out, vtok{1, ""})
}

func overcmp(a, b string) int {
	x, y := vtokens(a), vtokens(b)
	for i := 0; i < len(x) && i < len(y); i++ {
		p, q := x[i], y[i]
		switch {
		case p.kind < q.kind:
			return -1
		case p.kind > q.kind:
			return 1
		case p.kind == 3 && len(p.s) != len(q.s):
			if len(p.s) < len(q.s) {
				return -1
			}
			return 1
		case p.s < q.s:
			return -1
		case p.s > q.s:
			return 1
		}
	}
	return 0
}

var vpieces = []string{"0", "1", "2", "9", "10", "00", "01", "a", "b", "A", "Z", "z", "ab", "rc", "~", "~", ".", "-", "_", "+", "^", "\n", "\x00", "\xff", "\u00e9", " ", "18446744073709551616", "99999999999999999999999", "4294967296"}

func (r *R) version() string {
	var sb strings.Builder
	for n := r.Intn(6); n >= 0; n-- {
		if r.p(.1) {
			sb.WriteString(r.word())
		} else if r.p(.05) {
			sb.WriteByte(byte(r.Intn(256)))
		} else {
			sb.WriteString(vpieces[r.Intn(len(vpieces))])
		}
	}
	return sb.String()
}

// near returns a version that shares most of s
func (r *R) near(s string) string {
	switch r.Intn(7) {
	case 0:
		return s
	case 1:
		return s + vpieces[r.Intn(len(vpieces))]
	case 2:
		return vpieces[r.Intn(len(vpieces))] + s
	case 3:
		k := r.Intn(len(s) + 1)
		return s[:k] + vpieces[r.Intn(len(vpieces))] + s[k:]
	case 4:
		if len(s) > 0 {
			k := r.Intn(len(s))
			return s[:k] + s[k+1:]
		}
	case 5:
		if len(s) > 0 {
			x := []byte(s)
			x[r.Intn(len(x))] = byte(r.Intn(256))
			return string(x)
		}
	}
	return r.version()
}

func TestVerifC07(t *testing.T) {
	search(t, func(r *R) string {
		a := r.version()
		b := r.near(a)
		r.log("a %q b %q", a, b)
		if g, w := rpmutils.Vercmp(a, b), overcmp(a, b); g != w {
			return fmt.Sprintf("Vercmp(a, b) = %d, expected %d", g, w)
		}
		if g, w := rpmutils.Vercmp(b, a), overcmp(b, a); g != w {
			return fmt.Sprintf("Vercmp(b, a) = %d, expected %d", g, w)
		}
		return ""
	})
}

func onevra(a, b rpmutils.NEVRA) int {
	for _, p := range [][2]string{{a.Epoch, b.Epoch}, {a.Version, b.Version}, {a.Release, b.Release}} {
		if c := overcmp(p[0], p[1]); c != 0 {
			return c
		}
	}
	return 0
}

func TestVerifC08(t *testing.T) {
	search(t, func(r *R) string {
		n := r.Intn(7)
		if r.p(.2) {
			n = r.Intn(60)
		}
		pool := []string{r.version(), r.version()}
		val := func() string {
			if r.p(.6) {
				return pool[r.Intn(len(pool))]
			}
			s := r.near(pool[0])
			pool = append(pool, s)
			return s
		}
		ep := func() string {
			if r.p(.6) {
				return []string{"", "0", "1", "2", "10"}[r.Intn(5)]
			}
			return val()
		}
		s := make(rpmutils.NEVRASlice, n)
		vs := make(rpmutils.VersionSlice, n)
		for i := range s {
			s[i] = rpmutils.NEVRA{Name: r.word(), Epoch: ep(), Version: val(), Release: val(), Arch: r.word()}
			vs[i] = val()
		}
		r.log("list %q versions %q", s, vs)
		if s.Len() != n || vs.Len() != n {
			return "wrong length"
		}
		if n > 0 {
			for k := 0; k < 8; k++ {
				i, j := r.Intn(n), r.Intn(n)
				w := onevra(s[i], s[j])
				if g := rpmutils.NEVRAcmp(s[i], s[j]); g != w {
					return fmt.Sprintf("NEVRAcmp(%q, %q) = %d, expected %d", s[i], s[j], g, w)
				}
				if g := s.Less(i, j); g != (w < 0) {
					return fmt.Sprintf("Less(%d, %d) = %v for %q, %q", i, j, g, s[i], s[j])
				}
				if g := vs.Less(i, j); g != (overcmp(vs[i], vs[j]) < 0) {
					return fmt.Sprintf("VersionSlice.Less(%d, %d) = %v for %q, %q", i, j, g, vs[i], vs[j])
				}
				s0, v0 := append(rpmutils.NEVRASlice{}, s...), append(rpmutils.VersionSlice{}, vs...)
				s.Swap(i, j)
				vs.Swap(i, j)
				for x := range s {
					y := x
					if x == i {
						y = j
					} else if x == j {
						y = i
					}
					if s[x] != s0[y] || vs[x] != v0[y] {
						return fmt.Sprintf("Swap(%d, %d) changed element %d", i, j, x)
					}
				}
			}
		}
		cnt := map[rpmutils.NEVRA]int{}
		for _, e := range s {
			cnt[e]++
		}
		vc := map[string]int{}
		for _, e := range vs {
			vc[e]++
		}
		s.Sort()
		sort.Sort(vs)
		for i := range s {
			cnt[s[i]]--
			vc[vs[i]]--
			if i > 0 && onevra(s[i-1], s[i]) > 0 {
				return fmt.Sprintf("not sorted: %q", s)
			}
			if i > 0 && overcmp(vs[i-1], vs[i]) > 0 {
				return fmt.Sprintf("not sorted: %q", vs)
			}
		}
		for e, k := range cnt {
			if k != 0 {
				return fmt.Sprintf("not a permutation: %q", e)
			}
		}
		for e, k := range vc {
			if k != 0 {
				return fmt.Sprintf("not a permutation: %q", e)
			}
		}
		return ""
	})
}

