# Version comparison: rpm's segment-wise algorithm.
package github.com/sassoftware/go-rpmutils

spec num(s) = skip("[0-9]", s)
spec alpha(s) = skip("[a-zA-Z]", s)
spec tilde(s) = 0 < len(s) && s[0] == 126
spec digit(s) = 0 < len(s) && 48 <= s[0] && s[0] <= 57
# without leading separators
rec strip(s: str): str = s[skip("[^a-zA-Z0-9~]", s):len(s)]
# a number without its leading zeros
rec magn(d: str): str = d[skip("[0]", d):len(d)]
rec lexcmp(x: str, y: str): int = if x < y then 0 - 1 else if y < x then 1 else 0
rec ncmp(x: str, y: str): int = if len(x) < len(y) then 0 - 1 else if len(y) < len(x) then 1 else lexcmp(x, y)
# comparison of the first segments of two stripped, non-empty strings that do not start with a tilde
rec headcmp(a: str, b: str): int = if digit(a) then (if digit(b) then ncmp(magn(a[0:num(a)]), magn(b[0:num(b)])) else 1) else if digit(b) then 0 - 1 else lexcmp(a[0:alpha(a)], b[0:alpha(b)])
rec rest(a: str): str = if digit(a) then a[num(a):len(a)] else a[alpha(a):len(a)]
rec vcmp(a: str, b: str): int =
   if tilde(strip(a)) then (if tilde(strip(b)) then vcmp(strip(a)[1:len(strip(a))], strip(b)[1:len(strip(b))]) else 0 - 1)
   else if tilde(strip(b)) then 1
   else if strip(a) == "" then (if strip(b) == "" then 0 else 0 - 1)
   else if strip(b) == "" then 1
   else if headcmp(strip(a), strip(b)) != 0 then headcmp(strip(a), strip(b))
   else vcmp(rest(strip(a)), rest(strip(b)))

lemma [C07,C08] magn_range: forall a: str, b: str :: {ncmp(a, b)} ncmp(a, b) == 0 - 1 || ncmp(a, b) == 0 || ncmp(a, b) == 1
lemma [C07,C08] ncmp_neg: forall a: str, b: str :: {ncmp(a, b)} ncmp(b, a) == 0 - ncmp(a, b)
lemma [C07,C08] ncmp_trans: forall a: str, b: str, c: str :: {ncmp(a, b), ncmp(b, c)} ncmp(a, b) <= 0 && ncmp(b, c) <= 0 ==> ncmp(a, c) <= 0 && (ncmp(a, b) < 0 || ncmp(b, c) < 0 ==> ncmp(a, c) < 0)
lemma [C07,C08] lex_range: forall a: str, b: str :: {lexcmp(a, b)} lexcmp(a, b) == 0 - 1 || lexcmp(a, b) == 0 || lexcmp(a, b) == 1
lemma [C07,C08] lex_neg: forall a: str, b: str :: {lexcmp(a, b)} lexcmp(b, a) == 0 - lexcmp(a, b)
lemma [C07,C08] lex_trans: forall a: str, b: str, c: str :: {lexcmp(a, b), lexcmp(b, c)} lexcmp(a, b) <= 0 && lexcmp(b, c) <= 0 ==> lexcmp(a, c) <= 0 && (lexcmp(a, b) < 0 || lexcmp(b, c) < 0 ==> lexcmp(a, c) < 0)
lemma [C07,C08] head_range: forall a: str, b: str :: {headcmp(a, b)} headcmp(a, b) == 0 - 1 || headcmp(a, b) == 0 || headcmp(a, b) == 1
lemma [C07,C08] head_neg: forall a: str, b: str :: {headcmp(a, b)} headcmp(b, a) == 0 - headcmp(a, b)
lemma [C07,C08] head_trans: forall a: str, b: str, c: str :: {headcmp(a, b), headcmp(b, c)} headcmp(a, b) <= 0 && headcmp(b, c) <= 0 ==> headcmp(a, c) <= 0 && (headcmp(a, b) < 0 || headcmp(b, c) < 0 ==> headcmp(a, c) < 0)

# segments are not empty: comparing always makes progress
lemma [C07,C08] strip_kind: forall a: str :: {strip(a)} strip(a) == "" || tilde(strip(a)) || digit(strip(a)) || (0 < alpha(strip(a)) && alpha(strip(a)) <= len(strip(a)))
lemma [C07,C08] strip_len: forall a: str :: {strip(a)} len(strip(a)) <= len(a)
lemma [C07,C08] rest_len: forall a: str :: {rest(strip(a))} strip(a) != "" && !tilde(strip(a)) ==> len(rest(strip(a))) < len(strip(a))
theorem [C07,C08] strip_strip: forall a: str :: {strip(strip(a))} strip(strip(a)) == strip(a)

# the order
theorem [C07,C08] vcmp_range: forall a: str, b: str :: {vcmp(a, b)} vcmp(a, b) == 0 - 1 || vcmp(a, b) == 0 || vcmp(a, b) == 1
  by induction len(a) + len(b)
theorem [C07,C08] vcmp_swap: forall a: str, b: str :: {vcmp(a, b)} vcmp(b, a) == 0 - vcmp(a, b)
  by induction len(a) + len(b)
theorem [C07,C08] vcmp_transitive: forall a: str, b: str, c: str :: {vcmp(a, b), vcmp(b, c)} vcmp(a, b) <= 0 && vcmp(b, c) <= 0 ==> vcmp(a, c) <= 0 && (vcmp(a, b) < 0 || vcmp(b, c) < 0 ==> vcmp(a, c) < 0)
  by induction len(a) + len(b) + len(c)
theorem [C07,C08] vcmp_reflexive: forall a: str :: {vcmp(a, a)} vcmp(a, a) == 0
  uses vcmp_swap

func Vercmp(first, second) (r)
  ensures [C07,C08] algorithm: r == vcmp(first, second)
  ensures [C07,C08] range: r == 0 - 1 || r == 0 || r == 1
  invariant [C07,C08] vcmp(?a:`string`, ?b:`string`) == vcmp(first, second)

func (vs VersionSlice) Len() (r)
  ensures [C08] r == len(vs)

func (vs VersionSlice) Less(i, j) (r)
  ensures [C08] 0 <= i && i < len(vs) && 0 <= j && j < len(vs) ==> (r <==> vcmp(vs[i], vs[j]) < 0)

func (vs VersionSlice) Swap(i, j) ()
  modifies elems(vs)
  ensures [C08] exchanged: 0 <= i && i < len(vs) && 0 <= j && j < len(vs) ==> vs[i] == old(vs[j]) && vs[j] == old(vs[i])
  ensures [C08] others: forall k: int :: {vs[k]} 0 <= k && k < len(vs) && k != i && k != j ==> vs[k] == old(vs[k])

# package identities: epoch, then version, then release
rec cmp3(e1: str, v1: str, r1: str, e2: str, v2: str, r2: str): int = if vcmp(e1, e2) != 0 then vcmp(e1, e2) else if vcmp(v1, v2) != 0 then vcmp(v1, v2) else vcmp(r1, r2)
spec nevracmp(a, b) = cmp3(a.Epoch, a.Version, a.Release, b.Epoch, b.Version, b.Release)
lemma [C08] nevra_swap: forall a: str, b: str, c: str, x: str, y: str, z: str :: {cmp3(a, b, c, x, y, z)} cmp3(x, y, z, a, b, c) == 0 - cmp3(a, b, c, x, y, z)
  uses vcmp_swap
theorem [C08] nevra_transitive: forall a: str, b: str, c: str, p: str, q: str, r: str, x: str, y: str, z: str :: {cmp3(a, b, c, p, q, r), cmp3(p, q, r, x, y, z)} cmp3(a, b, c, p, q, r) <= 0 && cmp3(p, q, r, x, y, z) <= 0 ==> cmp3(a, b, c, x, y, z) <= 0 && (cmp3(a, b, c, p, q, r) < 0 || cmp3(p, q, r, x, y, z) < 0 ==> cmp3(a, b, c, x, y, z) < 0)
  uses vcmp_range; vcmp_transitive
theorem [C08] nevra_irreflexive: forall a: str, b: str, c: str :: {cmp3(a, b, c, a, b, c)} cmp3(a, b, c, a, b, c) == 0
  uses vcmp_reflexive

func NEVRAcmp(a, b) (r)
  ensures [C08] order: r == nevracmp(a, b)
  ensures [C08] range: r == 0 - 1 || r == 0 || r == 1

func (s NEVRASlice) Len() (r)
  ensures [C08] r == len(s)

func (s NEVRASlice) Less(i, j) (r)
  ensures [C08] 0 <= i && i < len(s) && 0 <= j && j < len(s) ==> (r <==> nevracmp(s[i], s[j]) < 0)

func (s NEVRASlice) Swap(i, j) ()
  modifies elems(s)
  ensures [C08] exchanged: 0 <= i && i < len(s) && 0 <= j && j < len(s) ==> s[i] == old(s[j]) && s[j] == old(s[i])
  ensures [C08] others: forall k: int :: {s[k].Name} {s[k].Epoch} {s[k].Version} {s[k].Release} {s[k].Arch} 0 <= k && k < len(s) && k != i && k != j ==> s[k] == old(s[k])

func (s NEVRASlice) Sort() ()
  modifies elems(s)
  ensures [C08] ascending: forall i: int, j: int :: {s[i].Epoch, s[j].Epoch} 0 <= i && i <= j && j < len(s) ==> nevracmp(s[i], s[j]) <= 0
  ensures [C08] onto: forall k: int :: {old(s[k].Name)} 0 <= k && k < len(s) ==> (exists j: int :: {s[j].Name} 0 <= j && j < len(s) && s[j] == old(s[k]))
  ensures [C08] into: forall k: int :: {s[k].Name} 0 <= k && k < len(s) ==> (exists j: int :: {old(s[j].Name)} 0 <= j && j < len(s) && s[k] == old(s[j]))
