# Header area: entries, typed accessors, file list.
package github.com/sassoftware/go-rpmutils

const TYNULL = 0
const TYCHAR = 1
const TYINT8 = 2
const TYINT16 = 3
const TYINT32 = 4
const TYINT64 = 5
const TYSTRING = 6
const TYBIN = 7
const TYSTRARRAY = 8
const TYI18N = 9

spec isstr(t) = t == 6 || t == 8 || t == 9
spec isbyteint(t) = t == 1 || t == 2
spec isnum(t) = 1 <= t && t <= 5
spec isfixed(t) = (0 <= t && t <= 5) || t == 7

# a stored entry holds exactly what its type and count promise
spec wfent(e) = 0 <= e.count && ((e.dataType == 1 || e.dataType == 2 || e.dataType == 7) ==> len(e.contents) == e.count)
   && (e.dataType == 0 ==> len(e.contents) == 0)
   && (e.dataType == 3 ==> len(e.contents) == 2 * e.count)
   && (e.dataType == 4 ==> len(e.contents) == 4 * e.count)
   && (e.dataType == 5 ==> len(e.contents) == 8 * e.count)
   && (!isfixed(e.dataType) ==> nulend(str(e.contents), e.count) == len(e.contents))
spec wfh(h) = forall t: int :: {has(h.entries, t)} has(h.entries, t) ==> wfent(h.entries[t])

# counting NULs gives the same in a prefix that reaches that far
lemma nulprefix: forall D: str, a: int, b1: int, b2: int, n: int :: {nulend(D[a:b1], n), nulend(D[a:b2], n)} 0 <= a && a <= b2 && b2 <= b1 && b1 <= len(D) && 0 <= n && nulend(D[a:b1], n) <= b2 - a ==> nulend(D[a:b2], n) == nulend(D[a:b1], n)
  by induction n
  uses nulend(D[a:b1], n - 1); nulend(D[a:b2], n - 1); fnul(D, 0)

# decoded value k of an integer entry
rec ival(s: str, t: int, k: int): int = if isbyteint(t) then be(s, k, 1) else if t == 3 then be(s, 2 * k, 2) else if t == 4 then be(s, 4 * k, 4) else be(s, 8 * k, 8)
spec intat(e, k) = ival(str(e.contents), e.dataType, k)
spec nint(e) = if isbyteint(e.dataType) then len(e.contents) else if e.dataType == 3 then len(e.contents) / 2 else if e.dataType == 4 then len(e.contents) / 4 else len(e.contents) / 8
# string k of a string entry
rec nstr(s: str, k: int): str = s[nulend(s, k) : fnul(s, nulend(s, k))]
spec strat(e, k) = nstr(str(e.contents), k)
spec isnst(err, t) = is(err, `NoSuchTagError`) && as(err, `NoSuchTagError`).Tag == t

func NewNoSuchTagError(tag) (r)
  opt inline

func (hdr *rpmHeader) getInts(tag) (buf, n, err)
  requires hdr != nil && wfh(hdr)
  ensures !has(hdr.entries, tag) ==> isnst(err, tag)
  ensures has(hdr.entries, tag) && isnum(hdr.entries[tag].dataType) ==> err == nil && n == nint(hdr.entries[tag])
  ensures has(hdr.entries, tag) && !isnum(hdr.entries[tag].dataType) ==> err != nil && !nst(err)
  ensures err == nil && isbyteint(hdr.entries[tag].dataType) ==> is(buf, `[]uint8`) && len(as(buf, `[]uint8`)) == n && fresh(as(buf, `[]uint8`)) && (forall k: int :: {as(buf, `[]uint8`)[k]} 0 <= k && k < n ==> as(buf, `[]uint8`)[k] == intat(hdr.entries[tag], k))
  ensures err == nil && hdr.entries[tag].dataType == 3 ==> is(buf, `[]uint16`) && len(as(buf, `[]uint16`)) == n && fresh(as(buf, `[]uint16`)) && (forall k: int :: {as(buf, `[]uint16`)[k]} 0 <= k && k < n ==> as(buf, `[]uint16`)[k] == intat(hdr.entries[tag], k))
  ensures err == nil && hdr.entries[tag].dataType == 4 ==> is(buf, `[]uint32`) && len(as(buf, `[]uint32`)) == n && fresh(as(buf, `[]uint32`)) && (forall k: int :: {as(buf, `[]uint32`)[k]} 0 <= k && k < n ==> as(buf, `[]uint32`)[k] == intat(hdr.entries[tag], k))
  ensures err == nil && hdr.entries[tag].dataType == 5 ==> is(buf, `[]uint64`) && len(as(buf, `[]uint64`)) == n && fresh(as(buf, `[]uint64`)) && (forall k: int :: {as(buf, `[]uint64`)[k]} 0 <= k && k < n ==> as(buf, `[]uint64`)[k] == intat(hdr.entries[tag], k))

func (hdr *rpmHeader) GetInts(tag) (r, err)
  opt safe-C02
  requires hdr != nil && wfh(hdr)
  ensures err != nil ==> len(r) == 0
  ensures [C04,C05] absent: !has(hdr.entries, tag) ==> isnst(err, tag)
  ensures [C04,C05] ok: err == nil ==> has(hdr.entries, tag) && 1 <= hdr.entries[tag].dataType && hdr.entries[tag].dataType <= 4 && len(r) == nint(hdr.entries[tag])
  ensures [C04,C05] values: err == nil ==> (forall k: int :: {r[k]} 0 <= k && k < len(r) ==> r[k] == intat(hdr.entries[tag], k))
  ensures [C04,C05] small: has(hdr.entries, tag) && 1 <= hdr.entries[tag].dataType && hdr.entries[tag].dataType <= 3 ==> err == nil
  ensures [C04,C05] int32: has(hdr.entries, tag) && hdr.entries[tag].dataType == 4 && (forall k: int :: {intat(hdr.entries[tag], k)} 0 <= k && k < nint(hdr.entries[tag]) ==> intat(hdr.entries[tag], k) < 0x80000000) ==> err == nil

func (hdr *rpmHeader) GetUint32s(tag) (r, err)
  opt safe-C02
  requires hdr != nil && wfh(hdr)
  ensures err != nil ==> len(r) == 0
  ensures [C04,C05,C06,C11,C12,C13,C21] absent: !has(hdr.entries, tag) ==> isnst(err, tag)
  ensures [C04,C05,C06,C11,C12,C13,C21] ok: err == nil <==> (has(hdr.entries, tag) && 1 <= hdr.entries[tag].dataType && hdr.entries[tag].dataType <= 4)
  ensures [C04,C05,C06,C11,C12,C13,C21] length: err == nil ==> len(r) == nint(hdr.entries[tag])
  ensures [C04,C05,C06,C11,C12,C13,C21] values: err == nil ==> (forall k: int :: {r[k]} 0 <= k && k < len(r) ==> r[k] == intat(hdr.entries[tag], k))
  ensures nst(err) ==> !has(hdr.entries, tag)

func (hdr *rpmHeader) GetUint64s(tag) (r, err)
  opt safe-C02
  requires hdr != nil && wfh(hdr)
  ensures err != nil ==> len(r) == 0
  ensures [C04,C05,C06,C21] absent: !has(hdr.entries, tag) ==> isnst(err, tag)
  ensures [C04,C05,C06,C21] ok: err == nil <==> (has(hdr.entries, tag) && isnum(hdr.entries[tag].dataType))
  ensures [C04,C05,C06,C21] length: err == nil ==> len(r) == nint(hdr.entries[tag])
  ensures [C04,C05,C06,C21] values: err == nil ==> (forall k: int :: {r[k]} 0 <= k && k < len(r) ==> r[k] == intat(hdr.entries[tag], k))
  ensures nst(err) ==> !has(hdr.entries, tag)

loop forall k: int :: {?o:`[]int`[k]} 0 <= k && k < ?i:`int` ==> ?o[k] == ?s:`[]uint8`[k]
loop forall k: int :: {?o:`[]int`[k]} 0 <= k && k < ?i:`int` ==> ?o[k] == ?s:`[]uint16`[k]
loop forall k: int :: {?o:`[]int`[k]} 0 <= k && k < ?i:`int` ==> ?o[k] == ?s:`[]uint32`[k]
loop forall k: int :: {?o:`[]uint32`[k]} 0 <= k && k < ?i:`int` ==> ?o[k] == ?s:`[]uint8`[k]
loop forall k: int :: {?o:`[]uint32`[k]} 0 <= k && k < ?i:`int` ==> ?o[k] == ?s:`[]uint16`[k]
loop forall k: int :: {?o:`[]uint64`[k]} 0 <= k && k < ?i:`int` ==> ?o[k] == ?s:`[]uint8`[k]
loop forall k: int :: {?o:`[]uint64`[k]} 0 <= k && k < ?i:`int` ==> ?o[k] == ?s:`[]uint16`[k]
loop forall k: int :: {?o:`[]uint64`[k]} 0 <= k && k < ?i:`int` ==> ?o[k] == ?s:`[]uint32`[k]


# paths stored in split form
const DIRNAMES = 1118
const DIRINDEXES = 1116
const BASENAMES = 1117
const OLDFILENAMES = 1027
spec hasstr(h, t) = has(h.entries, t) && isstr(h.entries[t].dataType)
spec hasint(h, t) = has(h.entries, t) && isnum(h.entries[t].dataType)
spec hasu32(h, t) = has(h.entries, t) && 1 <= h.entries[t].dataType && h.entries[t].dataType <= 4
spec dirat(h, k) = intat(h.entries[1116], k)
spec pathat(h, k) = if has(h.entries, 1027) then strat(h.entries[1027], k) else join(strat(h.entries[1118], dirat(h, k)), strat(h.entries[1117], k))
spec npaths(h) = if has(h.entries, 1027) then h.entries[1027].count else h.entries[1117].count
spec splitok(h) = hasstr(h, 1118) && hasu32(h, 1116) && hasstr(h, 1117) && nint(h.entries[1116]) == h.entries[1117].count && (forall k: int :: {dirat(h, k)} 0 <= k && k < h.entries[1117].count ==> dirat(h, k) < h.entries[1118].count)
spec pathsok(h) = if has(h.entries, 1027) then isstr(h.entries[1027].dataType) else splitok(h)
spec nopaths(h) = !has(h.entries, 1027) && !(has(h.entries, 1118) && has(h.entries, 1116) && has(h.entries, 1117))

func (hdr *rpmHeader) GetStrings(tag) (r, err)
  opt safe-C02
  requires hdr != nil && wfh(hdr)
  ensures err != nil ==> len(r) == 0
  ensures [C03,C04,C05,C06,C11,C12,C13,C21,C22] absent: !has(hdr.entries, tag) && tag != 1027 ==> isnst(err, tag)
  ensures [C03,C04,C05,C06,C11,C12,C13,C21,C22] ok: has(hdr.entries, tag) ==> (err == nil <==> isstr(hdr.entries[tag].dataType)) && !nst(err)
  ensures [C03,C04,C05,C06,C11,C12,C13,C21,C22] length: has(hdr.entries, tag) && err == nil ==> len(r) == hdr.entries[tag].count
  ensures [C03,C04,C05,C06,C11,C12,C13,C21,C22] values: has(hdr.entries, tag) && err == nil ==> (forall k: int :: {r[k]} 0 <= k && k < len(r) ==> r[k] == strat(hdr.entries[tag], k))
  ensures [C04,C05,C06,C21] split-err: tag == 1027 && !has(hdr.entries, 1027) && nst(err) ==> nopaths(hdr)
  ensures [C04,C05,C06,C21] split-absent: tag == 1027 && nopaths(hdr) ==> err != nil
  ensures [C04,C05,C06] split-nofiles: tag == 1027 && !has(hdr.entries, 1027) && !has(hdr.entries, 1118) ==> isnst(err, 1118)
  ensures [C04,C05,C06,C21] split-ok: tag == 1027 && !has(hdr.entries, 1027) ==> (err == nil <==> splitok(hdr))
  ensures [C04,C05,C06,C21] split-length: tag == 1027 && err == nil ==> len(r) == npaths(hdr)
  ensures [C04,C05,C06,C21] split-values: tag == 1027 && err == nil ==> (forall k: int :: {r[k]} 0 <= k && k < len(r) ==> r[k] == pathat(hdr, k))
  invariant forall k: int :: {?p:`[]string`[k]} 0 <= k && k < ?i:`int` ==> ?p[k] == pathat(hdr, k)
  invariant forall k: int :: {dirat(hdr, k)} 0 <= k && k < ?i:`int` ==> dirat(hdr, k) < hdr.entries[1118].count

func (hdr *rpmHeader) firstString(tag) (r, err)
  opt safe-C02
  requires hdr != nil && wfh(hdr)
  ensures [C03,C05,C11,C12,C13] !has(hdr.entries, tag) && tag != 1027 ==> isnst(err, tag)
  ensures [C03,C05,C11,C12,C13] tag != 1027 ==> (err == nil <==> (hasstr(hdr, tag) && 0 < hdr.entries[tag].count))
  ensures [C03,C05,C11,C12,C13] tag != 1027 && err == nil ==> r == strat(hdr.entries[tag], 0)

func (hdr *rpmHeader) GetBytes(tag) (r, err)
  opt safe-C02
  requires hdr != nil
  ensures [C03,C04,C11,C12,C13] absent: !has(hdr.entries, tag) ==> isnst(err, tag)
  ensures [C03,C04,C11,C12,C13] ok: has(hdr.entries, tag) ==> (err == nil <==> hdr.entries[tag].dataType == 7) && !nst(err)
  ensures [C03,C04,C11,C12,C13] value: err == nil ==> same(r, hdr.entries[tag].contents)
  ensures [C03,C04,C11,C12,C13] none: err != nil ==> len(r) == 0

func (hdr *rpmHeader) HasTag(tag) (r)
  opt safe-C02
  requires hdr != nil
  ensures [C04] r == has(hdr.entries, tag)

func (hdr *rpmHeader) Get(tag) (r, err)
  opt safe-C02
  requires hdr != nil && wfh(hdr)
  ensures [C04] absent: !has(hdr.entries, tag) && tag != 1027 ==> isnst(err, tag)
  ensures [C04] ok: has(hdr.entries, tag) ==> (err == nil <==> (1 <= hdr.entries[tag].dataType && hdr.entries[tag].dataType <= 9))
  ensures [C04] strings: hasstr(hdr, tag) ==> is(r, `[]string`) && len(as(r, `[]string`)) == hdr.entries[tag].count && (forall k: int :: {as(r, `[]string`)[k]} 0 <= k && k < hdr.entries[tag].count ==> as(r, `[]string`)[k] == strat(hdr.entries[tag], k))
  ensures [C04] bytes: has(hdr.entries, tag) && hdr.entries[tag].dataType == 7 ==> is(r, `[]byte`) && same(as(r, `[]byte`), hdr.entries[tag].contents)
  ensures [C04] int8: has(hdr.entries, tag) && isbyteint(hdr.entries[tag].dataType) ==> is(r, `[]uint8`) && len(as(r, `[]uint8`)) == nint(hdr.entries[tag]) && (forall k: int :: {as(r, `[]uint8`)[k]} 0 <= k && k < len(as(r, `[]uint8`)) ==> as(r, `[]uint8`)[k] == intat(hdr.entries[tag], k))
  ensures [C04] int16: has(hdr.entries, tag) && hdr.entries[tag].dataType == 3 ==> is(r, `[]uint16`) && len(as(r, `[]uint16`)) == nint(hdr.entries[tag]) && (forall k: int :: {as(r, `[]uint16`)[k]} 0 <= k && k < len(as(r, `[]uint16`)) ==> as(r, `[]uint16`)[k] == intat(hdr.entries[tag], k))
  ensures [C04] int32: has(hdr.entries, tag) && hdr.entries[tag].dataType == 4 ==> is(r, `[]uint32`) && len(as(r, `[]uint32`)) == nint(hdr.entries[tag]) && (forall k: int :: {as(r, `[]uint32`)[k]} 0 <= k && k < len(as(r, `[]uint32`)) ==> as(r, `[]uint32`)[k] == intat(hdr.entries[tag], k))
  ensures [C04] int64: has(hdr.entries, tag) && hdr.entries[tag].dataType == 5 ==> is(r, `[]uint64`) && len(as(r, `[]uint64`)) == nint(hdr.entries[tag]) && (forall k: int :: {as(r, `[]uint64`)[k]} 0 <= k && k < len(as(r, `[]uint64`)) ==> as(r, `[]uint64`)[k] == intat(hdr.entries[tag], k))
  ensures [C04] split: tag == 1027 && !has(hdr.entries, 1027) && err == nil ==> is(r, `[]string`) && len(as(r, `[]string`)) == npaths(hdr) && (forall k: int :: {as(r, `[]string`)[k]} 0 <= k && k < npaths(hdr) ==> as(r, `[]string`)[k] == pathat(hdr, k))

func (hdr *rpmHeader) GetUint64Fallback(intTag, longTag) (r, err)
  opt safe-C02
  requires hdr != nil && wfh(hdr)
  ensures [C05,C06,C21] absent: !has(hdr.entries, longTag) && !has(hdr.entries, intTag) ==> isnst(err, intTag)
  ensures [C05,C06,C21] long: has(hdr.entries, longTag) ==> (err == nil <==> hasint(hdr, longTag)) && (err == nil ==> len(r) == nint(hdr.entries[longTag]) && (forall k: int :: {r[k]} 0 <= k && k < len(r) ==> r[k] == intat(hdr.entries[longTag], k)))
  ensures [C05,C06,C21] short: !has(hdr.entries, longTag) && has(hdr.entries, intTag) ==> (err == nil <==> hasint(hdr, intTag)) && (err == nil ==> len(r) == nint(hdr.entries[intTag]) && (forall k: int :: {r[k]} 0 <= k && k < len(r) ==> r[k] == intat(hdr.entries[intTag], k)))
