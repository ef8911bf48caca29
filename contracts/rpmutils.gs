# Package-level accessors.
package github.com/sassoftware/go-rpmutils

spec wfr(h) = h != nil && h.sigHeader != nil && h.genHeader != nil && wfh(h.sigHeader) && wfh(h.genHeader)
spec issig(tag) = tag > 16384 || tag < 1000
spec area(h, tag) = if issig(tag) then h.sigHeader else h.genHeader
spec loc(tag) = if tag > 16384 then tag - 16384 else tag
# exactly one value is stored
spec onestr(e) = e.count == 1

func (hdr *RpmHeader) getHeader(tag) (h, t)
  opt inline

func (hdr *RpmHeader) HasTag(tag) (r)
  opt safe-C02
  requires wfr(hdr)
  ensures [C05,C22] r == has(area(hdr, tag).entries, loc(tag))

func (hdr *RpmHeader) Get(tag) (r, err)
  opt safe-C02
  requires wfr(hdr)
  ensures [C04,C05] absent: !has(area(hdr, tag).entries, loc(tag)) && loc(tag) != 1027 ==> isnst(err, loc(tag))
  ensures [C04,C05] strings: hasstr(area(hdr, tag), loc(tag)) ==> err == nil && is(r, `[]string`) && len(as(r, `[]string`)) == area(hdr, tag).entries[loc(tag)].count && (forall k: int :: {as(r, `[]string`)[k]} 0 <= k && k < area(hdr, tag).entries[loc(tag)].count ==> as(r, `[]string`)[k] == strat(area(hdr, tag).entries[loc(tag)], k))
  ensures [C04,C05] int32: has(area(hdr, tag).entries, loc(tag)) && area(hdr, tag).entries[loc(tag)].dataType == 4 ==> err == nil && is(r, `[]uint32`) && len(as(r, `[]uint32`)) == nint(area(hdr, tag).entries[loc(tag)]) && (forall k: int :: {as(r, `[]uint32`)[k]} 0 <= k && k < len(as(r, `[]uint32`)) ==> as(r, `[]uint32`)[k] == intat(area(hdr, tag).entries[loc(tag)], k))
  ensures [C04,C05] bytes: has(area(hdr, tag).entries, loc(tag)) && area(hdr, tag).entries[loc(tag)].dataType == 7 ==> err == nil && is(r, `[]byte`) && same(as(r, `[]byte`), area(hdr, tag).entries[loc(tag)].contents)

func (hdr *RpmHeader) GetStrings(tag) (r, err)
  opt safe-C02
  requires wfr(hdr)
  ensures [C05,C22] absent: !has(area(hdr, tag).entries, loc(tag)) && loc(tag) != 1027 ==> isnst(err, loc(tag))
  ensures [C05,C22] ok: has(area(hdr, tag).entries, loc(tag)) ==> (err == nil <==> isstr(area(hdr, tag).entries[loc(tag)].dataType))
  ensures [C05,C22] values: has(area(hdr, tag).entries, loc(tag)) && err == nil ==> len(r) == area(hdr, tag).entries[loc(tag)].count && (forall k: int :: {r[k]} 0 <= k && k < len(r) ==> r[k] == strat(area(hdr, tag).entries[loc(tag)], k))
  ensures [C05] split: loc(tag) == 1027 && !has(area(hdr, tag).entries, 1027) && err == nil ==> len(r) == npaths(area(hdr, tag)) && (forall k: int :: {r[k]} 0 <= k && k < len(r) ==> r[k] == pathat(area(hdr, tag), k))

func (hdr *RpmHeader) GetString(tag) (r, err)
  opt safe-C02
  requires wfr(hdr)
  ensures [C05,C22] single: loc(tag) != 1027 || has(area(hdr, tag).entries, 1027) ==> (err == nil <==> (hasstr(area(hdr, tag), loc(tag)) && area(hdr, tag).entries[loc(tag)].count == 1))
  ensures [C05,C22] value: err == nil && has(area(hdr, tag).entries, loc(tag)) ==> r == strat(area(hdr, tag).entries[loc(tag)], 0)
  ensures [C05] split: err == nil && !has(area(hdr, tag).entries, loc(tag)) ==> npaths(area(hdr, tag)) == 1 && r == pathat(area(hdr, tag), 0)

func (hdr *RpmHeader) GetInts(tag) (r, err)
  opt safe-C02
  requires wfr(hdr)
  ensures [C05] absent: !has(area(hdr, tag).entries, loc(tag)) ==> isnst(err, loc(tag))
  ensures [C05] ok: err == nil ==> hasu32(area(hdr, tag), loc(tag)) && len(r) == nint(area(hdr, tag).entries[loc(tag)])
  ensures [C05] values: err == nil ==> (forall k: int :: {r[k]} 0 <= k && k < len(r) ==> r[k] == intat(area(hdr, tag).entries[loc(tag)], k))
  ensures [C05] small: hasu32(area(hdr, tag), loc(tag)) && (forall k: int :: {intat(area(hdr, tag).entries[loc(tag)], k)} 0 <= k && k < nint(area(hdr, tag).entries[loc(tag)]) ==> intat(area(hdr, tag).entries[loc(tag)], k) < 0x80000000) ==> err == nil

func (hdr *RpmHeader) GetInt(tag) (r, err)
  opt safe-C02
  requires wfr(hdr)
  ensures [C05] absent: !has(area(hdr, tag).entries, loc(tag)) ==> isnst(err, loc(tag))
  ensures [C05] single: err == nil ==> hasu32(area(hdr, tag), loc(tag)) && nint(area(hdr, tag).entries[loc(tag)]) == 1 && r == intat(area(hdr, tag).entries[loc(tag)], 0)
  ensures [C05] small: hasu32(area(hdr, tag), loc(tag)) && nint(area(hdr, tag).entries[loc(tag)]) == 1 && intat(area(hdr, tag).entries[loc(tag)], 0) < 0x80000000 ==> err == nil

func (hdr *RpmHeader) GetUint32s(tag) (r, err)
  opt safe-C02
  requires wfr(hdr)
  ensures [C05] absent: !has(area(hdr, tag).entries, loc(tag)) ==> isnst(err, loc(tag))
  ensures [C05] ok: err == nil <==> hasu32(area(hdr, tag), loc(tag))
  ensures [C05] values: err == nil ==> len(r) == nint(area(hdr, tag).entries[loc(tag)]) && (forall k: int :: {r[k]} 0 <= k && k < len(r) ==> r[k] == intat(area(hdr, tag).entries[loc(tag)], k))

func (hdr *RpmHeader) GetUint32(tag) (r, err)
  opt safe-C02
  requires wfr(hdr)
  ensures [C05] absent: !has(area(hdr, tag).entries, loc(tag)) ==> isnst(err, loc(tag))
  ensures [C05] single: err == nil <==> (hasu32(area(hdr, tag), loc(tag)) && nint(area(hdr, tag).entries[loc(tag)]) == 1)
  ensures [C05] value: err == nil ==> r == intat(area(hdr, tag).entries[loc(tag)], 0)

func (hdr *RpmHeader) GetUint64s(tag) (r, err)
  opt safe-C02
  requires wfr(hdr)
  ensures [C05] absent: !has(area(hdr, tag).entries, loc(tag)) ==> isnst(err, loc(tag))
  ensures [C05] ok: err == nil <==> hasint(area(hdr, tag), loc(tag))
  ensures [C05] values: err == nil ==> len(r) == nint(area(hdr, tag).entries[loc(tag)]) && (forall k: int :: {r[k]} 0 <= k && k < len(r) ==> r[k] == intat(area(hdr, tag).entries[loc(tag)], k))

func (hdr *RpmHeader) GetUint64(tag) (r, err)
  opt safe-C02
  requires wfr(hdr)
  ensures [C05] absent: !has(area(hdr, tag).entries, loc(tag)) ==> isnst(err, loc(tag))
  ensures [C05] single: err == nil <==> (hasint(area(hdr, tag), loc(tag)) && nint(area(hdr, tag).entries[loc(tag)]) == 1)
  ensures [C05] value: err == nil ==> r == intat(area(hdr, tag).entries[loc(tag)], 0)

spec oneint(h, tag) = hasint(area(h, tag), loc(tag)) && nint(area(h, tag).entries[loc(tag)]) == 1

func (hdr *RpmHeader) GetUint64Fallback(intTag, longTag) (r, err)
  opt safe-C02
  requires wfr(hdr)
  ensures [C05] long: oneint(hdr, longTag) ==> err == nil && r == intat(area(hdr, longTag).entries[loc(longTag)], 0)
  ensures [C05] short: !oneint(hdr, longTag) ==> (err == nil <==> oneint(hdr, intTag))
  ensures [C05] shortval: !oneint(hdr, longTag) && err == nil ==> r == intat(area(hdr, intTag).entries[loc(intTag)], 0)

func (hdr *RpmHeader) GetBytes(tag) (r, err)
  opt safe-C02
  requires wfr(hdr)
  ensures [C05] absent: !has(area(hdr, tag).entries, loc(tag)) ==> isnst(err, loc(tag))
  ensures [C05] ok: err == nil <==> (has(area(hdr, tag).entries, loc(tag)) && area(hdr, tag).entries[loc(tag)].dataType == 7)
  ensures [C05] value: err == nil ==> same(r, area(hdr, tag).entries[loc(tag)].contents)

func (hdr *RpmHeader) InstalledSize() (r, err)
  opt safe-C02
  requires wfr(hdr)
  ensures [C05] long: oneint(hdr, 5009) ==> err == nil && (r == intat(hdr.genHeader.entries[5009], 0) || intat(hdr.genHeader.entries[5009], 0) >= 0x8000000000000000)
  ensures [C05] short: !oneint(hdr, 5009) ==> (err == nil <==> oneint(hdr, 1009))
  ensures [C05] shortval: !oneint(hdr, 5009) && err == nil ==> r == intat(hdr.genHeader.entries[1009], 0) || intat(hdr.genHeader.entries[1009], 0) >= 0x8000000000000000

func (hdr *RpmHeader) PayloadSize() (r, err)
  opt safe-C02
  requires wfr(hdr)
  ensures [C05] long: has(hdr.sigHeader.entries, 271) ==> (err == nil <==> (hasint(hdr.sigHeader, 271) && nint(hdr.sigHeader.entries[271]) == 1))
  ensures [C05] longval: has(hdr.sigHeader.entries, 271) && err == nil ==> r == intat(hdr.sigHeader.entries[271], 0) || intat(hdr.sigHeader.entries[271], 0) >= 0x8000000000000000
  ensures [C05] short: !has(hdr.sigHeader.entries, 271) ==> (err == nil <==> (hasint(hdr.sigHeader, 1007) && nint(hdr.sigHeader.entries[1007]) == 1))
  ensures [C05] shortval: !has(hdr.sigHeader.entries, 271) && err == nil ==> r == intat(hdr.sigHeader.entries[1007], 0) || intat(hdr.sigHeader.entries[1007], 0) >= 0x8000000000000000

func (hdr *RpmHeader) IsSource() (r)
  opt safe-C02
  requires hdr != nil
  ensures [C01] r == hdr.isSource

func (hdr *RpmHeader) GetRange() (r)
  opt safe-C02
  requires wfr(hdr)
  ensures [C01] r.Start == 96 + len(hdr.sigHeader.orig) && r.End == r.Start + len(hdr.genHeader.orig)

spec first(h, t) = hasstr(h, t) && 0 < h.entries[t].count
spec epochof(h) = if has(h.entries, 1003) && 0 < nint(h.entries[1003]) then intat(h.entries[1003], 0) else 0
func (hdr *rpmHeader) GetNEVRA() (r, err)
  opt safe-C02
  requires hdr != nil && wfh(hdr)
  ensures [C05] ok: err == nil <==> (first(hdr, 1000) && first(hdr, 1001) && first(hdr, 1002) && first(hdr, 1022) && (!has(hdr.entries, 1003) || hasint(hdr, 1003)))
  ensures [C05] name: err == nil ==> r != nil && r.Name == strat(hdr.entries[1000], 0)
  ensures [C05] version: err == nil ==> r.Version == strat(hdr.entries[1001], 0)
  ensures [C05] release: err == nil ==> r.Release == strat(hdr.entries[1002], 0)
  ensures [C05] arch: err == nil ==> r.Arch == strat(hdr.entries[1022], 0)
  ensures [C05] epoch: err == nil ==> r.Epoch == fmtuint(epochof(hdr), 10)

func (hdr *RpmHeader) GetNEVRA() (r, err)
  opt safe-C02
  requires wfr(hdr)
  ensures [C05] ok: err == nil <==> (first(hdr.genHeader, 1000) && first(hdr.genHeader, 1001) && first(hdr.genHeader, 1002) && first(hdr.genHeader, 1022) && (!has(hdr.genHeader.entries, 1003) || hasint(hdr.genHeader, 1003)))
  ensures [C05] value: err == nil ==> r != nil && r.Name == strat(hdr.genHeader.entries[1000], 0) && r.Version == strat(hdr.genHeader.entries[1001], 0) && r.Release == strat(hdr.genHeader.entries[1002], 0) && r.Arch == strat(hdr.genHeader.entries[1022], 0)
  ensures [C05] epoch: err == nil ==> r.Epoch == fmtuint(epochof(hdr.genHeader), 10)
