# Reading the lead and the two header areas.
package github.com/sassoftware/go-rpmutils

# fields of an area starting at offset p of the input D
spec hN(D, p) = be(D, p + 8, 4)
spec hS(D, p) = be(D, p + 12, 4)
spec dsize(D, p, sig) = if sig then (hS(D, p) + 7) / 8 * 8 else hS(D, p)
spec dbase(D, p) = p + 16 + 16 * hN(D, p)
spec hend(D, p, sig) = dbase(D, p) + dsize(D, p, sig)
# index entry i
rec ixtag(D: str, p: int, i: int): int = signed(be(D, p + 16 + 16 * i, 4), 4)
rec ixtype(D: str, p: int, i: int): int = signed(be(D, p + 16 + 16 * i + 4, 4), 4)
rec ixoff(D: str, p: int, i: int): int = signed(be(D, p + 16 + 16 * i + 8, 4), 4)
rec ixcount(D: str, p: int, i: int): int = signed(be(D, p + 16 + 16 * i + 12, 4), 4)
# last index entry below n with tag t, or -1
rec lastix(D: str, p: int, n: int, t: int): int = if n <= 0 then -1 else if ixtag(D, p, n - 1) == t then n - 1 else lastix(D, p, n - 1, t)
lemma lastrange: forall D: str, p: int, n: int, t: int :: {lastix(D, p, n, t)} -1 <= lastix(D, p, n, t) && (lastix(D, p, n, t) < n || lastix(D, p, n, t) == -1)
  by induction n
lemma lasttag: forall D: str, p: int, n: int, t: int :: {lastix(D, p, n, t)} 0 <= lastix(D, p, n, t) ==> ixtag(D, p, lastix(D, p, n, t)) == t
  by induction n
# number of value bytes of entry i within the data area A
rec ixlen(A: str, ty: int, off: int, n: int): int = if ty == 0 then 0 else if ty == 3 then 2 * n else if ty == 4 then 4 * n else if ty == 5 then 8 * n else if ty == 1 || ty == 2 || ty == 7 then n else nulend(A[off : len(A)], n)
spec darea(D, p, sig) = D[dbase(D, p) : hend(D, p, sig)]
spec ixok(D, p, sig, i) = 0 <= ixoff(D, p, i) && 0 <= ixcount(D, p, i) && 0 <= ixlen(darea(D, p, sig), ixtype(D, p, i), ixoff(D, p, i), ixcount(D, p, i))
   && ixoff(D, p, i) + ixlen(darea(D, p, sig), ixtype(D, p, i), ixoff(D, p, i), ixcount(D, p, i)) <= dsize(D, p, sig)
rec ixdata(D: str, p: int, sig: bool, i: int): str = darea(D, p, sig)[ixoff(D, p, i) : ixoff(D, p, i) + ixlen(darea(D, p, sig), ixtype(D, p, i), ixoff(D, p, i), ixcount(D, p, i))]
spec stored(D, p, sig, i, e) = e.dataType == ixtype(D, p, i) && e.count == ixcount(D, p, i)
   && str(e.contents) == ixdata(D, p, sig, i)
# the header holds exactly the index of the area at p
spec decoded(h, D, p, sig) = (forall t: int :: {has(h.entries, t)} has(h.entries, t) <==> 0 <= lastix(D, p, hN(D, p), t))
   && (forall t: int :: {h.entries[t].count} has(h.entries, t) ==> stored(D, p, sig, lastix(D, p, hN(D, p), t), h.entries[t]))

func readExact(f, n) (r, err)
  opt inline

func readHeader(f, hash, hashType, isSource, sigBlock) (h, err)
  opt safe-C02
  requires len(hash) > 0 ==> hashType == 3 || hashType == 5
  modifies stream(f)
  ensures [C01,C02,C03,C09,C22,C11,C12,C13,C14,C15] ok: err == nil ==> h != nil && wfh(h)
  ensures [C01,C11,C12,C13,C14,C15] consumed: err == nil ==> rpos(f) == hend(rdata(f), old(rpos(f)), sigBlock)
  ensures [C01,C03,C09,C11,C12,C13,C14,C15] orig: err == nil ==> str(h.orig) == rdata(f)[old(rpos(f)) : rpos(f)]
  ensures [C01,C11] source: err == nil ==> h.isSource == isSource
  ensures [C01,C11] entries: err == nil ==> decoded(h, rdata(f), old(rpos(f)), sigBlock)
  ensures [C02] bad-entry: err == nil ==> (forall i: int :: {ixoff(rdata(f), old(rpos(f)), i)} 0 <= i && i < hN(rdata(f), old(rpos(f))) ==> ixok(rdata(f), old(rpos(f)), sigBlock, i))
  ensures [C03] digest: err == nil && len(hash) > 0 ==> hexenc(digest(hashType, rdata(f)[old(rpos(f)) : rpos(f)])) == hash
  ensures [C03,C11,C12,C13,C14,C15] fresh: err == nil ==> fresh(h) && fresh(h.entries)
  invariant [C01,C02,C03,C22,C11,C12,C13,C14,C15] rp: rpos(?b:`*bytes.Reader`) == 16 * ?i:`int`
  invariant [C01,C02,C11] ob: 0 <= ?i:`int` && ?i <= hN(rdata(f), old(rpos(f)))
  invariant [C01,C11] has: forall t: int :: {has(?m:`map[int]entry`, t)} has(?m, t) <==> 0 <= lastix(rdata(f), old(rpos(f)), ?i:`int`, t)
  invariant [C01,C11] stored1: forall t: int :: {has(?m:`map[int]entry`, t)} has(?m, t) ==> ?m[t].dataType == ixtype(rdata(f), old(rpos(f)), lastix(rdata(f), old(rpos(f)), ?i:`int`, t)) && ?m[t].count == ixcount(rdata(f), old(rpos(f)), lastix(rdata(f), old(rpos(f)), ?i:`int`, t))
  invariant [C01,C11] stored2: forall t: int :: {has(?m:`map[int]entry`, t)} has(?m, t) ==> str(?m[t].contents) == ixdata(rdata(f), old(rpos(f)), sigBlock, lastix(rdata(f), old(rpos(f)), ?i:`int`, t))
  invariant [C01,C02,C03,C09,C22,C11,C12,C13,C14,C15] wf: forall t: int :: {has(?m:`map[int]entry`, t)} has(?m, t) ==> wfent(?m[t])
  invariant [C02] okbelow: forall k: int :: {ixoff(rdata(f), old(rpos(f)), k)} 0 <= k && k < ?i:`int` ==> ixok(rdata(f), old(rpos(f)), sigBlock, k)
  invariant [C01,C02,C03,C09,C22,C11,C12,C13,C14,C15] nul: ?o:`int32` <= ?e:`int` && ?e == ?o + nulend(darea(rdata(f), old(rpos(f)), sigBlock)[?o : dsize(rdata(f), old(rpos(f)), sigBlock)], ?i:`int`)

# the recorded digest of the general header, hex; SHA-256 wins over SHA-1
spec recorded(h, t) = if hasstr(h, t) && 0 < h.entries[t].count then strat(h.entries[t], 0) else ""
spec havesha256(h) = recorded(h, 273) != ""
spec wanted(h) = if havesha256(h) then recorded(h, 273) else recorded(h, 269)

func getSha1(sigHeader) (r)
  requires sigHeader != nil && wfh(sigHeader)
  ensures [C03,C12,C13,C11] value: r == recorded(sigHeader, 269)

func getSha256(sigHeader) (r)
  requires sigHeader != nil && wfh(sigHeader)
  ensures [C03,C12,C13,C11] value: r == recorded(sigHeader, 273)

func getHashAndType(sigHeader) (r, t)
  requires sigHeader != nil && wfh(sigHeader)
  ensures [C03,C12,C13,C11] value: r == wanted(sigHeader)
  ensures [C03,C11,C12,C13] type: t == (if havesha256(sigHeader) then 5 else 3)

func readSignatureHeader(f) (lead, h, err)
  opt safe-C02
  modifies stream(f)
  ensures [C01,C02,C03,C09,C10,C22,C11,C12,C13,C14,C15] ok: err == nil ==> h != nil && wfh(h) && len(lead) == 96
  ensures [C03,C11,C12,C13,C14,C15] fresh: err == nil ==> fresh(h) && fresh(h.entries)
  ensures [C01,C09,C10,C11,C14,C15] lead: err == nil ==> str(lead) == rdata(f)[old(rpos(f)) : old(rpos(f)) + 96]
  ensures [C01,C11,C12,C13,C14,C15] consumed: err == nil ==> rpos(f) == hend(rdata(f), old(rpos(f)) + 96, true)
  ensures [C01,C03,C10,C11,C12,C13,C14,C15] orig: err == nil ==> str(h.orig) == rdata(f)[old(rpos(f)) + 96 : rpos(f)]
  ensures [C01,C11] source: err == nil ==> (h.isSource <==> be(rdata(f), old(rpos(f)) + 6, 2) == 1)
  ensures [C01,C11] entries: err == nil ==> decoded(h, rdata(f), old(rpos(f)) + 96, true)

# what reading an input D from offset p up to q yields
spec sigend(D, p) = hend(D, p + 96, true)
spec readok(h, D, p, q) = q == hend(D, sigend(D, p), false) && decoded(h.sigHeader, D, p + 96, true) && decoded(h.genHeader, D, sigend(D, p), false)
   && str(h.lead) == D[p : p + 96] && str(h.sigHeader.orig) == D[p + 96 : sigend(D, p)] && str(h.genHeader.orig) == D[sigend(D, p) : q]
   && (h.isSource <==> be(D, p + 6, 2) == 1) && (h.sigHeader.isSource <==> h.isSource) && (h.genHeader.isSource <==> h.isSource)
spec genok(h) = wanted(h.sigHeader) != "" ==> hexenc(digest(if havesha256(h.sigHeader) then 5 else 3, str(h.genHeader.orig))) == wanted(h.sigHeader)

func ReadHeader(f) (h, err)
  opt safe-C02
  modifies stream(f)
  ensures [C01,C02,C03,C09,C10,C22,C11,C12,C13,C14,C15] ok: err == nil ==> wfr(h) && len(h.lead) == 96
  ensures [C14,C15] lead: err == nil ==> str(h.lead) == rdata(f)[old(rpos(f)) : old(rpos(f)) + 96] && old(rpos(f)) + 96 + len(h.sigHeader.orig) == sigend(rdata(f), old(rpos(f))) && sigend(rdata(f), old(rpos(f))) <= len(rdata(f)) && h.sigHeader != nil && h.sigHeader.entries != nil
  ensures [C01,C09,C10] decoded: err == nil ==> readok(h, rdata(f), old(rpos(f)), rpos(f))
  ensures [C01,C03] span: err == nil ==> str(h.genHeader.orig) == rdata(f)[rpos(f) - len(h.genHeader.orig) : rpos(f)]
  ensures [C03] digest: err == nil ==> genok(h)

func ReadRpm(f) (r, err)
  opt safe-C02
  modifies stream(f)
  ensures [C01,C02,C03,C22,C11,C12,C13,C14,C15] ok: err == nil ==> r != nil && wfr(r.Header) && len(r.Header.lead) == 96
  ensures [C01,C02,C22] stream: err == nil ==> r.f == f
  ensures [C01] decoded: err == nil ==> readok(r.Header, rdata(f), old(rpos(f)), rpos(f))
  ensures [C03] digest: err == nil ==> genok(r.Header)

func (hdr *RpmHeader) OriginalSignatureHeaderSize() (n)
  opt safe-C02
  requires wfr(hdr)
  ensures [C01,C10] n == 96 + len(hdr.sigHeader.orig)
