# Decoding the payload.
package github.com/sassoftware/go-rpmutils

spec fmttag(h) = has(h.genHeader.entries, 1124)
spec onlystr(h, t) = hasstr(h.genHeader, t) && h.genHeader.entries[t].count == 1
spec val(h, t) = strat(h.genHeader.entries[t], 0)
spec remaining(r) = rdata(r)[rpos(r) : len(rdata(r))]
spec gzmagic(D, p) = D[p] == 31 && D[p + 1] == 139
# how the payload of h at position p of D is compressed
spec comp(h, D, p) = if has(h.genHeader.entries, 1125) then val(h, 1125) else if gzmagic(D, p) then "gzip" else "uncompressed"
spec knowncomp(c) = c == "zstd" || c == "gzip" || c == "bzip2" || c == "lzma" || c == "xz" || c == "uncompressed"
spec content(c, s) = if c == "uncompressed" then s else decompress(c, s)
# the header says the payload is a cpio archive in a compression that is known
spec payfmt(h) = !fmttag(h) || (onlystr(h, 1124) && val(h, 1124) == "cpio")
spec paycomp(h, D, p) = (if has(h.genHeader.entries, 1125) then onlystr(h, 1125) else p + 2 <= len(D)) && knowncomp(comp(h, D, p))

func newZstdReader(r) (rd, err)
  opt inline

func uncompressRpmPayloadReader(r, hdr) (rd, err)
  opt expand
  requires r != nil && wfr(hdr)
  modifies stream(r), live()
  ensures [C22] format: err == nil ==> payfmt(hdr)
  ensures [C22] known: err == nil ==> paycomp(hdr, rdata(r), old(rpos(r)))
  ensures [C22] content: err == nil ==> rd != nil && remaining(rd) == content(comp(hdr, rdata(r), old(rpos(r))), rdata(r)[old(rpos(r)) : len(rdata(r))])
  ensures [C22] accepted: payfmt(hdr) && paycomp(hdr, rdata(r), old(rpos(r))) && decompresses(comp(hdr, rdata(r), old(rpos(r))), rdata(r)[old(rpos(r)) : len(rdata(r))]) ==> err == nil || comp(hdr, rdata(r), old(rpos(r))) == "uncompressed"
  ensures [C22] plain: payfmt(hdr) && paycomp(hdr, rdata(r), old(rpos(r))) && comp(hdr, rdata(r), old(rpos(r))) == "uncompressed" ==> err == nil
  ensures [C22] failed: err != nil ==> live() == old(live())

spec wfrpm(rpm) = rpm != nil && rpm.f != nil && wfr(rpm.Header)

func (rpm *Rpm) ExpandPayload(dest) (err)
  requires wfrpm(rpm)
  modifies stream(rpm.f), live(), fs()
  ensures [C22] released: live() == old(live())
  ensures [C22] format: err == nil ==> payfmt(rpm.Header) && paycomp(rpm.Header, rdata(rpm.f), old(rpos(rpm.f)))

func (rpm *Rpm) PayloadReader() (r, err)
  requires wfrpm(rpm)
  modifies stream(rpm.f), live()
  ensures [C22] format: err == nil ==> payfmt(rpm.Header) && paycomp(rpm.Header, rdata(rpm.f), old(rpos(rpm.f)))
  ensures [C22] content: err == nil ==> r != nil && remaining(r.stream.stream.stream) == content(comp(rpm.Header, rdata(rpm.f), old(rpos(rpm.f))), rdata(rpm.f)[old(rpos(rpm.f)) : len(rdata(rpm.f))])
  ensures [C22] failed: err != nil ==> live() == old(live())

func (rpm *Rpm) PayloadReaderExtended() (r, err)
  requires wfrpm(rpm)
  modifies stream(rpm.f), live()
  ensures [C22] format: err == nil ==> payfmt(rpm.Header) && paycomp(rpm.Header, rdata(rpm.f), old(rpos(rpm.f)))
  ensures [C22] content: err == nil ==> is(r, `*payloadReader`) && as(r, `*payloadReader`).cr.stream.stream.stream == as(r, `*payloadReader`).stream && remaining(as(r, `*payloadReader`).stream) == content(comp(rpm.Header, rdata(rpm.f), old(rpos(rpm.f))), rdata(rpm.f)[old(rpos(rpm.f)) : len(rdata(rpm.f))])
  ensures [C22] closable: err == nil && live() != old(live()) ==> implements(as(r, `*payloadReader`).stream, `io.Closer`)
