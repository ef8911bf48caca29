# Reading cpio archives.
package github.com/sassoftware/go-rpmutils/cpio

# the counter never runs ahead of the reader; its difference is where the archive starts
spec wfcr(c) = c != nil && c.stream != nil && 0 <= c.curPos && c.curPos <= rpos(c.stream)
spec org(c) = rpos(c.stream) - c.curPos


func (cr *countingReader) Read(p) (n, err)
  opt safe-C17
  requires wfcr(cr)
  modifies stream(cr), elems(p)
  ensures [C16,C17,C18,C19,C20,C21,C22] count: 0 <= n && n <= len(p) && rpos(cr.stream) == old(rpos(cr.stream)) + n && cr.curPos == old(cr.curPos) + n
  ensures [C16,C17,C18,C19,C20,C21,C22] data: str(p[0:n]) == rdata(cr.stream)[old(rpos(cr.stream)) : rpos(cr.stream)]
  ensures [C16,C17,C18,C19,C20,C21,C22] end: err == nil || (err == rend(cr.stream) && rpos(cr.stream) == len(rdata(cr.stream)))
  ensures [C16,C17,C18,C19,C20,C21,C22] exhausted: old(rpos(cr.stream)) == len(rdata(cr.stream)) && len(p) > 0 ==> err != nil

func (cr *countingReader) Seek(offset, whence) (n, err)
  opt safe-C17
  requires wfcr(cr) && whence == 1
  modifies stream(cr)
  ensures [C16,C17,C18,C19,C20,C21,C22] still: offset <= 0 ==> cr.curPos == old(cr.curPos) && rpos(cr.stream) == old(rpos(cr.stream))
  ensures [C16,C17,C18,C19,C20,C21,C22] query: offset == 0 ==> n == cr.curPos && err == nil
  ensures [C16,C17,C18,C19,C20,C21,C22] skip: offset > 0 && err == nil && rpos(cr.stream) < len(rdata(cr.stream)) ==> rpos(cr.stream) == old(rpos(cr.stream)) + offset
  ensures [C16,C17,C18,C19,C20,C21,C22] short: offset > 0 && err == nil && rpos(cr.stream) != old(rpos(cr.stream)) + offset ==> rpos(cr.stream) == len(rdata(cr.stream)) && rpos(cr.stream) == old(rpos(cr.stream)) && rend(cr.stream) == EOF()
  ensures [C16,C21] enough: offset >= 0 && old(rpos(cr.stream)) + offset <= len(rdata(cr.stream)) ==> err == nil && rpos(cr.stream) == old(rpos(cr.stream)) + offset
  ensures [C16,C17,C18,C19,C20,C21,C22] org: wfcr(cr) && org(cr) == old(org(cr))
  ensures [C16,C17,C18,C19,C20,C21,C22] noeof: err != EOF()

spec fld(D, q, i) = hexval(D[q + 6 + 8 * i : q + 14 + 8 * i])
spec okfld(D, q, i) = ishex(D[q + 6 + 8 * i : q + 14 + 8 * i])
rec okhdr(D: str, q: int): bool = okfld(D, q, 0) && okfld(D, q, 1) && okfld(D, q, 2) && okfld(D, q, 3) && okfld(D, q, 4) && okfld(D, q, 5) && okfld(D, q, 6) && okfld(D, q, 7) && okfld(D, q, 8) && okfld(D, q, 9) && okfld(D, q, 10) && okfld(D, q, 11) && okfld(D, q, 12)
spec newc(D, q) = D[q : q + 6] == "070701"
spec abbr(D, q) = D[q : q + 6] == "07070X"

func (br *binaryReader) Read16(buf) (err)
  opt inline

func readHeader(r) (h, err)
  opt safe-C17
  requires is(r, `*countingReader`) && wfcr(as(r, `*countingReader`))
  modifies stream(r)
  ensures [C16,C17,C18,C19,C20,C21,C22] ok: err == nil ==> h != nil && fresh(h) && (h.stripped <==> abbr(rdata(r), old(rpos(r)))) && (newc(rdata(r), old(rpos(r))) || abbr(rdata(r), old(rpos(r))))
  ensures [C16] magic: err == nil ==> h.magic == rdata(r)[old(rpos(r)) : old(rpos(r)) + 6]
  ensures [C16,C17,C18,C19,C20,C21,C22] length: err == nil ==> rpos(r) == old(rpos(r)) + (if h.stripped then 14 else 110)
  ensures [C16,C17,C18,C19,C20,C21,C22] org: wfcr(as(r, `*countingReader`)) && org(as(r, `*countingReader`)) == old(org(as(r, `*countingReader`)))
  ensures [C16,C19,C20,C21,C22] ino: err == nil && !h.stripped ==> h.ino == fld(rdata(r), old(rpos(r)), 0)
  ensures [C16,C19,C20,C21,C22] mode: err == nil && !h.stripped ==> h.mode == fld(rdata(r), old(rpos(r)), 1)
  ensures [C16] uid: err == nil && !h.stripped ==> h.uid == fld(rdata(r), old(rpos(r)), 2)
  ensures [C16] gid: err == nil && !h.stripped ==> h.gid == fld(rdata(r), old(rpos(r)), 3)
  ensures [C16,C19,C20,C21,C22] nlink: err == nil && !h.stripped ==> h.nlink == fld(rdata(r), old(rpos(r)), 4)
  ensures [C16] mtime: err == nil && !h.stripped ==> h.mtime == fld(rdata(r), old(rpos(r)), 5)
  ensures [C16,C17,C18,C19,C20,C21,C22] filesize: err == nil && !h.stripped ==> h.filesize == fld(rdata(r), old(rpos(r)), 6) && h.size64 == h.filesize && 0 <= h.filesize && h.filesize < 0x100000000
  ensures [C16] devmajor: err == nil && !h.stripped ==> h.devmajor == fld(rdata(r), old(rpos(r)), 7)
  ensures [C16] devminor: err == nil && !h.stripped ==> h.devminor == fld(rdata(r), old(rpos(r)), 8)
  ensures [C16] rdevmajor: err == nil && !h.stripped ==> h.rdevmajor == fld(rdata(r), old(rpos(r)), 9)
  ensures [C16] rdevminor: err == nil && !h.stripped ==> h.rdevminor == fld(rdata(r), old(rpos(r)), 10)
  ensures [C16,C17,C18,C19,C20,C21,C22] namesize: err == nil && !h.stripped ==> h.namesize == fld(rdata(r), old(rpos(r)), 11) && 0 <= h.namesize && h.namesize < 0x100000000
  ensures [C16] check: err == nil && !h.stripped ==> h.check == fld(rdata(r), old(rpos(r)), 12)
  ensures [C16,C17,C21] hex: err == nil ==> (if h.stripped then okfld(rdata(r), old(rpos(r)), 0) else okhdr(rdata(r), old(rpos(r))))
  ensures [C16,C17,C18,C19,C20,C21,C22] unnamed: err == nil && h.stripped ==> h.filename == "" && h.filesize == 0 && h.mode == 0 && h.nlink == 0
  ensures [C16,C17,C18,C19,C20,C21,C22] index: err == nil && h.stripped ==> h.index == fld(rdata(r), old(rpos(r)), 0) && 0 <= h.index && h.index < 0x100000000
  ensures [C16,C21] accepted: old(rpos(r)) + 110 <= len(rdata(r)) && newc(rdata(r), old(rpos(r))) && okhdr(rdata(r), old(rpos(r))) ==> err == nil
  ensures [C16,C21] accepted-stripped: old(rpos(r)) + 14 <= len(rdata(r)) && abbr(rdata(r), old(rpos(r))) && okfld(rdata(r), old(rpos(r)), 0) ==> err == nil

# the content of one entry: size bytes from archive offset start_pos
spec own(s) = is(s, `*countingReader`) && wfcr(as(s, `*countingReader`))
spec cr(f) = as(f.stream, `*countingReader`)
spec wffs(f) = f != nil && own(f.stream) && 0 <= f.start_pos && 0 <= f.curr_pos && 0 <= f.size && f.curr_pos <= f.size && f.size <= 0x7fffffffffffffff - f.start_pos
# where the entry's next byte is in the underlying stream
spec here(f) = org(cr(f)) + f.start_pos + f.curr_pos
spec insync(f) = f.start_pos + f.curr_pos == cr(f).curPos

func newFileStream(stream, size) (f, err)
  opt inline

func (fs *file_stream) Read(p) (n, err)
  opt safe-C17
  requires wffs(fs)
  modifies stream(fs.stream), fs.curr_pos, elems(p)
  ensures [C16,C17,C18,C19,C20,C21,C22] wf: wffs(fs) && org(cr(fs)) == old(org(cr(fs)))
  ensures [C16,C18,C19,C20,C21,C22] bound: 0 <= n && n <= len(p) && n <= old(fs.size - fs.curr_pos)
  ensures [C16,C18,C19,C20,C21,C22] moved: fs.curr_pos == old(fs.curr_pos) + n && cr(fs).curPos == old(cr(fs).curPos) + n
  ensures [C16,C18,C19,C20,C21,C22] bytes: n > 0 ==> str(p[0:n]) == rdata(cr(fs).stream)[old(here(fs)) : old(here(fs)) + n]
  ensures [C18,C19,C20,C21,C22] inside: n > 0 ==> old(here(fs)) + n <= len(rdata(cr(fs).stream))
  ensures [C16,C18,C19,C20,C21,C22] stale: !old(insync(fs)) ==> n == 0 && err != nil
  ensures [C18,C19,C20,C21,C22] atend: old(fs.curr_pos) == fs.size ==> n == 0 && err == EOF()
  ensures [C18,C19,C20,C21,C22] eof: err == EOF() ==> fs.curr_pos == fs.size
  ensures [C18,C19,C20,C21,C22] cut: err == nil && old(fs.curr_pos) < fs.size && len(p) > 0 && old(here(fs)) == len(rdata(cr(fs).stream)) ==> false
  ensures [C18,C19,C20,C21,C22] fails: err != nil && err != EOF() && old(insync(fs)) ==> rpos(cr(fs).stream) == len(rdata(cr(fs).stream))

# a position in an archive is a multiple of four
spec up4(n) = (n + 3) / 4 * 4
spec wfcs(c) = c != nil && wfcr(c.stream) && 0 <= c.nextPos && c.nextPos % 4 == 0
spec wfpay(c, e) = e != nil && e.Header != nil && wffs(e.payload) && cr(e.payload) == c.stream
# the entry that starts at offset q of the data D of an archive that starts at offset a
spec ns(D, q) = fld(D, q, 11)
spec fsz(D, q) = fld(D, q, 6)
spec cstart(D, q, a) = if abbr(D, q) then q + 14 else a + up4(q - a + 110 + ns(D, q))

func NewCpioStream(stream) (r)
  opt safe-C17
  requires stream != nil
  ensures [C16,C17,C18,C19,C20,C21,C22] r != nil && fresh(r) && fresh(r.stream) && wfcs(r) && r.nextPos == 0 && r.stream.curPos == 0 && r.stream.stream == stream && len(r.sizes) == 0

func (cs *CpioStream) SetFileSizes(sizes) ()
  opt safe-C17
  requires cs != nil
  modifies cs.sizes
  ensures [C16,C17,C21] same(cs.sizes, sizes)

# where the next entry is expected, unless an earlier call failed half-way
spec nextat(c) = org(c.stream) + c.nextPos
spec orderly(c) = c.stream.curPos <= c.nextPos
spec D(c) = rdata(c.stream.stream)
spec H(e) = e.Header
spec good(D, q, a) = newc(D, q) && okhdr(D, q) && 1 <= ns(D, q) && a + up4(q - a + 110 + ns(D, q)) <= len(D)
spec goodabbr(D, q, sizes) = abbr(D, q) && q + 14 <= len(D) && okfld(D, q, 0) && fld(D, q, 0) < len(sizes) && 0 <= sizes[fld(D, q, 0)] && sizes[fld(D, q, 0)] < 0x4000000000000000

func (cs *CpioStream) ReadNextEntry() (e, err)
  opt safe-C17
  requires wfcs(cs)
  modifies stream(cs.stream), cs.nextPos
  ensures [C16,C17,C18,C19,C20,C21,C22] wf: wfcs(cs) && org(cs.stream) == old(org(cs.stream))
  ensures [C16,C17,C18,C19,C20,C21,C22] ok: err == nil ==> wfpay(cs, e) && fresh(e) && fresh(e.payload) && fresh(e.Header)
  ensures [C16,C18,C20,C21] noeof: err != EOF()
  ensures [C16,C17,C18,C19,C20,C21,C22] forward: cs.nextPos >= old(cs.nextPos)
  ensures [C16,C18,C20,C21] magic: err == nil && old(orderly(cs)) ==> (newc(D(cs), old(nextat(cs))) || abbr(D(cs), old(nextat(cs)))) && (H(e).stripped <==> abbr(D(cs), old(nextat(cs))))
  ensures [C16,C18,C20,C21] content: err == nil && old(orderly(cs)) ==> rpos(cs.stream.stream) == (if cstart(D(cs), old(nextat(cs)), old(org(cs.stream))) <= len(D(cs)) then cstart(D(cs), old(nextat(cs)), old(org(cs.stream))) else len(D(cs)))
  ensures [C16,C17,C18,C19,C20,C21,C22] payload: err == nil ==> e.payload.start_pos == cs.stream.curPos && e.payload.curr_pos == 0
  ensures [C16,C17,C18,C19,C20,C21,C22] size: err == nil ==> e.payload.size == H(e).size64 && (H(e).stripped ==> 0 <= H(e).index && H(e).index < len(cs.sizes) && H(e).size64 == cs.sizes[H(e).index]) && (!H(e).stripped ==> H(e).size64 == H(e).filesize)
  ensures [C16,C17,C18,C20,C21] next: err == nil ==> cs.nextPos == up4(cs.stream.curPos + e.payload.size) && orderly(cs)
  ensures [C16,C18,C20,C21] name: err == nil && old(orderly(cs)) && !H(e).stripped ==> 1 <= ns(D(cs), old(nextat(cs))) && H(e).filename == D(cs)[old(nextat(cs)) + 110 : old(nextat(cs)) + 109 + ns(D(cs), old(nextat(cs)))]
  ensures [C16] magicstr: err == nil && old(orderly(cs)) ==> H(e).magic == D(cs)[old(nextat(cs)) : old(nextat(cs)) + 6]
  ensures [C16,C20,C21] ino: err == nil && old(orderly(cs)) && !H(e).stripped ==> H(e).ino == fld(D(cs), old(nextat(cs)), 0)
  ensures [C16,C20,C21] mode: err == nil && old(orderly(cs)) && !H(e).stripped ==> H(e).mode == fld(D(cs), old(nextat(cs)), 1)
  ensures [C16] owner: err == nil && old(orderly(cs)) && !H(e).stripped ==> H(e).uid == fld(D(cs), old(nextat(cs)), 2) && H(e).gid == fld(D(cs), old(nextat(cs)), 3)
  ensures [C16,C20,C21] nlink: err == nil && old(orderly(cs)) && !H(e).stripped ==> H(e).nlink == fld(D(cs), old(nextat(cs)), 4)
  ensures [C16] mtime: err == nil && old(orderly(cs)) && !H(e).stripped ==> H(e).mtime == fld(D(cs), old(nextat(cs)), 5)
  ensures [C16,C18,C20,C21] filesize: err == nil && old(orderly(cs)) && !H(e).stripped ==> H(e).filesize == fld(D(cs), old(nextat(cs)), 6)
  ensures [C16] devices: err == nil && old(orderly(cs)) && !H(e).stripped ==> H(e).devmajor == fld(D(cs), old(nextat(cs)), 7) && H(e).devminor == fld(D(cs), old(nextat(cs)), 8) && H(e).rdevmajor == fld(D(cs), old(nextat(cs)), 9) && H(e).rdevminor == fld(D(cs), old(nextat(cs)), 10)
  ensures [C16] namesize: err == nil && old(orderly(cs)) && !H(e).stripped ==> H(e).namesize == ns(D(cs), old(nextat(cs))) && H(e).check == fld(D(cs), old(nextat(cs)), 12)
  ensures [C16,C18,C21] inside: err == nil && old(orderly(cs)) && !H(e).stripped ==> old(nextat(cs)) + 110 + ns(D(cs), old(nextat(cs))) <= len(D(cs))
  ensures [C16,C17,C18,C19,C20,C21,C22] unnamed: err == nil && H(e).stripped ==> H(e).filename == "" && H(e).filesize == 0 && H(e).mode == 0 && H(e).nlink == 0
  ensures [C17,C19,C20] sane: err == nil ==> 0 <= H(e).filesize && H(e).filesize < 0x100000000
  ensures [C16] hex: err == nil && old(orderly(cs)) && !H(e).stripped ==> okhdr(D(cs), old(nextat(cs)))
  ensures [C16,C21] index: err == nil && old(orderly(cs)) && H(e).stripped ==> okfld(D(cs), old(nextat(cs)), 0) && H(e).index == fld(D(cs), old(nextat(cs)), 0)
  ensures [C16,C21] accepted: old(orderly(cs)) && good(D(cs), old(nextat(cs)), old(org(cs.stream))) ==> err == nil
  ensures [C16,C21] accepted-abbreviated: old(orderly(cs)) && goodabbr(D(cs), old(nextat(cs)), cs.sizes) ==> err == nil

# the current entry lies before the next one
spec wfrd(r) = r != nil && wfcs(r.stream) && (r.cur != nil ==> wfpay(r.stream, r.cur) && r.cur.payload.start_pos + r.cur.payload.size <= r.stream.nextPos)
spec at(r) = org(r.stream.stream) + r.stream.nextPos
spec RD(r) = rdata(r.stream.stream.stream)
spec nm(D, q) = D[q + 110 : q + 109 + ns(D, q)]

func NewReader(stream) (r)
  opt safe-C17
  requires stream != nil
  ensures [C16,C17,C18,C21,C22] wfrd(r) && fresh(r) && r.cur == nil && r.stream.nextPos == 0 && r.stream.stream.curPos == 0 && r.stream.stream.stream == stream && len(r.stream.sizes) == 0

func NewReaderWithSizes(stream, sizes) (r)
  opt safe-C17
  requires stream != nil
  ensures [C16,C17,C18,C21,C22] wfrd(r) && fresh(r) && r.cur == nil && r.stream.nextPos == 0 && r.stream.stream.curPos == 0 && r.stream.stream.stream == stream && same(r.stream.sizes, sizes)

func (r *Reader) Next() (h, err)
  opt safe-C17
  requires wfrd(r)
  modifies stream(r.stream.stream), r.stream.nextPos, r.cur
  ensures [C16,C17,C18,C21] wf: wfrd(r) && org(r.stream.stream) == old(org(r.stream.stream))
  ensures [C16,C17,C18,C21] current: err == nil ==> h != nil && r.cur != nil && h == r.cur.Header && fresh(h) && fresh(r.cur) && fresh(r.cur.payload)
  ensures [C16,C18,C21] kept: err != nil ==> r.cur == old(r.cur)
  ensures [C16,C17,C18,C21] next: err == nil ==> r.stream.nextPos == up4(r.stream.stream.curPos + r.cur.payload.size) && orderly(r.stream)
  ensures [C16,C18,C21] payload: err == nil ==> r.cur.payload.start_pos == r.stream.stream.curPos && r.cur.payload.curr_pos == 0 && r.cur.payload.size == h.size64
  ensures [C16,C18,C21] magic: err == nil && old(orderly(r.stream)) ==> (newc(RD(r), old(at(r))) || abbr(RD(r), old(at(r)))) && (h.stripped <==> abbr(RD(r), old(at(r))))
  ensures [C16,C18,C21] content: err == nil && old(orderly(r.stream)) ==> rpos(r.stream.stream.stream) == (if cstart(RD(r), old(at(r)), old(org(r.stream.stream))) <= len(RD(r)) then cstart(RD(r), old(at(r)), old(org(r.stream.stream))) else len(RD(r)))
  ensures [C16,C17,C21] size: err == nil ==> (h.stripped ==> 0 <= h.index && h.index < len(r.stream.sizes) && h.size64 == r.stream.sizes[h.index]) && (!h.stripped ==> h.size64 == h.filesize)
  ensures [C16,C21] name: err == nil && old(orderly(r.stream)) && !h.stripped ==> 1 <= ns(RD(r), old(at(r))) && h.filename == nm(RD(r), old(at(r))) && h.filename != "TRAILER!!!"
  ensures [C16,C21] index: err == nil && old(orderly(r.stream)) && h.stripped ==> h.index == fld(RD(r), old(at(r)), 0)
  ensures [C16,C21] fields1: err == nil && old(orderly(r.stream)) && !h.stripped ==> h.ino == fld(RD(r), old(at(r)), 0) && h.mode == fld(RD(r), old(at(r)), 1) && h.nlink == fld(RD(r), old(at(r)), 4) && h.filesize == fld(RD(r), old(at(r)), 6)
  ensures [C16] fields2: err == nil && old(orderly(r.stream)) && !h.stripped ==> h.uid == fld(RD(r), old(at(r)), 2) && h.gid == fld(RD(r), old(at(r)), 3) && h.mtime == fld(RD(r), old(at(r)), 5) && h.namesize == ns(RD(r), old(at(r))) && h.check == fld(RD(r), old(at(r)), 12)
  ensures [C16] devices: err == nil && old(orderly(r.stream)) && !h.stripped ==> h.devmajor == fld(RD(r), old(at(r)), 7) && h.devminor == fld(RD(r), old(at(r)), 8) && h.rdevmajor == fld(RD(r), old(at(r)), 9) && h.rdevminor == fld(RD(r), old(at(r)), 10)
  ensures [C16,C18,C21] inside: err == nil && old(orderly(r.stream)) && !h.stripped ==> old(at(r)) + 110 + ns(RD(r), old(at(r))) <= len(RD(r))
  ensures [C16,C18,C21] trailer: err == EOF() && old(orderly(r.stream)) ==> newc(RD(r), old(at(r))) && 1 <= ns(RD(r), old(at(r))) && nm(RD(r), old(at(r))) == "TRAILER!!!"
  ensures [C16,C21] end: old(orderly(r.stream)) && good(RD(r), old(at(r)), old(org(r.stream.stream))) && nm(RD(r), old(at(r))) == "TRAILER!!!" ==> err == EOF()
  ensures [C16,C21] accepted: old(orderly(r.stream)) && good(RD(r), old(at(r)), old(org(r.stream.stream))) && nm(RD(r), old(at(r))) != "TRAILER!!!" ==> err == nil
  ensures [C16,C21] accepted-abbreviated: old(orderly(r.stream)) && goodabbr(RD(r), old(at(r)), r.stream.sizes) ==> err == nil

# where the current entry's next byte is
spec rhere(r) = here(r.cur.payload)
spec left(r) = r.cur.payload.size - r.cur.payload.curr_pos
spec rsync(r) = insync(r.cur.payload)

func (r *Reader) Read(p) (n, err)
  opt safe-C17
  requires wfrd(r)
  modifies stream(r.stream.stream), r.cur.payload.curr_pos, elems(p)
  ensures [C16,C17,C18,C21] wf: wfrd(r) && org(r.stream.stream) == old(org(r.stream.stream))
  ensures [C16,C18] orderly: old(orderly(r.stream)) ==> orderly(r.stream)
  ensures [C18] none: old(r.cur) == nil ==> n == 0 && err == EOF()
  ensures [C18,C21] bound: 0 <= n && n <= len(p) && (r.cur != nil ==> n <= old(left(r)))
  ensures [C18,C21] moved: r.cur != nil ==> r.cur.payload.curr_pos == old(r.cur.payload.curr_pos) + n && r.stream.stream.curPos == old(r.stream.stream.curPos) + n
  ensures [C18,C21] bytes: n > 0 ==> str(p[0:n]) == RD(r)[old(rhere(r)) : old(rhere(r)) + n] && old(rhere(r)) + n <= len(RD(r))
  ensures [C18] stale: r.cur != nil && !old(rsync(r)) ==> n == 0 && err != nil
  ensures [C18] sync: r.cur != nil && old(rsync(r)) ==> rsync(r)
  ensures [C18] atend: r.cur != nil && old(left(r)) == 0 ==> n == 0 && err == EOF()
  ensures [C18,C21] eof: r.cur != nil && err == EOF() ==> left(r) == 0
  ensures [C18] fails: r.cur != nil && err != nil && err != EOF() && old(rsync(r)) ==> rpos(r.stream.stream.stream) == len(RD(r))

func (hdr *Cpio_newc_header) Magic() (v)
  requires hdr != nil
  ensures [C16] v == hdr.magic
func (hdr *Cpio_newc_header) Ino() (v)
  requires hdr != nil
  ensures [C16,C20] v == hdr.ino
func (hdr *Cpio_newc_header) Mode() (v)
  requires hdr != nil
  ensures [C16,C17,C19,C20] v == hdr.mode
func (hdr *Cpio_newc_header) Uid() (v)
  requires hdr != nil
  ensures [C16] v == hdr.uid
func (hdr *Cpio_newc_header) Gid() (v)
  requires hdr != nil
  ensures [C16] v == hdr.gid
func (hdr *Cpio_newc_header) Nlink() (v)
  requires hdr != nil
  ensures [C16,C20] v == hdr.nlink
func (hdr *Cpio_newc_header) Mtime() (v)
  requires hdr != nil
  ensures [C16] v == hdr.mtime
func (hdr *Cpio_newc_header) Filesize() (v)
  requires hdr != nil
  ensures [C16,C20] v == hdr.filesize
func (hdr *Cpio_newc_header) Devmajor() (v)
  requires hdr != nil
  ensures [C16] v == hdr.devmajor
func (hdr *Cpio_newc_header) Devminor() (v)
  requires hdr != nil
  ensures [C16] v == hdr.devminor
func (hdr *Cpio_newc_header) Rdevmajor() (v)
  requires hdr != nil
  ensures [C16] v == hdr.rdevmajor
func (hdr *Cpio_newc_header) Rdevminor() (v)
  requires hdr != nil
  ensures [C16] v == hdr.rdevminor
func (hdr *Cpio_newc_header) Namesize() (v)
  requires hdr != nil
  ensures [C16] v == hdr.namesize
func (hdr *Cpio_newc_header) Check() (v)
  requires hdr != nil
  ensures [C16] v == hdr.check
func (hdr *Cpio_newc_header) Filename() (v)
  requires hdr != nil
  ensures [C16,C21] v == hdr.filename
func (hdr *Cpio_newc_header) IsStripped() (v)
  requires hdr != nil
  ensures [C16,C17,C21] v == hdr.stripped
func (hdr *Cpio_newc_header) Index() (v)
  requires hdr != nil
  ensures [C16,C17,C21] v == hdr.index
func (hdr *Cpio_newc_header) Filesize64() (v)
  requires hdr != nil
  ensures [C16] v == hdr.size64
