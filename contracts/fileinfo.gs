# Elements of the file list.
package github.com/sassoftware/go-rpmutils

func (fi *fileInfo) Name() (r)
  opt safe-C02
  requires fi != nil
  ensures [C06] r == fi.name
func (fi *fileInfo) Size() (r)
  opt safe-C02
  requires fi != nil
  ensures [C06] r == fi.size || (fi.size >= 0x8000000000000000 && r == fi.size - 0x10000000000000000)
func (fi *fileInfo) UserName() (r)
  opt safe-C02
  requires fi != nil
  ensures [C06] r == fi.userName
func (fi *fileInfo) GroupName() (r)
  opt safe-C02
  requires fi != nil
  ensures [C06] r == fi.groupName
func (fi *fileInfo) Flags() (r)
  opt safe-C02
  requires fi != nil
  ensures [C06] r == fi.flags
func (fi *fileInfo) Mtime() (r)
  opt safe-C02
  requires fi != nil
  ensures [C06] r == fi.mtime
func (fi *fileInfo) Digest() (r)
  opt safe-C02
  requires fi != nil
  ensures [C06] r == fi.digest
func (fi *fileInfo) Mode() (r)
  opt safe-C02
  requires fi != nil
  ensures [C06] r == fi.mode
func (fi *fileInfo) Linkname() (r)
  opt safe-C02
  requires fi != nil
  ensures [C06] r == fi.linkName
func (fi *fileInfo) Device() (r)
  opt safe-C02
  requires fi != nil
  ensures [C06] r == fi.device
func (fi *fileInfo) Inode() (r)
  opt safe-C02
  requires fi != nil
  ensures [C06] r == fi.inode
func (fi *fileInfo) fileType() (r)
  opt safe-C02
  requires fi != nil
  ensures [C06,C21] r == (fi.mode / 4096) * 4096
func (fi *fileInfo) inode64() (r)
  opt safe-C02
  requires fi != nil
  ensures [C06,C21] r == fi.device * 0x100000000 + fi.inode

# attribute arrays
spec sizetag(h) = if has(h.entries, 5008) then 5008 else 1028
spec stro(h, t) = hasstr(h, t) && h.entries[t].count == npaths(h)
spec u32o(h, t) = hasu32(h, t) && nint(h.entries[t]) == npaths(h)
spec optu32(h, t, k) = if hasu32(h, t) then intat(h.entries[t], k) else 0
spec filesok(h) = pathsok(h) && hasint(h, sizetag(h)) && nint(h.entries[sizetag(h)]) == npaths(h)
  && stro(h, 1039) && stro(h, 1040) && u32o(h, 1037) && u32o(h, 1034) && stro(h, 1035) && u32o(h, 1030) && stro(h, 1036)
  && (!hasu32(h, 1095) || u32o(h, 1095)) && (!hasu32(h, 1096) || u32o(h, 1096))
spec fi(e) = as(e, `*fileInfo`)
spec fielem(h, e, k) = is(e, `*fileInfo`) && fi(e) != nil && fi(e).name == pathat(h, k) && fi(e).size == intat(h.entries[sizetag(h)], k)
  && fi(e).userName == strat(h.entries[1039], k) && fi(e).groupName == strat(h.entries[1040], k)
  && fi(e).flags == intat(h.entries[1037], k) && fi(e).mtime == intat(h.entries[1034], k) && fi(e).digest == strat(h.entries[1035], k)
  && fi(e).mode == intat(h.entries[1030], k) && fi(e).linkName == strat(h.entries[1036], k)
  && fi(e).device == optu32(h, 1095, k) && fi(e).inode == optu32(h, 1096, k)

func (hdr *rpmHeader) GetFiles() (r, err)
  opt safe-C02
  requires hdr != nil && wfh(hdr)
  ensures [C06] nofiles: !has(hdr.entries, 1027) && !has(hdr.entries, 1118) ==> err == nil && len(r) == 0
  ensures [C06] consistent: err == nil ==> filesok(hdr) || (len(r) == 0 && nopaths(hdr))
  ensures [C06] accepted: filesok(hdr) ==> err == nil && len(r) == npaths(hdr)
  ensures [C06] elements: err == nil ==> (forall k: int :: {r[k]} 0 <= k && k < len(r) ==> fielem(hdr, r[k], k))
  ensures [C22] list: err == nil ==> listok(r)
  invariant [C22] list: forall k: int :: {?f:`[]FileInfo`[k]} 0 <= k && k < ?i:`int` ==> is(?f[k], `*fileInfo`) && fi(?f[k]) != nil
  invariant [C06] forall k: int :: {?f:`[]FileInfo`[k]} 0 <= k && k < ?i:`int` ==> fielem(hdr, ?f[k], k)

func (hdr *RpmHeader) GetFiles() (r, err)
  opt safe-C02
  requires wfr(hdr)
  ensures [C06] nofiles: !has(hdr.genHeader.entries, 1027) && !has(hdr.genHeader.entries, 1118) ==> err == nil && len(r) == 0
  ensures [C06] consistent: err == nil ==> filesok(hdr.genHeader) || (len(r) == 0 && nopaths(hdr.genHeader))
  ensures [C06] accepted: filesok(hdr.genHeader) ==> err == nil && len(r) == npaths(hdr.genHeader)
  ensures [C06] elements: err == nil ==> (forall k: int :: {r[k]} 0 <= k && k < len(r) ==> fielem(hdr.genHeader, r[k], k))
  ensures [C22] list: err == nil ==> listok(r)
