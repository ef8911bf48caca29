# Iterating the payload with the file list.
package github.com/sassoftware/go-rpmutils

# what the file list says about element k
spec fe(files, k) = as(files[k], `*fileInfo`)
spec listok(files) = forall k: int :: {files[k]} 0 <= k && k < len(files) ==> is(files[k], `*fileInfo`) && fe(files, k) != nil
spec isreg(f) = f.mode / 4096 == 8
spec issym(f) = f.mode / 4096 == 10
spec node(f) = f.device * 0x100000000 + f.inode
spec s64(n) = if n >= 0x8000000000000000 then n - 0x10000000000000000 else n
# a later regular file is the same file
spec linked(files, k) = isreg(fe(files, k)) && node(fe(files, k)) != 0
   && (exists j: int :: {files[j]} k < j && j < len(files) && isreg(fe(files, j)) && node(fe(files, j)) == node(fe(files, k)))
spec paysize(files, link, k) = if isreg(fe(files, k)) then (if link then 0 else s64(fe(files, k).size)) else if issym(fe(files, k)) then len(fe(files, k).linkName) else 0

spec wfpr(pr) = pr != nil && pr.stream != nil && wfrd(pr.cr) && len(pr.isLink) == len(pr.files) && 0 <= pr.index
   && (forall k: int :: {pr.files[k]} 0 <= k && k < len(pr.files) ==> pr.files[k] != nil)
   && (forall s: str :: {has(pr.fileMap, s)} has(pr.fileMap, s) ==> 0 <= pr.fileMap[s] && pr.fileMap[s] < len(pr.files) && pr.files[pr.fileMap[s]].name == s)
   && (forall k: int :: {pr.files[k]} 0 <= k && k < len(pr.files) ==> has(pr.fileMap, pr.files[k].name))

func newPayloadReader(r, files) (pr)
  opt safe-C17
  requires r != nil && listok(files)
  ensures [C17,C21] wf: wfpr(pr) && fresh(pr) && pr.stream == r && pr.cr.cur == nil && pr.cr.stream.nextPos == 0 && pr.cr.stream.stream.curPos == 0 && pr.cr.stream.stream.stream == r
  ensures [C22] stream: fresh(pr) && pr.stream == r && pr.cr.stream.stream.stream == r
  ensures [C17,C21] list: len(pr.files) == len(files) && len(pr.cr.stream.sizes) == len(files)
  ensures [C21] elements: forall k: int :: {pr.files[k]} 0 <= k && k < len(files) ==> pr.files[k] == fe(files, k)
  ensures [C21] names: forall k: int :: {pr.files[k]} 0 <= k && k < len(files) ==> has(pr.fileMap, fe(files, k).name)
  ensures [C21] links: forall k: int :: {pr.isLink[k]} 0 <= k && k < len(files) ==> (pr.isLink[k] <==> linked(files, k))
  ensures [C21] sizes: forall k: int :: {pr.cr.stream.sizes[k]} 0 <= k && k < len(files) ==> pr.cr.stream.sizes[k] == paysize(files, pr.isLink[k], k)
  invariant [C17,C21] inames: forall s: str :: {has(?m:`map[string]int`, s)} has(?m, s) ==> 0 <= ?m[s] && ?m[s] < ?i:`int` && fe(files, ?m[s]).name == s
  invariant [C17,C21] inamed: forall k: int :: {files[k]} 0 <= k && k < ?i:`int` ==> has(?m:`map[string]int`, fe(files, k).name)
  invariant [C17,C21] ifiles: forall k: int :: {?f:`[]*fileInfo`[k]} 0 <= k && k < ?i:`int` ==> ?f[k] == fe(files, k)
  invariant [C17,C21] ilast: forall t: int :: {has(?m:`map[uint64]int`, t)} has(?m, t) ==> 0 <= ?m[t] && ?m[t] < ?i:`int` && isreg(fe(files, ?m[t])) && node(fe(files, ?m[t])) == t
  invariant [C21] inode: forall k: int :: {files[k]} 0 <= k && k < ?i:`int` && isreg(fe(files, k)) ==> has(?m:`map[uint64]int`, node(fe(files, k))) && k <= ?m[node(fe(files, k))]
  invariant [C21] ilinks: forall k: int :: {?l:`[]bool`[k]} 0 <= k && k < len(files) ==> (?l[k] <==> k < ?i:`int` && isreg(fe(files, k)) && node(fe(files, k)) != 0 && ?m:`map[uint64]int`[node(fe(files, k))] != k)
  invariant [C21] isizes: forall k: int :: {?s:`[]int64`[k]} 0 <= k && k < len(files) ==> ?s[k] == (if k < ?i:`int` then paysize(files, ?l:`[]bool`[k], k) else 0)

spec norm(s) = if len(s) > 1 && s[0] == 46 && s[1] == 47 then s[1 : len(s)] else s
spec PD(pr) = RD(pr.cr)
spec pat(pr) = at(pr.cr)

func (pr *payloadReader) Next() (info, err)
  opt safe-C17
  requires wfpr(pr)
  modifies stream(pr.cr.stream.stream), pr.cr.stream.nextPos, pr.cr.cur, pr.index, closed(pr.stream)
  ensures [C17,C21] wf: wfpr(pr)
  ensures [C22] end: err == EOF() && implements(pr.stream, `io.Closer`) ==> closed(pr.stream) > old(closed(pr.stream))
  ensures [C22] open: err == nil ==> closed(pr.stream) == old(closed(pr.stream))
  ensures [C21] element: err == nil ==> 0 <= pr.index && pr.index < len(pr.files) && is(info, `*fileInfo`) && as(info, `*fileInfo`) == pr.files[pr.index]
  ensures [C21] named: err == nil && old(orderly(pr.cr.stream)) && !abbr(PD(pr), old(pat(pr))) ==> pr.files[pr.index].name == norm(nm(PD(pr), old(pat(pr))))
  ensures [C21] indexed: err == nil && old(orderly(pr.cr.stream)) && abbr(PD(pr), old(pat(pr))) ==> pr.index == fld(PD(pr), old(pat(pr)), 0)

  ensures [C21] accepted: old(orderly(pr.cr.stream)) && good(PD(pr), old(pat(pr)), old(org(pr.cr.stream.stream))) && nm(PD(pr), old(pat(pr))) != "TRAILER!!!" && has(pr.fileMap, norm(nm(PD(pr), old(pat(pr))))) ==> err == nil
  ensures [C21] accepted-abbreviated: old(orderly(pr.cr.stream)) && goodabbr(PD(pr), old(pat(pr)), pr.cr.stream.sizes) && len(pr.cr.stream.sizes) == len(pr.files) ==> err == nil
  ensures [C21] end: old(orderly(pr.cr.stream)) && good(PD(pr), old(pat(pr)), old(org(pr.cr.stream.stream))) && nm(PD(pr), old(pat(pr))) == "TRAILER!!!" ==> err == EOF()

func (pr *payloadReader) Read(d) (n, err)
  opt safe-C17
  requires wfpr(pr)
  modifies stream(pr.cr.stream.stream), pr.cr.cur.payload.curr_pos, elems(d)
  ensures [C17,C21] wf: wfpr(pr)
  ensures [C21] moved: pr.cr.cur != nil ==> pr.cr.cur.payload.curr_pos == old(pr.cr.cur.payload.curr_pos) + n && n <= old(left(pr.cr))
  ensures [C21] bytes: n > 0 ==> str(d[0:n]) == PD(pr)[old(rhere(pr.cr)) : old(rhere(pr.cr)) + n]
  ensures [C21] eof: pr.cr.cur != nil && err == EOF() ==> left(pr.cr) == 0

func (pr *payloadReader) IsLink() (b)
  opt safe-C17
  requires wfpr(pr)
  ensures [C21] b <==> (pr.index < len(pr.isLink) && pr.isLink[pr.index])
