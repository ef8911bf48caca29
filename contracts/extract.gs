# Extracting an archive.
package github.com/sassoftware/go-rpmutils/cpio

spec below(root, p) = within(root, wl(fs(), fdirof(p)))

func inside(dest, target) (r)
  opt inline

func checkParent(root, target) (err)
  opt safe-C17, total
  ensures [C19] ok: err == nil ==> below(root, target)
  invariant [C19] within(root, wl(fs(), ?p:`string`)) ==> below(root, target)

func createFile(root, target) (f, err)
  opt safe-C17
  modifies fs()
  ensures [C19] confined: esc(fs(), root) ==> old(esc(fs(), root))
  ensures [C17,C19,C20,C22] file: err == nil ==> f != nil && fresh(f) && fname(ref(f)) == target && fmade(fs(), target)
  ensures [C20] empty: err == nil ==> wdata(f) == ""

func linkAll(root, target, names) (err)
  opt safe-C17, total
  requires [C19] fmade(fs(), target)
  modifies fs()
  ensures [C19] confined: esc(fs(), root) ==> old(esc(fs(), root))
  ensures [C20] linked: err == nil ==> (forall k: int :: {names[k]} 0 <= k && k < len(names) && names[k] != target ==> flink(fs(), names[k], target))
  invariant [C19] esc(fs(), root) ==> old(esc(fs(), root))
  invariant [C19,C20] later(fs(), old(fs()))
  invariant [C20] forall k: int :: {names[k]} 0 <= k && k < ?i:`int` && names[k] != target ==> flink(fs(), names[k], target)

spec root0(dest) = wl(old(fs()), fclean(fslash(dest)))

# what a successful extraction has done.  Entry by entry, from offset q of the data D of an archive that starts at
# offset a, into the directory x, as of file-system epoch e:
rec undot(s: str): str = if len(s) >= 3 && s[0] == 46 && s[1] == 46 && s[2] == 47 then undot(s[3:len(s)]) else s
rec cpath(x: str, s: str): str = fjoin(x, fslash(undot(pclean(s))))
spec epath(D, q, x) = cpath(x, nm(D, q))
spec ekind(D, q) = fld(D, q, 1) / 4096
spec eino(D, q) = fld(D, q, 0)
spec ehard(D, q) = newc(D, q) && ekind(D, q) == 8 && fld(D, q, 4) > 1
spec ecst(D, q, a) = if cstart(D, q, a) <= len(D) then cstart(D, q, a) else len(D)
spec enext(D, q, a) = a + up4(ecst(D, q, a) - a + fsz(D, q))
spec edata(D, q, a) = D[ecst(D, q, a) : ecst(D, q, a) + fsz(D, q)]
spec ewhole(D, q, a) = ecst(D, q, a) + fsz(D, q) <= len(D)
rec istrailer(D: str, q: int): bool = newc(D, q) && nm(D, q) == "TRAILER!!!"
# member(D,a,i,x,p): p is the path of an entry of link group i;  grp(e,D,a,i,x,p): p is a name of the file made for one
fn member(D: str, a: int, i: int, x: str, p: str): bool
fn grp(e: int, D: str, a: int, i: int, x: str, p: str): bool
axiom [C20] member_intro: forall D: str, q: int, a: int, x: str, i: int, p: str :: {member(D, a, i, x, p), reached(D, q, a)} reached(D, q, a) && ehard(D, q) && i == eino(D, q) && p == epath(D, q, x) ==> member(D, a, i, x, p)
axiom [C20] grp_intro: forall e: int, D: str, a: int, i: int, x: str, p: str, l: str :: {grp(e, D, a, i, x, p), member(D, a, i, x, l)} member(D, a, i, x, l) && fmade(e, l) && (p == l || flink(e, p, l)) ==> grp(e, D, a, i, x, p)
axiom [C20] grp_entry: forall e: int, D: str, q: int, a: int, i: int, x: str, p: str :: {grp(e, D, a, i, x, p), reached(D, q, a)} reached(D, q, a) && ehard(D, q) && i == eino(D, q) && fmade(e, epath(D, q, x)) && (p == epath(D, q, x) || flink(e, p, epath(D, q, x))) ==> grp(e, D, a, i, x, p)
axiom [C20] grp_later: forall e: int, f: int, D: str, a: int, i: int, x: str, p: str :: {later(e, f), grp(f, D, a, i, x, p)} later(e, f) && grp(f, D, a, i, x, p) ==> grp(e, D, a, i, x, p)
# entry starts: the first one, and the one after each
fn reached(D: str, q: int, a: int): bool
axiom [C20] reached_first: forall D: str, a: int :: {reached(D, a, a)} reached(D, a, a)
axiom [C20] reached_next: forall D: str, q: int, a: int :: {reached(D, q, a)} reached(D, q, a) && newc(D, q) ==> reached(D, enext(D, q, a), a)
rec entryok(e: int, D: str, q: int, a: int, x: str): bool = if ekind(D, q) == 4 then fdir(e, epath(D, q, x))
   else if ekind(D, q) == 1 then ffifo(e, epath(D, q, x))
   else if ekind(D, q) == 10 then ewhole(D, q, a) && flnk(e, epath(D, q, x), edata(D, q, a))
   else if ekind(D, q) == 8 then (if ehard(D, q) && fsz(D, q) == 0 then grp(e, D, a, eino(D, q), x, epath(D, q, x)) else ewhole(D, q, a) && freg(e, epath(D, q, x), edata(D, q, a)))
   else ekind(D, q) == 2 || ekind(D, q) == 6
rec extracted(e: int, D: str, q: int, a: int, x: str): bool = istrailer(D, q) || (newc(D, q) && entryok(e, D, q, a, x) && extracted(e, D, enext(D, q, a), a, x))

spec EX(dest) = fclean(fslash(dest))

func Extract(rs, dest) (err)
  opt safe-C17, patient
  requires rs != nil
  modifies fs(), stream(rs)
  ensures [C19] confined: esc(fs(), root0(dest)) ==> old(esc(fs(), root0(dest)))
  ensures [C17,C22] none: err != nil || err == nil
  ensures [C20] reproduced: err == nil ==> extracted(fs(), rdata(rs), old(rpos(rs)), old(rpos(rs)), EX(dest))
  invariant [C19] esc(fs(), root0(dest)) ==> old(esc(fs(), root0(dest)))
  invariant [C17,C19,C20,C22] wf: wfcs(?s:`*CpioStream`) && ?s.stream.stream == rs
  invariant [C20] at: org(?s:`*CpioStream`.stream) == old(rpos(rs)) && orderly(?s)
  invariant [C20] reached: reached(rdata(rs), nextat(?s:`*CpioStream`), old(rpos(rs)))
  invariant [C20] path: undot(?t:`string`) == undot(pclean(?e:`*CpioEntry`.Header.filename))
  invariant [C17,C19,C20,C22] lists: forall i: int :: {has(?m:`map[int][]string`, i)} has(?m, i) ==> 0 < len(?m[i])
  invariant [C19,C20] linked: forall i: int :: {has(?m:`map[int][]string`, i)} {has(?l:`map[int]bool`, i)} has(?l, i) && ?l[i] ==> has(?m, i) && fmade(fs(), ?m[i][0])
  invariant [C20] members: forall i: int, k: int :: {?m:`map[int][]string`[i][k]} has(?m, i) && 0 <= k && k < len(?m[i]) ==> member(rdata(rs), old(rpos(rs)), i, EX(dest), ?m[i][k])
  invariant [C20] done: forall e: int :: {extracted(e, rdata(rs), old(rpos(rs)), old(rpos(rs)), EX(dest))} later(e, fs()) && extracted(e, rdata(rs), nextat(?s:`*CpioStream`), old(rpos(rs)), EX(dest))
     && (forall i: int, k: int :: {?m:`map[int][]string`[i][k]} has(?m, i) && 0 <= k && k < len(?m[i]) ==> grp(e, rdata(rs), old(rpos(rs)), i, EX(dest), ?m[i][k])) ==> extracted(e, rdata(rs), old(rpos(rs)), old(rpos(rs)), EX(dest))
  invariant [C20] later: later(fs(), entry(fs()))
  invariant [C20] final: forall i: int, k: int :: {?m:`map[int][]string`[i][k]} seen(?m, i) && 0 <= k && k < len(?m[i]) ==> grp(fs(), rdata(rs), old(rpos(rs)), i, EX(dest), ?m[i][k])
