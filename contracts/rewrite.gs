# Rewriting a package with another signature header.
package github.com/sassoftware/go-rpmutils

# ser(h) is, by definition, what serializing h wrote last; it is only ever appended
func (hdr *rpmHeader) WriteTo(outfile, regionTag) (err)
  opt define-text
  requires hdr != nil
  modifies writer(outfile), ser(hdr)
  ensures [C14,C15] appended: len(old(wtext(outfile))) <= len(wtext(outfile)) && wtext(outfile)[0 : len(old(wtext(outfile)))] == old(wtext(outfile))
  ensures [C14,C15] text: err == nil ==> wtext(outfile) == old(wtext(outfile)) + ser(hdr)
  invariant [C14,C15] ref(?k:`[]int`) == 0 || fresh(?k)
  invariant [C14,C15] len(old(wtext(outfile))) <= len(wtext(outfile)) && wtext(outfile)[0 : len(old(wtext(outfile)))] == old(wtext(outfile))

# the path that is written: what a symbolic link points to
spec outp(p) = if evalok(old(fs()), p) then wl(old(fs()), p) else p
spec kind0(p) = fkind(old(fs()), outp(p))
spec opened(p) = fopenw(fs(), p) && !fopenw(old(fs()), p)
spec sigarea(h) = 96 + len(h.sigHeader.orig)
spec samefile(f, p) = inodeof(fs(), p) == inodeof(0, fname(ref(f)))
# the same file holds the same bytes
spec onefile(f, p) = fkind(fs(), p) == 1 && samefile(f, p) ==> fdata(fs(), p) == rdata(f)
spec oldsame(f, p) = inodeof(old(fs()), p) == inodeof(0, fname(ref(f)))
spec rewritten(D, h) = D[0 : 96] + ser(h.sigHeader) + D[sigend(D, 0) : len(D)]
spec safeinplace(f, p) = oldsame(f, p) && nlinkof(old(fs()), p) == 1
spec samesize(h) = 96 + len(ser(h.sigHeader)) == sigarea(h)

func SignRpmFile(infile, outpath, key, opts) (h, err)
  opt noframe
  requires key != nil && infile != nil && rpos(infile) == 0
  requires onefile(infile, if evalok(fs(), outpath) then wl(fs(), outpath) else outpath)
  requires forall p: str :: {fopenw(fs(), p)} !fopenw(fs(), p)
  requires forall p: str :: {ftmp(fs(), p)} !ftmp(fs(), p)
  ensures [C14] written: err == nil && outpath != "-" && kind0(outpath) <= 1 ==> fkind(fs(), outp(outpath)) == 1 && fdata(fs(), outp(outpath)) == rewritten(rdata(infile), h)
  ensures [C14] kept: err != nil && outpath != "-" && kind0(outpath) <= 1 && !opened(outp(outpath)) ==> fkind(fs(), outp(outpath)) == kind0(outpath) && fdata(fs(), outp(outpath)) == fdata(old(fs()), outp(outpath))
  ensures [C14] nopartial: forall p: str :: {ftmp(fs(), p)} ftmp(fs(), p) && !ftmp(old(fs()), p) ==> fkind(fs(), p) == 0 || frmfail(fs(), p)
  ensures [C15] onlysafe: forall p: str :: {fopenw(fs(), p)} opened(p) ==> p == outp(outpath) && (kind0(outpath) == 1 ==> safeinplace(infile, p) && (err == nil ==> samesize(h)))
  ensures [C15] onlythere: kind0(outpath) == 1 && opened(outp(outpath)) ==> len(fdata(fs(), outp(outpath))) == len(rdata(infile)) && fdata(fs(), outp(outpath))[sigend(rdata(infile), 0) : len(rdata(infile))] == rdata(infile)[sigend(rdata(infile), 0) : len(rdata(infile))]
  ensures [C15] others: forall p: str :: {fdata(fs(), p)} p != outp(outpath) && !(ftmp(fs(), p) && !ftmp(old(fs()), p)) && !opened(p) ==> fdata(fs(), p) == fdata(old(fs()), p) && fkind(fs(), p) == fkind(old(fs()), p)

func RewriteWithSignatures(infile, outpath, sigPgp, sigRsa) (h, err)
  opt noframe
  requires infile != nil && rpos(infile) == 0
  requires onefile(infile, if evalok(fs(), outpath) then wl(fs(), outpath) else outpath)
  requires forall p: str :: {fopenw(fs(), p)} !fopenw(fs(), p)
  requires forall p: str :: {ftmp(fs(), p)} !ftmp(fs(), p)
  ensures [C14] written: err == nil && outpath != "-" && kind0(outpath) <= 1 ==> fkind(fs(), outp(outpath)) == 1 && fdata(fs(), outp(outpath)) == rewritten(rdata(infile), h)
  ensures [C14] kept: err != nil && outpath != "-" && kind0(outpath) <= 1 && !opened(outp(outpath)) ==> fkind(fs(), outp(outpath)) == kind0(outpath) && fdata(fs(), outp(outpath)) == fdata(old(fs()), outp(outpath))
  ensures [C14] nopartial: forall p: str :: {ftmp(fs(), p)} ftmp(fs(), p) && !ftmp(old(fs()), p) ==> fkind(fs(), p) == 0 || frmfail(fs(), p)
  ensures [C15] onlysafe: forall p: str :: {fopenw(fs(), p)} opened(p) ==> p == outp(outpath) && (kind0(outpath) == 1 ==> safeinplace(infile, p) && (err == nil ==> samesize(h)))
  ensures [C15] onlythere: kind0(outpath) == 1 && opened(outp(outpath)) ==> len(fdata(fs(), outp(outpath))) == len(rdata(infile)) && fdata(fs(), outp(outpath))[sigend(rdata(infile), 0) : len(rdata(infile))] == rdata(infile)[sigend(rdata(infile), 0) : len(rdata(infile))]
  ensures [C15] others: forall p: str :: {fdata(fs(), p)} p != outp(outpath) && !(ftmp(fs(), p) && !ftmp(old(fs()), p)) && !opened(p) ==> fdata(fs(), p) == fdata(old(fs()), p) && fkind(fs(), p) == fkind(old(fs()), p)
