# Verifying and signing.
package github.com/sassoftware/go-rpmutils

# the payload digest of the general header: algorithm (0: none usable) and value
spec pgpalgo(n) = if n == 1 then 2 else if n == 2 then 3 else if n == 8 then 5 else if n == 9 then 6 else if n == 10 then 7 else if n == 11 then 4 else 0
spec haspd(h) = hasstr(h, 5092) && 0 < h.entries[5092].count && hasu32(h, 5093) && 0 < nint(h.entries[5093])
spec pdalgo(h) = if haspd(h) then pgpalgo(intat(h.entries[5093], 0)) else 0
spec pdvalue(h) = strat(h.entries[5092], 0)
spec hasmd5(h) = has(h.entries, 1004) && h.entries[1004].dataType == 7 && 0 < len(h.entries[1004].contents)
# the payload P matches what the headers record for it
spec paydigest(g, P) = pdalgo(g) != 0 ==> hexenc(digest(pdalgo(g), P)) == pdvalue(g)
spec haslegacy(s, g) = pdalgo(g) == 0 ==> hasmd5(s)
spec paymd5(s, g, P) = pdalgo(g) == 0 ==> digest(2, str(g.orig) + P) == str(s.entries[1004].contents)

func getPayloadDigest(header) (v, t)
  requires header != nil && wfh(header)
  ensures [C11,C12,C13] algo: t == pdalgo(header)
  ensures [C11,C12,C13] value: t != 0 ==> v == pdvalue(header)

# everything of f was read, and the end was a clean one
spec readall(f) = rpos(f) == len(rdata(f)) && same(rend(f), EOF())
# what follows the header areas of a package that starts at offset p of the input D
spec genend(D, p) = hend(D, sigend(D, p), false)
spec payload(D, p) = D[genend(D, p) : len(D)]
# lead and general header are those of the input
spec kept(h, D, p) = str(h.lead) == D[p : p + 96] && str(h.genHeader.orig) == D[sigend(D, p) : genend(D, p)] && str(h.sigHeader.orig) == D[p + 96 : sigend(D, p)]
   && decoded(h.genHeader, D, sigend(D, p), false)
   && (h.isSource <==> be(D, p + 6, 2) == 1) && (h.sigHeader.isSource <==> h.isSource) && (h.genHeader.isSource <==> h.isSource)

# public key k, of entity e, made the signature b of D
spec madewith(k, b, D) = pgpnames(b, k) && pgpvalid(k, b, pgphash(b), D)
spec madeby(e, b, D) = madewith(e.PrimaryKey, b, D) || (exists j: int :: {e.Subkeys[j].PublicKey} 0 <= j && j < len(e.Subkeys) && madewith(e.Subkeys[j].PublicKey, b, D))
spec inring(e, keys) = exists i: int :: {keys[i]} 0 <= i && i < len(keys) && keys[i] == e
# e holds one well-formed signature and nothing else
spec sigentry(e) = e.dataType == 7 && pgpissig(str(e.contents)) && pgplen(str(e.contents)) == len(e.contents)
# s describes the signature b, over D
spec reports(s, b, headeronly, D, keys) = (s.HeaderOnly <==> headeronly) && s.Hash == pgphash(b) && s.CreationTime == pgptime(b)
   && (pgphaskid(b) && pgpkid(b) != 0 ==> s.KeyId == pgpkid(b))
   && (if keys == nil then s.Signer == nil else inring(s.Signer, keys) && madeby(s.Signer, b, D))
spec reported(sigs, b, ho, D, keys) = (0 < len(sigs) && reports(sigs[0], b, ho, D, keys)) || (1 < len(sigs) && reports(sigs[1], b, ho, D, keys))
   || (2 < len(sigs) && reports(sigs[2], b, ho, D, keys)) || (3 < len(sigs) && reports(sigs[3], b, ho, D, keys))
spec checked(s, t, sigs, ho, D, keys) = has(s.entries, t) ==> sigentry(s.entries[t]) && reported(sigs, str(s.entries[t].contents), ho, D, keys)
spec one(c) = if c then 1 else 0

func findKey(sig, knownKeys) (e, k)
  ensures [C12] ring: k != nil ==> inring(e, knownKeys)
  ensures [C12] key: k != nil ==> pgpnames(pgpblob(sig), k) && (k == e.PrimaryKey || (exists j: int :: {e.Subkeys[j].PublicKey} 0 <= j && j < len(e.Subkeys) && k == e.Subkeys[j].PublicKey))

func Verify(stream, knownKeys) (h, sigs, err)
  opt merge
  modifies stream(stream)
  ensures [C03] digest: err == nil ==> genok(h)
  ensures [C13] end: err == nil ==> readall(stream)
  ensures [C13] recorded: err == nil ==> paydigest(h.genHeader, payload(rdata(stream), old(rpos(stream))))
  ensures [C13] usable: err == nil ==> haslegacy(h.sigHeader, h.genHeader)
  ensures [C13] legacy: err == nil ==> paymd5(h.sigHeader, h.genHeader, payload(rdata(stream), old(rpos(stream))))
  ensures [C12] number: err == nil ==> len(sigs) == one(has(h.sigHeader.entries, 267)) + one(has(h.sigHeader.entries, 268)) + one(has(h.sigHeader.entries, 1002)) + one(has(h.sigHeader.entries, 1005))
  ensures [C12] dsa: err == nil ==> checked(h.sigHeader, 267, sigs, true, str(h.genHeader.orig), knownKeys)
  ensures [C12] rsa: err == nil ==> checked(h.sigHeader, 268, sigs, true, str(h.genHeader.orig), knownKeys)
  ensures [C12] pgp: err == nil ==> checked(h.sigHeader, 1002, sigs, false, str(h.genHeader.orig) + payload(rdata(stream), old(rpos(stream))), knownKeys)
  ensures [C12] gpg: err == nil ==> checked(h.sigHeader, 1005, sigs, false, str(h.genHeader.orig) + payload(rdata(stream), old(rpos(stream))), knownKeys)
  ensures [C12] orig: err == nil ==> str(h.genHeader.orig) == rdata(stream)[sigend(rdata(stream), old(rpos(stream))) : genend(rdata(stream), old(rpos(stream)))]

# the hash a signature is to be made with
spec sighash(o) = if o != nil && o.Hash != 0 then o.Hash else 5
# entry e holds a signature of D
spec signs(e, D, key, o) = e.dataType == 7 && e.count == len(e.contents) && serdata(str(e.contents)) == D
   && serkey(str(e.contents)) == key && serkid(str(e.contents)) == key.PublicKey.KeyId && seralgo(str(e.contents)) == key.PublicKey.PubKeyAlgo && sertype(str(e.contents)) == 0
spec hashed(e, o) = seralg(str(e.contents)) == sighash(o) && serhash(str(e.contents)) == sighash(o)
spec timed(e, o) = if o != nil && !tzero(o.CreationTime) then sertime(str(e.contents)) == o.CreationTime else isnow(sertime(str(e.contents)))
spec sigtag(t) = t == 1002 || t == 268 || t == 1005 || t == 267

func SignRpmStream(stream, key, opts) (h, err)
  opt merge
  requires key != nil
  modifies stream(stream)
  ensures [C03] digest: err == nil ==> genok(h)
  ensures [C13] end: err == nil ==> readall(stream)
  ensures [C13] recorded: err == nil ==> paydigest(h.genHeader, payload(rdata(stream), old(rpos(stream))))
  ensures [C13] usable: err == nil ==> haslegacy(h.sigHeader, h.genHeader)
  ensures [C13] legacy: err == nil ==> paymd5(h.sigHeader, h.genHeader, payload(rdata(stream), old(rpos(stream))))
  ensures [C11] made: err == nil ==> has(h.sigHeader.entries, 268) && has(h.sigHeader.entries, 1002)
  ensures [C11] header: err == nil ==> signs(h.sigHeader.entries[268], rdata(stream)[sigend(rdata(stream), old(rpos(stream))) : genend(rdata(stream), old(rpos(stream)))], key, opts)
  ensures [C11] all: err == nil ==> signs(h.sigHeader.entries[1002], rdata(stream)[sigend(rdata(stream), old(rpos(stream))) : len(rdata(stream))], key, opts)
  ensures [C11] hash: err == nil ==> hashed(h.sigHeader.entries[268], opts) && hashed(h.sigHeader.entries[1002], opts)
  ensures [C11] time: err == nil ==> timed(h.sigHeader.entries[268], opts) && timed(h.sigHeader.entries[1002], opts)
  ensures [C11] others: err == nil ==> !has(h.sigHeader.entries, 1005) && !has(h.sigHeader.entries, 267)
  ensures [C11] tags: err == nil ==> (forall t: int :: {has(h.sigHeader.entries, t)} !sigtag(t) ==> (has(h.sigHeader.entries, t) <==> 0 <= lastix(rdata(stream), old(rpos(stream)) + 96, hN(rdata(stream), old(rpos(stream)) + 96), t)))
  ensures [C11] values: err == nil ==> (forall t: int :: {h.sigHeader.entries[t].count} has(h.sigHeader.entries, t) && !sigtag(t) ==> stored(rdata(stream), old(rpos(stream)) + 96, true, lastix(rdata(stream), old(rpos(stream)) + 96, hN(rdata(stream), old(rpos(stream)) + 96), t), h.sigHeader.entries[t]))
  ensures [C14,C15] lead: err == nil ==> str(h.lead) == rdata(stream)[old(rpos(stream)) : old(rpos(stream)) + 96] && old(rpos(stream)) + 96 + len(h.sigHeader.orig) == sigend(rdata(stream), old(rpos(stream))) && sigend(rdata(stream), old(rpos(stream))) <= len(rdata(stream)) && h.sigHeader != nil && h.sigHeader.entries != nil
  ensures [C11] kept: err == nil ==> kept(h, rdata(stream), old(rpos(stream)))
