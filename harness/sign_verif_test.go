package rpmutils_test

import (
	"bytes"
	"crypto"
	"crypto/md5"
	_ "crypto/sha1"
	_ "crypto/sha256"
	_ "crypto/sha512"
	"errors"
	"fmt"
	"hash"
	"io"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/ProtonMail/go-crypto/openpgp"
	"github.com/ProtonMail/go-crypto/openpgp/packet"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

var ringOnce sync.Once
var ring []*openpgp.Entity

// testRing: two entities of the keyring, one that is not in it
func testRing() []*openpgp.Entity {
	ringOnce.Do(func() {
		ring = append(ring, testKey())
		for _, n := range []string{"second", "other"} {
			e, err := openpgp.NewEntity(n, "", n+"@example.com", &packet.Config{RSABits: 1024})
			if err != nil {
				panic(err)
			}
			ring = append(ring, e)
		}
	})
	return ring
}

var payAlgos = map[uint32]crypto.Hash{1: crypto.MD5, 2: crypto.SHA1, 8: crypto.SHA256, 9: crypto.SHA384, 10: crypto.SHA512, 11: crypto.SHA224}

func sum(h crypto.Hash, bs ...[]byte) []byte {
	x := h.New()
	for _, b := range bs {
		x.Write(b)
	}
	return x.Sum(nil)
}

type sigcase struct {
	tag  int32
	blob []byte
	ok   bool // parses, nothing else
	good bool // and validates under a key of the ring
	ho   bool
	hash crypto.Hash
	kid  uint64 // 0: not recorded
	ent  *openpgp.Entity
}

type signedPkg struct {
	b        []byte
	g        []byte // general header
	payload  []byte
	payOK    bool
	sigs     []sigcase
	rerr     error
	consumed int
}

func (r *R) mutateStr(s string) string {
	if len(s) == 0 {
		return r.word()
	}
	switch r.Intn(6) {
	case 0:
		return s[:r.Intn(len(s))]
	case 1:
		return s + r.word()
	case 2, 3:
		x := []byte(s)
		x[r.Intn(len(x))] ^= 1
		return string(x)
	case 4:
		return strings.ToUpper(s)
	}
	return r.word()
}

func makeSigBlob(r *R, e *openpgp.Entity, sub bool, hs crypto.Hash, nokid bool, data []byte) ([]byte, uint64) {
	key := e.PrivateKey
	if sub && len(e.Subkeys) > 0 {
		key = e.Subkeys[0].PrivateKey
	}
	s := &packet.Signature{SigType: packet.SigTypeBinary, CreationTime: time.Unix(1600000000+int64(r.Intn(1000)), 0), PubKeyAlgo: key.PubKeyAlgo, Hash: hs, IssuerKeyId: &key.KeyId}
	kid := key.KeyId
	if nokid {
		s.IssuerKeyId = nil
		kid = 0
	}
	h := hs.New()
	h.Write(data)
	if err := s.Sign(h, key, nil); err != nil {
		panic(err)
	}
	var buf bytes.Buffer
	if err := s.Serialize(&buf); err != nil {
		panic(err)
	}
	return buf.Bytes(), kid
}

// genSigned makes a package with payload digests and, when bad is set, possibly wrong ones
func genSigned(r *R, bad, sigs bool) *signedPkg {
	p := &signedPkg{}
	mut := func() bool { return bad && r.p(.3) }
	p.payload = r.raw(r.Intn(200))
	if r.p(.2) {
		p.payload = r.raw(33000 + r.Intn(40000))
	}
	gen, sig := &hb{}, &hb{}
	for i := r.Intn(5); i > 0; i-- {
		if t := r.tag(commonTags); t != 5092 && t != 5093 && t > 63 {
			gen.addRandom(r, t)
		}
	}
	usable, fine := false, false
	if r.p(.7) {
		algo := []uint32{1, 2, 8, 8, 8, 9, 10, 11, 3, 0, 12, uint32(r.num())}[r.Intn(12)]
		h, known := payAlgos[algo]
		v := ""
		if known {
			v = fmt.Sprintf("%x", sum(h, p.payload))
		} else {
			v = fmt.Sprintf("%x", sum(crypto.SHA256, p.payload))
		}
		w := v
		if mut() {
			v = r.mutateStr(v)
		}
		vs, as := []string{v}, []uint32{algo}
		if r.p(.1) {
			vs = append(vs, w)
			as = append(as, 8)
		}
		ty := int32(8)
		if r.p(.2) {
			ty = 6
		}
		gen.str(5092, ty, vs...)
		if !r.p(.1) {
			gen.u32(5093, as...)
			usable, fine = known, v == w
		}
	}
	p.g = gen.bytes(false)
	if r.p(.4) {
		sig.str(273, 6, fmt.Sprintf("%x", sum(crypto.SHA256, p.g)))
	}
	if r.p(.4) {
		sig.str(269, 6, fmt.Sprintf("%x", sum(crypto.SHA1, p.g)))
	}
	for i := r.Intn(4); i > 0; i-- {
		if t := r.tag(sigTags); t != 273 && t != 269 && t != 1004 && t > 63 && (t < 267 || t > 268) && t != 1002 && t != 1005 {
			sig.addRandom(r, t)
		}
	}
	if r.p(.6) {
		m := md5.Sum(append(append([]byte{}, p.g...), p.payload...))
		v := m[:]
		if mut() {
			v = []byte(r.mutateStr(string(v)))
		}
		if r.p(.05) {
			v = nil
		}
		if r.p(.05) {
			sig.str(1004, 6, "abc")
		} else {
			sig.bin(1004, v)
			if !usable && len(v) > 0 {
				usable, fine = true, bytes.Equal(v, m[:])
			}
		}
	}
	p.payOK = usable && fine
	if sigs {
		es := testRing()
		all := append(append([]byte{}, p.g...), p.payload...)
		for _, tag := range []int32{267, 268, 1002, 1005} {
			if !r.p(.45) {
				continue
			}
			c := sigcase{tag: tag, ho: tag < 1000}
			data := all
			if c.ho {
				data = p.g
			}
			right := true
			if mut() {
				right = false
				switch r.Intn(4) {
				case 0:
					data = append(append([]byte{}, data...), 0)
				case 1:
					if c.ho {
						data = all
					} else {
						data = p.g
					}
					right = len(p.payload) == 0
				case 2:
					data = p.payload
				default:
					data = append([]byte{}, data...)
					data[r.Intn(len(data))] ^= 1
				}
			}
			k := r.Intn(2)
			if mut() {
				k = 2
			}
			c.ent = es[k]
			c.hash = []crypto.Hash{crypto.SHA256, crypto.SHA256, crypto.SHA512, crypto.SHA384, crypto.SHA224}[r.Intn(5)]
			c.blob, c.kid = makeSigBlob(r, es[k], r.p(.3), c.hash, r.p(.15), data)
			c.ok, c.good = true, right && k < 2
			if bad {
				switch r.Intn(12) {
				case 0:
					c.blob = append(c.blob, r.raw(1+r.Intn(5))...)
					c.ok = false
				case 1:
					c.blob = append(c.blob, c.blob...)
					c.ok = false
				case 2:
					var buf bytes.Buffer
					es[0].PrimaryKey.Serialize(&buf)
					c.blob, c.ok = buf.Bytes(), false
				case 3:
					c.blob, c.ok = c.blob[:r.Intn(len(c.blob))], false
				}
			}
			c.good = c.good && c.ok
			sig.bin(tag, c.blob)
			p.sigs = append(p.sigs, c)
		}
	}
	p.b = pkg(r.p(.3), sig, gen, p.payload)
	if bad && r.p(.1) {
		p.rerr = []error{errors.New("input breaks off"), io.ErrUnexpectedEOF, io.ErrNoProgress, io.ErrClosedPipe}[r.Intn(4)]
		p.payOK = false
		if r.p(.5) && len(p.payload) > 0 {
			p.b = p.b[:len(p.b)-r.Intn(len(p.payload))]
		}
	}
	d := p.b
	if len(d) > 2500 {
		d = d[:2500]
	}
	r.log("payload usable and right: %v, read error %v, package (payload %d bytes): %s", p.payOK, p.rerr, len(p.payload), hexs(d))
	for _, c := range p.sigs {
		r.log("signature tag %d parses %v valid %v hash %v keyid %x", c.tag, c.ok, c.good, c.hash, c.kid)
	}
	return p
}

func (p *signedPkg) reader(r *R) *chunks {
	c := newChunks(r, p.b)
	c.err = p.rerr
	if len(p.b) > 5000 && c.mode == 2 {
		c.mode = 1
	}
	return c
}

func (p *signedPkg) opts(r *R) *rpmutils.SignatureOptions {
	if r.p(.3) {
		return nil
	}
	o := &rpmutils.SignatureOptions{}
	if r.p(.6) {
		o.Hash = []crypto.Hash{crypto.SHA256, crypto.SHA512, crypto.SHA384, crypto.SHA224}[r.Intn(4)]
	}
	if r.p(.5) {
		o.CreationTime = time.Unix(1500000000+int64(r.Intn(100000000)), 0)
		if r.p(.3) {
			o.CreationTime = time.Unix([]int64{0, 1, 1 << 31, 1<<32 - 1}[r.Intn(4)], 0)
		}
	}
	return o
}

func TestVerifC13(t *testing.T) {
	key := testKey()
	search(t, func(r *R) string {
		p := genSigned(r, true, false)
		c := p.reader(r)
		_, _, err := rpmutils.Verify(c, nil)
		if err == nil && !p.payOK {
			return "Verify succeeds although the payload has no usable, matching digest or could not be read"
		}
		if err == nil && c.pos < len(p.b) {
			return fmt.Sprintf("Verify read %d of %d bytes", c.pos, len(p.b))
		}
		if !r.p(.5) {
			return ""
		}
		c = p.reader(r)
		_, err = rpmutils.SignRpmStream(c, key.PrivateKey, p.opts(r))
		if err == nil && !p.payOK {
			return "SignRpmStream succeeds although the payload has no usable, matching digest or could not be read"
		}
		if err == nil && c.pos < len(p.b) {
			return fmt.Sprintf("SignRpmStream read %d of %d bytes", c.pos, len(p.b))
		}
		return ""
	})
}

func TestVerifC12(t *testing.T) {
	es := testRing()
	search(t, func(r *R) string {
		p := genSigned(r, r.p(.7), true)
		keys := openpgp.EntityList{es[0], es[1]}
		if r.p(.5) {
			keys[0], keys[1] = keys[1], keys[0]
		}
		if r.p(.1) {
			keys = openpgp.EntityList{}
		}
		if r.p(.2) {
			keys = nil
		}
		_, sigs, err := rpmutils.Verify(p.reader(r), keys)
		if err != nil {
			return ""
		}
		if len(sigs) != len(p.sigs) {
			return fmt.Sprintf("%d signatures reported, %d present (keyring: %d keys)", len(sigs), len(p.sigs), len(keys))
		}
		used := map[int]bool{}
		// those whose key id is known take their report first
		sort.SliceStable(p.sigs, func(i, j int) bool { return p.sigs[i].kid != 0 && p.sigs[j].kid == 0 })
		for _, c := range p.sigs {
			if !c.ok {
				return fmt.Sprintf("Verify succeeds although tag %d is not exactly one signature", c.tag)
			}
			if keys != nil && !(c.good && len(keys) > 0) {
				return fmt.Sprintf("Verify succeeds although the signature of tag %d is not valid under a key of the keyring (%d keys)", c.tag, len(keys))
			}
			found := false
			for i, s := range sigs {
				if used[i] || s.HeaderOnly != c.ho || s.Hash != c.hash || c.kid != 0 && s.KeyId != c.kid {
					continue
				}
				if keys == nil && s.Signer != nil || keys != nil && s.Signer != c.ent {
					continue
				}
				found = true
				used[i] = true
				break
			}
			if !found {
				return fmt.Sprintf("the signature of tag %d is not reported as it is: %+v (keyring: %v)", c.tag, sigs, keys != nil)
			}
		}
		return ""
	})
}

func TestVerifC11(t *testing.T) {
	es := testRing()
	search(t, func(r *R) string {
		p := genSigned(r, false, true)
		key := es[r.Intn(3)]
		o := p.opts(r)
		before := time.Now().Add(-time.Second).Truncate(time.Second)
		h, err := rpmutils.SignRpmStream(p.reader(r), key.PrivateKey, o)
		if err != nil {
			return ""
		}
		op, ok := oread(p.b)
		if !ok {
			return ""
		}
		want := crypto.SHA256
		if o != nil && o.Hash != 0 {
			want = o.Hash
		}
		r.log("options %+v", o)
		for _, x := range []struct {
			tag  int
			data [][]byte
		}{{268, [][]byte{p.g}}, {1002, [][]byte{p.g, p.payload}}} {
			q := x.tag
			if q >= 1000 {
				q += 16384
			}
			blob, err := h.GetBytes(q)
			if err != nil {
				return fmt.Sprintf("signed header: tag %d: %v", x.tag, err)
			}
			pk, err := packet.Read(bytes.NewReader(blob))
			s, ok := pk.(*packet.Signature)
			if err != nil || !ok {
				return fmt.Sprintf("signed header: tag %d is no signature: %v", x.tag, err)
			}
			var d hash.Hash = s.Hash.New()
			for _, b := range x.data {
				d.Write(b)
			}
			if err := key.PrimaryKey.VerifySignature(d, s); err != nil {
				return fmt.Sprintf("signed header: the signature of tag %d does not cover what it should: %v", x.tag, err)
			}
			if s.Hash != want {
				return fmt.Sprintf("signed header: tag %d made with %v, not %v", x.tag, s.Hash, want)
			}
			if o != nil && !o.CreationTime.IsZero() {
				if !s.CreationTime.Equal(o.CreationTime) {
					return fmt.Sprintf("signed header: tag %d created %v, not %v", x.tag, s.CreationTime, o.CreationTime)
				}
			} else if s.CreationTime.Before(before) || s.CreationTime.After(time.Now()) {
				return fmt.Sprintf("signed header: tag %d created %v, not now", x.tag, s.CreationTime)
			}
			op.sig[x.tag] = oent{7, int32(len(blob)), blob}
		}
		delete(op.sig, 267)
		delete(op.sig, 1005)
		for _, q := range []int{267, 16384 + 1005} {
			if h.HasTag(q) {
				return fmt.Sprintf("signed header: left-over signature %d", q)
			}
		}
		return checkAccess(r, h, op, p.b)
	})
}
