package rpmutils_test

import (
	"crypto/sha1"
	"crypto/sha256"
	"errors"
	"fmt"
	"path"
	"reflect"
	"strings"
	"testing"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

var commonTags = []int32{62, 63, 1000, 1001, 1002, 1003, 1009, 1022, 1027, 1028, 1030, 1034, 1035, 1036, 1037, 1039, 1040, 1095, 1096, 1116, 1117, 1118, 1124, 1125, 5008, 5009, 5092, 5093}
var sigTags = []int32{62, 267, 268, 269, 270, 271, 273, 1000, 1002, 1004, 1005, 1007, 1008, 999, 100, 1001, 5000}

func (r *R) tag(list []int32) int32 {
	switch r.Intn(8) {
	case 0:
		return int32(r.num())
	case 1:
		return int32(1000 + r.Intn(200))
	}
	return list[r.Intn(len(list))]
}

func genArea(r *R, list []int32) *hb {
	h := &hb{}
	n := r.Intn(9)
	for i := 0; i < n; i++ {
		if r.p(.1) {
			h.data = append(h.data, r.raw(r.Intn(9))...)
		}
		t := r.tag(list)
		if len(h.idx) > 0 && r.p(.2) {
			t = h.idx[r.Intn(len(h.idx))].tag // repeated
		}
		h.addRandom(r, t)
	}
	if r.p(.2) {
		h.data = append(h.data, r.raw(r.Intn(20))...)
	}
	if len(h.idx) > 1 && r.p(.3) {
		r.Shuffle(len(h.idx), func(i, j int) { h.idx[i], h.idx[j] = h.idx[j], h.idx[i] })
	}
	return h
}

func (h *hb) corrupt(r *R) {
	if len(h.idx) == 0 {
		return
	}
	e := &h.idx[r.Intn(len(h.idx))]
	near := func() int32 {
		switch r.Intn(4) {
		case 0:
			return int32(len(h.data)) + int32(r.Intn(9)-4)
		case 1:
			return -int32(r.Intn(9))
		case 2:
			return int32(r.num())
		}
		return int32(r.Intn(2*len(h.data) + 4))
	}
	switch r.Intn(4) {
	case 0:
		e.off = near()
	case 1:
		e.cnt = near()
	case 2:
		e.typ = int32(r.num())
	case 3:
		e.off, e.cnt = near(), near()
	}
}

// genPkg makes a package, usually well formed
func genPkg(r *R) []byte {
	sig, gen := genArea(r, sigTags), genArea(r, commonTags)
	if r.p(.5) {
		// random digests would be rejected; keep them rare
		drop := func(h *hb) {
			var k []ient
			for _, e := range h.idx {
				if e.tag != 273 && e.tag != 269 {
					k = append(k, e)
				}
			}
			h.idx = k
		}
		drop(sig)
	}
	if r.p(.4) {
		addFiles(r, gen)
	}
	if r.p(.4) {
		identityEntries(r, gen)
	}
	if r.p(.3) {
		gen.corrupt(r)
	}
	if r.p(.15) {
		sig.corrupt(r)
	}
	if r.p(.3) {
		g := gen.bytes(false)
		if r.p(.5) {
			sig.str(273, 6, fmt.Sprintf("%x", sha256.Sum256(g)))
		} else {
			sig.str(269, 6, fmt.Sprintf("%x", sha1.Sum(g)))
		}
	}
	b := pkg(r.p(.3), sig, gen, r.raw(r.Intn(50)))
	if r.p(.1) {
		b = b[:1+r.Intn(len(b)-1)]
	}
	if r.p(.1) {
		for k := r.Intn(3); k >= 0; k-- {
			b[r.Intn(len(b))] = byte(r.Intn(256))
		}
	}
	return b
}

// addFiles adds mostly consistent file arrays
func addFiles(r *R, h *hb) {
	n := 1 + r.Intn(5)
	if r.p(.1) {
		n = r.Intn(40)
	}
	cnt := func() int {
		if r.p(.02) {
			return r.Intn(n + 2)
		}
		return n
	}
	strsN := func(k int) []string {
		v := make([]string, k)
		for i := range v {
			v[i] = r.word()
		}
		return v
	}
	u32s := func(k int) []uint32 {
		v := make([]uint32, k)
		for i := range v {
			v[i] = uint32(r.num())
		}
		return v
	}
	skip := func() bool { return r.p(.03) }
	if r.p(.4) {
		h.str(1027, 8, strsN(cnt())...)
	} else {
		nd := 1 + r.Intn(4)
		dirs := strsN(nd)
		for i := range dirs {
			dirs[i] = "/" + dirs[i] + "/"
			if r.p(.2) {
				dirs[i] = r.word()
			}
		}
		di := make([]uint32, cnt())
		for i := range di {
			di[i] = uint32(r.Intn(nd))
			if r.p(.02) {
				di[i] = uint32(r.num())
			}
		}
		if !skip() {
			h.str(1118, 8, dirs...)
		}
		if !skip() {
			h.u32(1116, di...)
		}
		if !skip() {
			h.str(1117, 8, strsN(cnt())...)
		}
	}
	sz := func() {
		v := make([]uint64, cnt())
		for i := range v {
			v[i] = uint64(r.num())
		}
		h.u64(5008, v...)
	}
	switch r.Intn(5) {
	case 0:
		sz()
		h.u32(1028, u32s(cnt())...)
	case 1:
		sz()
	case 2:
	default:
		h.u32(1028, u32s(cnt())...)
	}
	for _, t := range []int32{1039, 1040, 1035, 1036} {
		if !skip() {
			h.str(t, 8, strsN(cnt())...)
		}
	}
	for _, t := range []int32{1037, 1034, 1030, 1095, 1096} {
		if skip() || (t >= 1095 && r.p(.2)) {
			continue
		}
		if t == 1030 && r.p(.7) {
			v := make([]uint16, cnt())
			for i := range v {
				v[i] = []uint16{0o100644, 0o040755, 0o120777, 0o100755, 0o010644}[r.Intn(5)]
			}
			h.u16(t, v...)
			continue
		}
		if skip() {
			h.addRandom(r, t)
			continue
		}
		h.u32(t, u32s(cnt())...)
	}
}

func queryTags(r *R, o *opkg) []int {
	var ts []int
	if o != nil {
		for t := range o.sig {
			if t > 0 && t < 1<<20 {
				ts = append(ts, t+16384)
			}
			ts = append(ts, t)
		}
		for t := range o.gen {
			ts = append(ts, t)
		}
	}
	for i := 0; i < 6; i++ {
		ts = append(ts, int(r.tag(commonTags)), 16384+int(r.tag(sigTags)))
	}
	return append(ts, 1027, 0, 999, 1000, 16384, 16385, 16383, 16384+1000, 16384+999, 16384+1027)
}

func absentErr(err error, tag int) bool {
	var e rpmutils.NoSuchTagError
	return errors.As(err, &e) && e.Tag == tag
}

// expected split paths
func opaths(ents map[int]oent) (v []string, ok bool, none bool) {
	if e, h := ents[1027]; h {
		v, ok = e.strs()
		return v, ok, false
	}
	d, h1 := ents[1118]
	x, h2 := ents[1116]
	b, h3 := ents[1117]
	none = !h1 || !h2 || !h3
	if none {
		return nil, false, true
	}
	ds, ok1 := d.strs()
	xs, ok2 := x.ints()
	bs, ok3 := b.strs()
	if !ok1 || !ok2 || !ok3 || x.typ == 5 || len(xs) != len(bs) {
		return nil, false, false
	}
	v = []string{}
	for i := range bs {
		if xs[i] >= uint64(len(ds)) {
			return nil, false, false
		}
		v = append(v, path.Join(ds[xs[i]], bs[i]))
	}
	return v, true, false
}

func eqv(a, b interface{}) bool { return reflect.DeepEqual(a, b) }

// compare the package-level accessors with the stored values
func checkAccess(r *R, h *rpmutils.RpmHeader, o *opkg, b []byte) string {
	for _, q := range queryTags(r, o) {
		ents, t := o.area(q)
		e, has := ents[t]
		bad := func(what string, got interface{}, err error, want interface{}) string {
			return fmt.Sprintf("tag %d (area tag %d, type %d count %d data %x present %v): %s returned %v, error %v; expected %v", q, t, e.typ, e.cnt, e.data, has, what, got, err, want)
		}
		if h.HasTag(q) != has {
			return bad("HasTag", h.HasTag(q), nil, has)
		}
		ints, isint := e.ints()
		strs, isstr := e.strs()
		split := t == 1027 && !has
		if split {
			var none bool
			strs, isstr, none = opaths(ents)
			_ = none
		}
		// strings
		gs, err := h.GetStrings(q)
		if isstr {
			if err != nil || !(eqv(gs, strs) || len(gs) == 0 && len(strs) == 0) {
				return bad("GetStrings", gs, err, strs)
			}
		} else if err == nil {
			return bad("GetStrings", gs, err, "an error")
		} else if !has && !split && !absentErr(err, t) {
			return bad("GetStrings", gs, err, "no such tag")
		}
		s1, err := h.GetString(q)
		if isstr && len(strs) == 1 {
			if err != nil || s1 != strs[0] {
				return bad("GetString", s1, err, strs[0])
			}
		} else if err == nil {
			return bad("GetString", s1, err, "an error")
		}
		// integers
		gi, err := h.GetUint64s(q)
		if isint {
			if err != nil || !(eqv(gi, ints) || len(gi)+len(ints) == 0) {
				return bad("GetUint64s", gi, err, ints)
			}
		} else if err == nil || !has && !absentErr(err, t) {
			return bad("GetUint64s", gi, err, "an error")
		}
		g1, err := h.GetUint64(q)
		if isint && len(ints) == 1 {
			if err != nil || g1 != ints[0] {
				return bad("GetUint64", g1, err, ints[0])
			}
		} else if err == nil {
			return bad("GetUint64", g1, err, "an error")
		}
		g32, err := h.GetUint32s(q)
		if isint && e.typ != 5 {
			ok := err == nil && len(g32) == len(ints)
			for i := range g32 {
				ok = ok && uint64(g32[i]) == ints[i]
			}
			if !ok {
				return bad("GetUint32s", g32, err, ints)
			}
		} else if err == nil || !has && !absentErr(err, t) {
			return bad("GetUint32s", g32, err, "an error")
		}
		g321, err := h.GetUint32(q)
		if isint && e.typ != 5 && len(ints) == 1 {
			if err != nil || uint64(g321) != ints[0] {
				return bad("GetUint32", g321, err, ints[0])
			}
		} else if err == nil {
			return bad("GetUint32", g321, err, "an error")
		}
		fits := true
		for _, v := range ints {
			fits = fits && v < 1<<31
		}
		gn, err := h.GetInts(q)
		if err == nil {
			ok := isint && len(gn) == len(ints)
			for i := range gn {
				ok = ok && uint64(gn[i]) == ints[i]
			}
			if !ok {
				return bad("GetInts", gn, err, ints)
			}
		} else if isint && e.typ != 5 && fits || !has && !absentErr(err, t) {
			return bad("GetInts", gn, err, ints)
		}
		gn1, err := h.GetInt(q)
		if err == nil {
			if !isint || len(ints) != 1 || uint64(gn1) != ints[0] {
				return bad("GetInt", gn1, err, ints)
			}
		} else if isint && e.typ != 5 && fits && len(ints) == 1 {
			return bad("GetInt", gn1, err, ints)
		}
		gb, err := h.GetBytes(q)
		if has && e.typ == 7 {
			if err != nil || string(gb) != string(e.data) {
				return bad("GetBytes", gb, err, e.data)
			}
		} else if err == nil || !has && !absentErr(err, t) {
			return bad("GetBytes", gb, err, "an error")
		}
		// Get
		g, err := h.Get(q)
		switch {
		case split:
			if isstr && (err != nil || !eqv(g, strs) && len(strs) > 0) {
				return bad("Get", g, err, strs)
			}
		case !has:
			if !absentErr(err, t) {
				return bad("Get", g, err, "no such tag")
			}
		case isstr:
			if err != nil || len(strs) > 0 && !eqv(g, strs) {
				return bad("Get", g, err, strs)
			}
		case e.typ == 7:
			if gb, ok := g.([]byte); err != nil || !ok || string(gb) != string(e.data) {
				return bad("Get", g, err, e.data)
			}
		case isint:
			rv := reflect.ValueOf(g)
			k := map[int32]reflect.Kind{1: reflect.Uint8, 2: reflect.Uint8, 3: reflect.Uint16, 4: reflect.Uint32, 5: reflect.Uint64}[e.typ]
			ok := err == nil && rv.Kind() == reflect.Slice && rv.Type().Elem().Kind() == k && rv.Len() == len(ints)
			for i := 0; ok && i < len(ints); i++ {
				ok = rv.Index(i).Uint() == ints[i]
			}
			if !ok {
				return bad("Get", g, err, ints)
			}
		}
	}
	return ""
}

func readPkg(r *R, b []byte) (*rpmutils.RpmHeader, *opkg, bool) {
	r.log("package: %s", hexs(b))
	h, err := rpmutils.ReadHeader(newChunks(r, b))
	if err != nil {
		return nil, nil, false
	}
	o, ok := oread(b)
	if !ok {
		return nil, nil, false
	}
	return h, o, true
}

func TestVerifC04(t *testing.T) {
	search(t, func(r *R) string {
		b := genPkg(r)
		h, o, ok := readPkg(r, b)
		if !ok {
			return ""
		}
		return checkAccess(r, h, o, b)
	})
}

func oneInt(ents map[int]oent, t int) (uint64, bool) {
	e, ok := ents[t]
	if !ok {
		return 0, false
	}
	v, ok := e.ints()
	if !ok || len(v) != 1 {
		return 0, false
	}
	return v[0], true
}

func firstStr(ents map[int]oent, t int) (string, bool) {
	v, ok := ents[t].strs()
	if !ok || len(v) == 0 {
		return "", false
	}
	return v[0], true
}

func checkIdentity(r *R, h *rpmutils.RpmHeader, o *opkg) string {
	// fallbacks
	for i := 0; i < 6; i++ {
		q := queryTags(r, o)
		it, lt := q[r.Intn(len(q))], q[r.Intn(len(q))]
		if i == 0 {
			it, lt = 1009, 5009
		}
		a, at := o.area(it)
		l, ltt := o.area(lt)
		v, err := h.GetUint64Fallback(it, lt)
		want, ok := oneInt(l, ltt)
		if !ok {
			want, ok = oneInt(a, at)
		}
		if (err == nil) != ok || ok && v != want {
			return fmt.Sprintf("GetUint64Fallback(%d,%d) = %d, %v; expected %d %v", it, lt, v, err, want, ok)
		}
	}
	want, ok := oneInt(o.gen, 5009)
	if !ok {
		want, ok = oneInt(o.gen, 1009)
	}
	if v, err := h.InstalledSize(); (err == nil) != ok || ok && uint64(v) != want {
		return fmt.Sprintf("InstalledSize = %d, %v; expected %d %v", v, err, want, ok)
	}
	if _, has := o.sig[271]; has {
		want, ok = oneInt(o.sig, 271)
	} else {
		want, ok = oneInt(o.sig, 1007)
	}
	if v, err := h.PayloadSize(); (err == nil) != ok || ok && uint64(v) != want {
		return fmt.Sprintf("PayloadSize = %d, %v; expected %d %v", v, err, want, ok)
	}
	n, ok1 := firstStr(o.gen, 1000)
	v, ok2 := firstStr(o.gen, 1001)
	rel, ok3 := firstStr(o.gen, 1002)
	a, ok4 := firstStr(o.gen, 1022)
	ep, ok5 := "0", true
	if e, has := o.gen[1003]; has {
		var iv []uint64
		iv, ok5 = e.ints()
		if len(iv) > 0 {
			ep = fmt.Sprint(iv[0])
		}
	}
	ok = ok1 && ok2 && ok3 && ok4 && ok5
	w := rpmutils.NEVRA{Name: n, Epoch: ep, Version: v, Release: rel, Arch: a}
	if g, err := h.GetNEVRA(); (err == nil) != ok || ok && *g != w {
		return fmt.Sprintf("GetNEVRA = %v, %v; expected %v %v", g, err, w, ok)
	}
	return ""
}

func identityEntries(r *R, gen *hb) {
	for _, t := range []int32{1000, 1001, 1002, 1022} {
		if r.p(.93) {
			ty := []int32{6, 8, 9}[r.Intn(3)]
			n := 1
			if r.p(.1) {
				n = r.Intn(3)
			}
			v := make([]string, n)
			for i := range v {
				v[i] = r.word()
			}
			gen.str(t, ty, v...)
		}
	}
	if r.p(.15) {
		gen.add(1003, 4, 0, nil)
	} else if r.p(.6) {
		gen.addTyped(r, 1003, []int32{4, 4, 4, 5, 3, 2, 6}[r.Intn(7)])
	}
	for _, t := range []int32{1009, 5009} {
		if r.p(.6) {
			gen.addTyped(r, t, []int32{4, 4, 5, 5, 3, 1, 6}[r.Intn(7)])
		}
	}
}

func TestVerifC05(t *testing.T) {
	search(t, func(r *R) string {
		var b []byte
		if r.p(.3) {
			b = genPkg(r)
		} else {
			sig, gen := &hb{}, &hb{}
			for _, t := range sigTags {
				if t != 269 && t != 273 && r.p(.4) {
					sig.addRandom(r, t)
				}
			}
			if r.p(.5) {
				sig.addTyped(r, 1007, 4)
			}
			if r.p(.5) {
				sig.addTyped(r, 271, 5)
			}
			identityEntries(r, gen)
			b = pkg(r.p(.3), sig, gen, nil)
		}
		h, o, ok := readPkg(r, b)
		if !ok {
			return ""
		}
		if s := checkAccess(r, h, o, b); s != "" {
			return s
		}
		return checkIdentity(r, h, o)
	})
}

func u32opt(e oent, has bool, n int) ([]uint64, bool) {
	v, ok := e.ints()
	if !has || !ok || e.typ == 5 {
		return make([]uint64, n), true
	}
	return v, len(v) == n
}

func checkFiles(h *rpmutils.RpmHeader, o *opkg) string {
	fs, err := h.GetFiles()
	paths, ok, none := opaths(o.gen)
	if none {
		_, d := o.gen[1118]
		_, b := o.gen[1117]
		if !d && !b && (err != nil || len(fs) != 0) {
			return fmt.Sprintf("GetFiles = %v, %v for a package without files", fs, err)
		}
		if err == nil && len(fs) != 0 {
			return "files out of nothing"
		}
		return ""
	}
	n := len(paths)
	st := o.gen[1028]
	if x, has := o.gen[5008]; has {
		st = x
	}
	sizes, k := st.ints()
	ok = ok && k && len(sizes) == n
	var ss [4][]string
	for i, t := range []int{1039, 1040, 1035, 1036} {
		v, k := o.gen[t].strs()
		ok = ok && k && len(v) == n
		ss[i] = v
	}
	var us [3][]uint64
	for i, t := range []int{1037, 1034, 1030} {
		e := o.gen[t]
		v, k := e.ints()
		ok = ok && k && e.typ != 5 && len(v) == n
		us[i] = v
	}
	dv, has := o.gen[1095]
	devs, k1 := u32opt(dv, has, n)
	in, has := o.gen[1096]
	inos, k2 := u32opt(in, has, n)
	ok = ok && k1 && k2
	if (err == nil) != ok {
		return fmt.Sprintf("GetFiles error %v, expected consistent=%v", err, ok)
	}
	if !ok {
		return ""
	}
	if len(fs) != n {
		return fmt.Sprintf("GetFiles: %d files, expected %d", len(fs), n)
	}
	for i, f := range fs {
		got := fmt.Sprintf("%q %d %q %q %d %d %q %d %q %d %d", f.Name(), f.Size(), f.UserName(), f.GroupName(), f.Flags(), f.Mtime(), f.Digest(), f.Mode(), f.Linkname(), f.Device(), f.Inode())
		want := fmt.Sprintf("%q %d %q %q %d %d %q %d %q %d %d", paths[i], int64(sizes[i]), ss[0][i], ss[1][i], us[0][i], us[1][i], ss[2][i], us[2][i], ss[3][i], devs[i], inos[i])
		if got != want {
			return fmt.Sprintf("file %d: %s; expected %s", i, got, want)
		}
	}
	return ""
}

func TestVerifC06(t *testing.T) {
	search(t, func(r *R) string {
		var b []byte
		gen := &hb{}
		if r.p(.2) {
			identityEntries(r, gen)
		}
		if r.p(.95) {
			addFiles(r, gen)
		}
		if r.p(.2) && len(gen.idx) > 0 {
			k := r.Intn(len(gen.idx))
			gen.idx = append(gen.idx[:k], gen.idx[k+1:]...)
		}
		if r.p(.1) && len(gen.idx) > 0 {
			gen.idx[r.Intn(len(gen.idx))].cnt -= 1
		}
		b = pkg(false, &hb{}, gen, nil)
		h, o, ok := readPkg(r, b)
		if !ok {
			return ""
		}
		return checkFiles(h, o)
	})
}

func TestVerifC01(t *testing.T) {
	search(t, func(r *R) string {
		b := genPkg(r)
		r.log("package: %s", hexs(b))
		c := newChunks(r, b)
		h, err := rpmutils.ReadHeader(c)
		o, ok := oread(b)
		if err != nil {
			return ""
		}
		if !ok {
			return "a malformed package was accepted"
		}
		if c.pos != o.total {
			return fmt.Sprintf("reading consumed %d bytes, lead and headers span %d", c.pos, o.total)
		}
		if rg := h.GetRange(); rg.Start != 96+o.sigLen || rg.End != o.total {
			return fmt.Sprintf("GetRange %+v, expected %d %d", rg, 96+o.sigLen, o.total)
		}
		if n := h.OriginalSignatureHeaderSize(); n != 96+o.sigLen {
			return fmt.Sprintf("OriginalSignatureHeaderSize %d, expected %d", n, 96+o.sigLen)
		}
		if h.IsSource() != o.source {
			return fmt.Sprintf("IsSource %v, expected %v", h.IsSource(), o.source)
		}
		return checkAccess(r, h, o, b)
	})
}

func allQueries(r *R, h *rpmutils.RpmHeader, o *opkg) {
	for _, q := range queryTags(r, o) {
		h.HasTag(q)
		h.Get(q)
		h.GetString(q)
		h.GetStrings(q)
		h.GetInt(q)
		h.GetInts(q)
		h.GetUint32(q)
		h.GetUint32s(q)
		h.GetUint64(q)
		h.GetUint64s(q)
		h.GetBytes(q)
		q2 := queryTags(r, o)
		h.GetUint64Fallback(q, q2[r.Intn(len(q2))])
	}
	h.GetNEVRA()
	h.InstalledSize()
	h.PayloadSize()
	h.GetRange()
	h.IsSource()
	h.OriginalSignatureHeaderSize()
	fs, _ := h.GetFiles()
	for _, f := range fs {
		_ = fmt.Sprint(f.Name(), f.Size(), f.UserName(), f.GroupName(), f.Flags(), f.Mtime(), f.Digest(), f.Mode(), f.Linkname(), f.Device(), f.Inode())
	}
}

func TestVerifC02(t *testing.T) {
	search(t, func(r *R) string {
		b := genPkg(r)
		if r.p(.1) {
			b = append(lead(false), r.raw(r.Intn(100))...)
		}
		if r.p(.1) && len(b) >= 112 {
			// extreme intro values
			k := 96 + 8 + 4*r.Intn(2)
			v := uint32(r.num())
			if v < 1<<24 || v > 1<<28 {
				b[k], b[k+1], b[k+2], b[k+3] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
			}
		}
		r.log("package: %s", hexs(b))
		c := newChunks(r, b)
		rp, err := rpmutils.ReadRpm(c)
		o, ok := oread(b)
		if err != nil {
			return ""
		}
		if !ok {
			return "a malformed header was accepted"
		}
		allQueries(r, rp.Header, o)
		if r.p(.5) {
			rp.PayloadReader()
		} else {
			rp.PayloadReaderExtended()
		}
		return ""
	})
}

// recorded header digests
func TestVerifC03(t *testing.T) {
	ent := testKey()
	search(t, func(r *R) string {
		gen := genArea(r, commonTags)
		payload := r.raw(r.Intn(100))
		gen.str(5092, 8, fmt.Sprintf("%x", sha256.Sum256(payload)))
		gen.u32(5093, 8)
		g := gen.bytes(false)
		sig := &hb{}
		mutate := func(s string) string {
			switch r.Intn(9) {
			case 0:
				return s[:r.Intn(len(s))]
			case 1:
				return s + r.word()
			case 2:
				x := []byte(s)
				x[r.Intn(len(x))] ^= 1
				return string(x)
			case 3:
				return strings.ToUpper(s)
			case 4:
				return r.word()
			}
			return s
		}
		g2 := g
		if r.p(.3) {
			g2 = append([]byte{}, g...)
			g2[r.Intn(len(g2))] ^= byte(1 << uint(r.Intn(8)))
		}
		s256, s1 := fmt.Sprintf("%x", sha256.Sum256(g2)), fmt.Sprintf("%x", sha1.Sum(g2))
		has256, has1 := r.p(.6), r.p(.6)
		v256, v1 := mutate(s256), mutate(s1)
		if r.p(.1) {
			v256 = s1
		}
		ty := int32(6)
		if r.p(.5) {
			sig.bin(1000, []byte("x"))
		}
		if has256 {
			sig.str(273, ty, v256)
		}
		if has1 {
			sig.str(269, ty, v1)
		}
		r.log("sha256 tag %v %q sha1 tag %v %q header %x", has256, v256, has1, v1, g)
		want := true
		if has256 && v256 != "" {
			want = v256 == fmt.Sprintf("%x", sha256.Sum256(g))
		} else if has256 {
			return ""
		} else if has1 && v1 != "" {
			want = v1 == fmt.Sprintf("%x", sha1.Sum(g))
		}
		if want {
			return ""
		}
		b := pkg(false, sig, gen, payload)
		r.log("package: %s", hexs(b))
		if _, err := rpmutils.ReadHeader(newChunks(r, b)); err == nil {
			return "ReadHeader accepted a header with a wrong digest"
		}
		if _, _, err := rpmutils.Verify(newChunks(r, b), nil); err == nil {
			return "Verify accepted a header with a wrong digest"
		}
		if _, err := rpmutils.SignRpmStream(newChunks(r, b), ent.PrivateKey, nil); err == nil {
			return "SignRpmStream accepted a header with a wrong digest"
		}
		return ""
	})
}
