package demolib_test

import (
	"encoding/binary"
	"testing"
)

// a small writer for RPM headers
type dhdr struct {
	idx  [][4]int32
	data []byte
}

func (h *dhdr) add(tag, typ, cnt int32, b []byte) *dhdr {
	al := map[int32]int{3: 2, 4: 4, 5: 8}[typ]
	for al > 0 && len(h.data)%al != 0 {
		h.data = append(h.data, 0)
	}
	h.idx = append(h.idx, [4]int32{tag, typ, int32(len(h.data)), cnt})
	h.data = append(h.data, b...)
	return h
}

func (h *dhdr) str(tag, typ int32, ss ...string) *dhdr {
	var b []byte
	for _, s := range ss {
		b = append(append(b, s...), 0)
	}
	return h.add(tag, typ, int32(len(ss)), b)
}

func (h *dhdr) ints(tag, typ int32, vs ...uint64) *dhdr {
	var b []byte
	for _, v := range vs {
		switch typ {
		case 1, 2:
			b = append(b, byte(v))
		case 3:
			b = binary.BigEndian.AppendUint16(b, uint16(v))
		case 4:
			b = binary.BigEndian.AppendUint32(b, uint32(v))
		case 5:
			b = binary.BigEndian.AppendUint64(b, v)
		}
	}
	return h.add(tag, typ, int32(len(vs)), b)
}

func (h *dhdr) bytes(pad bool) []byte {
	var b []byte
	for _, v := range []uint32{0x8eade801, 0, uint32(len(h.idx)), uint32(len(h.data))} {
		b = binary.BigEndian.AppendUint32(b, v)
	}
	for _, e := range h.idx {
		for _, v := range e {
			b = binary.BigEndian.AppendUint32(b, uint32(v))
		}
	}
	b = append(b, h.data...)
	for pad && len(b)%8 != 0 {
		b = append(b, 0)
	}
	return b
}

func dpkg(sig, gen *dhdr, payload []byte) []byte {
	b := make([]byte, 96)
	copy(b, []byte{0xed, 0xab, 0xee, 0xdb, 3, 0})
	b = append(b, sig.bytes(true)...)
	b = append(b, gen.bytes(false)...)
	return append(b, payload...)
}

// addFiles stores n files with consistent attributes
func (h *dhdr) files(names []string, size []uint64, mode []uint64, dev, ino []uint64, link []string) *dhdr {
	n := len(names)
	same := func(s string) []string {
		v := make([]string, n)
		for i := range v {
			v[i] = s
		}
		return v
	}
	h.str(1027, 8, names...).ints(1028, 4, size...).ints(1030, 3, mode...)
	h.str(1039, 8, same("root")...).str(1040, 8, same("root")...).str(1035, 8, same("")...)
	if link == nil {
		link = same("")
	}
	h.str(1036, 8, link...)
	h.ints(1037, 4, make([]uint64, n)...).ints(1034, 4, make([]uint64, n)...)
	if dev != nil {
		h.ints(1095, 4, dev...)
	}
	if ino != nil {
		h.ints(1096, 4, ino...)
	}
	return h
}

func dmust(t *testing.T, err error) {
	if err != nil {
		t.Helper()
		t.Fatal(err)
	}
}
