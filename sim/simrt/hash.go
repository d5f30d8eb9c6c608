package simrt

import (
	"hash"
	"hash/adler32"
	"hash/crc32"
	"hash/fnv"
)

// Hashes of 32 bits say nothing about the equality of what was hashed. In some
// worlds different data often have the same one; in the others the values are
// the usual ones.

//go:norace
func weak32(h uint32) uint32 {
	if world.WeakHash {
		St.WeakHashes++
		return h & 3
	}
	return h
}

type hash32 struct{ hash.Hash32 }

func (h hash32) Sum32() uint32 { return weak32(h.Hash32.Sum32()) }

func (h hash32) Sum(b []byte) []byte {
	s := h.Sum32()
	return append(b, byte(s>>24), byte(s>>16), byte(s>>8), byte(s))
}

func Fnv32() hash.Hash32      { return hash32{fnv.New32()} }
func Fnv32a() hash.Hash32     { return hash32{fnv.New32a()} }
func Crc32IEEE() hash.Hash32  { return hash32{crc32.NewIEEE()} }
func Adler32New() hash.Hash32 { return hash32{adler32.New()} }

func Crc32(b []byte) uint32                      { return weak32(crc32.ChecksumIEEE(b)) }
func Crc32Table(b []byte, t *crc32.Table) uint32 { return weak32(crc32.Checksum(b, t)) }
func Adler32(b []byte) uint32                    { return weak32(adler32.Checksum(b)) }

// The seeds of package hash/maphash differ from process to process; here the
// world decides them.
type MapHashSeed struct{ s uint64 }

func MapHashMakeSeed() MapHashSeed { return MapHashSeed{wrnd() | 1} }

type MapHash struct {
	seed MapHashSeed
	buf  []byte
}

func (h *MapHash) init() {
	if h.seed.s == 0 {
		h.seed = MapHashMakeSeed()
	}
}

func (h *MapHash) Seed() MapHashSeed     { h.init(); return h.seed }
func (h *MapHash) SetSeed(s MapHashSeed) { h.seed, h.buf = s, nil }
func (h *MapHash) Reset()                { h.init(); h.buf = h.buf[:0] }
func (h *MapHash) Write(b []byte) (int, error) {
	h.init()
	h.buf = append(h.buf, b...)
	return len(b), nil
}
func (h *MapHash) WriteString(s string) (int, error) {
	h.init()
	h.buf = append(h.buf, s...)
	return len(s), nil
}
func (h *MapHash) WriteByte(b byte) error { h.init(); h.buf = append(h.buf, b); return nil }
func (h *MapHash) Sum64() uint64          { h.init(); return MapHashBytes(h.seed, h.buf) }
func (h *MapHash) Size() int              { return 8 }
func (h *MapHash) BlockSize() int         { return 128 }

func (h *MapHash) Sum(b []byte) []byte {
	s := h.Sum64()
	for k := 56; k >= 0; k -= 8 {
		b = append(b, byte(s>>uint(k)))
	}
	return b
}

func MapHashString(s MapHashSeed, t string) uint64 { return MapHashBytes(s, []byte(t)) }

func MapHashBytes(s MapHashSeed, b []byte) uint64 {
	h := uint64(14695981039346656037) ^ s.s
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h ^ h>>29
}
