package main

import "math/rand"

// Texts with equal hashes under the usual hand written functions: nothing the
// library keys by such a hash may be taken for what it is not.

const fnvPrime = 16777619

const letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"

// fnvFwd: three letter beginnings by their hash, for FNV-1a and FNV-1.
var fnvFwd [2]map[uint32][3]byte

func fnvStep(h uint32, c byte, k int) uint32 {
	if k == 0 {
		return (h ^ uint32(c)) * fnvPrime
	}
	return h*fnvPrime ^ uint32(c)
}

// collide makes another text of the same hash.
func collide(r *rand.Rand, s string) string {
	b := []byte(s)
	switch x := r.Intn(8); {
	case x < 2 && len(b) > 1: // sums of powers of 31 (or 33) of the letters
		m := byte(31)
		if x == 1 {
			m = 33
		}
		k := r.Intn(len(b) - 1)
		if b[k] < 'z' && b[k+1] >= 'a' && b[k+1] <= 'z' {
			b[k]++
			b[k+1] -= m
		} else if b[k] > 'A' && b[k+1] >= 'A' && b[k+1] < 'Z' {
			b[k]--
			b[k+1] += m
		}
	case x < 4 && len(b) > 1: // sums of the letters
		k, l := r.Intn(len(b)), r.Intn(len(b))
		if r.Intn(2) == 0 {
			b[k], b[l] = b[l], b[k]
		} else if k != l && b[k] < 'z' && b[l] > 'A' {
			b[k]++
			b[l]--
		}
	case x < 5: // beginning, end and length only
		if len(b) > 2 {
			b[1+r.Intn(len(b)-2)] = letters[r.Intn(26)]
		}
	default:
		return fnvCollide(r, s, x%2)
	}
	return string(b)
}

// fnvCollide finds six or seven letters with the hash of s, meeting in the middle.
func fnvCollide(r *rand.Rand, s string, k int) string {
	if fnvFwd[k] == nil {
		fnvFwd[k] = make(map[uint32][3]byte, len(letters)*len(letters)*len(letters))
		for i := 0; i < len(letters); i++ {
			for j := 0; j < len(letters); j++ {
				h := fnvStep(fnvStep(2166136261, letters[i], k), letters[j], k)
				for l := 0; l < len(letters); l++ {
					fnvFwd[k][fnvStep(h, letters[l], k)] = [3]byte{letters[i], letters[j], letters[l]}
				}
			}
		}
	}
	inv := uint32(fnvPrime)
	for i := 0; i < 5; i++ {
		inv *= 2 - fnvPrime*inv
	}
	back := func(h uint32, c byte) uint32 {
		if k == 0 {
			return h*inv ^ uint32(c)
		}
		return (h ^ uint32(c)) * inv
	}
	want := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		want = fnvStep(want, s[i], k)
	}
	var end [4]byte
	for try := 0; try < 400000; try++ {
		h := want
		x := r.Int63()
		for i := range end {
			end[i] = letters[x%int64(len(letters))]
			x /= int64(len(letters))
			h = back(h, end[i])
		}
		if p, ok := fnvFwd[k][h]; ok {
			t := string(p[:]) + string([]byte{end[3], end[2], end[1], end[0]})
			if t != s {
				return t
			}
		}
	}
	return s
}
