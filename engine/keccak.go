package main

import "encoding/binary"

var krc = [24]uint64{0x1, 0x8082, 0x800000000000808A, 0x8000000080008000, 0x808B, 0x80000001, 0x8000000080008081, 0x8000000000008009, 0x8A, 0x88, 0x80008009, 0x8000000A, 0x8000808B, 0x800000000000008B, 0x8000000000008089, 0x8000000000008003, 0x8000000000008002, 0x8000000000000080, 0x800A, 0x800000008000000A, 0x8000000080008081, 0x8000000000008080, 0x80000001, 0x8000000080008008}
var krot = [24]uint{1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44}
var kpil = [24]int{10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1}

func keccakF(s *[25]uint64) {
	for r := 0; r < 24; r++ {
		var bc [5]uint64
		for i := 0; i < 5; i++ {
			bc[i] = s[i] ^ s[i+5] ^ s[i+10] ^ s[i+15] ^ s[i+20]
		}
		for i := 0; i < 5; i++ {
			t := bc[(i+4)%5] ^ (bc[(i+1)%5]<<1 | bc[(i+1)%5]>>63)
			for j := 0; j < 25; j += 5 {
				s[j+i] ^= t
			}
		}
		t := s[1]
		for i := 0; i < 24; i++ {
			j := kpil[i]
			b := s[j]
			s[j] = t<<krot[i] | t>>(64-krot[i])
			t = b
		}
		for j := 0; j < 25; j += 5 {
			var c [5]uint64
			copy(c[:], s[j:j+5])
			for i := 0; i < 5; i++ {
				s[j+i] ^= ^c[(i+1)%5] & c[(i+2)%5]
			}
		}
		s[0] ^= krc[r]
	}
}

func keccak256(data []byte) (out [32]byte) {
	const rate = 136
	var s [25]uint64
	buf := append([]byte{}, data...)
	buf = append(buf, 0x01)
	for len(buf)%rate != 0 {
		buf = append(buf, 0)
	}
	buf[len(buf)-1] |= 0x80
	for len(buf) > 0 {
		for i := 0; i < rate/8; i++ {
			s[i] ^= binary.LittleEndian.Uint64(buf[8*i:])
		}
		keccakF(&s)
		buf = buf[rate:]
	}
	for i := 0; i < 4; i++ {
		binary.LittleEndian.PutUint64(out[8*i:], s[i])
	}
	return
}
