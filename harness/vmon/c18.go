package main

import (
	"bytes"

	"github.com/RTann/libsignal-go/protocol/crypto/aes"

	"verif/harness/ref"
)

func init() {
	register(&Check{
		ID:   "C18",
		Rule: "Plaintexts of every length up to 300 bytes and some of many kilobytes (random, constant, looking like padding) are encrypted under keys of all three sizes and compared with independent AES-CBC and PKCS#7; the ciphertexts are decrypted by both sides. Raw CBC blocks with every final byte value and every wrong padding byte are decrypted and compared; every wrong key, IV and ciphertext length is offered. Distinct by (key size, length, padding).",
		Run:  runC18,
	})
}

func runC18(c *C) {
	c.Cases("trip", c.N(6000, 60000), trip18)
	c.Cases("large", c.N(64, 800), large18)
	c.Cases("huge", c.N(7, 28), huge18)
	c.Cases("padding", c.N(1000, 8000), padding18)
	c.Cases("lengths", c.N(100, 800), lengths18)
	c.Require("round trips", 900)
	c.Require("bad padding refused", 10000)
	c.Require("wrong lengths refused", 1000)
}

func key18(t *T) []byte { return randBytes(t, []int{16, 24, 32, 32, 32}[t.Rng.IntN(5)]) }

func one18(t *T, key, iv, pt []byte) []byte {
	t.Eval()
	ct, err := aes.CBCEncrypt(clone(key), clone(iv), clone(pt))
	if err != nil {
		t.Violate("encrypting %d bytes under a %d-byte key fails: %v", len(pt), len(key), err)
	}
	if d := len(ct) - len(pt); d < 1 || d > 16 || len(ct)%16 != 0 {
		t.Violate("%d bytes of plaintext give %d bytes of ciphertext", len(pt), len(ct))
	}
	if want := ref.CBCEncrypt(key, iv, pt); !bytes.Equal(ct, want) {
		t.Violate("ciphertext of %s under key %x, iv %x is %s, standard AES-CBC gives %s", hexs(pt), key, iv, hexs(ct), hexs(want))
	}
	back, err := aes.CBCDecrypt(clone(key), clone(iv), clone(ct))
	if err != nil || !bytes.Equal(back, pt) {
		t.Violate("%s decrypts to %s (%v) under key %x, iv %x; it was the encryption of %s", hexs(ct), hexs(back), err, key, iv, hexs(pt))
	}
	t.Count("round trips", 1)
	return ct
}

func trip18(t *T, i int) {
	key, iv := key18(t), randBytes(t, 16)
	n := i % 300
	for k := 0; k < 6; k++ {
		pt := randBytes(t, n)
		switch k {
		case 1: // all bytes alike: what padding looks like
			pt = bytes.Repeat([]byte{byte(t.Rng.IntN(18))}, n)
		case 2:
			pt = make([]byte, n)
		case 3: // ends in valid padding of its own
			if n > 16 {
				p := 1 + t.Rng.IntN(16)
				copy(pt[n-p:], bytes.Repeat([]byte{byte(p)}, p))
			}
		case 4:
			iv = make([]byte, 16)
		case 5:
			if n > 0 {
				pt[n-1] = []byte{0, 1, 16, 17, 0x80, 0xff}[t.Rng.IntN(6)]
			}
		}
		one18(t, key, iv, pt)
	}
	t.Seen("trip", len(key), n)
	if t.wantSample() {
		t.Sample(map[string]any{"key bytes": len(key), "plaintext bytes": n})
	}
}

func large18(t *T, i int) {
	n := []int{4095, 4096, 4097, 65535, 65536, 65537, 1<<20 - 1, 1 << 20}[i%8] + t.Rng.IntN(3)
	one18(t, key18(t), randBytes(t, 16), randBytes(t, n))
	t.Seen("large", n)
}

// huge18: plaintexts of many megabytes.
func huge18(t *T, i int) {
	n := []int{2 << 20, 2<<20 + 16*t.Rng.IntN(999), 3<<20 - 1, 3<<20 + 17, 4<<20 + 5, 8<<20 - 16, 16<<20 + t.Rng.IntN(64)}[i%7]
	one18(t, key18(t), randBytes(t, 16), randBytes(t, n))
	t.Seen("huge", n>>20)
	t.Count("plaintexts of many megabytes", 1)
}

func padding18(t *T, i int) {
	key, iv := key18(t), randBytes(t, 16)
	try := func(what string, raw []byte) {
		t.Eval()
		ct := ref.CBCRaw(key, iv, raw)
		want, wantErr := ref.CBCDecrypt(key, iv, ct)
		got, err := aes.CBCDecrypt(clone(key), clone(iv), clone(ct))
		if (err == nil) != (wantErr == nil) {
			t.Violate("%s: the padded blocks %x decrypt to %s (%v), PKCS#7 says %v", what, raw, hexs(got), err, wantErr)
		}
		if err == nil && !bytes.Equal(got, want) {
			t.Violate("%s: the padded blocks %x decrypt to %s, expected %s", what, raw, hexs(got), hexs(want))
		}
		if err != nil {
			if got != nil {
				t.Violate("%s: refused blocks give the plaintext %s", what, hexs(got))
			}
			t.Count("bad padding refused", 1)
		} else {
			t.Count("good padding accepted", 1)
		}
		t.Seen(what, len(raw)/16, raw[len(raw)-1], err == nil)
	}
	blocks := 1 + t.Rng.IntN(4)
	for v := 0; v < 256; v++ { // every last byte
		raw := randBytes(t, 16*blocks)
		raw[len(raw)-1] = byte(v)
		try("last byte", raw)
		for j := max(0, len(raw)-v); j < len(raw); j++ {
			raw[j] = byte(v)
		}
		try("padding", raw)
		if v > 1 && v <= len(raw) { // one of the padding bytes is wrong
			for k := 0; k < 3; k++ {
				j := len(raw) - v + t.Rng.IntN(v-1)
				if k == 0 {
					j = len(raw) - v
				}
				try("wrong padding byte", flip(raw, j, 1<<t.Rng.IntN(8)))
			}
		}
	}
	for v := 2; v <= 16; v++ { // every single wrong byte
		raw := append(randBytes(t, 16*blocks-v), bytes.Repeat([]byte{byte(v)}, v)...)
		for j := len(raw) - v; j < len(raw)-1; j++ {
			try("one wrong padding byte", flip(raw, j, byte(1+t.Rng.IntN(255))))
		}
	}
	for k := 0; k < 50; k++ {
		try("random blocks", randBytes(t, 16*(1+t.Rng.IntN(6))))
	}
}

func lengths18(t *T, i int) {
	key, iv := key18(t), randBytes(t, 16)
	pt := randBytes(t, t.Rng.IntN(50))
	ct := ref.CBCEncrypt(key, iv, pt)
	refused := func(what string, n int, out []byte, err error) {
		t.Eval()
		if err == nil || out != nil {
			t.Violate("%s of %d bytes is accepted: %s, %v", what, n, hexs(out), err)
		}
		t.Count("wrong lengths refused", 1)
		t.Seen(what, n)
	}
	for n := 0; n <= 100; n++ {
		b := randBytes(t, n)
		if n == 0 && t.Rng.IntN(2) == 0 {
			b = nil
		}
		if n != 16 && n != 24 && n != 32 {
			out, err := aes.CBCEncrypt(b, iv, pt)
			refused("an encryption key", n, out, err)
			out, err = aes.CBCDecrypt(b, iv, ct)
			refused("a decryption key", n, out, err)
		}
		if n != 16 {
			out, err := aes.CBCEncrypt(key, b, pt)
			refused("an encryption IV", n, out, err)
			out, err = aes.CBCDecrypt(key, b, ct)
			refused("a decryption IV", n, out, err)
		}
		if n%16 != 0 || n == 0 {
			out, err := aes.CBCDecrypt(key, iv, b)
			refused("a ciphertext", n, out, err)
			if n > 0 && n < 16 {
				out, err = aes.CBCDecrypt(key, iv, append(clone(ct), b...))
				refused("a ciphertext with extra bytes", n, out, err)
				out, err = aes.CBCDecrypt(key, iv, ct[:len(ct)-n])
				refused("a ciphertext with missing bytes", n, out, err)
			}
		}
	}
}
