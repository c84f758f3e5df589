package ref

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
)

func HMAC(key []byte, parts ...[]byte) []byte {
	h := hmac.New(sha256.New, key)
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

// HKDF is RFC 5869 with SHA-256.
func HKDF(ikm, salt, info []byte, n int) []byte {
	if salt == nil {
		salt = make([]byte, 32)
	}
	prk := HMAC(salt, ikm)
	var out, t []byte
	for i := byte(1); len(out) < n; i++ {
		t = HMAC(prk, t, info, []byte{i})
		out = append(out, t...)
	}
	return out[:n]
}

// CBCEncrypt is AES-CBC with PKCS#7 padding.
func CBCEncrypt(key, iv, pt []byte) []byte {
	n := 16 - len(pt)%16
	buf := make([]byte, 0, len(pt)+n)
	buf = append(buf, pt...)
	for i := 0; i < n; i++ {
		buf = append(buf, byte(n))
	}
	return CBCRaw(key, iv, buf)
}

// CBCRaw encrypts whole blocks without padding.
func CBCRaw(key, iv, buf []byte) []byte {
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	out := make([]byte, len(buf))
	prev := iv
	for i := 0; i < len(buf); i += 16 {
		var x [16]byte
		for j := range x {
			x[j] = buf[i+j] ^ prev[j]
		}
		b.Encrypt(out[i:i+16], x[:])
		prev = out[i : i+16]
	}
	return out
}

// CBCDecrypt undoes CBCEncrypt.
func CBCDecrypt(key, iv, ct []byte) ([]byte, error) {
	b, err := aes.NewCipher(key)
	if err != nil {
		return nil, err
	}
	if len(ct) == 0 || len(ct)%16 != 0 {
		return nil, fmt.Errorf("ref: bad ciphertext length %d", len(ct))
	}
	out := make([]byte, len(ct))
	cipher.NewCBCDecrypter(b, iv).CryptBlocks(out, ct)
	n := int(out[len(out)-1])
	if n < 1 || n > 16 || !bytes.Equal(out[len(out)-n:], bytes.Repeat([]byte{byte(n)}, n)) {
		return nil, fmt.Errorf("ref: bad padding")
	}
	return out[:len(out)-n], nil
}

// FingerprintHash is the iterated hash of the numeric fingerprint.
func FingerprintHash(iter uint32, id, key []byte) []byte {
	in := append([]byte{0, 0}, key...)
	in = append(in, id...)
	for i := uint32(0); i < iter; i++ {
		s := sha512.Sum512(append(append([]byte(nil), in...), key...))
		in = s[:]
	}
	return in
}

// FingerprintDigits is the 30-digit encoding of one side.
func FingerprintDigits(h []byte) string {
	s := ""
	for i := 0; i < 30; i += 5 {
		var v uint64
		for _, b := range h[i : i+5] {
			v = v<<8 | uint64(b)
		}
		s += fmt.Sprintf("%05d", v%100000)
	}
	return s
}

// FingerprintDisplay is the 60-digit number both sides show.
func FingerprintDisplay(a, b string) string {
	if a < b {
		return a + b
	}
	return b + a
}
