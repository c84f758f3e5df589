package main

import (
	"bytes"
	"crypto/ecdh"
	"encoding/base32"
	"encoding/base64"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/big"
	"reflect"
	"strings"

	"google.golang.org/protobuf/proto"

	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/harness/ref"
)

// watcher knows the secrets of a case and searches what the library puts out for them. Only C23 sets one; its cases
// run one at a time.
type watcher struct {
	t       *T
	win     map[uint64]string // 8 bytes of a secret -> what it is
	n       int               // secrets
	done    map[string]bool   // chain keys walked
	privs   [][]byte          // long-lived private keys
	recent  [][]byte          // ratchet keys
	pubs    [][]byte
	roots   [][]byte
	pairs   map[string]bool
	errs    bytes.Buffer
	kinds   map[string]int
	muted   int
	outputs []string
}

var watch *watcher

func newWatcher(t *T) *watcher {
	return &watcher{t: t, win: map[uint64]string{}, done: map[string]bool{}, pairs: map[string]bool{}, kinds: map[string]int{}}
}

// secret adds a secret. Windows with little in them could occur anywhere and are left out.
func (w *watcher) secret(kind string, b []byte) {
	if w == nil || len(b) < 8 {
		return
	}
	add := func(s []byte) {
		var set [256]bool
		d := 0
		for _, c := range s {
			if !set[c] {
				set[c] = true
				d++
			}
		}
		if d >= 6 {
			w.win[binary.LittleEndian.Uint64(s)] = kind
		}
	}
	for o := 0; o+8 <= len(b); o += 8 {
		add(b[o : o+8])
	}
	add(b[len(b)-8:])
	w.n++
	w.kinds[kind]++
}

func (w *watcher) plaintext(b []byte) {
	if w != nil {
		w.secret("a plaintext", b)
	}
}

func pubOf(priv []byte) []byte {
	k, err := ecdh.X25519().NewPrivateKey(priv)
	if err != nil {
		return nil
	}
	return k.PublicKey().Bytes()
}

// private adds a private key and what it agrees on with the public keys seen so far.
func (w *watcher) private(kind string, b []byte, lasting bool) {
	if w == nil || len(b) != 32 || w.pairs[string(b)] {
		return
	}
	w.pairs[string(b)] = true
	w.secret(kind, b)
	w.secret(kind, ref.Clamp(b))
	pub := pubOf(b)
	if lasting && len(w.privs) < 14 {
		w.privs = append(w.privs, clone(b))
	} else {
		if w.recent = append(w.recent, clone(b)); len(w.recent) > 6 {
			w.recent = w.recent[1:]
		}
	}
	for i, p := range w.pubs {
		if lasting || i >= len(w.pubs)-6 {
			w.agree(b, p, !lasting)
		}
	}
	w.public(pub)
}

func (w *watcher) public(p []byte) {
	if w == nil {
		return
	}
	if len(p) == 33 {
		p = p[1:]
	}
	if len(p) != 32 || w.pairs["p"+string(p)] {
		return
	}
	w.pairs["p"+string(p)] = true
	if w.pubs = append(w.pubs, clone(p)); len(w.pubs) > 20 {
		w.pubs = append(w.pubs[:0:0], w.pubs[4:]...)
	}
	for _, k := range w.privs {
		w.agree(k, p, false)
	}
	for _, k := range w.recent {
		w.agree(k, p, true)
	}
}

func (w *watcher) agree(priv, pub []byte, ratchet bool) {
	k, err := ecdh.X25519().NewPrivateKey(priv)
	if err != nil {
		return
	}
	q, err := ecdh.X25519().NewPublicKey(pub)
	if err != nil {
		return
	}
	dh, err := k.ECDH(q)
	if err != nil {
		return
	}
	w.secret("a shared secret", dh)
	if !ratchet {
		return
	}
	for _, r := range w.roots { // the keys in the middle of a ratchet step
		root, ck := ref.RootStep(r, dh)
		w.secret("a root key", root)
		w.secret("a chain key", ck)
	}
}

func (w *watcher) root(b []byte) {
	if len(b) != 32 || w.pairs["r"+string(b)] {
		return
	}
	w.pairs["r"+string(b)] = true
	w.secret("a root key", b)
	if w.roots = append(w.roots, clone(b)); len(w.roots) > 3 {
		w.roots = w.roots[1:]
	}
}

// chain adds a chain key and a few which follow it, with their message keys.
func (w *watcher) chain(ck []byte) {
	for i := 0; i < 4; i++ {
		if len(ck) != 32 || w.done[string(ck)] {
			return
		}
		w.done[string(ck)] = true
		w.secret("a chain key", ck)
		w.secret("a message key seed", ref.HMAC(ck, []byte{1}))
		k := ref.MessageKeys(ck)
		w.secret("a message key (cipher)", k.Cipher)
		w.secret("a message key (MAC)", k.MAC)
		ck = ref.NextChain(ck)
	}
}

func (w *watcher) groupChain(ck []byte) {
	for i := 0; i < 6; i++ {
		if len(ck) != 32 || w.done["g"+string(ck)] {
			return
		}
		w.done["g"+string(ck)] = true
		w.secret("a sender chain key", ck)
		w.secret("a group message key seed", ref.HMAC(ck, []byte{1}))
		_, k := ref.SenderMsgKeys(ck)
		w.secret("a group message key", k)
		ck = ref.NextChain(ck)
	}
}

func (w *watcher) state(s *v1.SessionStructure) {
	w.root(s.GetRootKey())
	for _, c := range append(append([]*v1.SessionStructure_Chain{}, s.GetReceiverChains()...), s.GetSenderChain()) {
		w.public(c.GetSenderRatchetKey())
		w.private("a ratchet private key", c.GetSenderRatchetKeyPrivate(), false)
		w.chain(c.GetChainKey().GetKey())
		ks := c.GetMessageKeys()
		if len(ks) > 40 {
			ks = ks[len(ks)-40:]
		}
		for _, k := range ks {
			if !w.done["m"+string(k.GetMacKey())] {
				w.done["m"+string(k.GetMacKey())] = true
				w.secret("a message key (cipher)", k.GetCipherKey())
				w.secret("a message key (MAC)", k.GetMacKey())
			}
		}
	}
}

func (w *watcher) record(r *session.Record) {
	if w == nil || r == nil {
		return
	}
	if st := r.State(); st != nil {
		w.state(structOf(st))
	}
}

func (w *watcher) group(r *session.GroupRecord) {
	if w == nil || r == nil {
		return
	}
	for _, s := range groupStructs(r) {
		w.groupChain(s.GetSenderChainKey().GetSeed())
		w.private("a group signing key", s.GetSenderSigningKey().GetPrivate(), true)
		ks := s.GetSenderMessageKeys()
		if len(ks) > 40 {
			ks = ks[len(ks)-40:]
		}
		for _, k := range ks {
			if !w.done["s"+string(k.GetSeed())] {
				w.done["s"+string(k.GetSeed())] = true
				w.secret("a group message key seed", k.GetSeed())
			}
		}
	}
}

// groupStructs finds the states in a group record.
func groupStructs(r *session.GroupRecord) (out []*v1.SenderKeyStateStructure) {
	var rec func(v reflect.Value, d int)
	rec = func(v reflect.Value, d int) {
		if !v.IsValid() || d > 20 {
			return
		}
		if v.Kind() == reflect.Pointer && v.Type().Implements(protoType) {
			if !v.IsNil() {
				if s, ok := reflect.NewAt(v.Type().Elem(), v.UnsafePointer()).Interface().(proto.Message).(*v1.SenderKeyStateStructure); ok {
					out = append(out, s)
				}
			}
			return
		}
		switch v.Kind() {
		case reflect.Pointer, reflect.Interface:
			if !v.IsNil() {
				rec(v.Elem(), d+1)
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				rec(v.Field(i), d+1)
			}
		case reflect.Slice, reflect.Array:
			if v.Type().Elem().Kind() != reflect.Uint8 {
				for i := 0; i < v.Len(); i++ {
					rec(v.Index(i), d+1)
				}
			}
		}
	}
	rec(reflect.ValueOf(r), 0)
	return
}

// wraps r so that what is drawn for private and chain keys is known.
type watchReader struct {
	w *watcher
	r io.Reader
}

func (r watchReader) Read(p []byte) (int, error) {
	n, err := r.r.Read(p)
	if n == 32 {
		r.w.secret("random bytes drawn for a key", p)
		r.w.private("a private key", p, false)
	}
	return n, err
}

// err looks at everything an error prints.
func (w *watcher) err(err error) {
	if w == nil || err == nil {
		return
	}
	for e, d := err, 0; e != nil && d < 10; e, d = errors.Unwrap(e), d+1 {
		w.errs.WriteString(e.Error())
		w.errs.WriteByte('\n')
		fmt.Fprintf(&w.errs, "%+v\n", e)
	}
	w.t.Count("errors searched", 1)
	m := w.t.mute
	w.t.mute = false
	w.t.Seen("error", shapeOf(err.Error()))
	w.t.mute = m
}

// shapeOf strips what varies in a line of output.
func shapeOf(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	var b strings.Builder
	digit := false
	for _, c := range s {
		if c >= '0' && c <= '9' || c >= 'a' && c <= 'f' && digit {
			if !digit {
				b.WriteByte('#')
			}
			digit = true
			continue
		}
		digit = false
		b.WriteRune(c)
	}
	if b.Len() > 60 {
		return b.String()[:60]
	}
	return b.String()
}

// raw searches bytes for a secret.
func (w *watcher) raw(b []byte) (string, int, bool) {
	for i := 0; i+8 <= len(b); i++ {
		if k, ok := w.win[binary.LittleEndian.Uint64(b[i:])]; ok {
			return k, i, true
		}
	}
	return "", 0, false
}

// find searches output for secrets, as they are and behind every usual way of printing bytes.
func (w *watcher) find(out []byte) (what string, found bool) {
	hit := func(enc string, b []byte) bool {
		if k, _, ok := w.raw(b); ok {
			what, found = k+" ("+enc+")", true
		}
		return found
	}
	if hit("raw", out) {
		return
	}
	if hit("escaped", unescape(out)) {
		return
	}
	// hexadecimal, with or without separators
	var nib []byte
	flush := func() bool {
		defer func() { nib = nib[:0] }()
		if len(nib) < 16 {
			return false
		}
		for a := 0; a < 2; a++ {
			b := make([]byte, 0, len(nib)/2)
			for i := a; i+1 < len(nib); i += 2 {
				b = append(b, nib[i]<<4|nib[i+1])
			}
			if hit("hexadecimal", b) {
				return true
			}
		}
		return false
	}
	for i, c := range out {
		switch {
		case c >= '0' && c <= '9':
			nib = append(nib, c-'0')
		case c >= 'a' && c <= 'f':
			nib = append(nib, c-'a'+10)
		case c >= 'A' && c <= 'F':
			nib = append(nib, c-'A'+10)
		case (c == 'x' || c == 'X') && i > 0 && out[i-1] == '0' && len(nib) > 0:
			nib = nib[:len(nib)-1]
		case strings.IndexByte(" :,-._\\|/", c) >= 0:
		default:
			if flush() {
				return
			}
		}
	}
	if flush() {
		return
	}
	// base64 and base32
	run := func(enc string, in func(c byte) (byte, bool), min, offs int, dec func(s string) []byte) bool {
		var r []byte
		end := func() bool {
			defer func() { r = r[:0] }()
			if len(r) < min {
				return false
			}
			for o := 0; o < offs && o < len(r); o++ {
				if hit(enc, dec(string(r[o:]))) {
					return true
				}
			}
			return false
		}
		for _, c := range out {
			if d, ok := in(c); ok {
				r = append(r, d)
			} else if end() {
				return true
			}
		}
		return end()
	}
	if run("base64", func(c byte) (byte, bool) {
		switch {
		case c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '+' || c == '/':
			return c, true
		case c == '-':
			return '+', true
		case c == '_':
			return '/', true
		}
		return 0, false
	}, 11, 4, func(s string) []byte {
		b, _ := base64.RawStdEncoding.DecodeString(s[:len(s)/4*4])
		if r := len(s) % 4; r > 1 {
			if t, err := base64.RawStdEncoding.DecodeString(s[len(s)-r:]); err == nil {
				b = append(b, t...)
			}
		}
		return b
	}) {
		return
	}
	if run("base32", func(c byte) (byte, bool) {
		switch {
		case c >= '2' && c <= '7' || c >= 'A' && c <= 'Z':
			return c, true
		case c >= 'a' && c <= 'z':
			return c - 32, true
		}
		return 0, false
	}, 13, 8, func(s string) []byte {
		b, _ := base32.StdEncoding.WithPadding(base32.NoPadding).DecodeString(s[:len(s)/8*8])
		return b
	}) {
		return
	}
	// lists of numbers, and big numbers
	for base, enc := range map[int]string{10: "decimal list", 16: "hexadecimal list", 8: "octal list", 2: "binary list"} {
		var list []byte
		for i := 0; i < len(out); {
			c := out[i]
			if !alnum(c) {
				i++
				continue
			}
			j := i
			for j < len(out) && alnum(out[j]) {
				j++
			}
			v, ok := number(out[i:j], base)
			if ok {
				list = append(list, v)
			}
			if !ok || j == len(out) {
				if len(list) >= 8 && hit(enc, list) {
					return
				}
				list = list[:0]
			}
			i = j
		}
		if len(list) >= 8 && hit(enc, list) {
			return
		}
	}
	for i := 0; i < len(out); i++ {
		j := i
		for j < len(out) && out[j] >= '0' && out[j] <= '9' {
			j++
		}
		if j-i >= 19 && j-i < 2000 {
			n, _ := new(big.Int).SetString(string(out[i:j]), 10)
			b := n.Bytes()
			if hit("number", b) {
				return
			}
			for x, y := 0, len(b)-1; x < y; x, y = x+1, y-1 {
				b[x], b[y] = b[y], b[x]
			}
			if hit("number", b) {
				return
			}
		}
		if j > i {
			i = j
		}
	}
	return
}

func alnum(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// number parses a token as a byte.
func number(s []byte, base int) (byte, bool) {
	if len(s) > 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') {
		if base != 16 {
			return 0, false
		}
		s = s[2:]
	}
	if len(s) > 9 {
		return 0, false
	}
	v := 0
	for _, c := range s {
		d := 99
		switch {
		case c >= '0' && c <= '9':
			d = int(c - '0')
		case c >= 'a' && c <= 'f':
			d = int(c-'a') + 10
		case c >= 'A' && c <= 'F':
			d = int(c-'A') + 10
		}
		if d >= base {
			return 0, false
		}
		v = v*base + d
	}
	return byte(v), v < 256
}

// unescape undoes the escapes of Go, C, protobuf text and URLs.
func unescape(in []byte) []byte {
	hex := func(b []byte) (int, bool) {
		v := 0
		for _, c := range b {
			switch {
			case c >= '0' && c <= '9':
				v = v<<4 | int(c-'0')
			case c >= 'a' && c <= 'f':
				v = v<<4 | int(c-'a'+10)
			case c >= 'A' && c <= 'F':
				v = v<<4 | int(c-'A'+10)
			default:
				return 0, false
			}
		}
		return v, true
	}
	out := make([]byte, 0, len(in))
	for i := 0; i < len(in); i++ {
		c := in[i]
		if c == '%' && i+2 < len(in) {
			if v, ok := hex(in[i+1 : i+3]); ok {
				out = append(out, byte(v))
				i += 2
				continue
			}
		}
		if c != '\\' || i+1 >= len(in) {
			out = append(out, c)
			continue
		}
		i++
		switch e := in[i]; e {
		case 'n', 't', 'r', 'a', 'b', 'f', 'v':
			out = append(out, map[byte]byte{'n': 10, 't': 9, 'r': 13, 'a': 7, 'b': 8, 'f': 12, 'v': 11}[e])
		case 'x', 'u', 'U':
			n := map[byte]int{'x': 2, 'u': 4, 'U': 8}[e]
			if i+n < len(in) {
				if v, ok := hex(in[i+1 : i+1+n]); ok {
					if e == 'x' {
						out = append(out, byte(v))
					} else {
						out = append(out, string(rune(v))...)
					}
					i += n
					continue
				}
			}
			out = append(out, e)
		case '0', '1', '2', '3', '4', '5', '6', '7':
			v, k := 0, 0
			for k < 3 && i+k < len(in) && in[i+k] >= '0' && in[i+k] <= '7' {
				v = v<<3 | int(in[i+k]-'0')
				k++
			}
			out = append(out, byte(v))
			i += k - 1
		default:
			out = append(out, e)
		}
	}
	return out
}
