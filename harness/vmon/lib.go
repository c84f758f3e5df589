package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"reflect"
	"sort"
	"unsafe"

	"google.golang.org/protobuf/proto"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/direction"
	"github.com/RTann/libsignal-go/protocol/distribution"
	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/protocol"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/harness/ref"
)

var ctx = context.Background()

var errInjected = errors.New("injected fault")

// Stores wraps the library's in-memory stores at the public interfaces: every operation passes a hook that may log
// it or make it fail (before it has any effect).
type Stores struct {
	in   protocol.Store
	hook func(op string) error
	// trust overrides the in-memory trust decision if set.
	trust func(a address.Address, k identity.Key, d direction.Direction) (bool, error)
	// persist makes the session store keep serialized states only, as a database would.
	persist map[address.Address]savedRecord
	// ptrs makes the session store hand out the very records it was given.
	ptrs    map[address.Address]*session.Record
	log     []storeOp
	logging bool
	// scope is told about every access: the context it came with, the operation and the key.
	scope func(c context.Context, op string, key any)
}

type savedRecord struct {
	cur  []byte
	prev [][]byte
}

type storeOp struct {
	Op  string
	Key string
}

func newStores(kp identity.KeyPair, reg uint32) *Stores {
	return &Stores{in: protocol.NewInMemStore(kp, reg)}
}

func (s *Stores) at(c context.Context, op string, key any) error {
	if s.scope != nil {
		s.scope(c, op, key)
	}
	if s.logging {
		s.log = append(s.log, storeOp{op, fmt.Sprint(key)})
	}
	if s.hook != nil {
		return s.hook(op)
	}
	return nil
}

type sessStore struct{ s *Stores }

func (w sessStore) Load(c context.Context, a address.Address) (*session.Record, bool, error) {
	if err := w.s.at(c, "session.Load", a); err != nil {
		return nil, false, err
	}
	if w.s.persist != nil {
		sr, ok := w.s.persist[a]
		if !ok {
			return nil, false, nil
		}
		return sr.record(), true, nil
	}
	if w.s.ptrs != nil {
		r, ok := w.s.ptrs[a]
		return r, ok, nil
	}
	return w.s.in.SessionStore().Load(c, a)
}

func (w sessStore) Store(c context.Context, a address.Address, r *session.Record) error {
	watch.record(r)
	if err := w.s.at(c, "session.Store", a); err != nil {
		return err
	}
	if w.s.persist != nil {
		w.s.persist[a] = save(r)
		return nil
	}
	if w.s.ptrs != nil {
		w.s.ptrs[a] = r
		return nil
	}
	return w.s.in.SessionStore().Store(c, a, r)
}

func save(r *session.Record) savedRecord {
	var sr savedRecord
	if st := r.State(); st != nil {
		sr.cur = st.Bytes()
	}
	prev, err := r.PreviousStates()
	if err != nil {
		panic(err)
	}
	for _, p := range prev {
		sr.prev = append(sr.prev, p.Bytes())
	}
	return sr
}

// record rebuilds a record from its serialized states through the public API.
func (sr savedRecord) record() *session.Record {
	r := session.NewRecord(nil)
	put := func(b []byte) {
		x, err := session.NewRecordBytes(b)
		if err != nil {
			panic(fmt.Sprintf("cannot parse saved state: %v", err))
		}
		r.PromoteState(x.State())
	}
	for _, p := range sr.prev {
		put(p)
	}
	if sr.cur != nil {
		put(sr.cur)
	}
	return r
}

type groupStore struct{ s *Stores }

func (w groupStore) Load(c context.Context, a address.Address, d distribution.ID) (*session.GroupRecord, bool, error) {
	if err := w.s.at(c, "group.Load", groupKey{a, d}); err != nil {
		return nil, false, err
	}
	return w.s.in.GroupStore().Load(c, a, d)
}

func (w groupStore) Store(c context.Context, a address.Address, d distribution.ID, r *session.GroupRecord) error {
	watch.group(r)
	if err := w.s.at(c, "group.Store", groupKey{a, d}); err != nil {
		return err
	}
	return w.s.in.GroupStore().Store(c, a, d, r)
}

type preStore struct{ s *Stores }

func (w preStore) Load(c context.Context, id prekey.ID) (*prekey.PreKey, bool, error) {
	if err := w.s.at(c, "prekey.Load", id); err != nil {
		return nil, false, err
	}
	return w.s.in.PreKeyStore().Load(c, id)
}

func (w preStore) Store(c context.Context, id prekey.ID, p *prekey.PreKey) error {
	if err := w.s.at(c, "prekey.Store", id); err != nil {
		return err
	}
	return w.s.in.PreKeyStore().Store(c, id, p)
}

func (w preStore) Delete(c context.Context, id prekey.ID) error {
	if err := w.s.at(c, "prekey.Delete", id); err != nil {
		return err
	}
	return w.s.in.PreKeyStore().Delete(c, id)
}

type signedStore struct{ s *Stores }

func (w signedStore) Load(c context.Context, id prekey.ID) (*prekey.SignedPreKey, bool, error) {
	if err := w.s.at(c, "signed.Load", id); err != nil {
		return nil, false, err
	}
	return w.s.in.SignedPreKeyStore().Load(c, id)
}

func (w signedStore) Store(c context.Context, id prekey.ID, p *prekey.SignedPreKey) error {
	if err := w.s.at(c, "signed.Store", id); err != nil {
		return err
	}
	return w.s.in.SignedPreKeyStore().Store(c, id, p)
}

type identStore struct{ s *Stores }

func (w identStore) KeyPair(c context.Context) identity.KeyPair {
	if w.s.scope != nil {
		w.s.scope(c, "identity.KeyPair", nil)
	}
	return w.s.in.IdentityStore().KeyPair(c)
}
func (w identStore) LocalRegistrationID(c context.Context) uint32 {
	if w.s.scope != nil {
		w.s.scope(c, "identity.LocalRegistrationID", nil)
	}
	return w.s.in.IdentityStore().LocalRegistrationID(c)
}
func (w identStore) Load(c context.Context, a address.Address) (identity.Key, bool, error) {
	if err := w.s.at(c, "identity.Load", a); err != nil {
		return identity.Key{}, false, err
	}
	return w.s.in.IdentityStore().Load(c, a)
}
func (w identStore) Store(c context.Context, a address.Address, k identity.Key) (bool, error) {
	if err := w.s.at(c, "identity.Store", a); err != nil {
		return false, err
	}
	return w.s.in.IdentityStore().Store(c, a, k)
}
func (w identStore) Clear() error {
	if w.s.scope != nil {
		w.s.scope(nil, "identity.Clear", nil)
	}
	return w.s.in.IdentityStore().Clear()
}
func (w identStore) IsTrustedIdentity(c context.Context, a address.Address, k identity.Key, d direction.Direction) (bool, error) {
	if err := w.s.at(c, "identity.IsTrusted", a); err != nil {
		return false, err
	}
	if w.s.trust != nil {
		return w.s.trust(a, k, d)
	}
	return w.s.in.IdentityStore().IsTrustedIdentity(c, a, k, d)
}

// Party is one user device running the library.
type Party struct {
	Addr address.Address
	KP   identity.KeyPair
	Reg  uint32
	St   *Stores
	R    io.Reader
	Rng  *rand.Rand

	PreKeys map[prekey.ID]*curve.KeyPair // every one-time pre-key ever made
	Signed  map[prekey.ID]*signedPK
	curSPK  prekey.ID
	nextPK  prekey.ID
	nextSPK prekey.ID
	Known   []address.Address // addresses this party ever talked about (for snapshots)
	// onCall is told about every call of a simulation before it is made, and supplies its context.
	onCall func(call string, remote address.Address, d distribution.ID, msg []byte) context.Context
	// onDone is told about what a call gave.
	onDone func(out []byte, err error)
	// bundle is the one being processed.
	bundle *prekey.Bundle
	// objects, if set, makes the party keep its session objects.
	objects *objects
}

// objects are session objects in use for long.
type objects struct {
	n      int
	one    map[address.Address][]*session.Session
	groups map[groupKey][]*session.GroupSession
}

// pick makes or picks one of two objects.
func (o *objects) pick() int {
	o.n++
	return [...]int{0, 1, 0, 0, 1, 1, 0}[o.n%7]
}

// done announces what a call gave.
func (p *Party) done(out []byte, err error) {
	if p.onDone != nil {
		p.onDone(out, err)
	}
}

// begin announces a call and returns the context to make it with.
func (p *Party) begin(call string, remote address.Address, d distribution.ID, msg []byte) context.Context {
	if p.onCall != nil {
		return p.onCall(call, remote, d, msg)
	}
	return ctx
}

type signedPK struct {
	kp  *curve.KeyPair
	sig []byte
}

func must[X any](x X, err error) X {
	if err != nil {
		panic(fmt.Sprintf("setup failed: %v", err))
	}
	return x
}

func newParty(t *T, name string, dev uint32) *Party {
	kp := must(identity.GenerateKeyPair(t.R))
	return newPartyKey(t, name, dev, kp)
}

func newPartyKey(t *T, name string, dev uint32, kp identity.KeyPair) *Party {
	reg := t.Rng.Uint32()
	p := &Party{
		Addr: address.Address{Name: name, DeviceID: address.DeviceID(dev)}, KP: kp, Reg: reg,
		St: newStores(kp, reg), R: t.R, Rng: t.Rng,
		PreKeys: map[prekey.ID]*curve.KeyPair{}, Signed: map[prekey.ID]*signedPK{},
		nextPK: prekey.ID(1 + t.Rng.Uint32N(1000)), nextSPK: prekey.ID(t.Rng.Uint32N(1000)),
	}
	if watch != nil {
		watch.private("an identity private key", kp.PrivateKey().Bytes(), true)
		p.R = watchReader{watch, p.R}
	}
	switch t.Rng.IntN(4) {
	case 0: // ids over the upper half of the 32-bit range
		p.nextPK |= 1 << 31
		p.nextSPK |= 1 << 31
	case 1:
		p.nextPK += 1 << 24
		p.nextSPK += 1 << 16
	}
	p.RotateSigned()
	return p
}

func (p *Party) NewPreKey() prekey.ID {
	id := p.nextPK
	p.nextPK++
	p.AddPreKey(id)
	return id
}

func (p *Party) AddPreKey(id prekey.ID) {
	kp := must(curve.GenerateKeyPair(p.R))
	watch.private("a one-time pre-key", kp.PrivateKey().Bytes(), true)
	p.PreKeys[id] = kp
	if err := p.St.in.PreKeyStore().Store(ctx, id, prekey.NewPreKey(id, kp)); err != nil {
		panic(err)
	}
}

func (p *Party) RotateSigned() prekey.ID {
	id := p.nextSPK
	p.nextSPK++
	p.AddSigned(id)
	return id
}

func (p *Party) AddSigned(id prekey.ID) {
	kp := must(curve.GenerateKeyPair(p.R))
	watch.private("a signed pre-key", kp.PrivateKey().Bytes(), true)
	sig := must(p.KP.PrivateKey().Sign(p.R, kp.PublicKey().Bytes()))
	p.Signed[id] = &signedPK{kp, sig}
	if err := p.St.in.SignedPreKeyStore().Store(ctx, id, prekey.NewSigned(id, 42, kp, sig)); err != nil {
		panic(err)
	}
	p.curSPK = id
}

// Bundle publishes a pre-key bundle, with a fresh one-time pre-key if oneTime.
func (p *Party) Bundle(oneTime bool) *prekey.Bundle {
	s := p.Signed[p.curSPK]
	b := &prekey.Bundle{
		RegistrationID: p.Reg, DeviceID: p.Addr.DeviceID,
		SignedPreKeyID: p.curSPK, SignedPreKeyPublic: s.kp.PublicKey(), SignedPreKeySignature: s.sig,
		IdentityKey: p.KP.IdentityKey(),
	}
	if oneTime {
		id := p.NewPreKey()
		b.PreKeyID, b.PreKeyPublic = &id, p.PreKeys[id].PublicKey()
	}
	return b
}

func refBundle(b *prekey.Bundle) *ref.Bundle {
	r := &ref.Bundle{RegID: b.RegistrationID, SignedID: uint32(b.SignedPreKeyID), SignedKey: b.SignedPreKeyPublic.Bytes(), Sig: b.SignedPreKeySignature, Identity: b.IdentityKey.Bytes()}
	if b.PreKeyID != nil {
		v := uint32(*b.PreKeyID)
		r.PreKeyID = &v
		r.PreKey = b.PreKeyPublic.Bytes()
	}
	return r
}

func (p *Party) know(a address.Address) {
	for _, x := range p.Known {
		if x == a {
			return
		}
	}
	p.Known = append(p.Known, a)
}

// Session is the library session object of this party with a remote address.
func (p *Party) Session(remote address.Address) *session.Session {
	p.know(remote)
	if o := p.objects; o != nil {
		if o.one[remote] == nil {
			o.one[remote] = []*session.Session{p.newSession(remote), p.newSession(remote)}
		}
		return o.one[remote][o.pick()]
	}
	return p.newSession(remote)
}

func (p *Party) newSession(remote address.Address) *session.Session {
	return &session.Session{
		RemoteAddress: remote, SessionStore: sessStore{p.St}, PreKeyStore: preStore{p.St},
		SignedPreKeyStore: signedStore{p.St}, IdentityKeyStore: identStore{p.St},
	}
}

// Group is the library group session of this party for a sender.
func (p *Party) Group(sender address.Address, d distribution.ID) *session.GroupSession {
	if o := p.objects; o != nil {
		k := groupKey{sender, d}
		if o.groups[k] == nil {
			o.groups[k] = []*session.GroupSession{p.newGroup(sender, d), p.newGroup(sender, d)}
		}
		return o.groups[k][o.pick()]
	}
	return p.newGroup(sender, d)
}

func (p *Party) newGroup(sender address.Address, d distribution.ID) *session.GroupSession {
	return &session.GroupSession{SenderAddress: sender, DistID: d, SenderKeyStore: groupStore{p.St}}
}

// parseWire turns received bytes into a message object, as a receiver does.
func parseWire(typ message.CiphertextType, b []byte) (message.Ciphertext, error) {
	b = append([]byte(nil), b...)
	switch typ {
	case message.WhisperType:
		return message.NewSignalFromBytes(b)
	case message.PreKeyType:
		return message.NewPreKeyFromBytes(b)
	}
	return nil, fmt.Errorf("unknown type %d", typ)
}

// receive parses and decrypts.
func (p *Party) receive(from address.Address, typ message.CiphertextType, b []byte) ([]byte, error) {
	m, err := parseWire(typ, b)
	if err != nil {
		watch.err(err)
		return nil, err
	}
	pt, err := p.Session(from).DecryptMessage(p.begin("decrypt", from, distribution.ID{}, m.Bytes()), p.R, m)
	watch.err(err)
	p.done(pt, err)
	return pt, err
}

// inner returns the Signal message inside a wire message.
func inner(typ message.CiphertextType, b []byte) []byte {
	if typ != message.PreKeyType {
		return b
	}
	m, err := ref.ParsePreKey(b)
	if err != nil {
		return nil
	}
	return m.Message
}

// rawRecord loads a record for inspection, bypassing the hooks.
func (p *Party) rawRecord(a address.Address) *session.Record {
	if p.St.persist != nil {
		sr, ok := p.St.persist[a]
		if !ok {
			return nil
		}
		return sr.record()
	}
	if p.St.ptrs != nil {
		return p.St.ptrs[a]
	}
	r, ok, err := p.St.in.SessionStore().Load(ctx, a)
	if err != nil || !ok {
		return nil
	}
	return r
}

func structOf(st *session.State) *v1.SessionStructure {
	s := new(v1.SessionStructure)
	if err := proto.Unmarshal(st.Bytes(), s); err != nil {
		panic(err)
	}
	return s
}

// snapshot captures everything a party stores, as printable lines.
func (p *Party) snapshot(groups []groupKey) []string {
	var out []string
	for _, a := range p.Known {
		if r := p.rawRecord(a); r != nil {
			sr := save(r)
			out = append(out, fmt.Sprintf("session %v current %x", a, sr.cur))
			for i, b := range sr.prev {
				out = append(out, fmt.Sprintf("session %v archived %d %x", a, i, b))
			}
		}
		if k, ok, _ := p.St.in.IdentityStore().Load(ctx, a); ok {
			out = append(out, fmt.Sprintf("identity %v %x", a, k.Bytes()))
		}
	}
	var ids []prekey.ID
	for id := range p.PreKeys {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for _, id := range ids {
		if k, ok, _ := p.St.in.PreKeyStore().Load(ctx, id); ok {
			kp := must(k.KeyPair())
			out = append(out, fmt.Sprintf("prekey %d %x", id, kp.PrivateKey().Bytes()))
		}
	}
	ids = ids[:0]
	for id := range p.Signed {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for _, id := range ids {
		if k, ok, _ := p.St.in.SignedPreKeyStore().Load(ctx, id); ok {
			kp := must(k.KeyPair())
			out = append(out, fmt.Sprintf("signed %d %x", id, kp.PrivateKey().Bytes()))
		}
	}
	out = append(out, fmt.Sprintf("own %x %d", p.St.in.IdentityStore().KeyPair(ctx).PublicKey().Bytes(), p.St.in.IdentityStore().LocalRegistrationID(ctx)))
	for _, g := range groups {
		if r, ok, _ := p.St.in.GroupStore().Load(ctx, g.sender, g.dist); ok {
			out = append(out, fmt.Sprintf("group %v %v %v", g.sender, g.dist, dump(r)))
		}
	}
	return out
}

type groupKey struct {
	sender address.Address
	dist   distribution.ID
}

func diffSnap(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "<none>", "<none>"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("before: %s\nafter:  %s", clip(x), clip(y))
		}
	}
	return ""
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

// dump renders everything reachable from v (following unexported fields), protobuf messages in their serialized form.
// It depends on values only, not on the names or layout of the library's types.
func dump(v any) string {
	var b bytes.Buffer
	walk(reflect.ValueOf(v), &b, map[uintptr]bool{}, 0)
	return b.String()
}

var protoType = reflect.TypeOf((*proto.Message)(nil)).Elem()

func walk(v reflect.Value, w *bytes.Buffer, seen map[uintptr]bool, depth int) {
	if !v.IsValid() || depth > 40 {
		w.WriteString("-")
		return
	}
	if v.Kind() == reflect.Pointer && v.Type().Implements(protoType) && !v.IsNil() {
		m := reflect.NewAt(v.Type().Elem(), v.UnsafePointer()).Interface().(proto.Message)
		b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
		fmt.Fprintf(w, "pb(%x,%v)", b, err)
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			w.WriteString("nil")
			return
		}
		if seen[v.Pointer()] {
			w.WriteString("^")
			return
		}
		seen[v.Pointer()] = true
		walk(v.Elem(), w, seen, depth+1)
	case reflect.Interface:
		if v.IsNil() {
			w.WriteString("nil")
			return
		}
		walk(v.Elem(), w, seen, depth+1)
	case reflect.Struct:
		w.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				w.WriteString(",")
			}
			walk(v.Field(i), w, seen, depth+1)
		}
		w.WriteString("}")
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			w.WriteString("x")
			for i := 0; i < v.Len(); i++ {
				fmt.Fprintf(w, "%02x", v.Index(i).Uint())
			}
			return
		}
		w.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				w.WriteString(",")
			}
			walk(v.Index(i), w, seen, depth+1)
		}
		w.WriteString("]")
	case reflect.Map:
		var ls []string
		it := v.MapRange()
		for it.Next() {
			var kb bytes.Buffer
			walk(it.Key(), &kb, seen, depth+1)
			kb.WriteString(":")
			walk(it.Value(), &kb, seen, depth+1)
			ls = append(ls, kb.String())
		}
		sort.Strings(ls)
		fmt.Fprintf(w, "map%v", ls)
	case reflect.String:
		fmt.Fprintf(w, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(w, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(w, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(w, v.Uint())
	default:
		fmt.Fprint(w, v.Kind())
	}
}

// findField returns the first value of type want reachable through the fields of v.
func findField(v reflect.Value, want reflect.Type, depth int) (reflect.Value, bool) {
	if !v.IsValid() || depth > 4 {
		return v, false
	}
	if v.Type() == want {
		if v.CanAddr() {
			return reflect.NewAt(want, unsafe.Pointer(v.UnsafeAddr())).Elem(), true
		}
		return v, true
	}
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			return findField(v.Elem(), want, depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if r, ok := findField(v.Field(i), want, depth+1); ok {
				return r, true
			}
		}
	}
	return v, false
}

func plaintextOf(rng *rand.Rand, r io.Reader) []byte {
	var n int
	switch rng.IntN(12) {
	case 0:
		n = 0
	case 1:
		n = 15 + rng.IntN(3)
	case 2:
		n = 16 * rng.IntN(5)
	case 3:
		n = rng.IntN(3000)
	default:
		n = rng.IntN(100)
	}
	b := make([]byte, n)
	io.ReadFull(r, b)
	if n > 0 && rng.IntN(6) == 0 { // looks like padding
		c := byte(1 + rng.IntN(17))
		for i := range b {
			b[i] = c
		}
	}
	watch.plaintext(b)
	return b
}

func hexs(b []byte) string {
	if len(b) > 80 {
		return fmt.Sprintf("%x..(%d)", b[:80], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func clone(b []byte) []byte { return append([]byte(nil), b...) }

// fork copies a party: same keys, own stores with the same contents. What happens to the copy does not touch p.
func (p *Party) fork(groups ...groupKey) *Party {
	q := *p
	q.onCall, q.onDone, q.objects = nil, nil, nil
	q.St = newStores(p.KP, p.Reg)
	q.St.trust = p.St.trust
	if p.St.persist != nil {
		q.St.persist = map[address.Address]savedRecord{}
		for a, r := range p.St.persist {
			q.St.persist[a] = r
		}
	}
	q.Known = append([]address.Address(nil), p.Known...)
	for _, a := range p.Known {
		if p.St.persist == nil {
			if r, ok, err := p.St.in.SessionStore().Load(ctx, a); ok && err == nil {
				q.St.in.SessionStore().Store(ctx, a, r)
			}
		}
		if k, ok, err := p.St.in.IdentityStore().Load(ctx, a); ok && err == nil {
			q.St.in.IdentityStore().Store(ctx, a, k)
		}
	}
	q.PreKeys = map[prekey.ID]*curve.KeyPair{}
	for id, kp := range p.PreKeys {
		q.PreKeys[id] = kp
		if k, ok, err := p.St.in.PreKeyStore().Load(ctx, id); ok && err == nil {
			q.St.in.PreKeyStore().Store(ctx, id, k)
		}
	}
	q.Signed = map[prekey.ID]*signedPK{}
	for id, s := range p.Signed {
		q.Signed[id] = s
		if k, ok, err := p.St.in.SignedPreKeyStore().Load(ctx, id); ok && err == nil {
			q.St.in.SignedPreKeyStore().Store(ctx, id, k)
		}
	}
	for _, g := range groups {
		if r, ok, err := p.St.in.GroupStore().Load(ctx, g.sender, g.dist); ok && err == nil {
			q.St.in.GroupStore().Store(ctx, g.sender, g.dist, r)
		}
	}
	return &q
}
