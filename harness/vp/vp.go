// Package vp is the harness interface: every function here is symbolic when the
// harness runs in the engine and reads a recorded model when it runs natively.
package vp

import (
	"bufio"
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

// ---- native state

type exitSignal struct{ code int }
type assumeSignal struct{}

var st struct {
	vals     map[string]uint64
	fresh    map[string]int
	failed   []string
	log      []string
	reach    []string
	thorough bool
	hashed   int
	now      time.Time
}

var resets []func()

// OnReset registers a function that clears model state before each native run.
func OnReset(f func()) { resets = append(resets, f) }

func name(p string) string {
	k := st.fresh[p]
	st.fresh[p] = k + 1
	if k == 0 {
		return p
	}
	return fmt.Sprintf("%s#%d", p, k+1)
}

// ---- symbolic inputs

func Bool(n string) bool { return st.vals[name(n)] != 0 }
func Byte(n string) byte { return byte(st.vals[name(n)]) }
func Int64(n string) int64 {
	return int64(st.vals[name(n)])
}

// Int is an integer in [lo,hi].
func Int(n string, lo, hi int) int {
	v, ok := st.vals[name(n)]
	if !ok {
		return int(unset(int64(lo), int64(hi)))
	}
	return int(v)
}

// Int64In is an integer in [lo,hi].
func Int64In(n string, lo, hi int64) int64 {
	v, ok := st.vals[name(n)]
	if !ok {
		return unset(lo, hi)
	}
	return int64(v)
}

// unset is the value the solver means by not mentioning one.
func unset(lo, hi int64) int64 {
	if lo <= 0 && 0 <= hi {
		return 0
	}
	return lo
}

// Bytes is n arbitrary bytes.
func Bytes(n string, k int) []byte {
	nm := name(n)
	b := make([]byte, k)
	for i := range b {
		b[i] = byte(st.vals[fmt.Sprintf("%s.%d", nm, i)])
	}
	return b
}

// Str is a string of k ASCII characters.
func Str(n string, k int) string { return string(Bytes(n, k)) }

// StrIn is a string of k characters of alphabet.
func StrIn(n string, k int, alphabet string) string {
	nm := name(n)
	b := make([]byte, k)
	for i := range b {
		v, ok := st.vals[fmt.Sprintf("%s.%d", nm, i)]
		if !ok {
			v = uint64(alphabet[0])
		}
		b[i] = byte(v)
	}
	return string(b)
}

// Choice is 0..n-1, one path each.
func Choice(n string, k int) int { return int(st.vals[name(n)]) }

// Opaque is n bytes of content that nothing inspects.
func Opaque(n string, k int64) []byte { return make([]byte, k) }

// ---- control

func Assume(c bool) {
	if !c {
		panic(assumeSignal{})
	}
}
func Assert(c bool, label string) {
	if !c {
		for _, f := range st.failed {
			if f == label {
				return
			}
		}
		st.failed = append(st.failed, label)
	}
}
func Reach(label string)   { st.reach = append(st.reach, label) }
func SetMapOrder(mode int) {}
func Thorough() bool       { return st.thorough }
func InEngine() bool       { return false }

// Plain tells that b isn't a document of symbolic length.
func Plain(b []byte) bool { return true }

func Exit(code int)              { panic(exitSignal{code}) }
func Len64(b []byte) int64       { return int64(len(b)) }
func SameBytes(a, b []byte) bool { return bytes.Equal(a, b) }

// Pick returns quick or thorough depending on the tier.
func Pick(quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}

// Log records an observation compared between engine and native runs.
func Log(args ...any) {
	var p []string
	for _, a := range args {
		p = append(p, logOne(a))
	}
	st.log = append(st.log, strings.Join(p, " "))
}

func logOne(a any) string {
	switch v := a.(type) {
	case nil:
		return "nil"
	case bool:
		return strconv.FormatBool(v)
	case string:
		return v
	case []byte:
		return hex.EncodeToString(v)
	case int, int64, int32, int16, int8, uint, uint8, uint16, uint32, uint64:
		return fmt.Sprint(v)
	case error:
		return "err"
	}
	return "?"
}

// Dump prints s while a harness is being developed.
func Dump(s string) { fmt.Fprintln(os.Stderr, "DUMP", s) }

// Now is the reference instant (whole seconds, UTC).
func Now() time.Time { return st.now }

// ---- documents

// J describes a JSON value. K: 0 null, 1 bool, 2 int64, 3 literal text, 4 string, 5 array, 6 object.
type J struct {
	K    int
	S    string
	N    int64
	B    bool
	Keys []string
	Vals []*J
}

func Null() *J         { return &J{} }
func B(b bool) *J      { return &J{K: 1, B: b} }
func N(n int64) *J     { return &J{K: 2, N: n} }
func Lit(s string) *J  { return &J{K: 3, S: s} }
func S(s string) *J    { return &J{K: 4, S: s} }
func A(v ...*J) *J     { return &J{K: 5, Vals: v} }
func T(t time.Time) *J { return &J{K: 4, S: t.UTC().Format(time.RFC3339)} }
func Strs(v ...string) *J {
	a := &J{K: 5}
	for _, s := range v {
		a.Vals = append(a.Vals, S(s))
	}
	return a
}

// O builds an object from alternating names (string) and values (*J).
func O(kv ...any) *J {
	o := &J{K: 6}
	for i := 0; i+1 < len(kv); i += 2 {
		o.Keys = append(o.Keys, kv[i].(string))
		o.Vals = append(o.Vals, kv[i+1].(*J))
	}
	return o
}

// Put sets or adds a member.
func (o *J) Put(k string, v *J) *J {
	for i := range o.Keys {
		if o.Keys[i] == k {
			o.Vals[i] = v
			return o
		}
	}
	o.Keys = append(o.Keys, k)
	o.Vals = append(o.Vals, v)
	return o
}

// Add appends a member even when the name exists already.
func (o *J) Add(k string, v *J) *J {
	o.Keys = append(o.Keys, k)
	o.Vals = append(o.Vals, v)
	return o
}

// Del removes a member.
func (o *J) Del(k string) *J {
	for i := range o.Keys {
		if o.Keys[i] == k {
			o.Keys = append(append([]string{}, o.Keys[:i]...), o.Keys[i+1:]...)
			o.Vals = append(append([]*J{}, o.Vals[:i]...), o.Vals[i+1:]...)
			return o
		}
	}
	return o
}

// Get returns a member.
func (o *J) Get(k string) *J {
	for i := range o.Keys {
		if o.Keys[i] == k {
			return o.Vals[i]
		}
	}
	return nil
}

// Copy is a shallow copy.
func (o *J) Copy() *J {
	c := *o
	c.Keys = append([]string{}, o.Keys...)
	c.Vals = append([]*J{}, o.Vals...)
	return &c
}

func render(j *J, canon bool, out *bytes.Buffer) {
	if j == nil {
		out.WriteString("null")
		return
	}
	str := func(s string) {
		if canon {
			s = strings.ReplaceAll(s, "\\", "\\\\")
			s = strings.ReplaceAll(s, "\"", "\\\"")
			out.WriteString("\"" + s + "\"")
			return
		}
		b, _ := json.Marshal(s)
		out.Write(b)
	}
	switch j.K {
	case 0:
		out.WriteString("null")
	case 1:
		fmt.Fprint(out, j.B)
	case 2:
		fmt.Fprint(out, j.N)
	case 3:
		out.WriteString(j.S)
	case 4:
		str(j.S)
	case 5:
		out.WriteByte('[')
		for i, v := range j.Vals {
			if i > 0 {
				out.WriteByte(',')
			}
			render(v, canon, out)
		}
		out.WriteByte(']')
	case 6:
		out.WriteByte('{')
		idx := make([]int, 0, len(j.Keys))
		for i := range j.Keys {
			last := i
			for k := i + 1; k < len(j.Keys); k++ {
				if j.Keys[k] == j.Keys[i] {
					last = k
				}
			}
			if canon && last != i {
				continue
			}
			idx = append(idx, i)
		}
		if canon {
			sort.SliceStable(idx, func(a, b int) bool { return j.Keys[idx[a]] < j.Keys[idx[b]] })
		}
		for n, i := range idx {
			if n > 0 {
				out.WriteByte(',')
			}
			str(j.Keys[i])
			out.WriteByte(':')
			render(j.Vals[i], canon, out)
		}
		out.WriteByte('}')
	}
}

// Doc renders j as compact JSON with members in the given order.
func Doc(j *J) []byte {
	var b bytes.Buffer
	render(j, false, &b)
	return b.Bytes()
}

// Canon renders j as canonical JSON.
func Canon(j *J) []byte {
	var b bytes.Buffer
	render(j, true, &b)
	return b.Bytes()
}

// SameJSON compares two documents up to member order and layout.
func SameJSON(a, b []byte) bool {
	dec := func(x []byte) (any, bool) {
		d := json.NewDecoder(bytes.NewReader(x))
		d.UseNumber()
		var v any
		return v, d.Decode(&v) == nil
	}
	_ = dec
	var x, y any
	da, db := json.NewDecoder(bytes.NewReader(a)), json.NewDecoder(bytes.NewReader(b))
	da.UseNumber()
	db.UseNumber()
	if da.Decode(&x) != nil || db.Decode(&y) != nil {
		return false
	}
	p, _ := json.Marshal(x)
	q, _ := json.Marshal(y)
	return bytes.Equal(p, q)
}

// ---- crypto

const (
	Ed25519 = "ed25519"
	RSAPSS  = "rsa-pss"
	RSAV15  = "rsa-pkcs1v15"
	ECDSA   = "ecdsa"
)

// Key is a signing key of the harness.
type Key struct {
	Scheme string // signature algorithm
	Idx    int
	Pub    []byte // raw ed25519 key or PEM text
}

func Ed(i int) *Key  { return &Key{Ed25519, i, edPub(i)} }
func RSA(i int) *Key { return &Key{RSAPSS, i, []byte(rsaPub[i])} }
func EC(i int) *Key  { return &Key{ECDSA, i, []byte(ecPub[i])} }

func edPub(i int) []byte {
	return ed25519.NewKeyFromSeed(bytes.Repeat([]byte{byte(i + 1)}, 32)).Public().(ed25519.PublicKey)
}

// Sign returns a signature of k over msg.
func Sign(k *Key, msg []byte) []byte { return sign(k.Scheme, k.Idx, k.Pub, msg) }

// SignAs signs with another scheme of the same key pair.
func SignAs(scheme string, k *Key, msg []byte) []byte { return sign(scheme, k.Idx, k.Pub, msg) }

func sign(scheme string, idx int, pub []byte, msg []byte) []byte {
	d := sha256.Sum256(msg)
	switch scheme {
	case Ed25519:
		return ed25519.Sign(ed25519.NewKeyFromSeed(bytes.Repeat([]byte{byte(idx + 1)}, 32)), msg)
	case RSAPSS, RSAV15:
		der, _ := base64.StdEncoding.DecodeString(rsaPriv[idx])
		k, err := x509.ParsePKCS8PrivateKey(der)
		if err != nil {
			panic(err)
		}
		var s []byte
		if scheme == RSAPSS {
			s, err = rsa.SignPSS(rand.Reader, k.(*rsa.PrivateKey), crypto.SHA256, d[:], nil)
		} else {
			s, err = rsa.SignPKCS1v15(rand.Reader, k.(*rsa.PrivateKey), crypto.SHA256, d[:])
		}
		if err != nil {
			panic(err)
		}
		return s
	case ECDSA:
		der, _ := base64.StdEncoding.DecodeString(ecPriv[idx])
		k, err := x509.ParsePKCS8PrivateKey(der)
		if err != nil {
			panic(err)
		}
		s, err := ecdsa.SignASN1(rand.Reader, k.(*ecdsa.PrivateKey), d[:])
		if err != nil {
			panic(err)
		}
		return s
	}
	panic("vp: unknown scheme " + scheme)
}

func digest(kind uint, data []byte) []byte {
	switch crypto.Hash(kind) {
	case crypto.SHA256:
		d := sha256.Sum256(data)
		return d[:]
	case crypto.SHA512:
		d := sha512.Sum512(data)
		return d[:]
	case crypto.SHA384:
		d := sha512.Sum384(data)
		return d[:]
	}
	panic("vp: hash")
}

// Digest returns the digest of data; it is the function the engine models.
func Digest(kind uint, data []byte) []byte { return digest(kind, data) }
func SHA256(data []byte) []byte            { return digest(uint(crypto.SHA256), data) }
func SHA512(data []byte) []byte            { return digest(uint(crypto.SHA512), data) }
func Hex(b []byte) string                  { return hex.EncodeToString(b) }

// HashedPath is a path starting with prefix whose SHA-256 digest starts with
// 32 symbolic bits. In a native run only the first bits agree with the model.
func HashedPath(prefix string, bits int) string {
	v := uint32(st.vals[name("hp."+prefix)])
	st.hashed++
	for i := 0; ; i++ {
		s := fmt.Sprintf("%s%08x", prefix, i*16+st.hashed-1)
		d := sha256.Sum256([]byte(s))
		top := uint32(d[0])<<24 | uint32(d[1])<<16 | uint32(d[2])<<8 | uint32(d[3])
		if (top^v)>>(32-uint(bits)) == 0 {
			return s
		}
	}
}

// ---- native driver

type request struct {
	Entry    string            `json:"entry"`
	Vals     map[string]uint64 `json:"vals"`
	Thorough bool              `json:"thorough"`
}

type result struct {
	Failed []string `json:"failed"`
	Panic  string   `json:"panic"`
	Log    []string `json:"log"`
	Reach  []string `json:"reach"`
	Assume bool     `json:"assume"`
	Exit   bool     `json:"exit"`
}

func runOne(f func(), r request) (res result) {
	st.vals, st.fresh, st.failed, st.log, st.reach, st.thorough, st.hashed = r.Vals, map[string]int{}, nil, nil, nil, r.Thorough, 0
	st.now = time.Now().UTC().Truncate(time.Second)
	for _, g := range resets {
		g()
	}
	defer func() {
		res.Failed, res.Log, res.Reach = st.failed, st.log, st.reach
		if x := recover(); x != nil {
			switch x := x.(type) {
			case assumeSignal:
				res.Assume = true
			case exitSignal:
				res.Exit = true
			default:
				buf := make([]byte, 1<<12)
				buf = buf[:runtime.Stack(buf, false)]
				_ = buf
				res.Panic = fmt.Sprint(x)
			}
		}
	}()
	f()
	return
}

// Main runs requests from standard input.
func Main(entries map[string]func()) {
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	out := bufio.NewWriter(os.Stdout)
	for sc.Scan() {
		var r request
		if err := json.Unmarshal(sc.Bytes(), &r); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		res := runOne(entries[r.Entry], r)
		b, _ := json.Marshal(res)
		fmt.Fprintf(out, "@@R %s\n", b)
		out.Flush()
	}
}
