package main

// JSON documents as trees: encoding/json and canonical JSON as operations on trees
// whose leaves are terms. The repository's own (Un)MarshalJSON methods are interpreted.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type JKind uint8

const (
	JNull JKind = iota
	JBool
	JNum // integer that fits int64
	JLit // other number literal (text)
	JStr
	JArr
	JObj
	JBad // not JSON
)

type JNode struct {
	k    JKind
	b    *Term
	n    *Term
	text string
	s    *Str
	arr  []*JNode
	keys []*Str
	vals []*JNode
}

// ---------------------------------------------------------------- trees

func strBlob(s *Str) *Blob {
	if len(s.rope) == 1 && s.rope[0].blob != nil {
		return s.rope[0].blob
	}
	return nil
}

func (in *Interp) blobStr(b *Blob) *Str {
	if bs, ok := in.blobBytes(b); ok {
		return in.strFromBytes(bs)
	}
	return &Str{rope: []seg{{blob: b}}}
}

func (in *Interp) plain(s Slice) Slice {
	if s.blob == nil {
		return s
	}
	return in.mkBytes(in.sliceBytes(s))
}

func timeSeg(s *Str) *Term {
	if len(s.rope) == 1 && s.rope[0].t {
		return s.rope[0].dec
	}
	return nil
}

func jsonQuote(s string) string {
	var buf bytes.Buffer
	e := json.NewEncoder(&buf)
	e.Encode(s)
	return strings.TrimSuffix(buf.String(), "\n")
}

func canonQuote(s string) string {
	s = strings.ReplaceAll(s, "\\", "\\\\")
	s = strings.ReplaceAll(s, "\"", "\\\"")
	return "\"" + s + "\""
}

// safeText makes sure that the symbolic bytes of s need no escaping.
func (in *Interp) safeText(s *Str) *Str {
	if s.rope != nil || s.b == nil {
		return s
	}
	c := in.c
	ok := c.True
	for _, t := range s.b {
		if t.op == OConst {
			ok = c.And(ok, c.B(t.val >= 0x20 && t.val < 0x7f && t.val != '"' && t.val != '\\' && t.val != '<' && t.val != '>' && t.val != '&'))
			continue
		}
		g := c.And(c.Bin(OULe, c.BV(0x20, 8), t), c.Bin(OULt, t, c.BV(0x7f, 8)))
		for _, x := range []byte{'"', '\\', '<', '>', '&'} {
			g = c.And(g, c.Not(c.Eq(t, c.bytesC[x])))
		}
		ok = c.And(ok, g)
	}
	if in.branch(ok) {
		return s
	}
	bs := make([]byte, len(s.b))
	for i, t := range s.b {
		bs[i] = byte(in.concretize(t, 256))
	}
	return cstr(string(bs))
}

// render appends the exact bytes of n; ok=false when a leaf has no fixed-length text.
func (in *Interp) render(n *JNode, f int, ind int, out *[]*Term) bool {
	put := func(s string) {
		for i := 0; i < len(s); i++ {
			*out = append(*out, in.c.bytesC[s[i]])
		}
	}
	nl := func(d int) {
		if f == 2 {
			put("\n" + strings.Repeat("\t", d))
		}
	}
	str := func(s *Str) bool {
		if s.rope != nil {
			if timeSeg(s) != nil {
				return false
			}
			for _, g := range s.rope {
				if g.opq != "" || g.dec != nil && g.dec.op != OConst || g.blob != nil {
					return false
				}
			}
			s = in.force(s)
		}
		if s.concrete() {
			if f == 1 {
				put(canonQuote(s.s))
			} else {
				put(jsonQuote(s.s))
			}
			return true
		}
		for _, t := range s.b {
			_ = t
		}
		put("\"")
		*out = append(*out, in.bytesOf(s)...)
		put("\"")
		return true
	}
	switch n.k {
	case JNull:
		put("null")
	case JBool:
		if n.b.op != OConst {
			return false
		}
		put(fmt.Sprint(n.b.val != 0))
	case JNum:
		if n.n.op != OConst {
			return false
		}
		put(strconv.FormatInt(n.n.Signed(), 10))
	case JLit:
		put(n.text)
	case JStr:
		return str(n.s)
	case JArr:
		if len(n.arr) == 0 {
			put("[]")
			return true
		}
		put("[")
		for i, x := range n.arr {
			if i > 0 {
				put(",")
			}
			nl(ind + 1)
			if !in.render(x, f, ind+1, out) {
				return false
			}
		}
		nl(ind)
		put("]")
	case JObj:
		if len(n.keys) == 0 {
			put("{}")
			return true
		}
		put("{")
		for i, k := range n.keys {
			if i > 0 {
				put(",")
			}
			nl(ind + 1)
			if !str(k) {
				return false
			}
			put(":")
			if f == 2 {
				put(" ")
			}
			if !in.render(n.vals[i], f, ind+1, out) {
				return false
			}
		}
		nl(ind)
		put("}")
	case JBad:
		put(n.text)
	}
	return true
}

func (in *Interp) blobBytes(b *Blob) ([]*Term, bool) {
	if b.trunc || b.tree == nil {
		return nil, false
	}
	var out []*Term
	if !in.render(b.tree, b.fmt, 0, &out) {
		return nil, false
	}
	return out, true
}

func (in *Interp) decWidth(n *Term) *Term {
	c := in.c
	if n.op == OConst {
		return c.BV(uint64(len(strconv.FormatInt(n.Signed(), 10))), 64)
	}
	neg := c.Bin(OSLt, n, c.BV(0, 64))
	abs := c.Ite(neg, c.Neg(n), n)
	r := c.BV(19, 64)
	p := uint64(1000000000000000000)
	for k := 18; k >= 1; k-- {
		r = c.Ite(c.Bin(OULt, abs, c.BV(p, 64)), c.BV(uint64(k), 64), r)
		p /= 10
	}
	r = c.Bin(OAdd, r, c.Ite(neg, c.BV(1, 64), c.BV(0, 64)))
	return r
}

func (in *Interp) strTextLen(s *Str, f int) *Term {
	c := in.c
	if s.rope != nil {
		r := c.BV(2, 64)
		for _, g := range s.rope {
			switch {
			case g.t:
				r = c.Bin(OAdd, r, c.BV(20, 64))
			case g.dec != nil:
				r = c.Bin(OAdd, r, in.decWidth(in.c.SExt(g.dec, 64)))
			case g.str != nil:
				r = c.Bin(OAdd, r, c.BV(uint64(in.strLen(g.str)), 64))
			default:
				panic(unsupported("length of an opaque string"))
			}
		}
		return r
	}
	if s.concrete() {
		if f == 1 {
			return c.BV(uint64(len(canonQuote(s.s))), 64)
		}
		return c.BV(uint64(len(jsonQuote(s.s))), 64)
	}
	return c.BV(uint64(len(s.b)+2), 64)
}

func (in *Interp) nodeLen(n *JNode, f, ind int) *Term {
	c := in.c
	k := func(x int) *Term { return c.BV(uint64(x), 64) }
	switch n.k {
	case JNull:
		return k(4)
	case JBool:
		return c.Ite(n.b, k(4), k(5))
	case JNum:
		return in.decWidth(n.n)
	case JLit, JBad:
		return k(len(n.text))
	case JStr:
		return in.strTextLen(n.s, f)
	case JArr:
		r := k(2)
		for i, x := range n.arr {
			r = c.Bin(OAdd, r, in.nodeLen(x, f, ind+1))
			if i > 0 {
				r = c.Bin(OAdd, r, k(1))
			}
			if f == 2 {
				r = c.Bin(OAdd, r, k(ind+2))
			}
		}
		if f == 2 && len(n.arr) > 0 {
			r = c.Bin(OAdd, r, k(ind+1))
		}
		return r
	case JObj:
		r := k(2)
		for i, x := range n.vals {
			r = c.Bin(OAdd, r, in.nodeLen(x, f, ind+1))
			r = c.Bin(OAdd, r, in.strTextLen(n.keys[i], f))
			r = c.Bin(OAdd, r, k(1))
			if i > 0 {
				r = c.Bin(OAdd, r, k(1))
			}
			if f == 2 {
				r = c.Bin(OAdd, r, k(ind+3))
			}
		}
		if f == 2 && len(n.keys) > 0 {
			r = c.Bin(OAdd, r, k(ind+1))
		}
		return r
	}
	panic("nodeLen")
}

func (in *Interp) blobLen(b *Blob) *Term {
	if b.lenT == nil {
		b.lenT = in.nodeLen(b.tree, b.fmt, 0)
	}
	return b.lenT
}

// own is a slice of its own with the same content.
func (b *Blob) own() Slice {
	c := *b
	return Slice{blob: &c}
}

// writable turns the content of b into bytes that can be changed.
func (in *Interp) writable(b *Blob) []Value {
	if b.raw == nil {
		bs, ok := []*Term(nil), false
		if !b.trunc && b.tree != nil {
			bs, ok = in.pinned(b)
		}
		if !ok {
			panic(unsupported("write into a symbolic document"))
		}
		b.raw = make([]Value, len(bs))
		for i, t := range bs {
			b.raw[i] = t
		}
	}
	return b.raw
}

// written tells whether an address is used for more than loading.
func written(a *ssa.IndexAddr) bool {
	for _, r := range *a.Referrers() {
		if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
			continue
		}
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		return true
	}
	return false
}

func (in *Interp) blobElem(b *Blob, idx *Term) Value {
	if bs, ok := in.blobBytes(b); ok {
		a := make([]Value, len(bs))
		for i, t := range bs {
			a[i] = t
		}
		return in.elemAddr(a, idx)
	}
	ln := in.blobLen(b)
	if !in.branch(in.c.Bin(OULt, idx, ln)) {
		in.rtPanic("index out of range")
	}
	first := idx.op == OConst && idx.val == 0
	last := idx == in.c.Bin(OSub, ln, in.c.BV(1, 64))
	if b.tree != nil && !b.trunc && (first || last) {
		p := new(Value)
		var ch byte
		switch b.tree.k {
		case JObj:
			ch = '}'
			if first {
				ch = '{'
			}
		case JArr:
			ch = ']'
			if first {
				ch = '['
			}
		case JStr:
			ch = '"'
		case JBool:
			if first {
				*p = in.c.Ite(b.tree.b, in.c.bytesC['t'], in.c.bytesC['f'])
				return p
			}
			ch = 'e'
		default:
			bs, ok := in.pinned(b)
			if !ok {
				panic(unsupported("byte of a symbolic number"))
			}
			*p = bs[0]
			if last {
				*p = bs[len(bs)-1]
			}
			return p
		}
		*p = in.c.bytesC[ch]
		return p
	}
	if bs, ok := in.pinned(b); ok {
		a := make([]Value, len(bs))
		for i, t := range bs {
			a[i] = t
		}
		return in.elemAddr(a, idx)
	}
	panic(unsupported("indexing into a symbolic document" + in.where()))
}

func (in *Interp) blobSlice(b *Blob, lo, hi *Term) Value {
	c := in.c
	ln := in.blobLen(b)
	if lo == nil {
		lo = c.BV(0, 64)
	}
	if hi == nil {
		hi = ln
	}
	if lo == ln && hi == ln {
		return Slice{a: []Value{}}
	}
	if lo.op == OConst && lo.val == 0 {
		if hi == ln {
			return Slice{blob: b}
		}
		if in.branch(c.Eq(hi, c.BV(0, 64))) {
			return Slice{a: []Value{}}
		}
		if in.branch(c.Eq(hi, ln)) {
			return Slice{blob: b}
		}
		if !in.branch(c.Bin(OULt, hi, ln)) {
			in.rtPanic("slice bounds out of range")
		}
		return Slice{blob: &Blob{tree: b.tree, fmt: b.fmt, lenT: hi, trunc: true}}
	}
	if in.branch(c.And(c.Eq(lo, ln), c.Eq(hi, ln))) {
		return Slice{a: []Value{}}
	}
	bs, ok := in.pinned(b)
	if !ok {
		panic(unsupported("slicing a symbolic document" + in.where()))
	}
	l, h := int(in.concretize(lo, 64)), int(in.concretize(hi, 64))
	if l > h || h > len(bs) {
		in.rtPanic("slice bounds out of range")
	}
	return in.mkBytes(bs[l:h])
}

// blobAppend: a document followed by extra bytes is not the same document any more.
func (in *Interp) blobAppend(b *Blob, y Slice) Value {
	ys := in.sliceBytes(y)
	ws := true
	for _, t := range ys {
		if t.op != OConst || (t.val != ' ' && t.val != '\n' && t.val != '\t' && t.val != '\r') {
			ws = false
		}
	}
	if bs, ok := in.blobBytes(b); ok {
		return in.mkBytes(append(append([]*Term{}, bs...), ys...))
	}
	nb := &Blob{tree: b.tree, fmt: b.fmt, trunc: true, lenT: in.c.Bin(OAdd, in.blobLen(b), in.c.BV(uint64(len(ys)), 64))}
	if ws {
		nb.trunc = false
		nb.fmt = 100 + len(ys) // same content, different text
	}
	return Slice{blob: nb}
}

func (in *Interp) blobEq(a, b *Blob) *Term {
	if a == b || a.tree != nil && a.tree == b.tree && a.fmt == b.fmt && !a.trunc && !b.trunc {
		return in.c.True
	}
	if a.trunc || b.trunc || a.tree == nil || b.tree == nil {
		if a.tree == b.tree && a.fmt == b.fmt && a.trunc == b.trunc {
			return in.c.Eq(in.blobLen(a), in.blobLen(b))
		}
		return in.c.False
	}
	if a.fmt == b.fmt {
		return in.treeEq(a.tree, b.tree, a.fmt != 1)
	}
	if a.fmt+b.fmt == 1 && in.plainTexts(a.tree) && in.plainTexts(b.tree) {
		// compact and canonical texts differ in the order of members and in escaping only
		return in.treeEq(a.tree, b.tree, true)
	}
	x, ok1 := in.blobBytes(a)
	y, ok2 := in.blobBytes(b)
	if ok1 && ok2 {
		return in.bytesEq(x, y)
	}
	return in.c.False
}

// plainTexts reports whether no string of a document is escaped in either text form.
func (in *Interp) plainTexts(n *JNode) bool {
	str := func(s *Str) bool { return !s.concrete() || jsonQuote(s.s) == canonQuote(s.s) }
	if n.k == JStr && !str(n.s) {
		return false
	}
	for _, x := range n.arr {
		if !in.plainTexts(x) {
			return false
		}
	}
	for i, x := range n.vals {
		if !str(n.keys[i]) || !in.plainTexts(x) {
			return false
		}
	}
	return true
}

// pinned gives the bytes of a document whose numbers, times and length are fixed to one
// value each on this path; such a path doesn't count as exhaustive.
func (in *Interp) pinned(b *Blob) ([]*Term, bool) {
	if bs, ok := in.blobBytes(b); ok {
		return bs, true
	}
	if b.tree == nil || b.fmt > 2 {
		return nil, false
	}
	bs, ok := in.blobBytes(&Blob{tree: in.pinTree(b.tree), fmt: b.fmt})
	if !ok {
		return nil, false
	}
	if b.trunc {
		n := int(in.pin(b.lenT))
		if n > len(bs) {
			return nil, false
		}
		bs = bs[:n]
	}
	return bs, true
}

func (in *Interp) pinTree(n *JNode) *JNode {
	r := *n
	switch n.k {
	case JBool:
		r.b = in.c.B(in.branch(n.b))
	case JNum:
		r.n = in.c.BV(in.pin(n.n), n.n.w)
	case JStr:
		r.s = in.pinStr(n.s)
	}
	r.arr, r.keys, r.vals = nil, nil, nil
	for _, x := range n.arr {
		r.arr = append(r.arr, in.pinTree(x))
	}
	for i, x := range n.vals {
		r.keys = append(r.keys, in.pinStr(n.keys[i]))
		r.vals = append(r.vals, in.pinTree(x))
	}
	return &r
}

func (in *Interp) pinStr(s *Str) *Str {
	if s.rope == nil {
		return s
	}
	var out []*Term
	for _, g := range s.rope {
		switch {
		case g.str != nil:
			out = append(out, in.bytesOf(in.pinStr(g.str))...)
		case g.opq != "":
			return s
		case g.blob != nil:
			bs, ok := in.pinned(g.blob)
			if !ok {
				return s
			}
			out = append(out, bs...)
		case g.t:
			out = append(out, in.bytesOf(cstr(time.Unix(sx(in.pin(g.dec), g.dec.w), 0).UTC().Format(time.RFC3339)))...)
		case g.uns:
			out = append(out, in.bytesOf(cstr(fmt.Sprint(in.pin(g.dec))))...)
		default:
			out = append(out, in.bytesOf(cstr(fmt.Sprint(sx(in.pin(g.dec), g.dec.w))))...)
		}
	}
	return in.strFromBytes(out)
}

// pin fixes a term to one of its values on this path.
func (in *Interp) pin(t *Term) uint64 {
	if t.op == OConst {
		return t.val
	}
	if v, ok := in.pins[t]; ok {
		return v
	}
	var v uint64
	if in.pos < len(in.prefix) {
		v = in.prefix[in.pos].V
		in.pos++
	} else {
		v = in.eval(t)
	}
	in.trace = append(in.trace, Dec{K: 4, V: v})
	in.addPC(in.eqVal(t, v))
	if in.pins == nil {
		in.pins = map[*Term]uint64{}
	}
	in.pins[t] = v
	return v
}

// dataEq compares two byte slices (documents or plain bytes).
func (in *Interp) dataEq(a, b Slice) *Term {
	if a.blob == nil && b.blob == nil {
		return in.bytesEq(in.sliceBytes(a), in.sliceBytes(b))
	}
	if a.blob != nil && b.blob != nil {
		return in.blobEq(a.blob, b.blob)
	}
	if b.blob != nil {
		a, b = b, a
	}
	bs, ok := in.blobBytes(a.blob)
	if ok {
		return in.bytesEq(bs, in.sliceBytes(b))
	}
	// symbolic document against plain bytes
	if len(b.a) == 0 {
		if a.blob.tree == nil || a.blob.trunc {
			return in.c.Eq(in.blobLen(a.blob), in.c.BV(0, 64))
		}
		return in.c.False
	}
	pb, ok := in.concBytes(b)
	if ok && !a.blob.trunc && a.blob.tree != nil {
		t := parseJSON(in, pb)
		if t.k == JBad {
			return in.c.False
		}
		return in.treeEq(a.blob.tree, t, false)
	}
	return in.c.False
}

// treeEq builds the condition that two trees are equal; ordered compares member order too.
func (in *Interp) treeEq(a, b *JNode, ordered bool) *Term {
	c := in.c
	if a == b {
		return c.True
	}
	if a.k != b.k {
		return c.False
	}
	switch a.k {
	case JNull:
		return c.True
	case JBool:
		return c.Eq(a.b, b.b)
	case JNum:
		return c.Eq(a.n, b.n)
	case JLit, JBad:
		return c.B(a.text == b.text)
	case JStr:
		return in.strEq(a.s, b.s)
	case JArr:
		if len(a.arr) != len(b.arr) {
			return c.False
		}
		r := c.True
		for i := range a.arr {
			r = c.And(r, in.treeEq(a.arr[i], b.arr[i], ordered))
			if r == c.False {
				break
			}
		}
		return r
	case JObj:
		if len(a.keys) != len(b.keys) {
			return c.False
		}
		r := c.True
		used := make([]bool, len(b.keys))
		for i, k := range a.keys {
			j := -1
			if ordered {
				e := in.strEq(k, b.keys[i])
				if e == c.False {
					return c.False
				}
				r = c.And(r, e)
				j = i
			} else {
				// exact syntactic match first
				for x := range b.keys {
					if !used[x] && in.strEq(k, b.keys[x]) == c.True {
						j = x
						break
					}
				}
				if j < 0 {
					for x := range b.keys {
						if !used[x] {
							e := in.strEq(k, b.keys[x])
							if e != c.False && in.branch(e) {
								j = x
								break
							}
						}
					}
				}
				if j < 0 {
					return c.False
				}
			}
			used[j] = true
			r = c.And(r, in.treeEq(a.vals[i], b.vals[j], ordered))
			if r == c.False {
				return r
			}
		}
		return r
	}
	return c.False
}

// parseJSON parses concrete bytes into a tree.
func parseJSON(in *Interp, data []byte) *JNode {
	if !json.Valid(data) {
		return &JNode{k: JBad, text: string(data)}
	}
	d := json.NewDecoder(bytes.NewReader(data))
	d.UseNumber()
	var rec func() *JNode
	rec = func() *JNode {
		t, err := d.Token()
		if err != nil {
			return &JNode{k: JBad, text: string(data)}
		}
		switch t := t.(type) {
		case nil:
			return &JNode{k: JNull}
		case bool:
			return &JNode{k: JBool, b: in.c.B(t)}
		case json.Number:
			return in.numLit(string(t))
		case string:
			return &JNode{k: JStr, s: cstr(t)}
		case json.Delim:
			if t == '[' {
				n := &JNode{k: JArr}
				for d.More() {
					n.arr = append(n.arr, rec())
				}
				d.Token()
				return n
			}
			n := &JNode{k: JObj}
			for d.More() {
				kt, err := d.Token()
				if err != nil {
					return &JNode{k: JBad, text: string(data)}
				}
				n.keys = append(n.keys, cstr(kt.(string)))
				n.vals = append(n.vals, rec())
			}
			d.Token()
			return n
		}
		return &JNode{k: JBad, text: string(data)}
	}
	return rec()
}

func (in *Interp) numLit(s string) *JNode {
	if i, err := strconv.ParseInt(s, 10, 64); err == nil && strconv.FormatInt(i, 10) == s {
		return &JNode{k: JNum, n: in.c.BV(uint64(i), 64)}
	}
	return &JNode{k: JLit, text: s}
}

// treeOf parses a byte slice value.
func (in *Interp) treeOf(s Slice) *JNode {
	if s.blob != nil {
		if s.blob.trunc || s.blob.tree == nil {
			return &JNode{k: JBad, text: "<truncated>"}
		}
		return s.blob.tree
	}
	if b, ok := in.concBytes(s); ok {
		return parseJSON(in, b)
	}
	// a quoted string with symbolic bytes
	bs := in.sliceBytes(s)
	n := len(bs)
	if n >= 2 && bs[0] == in.c.bytesC['"'] && bs[n-1] == in.c.bytesC['"'] {
		return &JNode{k: JStr, s: in.safeText(in.strFromBytes(bs[1 : n-1]))}
	}
	panic(unsupported("parsing symbolic text as JSON" + in.where()))
}

// ---------------------------------------------------------------- errors

func (in *Interp) mkErrVal(msg string) Iface {
	t := in.P.pkgs["errors"].Type("errorString").Type()
	p := new(Value)
	*p = Struct{cstr(msg)}
	return Iface{t: in.ptrTo(t), v: p}
}

func (in *Interp) ptrTo(t types.Type) types.Type {
	if p, ok := in.x.ptrs[t]; ok {
		return p
	}
	p := types.NewPointer(t)
	in.x.ptrs[t] = p
	return p
}

func (in *Interp) pkgType(pkg, name string) types.Type {
	return in.P.pkgs[pkg].Type(name).Type()
}

func (in *Interp) typedErr(pkg, name string) Iface {
	t := in.pkgType(pkg, name)
	p := new(Value)
	*p = in.zero(t)
	return Iface{t: in.ptrTo(t), v: p}
}

func (in *Interp) syntaxErr() Iface { return in.typedErr("encoding/json", "SyntaxError") }
func (in *Interp) typeErr() Iface   { return in.typedErr("encoding/json", "UnmarshalTypeError") }

// ---------------------------------------------------------------- struct info

type jfield struct {
	name      string
	idx       []int
	t         types.Type
	omitempty bool
	omitzero  bool
	quoted    bool
}

func (in *Interp) structFields(t *types.Struct) []jfield {
	if f, ok := in.x.sfields[t]; ok {
		return f
	}
	var out []jfield
	for i := 0; i < t.NumFields(); i++ {
		f := t.Field(i)
		tag := reflect.StructTag(t.Tag(i)).Get("json")
		if tag == "-" {
			continue
		}
		parts := strings.Split(tag, ",")
		if f.Embedded() && parts[0] == "" {
			et := f.Type()
			if p, ok := et.Underlying().(*types.Pointer); ok {
				_ = p
				panic(unsupported("embedded pointer in JSON struct"))
			}
			if st, ok := et.Underlying().(*types.Struct); ok {
				for _, sf := range in.structFields(st) {
					sf.idx = append([]int{i}, sf.idx...)
					out = append(out, sf)
				}
				continue
			}
		}
		if !f.Exported() {
			continue
		}
		jf := jfield{name: parts[0], idx: []int{i}, t: f.Type()}
		if jf.name == "" {
			jf.name = f.Name()
		}
		for _, o := range parts[1:] {
			switch o {
			case "omitempty":
				jf.omitempty = true
			case "omitzero":
				jf.omitzero = true
			case "string":
				jf.quoted = true
			}
		}
		out = append(out, jf)
	}
	// outer fields shadow embedded ones of the same name
	var res []jfield
	for _, f := range out {
		dup := false
		for _, g := range out {
			if g.name == f.name && len(g.idx) < len(f.idx) {
				dup = true
			}
		}
		if !dup {
			res = append(res, f)
		}
	}
	in.x.sfields[t] = res
	return res
}

func fieldCell(p *Value, idx []int) *Value {
	for _, i := range idx {
		p = &(*p).(Struct)[i]
	}
	return p
}

// ---------------------------------------------------------------- decode

type decState struct {
	saved    *Iface
	useNum   bool
	disallow bool
}

func (d *decState) save(e Iface) {
	if d.saved == nil {
		d.saved = &e
	}
}

func (in *Interp) jsonUnmarshal(tree *JNode, target Iface, ds *decState) Iface {
	if target.t == nil {
		return in.typedErr("encoding/json", "InvalidUnmarshalError")
	}
	pt, ok := target.t.Underlying().(*types.Pointer)
	p, ok2 := target.v.(*Value)
	if !ok || !ok2 || p == nil {
		return in.typedErr("encoding/json", "InvalidUnmarshalError")
	}
	if tree.k == JBad {
		return in.syntaxErr()
	}
	if e := in.decode(tree, pt.Elem(), p, ds); e.t != nil {
		return e
	}
	if ds.saved != nil {
		return *ds.saved
	}
	return Iface{}
}

func isTime(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

// rawFor gives the bytes handed to an UnmarshalJSON method.
func (in *Interp) rawFor(n *JNode) Slice {
	switch n.k {
	case JObj, JArr:
		return Slice{blob: &Blob{tree: n}}
	case JStr:
		if n.s.rope == nil {
			n = &JNode{k: JStr, s: in.safeText(n.s)}
		}
	}
	var out []*Term
	if in.render(n, 0, 0, &out) {
		return in.mkBytes(out)
	}
	return Slice{blob: &Blob{tree: n}}
}

func (in *Interp) decode(n *JNode, t types.Type, p *Value, ds *decState) Iface {
	none := Iface{}
	if isTime(t) {
		return in.decodeTime(n, t, p)
	}
	// pointers
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if n.k == JNull {
			*p = (*Value)(nil)
			return none
		}
		cell, _ := (*p).(*Value)
		if cell == nil {
			cell = new(Value)
			*cell = in.zero(pt.Elem())
			*p = cell
		}
		return in.decode(n, pt.Elem(), cell, ds)
	}
	if _, isNamed := types.Unalias(t).(*types.Named); isNamed {
		if m := in.lookupMethod(in.ptrTo(t), nil, "UnmarshalJSON"); m != nil {
			return in.callFn(m, []Value{p, in.rawFor(n)}, nil).(Iface)
		}
		if n.k == JStr {
			if m := in.lookupMethod(in.ptrTo(t), nil, "UnmarshalText"); m != nil {
				return in.callFn(m, []Value{p, in.mkBytes(in.bytesOf(n.s))}, nil).(Iface)
			}
		} else if n.k != JNull && in.lookupMethod(in.ptrTo(t), nil, "UnmarshalText") != nil {
			ds.save(in.typeErr())
			return none
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if u.NumMethods() > 0 {
			if n.k == JNull {
				*p = Iface{}
				return none
			}
			ds.save(in.typeErr())
			return none
		}
		// a non-nil pointer inside the interface is decoded into
		if cur := (*p).(Iface); cur.t != nil && n.k != JNull {
			if cp, ok := cur.v.(*Value); ok && cp != nil {
				if _, isPtr := cur.t.Underlying().(*types.Pointer); isPtr {
					return in.decode(n, derefType(cur.t), cp, ds)
				}
			}
		}
		*p = in.decodeAny(n, ds)
		return none
	case *types.Basic:
		if n.k == JNull {
			return none
		}
		switch {
		case u.Info()&types.IsString != 0:
			if n.k == JStr {
				*p = n.s
				return none
			}
			if (n.k == JNum || n.k == JLit) && t.String() == "encoding/json.Number" {
				*p = in.numText(n)
				return none
			}
		case u.Kind() == types.Bool:
			if n.k == JBool {
				*p = n.b
				return none
			}
		case u.Info()&types.IsInteger != 0:
			if n.k == JNum {
				w, signed, _ := intInfo(u)
				v := n.n
				fits := in.c.True
				if signed && w < 64 {
					fits = in.c.Eq(in.c.SExt(in.c.Trunc(v, w), 64), v)
				} else if !signed {
					fits = in.c.Bin(OSLe, in.c.BV(0, 64), v)
					if w < 64 {
						fits = in.c.And(fits, in.c.Eq(in.c.ZExt(in.c.Trunc(v, w), 64), v))
					}
				}
				if in.branch(fits) {
					*p = in.c.Trunc(v, w)
					return none
				}
			}
			if n.k == JLit && u.Kind() == types.Uint64 {
				if x, err := strconv.ParseUint(n.text, 10, 64); err == nil {
					*p = in.c.BV(x, 64)
					return none
				}
			}
			if n.k == JLit && n.text == "-0" {
				w, _, _ := intInfo(u)
				*p = in.c.BV(0, w)
				return none
			}
		case u.Info()&types.IsFloat != 0:
			if n.k == JNum || n.k == JLit {
				*p = in.numFloat(n)
				return none
			}
		}
		ds.save(in.typeErr())
		return none
	case *types.Struct:
		if n.k == JNull {
			return none
		}
		if n.k != JObj {
			ds.save(in.typeErr())
			return none
		}
		fields := in.structFields(u)
		for i, k := range n.keys {
			f := in.matchField(fields, k)
			if f == nil {
				if ds.disallow {
					ds.save(in.mkErrVal("json: unknown field"))
				}
				continue
			}
			if f.quoted {
				panic(unsupported("json ,string option"))
			}
			if e := in.decode(n.vals[i], f.t, fieldCell(p, f.idx), ds); e.t != nil {
				return e
			}
		}
		return none
	case *types.Map:
		if n.k == JNull {
			*p = (*Map)(nil)
			return none
		}
		if n.k != JObj {
			ds.save(in.typeErr())
			return none
		}
		if !isString(u.Key()) {
			panic(unsupported("JSON map with non-string key"))
		}
		m, _ := (*p).(*Map)
		if m == nil {
			in.x.nmaps++
			m = &Map{id: in.x.nmaps}
			*p = m
		}
		for i, k := range n.keys {
			cell := new(Value)
			*cell = in.zero(u.Elem())
			if e := in.decode(n.vals[i], u.Elem(), cell, ds); e.t != nil {
				return e
			}
			in.mapSet(m, t, k, *cell)
		}
		return none
	case *types.Slice:
		if n.k == JNull {
			*p = Slice{nil_: true}
			return none
		}
		if n.k == JStr && isByteSlice(t) {
			if n.s.concrete() {
				var b []byte
				if json.Unmarshal([]byte(jsonQuote(n.s.s)), &b) == nil {
					*p = in.mkBytesC(b)
					return none
				}
				return in.mkErrVal("illegal base64 data")
			}
			panic(unsupported("base64 of a symbolic string"))
		}
		if n.k != JArr {
			ds.save(in.typeErr())
			return none
		}
		a := make([]Value, len(n.arr))
		for i, x := range n.arr {
			a[i] = in.zero(u.Elem())
			if e := in.decode(x, u.Elem(), &a[i], ds); e.t != nil {
				*p = Slice{a: a[:i]}
				return e
			}
		}
		*p = Slice{a: a}
		return none
	case *types.Array:
		if n.k == JNull {
			return none
		}
		if n.k != JArr {
			ds.save(in.typeErr())
			return none
		}
		arr := (*p).(Array)
		for i := range arr {
			if i < len(n.arr) {
				if e := in.decode(n.arr[i], u.Elem(), &arr[i], ds); e.t != nil {
					return e
				}
			} else {
				arr[i] = in.zero(u.Elem())
			}
		}
		return none
	}
	panic(unsupported("JSON decoding into " + t.String()))
}

func (in *Interp) matchField(fields []jfield, k *Str) *jfield {
	if k.rope != nil {
		k = in.force(k)
	}
	if !k.concrete() {
		for i := range fields {
			if in.branch(in.strEq(k, cstr(fields[i].name))) {
				return &fields[i]
			}
		}
		// case-insensitive matches of symbolic member names
		fold := in.c.False
		for i := range fields {
			if len(fields[i].name) == len(k.b) {
				e := in.c.True
				for j, t := range k.b {
					ch := fields[i].name[j]
					m := in.c.Eq(t, in.c.bytesC[ch])
					if ch >= 'a' && ch <= 'z' {
						m = in.c.Or(m, in.c.Eq(t, in.c.bytesC[ch-32]))
					} else if ch >= 'A' && ch <= 'Z' {
						m = in.c.Or(m, in.c.Eq(t, in.c.bytesC[ch+32]))
					}
					e = in.c.And(e, m)
				}
				fold = in.c.Or(fold, e)
				if in.branch(e) {
					return &fields[i]
				}
			}
		}
		return nil
	}
	for i := range fields {
		if fields[i].name == k.s {
			return &fields[i]
		}
	}
	for i := range fields {
		if strings.EqualFold(fields[i].name, k.s) {
			return &fields[i]
		}
	}
	return nil
}

func (in *Interp) numFloat(n *JNode) Value {
	if n.k == JLit {
		f, _ := strconv.ParseFloat(n.text, 64)
		return f
	}
	if n.n.op == OConst {
		return float64(n.n.Signed())
	}
	c := in.c
	lim := uint64(1) << 53
	ok := c.And(c.Bin(OSLe, c.BV(-lim, 64), n.n), c.Bin(OSLe, n.n, c.BV(lim, 64)))
	_ = ok
	return &SymFloat{n.n}
}

func (in *Interp) numText(n *JNode) *Str {
	if n.k == JLit {
		return cstr(n.text)
	}
	if n.n.op == OConst {
		return cstr(strconv.FormatInt(n.n.Signed(), 10))
	}
	return &Str{rope: []seg{{dec: n.n}}}
}

func (in *Interp) anyT() types.Type { return types.Universe.Lookup("any").Type() }

func (in *Interp) decodeAny(n *JNode, ds *decState) Iface {
	switch n.k {
	case JNull:
		return Iface{}
	case JBool:
		return Iface{t: types.Typ[types.Bool], v: n.b}
	case JNum, JLit:
		if ds.useNum {
			return Iface{t: in.pkgType("encoding/json", "Number"), v: in.numText(n)}
		}
		if n.k == JLit {
			if f, err := strconv.ParseFloat(n.text, 64); err != nil || math.IsInf(f, 0) {
				ds.save(in.typeErr())
				return Iface{}
			}
		}
		return Iface{t: types.Typ[types.Float64], v: in.numFloat(n)}
	case JStr:
		return Iface{t: types.Typ[types.String], v: n.s}
	case JArr:
		a := make([]Value, len(n.arr))
		for i, x := range n.arr {
			a[i] = in.decodeAny(x, ds)
		}
		return Iface{t: in.x.sliceAny, v: Slice{a: a}}
	case JObj:
		in.x.nmaps++
		m := &Map{id: in.x.nmaps}
		for i, k := range n.keys {
			in.mapSet(m, in.x.mapAny, k, in.decodeAny(n.vals[i], ds))
		}
		return Iface{t: in.x.mapAny, v: m}
	}
	panic(unsupported("decodeAny"))
}

var unixToInternal int64 = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400

// decodeTime handles RFC3339 strings (UTC) and symbolic instants.
func (in *Interp) decodeTime(n *JNode, t types.Type, p *Value) Iface {
	switch n.k {
	case JNull:
		return Iface{}
	case JStr:
		if sec := timeSeg(n.s); sec != nil {
			*p = in.mkTime(sec, in.c.BV(0, 64))
			return Iface{}
		}
		if n.s.rope != nil {
			in.force(n.s)
		}
		if n.s.concrete() {
			var tm time.Time
			if err := tm.UnmarshalJSON([]byte(jsonQuote(n.s.s))); err != nil {
				return in.typedErr("time", "ParseError")
			}
			_, off := tm.Zone()
			if off != 0 {
				panic(unsupported("time with a zone offset"))
			}
			*p = in.mkTime(in.c.BV(uint64(tm.Unix()), 64), in.c.BV(uint64(tm.Nanosecond()), 64))
			return Iface{}
		}
		panic(unsupported("symbolic text as a time"))
	}
	return in.mkErrVal("Time.UnmarshalJSON: input is not a JSON string")
}

// mkTime builds a UTC time.Time from unix seconds.
func (in *Interp) mkTime(sec, nsec *Term) Struct {
	return Struct{nsec, in.c.Bin(OAdd, sec, in.c.BV(uint64(unixToInternal), 64)), (*Value)(nil)}
}

func (in *Interp) timeUnix(v Struct) (sec, nsec *Term) {
	wall, ext := v[0].(*Term), v[1].(*Term)
	if wall.umax >= 1<<62 {
		panic(unsupported("monotonic time value"))
	}
	return in.c.Bin(OAdd, ext, in.c.BV(uint64(-unixToInternal), 64)), in.c.Bin(OBAnd, wall, in.c.BV(1<<30-1, 64))
}

// timeText is the RFC3339Nano text of a time.
func (in *Interp) timeText(v Struct) (*Str, bool) {
	sec, nsec := in.timeUnix(v)
	if sec.op == OConst && nsec.op == OConst {
		tm := time.Unix(sec.Signed(), int64(nsec.val)).UTC()
		b, err := tm.MarshalJSON()
		if err != nil {
			return nil, false
		}
		return cstr(strings.Trim(string(b), "\"")), true
	}
	if nsec.op != OConst || nsec.val != 0 {
		panic(unsupported("text of a symbolic time with nanoseconds"))
	}
	lo, hi := time.Date(0, 1, 1, 0, 0, 0, 0, time.UTC).Unix(), time.Date(10000, 1, 1, 0, 0, 0, 0, time.UTC).Unix()
	ok := in.c.And(in.c.Bin(OSLe, in.c.BV(uint64(lo), 64), sec), in.c.Bin(OSLt, sec, in.c.BV(uint64(hi), 64)))
	if !in.branch(ok) {
		return nil, false
	}
	return &Str{rope: []seg{{dec: sec, t: true}}}, true
}

// ---------------------------------------------------------------- encode

// encode returns the tree for v, or an error value.
func (in *Interp) encode(t types.Type, v Value, addr *Value) (*JNode, Iface) {
	none := Iface{}
	if t == nil {
		return &JNode{k: JNull}, none
	}
	if isTime(t) {
		s, ok := in.timeText(v.(Struct))
		if !ok {
			return nil, in.mkErrVal("json: error calling MarshalJSON for type time.Time: year outside of range [0,9999]")
		}
		return &JNode{k: JStr, s: s}, none
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		p, _ := v.(*Value)
		if p == nil {
			return &JNode{k: JNull}, none
		}
		if m := in.lookupMethod(t, nil, "MarshalJSON"); m != nil && !isTime(pt.Elem()) {
			return in.callMarshal(m, p)
		}
		return in.encode(pt.Elem(), *p, p)
	}
	if _, isI := t.Underlying().(*types.Interface); isI {
		iv := v.(Iface)
		if iv.t == nil {
			return &JNode{k: JNull}, none
		}
		return in.encode(iv.t, iv.v, nil)
	}
	if _, ok := types.Unalias(t).(*types.Named); ok {
		if m := in.lookupMethod(t, nil, "MarshalJSON"); m != nil {
			return in.callMarshal(m, copyVal(v))
		}
		if addr != nil {
			if m := in.lookupMethod(in.ptrTo(t), nil, "MarshalJSON"); m != nil {
				return in.callMarshal(m, addr)
			}
		}
		if m := in.lookupMethod(t, nil, "MarshalText"); m != nil {
			r := in.callFn(m, []Value{copyVal(v)}, nil).(Tuple)
			if e := r[1].(Iface); e.t != nil {
				return nil, e
			}
			return &JNode{k: JStr, s: in.strFromBytes(in.sliceBytes(r[0].(Slice)))}, none
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch x := v.(type) {
		case *Term:
			if x.w == 0 {
				return &JNode{k: JBool, b: x}, none
			}
			_, signed, _ := intInfo(u)
			if signed {
				return &JNode{k: JNum, n: in.c.SExt(x, 64)}, none
			}
			if x.w == 64 && x.op == OConst {
				return in.numLit(strconv.FormatUint(x.val, 10)), none
			}
			return &JNode{k: JNum, n: in.c.ZExt(x, 64)}, none
		case *Str:
			if t.String() == "encoding/json.Number" {
				if len(x.rope) == 1 && x.rope[0].dec != nil {
					return &JNode{k: JNum, n: x.rope[0].dec}, none
				}
				return in.numLit(in.force(x).s), none
			}
			if x.concrete() && !utf8.ValidString(x.s) {
				return &JNode{k: JStr, s: cstr(strings.ToValidUTF8(x.s, "\ufffd"))}, none
			}
			return &JNode{k: JStr, s: in.safeText(x)}, none
		case float64:
			b, err := json.Marshal(x)
			if err != nil {
				return nil, in.typedErr("encoding/json", "UnsupportedValueError")
			}
			return in.numLit(string(b)), none
		case *SymFloat:
			// exact only when the integer survives the trip through float64
			c := in.c
			lim := uint64(1) << 53
			if !in.branch(c.And(c.Bin(OSLe, c.BV(-lim, 64), x.n), c.Bin(OSLe, x.n, c.BV(lim, 64)))) {
				panic(unsupported("symbolic integer beyond 2^53 through float64"))
			}
			return &JNode{k: JNum, n: x.n}, none
		}
	case *types.Struct:
		n := &JNode{k: JObj}
		s := v.(Struct)
		root := new(Value)
		*root = s
		if addr != nil {
			root = addr
		}
		for _, f := range in.structFields(u) {
			cell := fieldCell(root, f.idx)
			if f.omitempty && in.isEmpty(f.t, *cell) {
				continue
			}
			if f.quoted {
				panic(unsupported("json ,string option"))
			}
			var a *Value
			if addr != nil {
				a = cell
			}
			x, e := in.encode(f.t, *cell, a)
			if e.t != nil {
				return nil, e
			}
			n.keys = append(n.keys, cstr(f.name))
			n.vals = append(n.vals, x)
		}
		return n, none
	case *types.Map:
		m, _ := v.(*Map)
		if m == nil {
			return &JNode{k: JNull}, none
		}
		if !isString(u.Key()) {
			panic(unsupported("JSON encoding of a map with non-string keys"))
		}
		n := &JNode{k: JObj}
		idx := make([]int, len(m.keys))
		conc := true
		for i := range idx {
			idx[i] = i
			if ks := m.keys[i].(*Str); !ks.concrete() {
				conc = false
			}
		}
		if conc {
			sort.Slice(idx, func(i, j int) bool { return m.keys[idx[i]].(*Str).s < m.keys[idx[j]].(*Str).s })
		} else if len(idx) > 1 {
			// order symbolic keys by asking the path
			sort.SliceStable(idx, func(i, j int) bool {
				return in.branch(in.strLess(m.keys[idx[i]].(*Str), m.keys[idx[j]].(*Str)))
			})
		}
		for _, i := range idx {
			x, e := in.encode(u.Elem(), m.vals[i], nil)
			if e.t != nil {
				return nil, e
			}
			n.keys = append(n.keys, in.safeText(m.keys[i].(*Str)))
			n.vals = append(n.vals, x)
		}
		return n, none
	case *types.Slice:
		s := v.(Slice)
		if s.nil_ && s.blob == nil {
			return &JNode{k: JNull}, none
		}
		if isByteSlice(t) {
			b, ok := in.concBytes(s)
			if !ok {
				panic(unsupported("base64 encoding of symbolic bytes"))
			}
			j, _ := json.Marshal(b)
			var txt string
			json.Unmarshal(j, &txt)
			return &JNode{k: JStr, s: cstr(txt)}, none
		}
		n := &JNode{k: JArr}
		for i := range s.a {
			x, e := in.encode(u.Elem(), s.a[i], &s.a[i])
			if e.t != nil {
				return nil, e
			}
			n.arr = append(n.arr, x)
		}
		return n, none
	case *types.Array:
		n := &JNode{k: JArr}
		s := v.(Array)
		for i := range s {
			x, e := in.encode(u.Elem(), s[i], nil)
			if e.t != nil {
				return nil, e
			}
			n.arr = append(n.arr, x)
		}
		return n, none
	}
	return nil, in.typedErr("encoding/json", "UnsupportedTypeError")
}

func (in *Interp) callMarshal(m *ssa.Function, recv Value) (*JNode, Iface) {
	r := in.callFn(m, []Value{recv}, nil).(Tuple)
	if e := r[1].(Iface); e.t != nil {
		// encoding/json wraps errors of Marshalers
		t := in.pkgType("encoding/json", "MarshalerError")
		p := new(Value)
		st := in.zero(t).(Struct)
		u := t.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "Err" {
				st[i] = e
			}
		}
		*p = st
		return nil, Iface{t: in.ptrTo(t), v: p}
	}
	s := r[0].(Slice)
	if s.nil_ && s.blob == nil {
		return nil, in.mkErrVal("json: error calling MarshalJSON: unexpected end of JSON input")
	}
	t := in.treeOf(s)
	if t.k == JBad {
		return nil, in.syntaxErr()
	}
	return t, Iface{}
}

func (in *Interp) isEmpty(t types.Type, v Value) bool {
	switch x := v.(type) {
	case *Term:
		return in.branch(in.eqVal(x, 0))
	case *Str:
		if x.rope != nil && hasOpaque(x) {
			return false
		}
		return in.strLen(x) == 0
	case float64:
		return x == 0
	case *SymFloat:
		return in.branch(in.eqVal(x.n, 0))
	case *Value:
		return x == nil
	case *Map:
		return x == nil || len(x.keys) == 0
	case Slice:
		return x.blob == nil && len(x.a) == 0
	case Iface:
		return x.t == nil
	case Array:
		return len(x) == 0
	}
	return false
}

// canonTree sorts members (concrete names) and checks that numbers are integers.
func (in *Interp) canonTree(n *JNode) (*JNode, bool) {
	switch n.k {
	case JLit:
		if n.text == "-0" {
			return n, true
		}
		return nil, false
	case JArr:
		m := &JNode{k: JArr}
		for _, x := range n.arr {
			y, ok := in.canonTree(x)
			if !ok {
				return nil, false
			}
			m.arr = append(m.arr, y)
		}
		return m, true
	case JObj:
		m := &JNode{k: JObj}
		idx := make([]int, 0, len(n.keys))
		for i := range n.keys {
			// duplicates: the last one wins
			dup := false
			for j := i + 1; j < len(n.keys); j++ {
				if in.strEq(n.keys[i], n.keys[j]) == in.c.True {
					dup = true
				}
			}
			if !dup {
				idx = append(idx, i)
			}
		}
		conc := true
		for _, k := range n.keys {
			if !k.concrete() {
				conc = false
			}
		}
		if conc {
			sort.SliceStable(idx, func(i, j int) bool { return n.keys[idx[i]].s < n.keys[idx[j]].s })
		}
		for _, i := range idx {
			y, ok := in.canonTree(n.vals[i])
			if !ok {
				return nil, false
			}
			m.keys = append(m.keys, n.keys[i])
			m.vals = append(m.vals, y)
		}
		return m, true
	}
	return n, true
}
