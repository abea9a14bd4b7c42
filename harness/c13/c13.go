// Package c13: no document, response or cache content crashes the client.
package c13

import (
	"time"

	"strings"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/multirepo"
	"github.com/rdimitrov/go-tuf-metadata/metadata/trustedmetadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/updater"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/kit"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/model"
	osshim "github.com/rdimitrov/go-tuf-metadata/zzverif/osshim"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/vp"
)

const target = "d/x"

// world is a repository whose documents use every field of the format.
type world struct {
	bins         bool
	broken       string // role whose document is broken, "" for none
	how          func(*vp.J) *vp.J
	docs         map[string][]byte
	deleg        string
	rk, tk, sk   *vp.Key
	gk, dk       *vp.Key
	valid        bool // the broken document is signed after it was broken
	whole        bool // the whole file is broken, not only its signed part
	announceOnly bool // parents announce versions only
}

func newWorld() *world {
	return &world{docs: map[string][]byte{}, deleg: "deleg", rk: vp.Ed(0), tk: vp.Ed(1), sk: vp.Ed(2), gk: vp.Ed(3), dk: vp.EC(0), valid: true}
}

func more(o *vp.J) *vp.J { return o.Put("x-more", vp.O("a", vp.N(3), "b", vp.A(vp.S("p")))) }

func (w *world) sign(role string, signed *vp.J, k *vp.Key) {
	if role == w.broken && !w.whole {
		old := signed
		signed = w.how(signed)
		if !w.valid {
			w.docs[role] = vp.Doc(kit.Env(signed, kit.SigBy(k, old)))
			return
		}
	}
	env := kit.Env(signed, kit.SigBy(k, signed))
	if role == w.broken && w.whole {
		env = w.how(env)
	}
	w.docs[role] = vp.Doc(env)
}

func (w *world) meta(role string) *vp.J {
	if w.announceOnly {
		return kit.Meta(vp.N(1))
	}
	return more(kit.MetaFull(vp.N(1), w.docs[role]))
}

// build makes the documents, children first.
func (w *world) build() *world {
	one := vp.N(1)
	t := kit.TargetJ([]byte("c"))
	t.Put("custom", vp.O("z", vp.N(1)))
	if w.bins {
		w.deleg = "bin-0"
	}
	w.sign(w.deleg, more(kit.TargetsJ(one, kit.Later(), vp.O(target, more(t)), nil)), w.dk)
	var ds *vp.J
	if w.bins {
		ds = vp.O("keys", kit.KeyMap(w.dk), "succinct_roles",
			more(vp.O("bit_length", vp.N(1), "keyids", kit.IDs(w.dk), "name_prefix", vp.S("bin"), "threshold", one)))
	} else {
		other := kit.DelegJ("other", 1, false, vp.Strs("*"), w.dk).Del("paths").Put("path_hash_prefixes", vp.Strs("abcd"))
		ds = kit.DelegationsJ(kit.KeyMap(w.dk), more(kit.DelegJ("deleg", 1, false, vp.Strs("d/*"), w.dk)), other)
	}
	w.sign("targets", more(kit.TargetsJ(one, kit.Later(), vp.O("y", kit.TargetJ([]byte("y"))), more(ds))), w.gk)
	w.sign("snapshot", more(kit.SnapshotJ(one, kit.Later(), vp.O(w.deleg+".json", w.meta(w.deleg), "bin-1.json", w.meta(w.deleg), "targets.json", w.meta("targets")))), w.sk)
	w.sign("timestamp", more(kit.TimestampJ(one, kit.Later(), w.meta("snapshot"))), w.tk)
	return w
}

func (w *world) rootJ(version int64) *vp.J {
	return more(kit.RootJ(vp.N(version), kit.Later(), true, kit.KeyMap(w.rk, w.tk, w.sk, w.gk),
		kit.Roles4(more(kit.RoleJ(1, w.rk)), kit.RoleJ(1, w.tk), kit.RoleJ(1, w.sk), kit.RoleJ(1, w.gk))))
}

func (w *world) net() *kit.Net {
	n := kit.NewNet()
	n.Files[kit.Base+"1.root.json"] = w.docs["root"]
	n.Files[kit.Base+"timestamp.json"] = w.docs["timestamp"]
	n.Files[kit.Base+"1.snapshot.json"] = w.docs["snapshot"]
	n.Files[kit.Base+"1.targets.json"] = w.docs["targets"]
	n.Files[kit.Base+"1."+w.deleg+".json"] = w.docs[w.deleg]
	n.Make = func(u string) []byte {
		if len(u) > len(kit.TBase) && u[:len(kit.TBase)] == kit.TBase {
			return []byte("c")
		}
		return nil
	}
	return n
}

// use performs every operation of a client.
func use(u *updater.Updater) {
	_ = u.GetTopLevelTargets()
	_ = u.GetTrustedMetadataSet()
	info, err := u.GetTargetInfo(target)
	vp.Log("found", err == nil)
	_ = u.GetTopLevelTargets()
	if err == nil {
		vp.Assert(info != nil, "a-result-or-an-error")
		if info == nil {
			return
		}
		p, _, err := u.DownloadTarget(info, "", "")
		vp.Log("downloaded", err == nil, p != "")
		_, _, err = u.FindCachedTarget(info, "")
		vp.Log("cached", err == nil)
		vp.Reach("downloaded")
	}
	for _, t := range []string{"", "d/none"} {
		info, err = u.GetTargetInfo(t)
		vp.Assert(err != nil || info != nil, "a-result-or-an-error")
	}
}

func client(root []byte, net *kit.Net, cache, early bool) {
	u, err := updater.New(kit.Cfg2(root, net, cache))
	vp.Log("client", err == nil)
	if err != nil {
		vp.Reach("no client")
		return
	}
	if early {
		use(u)
		return
	}
	err = u.Refresh()
	vp.Log("refreshed", err == nil)
	use(u)
}

var roles = []string{"timestamp", "snapshot", "targets", "deleg"}

func (w *world) choose() {
	w.bins = vp.Bool("bins")
	w.broken = roles[vp.Choice("broken", 4)]
	if w.bins && w.broken == "deleg" {
		w.broken = "bin-0"
	}
}

// CheckSigned: any value of any document broken, correctly signed and announced.
func CheckSigned() {
	osshim.VPReset()
	osshim.VPChdir("/work")
	osshim.VPMkdir(kit.MDir)
	w := newWorld()
	w.choose()
	w.how = func(j *vp.J) *vp.J { return kit.Break(j, vp.Thorough()) }
	w.build()
	w.docs["root"] = kit.Signed(w.rootJ(1), w.rk)
	client(w.docs["root"], w.net(), false, w.bins)
	vp.Reach("signed")
}

// CheckFiles: any value of the whole file broken, signatures included.
func CheckFiles() {
	osshim.VPReset()
	osshim.VPChdir("/work")
	osshim.VPMkdir(kit.MDir)
	w := newWorld()
	w.choose()
	w.whole = true
	w.how = func(j *vp.J) *vp.J {
		j = j.Copy()
		switch vp.Choice("part", 3) {
		case 0:
			j.Put("signatures", kit.Break(j.Get("signatures"), true))
		case 1:
			signed := j.Get("signed")
			return kit.Break(vp.O("signatures", j.Get("signatures"), "signed", vp.O("_type", signed.Get("_type"))), true)
		case 2:
			sig := j.Get("signatures").Vals[0]
			sig.Put("x-more", vp.N(1))
			j.Put("signatures", vp.A(kit.Break(sig, true), sig))
		}
		return j
	}
	w.build()
	w.docs["root"] = kit.Signed(w.rootJ(1), w.rk)
	client(w.docs["root"], w.net(), false, w.bins)
	vp.Reach("files")
}

// CheckRoot: a trusted or a new root with a broken value.
func CheckRoot() {
	osshim.VPReset()
	osshim.VPChdir("/work")
	osshim.VPMkdir(kit.MDir)
	w := newWorld().build()
	good := kit.Signed(w.rootJ(1), w.rk)
	net := w.net()
	if vp.Bool("trusted") {
		j := kit.Break(w.rootJ(1), vp.Thorough())
		client(kit.Signed(j, w.rk), net, false, false)
	} else {
		j := kit.Break(w.rootJ(2), vp.Thorough())
		net.Files[kit.Base+"2.root.json"] = kit.Signed(j, w.rk)
		client(good, net, false, true)
	}
	vp.Reach("root")
}

// CheckCache: broken files in the cache, with a repository that works or doesn't.
func CheckCache() {
	osshim.VPReset()
	osshim.VPChdir("/work")
	osshim.VPMkdir(kit.MDir)
	w := newWorld().build()
	w.docs["root"] = kit.Signed(w.rootJ(1), w.rk)
	for r, d := range w.docs {
		osshim.VPPut(kit.MDir+"/"+r+".json", d)
	}
	net := w.net()
	mode := []int{0, 1, 3, 4, 2, 5, 6, 7}[vp.Choice("mode", vp.Pick(4, 8))]
	if mode&1 > 0 { // offline
		for u := range net.Files {
			net.Fail[u] = true
		}
	}
	b := newWorld()
	b.broken = roles[vp.Choice("broken", 4)]
	b.how = func(j *vp.J) *vp.J { return kit.Break(j, false) }
	b.announceOnly = true
	b.build()
	osshim.VPPut(kit.MDir+"/"+b.broken+".json", b.docs[b.broken])
	if mode&2 > 0 { // all of them
		for r, d := range b.docs {
			osshim.VPPut(kit.MDir+"/"+r+".json", d)
		}
	}
	cfg := kit.Cfg2(w.docs["root"], net, true)
	cfg.UnsafeLocalMode = mode&4 > 0
	u, err := updater.New(cfg)
	if err != nil {
		vp.Assert(false, "client-starts")
		return
	}
	err = u.Refresh()
	vp.Log("refreshed", err == nil)
	use(u)
	vp.Reach("cache")
}

// documents are contents that aren't metadata at all.
func documents(w *world) []byte {
	all := []string{"", " ", "null", "true", "0", "\"x\"", "[]", "{}", "{", "[null]", "{\"signed\":null}", "{\"signed\":{}}", "{\"signed\":[]}",
		"{\"signatures\":null,\"signed\":null}", "{\"signatures\":[null],\"signed\":{\"_type\":\"root\"}}", "{\"signed\":{\"_type\":null}}",
		"{\"signed\":{\"_type\":[\"root\"]}}", "{\"signed\":{\"_type\":\"targets\",\"delegations\":{}}}", "{\"signatures\":[],\"signed\":{\"_type\":\"timestamp\"}}",
		"{\"signatures\":[],\"signed\":{\"_type\":\"snapshot\",\"meta\":null}}", "{}{}", "\x00", "\xff\xfe", "{\"signed\":{\"_type\":\"ROOT\"}}"}
	k := vp.Choice("text", len(all)+5)
	if k < len(all) {
		return []byte(all[k])
	}
	return w.docs[[]string{"root", "timestamp", "snapshot", "targets", "deleg"}[k-len(all)]]
}

// CheckForeign: documents that aren't metadata of the role, wherever one is expected.
func CheckForeign() {
	osshim.VPReset()
	osshim.VPChdir("/work")
	osshim.VPMkdir(kit.MDir)
	w := newWorld().build()
	w.docs["root"] = kit.Signed(w.rootJ(1), w.rk)
	d := documents(w)
	net := w.net()
	switch k := vp.Choice("where", 6); k {
	case 0:
		client(d, net, false, false)
	case 1:
		net.Files[kit.Base+"2.root.json"] = d
		client(w.docs["root"], net, false, vp.Bool("before an update"))
	default:
		r := roles[k-2]
		u := kit.Base + "1." + r + ".json"
		if r == "timestamp" {
			u = kit.Base + "timestamp.json"
		}
		if vp.Bool("cached") {
			osshim.VPPut(kit.MDir+"/"+r+".json", d)
			client(w.docs["root"], net, true, vp.Bool("before an update"))
		} else {
			w.announceOnly = true
			w.build()
			net = w.net()
			net.Files[u] = d
			client(w.docs["root"], net, false, vp.Bool("before an update"))
		}
	}
	vp.Reach("foreign")
}

func tryAll(d []byte) {
	now := time.Unix(vp.Now().Unix(), 0)
	if md, err := metadata.Root().FromBytes(d); err == nil {
		exerciseRoot(md, now)
	}
	if md, err := metadata.Timestamp().FromBytes(d); err == nil {
		vp.Reach("timestamp loads")
		_ = md.Signed.IsExpired(now)
		for _, m := range md.Signed.Meta {
			_ = m.VerifyLengthHashes([]byte("x"))
		}
		common(md)
	}
	if md, err := metadata.Snapshot().FromBytes(d); err == nil {
		vp.Reach("snapshot loads")
		_ = md.Signed.IsExpired(now)
		for _, m := range md.Signed.Meta {
			_ = m.VerifyLengthHashes([]byte("x"))
		}
		common(md)
	}
	if md, err := metadata.Targets().FromBytes(d); err == nil {
		exerciseTargets(md, now)
	}
	ts, err := trustedmetadata.New(d)
	if err == nil {
		vp.Assert(ts != nil && ts.Root != nil, "a-result-or-an-error")
	}
}

func common[T metadata.Roles](md *metadata.Metadata[T]) {
	b, err := md.ToBytes(false)
	vp.Log("bytes", err == nil)
	if err == nil {
		_, err = new(metadata.Metadata[T]).FromBytes(b)
		vp.Log("again", err == nil)
	}
	_, err = md.ToBytes(true)
	vp.Log("pretty", err == nil)
	_ = md.VerifyDelegate("root", md)
	md.ClearSignatures()
	vp.Assert(len(md.Signatures) == 0, "a-result-or-an-error")
}

func exerciseRoot(md *metadata.Metadata[metadata.RootType], now time.Time) {
	vp.Reach("root loads")
	_ = md.Signed.IsExpired(now)
	usable := 0
	for _, k := range md.Signed.Keys {
		if _, err := k.ToPublicKey(); err == nil {
			usable++
		}
	}
	vp.Log("usable keys", usable)
	for _, r := range []string{"root", "timestamp", "snapshot", "targets", "other", ""} {
		_ = md.VerifyDelegate(r, md)
		_ = md.VerifyDelegate(r, metadata.Targets())
		_ = md.VerifyDelegate(r, nil)
	}
	common(md)
	k := &metadata.Key{Type: "ed25519", Scheme: "ed25519", Value: metadata.KeyVal{PublicKey: vp.Hex(vp.Ed(8).Pub)}}
	for _, r := range []string{"root", "other"} {
		_ = md.Signed.AddKey(k, r)
		_ = md.Signed.RevokeKey(k.ID(), r)
		_ = md.Signed.RevokeKey("", r)
	}
}

func exerciseTargets(md *metadata.Metadata[metadata.TargetsType], now time.Time) {
	vp.Reach("targets loads")
	_ = md.Signed.IsExpired(now)
	for _, t := range md.Signed.Targets {
		_ = t.VerifyLengthHashes([]byte("x"))
		_ = t.Equal(*t)
	}
	names := []string{"deleg", "bin-0", "bin-x", "root", ""}
	for _, r := range names {
		_ = md.VerifyDelegate(r, md)
		_ = md.VerifyDelegate(r, metadata.Root())
	}
	if d := md.Signed.Delegations; d != nil {
		for _, p := range []string{target, "", "/", "a"} {
			_ = d.GetRolesForTarget(p)
			for i := range d.Roles {
				_, _ = d.Roles[i].IsDelegatedPath(p)
			}
		}
		if s := d.SuccinctRoles; s != nil {
			for _, r := range names {
				_ = s.IsDelegatedRole(r)
			}
			_ = s.GetRolesForTarget("")
		}
	}
	common(md)
	k := &metadata.Key{Type: "ed25519", Scheme: "ed25519", Value: metadata.KeyVal{PublicKey: vp.Hex(vp.Ed(8).Pub)}}
	for _, r := range []string{"deleg", ""} {
		_ = md.Signed.AddKey(k, r)
		_ = md.Signed.RevokeKey(k.ID(), r)
		_ = md.Signed.RevokeKey("", r)
	}
}

// CheckOperations: every operation on every document that loads, broken anywhere.
func CheckOperations() {
	var j *vp.J
	w := newWorld()
	w.bins = vp.Bool("bins")
	_, j = kit.Rich(vp.Choice("kind", 5))
	j = kit.Break(j, true)
	tryAll(vp.Doc(kit.Env(j, kit.SigJ("k", vp.Sign(vp.Ed(0), vp.Canon(j))))))
	vp.Reach("operations")
}

// CheckTexts: every operation on contents that aren't metadata.
func CheckTexts() {
	w := newWorld().build()
	w.docs["root"] = kit.Signed(w.rootJ(1), w.rk)
	tryAll(documents(w))
	vp.Reach("texts")
}

// CheckMap: a map file with any value broken.
func CheckMap() {
	osshim.VPReset()
	osshim.VPChdir("/work")
	w := newWorld().build()
	w.docs["root"] = kit.Signed(w.rootJ(1), w.rk)
	files := w.net().Files
	model.Handler = func(method, u string) model.Response {
		if d, ok := files[kit.Base+strings.TrimPrefix(u, "https://r0/")]; ok {
			return model.Response{Status: 200, Body: d, ContentLength: -1}
		}
		return model.Response{Status: 404}
	}
	m := vp.O("mapping", vp.A(
		vp.O("paths", vp.Strs("d/*"), "repositories", vp.Strs("a", "b"), "terminating", vp.B(false), "threshold", vp.N(1)),
		vp.O("paths", vp.Strs("*"), "repositories", vp.Strs("b"), "terminating", vp.B(true), "threshold", vp.N(1))),
		"repositories", vp.O("a", vp.Strs("https://r0"), "b", vp.Strs("https://r1")))
	roots := map[string][]byte{"a": w.docs["root"], "b": w.docs["root"]}
	var d []byte
	if k := vp.Choice("text", 8); k < 7 {
		d = []byte([]string{"", "null", "[]", "{}", "{\"mapping\":[null]}", "{\"repositories\":{\"a\":null}}", "\"x\""}[k])
	} else {
		d = vp.Doc(kit.Break(m, true))
	}
	switch vp.Choice("roots", 3) {
	case 1:
		roots["b"] = nil
	case 2:
		delete(roots, "a")
	}
	cfg, err := multirepo.NewConfig(d, roots)
	if err != nil {
		vp.Reach("map refused")
		return
	}
	cfg.DisableLocalCache = true
	c, err := multirepo.New(cfg)
	if err != nil {
		vp.Reach("no clients")
		return
	}
	info, by, err := c.GetTargetInfo(target)
	vp.Log("found", err == nil)
	if err == nil {
		vp.Assert(info != nil, "a-result-or-an-error")
		_, _, err = c.DownloadTarget(by, info, "", "")
		vp.Log("downloaded", err == nil)
		vp.Reach("found")
	}
	_, err = c.GetTopLevelTargets()
	vp.Log("top", err == nil)
	_, _, _ = c.GetTargetInfo("")
	err = c.Refresh()
	vp.Log("refreshed", err == nil)
	_, err = c.GetTopLevelTargets()
	vp.Log("top", err == nil)
	vp.Reach("map")
}

// CheckKeys: keys whose declared type, scheme and value don't fit each other, with any
// signature, in root and in delegations.
func CheckKeys() {
	values := []string{string(vp.RSA(0).Pub), string(vp.EC(0).Pub), vp.Hex(vp.Ed(0).Pub), "", "zz", string(vp.EC(0).Pub[:100]),
		vp.Hex(vp.Ed(0).Pub) + "00", "-----BEGIN PUBLIC KEY-----\nAAAA\n-----END PUBLIC KEY-----\n", "-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n", "\x00"}
	types := []string{"rsa", "ecdsa", "ecdsa-sha2-nistp256", "ed25519", "", "dsa"}
	schemes := []string{"rsassa-pss-sha256", "ecdsa-sha2-nistp256", "ed25519", ""}
	key := vp.O("keytype", vp.S(types[vp.Choice("type", len(types))]), "scheme", vp.S(schemes[vp.Choice("scheme", len(schemes))]),
		"keyval", vp.O("public", vp.S(values[vp.Choice("value", len(values))])))
	var sig []byte
	switch vp.Choice("signature", 4) {
	case 0:
		sig = []byte{}
	case 1:
		sig = vp.Bytes("sig", vp.Pick(3, 8))
	case 2:
		sig = vp.Sign(vp.Ed(0), []byte("x"))
	case 3:
		sig = make([]byte, 64)
	}
	good := vp.Ed(5)
	role := vp.O("keyids", vp.Strs("k", "g"), "threshold", vp.N(1))
	keys := vp.O("k", key, "g", kit.KeyJ(good))
	env := func(j *vp.J, signed bool) []byte {
		sigs := []*vp.J{kit.SigJ("k", sig)}
		if signed {
			sigs = append(sigs, kit.SigJ("g", vp.Sign(good, vp.Canon(j))))
		}
		return vp.Doc(kit.Env(j, sigs...))
	}
	other := vp.Bool("other signs")
	if vp.Bool("root") {
		j := kit.RootJ(vp.N(1), kit.Later(), true, keys, kit.Roles4(role, role, role, role))
		ts, err := trustedmetadata.New(env(j, other))
		vp.Assert((err == nil) == other, "other-signature-decides")
		if err == nil {
			_, err = ts.UpdateRoot(env(kit.RootJ(vp.N(2), kit.Later(), true, keys, kit.Roles4(role, role, role, role)), other))
			vp.Assert(err == nil, "other-signature-decides")
		}
		vp.Reach("keys of root")
		return
	}
	d := vp.O("keyids", vp.Strs("k", "g"), "name", vp.S("r"), "paths", vp.Strs("*"), "terminating", vp.B(false), "threshold", vp.N(1))
	tg, err := metadata.Targets().FromBytes(vp.Doc(kit.Env(kit.TargetsJ(vp.N(1), kit.Later(), vp.O(), kit.DelegationsJ(keys, d)))))
	vp.Assert(err == nil, "delegations-load")
	if err != nil {
		return
	}
	md, err := metadata.Targets().FromBytes(env(kit.TargetsJ(vp.N(1), kit.Later(), vp.O(), nil), other))
	vp.Assert(err == nil, "role-loads")
	if err != nil {
		return
	}
	vp.Assert((tg.VerifyDelegate("r", md) == nil) == other, "other-signature-decides")
	vp.Reach("keys of delegations")
}
