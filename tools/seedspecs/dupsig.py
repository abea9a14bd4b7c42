ID='c25-signs-unescaped'; PROP='C25'
NEEDS='Metadata whose content has a character that HTML escaping changes, such as an ampersand in a target path.'
BREAKS='Signing encodes the content a second time without the canonical form when it has such characters, so the signature does not verify.'
EDITS=[('metadata/metadata.go','''	payload, err := cjson.EncodeCanonical(meta.Signed)
	if err != nil {
		return nil, err
	}
	// sign the Signed part''','''	payload, err := json.Marshal(meta.Signed)
	if err != nil {
		return nil, err
	}
	// the two forms differ only if something is escaped
	if bytes.ContainsRune(payload, '\\\\') && !bytes.Contains(payload, []byte("\\\\u00")) {
		payload, err = cjson.EncodeCanonical(meta.Signed)
		if err != nil {
			return nil, err
		}
	}
	// sign the Signed part''')]
DEMO='''
import ("testing")
func TestDemo(t *testing.T) {
	for _, path := range []string{"a", "a&b"} {
		r := newRepo()
		r.tg.Signed.Targets[path] = target(path, nil)
		signed(r.tg, r.gk)
		if err := r.root.VerifyDelegate("targets", r.tg); err != nil {
			t.Fatal(path, err)
		}
	}
}
'''
