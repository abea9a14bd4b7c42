ID='c24-identifier-of-known-members'; PROP='C24'
NEEDS='A key with a member the library does not know (written by another implementation).'
BREAKS='The identifier is computed over the three known members only, so keys with different contents share an identifier, and it is no longer the digest of the canonical form.'
EDITS=[('metadata/keys.go','''		data, err := cjson.EncodeCanonical(k)
''','''		data, err := cjson.EncodeCanonical(map[string]any{"keytype": k.Type, "scheme": k.Scheme, "keyval": k.Value})
''')]
DEMO='''
import ("testing"; "encoding/json"; "github.com/rdimitrov/go-tuf-metadata/metadata")
func TestDemo(t *testing.T) {
	var a, b metadata.Key
	must(json.Unmarshal([]byte(`{"keytype":"ed25519","scheme":"ed25519","keyval":{"public":"aa"}}`), &a))
	must(json.Unmarshal([]byte(`{"keytype":"ed25519","scheme":"ed25519","keyval":{"public":"aa"},"x":"y"}`), &b))
	if a.ID() == b.ID() {
		t.Fatal("same identifier")
	}
}
'''
