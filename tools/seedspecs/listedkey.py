ID='c23-listed-key-not-stored'; PROP='C23'
NEEDS='A root whose role lists a key identifier that the key store does not have (or has with another key), and that key being added to the role.'
BREAKS='Adding a key that the role lists already leaves the store as it is, so the role is still without that key although adding it succeeded.'
EDITS=[('metadata/metadata.go','''	// add keyID to role
	if !slices.Contains(signed.Roles[role].KeyIDs, key.ID()) {
		signed.Roles[role].KeyIDs = withKeyID(signed.Roles[role].KeyIDs, key.ID())
	}
	// update Keys
''','''	// add keyID to role
	if slices.Contains(signed.Roles[role].KeyIDs, key.ID()) {
		log.Info("Role already has keyID", "role", role, "ID", key.ID())
		return nil
	}
	signed.Roles[role].KeyIDs = withKeyID(signed.Roles[role].KeyIDs, key.ID())
	// update Keys
''')]
DEMO='''
import ("testing"; "github.com/rdimitrov/go-tuf-metadata/metadata")
func TestDemo(t *testing.T) {
	k := newKey()
	m := metadata.Root()
	m.Signed.Roles["timestamp"].KeyIDs = []string{k.pub.ID()}
	must(m.Signed.AddKey(k.pub, "timestamp"))
	if m.Signed.Keys[k.pub.ID()] == nil {
		t.Fatal("the added key isn't there")
	}
}
'''
