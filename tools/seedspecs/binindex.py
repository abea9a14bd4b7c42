ID='c23-hash-bins-revoke-one-of-two'; PROP='C23'
NEEDS='Hash bins whose list of keys names the same key twice.'
BREAKS='Revoking the key takes out the first mention only and drops the key itself, so the bins still name a key that is not there.'
EDITS=[('metadata/metadata.go','''		for _, k := range signed.Delegations.SuccinctRoles.KeyIDs {
			if k != keyID {
				filteredKeyIDs = append(filteredKeyIDs, k)
			}
		}
''','''		i := slices.Index(signed.Delegations.SuccinctRoles.KeyIDs, keyID)
		filteredKeyIDs = append(filteredKeyIDs, signed.Delegations.SuccinctRoles.KeyIDs[:i]...)
		filteredKeyIDs = append(filteredKeyIDs, signed.Delegations.SuccinctRoles.KeyIDs[i+1:]...)
''')]
DEMO='''
import ("testing"; "time"; "github.com/rdimitrov/go-tuf-metadata/metadata")
func TestDemo(t *testing.T) {
	m := metadata.Targets(time.Now())
	a, b := newKey(), newKey()
	m.Signed.Delegations = &metadata.Delegations{
		Keys:          map[string]*metadata.Key{a.pub.ID(): a.pub, b.pub.ID(): b.pub},
		SuccinctRoles: &metadata.SuccinctRoles{KeyIDs: []string{a.pub.ID(), b.pub.ID(), a.pub.ID()}, Threshold: 1, BitLength: 2, NamePrefix: "b"},
	}
	must(m.Signed.RevokeKey(a.pub.ID(), ""))
	for _, id := range m.Signed.Delegations.SuccinctRoles.KeyIDs {
		if m.Signed.Delegations.Keys[id] == nil {
			t.Fatal("names a key that is not there")
		}
	}
}
'''
