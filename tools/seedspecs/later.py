ID='c23-earlier-role-forgotten'; PROP='C23'
NEEDS='Delegations in which the revoked key is also used by a role that is listed earlier.'
BREAKS='Revoking a key from a delegated role looks for other users among the later roles only, so a key that an earlier role still uses is deleted.'
EDITS=[('metadata/metadata.go','''				for _, r := range signed.Delegations.Roles {
					if slices.Contains(r.KeyIDs, keyID) {
						return nil''','''				for _, r := range signed.Delegations.Roles[i:] {
					if slices.Contains(r.KeyIDs, keyID) {
						return nil''')]
DEMO='''
import ("testing")
func TestDemo(t *testing.T) {
	r := newRepo()
	r.delegate(nil, "a", false, "*")
	r.delegate(nil, "b", false, "*")
	id := r.roleKey.pub.ID()
	must(r.tg.Signed.RevokeKey(id, "b"))
	if r.tg.Signed.Delegations.Keys[id] == nil {
		t.Fatal("key of another role deleted")
	}
	must(r.tg.Signed.RevokeKey(id, "a"))
	if r.tg.Signed.Delegations.Keys[id] != nil {
		t.Fatal("unused key kept")
	}
}
'''
