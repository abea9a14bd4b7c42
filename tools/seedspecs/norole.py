ID='c14-empty-role-list-dropped'; PROP='C14'
NEEDS='Targets metadata whose delegations have an empty list of roles.'
BREAKS='An empty list of delegated roles is left out when the metadata is encoded, so it differs after a round trip and a valid signature of another implementation is not recognised.'
EDITS=[('metadata/marshal.go','''	if d.Roles != nil {
		dict["roles"] = d.Roles''','''	if len(d.Roles) != 0 {
		dict["roles"] = d.Roles''')]
DEMO='''
import ("testing"; "strings"
"github.com/rdimitrov/go-tuf-metadata/metadata")
func TestDemo(t *testing.T) {
	m := metadata.Targets()
	m.Signed.Delegations = &metadata.Delegations{Keys: map[string]*metadata.Key{}, Roles: []metadata.DelegatedRole{}}
	d := signed(m, newKey())
	if !strings.Contains(string(d), "roles") {
		t.Fatal("roles are missing", string(d))
	}
}
'''
