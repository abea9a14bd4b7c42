ID='c23-filter-in-place'; PROP='C23'
NEEDS='Two roles whose key lists share their backing array, as when both were made from one slice.'
BREAKS='Revoking a key filters the list of key identifiers in place, which changes the list of another role that shares its array.'
EDITS=[('metadata/metadata.go','''	filteredKeyIDs := []string{}
	for _, k := range signed.Roles[role].KeyIDs {
''','''	filteredKeyIDs := signed.Roles[role].KeyIDs[:0]
	for _, k := range signed.Roles[role].KeyIDs {
''')]
DEMO='''
import ("testing"; "reflect"
"github.com/rdimitrov/go-tuf-metadata/metadata")
func TestDemo(t *testing.T) {
	a, b := newKey(), newKey()
	ids := []string{a.pub.ID(), b.pub.ID()}
	root := metadata.Root()
	root.Signed.Keys = map[string]*metadata.Key{a.pub.ID(): a.pub, b.pub.ID(): b.pub}
	root.Signed.Roles["root"].KeyIDs = ids
	root.Signed.Roles["targets"].KeyIDs = ids
	must(root.Signed.RevokeKey(a.pub.ID(), "root"))
	if got := root.Signed.Roles["targets"].KeyIDs; !reflect.DeepEqual(got, []string{a.pub.ID(), b.pub.ID()}) {
		t.Fatal("keys of another role changed", got)
	}
}
'''
