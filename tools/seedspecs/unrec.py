ID='c01-unsigned-fields-of-bins'; PROP='C01'
NEEDS='A targets document with hash bins to which an additional field was added inside succinct_roles after it was signed.'
BREAKS='Unrecognised fields of succinct roles are left out of the canonical form, so signatures verify although the signed content was changed (and a document signed with such a field no longer verifies).'
EDITS=[('metadata/marshal.go','''func (role SuccinctRoles) MarshalJSON() ([]byte, error) {
	dict := map[string]any{}
	if len(role.UnrecognizedFields) != 0 {
		copyMapValues(role.UnrecognizedFields, dict)
	}
	dict["keyids"] = role.KeyIDs
	dict["threshold"] = role.Threshold
	dict["bit_length"] = role.BitLength
	dict["name_prefix"] = role.NamePrefix
	return json.Marshal(dict)
''','''func (role SuccinctRoles) MarshalJSON() ([]byte, error) {
	type Alias SuccinctRoles
	return json.Marshal(Alias(role))
''')]
DEMO='''
import ("testing"; "bytes"
"github.com/rdimitrov/go-tuf-metadata/metadata")
func TestDemo(t *testing.T) {
	r := newRepo()
	r.tg.Signed.Delegations = &metadata.Delegations{Keys: map[string]*metadata.Key{r.gk.pub.ID(): r.gk.pub},
		SuccinctRoles: &metadata.SuccinctRoles{KeyIDs: []string{r.gk.pub.ID()}, Threshold: 1, BitLength: 4, NamePrefix: "bin"}}
	doc := signed(r.tg, r.gk)
	check := func(d []byte) error {
		m, err := metadata.Targets().FromBytes(d)
		must(err)
		return r.root.VerifyDelegate("targets", m)
	}
	must(check(doc))
	if check(bytes.Replace(doc, []byte(`"bit_length"`), []byte(`"evil":true,"bit_length"`), 1)) == nil {
		t.Fatal("changed content verifies")
	}
}
'''
