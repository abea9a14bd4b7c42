ID='c01-letter-case-of-delegated-roles'; PROP='C01'
NEEDS='Two delegated roles whose names differ in letter case only, with different keys.'
BREAKS='The delegation is looked up without regard to letter case, so the metadata of one role is accepted when the keys of the other signed it.'
EDITS=[('metadata/metadata.go','''				if v.Name == delegatedRole {
					found = true''','''				if strings.EqualFold(v.Name, delegatedRole) {
					found = true''')]
DEMO='''
import ("testing")
func TestDemo(t *testing.T) {
	for _, names := range [][2]string{{"a", "A"}, {"A", "a"}} {
		r := newRepo()
		k1, k2 := newKey(), newKey()
		r.roleKey = k1
		r.delegate(nil, names[0], false, "*")
		r.roleKey = k2
		m := r.delegate(nil, names[1], false, "*")
		signed(m, k2)
		if err := r.tg.VerifyDelegate(names[1], m); err != nil {
			t.Fatal(err)
		}
		signed(m, k1)
		if r.tg.VerifyDelegate(names[1], m) == nil {
			t.Fatal("accepted with the keys of another role")
		}
	}
}
'''
