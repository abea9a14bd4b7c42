ID='c04-delegated-in-grace'; PROP='C04'
NEEDS='Delegated metadata that expired less than a day ago.'
BREAKS='Targets metadata gets a day of grace which the other roles do not have, so expired lists of targets are used.'
EDITS=[('metadata/trustedmetadata/trustedmetadata.go','''	if newDelegate.Signed.IsExpired(trusted.RefTime) {''','''	if newDelegate.Signed.IsExpired(trusted.RefTime) && newDelegate.Signed.IsExpired(time.Now().UTC().AddDate(0, 0, -1)) {''')]
DEMO='''
import ("testing"; "time")
func TestDemo(t *testing.T) {
	r := newRepo()
	r.tg.Signed.Expires = time.Now().UTC().Add(-time.Hour).Truncate(time.Second)
	root := r.publish()
	u, err := client(t, root, &r.net, t.TempDir())
	must(err)
	if err := u.Refresh(); err == nil {
		t.Fatal("expired targets used")
	}
}
'''
