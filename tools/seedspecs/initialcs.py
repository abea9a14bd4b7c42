ID='c26-consistent-of-initial-root'; PROP='C26'
NEEDS='A client whose initial root predates the switch to consistent snapshots: the root is rotated during the refresh and turns the scheme on or off.'
BREAKS='Whether names carry a version is taken from the initial root, so after a rotation that changes the scheme the snapshot is asked for under a name the repository does not use.'
EDITS=[('metadata/updater/updater.go','''	trusted *trustedmetadata.TrustedMetadata
	cfg     *config.UpdaterConfig
}''','''	trusted    *trustedmetadata.TrustedMetadata
	cfg        *config.UpdaterConfig
	consistent bool
}'''),('metadata/updater/updater.go','''		trusted: trustedMetadataSet, // save trusted metadata set
	}''','''		trusted: trustedMetadataSet, // save trusted metadata set
	}
	updater.consistent = trustedMetadataSet.Root.Signed.ConsistentSnapshot'''),('metadata/updater/updater.go','''	if update.trusted.Root.Signed.ConsistentSnapshot {
		version = strconv.FormatInt(snapshotMeta.Version, 10)''','''	if update.consistent {
		version = strconv.FormatInt(snapshotMeta.Version, 10)''')]
DEMO='''
import "testing"
func TestDemo(t *testing.T) {
	r := newRepo()
	r.root.Signed.ConsistentSnapshot = false
	root := r.publish()
	r.root.Signed.ConsistentSnapshot = true
	r.root.Signed.Version = 2
	delete(r.files, base+"snapshot.json")
	delete(r.files, base+"targets.json")
	r.publish()
	u, err := client(t, root, &r.net, t.TempDir())
	must(err)
	if err := u.Refresh(); err != nil {
		t.Fatal(err)
	}
}
'''
