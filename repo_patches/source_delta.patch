From 0c871e495a42c2807010a33cebe5b037659dccc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 01/38] fix: reject ed25519 keys of the wrong length instead of
 panicking

---
 metadata/keys.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metadata/keys.go b/metadata/keys.go
index f5150a6..3f3d013 100644
--- a/metadata/keys.go
+++ b/metadata/keys.go
@@ -71,6 +71,10 @@ func (k *Key) ToPublicKey() (crypto.PublicKey, error) {
 		if err != nil {
 			return nil, err
 		}
+		// verifying with a key of another length panics
+		if len(publicKey) != ed25519.PublicKeySize {
+			return nil, fmt.Errorf("invalid ed25519 public key length: %d", len(publicKey))
+		}
 		ed25519Key := ed25519.PublicKey(publicKey)
 		// done for verification - ref. https://github.com/theupdateframework/go-tuf/pull/357
 		if _, err := x509.MarshalPKIXPublicKey(ed25519Key); err != nil {
-- 
2.43.0


From 112b42a85765bdbb69409cdc843f7b72ae15cac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 02/38] fix: an unusable key doesn't prevent the remaining keys
 from reaching the threshold

---
 metadata/metadata.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index c017773..eb89821 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -301,7 +301,10 @@ func (meta *Metadata[T]) VerifyDelegate(delegatedRole string, delegatedMetadata
 		// convert to a PublicKey type
 		publicKey, err := key.ToPublicKey()
 		if err != nil {
-			return err
+			// a key we can't use can't contribute to the threshold, but it shouldn't
+			// prevent the rest of the keys from reaching it
+			log.Info("Failed to use key", "role", delegatedRole, "ID", keyID, "error", err.Error())
+			continue
 		}
 		// use corresponding hash function for key type
 		hash := crypto.Hash(0)
-- 
2.43.0


From 46efcc2a171ab202170a5202337ce9e7da210504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 03/38] fix: count every key once towards a role's threshold

---
 metadata/metadata.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index eb89821..0e69f71 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -17,6 +17,7 @@ import (
 	"crypto/hmac"
 	"crypto/sha256"
 	"crypto/sha512"
+	"crypto/x509"
 	"encoding/base64"
 	"encoding/binary"
 	"encoding/hex"
@@ -306,6 +307,12 @@ func (meta *Metadata[T]) VerifyDelegate(delegatedRole string, delegatedMetadata
 			log.Info("Failed to use key", "role", delegatedRole, "ID", keyID, "error", err.Error())
 			continue
 		}
+		// identify the key by its value, so that the same key listed under
+		// several key IDs is not counted more than once
+		keyValue, err := x509.MarshalPKIXPublicKey(publicKey)
+		if err != nil {
+			return err
+		}
 		// use corresponding hash function for key type
 		hash := crypto.Hash(0)
 		if key.Type != KeyTypeEd25519 {
@@ -367,8 +374,8 @@ func (meta *Metadata[T]) VerifyDelegate(delegatedRole string, delegatedMetadata
 			// failed to verify the metadata with that key ID
 			log.Info("Failed to verify %s with key ID %s", delegatedRole, keyID)
 		} else {
-			// save the verified keyID only if verification passed
-			signingKeys[keyID] = true
+			// save the verified key only if verification passed
+			signingKeys[string(keyValue)] = true
 			log.Info("Verified with key", "role", delegatedRole, "ID", keyID)
 		}
 	}
-- 
2.43.0


From db16eecbbe743b09b159f11b8a5ad92b9499c269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:31 +0000
Subject: [PATCH 04/38] fix: report metadata without a type instead of
 panicking

---
 metadata/metadata.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index 0e69f71..c7f0df6 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -891,7 +891,14 @@ func checkType[T Roles](data []byte) error {
 	if err := json.Unmarshal(data, &m); err != nil {
 		return err
 	}
-	signedType := m["signed"].(map[string]any)["_type"].(string)
+	signed, ok := m["signed"].(map[string]any)
+	if !ok {
+		return ErrValue{Msg: "metadata has no signed part"}
+	}
+	signedType, ok := signed["_type"].(string)
+	if !ok {
+		return ErrValue{Msg: "metadata has no type"}
+	}
 	switch i.(type) {
 	case *RootType:
 		if ROOT != signedType {
-- 
2.43.0


From 9e85faedfc160c594f82c4e5e9e83d6b3748e31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:32 +0000
Subject: [PATCH 05/38] fix: reject metadata with null entries instead of
 panicking later

---
 metadata/metadata.go | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index c7f0df6..69c3431 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -865,6 +865,10 @@ func fromBytes[T Roles](data []byte) (*Metadata[T], error) {
 	if err := json.Unmarshal(data, meta); err != nil {
 		return nil, err
 	}
+	// Make sure there are no null entries
+	if err := checkNullEntries(meta); err != nil {
+		return nil, err
+	}
 	// Make sure signature key IDs are unique
 	if err := checkUniqueSignatures(*meta); err != nil {
 		return nil, err
@@ -872,6 +876,39 @@ func fromBytes[T Roles](data []byte) (*Metadata[T], error) {
 	return meta, nil
 }
 
+// checkNullEntries verifies that no key, role, meta file or target file of the metadata is null
+func checkNullEntries[T Roles](meta *Metadata[T]) error {
+	switch signed := any(&meta.Signed).(type) {
+	case *RootType:
+		if err := checkNulls("key", signed.Keys); err != nil {
+			return err
+		}
+		return checkNulls("role", signed.Roles)
+	case *SnapshotType:
+		return checkNulls("meta file", signed.Meta)
+	case *TimestampType:
+		return checkNulls("meta file", signed.Meta)
+	case *TargetsType:
+		if err := checkNulls("target file", signed.Targets); err != nil {
+			return err
+		}
+		if signed.Delegations != nil {
+			return checkNulls("key", signed.Delegations.Keys)
+		}
+	}
+	return nil
+}
+
+// checkNulls verifies that none of the entries is null
+func checkNulls[V any](kind string, entries map[string]*V) error {
+	for name, entry := range entries {
+		if entry == nil {
+			return ErrValue{Msg: fmt.Sprintf("%s %s is null", kind, name)}
+		}
+	}
+	return nil
+}
+
 // checkUniqueSignatures verifies if the signature key IDs are unique for that metadata
 func checkUniqueSignatures[T Roles](meta Metadata[T]) error {
 	signatures := []string{}
-- 
2.43.0


From 8d4cf95150e9f3fafa062fc5fa938a1ec3a94da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:34 +0000
Subject: [PATCH 06/38] fix: reject roles with a threshold below one

---
 metadata/metadata.go | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index 69c3431..9525d4f 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -869,6 +869,10 @@ func fromBytes[T Roles](data []byte) (*Metadata[T], error) {
 	if err := checkNullEntries(meta); err != nil {
 		return nil, err
 	}
+	// Make sure every role requires at least one signature
+	if err := checkThresholds(meta); err != nil {
+		return nil, err
+	}
 	// Make sure signature key IDs are unique
 	if err := checkUniqueSignatures(*meta); err != nil {
 		return nil, err
@@ -876,6 +880,37 @@ func fromBytes[T Roles](data []byte) (*Metadata[T], error) {
 	return meta, nil
 }
 
+// checkThresholds verifies that the threshold of every role is at least one
+func checkThresholds[T Roles](meta *Metadata[T]) error {
+	check := func(role string, threshold int) error {
+		if threshold < 1 {
+			return ErrValue{Msg: fmt.Sprintf("threshold of role %s should be at least 1, got %d", role, threshold)}
+		}
+		return nil
+	}
+	switch signed := any(&meta.Signed).(type) {
+	case *RootType:
+		for name, role := range signed.Roles {
+			if err := check(name, role.Threshold); err != nil {
+				return err
+			}
+		}
+	case *TargetsType:
+		if signed.Delegations == nil {
+			return nil
+		}
+		for _, role := range signed.Delegations.Roles {
+			if err := check(role.Name, role.Threshold); err != nil {
+				return err
+			}
+		}
+		if succinct := signed.Delegations.SuccinctRoles; succinct != nil {
+			return check(succinct.NamePrefix, succinct.Threshold)
+		}
+	}
+	return nil
+}
+
 // checkNullEntries verifies that no key, role, meta file or target file of the metadata is null
 func checkNullEntries[T Roles](meta *Metadata[T]) error {
 	switch signed := any(&meta.Signed).(type) {
-- 
2.43.0


From 1abec0a00f6a831e76bf05c666a9c34e5878a43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:36 +0000
Subject: [PATCH 07/38] fix: succinct delegations cover only their own bins

---
 metadata/metadata.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index 9525d4f..50325a4 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -281,6 +281,10 @@ func (meta *Metadata[T]) VerifyDelegate(delegatedRole string, delegatedMetadata
 				return ErrValue{Msg: fmt.Sprintf("no delegation found for %s", delegatedRole)}
 			}
 		} else if i.Signed.Delegations.SuccinctRoles != nil {
+			// the role should be one of the bins
+			if !i.Signed.Delegations.SuccinctRoles.IsDelegatedRole(delegatedRole) {
+				return ErrValue{Msg: fmt.Sprintf("no delegation found for %s", delegatedRole)}
+			}
 			roleKeyIDs = i.Signed.Delegations.SuccinctRoles.KeyIDs
 			roleThreshold = i.Signed.Delegations.SuccinctRoles.Threshold
 		}
-- 
2.43.0


From 87a7e65b206fcfa7ea86fc270e7fda1ec21bae16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:14 +0000
Subject: [PATCH 08/38] fix: reject metadata versions below one

---
 metadata/metadata.go | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index 50325a4..f2dd179 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -873,6 +873,10 @@ func fromBytes[T Roles](data []byte) (*Metadata[T], error) {
 	if err := checkNullEntries(meta); err != nil {
 		return nil, err
 	}
+	// Make sure every version is a positive number
+	if err := checkVersions(meta); err != nil {
+		return nil, err
+	}
 	// Make sure every role requires at least one signature
 	if err := checkThresholds(meta); err != nil {
 		return nil, err
@@ -884,6 +888,41 @@ func fromBytes[T Roles](data []byte) (*Metadata[T], error) {
 	return meta, nil
 }
 
+// checkVersions verifies that the version of the metadata, and of every meta file it lists, is at least one
+func checkVersions[T Roles](meta *Metadata[T]) error {
+	check := func(name string, version int64) error {
+		if version < 1 {
+			return ErrValue{Msg: fmt.Sprintf("version of %s should be at least 1, got %d", name, version)}
+		}
+		return nil
+	}
+	checkMeta := func(files map[string]*MetaFiles) error {
+		for name, file := range files {
+			if err := check(name, file.Version); err != nil {
+				return err
+			}
+		}
+		return nil
+	}
+	switch signed := any(&meta.Signed).(type) {
+	case *RootType:
+		return check(ROOT, signed.Version)
+	case *SnapshotType:
+		if err := check(SNAPSHOT, signed.Version); err != nil {
+			return err
+		}
+		return checkMeta(signed.Meta)
+	case *TimestampType:
+		if err := check(TIMESTAMP, signed.Version); err != nil {
+			return err
+		}
+		return checkMeta(signed.Meta)
+	case *TargetsType:
+		return check(TARGETS, signed.Version)
+	}
+	return nil
+}
+
 // checkThresholds verifies that the threshold of every role is at least one
 func checkThresholds[T Roles](meta *Metadata[T]) error {
 	check := func(role string, threshold int) error {
-- 
2.43.0


From d39dac1a303c12c7bdffca860195bd83bc76ea3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:16 +0000
Subject: [PATCH 09/38] fix: refuse a timestamp without a snapshot and a role
 the snapshot doesn't list, instead of panicking

---
 metadata/trustedmetadata/trustedmetadata.go | 4 ++++
 metadata/updater/updater.go                 | 5 ++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/metadata/trustedmetadata/trustedmetadata.go b/metadata/trustedmetadata/trustedmetadata.go
index 0792493..87eb1c9 100644
--- a/metadata/trustedmetadata/trustedmetadata.go
+++ b/metadata/trustedmetadata/trustedmetadata.go
@@ -116,6 +116,10 @@ func (trusted *TrustedMetadata) UpdateTimestamp(timestampData []byte) (*metadata
 	if err != nil {
 		return nil, err
 	}
+	// make sure the timestamp announces a snapshot
+	if newTimestamp.Signed.Meta[fmt.Sprintf("%s.json", metadata.SNAPSHOT)] == nil {
+		return nil, metadata.ErrRepository{Msg: fmt.Sprintf("timestamp does not contain information for %s", metadata.SNAPSHOT)}
+	}
 	// if an existing trusted timestamp is updated,
 	// check for a rollback attack
 	if trusted.Timestamp != nil {
diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index d38a049..1a9ac0c 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -434,7 +434,10 @@ func (update *Updater) loadTargets(roleName, parentName string) (*metadata.Metad
 		return nil, fmt.Errorf("trusted snapshot not set")
 	}
 	// extract the targets meta from the trusted snapshot metadata
-	metaInfo := update.trusted.Snapshot.Signed.Meta[fmt.Sprintf("%s.json", roleName)]
+	metaInfo, ok := update.trusted.Snapshot.Signed.Meta[fmt.Sprintf("%s.json", roleName)]
+	if !ok {
+		return nil, metadata.ErrRepository{Msg: fmt.Sprintf("snapshot does not contain information for %s", roleName)}
+	}
 	// extract the length of the target metadata to be downloaded
 	length := metaInfo.Length
 	if length == 0 {
-- 
2.43.0


From 5e1ab9aff5ec99164c2abc425be2779cf8c9a38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:46 +0000
Subject: [PATCH 10/38] fix: refuse delegated roles with missing, duplicate or
 top-level names

---
 metadata/metadata.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index f2dd179..f72fb22 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -877,6 +877,10 @@ func fromBytes[T Roles](data []byte) (*Metadata[T], error) {
 	if err := checkVersions(meta); err != nil {
 		return nil, err
 	}
+	// Make sure delegated roles can't be taken for each other or for a top-level role
+	if err := checkDelegatedNames(meta); err != nil {
+		return nil, err
+	}
 	// Make sure every role requires at least one signature
 	if err := checkThresholds(meta); err != nil {
 		return nil, err
@@ -923,6 +927,28 @@ func checkVersions[T Roles](meta *Metadata[T]) error {
 	return nil
 }
 
+// checkDelegatedNames verifies that delegated roles have distinct names none of which is the name of a top-level role
+func checkDelegatedNames[T Roles](meta *Metadata[T]) error {
+	signed, ok := any(&meta.Signed).(*TargetsType)
+	if !ok || signed.Delegations == nil {
+		return nil
+	}
+	names := map[string]bool{}
+	for _, role := range signed.Delegations.Roles {
+		if role.Name == "" {
+			return ErrValue{Msg: "delegated role has no name"}
+		}
+		if slices.Contains(TOP_LEVEL_ROLE_NAMES[:], role.Name) {
+			return ErrValue{Msg: fmt.Sprintf("delegated role can't use the name of top-level role %s", role.Name)}
+		}
+		if names[role.Name] {
+			return ErrValue{Msg: fmt.Sprintf("duplicate delegated role %s", role.Name)}
+		}
+		names[role.Name] = true
+	}
+	return nil
+}
+
 // checkThresholds verifies that the threshold of every role is at least one
 func checkThresholds[T Roles](meta *Metadata[T]) error {
 	check := func(role string, threshold int) error {
-- 
2.43.0


From e90202cfd9e040e9be399ec185832d87e0b113e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:01 +0000
Subject: [PATCH 11/38] fix: search delegations in the order in which they are
 listed

---
 metadata/metadata.go        | 19 +++++++++++++------
 metadata/updater/updater.go |  8 ++++----
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index f72fb22..9f7589a 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -561,16 +561,23 @@ func isTargetInPathPattern(targetpath string, pathpattern string) bool {
 	return true
 }
 
+// RoleResult represents the name and terminating status of a delegated role that is responsible for a target
+type RoleResult struct {
+	Name        string
+	Terminating bool
+}
+
 // GetRolesForTarget return the names and terminating status of all
-// delegated roles who are responsible for targetFilepath
-func (role *Delegations) GetRolesForTarget(targetFilepath string) map[string]bool {
-	res := map[string]bool{}
+// delegated roles who are responsible for targetFilepath, in the order
+// in which they are listed
+func (role *Delegations) GetRolesForTarget(targetFilepath string) []RoleResult {
+	res := []RoleResult{}
 	// standard delegations
 	if role.Roles != nil {
 		for _, r := range role.Roles {
 			ok, err := r.IsDelegatedPath(targetFilepath)
 			if err == nil && ok {
-				res[r.Name] = r.Terminating
+				res = append(res, RoleResult{Name: r.Name, Terminating: r.Terminating})
 			}
 		}
 	} else if role.SuccinctRoles != nil {
@@ -584,7 +591,7 @@ func (role *Delegations) GetRolesForTarget(targetFilepath string) map[string]boo
 // The target at path "targetFilepath" is assigned to a bin by casting
 // the left-most "BitLength" of bits of the file path hash digest to
 // int, using it as bin index between 0 and “2**BitLength - 1“.
-func (role *SuccinctRoles) GetRolesForTarget(targetFilepath string) map[string]bool {
+func (role *SuccinctRoles) GetRolesForTarget(targetFilepath string) []RoleResult {
 	// calculate the suffixLen value based on the total number of bins in
 	// hex. If bit_length = 10 then numberOfBins = 1024 or bin names will
 	// have a suffix between "000" and "3ff" in hex and suffixLen will be 3
@@ -606,7 +613,7 @@ func (role *SuccinctRoles) GetRolesForTarget(targetFilepath string) map[string]b
 	suffix := fmt.Sprintf("%0*x", suffixLen, binNumber)
 	// we consider all succinct_roles as terminating.
 	// for more information read TAP 15.
-	return map[string]bool{fmt.Sprintf("%s-%s", role.NamePrefix, suffix): true}
+	return []RoleResult{{Name: fmt.Sprintf("%s-%s", role.NamePrefix, suffix), Terminating: true}}
 }
 
 // GetRoles returns the names of all different delegated roles
diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index 1a9ac0c..7616828 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -547,10 +547,10 @@ func (update *Updater) preOrderDepthFirstWalk(targetFilePath string) (*metadata.
 			// note that this may be a slow operation if there are many
 			// delegated roles
 			roles := targets.Signed.Delegations.GetRolesForTarget(targetFilePath)
-			for child, terminating := range roles {
-				log.Info("Adding child role", "role", child)
-				childRolesToVisit = append(childRolesToVisit, roleParentTuple{Role: child, Parent: delegation.Role})
-				if terminating {
+			for _, child := range roles {
+				log.Info("Adding child role", "role", child.Name)
+				childRolesToVisit = append(childRolesToVisit, roleParentTuple{Role: child.Name, Parent: delegation.Role})
+				if child.Terminating {
 					log.Info("Not backtracking to other roles")
 					delegationsToVisit = []roleParentTuple{}
 					break
-- 
2.43.0


From e3ef01381c54c84abfde5647907128939365734f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:26 +0000
Subject: [PATCH 12/38] fix: recognise bins of succinct roles by their exact
 names only

---
 metadata/metadata.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index 9f7589a..2293961 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -657,6 +657,11 @@ func (role *SuccinctRoles) IsDelegatedRole(roleName string) bool {
 		return false
 	}
 
+	// the only accepted spelling is the one used in the name of the bin
+	if suffix != fmt.Sprintf("%0*x", suffixLen, value) {
+		return false
+	}
+
 	// check if the bin we calculated is indeed within the range of what we support
 	return (value >= 0) && (value < int64(numberOfBins))
 }
-- 
2.43.0


From 57193f63cf7c9f25df0a6435a6a2548592ad6791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:26 +0000
Subject: [PATCH 13/38] fix: refuse succinct roles with a bit length outside of
 1 to 32

---
 metadata/metadata.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index 2293961..d7e745d 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -897,6 +897,10 @@ func fromBytes[T Roles](data []byte) (*Metadata[T], error) {
 	if err := checkThresholds(meta); err != nil {
 		return nil, err
 	}
+	// Make sure hash bins are numbered by bits of the digests
+	if err := checkBitLength(meta); err != nil {
+		return nil, err
+	}
 	// Make sure signature key IDs are unique
 	if err := checkUniqueSignatures(*meta); err != nil {
 		return nil, err
@@ -992,6 +996,18 @@ func checkThresholds[T Roles](meta *Metadata[T]) error {
 	return nil
 }
 
+// checkBitLength verifies that the bit length of succinct roles is between 1 and 32
+func checkBitLength[T Roles](meta *Metadata[T]) error {
+	signed, ok := any(&meta.Signed).(*TargetsType)
+	if !ok || signed.Delegations == nil || signed.Delegations.SuccinctRoles == nil {
+		return nil
+	}
+	if n := signed.Delegations.SuccinctRoles.BitLength; n < 1 || n > 32 {
+		return ErrValue{Msg: fmt.Sprintf("bit length of succinct roles should be between 1 and 32, got %d", n)}
+	}
+	return nil
+}
+
 // checkNullEntries verifies that no key, role, meta file or target file of the metadata is null
 func checkNullEntries[T Roles](meta *Metadata[T]) error {
 	switch signed := any(&meta.Signed).(type) {
-- 
2.43.0


From f8ab89b8ad52bb2dcb4252d2b37932edbaf33fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:05 +0000
Subject: [PATCH 14/38] fix: errors with a message are recognised as their own
 category

---
 metadata/errors.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/metadata/errors.go b/metadata/errors.go
index 4086720..0b3e313 100644
--- a/metadata/errors.go
+++ b/metadata/errors.go
@@ -32,6 +32,11 @@ func (e ErrRepository) Error() string {
 	return fmt.Sprintf("repository error: %s", e.Msg)
 }
 
+// ErrRepository is recognised whatever its message is
+func (e ErrRepository) Is(target error) bool {
+	return target == ErrRepository{}
+}
+
 // ErrUnsignedMetadata - An error about metadata object with insufficient threshold of signatures
 type ErrUnsignedMetadata struct {
 	Msg string
@@ -113,6 +118,11 @@ func (e ErrDownload) Error() string {
 	return fmt.Sprintf("download error: %s", e.Msg)
 }
 
+// ErrDownload is recognised whatever its message is
+func (e ErrDownload) Is(target error) bool {
+	return target == ErrDownload{}
+}
+
 // ErrDownloadLengthMismatch - Indicate that a mismatch of lengths was seen while downloading a file
 type ErrDownloadLengthMismatch struct {
 	Msg string
@@ -151,6 +161,11 @@ func (e ErrValue) Error() string {
 	return fmt.Sprintf("value error: %s", e.Msg)
 }
 
+// ErrValue is recognised whatever its message is
+func (e ErrValue) Is(target error) bool {
+	return target == ErrValue{}
+}
+
 // TypeError
 type ErrType struct {
 	Msg string
@@ -160,6 +175,11 @@ func (e ErrType) Error() string {
 	return fmt.Sprintf("type error: %s", e.Msg)
 }
 
+// ErrType is recognised whatever its message is
+func (e ErrType) Is(target error) bool {
+	return target == ErrType{}
+}
+
 // RuntimeError
 type ErrRuntime struct {
 	Msg string
@@ -168,3 +188,8 @@ type ErrRuntime struct {
 func (e ErrRuntime) Error() string {
 	return fmt.Sprintf("runtime error: %s", e.Msg)
 }
+
+// ErrRuntime is recognised whatever its message is
+func (e ErrRuntime) Is(target error) bool {
+	return target == ErrRuntime{}
+}
-- 
2.43.0


From e35754bda41b1128758469fbd420be209a6cdaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 15/38] fix: signing again with a key replaces its earlier
 signature

---
 metadata/metadata.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index d7e745d..faf1aa0 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -230,8 +230,14 @@ func (meta *Metadata[T]) Sign(signer signature.Signer) (*Signature, error) {
 		KeyID:     key.ID(),
 		Signature: sb,
 	}
-	// update the Signatures part
-	meta.Signatures = append(meta.Signatures, *sig)
+	// update the Signatures part, an earlier signature of the same key is replaced
+	signatures := []Signature{}
+	for _, s := range meta.Signatures {
+		if s.KeyID != sig.KeyID {
+			signatures = append(signatures, s)
+		}
+	}
+	meta.Signatures = append(signatures, *sig)
 	// return the new signature
 	log.Info("Signed metadata with key", "ID", key.ID())
 	return sig, nil
-- 
2.43.0


From a43ea611e7b232b019df9cb84b60e40c7dd31d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 16/38] fix: adding a key needs an existing role and no
 existing key store

---
 metadata/metadata.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index faf1aa0..ce65f35 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -686,6 +686,9 @@ func (signed *RootType) AddKey(key *Key, role string) error {
 		signed.Roles[role].KeyIDs = append(signed.Roles[role].KeyIDs, key.ID())
 	}
 	// update Keys
+	if signed.Keys == nil {
+		signed.Keys = map[string]*Key{}
+	}
 	signed.Keys[key.ID()] = key // TODO: should we check if we don't accidentally override an existing keyID with another key value?
 	return nil
 }
@@ -731,6 +734,9 @@ func (signed *TargetsType) AddKey(key *Key, role string) error {
 	if signed.Delegations == nil {
 		return ErrValue{Msg: fmt.Sprintf("delegated role %s doesn't exist", role)}
 	}
+	if signed.Delegations.Keys == nil {
+		signed.Delegations.Keys = map[string]*Key{}
+	}
 	// standard delegated roles
 	if signed.Delegations.Roles != nil {
 		// loop through all delegated roles
@@ -760,6 +766,8 @@ func (signed *TargetsType) AddKey(key *Key, role string) error {
 		}
 		log.Info("SuccinctRoles role already has keyID", "ID", key.ID())
 
+	} else {
+		return ErrValue{Msg: fmt.Sprintf("delegated role %s doesn't exist", role)}
 	}
 	signed.Delegations.Keys[key.ID()] = key // TODO: should we check if we don't accidentally override an existing keyID with another key value?
 	return nil
-- 
2.43.0


From eb36bc985d5318420b79c3eb5c61ce61c6e90330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:39 +0000
Subject: [PATCH 17/38] fix: the largest permitted length doesn't truncate
 downloads

---
 metadata/fetcher/fetcher.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/metadata/fetcher/fetcher.go b/metadata/fetcher/fetcher.go
index 635aa6c..15a2812 100644
--- a/metadata/fetcher/fetcher.go
+++ b/metadata/fetcher/fetcher.go
@@ -14,6 +14,7 @@ package fetcher
 import (
 	"fmt"
 	"io"
+	"math"
 	"net/http"
 	"strconv"
 	"time"
@@ -69,7 +70,11 @@ func (d *DefaultFetcher) DownloadFile(urlPath string, maxLength int64, timeout t
 	// the reported size is inaccurate, or size is -1 which indicates an
 	// unknown length. We read maxLength + 1 in order to check if the read data
 	// surpased our set limit.
-	data, err := io.ReadAll(io.LimitReader(res.Body, maxLength+1))
+	limit := maxLength
+	if limit < math.MaxInt64 {
+		limit++
+	}
+	data, err := io.ReadAll(io.LimitReader(res.Body, limit))
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From b169bd7c9e405816f78ddcd15eb92baefa924798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:34 +0000
Subject: [PATCH 18/38] fix: put the hash prefix of a target directly before
 its file name

---
 metadata/updater/updater.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index 7616828..9aaf145 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -225,14 +225,9 @@ func (update *Updater) DownloadTarget(targetFile *metadata.TargetFiles, filePath
 			hashes = hex.EncodeToString(v)
 			break
 		}
-		dirName, baseName, ok := strings.Cut(targetFilePath, "/")
-		if !ok {
-			// <hash>.<target-name>
-			targetFilePath = fmt.Sprintf("%s.%s", hashes, dirName)
-		} else {
-			// <dir-prefix>/<hash>.<target-name>
-			targetFilePath = fmt.Sprintf("%s/%s.%s", dirName, hashes, baseName)
-		}
+		// <hash>.<target-name> or <dir-prefix>/<hash>.<target-name>
+		nameStart := strings.LastIndex(targetFilePath, "/") + 1
+		targetFilePath = fmt.Sprintf("%s%s.%s", targetFilePath[:nameStart], hashes, targetFilePath[nameStart:])
 	}
 	fullURL := fmt.Sprintf("%s%s", targetBaseURL, targetFilePath)
 	data, err := update.cfg.Fetcher.DownloadFile(fullURL, targetFile.Length, time.Second*15)
-- 
2.43.0


From f7d9e79e2e1efd7c3ec5f5985bff887bae5bf6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:38 +0000
Subject: [PATCH 19/38] fix: escape role names in metadata URLs as path
 segments

---
 metadata/updater/updater.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index 9aaf145..f036d12 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -608,9 +608,9 @@ func (update *Updater) downloadMetadata(roleName string, length int64, version s
 	urlPath := ensureTrailingSlash(update.cfg.RemoteMetadataURL)
 	// build urlPath
 	if version == "" {
-		urlPath = fmt.Sprintf("%s%s.json", urlPath, url.QueryEscape(roleName))
+		urlPath = fmt.Sprintf("%s%s.json", urlPath, url.PathEscape(roleName))
 	} else {
-		urlPath = fmt.Sprintf("%s%s.%s.json", urlPath, version, url.QueryEscape(roleName))
+		urlPath = fmt.Sprintf("%s%s.%s.json", urlPath, version, url.PathEscape(roleName))
 	}
 	return update.cfg.Fetcher.DownloadFile(urlPath, length, time.Second*15)
 }
-- 
2.43.0


From d1269284419d0d43b64ee474a7dd892fb51fff13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 20/38] fix: write metadata to a temporary file in its own
 folder and clean up after failures

---
 metadata/updater/updater.go | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index f036d12..39d46d3 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -576,30 +576,28 @@ func (update *Updater) persistMetadata(roleName string, data []byte) error {
 	}
 	// caching enabled, proceed with persisting the metadata locally
 	fileName := filepath.Join(update.cfg.LocalMetadataDir, fmt.Sprintf("%s.json", url.QueryEscape(roleName)))
-	cwd, err := os.Getwd()
-	if err != nil {
-		return err
-	}
-	// create a temporary file
-	file, err := os.CreateTemp(cwd, "tuf_tmp")
+	// create a temporary file in the same folder, so that renaming it is atomic
+	file, err := os.CreateTemp(update.cfg.LocalMetadataDir, "tuf_tmp")
 	if err != nil {
 		return err
 	}
 	// write the data content to the temporary file
-	err = os.WriteFile(file.Name(), data, 0644)
+	_, err = file.Write(data)
+	if errClose := file.Close(); err == nil {
+		err = errClose
+	}
+	if err == nil {
+		// if all okay, rename the temporary file to the desired one
+		err = os.Rename(file.Name(), fileName)
+	}
 	if err != nil {
-		// delete the temporary file if there was an error while writing
+		// delete the temporary file if there was an error while writing or renaming
 		errRemove := os.Remove(file.Name())
 		if errRemove != nil {
 			log.Info("Failed to delete temporary file", "name", file.Name())
 		}
 		return err
 	}
-	// if all okay, rename the temporary file to the desired one
-	err = os.Rename(file.Name(), fileName)
-	if err != nil {
-		return err
-	}
 	return nil
 }
 
-- 
2.43.0


From d4fa0171c9987fb8b351f032d1df2f1039bded11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:37 +0000
Subject: [PATCH 21/38] fix: read cached metadata under the name it was stored
 as

---
 metadata/updater/updater.go | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index 39d46d3..036b480 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -143,8 +143,7 @@ func (update *Updater) onlineRefresh() error {
 func (update *Updater) unsafeLocalRefresh() error {
 	// Root is already loaded
 	// load timestamp
-	var p = filepath.Join(update.cfg.LocalMetadataDir, metadata.TIMESTAMP)
-	data, err := update.loadLocalMetadata(p)
+	data, err := update.loadLocalMetadata(metadata.TIMESTAMP)
 	if err != nil {
 		return err
 	}
@@ -154,8 +153,7 @@ func (update *Updater) unsafeLocalRefresh() error {
 	}
 
 	// load snapshot
-	p = filepath.Join(update.cfg.LocalMetadataDir, metadata.SNAPSHOT)
-	data, err = update.loadLocalMetadata(p)
+	data, err = update.loadLocalMetadata(metadata.SNAPSHOT)
 	if err != nil {
 		return err
 	}
@@ -165,8 +163,7 @@ func (update *Updater) unsafeLocalRefresh() error {
 	}
 
 	// targets
-	p = filepath.Join(update.cfg.LocalMetadataDir, metadata.TARGETS)
-	data, err = update.loadLocalMetadata(p)
+	data, err = update.loadLocalMetadata(metadata.TARGETS)
 	if err != nil {
 		return err
 	}
@@ -287,7 +284,7 @@ func (update *Updater) FindCachedTarget(targetFile *metadata.TargetFiles, filePa
 func (update *Updater) loadTimestamp() error {
 	log := metadata.GetLogger()
 	// try to read local timestamp
-	data, err := update.loadLocalMetadata(filepath.Join(update.cfg.LocalMetadataDir, metadata.TIMESTAMP))
+	data, err := update.loadLocalMetadata(metadata.TIMESTAMP)
 	if err != nil {
 		// this means there's no existing local timestamp so we should proceed downloading it without the need to UpdateTimestamp
 		log.Info("Local timestamp does not exist")
@@ -335,7 +332,7 @@ func (update *Updater) loadTimestamp() error {
 func (update *Updater) loadSnapshot() error {
 	log := metadata.GetLogger()
 	// try to read local snapshot
-	data, err := update.loadLocalMetadata(filepath.Join(update.cfg.LocalMetadataDir, metadata.SNAPSHOT))
+	data, err := update.loadLocalMetadata(metadata.SNAPSHOT)
 	if err != nil {
 		// this means there's no existing local snapshot so we should proceed downloading it without the need to UpdateSnapshot
 		log.Info("Local snapshot does not exist")
@@ -401,7 +398,7 @@ func (update *Updater) loadTargets(roleName, parentName string) (*metadata.Metad
 		return role, nil
 	}
 	// try to read local targets
-	data, err := update.loadLocalMetadata(filepath.Join(update.cfg.LocalMetadataDir, roleName))
+	data, err := update.loadLocalMetadata(roleName)
 	if err != nil {
 		// this means there's no existing local target file so we should proceed downloading it without the need to UpdateDelegatedTargets
 		log.Info("Local role does not exist", "role", roleName)
@@ -575,7 +572,7 @@ func (update *Updater) persistMetadata(roleName string, data []byte) error {
 		return nil
 	}
 	// caching enabled, proceed with persisting the metadata locally
-	fileName := filepath.Join(update.cfg.LocalMetadataDir, fmt.Sprintf("%s.json", url.QueryEscape(roleName)))
+	fileName := update.localMetadataPath(roleName)
 	// create a temporary file in the same folder, so that renaming it is atomic
 	file, err := os.CreateTemp(update.cfg.LocalMetadataDir, "tuf_tmp")
 	if err != nil {
@@ -623,9 +620,15 @@ func (update *Updater) generateTargetFilePath(tf *metadata.TargetFiles) (string,
 	return url.JoinPath(update.cfg.LocalTargetsDir, url.QueryEscape(tf.Path))
 }
 
-// loadLocalMetadata reads a local <roleName>.json file and returns its bytes
+// localMetadataPath returns the path of the local file for roleName,
+// with the name escaped so that it is always directly in LocalMetadataDir
+func (update *Updater) localMetadataPath(roleName string) string {
+	return filepath.Join(update.cfg.LocalMetadataDir, fmt.Sprintf("%s.json", url.QueryEscape(roleName)))
+}
+
+// loadLocalMetadata reads the local file for roleName and returns its bytes
 func (update *Updater) loadLocalMetadata(roleName string) ([]byte, error) {
-	return readFile(fmt.Sprintf("%s.json", roleName))
+	return readFile(update.localMetadataPath(roleName))
 }
 
 // GetTopLevelTargets returns the top-level target files
-- 
2.43.0


From ffd67591825135c50b6803f5ca87a1ad58db8f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:40 +0000
Subject: [PATCH 22/38] fix: build the path of a local target file as a path
 and not as a URL

---
 metadata/updater/updater.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index 036b480..7ba7739 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -617,7 +617,12 @@ func (update *Updater) generateTargetFilePath(tf *metadata.TargetFiles) (string,
 		return "", metadata.ErrValue{Msg: "LocalTargetsDir must be set if filepath is not given"}
 	}
 	// Use URL encoded target path as filename
-	return url.JoinPath(update.cfg.LocalTargetsDir, url.QueryEscape(tf.Path))
+	fileName := url.QueryEscape(tf.Path)
+	if fileName == "." || fileName == ".." {
+		// these aren't changed by the encoding but don't name a file
+		fileName = strings.ReplaceAll(fileName, ".", "%2E")
+	}
+	return filepath.Join(update.cfg.LocalTargetsDir, fileName), nil
 }
 
 // localMetadataPath returns the path of the local file for roleName,
-- 
2.43.0


From 7e066caa07e2fd15eed6ed0443d85c50e0c2b59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:08 +0000
Subject: [PATCH 23/38] fix: let multi-repository clients start without a
 common targets folder

---
 metadata/multirepo/multirepo.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/metadata/multirepo/multirepo.go b/metadata/multirepo/multirepo.go
index 019bfad..cbc9e8b 100644
--- a/metadata/multirepo/multirepo.go
+++ b/metadata/multirepo/multirepo.go
@@ -334,7 +334,12 @@ func (cfg *MultiRepoConfig) EnsurePathsExist() error {
 	if cfg.DisableLocalCache {
 		return nil
 	}
-	for _, path := range []string{cfg.LocalMetadataDir, cfg.LocalTargetsDir} {
+	paths := []string{cfg.LocalMetadataDir}
+	if cfg.LocalTargetsDir != "" {
+		// the targets folder is optional, by default there's one for each repository
+		paths = append(paths, cfg.LocalTargetsDir)
+	}
+	for _, path := range paths {
 		err := os.MkdirAll(path, os.ModePerm)
 		if err != nil {
 			return err
-- 
2.43.0


From fab9cd03bfe0f869b766c7cd27eeb6d0a481e846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:09 +0000
Subject: [PATCH 24/38] fix: refuse repository names that lead out of the local
 folders

---
 metadata/multirepo/multirepo.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metadata/multirepo/multirepo.go b/metadata/multirepo/multirepo.go
index cbc9e8b..7df8e8c 100644
--- a/metadata/multirepo/multirepo.go
+++ b/metadata/multirepo/multirepo.go
@@ -16,6 +16,7 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
+	"strings"
 
 	"github.com/rdimitrov/go-tuf-metadata/metadata"
 	"github.com/rdimitrov/go-tuf-metadata/metadata/config"
@@ -115,6 +116,11 @@ func (client *MultiRepoClient) initTUFClients() error {
 			return fmt.Errorf("failed to get trusted root metadata from config for repository - %s", repoName)
 		}
 
+		// the repository's name is used as the name of its folder
+		if repoName == "" || repoName == "." || repoName == ".." || strings.ContainsAny(repoName, "/\\") {
+			return fmt.Errorf("repository name can't be used as the name of a folder - %q", repoName)
+		}
+
 		// path of where each of the repository's metadata files will be persisted
 		metadataDir := filepath.Join(client.Config.LocalMetadataDir, repoName)
 
-- 
2.43.0


From 91ffbdf76537ff07f7f7c4f1ff01bde17eb90c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:29 +0000
Subject: [PATCH 25/38] fix: fetch metadata from the repository when the cached
 file is damaged

---
 metadata/updater/updater.go | 32 ++++++++------------------------
 1 file changed, 8 insertions(+), 24 deletions(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index 7ba7739..833dac0 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -292,15 +292,11 @@ func (update *Updater) loadTimestamp() error {
 		// local timestamp exists, let's try to verify it and load it to the trusted metadata set
 		_, err := update.trusted.UpdateTimestamp(data)
 		if err != nil {
-			if errors.Is(err, metadata.ErrRepository{}) {
-				// local timestamp is not valid, proceed downloading from remote; note that this error type includes several other subset errors
-				log.Info("Local timestamp is not valid")
-			} else {
-				// another error
-				return err
-			}
+			// local timestamp is not valid (or it is damaged), proceed downloading from remote
+			log.Info("Local timestamp is not valid")
+		} else {
+			log.Info("Local timestamp is valid")
 		}
-		log.Info("Local timestamp is valid")
 		// all okay, local timestamp exists and it is valid, nevertheless proceed with downloading from remote
 	}
 	// load from remote (whether local load succeeded or not)
@@ -340,14 +336,8 @@ func (update *Updater) loadSnapshot() error {
 		// successfully read a local snapshot metadata, so let's try to verify and load it to the trusted metadata set
 		_, err = update.trusted.UpdateSnapshot(data, true)
 		if err != nil {
-			// this means snapshot verification/loading failed
-			if errors.Is(err, metadata.ErrRepository{}) {
-				// local snapshot is not valid, proceed downloading from remote; note that this error type includes several other subset errors
-				log.Info("Local snapshot is not valid")
-			} else {
-				// another error
-				return err
-			}
+			// this means snapshot verification/loading failed (or it is damaged), proceed downloading from remote
+			log.Info("Local snapshot is not valid")
 		} else {
 			// this means snapshot verification/loading succeeded
 			log.Info("Local snapshot is valid: not downloading new one")
@@ -406,14 +396,8 @@ func (update *Updater) loadTargets(roleName, parentName string) (*metadata.Metad
 		// successfully read a local targets metadata, so let's try to verify and load it to the trusted metadata set
 		delegatedTargets, err := update.trusted.UpdateDelegatedTargets(data, roleName, parentName)
 		if err != nil {
-			// this means targets verification/loading failed
-			if errors.Is(err, metadata.ErrRepository{}) {
-				// local target file is not valid, proceed downloading from remote; note that this error type includes several other subset errors
-				log.Info("Local role is not valid", "role", roleName)
-			} else {
-				// another error
-				return nil, err
-			}
+			// this means targets verification/loading failed (or it is damaged), proceed downloading from remote
+			log.Info("Local role is not valid", "role", roleName)
 		} else {
 			// this means targets verification/loading succeeded
 			log.Info("Local role is valid: not downloading new one", "role", roleName)
-- 
2.43.0


From e2b8f11b285f5123f804dfc839f3294199980af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:03 +0000
Subject: [PATCH 26/38] fix: local-only mode doesn't fetch delegated roles from
 the network

---
 metadata/updater/updater.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index 833dac0..c185951 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -394,7 +394,8 @@ func (update *Updater) loadTargets(roleName, parentName string) (*metadata.Metad
 		log.Info("Local role does not exist", "role", roleName)
 	} else {
 		// successfully read a local targets metadata, so let's try to verify and load it to the trusted metadata set
-		delegatedTargets, err := update.trusted.UpdateDelegatedTargets(data, roleName, parentName)
+		var delegatedTargets *metadata.Metadata[metadata.TargetsType]
+		delegatedTargets, err = update.trusted.UpdateDelegatedTargets(data, roleName, parentName)
 		if err != nil {
 			// this means targets verification/loading failed (or it is damaged), proceed downloading from remote
 			log.Info("Local role is not valid", "role", roleName)
@@ -404,6 +405,10 @@ func (update *Updater) loadTargets(roleName, parentName string) (*metadata.Metad
 			return delegatedTargets, nil
 		}
 	}
+	if update.cfg.UnsafeLocalMode {
+		// no network interaction is allowed, so the local file is all there is
+		return nil, fmt.Errorf("failed to load local role %s: %w", roleName, err)
+	}
 	// local "roleName" does not exist or is invalid, update from remote
 	log.Info("Failed to load local role", "role", roleName)
 	if update.trusted.Snapshot == nil {
-- 
2.43.0


From 1605b00ccc228360e60c1d0a86120e99c649fbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:03 +0000
Subject: [PATCH 27/38] fix: return the target info that reached the threshold
 and not the last one compared

---
 metadata/multirepo/multirepo.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metadata/multirepo/multirepo.go b/metadata/multirepo/multirepo.go
index 7df8e8c..18a7e5e 100644
--- a/metadata/multirepo/multirepo.go
+++ b/metadata/multirepo/multirepo.go
@@ -267,7 +267,7 @@ func (client *MultiRepoClient) GetTargetInfo(targetPath string) (*metadata.Targe
 					// we went through all repositories listed in that mapping
 					// lets see if we have matched the threshold consensus for the given target file
 					var result *targetMatch
-					for _, target := range matchedTargetGroups {
+					for i, target := range matchedTargetGroups {
 						// compare thresholds for each target info we found with the value stated for its mapping
 						if len(target.repositories) >= eachMap.Threshold {
 							// this target has enough repositories signed for it
@@ -278,7 +278,7 @@ func (client *MultiRepoClient) GetTargetInfo(targetPath string) (*metadata.Targe
 								return nil, nil, fmt.Errorf("more than one target info matching the necessary threshold value")
 							} else {
 								// this is the first target we found matching the necessary threshold so save it
-								result = &target
+								result = &matchedTargetGroups[i]
 							}
 						}
 					}
-- 
2.43.0


From 57fbd8afb99b9cc1433433945c3c5e296683de64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:03 +0000
Subject: [PATCH 28/38] fix: refuse map files with unknown repositories,
 repositories without a location or empty mappings

---
 metadata/multirepo/multirepo.go | 36 +++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/metadata/multirepo/multirepo.go b/metadata/multirepo/multirepo.go
index 18a7e5e..33ca928 100644
--- a/metadata/multirepo/multirepo.go
+++ b/metadata/multirepo/multirepo.go
@@ -70,6 +70,14 @@ func NewConfig(repoMap []byte, roots map[string][]byte) (*MultiRepoConfig, error
 		return nil, err
 	}
 
+	// make sure there's a map and that its mappings use its repositories only
+	if mapFile == nil {
+		return nil, fmt.Errorf("map file is empty")
+	}
+	if err := mapFile.validate(); err != nil {
+		return nil, err
+	}
+
 	// make sure we have enough trusted root metadata files provided based on the repository list
 	for repo := range mapFile.Repositories {
 		// check if we have a trusted root metadata for this repository
@@ -85,8 +93,36 @@ func NewConfig(repoMap []byte, roots map[string][]byte) (*MultiRepoConfig, error
 	}, nil
 }
 
+// validate makes sure that each repository has a location and that mappings list known repositories only
+func (mapFile *MultiRepoMapType) validate() error {
+	for repo, urls := range mapFile.Repositories {
+		if len(urls) == 0 {
+			return fmt.Errorf("no location provided for repository - %s", repo)
+		}
+	}
+	for _, eachMap := range mapFile.Mapping {
+		if eachMap == nil {
+			return fmt.Errorf("map file contains an empty mapping")
+		}
+		for _, repo := range eachMap.Repositories {
+			if _, ok := mapFile.Repositories[repo]; !ok {
+				return fmt.Errorf("map file contains a mapping to an unknown repository - %s", repo)
+			}
+		}
+	}
+	return nil
+}
+
 // New returns a multi-repository TUF client. All repositories described in the provided map file are initialized too
 func New(config *MultiRepoConfig) (*MultiRepoClient, error) {
+	// make sure the map file can be used
+	if config.RepoMap == nil {
+		return nil, fmt.Errorf("no map file provided")
+	}
+	if err := config.RepoMap.validate(); err != nil {
+		return nil, err
+	}
+
 	// create a multi repo client instance
 	client := &MultiRepoClient{
 		Config:     config,
-- 
2.43.0


From e91295b71eeba7b849437f309a27651ed4d683e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:25 +0000
Subject: [PATCH 29/38] fix: adding a key to a role doesn't change other roles
 built from the same list

---
 metadata/metadata.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index ce65f35..2c40ecc 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -672,6 +672,12 @@ func (role *SuccinctRoles) IsDelegatedRole(roleName string) bool {
 	return (value >= 0) && (value < int64(numberOfBins))
 }
 
+// withKeyID returns a new list with keyID added, so that roles that were built from
+// the same list stay separate
+func withKeyID(keyIDs []string, keyID string) []string {
+	return append(append([]string{}, keyIDs...), keyID)
+}
+
 // AddKey adds new signing key for delegated role "role"
 // keyID: Identifier of the key to be added for “role“.
 // key: Signing key to be added for “role“.
@@ -683,7 +689,7 @@ func (signed *RootType) AddKey(key *Key, role string) error {
 	}
 	// add keyID to role
 	if !slices.Contains(signed.Roles[role].KeyIDs, key.ID()) {
-		signed.Roles[role].KeyIDs = append(signed.Roles[role].KeyIDs, key.ID())
+		signed.Roles[role].KeyIDs = withKeyID(signed.Roles[role].KeyIDs, key.ID())
 	}
 	// update Keys
 	if signed.Keys == nil {
@@ -747,7 +753,7 @@ func (signed *TargetsType) AddKey(key *Key, role string) error {
 				isDelegatedRole = true
 				// add key if keyID is not already part of keyIDs for that role
 				if !slices.Contains(d.KeyIDs, key.ID()) {
-					signed.Delegations.Roles[i].KeyIDs = append(signed.Delegations.Roles[i].KeyIDs, key.ID())
+					signed.Delegations.Roles[i].KeyIDs = withKeyID(signed.Delegations.Roles[i].KeyIDs, key.ID())
 					signed.Delegations.Keys[key.ID()] = key // TODO: should we check if we don't accidentally override an existing keyID with another key value?
 					return nil
 				}
@@ -760,7 +766,7 @@ func (signed *TargetsType) AddKey(key *Key, role string) error {
 	} else if signed.Delegations.SuccinctRoles != nil {
 		// add key if keyID is not already part of keyIDs for the SuccinctRoles role
 		if !slices.Contains(signed.Delegations.SuccinctRoles.KeyIDs, key.ID()) {
-			signed.Delegations.SuccinctRoles.KeyIDs = append(signed.Delegations.SuccinctRoles.KeyIDs, key.ID())
+			signed.Delegations.SuccinctRoles.KeyIDs = withKeyID(signed.Delegations.SuccinctRoles.KeyIDs, key.ID())
 			signed.Delegations.Keys[key.ID()] = key // TODO: should we check if we don't accidentally override an existing keyID with another key value?
 			return nil
 		}
-- 
2.43.0


From 7b0d0e788122b3707e20109b68e7a351738a1dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:57 +0000
Subject: [PATCH 30/38] fix: report a target file that is null instead of
 panicking

---
 metadata/marshal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metadata/marshal.go b/metadata/marshal.go
index 7d262c7..3d9839b 100644
--- a/metadata/marshal.go
+++ b/metadata/marshal.go
@@ -15,6 +15,7 @@ import (
 	"encoding/hex"
 	"encoding/json"
 	"errors"
+	"fmt"
 )
 
 // The following marshal/unmarshal methods override the default behavior for for each TUF type
@@ -152,6 +153,9 @@ func (signed *TargetsType) UnmarshalJSON(data []byte) error {
 
 	// populate the path field for each target
 	for name, targetFile := range signed.Targets {
+		if targetFile == nil {
+			return ErrValue{Msg: fmt.Sprintf("target file %s is null", name)}
+		}
 		targetFile.Path = name
 	}
 
-- 
2.43.0


From 41b20a0c24bbfa42e050366699da99beb739fd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:58 +0000
Subject: [PATCH 31/38] fix: there are no top-level targets before a successful
 refresh

---
 metadata/updater/updater.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index c185951..2829cbe 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -627,7 +627,12 @@ func (update *Updater) loadLocalMetadata(roleName string) ([]byte, error) {
 
 // GetTopLevelTargets returns the top-level target files
 func (update *Updater) GetTopLevelTargets() map[string]*metadata.TargetFiles {
-	return update.trusted.Targets[metadata.TARGETS].Signed.Targets
+	targets := update.trusted.Targets[metadata.TARGETS]
+	if targets == nil {
+		// there's nothing to return before a successful refresh
+		return nil
+	}
+	return targets.Signed.Targets
 }
 
 // GetTrustedMetadataSet returns the trusted metadata set
-- 
2.43.0


From ccbccec2271475c3fed5b1ae21d9b87a0634df5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:26 +0000
Subject: [PATCH 32/38] fix: don't drop the hash bins of delegations that have
 roles, too, when serialising

---
 metadata/marshal.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metadata/marshal.go b/metadata/marshal.go
index 3d9839b..f44902c 100644
--- a/metadata/marshal.go
+++ b/metadata/marshal.go
@@ -428,7 +428,10 @@ func (d Delegations) MarshalJSON() ([]byte, error) {
 	if len(d.UnrecognizedFields) != 0 {
 		copyMapValues(d.UnrecognizedFields, dict)
 	}
-	// only one is allowed
+	// make sure we have only one of the two (per spec)
+	if d.Roles != nil && d.SuccinctRoles != nil {
+		return nil, ErrValue{Msg: "failed to marshal: not allowed to have both \"roles\" and \"succinct_roles\" present"}
+	}
 	dict["keys"] = d.Keys
 	if d.Roles != nil {
 		dict["roles"] = d.Roles
-- 
2.43.0


From 1b480388b43f853cad5564c4e5c8df980ad53e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:10 +0000
Subject: [PATCH 33/38] fix: the client tool keeps the given root where its
 other commands look for it

---
 examples/cli/tuf-client/cmd/init.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/cli/tuf-client/cmd/init.go b/examples/cli/tuf-client/cmd/init.go
index 96e975a..55083cf 100644
--- a/examples/cli/tuf-client/cmd/init.go
+++ b/examples/cli/tuf-client/cmd/init.go
@@ -88,7 +88,7 @@ func InitializeCmd() error {
 
 	// Save the trusted root.json file to the metadata folder so it is available for future operations (if we haven't downloaded it)
 	if copyTrusted {
-		err = os.WriteFile(filepath.Join(localMetadataDir, rootPath), rootBytes, 0644)
+		err = os.WriteFile(filepath.Join(localMetadataDir, fmt.Sprintf("%s.json", metadata.ROOT)), rootBytes, 0644)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 77e65162f75965c686b0578a34a1df87a7f173cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:10 +0000
Subject: [PATCH 34/38] fix: the client tool reports folders it couldn't delete

---
 examples/cli/tuf-client/cmd/reset.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/examples/cli/tuf-client/cmd/reset.go b/examples/cli/tuf-client/cmd/reset.go
index 7bb5e48..182a20e 100644
--- a/examples/cli/tuf-client/cmd/reset.go
+++ b/examples/cli/tuf-client/cmd/reset.go
@@ -51,7 +51,9 @@ func ResetCmd() error {
 	// warning: deletes the metadata folder and all of its contents
 	fmt.Printf("Warning: Are you sure you want to delete the \"%s\" folder and all of its contents? (y/n)\n", metadataPath)
 	if ForceDelete || askForConfirmation() {
-		os.RemoveAll(metadataPath)
+		if err = os.RemoveAll(metadataPath); err != nil {
+			return fmt.Errorf("failed to delete folder %s: %w", metadataPath, err)
+		}
 		fmt.Printf("Folder %s was successfully deleted\n", metadataPath)
 	} else {
 		fmt.Printf("Folder \"%s\" was not deleted\n", metadataPath)
@@ -60,7 +62,9 @@ func ResetCmd() error {
 	// warning: deletes the download folder and all of its contents
 	fmt.Printf("Warning: Are you sure you want to delete the \"%s\" folder and all of its contents? (y/n)\n", downloadPath)
 	if ForceDelete || askForConfirmation() {
-		os.RemoveAll(downloadPath)
+		if err = os.RemoveAll(downloadPath); err != nil {
+			return fmt.Errorf("failed to delete folder %s: %w", downloadPath, err)
+		}
 		fmt.Printf("Folder %s was successfully deleted\n", downloadPath)
 	} else {
 		fmt.Printf("Folder \"%s\" was not deleted\n", downloadPath)
-- 
2.43.0


From 4fe451d2eeda94261eb2b873a4f8ff984ce67288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:04 +0000
Subject: [PATCH 35/38] fix: a role loaded for one parent is verified for other
 parents, too

---
 metadata/updater/updater.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index 2829cbe..c4a7b91 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -385,6 +385,14 @@ func (update *Updater) loadTargets(roleName, parentName string) (*metadata.Metad
 	// avoid loading "roleName" more than once during "GetTargetInfo"
 	role, ok := update.trusted.Targets[roleName]
 	if ok {
+		// the role may have been loaded on behalf of another parent, so make sure that this one trusts it, too
+		parent, ok := update.trusted.Targets[parentName]
+		if ok {
+			err := parent.VerifyDelegate(roleName, role)
+			if err != nil {
+				return nil, err
+			}
+		}
 		return role, nil
 	}
 	// try to read local targets
-- 
2.43.0


From ce970afc71b138a309a8265d8d302e812baa0d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:45 +0000
Subject: [PATCH 36/38] fix: a key identifier without a key doesn't prevent the
 other keys from reaching the threshold

---
 metadata/metadata.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index 2c40ecc..a41afa8 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -305,7 +305,10 @@ func (meta *Metadata[T]) VerifyDelegate(delegatedRole string, delegatedMetadata
 	for _, keyID := range roleKeyIDs {
 		key, ok := keys[keyID]
 		if !ok {
-			return ErrValue{Msg: fmt.Sprintf("key with ID %s not found in %s keyids", keyID, delegatedRole)}
+			// a key that isn't there can't contribute to the threshold, but it shouldn't
+			// prevent the rest of the keys from reaching it
+			log.Info("Key not found", "role", delegatedRole, "ID", keyID)
+			continue
 		}
 		sign := Signature{}
 		var payload []byte
-- 
2.43.0


From ed60b26b3cafc2e6f18b2e086a1d9bb5a1ad937b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:37 +0000
Subject: [PATCH 37/38] Revert "fix: the client tool reports folders it
 couldn't delete"

This reverts commit 77e65162f75965c686b0578a34a1df87a7f173cc.
---
 examples/cli/tuf-client/cmd/reset.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/examples/cli/tuf-client/cmd/reset.go b/examples/cli/tuf-client/cmd/reset.go
index 182a20e..7bb5e48 100644
--- a/examples/cli/tuf-client/cmd/reset.go
+++ b/examples/cli/tuf-client/cmd/reset.go
@@ -51,9 +51,7 @@ func ResetCmd() error {
 	// warning: deletes the metadata folder and all of its contents
 	fmt.Printf("Warning: Are you sure you want to delete the \"%s\" folder and all of its contents? (y/n)\n", metadataPath)
 	if ForceDelete || askForConfirmation() {
-		if err = os.RemoveAll(metadataPath); err != nil {
-			return fmt.Errorf("failed to delete folder %s: %w", metadataPath, err)
-		}
+		os.RemoveAll(metadataPath)
 		fmt.Printf("Folder %s was successfully deleted\n", metadataPath)
 	} else {
 		fmt.Printf("Folder \"%s\" was not deleted\n", metadataPath)
@@ -62,9 +60,7 @@ func ResetCmd() error {
 	// warning: deletes the download folder and all of its contents
 	fmt.Printf("Warning: Are you sure you want to delete the \"%s\" folder and all of its contents? (y/n)\n", downloadPath)
 	if ForceDelete || askForConfirmation() {
-		if err = os.RemoveAll(downloadPath); err != nil {
-			return fmt.Errorf("failed to delete folder %s: %w", downloadPath, err)
-		}
+		os.RemoveAll(downloadPath)
 		fmt.Printf("Folder %s was successfully deleted\n", downloadPath)
 	} else {
 		fmt.Printf("Folder \"%s\" was not deleted\n", downloadPath)
-- 
2.43.0


From cc5272888f0f4269f46a544ac16faba510e0a02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:37 +0000
Subject: [PATCH 38/38] Revert "fix: the client tool keeps the given root where
 its other commands look for it"

This reverts commit 1b480388b43f853cad5564c4e5c8df980ad53e23.
---
 examples/cli/tuf-client/cmd/init.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/cli/tuf-client/cmd/init.go b/examples/cli/tuf-client/cmd/init.go
index 55083cf..96e975a 100644
--- a/examples/cli/tuf-client/cmd/init.go
+++ b/examples/cli/tuf-client/cmd/init.go
@@ -88,7 +88,7 @@ func InitializeCmd() error {
 
 	// Save the trusted root.json file to the metadata folder so it is available for future operations (if we haven't downloaded it)
 	if copyTrusted {
-		err = os.WriteFile(filepath.Join(localMetadataDir, fmt.Sprintf("%s.json", metadata.ROOT)), rootBytes, 0644)
+		err = os.WriteFile(filepath.Join(localMetadataDir, rootPath), rootBytes, 0644)
 		if err != nil {
 			return err
 		}
-- 
2.43.0

