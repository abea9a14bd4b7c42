#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and bounds.json from one table."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
M, T, U, F, R, G, K, S = ("metadata/metadata.go", "metadata/trustedmetadata/trustedmetadata.go", "metadata/updater/updater.go",
    "metadata/fetcher/fetcher.go", "metadata/multirepo/multirepo.go", "metadata/config/config.go", "metadata/keys.go", "metadata/marshal.go")
D, E = "metadata/types.go", "metadata/errors.go"

def p(id, title, statement, over, qtext, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if "observe" in kw:
        a["observe_at"] = kw["observe"]
    a["hook_needed"] = None
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a}, kw))

p("C01", "Only a threshold of distinct authorised signatures makes metadata trusted",
  "A document is accepted for a role only if at least the role's threshold (never less than one) of different keys, authorised for that role by the delegating metadata, made valid signatures over exactly its signed content; repeated key identifiers, the same key under several identifiers, signatures of other keys and signatures over other content never count. Conversely, a document with enough valid signatures is accepted even when other signatures or authorised keys are bad or unusable.",
  ["inputs"], "every list of authorised key ids (with repeats and aliases), every threshold, every combination of present, missing, foreign and stale signatures, for root, targets and hash-bin delegations and every supported key type",
  "Tests sign with one key per role and try a handful of thresholds; aliases, non-positive thresholds, unusable keys and the product of the cases are never reached.",
  [M, K, T], [("signature counting for a delegated role", M + ": VerifyDelegate"), ("key decoding", K + ": ToPublicKey"), ("document checks at load time", M + ": fromBytes")],
  observe=["verdict of verifying a delegate", "verdict of loading timestamp metadata into the trusted set"],
  bounds="up to 3 authorised ids over 5 identifiers (one alias, one missing), 3 signature slots with 4 states each, every 64-bit threshold; every 64-bit version and length of the signed document; three keys of one kind, any subset signing; labels that resemble an identifier; texts of up to 2 characters that encodings treat differently in every document kind",
  funcs="Metadata.VerifyDelegate, TrustedMetadata.New/UpdateTimestamp, FromBytes, Key.ToPublicKey")

p("C02", "Root rotation follows an unbroken, doubly signed chain of versions",
  "A client moves from one trusted root to another only if the new root is exactly one version newer, is signed by a threshold of the old root's root keys and also by a threshold of its own; it walks every published version in order up to the configured limit and uses the keys of the last one for all other roles. A refused root leaves the trusted root as it was.",
  ["inputs", "histories"], "every version number, signer set and key change of a sequence of published roots, every point at which the sequence stops or breaks, every rotation limit",
  "Tests replay a few hand-written rotations of length one or two.",
  [T, U], [("verification against old and new root", T + ": UpdateRoot"), ("version walk", U + ": loadRoot")],
  bounds="chains of up to 3 roots (4 thorough) starting at versions 1, 8, 99 or 2^32-1; each root signed by any subset of old, new and foreign keys; any 64-bit version; rotation limits 0..N+1, documents published behind a gap; valid chains of up to 40 roots with limits up to 32")

p("C03", "Accepted versions never go backwards",
  "Once a client trusts timestamp or snapshot metadata (fresh or from its cache), it never accepts a timestamp with a lower version, a timestamp pointing to a lower snapshot version, a snapshot listing any known metadata file with a lower version, or a snapshot that no longer lists one. A timestamp of the same version is never adopted in place of the trusted one.",
  ["inputs", "histories"], "all pairs of version numbers of the trusted and the offered metadata, over every entry of the snapshot, including metadata left in the cache by an earlier session",
  "Tests use versions that differ by one in a single entry.",
  [T, U], [("timestamp rollback checks", T + ": UpdateTimestamp"), ("snapshot rollback checks", T + ": UpdateSnapshot"), ("loading of cached metadata before remote", U + ": loadTimestamp, loadSnapshot")],
  bounds="any 64-bit versions; snapshots with up to 3 entries; two client sessions, with a new root in between or not, hashes announced or not")

p("C04", "Expired metadata is never used as final metadata",
  "No target information is returned, and no child metadata is loaded, on the strength of root, timestamp, snapshot or targets metadata whose expiry lies before the start of the update. Expired intermediate root, and expired cached timestamp or snapshot, may still be superseded by fresh ones.",
  ["inputs", "histories"], "every expiry instant of every role relative to the reference time, top-level and delegated, remote and cached",
  "Tests use a few fixed dates, one role at a time.",
  [T, M], [("expiry comparison", M + ": IsExpired"), ("final root, timestamp, snapshot and targets checks", T + ": UpdateTimestamp, checkFinalTimestamp, checkFinalSnapshot, UpdateDelegatedTargets")],
  bounds="every expiry instant within 200 years of the update (and years -30..7900 for the comparison itself), equality of the two instants excluded; four roles and a delegated role, remote and cached; chains of 1 or 2 roots (3 thorough)")

p("C05", "Metadata is consistent with what its parent announces, loaded in order",
  "Snapshot metadata becomes final only with the length, hashes and version announced by the trusted timestamp, and targets metadata (top-level or delegated) is accepted only with the length, hashes and version announced by the trusted snapshot, whatever is signed (only for the client's own cached copy of the snapshot, which was checked when it was fetched, length and hashes are not compared again). Metadata is loaded only in the order root, timestamp, snapshot, targets, delegated targets, and never back.",
  ["inputs", "histories"], "every combination of announced and actual length, hash and version; every order of the update operations",
  "Tests check single mismatches; combinations, unknown hash names, negative lengths and operation orders are not covered.",
  [T, M], [("length and hash verification", M + ": VerifyLengthHashes"), ("order and version checks", T + ": UpdateTimestamp, UpdateSnapshot, UpdateDelegatedTargets")],
  bounds="every 64-bit version and length; correct, wrong, missing and unknown hashes; all operation sequences of length up to 4 (quick) or 5 (thorough)")

p("C06", "A refused update leaves the trusted state unchanged",
  "When metadata is refused, the trusted set is exactly as before, except that a correctly signed, not rolled back timestamp or snapshot which is only expired (or, for a snapshot, not yet of the announced version) stays loaded as an intermediate and blocks the next step. Retrying with correct metadata then succeeds as if the refused attempt had not happened.",
  ["inputs", "histories"], "every cause of refusal (type, signature, version, expiry, hash, length, order) at every step, followed by a retry",
  "Tests assert the error, not the state left behind.",
  [T], [("assignment only after verification", T + ": UpdateRoot, UpdateTimestamp, UpdateSnapshot, UpdateDelegatedTargets")],
  bounds="one refused update at each of five steps, any version, followed by a correct one")

p("C07", "A document of one role is never taken for another",
  "Bytes whose declared type is not the requested one are refused by every loading and updating operation, even if their signatures would satisfy the role, and a delegated role can never replace or stand in for a top-level role.",
  ["inputs"], "every pair of requested and declared type, every position of the document, every delegated role name including the top-level names",
  "Tests cover only some pairs, and no delegation named like a top-level role.",
  [M, T, U], [("type check at load time", M + ": checkType"), ("type check in the trusted set", T + ": Update*"), ("delegation search", U + ": preOrderDepthFirstWalk")],
  bounds="all 4x6 pairs of requested and declared type; delegated role names over the top-level names and others")

p("C08", "Only target bytes matching length and every hash are returned or stored",
  "Downloading a target returns bytes, and writes a file, only if they have exactly the length and all the hashes listed in the trusted metadata; otherwise it fails and writes nothing. The file a successful download names holds exactly these bytes (unless caching is disabled). A cached file is reported as present only under the same condition, and never when caching is disabled.",
  ["inputs", "fault_sequences"], "every served or cached content, every announced length and hash set, cache on or off, and failures while fetching or writing",
  "Tests serve a few concrete corrupted files.",
  [U, M], [("verification before returning and writing", U + ": DownloadTarget, FindCachedTarget"), ("length and hash comparison", M + ": VerifyLengthHashes")],
  bounds="every content of up to 4 bytes, every 64-bit length, hash sets over sha256, sha512 and an unknown algorithm, digests that are right, wrong, cut short, empty or too long, and files already there of the same or another length")

p("C09", "A repository made with the library is one its client accepts and follows",
  "Metadata made with the library's own operations (constructors, keys added and revoked, delegations and hash bins, described targets, signing, clearing and files) is accepted by the library's client exactly when every role carries its threshold of signatures by its current keys over its final content, after any sequence of maintenance steps, and the client then finds and downloads exactly the targets listed. New metadata is of its type, at version one, with one signature needed per role, and expires when told or at once; the repository holder returns what was stored last for each role.",
  ["inputs", "configurations", "histories"], "every sequence of maintenance steps of the bounded length, every version, role, key kind, threshold and single mistake",
  "Tests build one repository by hand and never let the client follow one that the library's own operations maintain.",
  [M, "metadata/keys.go", "metadata/repository/repository.go", T, U], [("constructors, signing, files", M + ": Root, Timestamp, Snapshot, Targets, Sign, ClearSignatures, ToFile, FromFile"), ("keys and roles", M + ": AddKey, RevokeKey"), ("holder", "metadata/repository/repository.go: repositoryType"), ("client", U + ": Refresh, GetTargetInfo, DownloadTarget")],
  bounds="sequences of 2 maintenance steps (3 thorough) out of 11, followed in between or not, versions growing by up to 2^40, plain and indented files, consistent snapshots on and off, announced hashes or versions only; thresholds 1..3 over three kinds of keys with one mistake in any role; hash bins of 1..2 bits (3 thorough); every validity within 34 years")

p("C10", "Delegations are searched depth first, in order, respecting termination",
  "A target lookup visits delegated roles in pre-order, in the order in which each delegating role lists them, stops at the first role that lists the target, never visits a role twice, never goes beyond a matching terminating delegation, and visits at most the configured number of roles. A role on the way that is missing, or whose metadata is refused, ends the lookup without an answer. Its answer depends only on the metadata, not on what the client looked up before, and every role on the way is authorised by the role it was reached through.",
  ["inputs", "configurations"], "every delegation graph of the bounded size (including cycles and diamonds), every assignment of targets, matching paths and terminating flags, every limit",
  "Tests use three fixed delegation trees; the iteration order of the language's maps hides mistakes from a single run.",
  [U, M], [("preorder walk", U + ": preOrderDepthFirstWalk"), ("roles responsible for a target", M + ": GetRolesForTarget")],
  bounds="graphs of 3 delegated roles (4 thorough) with up to 3 delegations each, any edges (cycles, diamonds, self references), all flag combinations, limits below, at and above the number of roles; one role unusable in 4 ways; both orders of map iteration")

p("C11", "A delegation covers exactly the paths its patterns or hash prefixes describe",
  "A delegated role is responsible for a target path if and only if one of its patterns matches it component by component with shell wildcards that never cross a slash, or, for hash prefix delegations, the hexadecimal SHA-256 of the path starts with one of the prefixes. Invalid patterns match nothing.",
  ["inputs"], "every target path and pattern over the alphabet of literals, separators and wildcards up to the length bound; every path digest",
  "Tests check about twenty literal pairs.",
  [M], [("pattern matching", M + ": isTargetInPathPattern"), ("path and hash prefix matching", M + ": IsDelegatedPath")],
  bounds="paths and patterns of up to 5 characters (6 thorough) over literals, '/', '*', '?', '[', ']', '-', '^' and '\\\\'; every 256-bit path digest")

p("C12", "Hash bins partition the targets and recognise exactly their own names",
  "For every bit length from 1 to 32, each target path belongs to exactly one bin, the one numbered by the leading bits of its SHA-256; that bin's name is one of the listed bin names and is recognised as delegated, and no other role name is recognised. Bit lengths outside that range are refused.",
  ["inputs"], "every bit length, every path digest, every candidate role name up to the length bound",
  "Tests use bit lengths up to 10 with a few names.",
  [M], [("bin computation", M + ": GetRolesForTarget, GetSuffixLen"), ("bin recognition", M + ": IsDelegatedRole")],
  bounds="bit lengths 1..32 (and any other 64-bit value for the refusal), every 32-bit digest prefix; names with suffixes of up to 4 arbitrary characters; listing up to 2^6 bins")

p("C13", "No document, response or cache content crashes the client",
  "Whatever bytes are offered as root, timestamp, snapshot, targets or delegated metadata, as map file, or found in the cache, every loading, verifying, lookup and download operation returns an error or a result; it never panics and never loops forever. Neither does serialising, signing or comparing what was loaded.",
  ["inputs"], "documents with any field missing, duplicated, renamed, null, of the wrong type or with extreme values, in every role",
  "Tests only use well-formed documents with wrong values.",
  [M, S, T, U, R, K], [("decoding", S + ": UnmarshalJSON methods"), ("type check", M + ": checkType"), ("uses of optional entries", T + ": UpdateTimestamp, UpdateSnapshot; " + U + ": loadSnapshot, loadTargets")],
  bounds="one value at any place of any document (root, timestamp, snapshot, targets, delegated, hash bins) replaced by one of 10 (16 thorough) values of every JSON type and of extreme size, or one member missing, renamed or duplicated; in downloaded documents, in files given to the API, in the trusted root and in every cached file, followed by the whole update, lookup, verification, signing and comparison; map files; texts that are no JSON; keys of 6 types, 4 schemes and 10 values in any combination with any signature of 3 (8 thorough) bytes and some longer ones")

p("C14", "Serialising and reloading metadata loses nothing and keeps signatures valid",
  "Metadata that was loaded and serialised again, plainly or indented, through bytes or files, has the same content as the original, including unrecognised fields at every level, and every signature that verified before verifies after. Hexadecimal values survive in both directions. (The members of the format itself have values of the format's types; a length of zero and empty hashes in a metadata file entry mean that none is given.)",
  ["inputs"], "every version, length, name, hash, flag and unrecognised member value at every level of each document kind",
  "Tests round-trip a few fixed documents.",
  [S, M, D], [("custom encoding with unrecognised fields", S + ": MarshalJSON and UnmarshalJSON methods"), ("file and byte conversions", M + ": ToBytes, FromBytes, ToFile, FromFile")],
  bounds="each document kind with all optional members; any 64-bit version, length and threshold, strings of up to 3 characters, any one unrecognised member of any JSON type at every object of the format; plain, indented, through bytes and through files; any two optional parts absent or empty; documents built with the library itself")

p("C15", "A multi-repository client returns a target only with the mapping's consensus",
  "The multi-repository client returns target information only if at least the threshold number of different repositories, listed in the first mapping that matches the path and yields an agreement, report the same length and hashes, and it returns that agreed information and those repositories. Mappings are tried in order, a matching terminating mapping without agreement ends the search, and two competing agreements are an error.",
  ["inputs", "configurations"], "every assignment of target information to repositories, every mapping list, path pattern, threshold and terminating flag",
  "The repository has no tests for this package.",
  [R], [("consensus search", R + ": GetTargetInfo"), ("client set-up", R + ": initTUFClients, NewConfig")],
  bounds="3 repositories (4 thorough), lists of up to 3 (4) with repetitions, 2 mappings (3), any 64-bit threshold, 2 different target infos or absence or failure per repository, infos under different or no algorithms, mappings of up to two patterns, any terminating flags")

p("C16", "A download never exceeds the permitted length",
  "The default fetcher returns the complete response body if it is at most as long as permitted and an error otherwise, whatever length the server announces; it never returns a truncated body and never reads more than one byte beyond the limit. Responses other than success are reported with their status code. A request ends when the time given for it has passed.",
  ["inputs", "fault_sequences"], "every limit, body length, announced length, status code and transport failure",
  "Tests need the network and use three cases.",
  [F], [("length limit", F + ": DownloadFile")],
  bounds="every 64-bit limit, bodies of up to 2^20 bytes (opaque content), any announced length, every status code 100..599, failures before, in and after the body; any time limit of 10 s to 100 h")

p("C17", "The work a repository can cause is bounded by the configuration",
  "During one update a client requests at most the configured number of new roots, passes the configured or announced maximum length and a time limit to every metadata download, and a lookup loads at most the configured number of delegated roles. No sequence of answers makes it issue further requests.",
  ["inputs", "configurations", "histories"], "every limit and every answer sequence, including endless root chains and delegation cycles",
  "Tests do not count requests or inspect the limits passed.",
  [U], [("root walk bound", U + ": loadRoot"), ("length arguments", U + ": loadTimestamp, loadSnapshot, loadTargets"), ("delegation bound", U + ": preOrderDepthFirstWalk")],
  bounds="root limits 0..6 (40 thorough), delegation limits from -1 to one more than the roles over 3 roles (4), 6 (8) kinds of answer per request, arbitrary 64-bit length limits and announced lengths")

p("C18", "A crash never leaves a half-written or lost metadata file",
  "If the process stops at any file-system operation while metadata is being persisted, each metadata file in the cache still holds either its complete previous or its complete new content, and the next session works. Temporary files never take the place of metadata. Nor does another client that uses the same cache in the middle of a session damage its files, or make the session fail while the repository stays the same.",
  ["crash_points", "fault_sequences"], "a stop before, during or after every file-system operation of an update, a failure of every such operation, and a whole session of another client before any of them",
  "Tests never interrupt or fail a write.",
  [U], [("write to a temporary file and rename", U + ": persistMetadata")],
  bounds="one crash or one failing operation at each of 48 positions of a session (refresh and lookup with older cached metadata), with nothing, everything or a proper prefix of a write done; one whole session of another client (of the same or a newer repository state) before each of these positions; temporary directory on the same or another mount")

p("C19", "Only verified metadata reaches the cache, and none when caching is off",
  "A metadata file in the cache only ever holds bytes that were verified for that role in this or an earlier session, so refused metadata never replaces it; with caching disabled no file or directory is created or changed.",
  ["inputs", "configurations"], "every kind of refused document at every step of a refresh and delegated lookup, cache on or off",
  "Tests check the file list after successful updates.",
  [U, G], [("persist after verification", U + ": loadRoot, loadTimestamp, loadSnapshot, loadTargets"), ("cache switch", U + ": persistMetadata; " + G + ": EnsurePathsExist")],
  bounds="12 kinds of refused document (signature, version, type, expiry, hash, syntax, shape, size) at each of five steps, with an empty or an older cache, cache on or off")

p("C20", "Cache paths stay inside the cache, one file per role or target",
  "Whatever a role or target is called, the files the client creates or reads for it lie directly in the configured metadata or target directory, different names use different files, and what was stored for a name is found again under that name.",
  ["inputs"], "every role and target name over an alphabet with separators, dots, percent signs and letters up to the length bound",
  "Tests use plain names.",
  [U, R], [("metadata file names", U + ": persistMetadata, loadLocalMetadata"), ("target file names", U + ": generateTargetFilePath"), ("per-repository directories", R + ": initTUFClients")],
  bounds="role names of up to 3 (4) and target names of up to 3 (4) characters over '.', '/', '%', 'a', '2', ' ' and others, and pairs of them; names that differ only in case, trailing dots or spaces or Unicode form, and names of 220 characters; several directory spellings; repository names of a map file, and pairs of them")

p("C21", "Unusable cache content never blocks an update",
  "If cached timestamp, snapshot, targets or delegated metadata is missing, damaged, of the wrong type, expired, badly signed or outdated, a refresh or lookup fetches the metadata from the repository and succeeds exactly as it would with an empty cache.",
  ["inputs", "histories"], "every kind of damage in every cached file, alone or together",
  "Tests damage one file in one way.",
  [U], [("fallback from local to remote", U + ": loadTimestamp, loadSnapshot, loadTargets")],
  bounds="each of four cached files in one of 19 states, all pairs; online, with and without a newer publication")

p("C22", "Local-only mode never uses the network and still verifies",
  "With local-only mode set, refreshing and looking up targets issues no request; it succeeds only if the cached metadata verifies against the trusted root with the same signature, version, hash and expiry rules as online.",
  ["inputs", "configurations"], "every state of the cached files including missing and tampered ones, top-level and delegated",
  "Tests cover one complete cache and one missing file.",
  [U], [("local refresh", U + ": unsafeLocalRefresh"), ("loading delegated metadata", U + ": loadTargets")],
  bounds="any versions, expiry times and signers of the four cached documents; each file in one of 12 states, all pairs")

p("C23", "Adding and revoking keys keeps role key lists and the key store in step",
  "After a key is added to a role, the role lists it exactly once and the key store holds it; after it is revoked the role no longer lists it, every other role and key is untouched, and the store drops it exactly when no role uses it. Requests naming an unknown role, or a key the role does not have, fail and change nothing.",
  ["inputs", "histories"], "every sequence of additions and revocations over several roles and keys, for root, delegated roles and hash bins, starting from any consistent state",
  "Tests run a few fixed sequences.",
  [M], [("root key management", M + ": RootType.AddKey, RevokeKey"), ("delegation key management", M + ": TargetsType.AddKey, RevokeKey")],
  bounds="sequences of up to 3 operations (4 thorough) over 3 roles and 3 keys from any consistent state, with roles sharing their key lists")

p("C24", "Keys convert without loss and have a canonical identifier",
  "Converting a supported public key to metadata form and back yields the same key, keys of unsupported or malformed form are refused with an error, and the identifier of a key is the SHA-256 of its canonical form: equal content gives equal identifiers, any difference a different one.",
  ["inputs"], "RSA, ECDSA and Ed25519 keys, every malformed public value up to the bound, every change of type, scheme, value or unrecognised field",
  "Tests convert one key of each kind.",
  [K], [("conversions", K + ": ToPublicKey, KeyFromPublicKey"), ("identifier", K + ": ID")],
  bounds="6 fixed key pairs and arbitrary 32-byte Ed25519 keys; strings of up to 3 characters for type and scheme")

p("C25", "Signing produces a verifiable signature over the canonical content",
  "Signing adds exactly one signature, made by the signer over the canonical form of the current content and labelled with that key's identifier, leaves other signatures and the content alone, and the result verifies for any role that authorises the key, and only until the content changes. A failing signer changes nothing.",
  ["inputs", "histories"], "every document kind and content, sequences of signing, changing, clearing and re-signing with several keys",
  "Tests sign fixed documents once.",
  [M, K], [("signing", M + ": Sign, ClearSignatures"), ("verification", M + ": VerifyDelegate")],
  bounds="sequences of up to 4 operations (5 thorough) with 2 signers, symbolic content values; texts of up to 2 characters from the ones that encodings treat differently, control characters and non-ASCII text, in names and values of every document kind")

p("C26", "Downloads use the locations the specification prescribes",
  "Metadata is requested as the escaped role name with the version prefix exactly when it is root or the repository uses consistent snapshots (never for timestamp), and targets under the target base URL with the hash prefix directly before the file name exactly when consistent snapshots and prefixing are on. The version or hash in the location is the one announced by trusted metadata.",
  ["inputs", "configurations"], "every role name, version, target path with any number of directories, base URL with or without trailing slash, and both flags",
  "Tests check flat and one-level target paths.",
  [U], [("metadata URLs", U + ": downloadMetadata"), ("target URLs", U + ": DownloadTarget")],
  bounds="target paths of up to 5 characters (6) over letters and '/', role names of up to 3 (4) characters, versions up to 2^61, base URLs with none, one and two trailing slashes, both flags, explicit and configured bases")

p("C27", "Errors identify their category",
  "Every repository-side verification failure is recognisable as a repository error and as its own category, every download failure as a download error, equal-version errors as bad-version errors, and no error is recognisable as a category it does not belong to.",
  ["inputs"], "every error type with every message, and the errors returned by each refused update",
  "Tests check few combinations.",
  [E, T, U], [("category relations", E + ": Is methods")],
  bounds="every error type against every category, messages of up to 3 characters")

p("C28", "Target descriptions are computed and compared exactly",
  "The description computed for some content has its exact length and digests for the requested algorithms (an unknown one is an error), verifies that content and no other, and two descriptions are equal exactly when their lengths agree and they agree on at least one common digest and on all common ones. Verification fails for any content differing in length or any listed digest.",
  ["inputs"], "every content and algorithm list, every pair of descriptions",
  "Tests hash one file.",
  [M], [("description", M + ": FromBytes, FromFile"), ("comparison", M + ": Equal"), ("verification", M + ": verifyHashes, verifyLength")],
  bounds="contents of up to 3 bytes, up to 2 algorithms, every 64-bit length")

p("C29", "An honest repository is always followed to its newest state",
  "Against a repository that publishes correctly signed, unexpired, consistent metadata, a refresh succeeds and yields the newest published root, timestamp, snapshot and targets, whatever older state the client starts from, and a second session reuses unchanged cached metadata instead of fetching it again.",
  ["histories", "configurations"], "every history of publications (root rotations, new versions, key changes, consistent-snapshot changes) between two client sessions",
  "Tests replay individual histories.",
  [U, T], [("update workflow", U + ": Refresh, loadRoot, loadTimestamp, loadSnapshot, loadTargets")],
  bounds="two publications of 13 kinds (rotations, key changes, version bumps up to 2^40, consistent snapshot switched) between sessions from any cached state, chains of 3 roots, caches mixed from different publications, 404 or 403 for absent files, a second session that reuses the cache with and without a server; 2 sessions (3 thorough)")

p("C30", "The CLI client trusts only what it verified and deletes only its own folders",
  "The client tool's initialisation succeeds only with a root that verifies itself and leaves it where later commands find it; fetching a target succeeds only with verified content placed in the download folder; a reset removes exactly the metadata and download folders of the current directory.",
  ["inputs", "configurations"], "every served root, target and status code, every state of the working directory",
  "The command line client has no tests.",
  ["examples/cli/tuf-client/cmd/init.go", "examples/cli/tuf-client/cmd/get.go", "examples/cli/tuf-client/cmd/reset.go"],
  [("initialisation", "examples/cli/tuf-client/cmd/init.go: InitializeCmd"), ("download", "examples/cli/tuf-client/cmd/get.go: GetCmd"), ("reset", "examples/cli/tuf-client/cmd/reset.go: ResetCmd")],
  bounds="10 kinds of root (unsigned, foreign, other type, below threshold, expired, no JSON, \u2026) given as a file or served with any of four statuses; 5 states of the folders; any of 10 damaged answers while fetching; answers of up to three characters over 'yesnO' to up to 3 questions; one failing removal")

p("C31", "Failed downloads and refused documents are reported, never passed over",
  "Outside local-only mode an update succeeds only after the client has asked the repository for a newer root and been told that there is none (404 or 403) or accepted every one offered, and has received a timestamp in that same update that it accepts or that has the version of the one it already trusts. Any other download that fails, and any document that is refused, for a role the update or lookup needs from the repository makes that operation fail, with the failure that happened, whatever the cache holds, and no target information is returned. A refresh of several repositories fails when any of them fails.",
  ["inputs", "histories", "configurations"], "every answer (any status, transport failure, document that is empty, damaged, foreign or outdated) to any one or two requests, from every cached state",
  "Tests look at a few failing downloads with an empty or a matching cache.",
  [U, R], [("update workflow", U + ": onlineRefresh, loadRoot, loadTimestamp, loadSnapshot, loadTargets"), ("several repositories", R + ": Refresh")],
  bounds="9 kinds of answer (any status code from 300 to 599) to any one or two of the requests for the five documents, caches of 4 kinds, consistent snapshots on and off; two repositories with one failing")

p("C32", "Questions don't change the answers",
  "Verifying, comparing, searching, looking up and writing never change the documents, descriptions or trusted state they are asked about: a document written before and after has the same content, and the same question gets the same answer again. While repository and clock stay the same, a client's answer about a target (found or not, with which length and hashes, and the bytes downloaded) is the one that a new client would give, whatever was asked before and in which order. Clients of different repositories in one program don't influence each other, and what was accepted stays as it was when the buffers it was read from are used again.",
  ["histories", "inputs"], "every sequence of questions, every shape of the repository and every document",
  "Tests ask one question of a new client or document.",
  [U, T, M], [("lookups", U + ": GetTargetInfo, GetTopLevelTargets, DownloadTarget, loadTargets"), ("trusted set", T + ": UpdateTimestamp and others"), ("documents", M + ": VerifyDelegate, ToBytes, GetRolesForTarget, Equal, VerifyLengthHashes")],
  bounds="one earlier question (two in the thorough tier) out of 8 over repositories with three delegated roles of which one has two parents, with any of 5 defects; two clients side by side with 3 (4) operations; each of the five documents with its buffer overwritten or not; 2 (3) operations on one document of each kind")

claimed = [d["id"] for d, _ in P if os.path.isdir(os.path.join(root, "harness", d["id"].lower()))]
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for d, _ in P:
        f.write(json.dumps(d) + "\n")
ASSUME = [
    "Cryptographic primitives are ideal in the symbolic runs: a signature verifies only if it was made with that key over exactly those bytes, and digests collide only on equal data; natively the real primitives run.",
    "encoding/json, canonical JSON, strconv, path matching, file system, HTTP transport and clock are modelled in the engine; sampled paths of every run are re-executed natively against the real libraries (in-memory file system and network stand-in) and compared.",
    "Single goroutine; arbitrary values are bounded as stated.",
]
checks = []
meta = {}
for d, kw in P:
    if d["id"] not in claimed:
        continue
    checks.append({"property": d["id"], "quick_cmd": f"./run.sh check {d['id']} quick", "thorough_cmd": f"./run.sh check {d['id']} thorough",
        "technique": "symbolic execution of the Go SSA with SMT (z3), native replay of counterexamples", "level": "model_checking",
        "level_note": kw.get("level_note", "exhaustive over all paths and values within: " + kw["bounds"])})
    meta[d["id"]] = {"bounds": kw["bounds"], "assumptions": ASSUME + kw.get("assume", [])}
na = [{"property": d["id"], "reason": kw.get("na", "check not built yet")} for d, kw in P if d["id"] not in claimed]
json.dump({"version": 1, "setup_cmd": "./run.sh setup", "checks": checks, "not_applicable": na}, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
json.dump(meta, open(os.path.join(root, "bounds.json"), "w"), indent=1)
print("claimed", claimed)
