From a657a824a4cc984ec7d27314becaa8117eeb4e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:06 +0000
Subject: [PATCH 01/24] fix: MapTreeHash returns the error instead of an empty
 success

Errors from the storage were converted to a status and then dropped, so that
the caller got a nil response with a nil error. An empty map, which relied on
this, now gets the head of an empty map.
---
 verifiable/service_map_tree_hash.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/verifiable/service_map_tree_hash.go b/verifiable/service_map_tree_hash.go
index f3df948..d25b14d 100644
--- a/verifiable/service_map_tree_hash.go
+++ b/verifiable/service_map_tree_hash.go
@@ -57,9 +57,12 @@ func (s *localServiceImpl) MapTreeHash(ctx context.Context, req *pb.MapTreeHashR
 		}
 
 		// Need this for response
-		mutHead, err := lookupLogRootHashBySize(ctx, kr, pb.LogType_STRUCT_TYPE_MUTATION_LOG, treeSize)
-		if err != nil {
-			return err
+		mutHead := &pb.LogTreeHash{} // nothing is stored for an empty mutation log
+		if treeSize != 0 {
+			mutHead, err = lookupLogRootHashBySize(ctx, kr, pb.LogType_STRUCT_TYPE_MUTATION_LOG, treeSize)
+			if err != nil {
+				return err
+			}
 		}
 
 		// Get the root node for tree size
@@ -87,6 +90,7 @@ func (s *localServiceImpl) MapTreeHash(ctx context.Context, req *pb.MapTreeHashR
 		if !ok {
 			err = status.Errorf(codes.Internal, "unknown err: %s", err)
 		}
+		return nil, err
 	}
 
 	return rv, nil
-- 
2.43.0


From fd70f11963d4d1f302c6b713340a98b876862d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:06 +0000
Subject: [PATCH 02/24] fix: batch mutator carries over the mutation for the
 next namespace

On meeting a mutation for another namespace it returned the first mutation of
the finished batch as the seed of the next one, losing the new mutation and
applying the old one again.
---
 mutator/batch/mutator_batch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mutator/batch/mutator_batch.go b/mutator/batch/mutator_batch.go
index e1ba19f..d82938f 100644
--- a/mutator/batch/mutator_batch.go
+++ b/mutator/batch/mutator_batch.go
@@ -121,7 +121,7 @@ func (bm *batchMutatorImpl) handleBatch(ctx context.Context, kw verifiable.KeyWr
 	cnt := bm.Conf.BatchSize
 	for {
 		if !bytes.Equal(seed.ns, obj.ns) {
-			return curSize, seed, nil
+			return curSize, obj, nil
 		}
 		curSize, err = verifiable.ApplyMutation(ctx, kw, curSize, obj.mut)
 		if err != nil {
-- 
2.43.0


From 1a9048535b80a32a1516cf843cc796507b55b637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:06 +0000
Subject: [PATCH 03/24] fix: badger storage reports only missing keys as
 ErrNoSuchKey

Any read failure was reported as a missing key, which callers take to mean an
empty log or map.
---
 storage/badger/storage_badger.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/storage/badger/storage_badger.go b/storage/badger/storage_badger.go
index 0e2a117..8ac55d3 100644
--- a/storage/badger/storage_badger.go
+++ b/storage/badger/storage_badger.go
@@ -129,9 +129,12 @@ type badgerReaderWriter struct {
 
 func (db *badgerReaderWriter) Get(ctx context.Context, key []byte, value proto.Message) error {
 	item, err := db.Tx.Get(key)
-	if err != nil {
+	if err == badger.ErrKeyNotFound {
 		return verifiable.ErrNoSuchKey
 	}
+	if err != nil {
+		return err
+	}
 	return item.Value(func(bb []byte) error {
 		return proto.Unmarshal(bb, value)
 	})
-- 
2.43.0


From 4dddc3dcfda13b69fc328943ffd49fe7a7c3c405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:06 +0000
Subject: [PATCH 04/24] fix: VerifyMapInclusionProof rejects proofs of the
 wrong length

A short audit path or a head with no mutation log made it panic, and a long
one was accepted with its end ignored.
---
 verifiable/service_map_get_value.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verifiable/service_map_get_value.go b/verifiable/service_map_get_value.go
index 7a6c64c..818d6af 100644
--- a/verifiable/service_map_get_value.go
+++ b/verifiable/service_map_get_value.go
@@ -150,11 +150,14 @@ var (
 
 // VerifyMapInclusionProof verifies an inclusion proof against a MapTreeHead
 func VerifyMapInclusionProof(self *pb.MapGetValueResponse, key []byte, head *pb.MapTreeHashResponse) error {
-	if self.TreeSize != head.MutationLog.TreeSize {
+	if self.TreeSize != head.GetMutationLog().GetTreeSize() {
 		return ErrVerificationFailed
 	}
 
 	kp := merkle.ConstructMapKeyPath(key)
+	if len(self.AuditPath) != len(kp) {
+		return ErrVerificationFailed
+	}
 	t := merkle.LeafHash(self.Value.GetLeafInput())
 	for i := len(kp) - 1; i >= 0; i-- {
 		p := self.AuditPath[i]
-- 
2.43.0


From 8d1c01da920dd6201094d2e4989a438264a65d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:06 +0000
Subject: [PATCH 05/24] fix: REST client ignores negative indexes in the proof
 header

They made it panic.
---
 server/httprest/client_http_rest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/httprest/client_http_rest.go b/server/httprest/client_http_rest.go
index dbc848e..5427b01 100644
--- a/server/httprest/client_http_rest.go
+++ b/server/httprest/client_http_rest.go
@@ -283,7 +283,7 @@ func parseHeadersForProof(headers http.Header) ([][]byte, error) {
 					if err != nil {
 						return nil, err
 					}
-					if idx < 256 {
+					if idx >= 0 && idx < 256 {
 						prv[idx] = bs
 					}
 				}
-- 
2.43.0


From 0e2bfd101315dc25989b0453f53473b5e6024118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:06 +0000
Subject: [PATCH 06/24] fix: map audit compares each root with the one just
 before it

The saved root was not updated after calling the audit function, so that it
was called again for mutations that changed nothing, and not called for one
that went back to the earlier root.
---
 verifiable/util_map_audit.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/verifiable/util_map_audit.go b/verifiable/util_map_audit.go
index ab8f4bc..79a7b89 100644
--- a/verifiable/util_map_audit.go
+++ b/verifiable/util_map_audit.go
@@ -265,7 +265,6 @@ func (a *auditState) ProcessUntilAtLeast(ctx context.Context, size int64) error
 				if err != nil {
 					return err
 				}
-				return nil
 			}
 
 			// Save for next time
-- 
2.43.0


From 360e2a8c579128bca383c2a261a19f9995197741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:06 +0000
Subject: [PATCH 07/24] fix: VerifiedMapState looks up the leaf hash in the
 short-cut

It passed the leaf input, so that the short-cut never succeeded.
---
 verifiable/api_highlevel_map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verifiable/api_highlevel_map.go b/verifiable/api_highlevel_map.go
index ed1db5f..c5e7322 100644
--- a/verifiable/api_highlevel_map.go
+++ b/verifiable/api_highlevel_map.go
@@ -136,7 +136,7 @@ func (vmap *Map) VerifiedMapState(ctx context.Context, prev *MapTreeState, treeS
 		if err != nil {
 			return nil, err
 		}
-		err = vmap.TreeHeadLog().VerifyInclusion(ctx, prevThlth, lh.LeafInput)
+		err = vmap.TreeHeadLog().VerifyInclusion(ctx, prevThlth, merkle.LeafHash(lh.LeafInput))
 		if err == nil {
 			verifiedInTreeHeadLog = true
 			thlth = prevThlth
-- 
2.43.0


From a9e74ea89c24d53de93efacff2b29b0ec9c0a0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:06 +0000
Subject: [PATCH 08/24] fix: requests with missing messages or unknown actions
 are rejected

A request with no log, map, account, value or mutation made the server panic
(a set or update with no value now sets the empty value), and a mutation with an unknown action was queued although it can never be
applied.
---
 verifiable/insertion_map.go         | 4 ++--
 verifiable/service_log_add_entry.go | 4 ++++
 verifiable/service_map_set_value.go | 7 +++++++
 verifiable/util_permissions.go      | 8 +++++++-
 4 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/verifiable/insertion_map.go b/verifiable/insertion_map.go
index ca6fe20..94b9dbe 100644
--- a/verifiable/insertion_map.go
+++ b/verifiable/insertion_map.go
@@ -35,12 +35,12 @@ var (
 func mutationLeafHash(mut *pb.MapMutation, prevLeafHash []byte) ([]byte, error) {
 	switch mut.Action {
 	case "set":
-		return merkle.LeafHash(mut.Value.LeafInput), nil
+		return merkle.LeafHash(mut.Value.GetLeafInput()), nil
 	case "delete":
 		return nullLeafHash, nil
 	case "update":
 		if bytes.Equal(prevLeafHash, mut.PreviousLeafHash) {
-			return merkle.LeafHash(mut.Value.LeafInput), nil
+			return merkle.LeafHash(mut.Value.GetLeafInput()), nil
 		}
 		return prevLeafHash, nil
 	default:
diff --git a/verifiable/service_log_add_entry.go b/verifiable/service_log_add_entry.go
index e91ffaf..1bf0f89 100644
--- a/verifiable/service_log_add_entry.go
+++ b/verifiable/service_log_add_entry.go
@@ -37,6 +37,10 @@ func (s *localServiceImpl) LogAddEntry(ctx context.Context, req *pb.LogAddEntryR
 		return nil, status.Errorf(codes.InvalidArgument, "wrong log type")
 	}
 
+	if req.Value == nil {
+		return nil, status.Errorf(codes.InvalidArgument, "no value specified")
+	}
+
 	ns, err := logBucket(req.Log)
 	if err != nil {
 		return nil, status.Errorf(codes.InvalidArgument, "extra getting bucket: %s", err)
diff --git a/verifiable/service_map_set_value.go b/verifiable/service_map_set_value.go
index 81ed69d..5acac0a 100644
--- a/verifiable/service_map_set_value.go
+++ b/verifiable/service_map_set_value.go
@@ -51,6 +51,13 @@ func (s *localServiceImpl) MapSetValue(ctx context.Context, req *pb.MapSetValueR
 		return nil, status.Errorf(codes.PermissionDenied, "no access: %s", err)
 	}
 
+	switch req.Mutation.GetAction() {
+	case "set", "update", "delete":
+		// good, continue
+	default:
+		return nil, status.Errorf(codes.InvalidArgument, "unknown mutation action")
+	}
+
 	// Since this whacks in timestamp (deliberately, so that mutation log receives unique mutations),
 	// we must keep this rather than regenerate another object.
 	mm, err := makeJSONMutationEntry(req)
diff --git a/verifiable/util_permissions.go b/verifiable/util_permissions.go
index 2b89308..3955bd9 100644
--- a/verifiable/util_permissions.go
+++ b/verifiable/util_permissions.go
@@ -55,15 +55,21 @@ var (
 )
 
 func (s *localServiceImpl) verifyAccessForMap(ctx context.Context, vmap *pb.MapRef, perm pb.Permission) (*AccessModifier, error) {
+	if vmap.GetAccount() == nil {
+		return nil, ErrNotAuthorized
+	}
 	return s.AccessPolicy.VerifyAllowed(ctx, vmap.Account.Id, vmap.Account.ApiKey, vmap.Name, perm)
 }
 
 func (s *localServiceImpl) verifyAccessForLog(ctx context.Context, log *pb.LogRef, perm pb.Permission) (*AccessModifier, error) {
+	if log.GetAccount() == nil {
+		return nil, ErrNotAuthorized
+	}
 	return s.AccessPolicy.VerifyAllowed(ctx, log.Account.Id, log.Account.ApiKey, log.Name, perm)
 }
 
 func (s *localServiceImpl) verifyAccessForLogOperation(ctx context.Context, log *pb.LogRef, op int) (*AccessModifier, error) {
-	perm, ok := operationForLogType[log.LogType][op]
+	perm, ok := operationForLogType[log.GetLogType()][op]
 	if !ok {
 		return nil, ErrNotAuthorized
 	}
-- 
2.43.0


From 146d595b37d3fd37f2868e8071d5dcf47024dd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:06 +0000
Subject: [PATCH 09/24] fix: reading delete mutations with a field filter

They have no value, and made filterLeafData panic.
---
 verifiable/util_permissions.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/verifiable/util_permissions.go b/verifiable/util_permissions.go
index 3955bd9..20c46e3 100644
--- a/verifiable/util_permissions.go
+++ b/verifiable/util_permissions.go
@@ -81,6 +81,10 @@ func filterLeafData(ld *pb.LeafData, am *AccessModifier) (*pb.LeafData, error) {
 	if am.FieldFilter == AllFields {
 		return ld, nil
 	}
+	// There is nothing to filter, e.g. in a delete mutation
+	if ld == nil {
+		return nil, nil
+	}
 	// Largely just for show, but saves us working on the wrong data type
 	switch ld.Format {
 	case pb.DataFormat_JSON:
-- 
2.43.0


From 6a6b44fc7875d35aac7a0da33c83fa1f9293d4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:06 +0000
Subject: [PATCH 10/24] fix: a readonly service answers mutations with an error

Service.Mutator is documented to be nil for a readonly service, which made
LogAddEntry and MapSetValue panic.
---
 verifiable/service_log_add_entry.go | 4 ++++
 verifiable/service_map_set_value.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/verifiable/service_log_add_entry.go b/verifiable/service_log_add_entry.go
index 1bf0f89..be67498 100644
--- a/verifiable/service_log_add_entry.go
+++ b/verifiable/service_log_add_entry.go
@@ -46,6 +46,10 @@ func (s *localServiceImpl) LogAddEntry(ctx context.Context, req *pb.LogAddEntryR
 		return nil, status.Errorf(codes.InvalidArgument, "extra getting bucket: %s", err)
 	}
 
+	if s.Mutator == nil {
+		return nil, status.Errorf(codes.FailedPrecondition, "service is readonly")
+	}
+
 	err = s.Mutator.QueueMutation(ctx, ns, &pb.Mutation{
 		LogAddEntry: req,
 	})
diff --git a/verifiable/service_map_set_value.go b/verifiable/service_map_set_value.go
index 5acac0a..c7a0a20 100644
--- a/verifiable/service_map_set_value.go
+++ b/verifiable/service_map_set_value.go
@@ -75,6 +75,10 @@ func (s *localServiceImpl) MapSetValue(ctx context.Context, req *pb.MapSetValueR
 		return nil, status.Errorf(codes.Internal, "unknown err: %s", err)
 	}
 
+	if s.Mutator == nil {
+		return nil, status.Errorf(codes.FailedPrecondition, "service is readonly")
+	}
+
 	err = s.Mutator.QueueMutation(ctx, ns, &pb.Mutation{
 		LogAddEntry: &pb.LogAddEntryRequest{
 			Log: &pb.LogRef{
-- 
2.43.0


From 4dddff495041bd37c6ec7f072464442ac330eb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:06 +0000
Subject: [PATCH 11/24] fix: auditing malformed entries fails instead of
 panicking

Null entries, null mutations, mutations without a value (as every delete has)
and tree heads without a mutation log or with a size below 1 made the map
auditor panic.
---
 verifiable/util_json.go      |  9 +++++++++
 verifiable/util_map_audit.go | 11 ++++++++---
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/verifiable/util_json.go b/verifiable/util_json.go
index 8f325ca..ea29537 100644
--- a/verifiable/util_json.go
+++ b/verifiable/util_json.go
@@ -115,6 +115,9 @@ func CreateJSONLeafDataFromObject(o interface{}) (*pb.LeafData, error) {
 // ValidateJSONLeafData verifies that the LeafInput is equal to the objecthash of the ExtraData.
 // It ignores the format field.
 func ValidateJSONLeafData(ctx context.Context, entry *pb.LeafData) error {
+	if entry == nil {
+		return ErrVerificationFailed
+	}
 	var o interface{}
 	err := json.Unmarshal(entry.ExtraData, &o)
 	if err != nil {
@@ -182,11 +185,17 @@ func CreateRedactableJSONLeafData(data []byte) (*pb.LeafData, error) {
 // It does not valid the underlying leaf node extra data derives the leaf input.
 // It ignores the format field.
 func ValidateJSONLeafDataFromMutation(entry *pb.LeafData) error {
+	if entry == nil {
+		return ErrVerificationFailed
+	}
 	var o *pb.MapMutation
 	err := json.Unmarshal(entry.ExtraData, &o)
 	if err != nil {
 		return ErrVerificationFailed
 	}
+	if o == nil { // JSON null
+		return ErrVerificationFailed
+	}
 	if o.Value != nil {
 		o.Value.ExtraData = nil
 		o.Value.Format = 0
diff --git a/verifiable/util_map_audit.go b/verifiable/util_map_audit.go
index 79a7b89..18125a1 100644
--- a/verifiable/util_map_audit.go
+++ b/verifiable/util_map_audit.go
@@ -154,12 +154,12 @@ func addMutationToTree(root *mapAuditNode, mut *pb.MapMutation) ([]byte, error)
 
 	switch mut.Action {
 	case "set":
-		head.LeafHash = merkle.LeafHash(mut.Value.LeafInput)
+		head.LeafHash = merkle.LeafHash(mut.Value.GetLeafInput())
 	case "delete":
 		head.LeafHash = defaultLeafValues[256]
 	case "update":
 		if bytes.Equal(head.LeafHash, mut.PreviousLeafHash) {
-			head.LeafHash = merkle.LeafHash(mut.Value.LeafInput)
+			head.LeafHash = merkle.LeafHash(mut.Value.GetLeafInput())
 		}
 	default:
 		return nil, ErrVerificationFailed
@@ -225,7 +225,7 @@ func (a *auditState) ProcessUntilAtLeast(ctx context.Context, size int64) error
 				return err
 			}
 
-			if a.LeafDataAuditFunction != nil {
+			if a.LeafDataAuditFunction != nil && mutation.Value != nil {
 				err = a.LeafDataAuditFunction(ctx, mutation.Value)
 				if err != nil {
 					return err
@@ -304,6 +304,11 @@ func (a *auditState) CheckTreeHeadEntry(ctx context.Context, idx int64, entry *p
 		return err
 	}
 
+	// The first meaningful tree head is that for size 1
+	if mth.GetMutationLog().GetTreeSize() < 1 {
+		return ErrVerificationFailed
+	}
+
 	// Advance the state of the auditor to at least this size
 	err = a.ProcessUntilAtLeast(ctx, mth.MutationLog.TreeSize)
 	if err != nil {
-- 
2.43.0


From 1bbb1e2d6757cafbaf5f05e68bd205e96d042bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:06 +0000
Subject: [PATCH 12/24] fix: VerifyEntries rejects starting proofs with too few
 nodes

A proof whose nodes hash to the previous root, but which are fewer than its
size needs, made it panic.
---
 verifiable/api_highlevel_log.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verifiable/api_highlevel_log.go b/verifiable/api_highlevel_log.go
index aa791e0..9eee207 100644
--- a/verifiable/api_highlevel_log.go
+++ b/verifiable/api_highlevel_log.go
@@ -240,6 +240,9 @@ func (log *Log) VerifyEntries(ctx context.Context, prev *pb.LogTreeHashResponse,
 
 		merkleTreeStack = append(merkleTreeStack, mtlHash)
 		for z := idx; (z & 1) == 1; z >>= 1 {
+			if len(merkleTreeStack) < 2 { // the proof had too few nodes
+				return ErrVerificationFailed
+			}
 			merkleTreeStack = append(merkleTreeStack[:len(merkleTreeStack)-2], merkle.NodeHash(merkleTreeStack[len(merkleTreeStack)-2], merkleTreeStack[len(merkleTreeStack)-1]))
 		}
 
-- 
2.43.0


From af2074fe9184882d794f3aa3f1b4fe4a9cc44e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:06 +0000
Subject: [PATCH 13/24] fix: BlockUntilSize copes with a head without mutation
 log

The server controls this, and it made the client panic.
---
 verifiable/api_highlevel_map.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/verifiable/api_highlevel_map.go b/verifiable/api_highlevel_map.go
index c5e7322..73abef5 100644
--- a/verifiable/api_highlevel_map.go
+++ b/verifiable/api_highlevel_map.go
@@ -51,11 +51,11 @@ func (vmap *Map) BlockUntilSize(ctx context.Context, treeSize int64) (*pb.MapTre
 		if err != nil {
 			return nil, err
 		}
-		if lth.MutationLog.TreeSize >= treeSize {
+		if lth.GetMutationLog().GetTreeSize() >= treeSize {
 			return lth, nil
 		}
-		if lth.MutationLog.TreeSize > lastHead {
-			lastHead = lth.MutationLog.TreeSize
+		if lth.GetMutationLog().GetTreeSize() > lastHead {
+			lastHead = lth.GetMutationLog().GetTreeSize()
 			// since we got a new tree head, reset sleep time
 			timeToSleep = time.Second
 		} else {
-- 
2.43.0


From c1bd773f3bf05715e9a5c1530a99fb967cef0a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:06 +0000
Subject: [PATCH 14/24] fix: REST update with an empty previous leaf hash stays
 an update

It was turned into an unconditional set.
---
 server/httprest/server_http_handler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/httprest/server_http_handler.go b/server/httprest/server_http_handler.go
index fc8ef01..55ba88c 100644
--- a/server/httprest/server_http_handler.go
+++ b/server/httprest/server_http_handler.go
@@ -640,6 +640,7 @@ func createLeafData(body []byte, ef int) (*pb.LeafData, error) {
 }
 
 func (as *apiServer) setMapEntry(vmap *pb.MapRef, key []byte, ef int, vars map[string]string, w http.ResponseWriter, r *http.Request) {
+	_, isUpdate := r.Header[http.CanonicalHeaderKey("X-Previous-LeafHash")]
 	prevLeafHashString := strings.TrimSpace(r.Header.Get("X-Previous-LeafHash"))
 	var prevLeafHash []byte
 	if len(prevLeafHashString) > 0 {
@@ -664,7 +665,7 @@ func (as *apiServer) setMapEntry(vmap *pb.MapRef, key []byte, ef int, vars map[s
 		return
 	}
 
-	if len(prevLeafHash) == 0 {
+	if !isUpdate {
 		as.queueMapMutation(vmap, &pb.MapMutation{
 			Action: "set",
 			Key:    key,
-- 
2.43.0


From 2fe7a27b619a71b081c806102b4170401899a6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:06 +0000
Subject: [PATCH 15/24] fix: a key deleted in a batch is absent for the rest of
 the batch

Reading it back gave an empty value with no error.
---
 mutator/batch/mutator_batch.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/mutator/batch/mutator_batch.go b/mutator/batch/mutator_batch.go
index d82938f..ff97867 100644
--- a/mutator/batch/mutator_batch.go
+++ b/mutator/batch/mutator_batch.go
@@ -91,6 +91,9 @@ func (m *mapNoLockDB) Get(ctx context.Context, key []byte, value proto.Message)
 	k := hex.EncodeToString(key)
 	b, ok := m.M[k]
 	if ok {
+		if b == nil { // deleted earlier in this batch
+			return verifiable.ErrNoSuchKey
+		}
 		return proto.Unmarshal(b, value)
 	}
 	return m.Parent.Get(ctx, key, value)
@@ -100,11 +103,15 @@ func (m *mapNoLockDB) Get(ctx context.Context, key []byte, value proto.Message)
 // It must return nil, ErrNoSuchKey if none found
 func (m *mapNoLockDB) Set(ctx context.Context, key []byte, value proto.Message) error {
 	k := hex.EncodeToString(key)
-	b, err := proto.Marshal(value)
-	if err != nil {
-		return err
+	if value == nil {
+		m.M[k] = nil
+	} else {
+		b, err := proto.Marshal(value)
+		if err != nil {
+			return err
+		}
+		m.M[k] = b
 	}
-	m.M[k] = b
 	m.L = append(m.L, &op{
 		Key:   key,
 		Value: value,
-- 
2.43.0


From cafba342fcc4814406c433805d72d80ba5f8ab72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:06 +0000
Subject: [PATCH 16/24] fix: inclusion proof for an unknown leaf hash is
 NotFound

It was reported as an internal error, while a leaf that is stored but not yet
published gave NotFound.
---
 verifiable/service_log_inclusion_proof.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verifiable/service_log_inclusion_proof.go b/verifiable/service_log_inclusion_proof.go
index abb7716..5d42382 100644
--- a/verifiable/service_log_inclusion_proof.go
+++ b/verifiable/service_log_inclusion_proof.go
@@ -74,6 +74,9 @@ func (s *localServiceImpl) LogInclusionProof(ctx context.Context, req *pb.LogInc
 		} else {
 			// Then we must fetch the index
 			ei, err := lookupIndexByLeafHash(ctx, kr, req.Log.LogType, req.MtlHash)
+			if err == ErrNoSuchKey {
+				return status.Errorf(codes.NotFound, "cannot find it")
+			}
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From d9741d37a6067782c6ada4a5621ee8b3973697db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:06 +0000
Subject: [PATCH 17/24] fix: REST server answers malformed requests with 400

Its own ErrInvalidRequest and ErrNotFound were answered with 500.
---
 server/httprest/server_http_handler.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/server/httprest/server_http_handler.go b/server/httprest/server_http_handler.go
index 55ba88c..ad57fef 100644
--- a/server/httprest/server_http_handler.go
+++ b/server/httprest/server_http_handler.go
@@ -284,6 +284,15 @@ func writeResponseHeader(logger *log.Logger, w http.ResponseWriter, err error) {
 		logger.Println(err.Error())
 	}
 
+	switch err {
+	case verifiable.ErrInvalidRequest:
+		w.WriteHeader(http.StatusBadRequest)
+		return
+	case verifiable.ErrNotFound:
+		w.WriteHeader(http.StatusNotFound)
+		return
+	}
+
 	s, ok := status.FromError(err)
 	if !ok {
 		w.WriteHeader(http.StatusInternalServerError)
-- 
2.43.0


From 0443fe65843f6ecb09c07af840834786d42cf127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:55 +0000
Subject: [PATCH 18/24] fix: redactable leaf data carries the hash that
 validators recompute

---
 verifiable/util_json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verifiable/util_json.go b/verifiable/util_json.go
index ea29537..36b7eb5 100644
--- a/verifiable/util_json.go
+++ b/verifiable/util_json.go
@@ -169,7 +169,7 @@ func CreateRedactableJSONLeafData(data []byte) (*pb.LeafData, error) {
 		return nil, err
 	}
 
-	bflh, err := objecthash.ObjectHash(o)
+	bflh, err := objecthash.ObjectHashWithStdRedaction(o)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 650f2482ad8c84e3a7e58ee40f766a07a18b2cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:49 +0000
Subject: [PATCH 19/24] fix: reject log inclusion proofs with more nodes than
 the tree has levels

---
 verifiable/service_log_inclusion_proof.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verifiable/service_log_inclusion_proof.go b/verifiable/service_log_inclusion_proof.go
index 5d42382..c388af3 100644
--- a/verifiable/service_log_inclusion_proof.go
+++ b/verifiable/service_log_inclusion_proof.go
@@ -145,6 +145,9 @@ func VerifyLogInclusionProof(self *pb.LogInclusionProofResponse, leafHash []byte
 	fn, sn := self.LeafIndex, self.TreeSize-1
 	r := leafHash
 	for _, p := range self.AuditPath {
+		if sn == 0 { // the path has more nodes than the tree has levels
+			return ErrVerificationFailed
+		}
 		if (fn == sn) || ((fn & 1) == 1) {
 			r = merkle.NodeHash(p, r)
 			for !((fn == 0) || ((fn & 1) == 1)) {
-- 
2.43.0


From 2771d0889b6118629ba11e2c72bdba37e0894f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:49 +0000
Subject: [PATCH 20/24] fix: VerifyEntries took up a starting path that is not
 the previous tree's subtrees

---
 verifiable/api_highlevel_log.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/verifiable/api_highlevel_log.go b/verifiable/api_highlevel_log.go
index 9eee207..eb8b6d3 100644
--- a/verifiable/api_highlevel_log.go
+++ b/verifiable/api_highlevel_log.go
@@ -18,6 +18,7 @@ package verifiable
 
 import (
 	"bytes"
+	"math/bits"
 	"time"
 
 	"github.com/continusec/verifiabledatastructures/merkle"
@@ -206,8 +207,15 @@ func (log *Log) VerifyEntries(ctx context.Context, prev *pb.LogTreeHashResponse,
 		if err != nil {
 			return err
 		}
+		// one node for each complete subtree of the previous tree
+		if len(p.AuditPath) != bits.OnesCount64(uint64(prev.TreeSize)) {
+			return ErrVerificationFailed
+		}
 		var firstHash []byte
 		for _, b := range p.AuditPath {
+			if len(b) != 32 {
+				return ErrVerificationFailed
+			}
 			if firstHash == nil {
 				firstHash = b
 			} else {
-- 
2.43.0


From 9e55b76f042890927b34cad77807b1ea60f37ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:22 +0000
Subject: [PATCH 21/24] fix: refuse consistency proofs with nodes that are not
 hashes

---
 verifiable/service_log_consistency_proof.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/verifiable/service_log_consistency_proof.go b/verifiable/service_log_consistency_proof.go
index 8c46eb0..0adc8c9 100644
--- a/verifiable/service_log_consistency_proof.go
+++ b/verifiable/service_log_consistency_proof.go
@@ -135,9 +135,15 @@ func VerifyLogConsistencyProof(self *pb.LogConsistencyProofResponse, first, seco
 	if len(proof) == 0 {
 		return ErrVerificationFailed
 	}
+	if len(proof[0]) != 32 {
+		return ErrVerificationFailed
+	}
 	fr := proof[0]
 	sr := proof[0]
 	for _, c := range proof[1:] {
+		if len(c) != 32 { // bytes of adjacent hashes could be split elsewhere
+			return ErrVerificationFailed
+		}
 		if sn == 0 {
 			return ErrVerificationFailed
 		}
-- 
2.43.0


From 9040fb3d3bb1aad0dc9806c10d3c92d17b7ea676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:11 +0000
Subject: [PATCH 22/24] fix: postgres storage runs each transaction on a
 connection of its own

---
 storage/postgres/storage-postgres.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/storage/postgres/storage-postgres.go b/storage/postgres/storage-postgres.go
index 908a9a1..5af49e4 100644
--- a/storage/postgres/storage-postgres.go
+++ b/storage/postgres/storage-postgres.go
@@ -16,7 +16,8 @@ import (
 // Storage implements a Postgresql backed storage layer, suitable for use with the
 // verifiabledatastructures library.
 type Storage struct {
-	Pool *pgxpool.Conn
+	// Pool provides a connection of its own for each transaction.
+	Pool *pgxpool.Pool
 
 	knownTableMutex sync.RWMutex
 	knownTables     map[string]string
-- 
2.43.0


From 33b46c7453a9e438a0aec1603347e26a8a62b152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:22 +0000
Subject: [PATCH 23/24] fix: batch mutator queued the caller's own request, so
 a reused buffer changed the entry

---
 mutator/batch/mutator_batch.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mutator/batch/mutator_batch.go b/mutator/batch/mutator_batch.go
index ff97867..7c9ff50 100644
--- a/mutator/batch/mutator_batch.go
+++ b/mutator/batch/mutator_batch.go
@@ -207,6 +207,10 @@ func (bm *batchMutatorImpl) consume() {
 
 // QueueMutation applies the mutation, normally asynchronously, but synchronously for the InstantMutator
 func (bm *batchMutatorImpl) QueueMutation(ctx context.Context, ns []byte, mut *pb.Mutation) error {
-	bm.Ch <- &chObject{ns: ns, mut: mut}
+	// the caller may reuse its request as soon as we return, so queue a copy
+	bm.Ch <- &chObject{
+		ns:  append([]byte(nil), ns...),
+		mut: proto.Clone(mut).(*pb.Mutation),
+	}
 	return nil
 }
-- 
2.43.0


From 44763f9d35632ff951fef19450a27b4194223562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:04 +0000
Subject: [PATCH 24/24] fix: CalcK did not return for values above 2^62, so a
 claimed tree size could hang a verifier

---
 merkle/util_merkle.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/merkle/util_merkle.go b/merkle/util_merkle.go
index 90e91bc..207cc0e 100644
--- a/merkle/util_merkle.go
+++ b/merkle/util_merkle.go
@@ -75,7 +75,7 @@ func IsPow2(n int64) bool {
 // CalcK returns the largest value that is a power of 2, less than n
 func CalcK(n int64) int64 {
 	k := int64(1)
-	for (k << 1) < n {
+	for k < n-k { // k<<1 < n, without overflow
 		k <<= 1
 	}
 	return k
-- 
2.43.0

