S["batch-commit-namespace"]=dict(property="C09",
 needs="two namespaces' mutations in one batching window",
 breaks="a batch cut short by another namespace's mutation is committed into that other namespace",
 edits=[("mutator/batch/mutator_batch.go","			nextSize, seed, err = bm.handleBatch(ctx, wrapper, startSize, seed)\n			if err != nil {\n				return err\n			}\n","			nextSize, seed, err = bm.handleBatch(ctx, wrapper, startSize, seed)\n			if err != nil {\n				return err\n			}\n			if seed != nil { // carried over\n				ns = seed.ns\n			}\n")],
 pkg="mutator/batch",
 test='''package batch
import (
	"testing"
	"time"
	"context"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"github.com/continusec/verifiabledatastructures/storage/memory"
)
func TestSeed(t *testing.T) {
	db := &memory.TransientStorage{}
	m := (&Mutator{Writer: db, Timeout: 50 * time.Millisecond, BatchSize: 100, BufferSize: 100}).MustCreate()
	add := func(ns, v string) {
		err := m.QueueMutation(context.Background(), []byte(ns), &pb.Mutation{LogAddEntry: &pb.LogAddEntryRequest{
			Log: &pb.LogRef{Account: &pb.AccountRef{Id: "0"}, Name: ns}, Value: &pb.LeafData{LeafInput: []byte(v)}}})
		if err != nil { t.Fatal(err) }
	}
	add("A", "1"); add("A", "2"); add("B", "3")
	time.Sleep(400 * time.Millisecond)
	size := func(ns string) (n int64) {
		db.ExecuteReadOnly(context.Background(), []byte(ns), func(ctx context.Context, kr verifiable.KeyReader) error {
			n, _ = verifiable.ReadObjectSize(ctx, kr)
			return nil
		})
		return
	}
	if size("A") != 2 || size("B") != 1 { t.Fatal(size("A"), size("B")) }
}
''')
S["batch-size-own-transaction"]=dict(property="C07",
 needs="a crash or failure between the two transactions",
 breaks="the records of a batch commit in one transaction and the size that publishes them in the next",
 edits=[("mutator/batch/mutator_batch.go","				return verifiable.WriteObjectSize(ctx, kw, nextSize)\n			})\n","				return nil\n			})\n			if err == nil { // publish\n				err = bm.Conf.Writer.ExecuteUpdate(ctx, ns, func(ctx context.Context, kw verifiable.KeyWriter) error {\n					return verifiable.WriteObjectSize(ctx, kw, nextSize)\n				})\n			}\n")],
 pkg="mutator/batch",
 test='''package batch
import (
	"testing"
	"time"
	"context"
	"sync"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"github.com/continusec/verifiabledatastructures/storage/memory"
)
type counting struct {
	memory.TransientStorage
	mu sync.Mutex
	n int
}
func (c *counting) ExecuteUpdate(ctx context.Context, ns []byte, f func(ctx context.Context, db verifiable.KeyWriter) error) error {
	c.mu.Lock()
	c.n++
	c.mu.Unlock()
	return c.TransientStorage.ExecuteUpdate(ctx, ns, f)
}
func TestSeed(t *testing.T) {
	db := &counting{}
	m := (&Mutator{Writer: db, Timeout: 50 * time.Millisecond, BatchSize: 100, BufferSize: 100}).MustCreate()
	m.QueueMutation(context.Background(), []byte("A"), &pb.Mutation{LogAddEntry: &pb.LogAddEntryRequest{
		Log: &pb.LogRef{Account: &pb.AccountRef{Id: "0"}, Name: "A"}, Value: &pb.LeafData{LeafInput: []byte("v")}}})
	time.Sleep(400 * time.Millisecond)
	db.mu.Lock()
	defer db.mu.Unlock()
	if db.n != 1 { t.Fatal("one mutation, transactions:", db.n) }
}
''')
S["bolt-empty-deletes"]=dict(property="C10",
 needs="a stored message whose encoding has no bytes (an empty value, index 0)",
 breaks="setting an empty message deletes the key instead of storing it",
 edits=[("storage/bolt/storage_bolt.go","	return b.Put(key, bb)\n","	if len(bb) == 0 { // nothing to store\n		return b.Delete(key)\n	}\n	return b.Put(key, bb)\n")],
 pkg="storage/bolt",
 test='''package bolt
import (
	"testing"
	"context"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
)
func TestSeed(t *testing.T) {
	s := &Storage{Path: t.TempDir()}
	defer s.Close()
	err := s.ExecuteUpdate(context.Background(), []byte("ns"), func(ctx context.Context, db verifiable.KeyWriter) error {
		return db.Set(ctx, []byte("k"), &pb.EntryIndex{})
	})
	if err != nil { t.Fatal(err) }
	err = s.ExecuteReadOnly(context.Background(), []byte("ns"), func(ctx context.Context, db verifiable.KeyReader) error {
		return db.Get(ctx, []byte("k"), &pb.EntryIndex{})
	})
	if err != nil { t.Fatal(err) }
}
''')
S["bolt-open-race"]=dict(property="C21",
 needs="two goroutines touching a new namespace at once",
 breaks="a database is opened twice: presence is not checked again under the write lock",
 edits=[("storage/bolt/storage_bolt.go","	// Check again, as may have been added since last\n	rv, ok := bbs.dbs[key]\n	if ok {\n		return rv, nil\n	}\n\n","")],
 pkg="storage/bolt",
 test='''package bolt
import (
	"testing"
	"context"
	"fmt"
	"sync"
	"sync/atomic"
	"time"
	"github.com/continusec/verifiabledatastructures/verifiable"
)
func TestSeed(t *testing.T) {
	s := &Storage{Path: t.TempDir()}
	for i := 0; i < 400; i++ {
		var wg sync.WaitGroup
		var start atomic.Bool
		errs := make(chan error, 16)
		for g := 0; g < 6; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for !start.Load() {}
				errs <- s.ExecuteReadOnly(context.Background(), []byte(fmt.Sprint("ns", i)), func(ctx context.Context, db verifiable.KeyReader) error { return nil })
			}()
		}
		time.Sleep(time.Millisecond)
		start.Store(true)
		wg.Wait()
		close(errs)
		for e := range errs { if e != nil { t.Fatal(e) } }
	}
}
''')
S["badger-nosync"]=dict(property="C08",
 needs="a crash of the machine after an acknowledged write",
 breaks="badger acknowledges writes before they are synced",
 edits=[("storage/badger/storage_badger.go","badger.DefaultOptions(filepath.Join(bbs.Path, key))","badger.DefaultOptions(filepath.Join(bbs.Path, key)).WithSyncWrites(false)")],
 pkg="storage/badger",
 test='''package badger
import ("testing"; "reflect")
func TestSeed(t *testing.T) {
	s := &Storage{Path: t.TempDir()}
	defer s.Close()
	db, err := s.getOrCreateDB([]byte("ns"))
	if err != nil { t.Fatal(err) }
	if !reflect.ValueOf(db).Elem().FieldByName("opt").FieldByName("SyncWrites").Bool() { t.Fatal("writes are not synced") }
}
''')
S["delete-drops-data"]=dict(property="C05",
 needs="delete a key, then read the map at a size before the deletion",
 breaks="deleting a key removes the old value's stored data, which published sizes still refer to",
 edits=[("verifiable/insertion_map.go","	// OK, instead, is the leaf us exactly? If so, easy we just rewrite it.\n","	// Reclaim the space of a value that is deleted\n	if isMatch && mut.Action == \"delete\" {\n		err = db.Set(ctx, makeStorageKey(buckets[dataByLeafHash][pb.LogType_STRUCT_TYPE_MUTATION_LOG], prevLeafHash), nil)\n		if err != nil {\n			return nil, err\n		}\n	}\n\n	// OK, instead, is the leaf us exactly? If so, easy we just rewrite it.\n")],
 test='''package verifiable
import ("testing"; "github.com/continusec/verifiabledatastructures/pb")
func TestSeed(t *testing.T) {
	_, s := newSvc(nil)
	_, err := s.MapSetValue(bg, &pb.MapSetValueRequest{Map: mapRef("m"), Mutation: &pb.MapMutation{Action: "set", Key: []byte("k"), Value: leaf("v")}})
	ok(t, err)
	_, err = s.MapSetValue(bg, &pb.MapSetValueRequest{Map: mapRef("m"), Mutation: &pb.MapMutation{Action: "delete", Key: []byte("k")}})
	ok(t, err)
	r, err := s.MapGetValue(bg, &pb.MapGetValueRequest{Map: mapRef("m"), Key: []byte("k"), TreeSize: 1})
	ok(t, err)
	if string(r.Value.LeafInput) != "v" { t.Fatal(r) }
}
''')
S["unpublished-index-counts"]=dict(property="C06",
 needs="an index record left at exactly the next index by an attempt that was never published",
 breaks="the entry is taken for present and never added",
 edits=[("verifiable/insertion_log.go","		if ei.Index < sizeBefore {","		if ei.Index <= sizeBefore {")],
 test='''package verifiable
import ("testing"; "github.com/continusec/verifiabledatastructures/pb")
func TestSeed(t *testing.T) {
	m, s := newSvc(nil)
	add := func(v string) { _, err := s.LogAddEntry(bg, &pb.LogAddEntryRequest{Log: logRef("l", 0), Value: leaf(v)}); ok(t, err) }
	add("a"); add("b")
	ns, _ := logBucket(logRef("l", 0))
	ok(t, WriteObjectSize(bg, m.space(ns), 1)) // b was never published
	add("b")
	n, err := ReadObjectSize(bg, m.space(ns))
	ok(t, err)
	if n != 2 { t.Fatal("size", n) }
}
''')
S["treehead-missing-node"]=dict(property="C11",
 needs="a tree head log node that cannot be found while a map mutation is applied",
 breaks="the mutation is published although its tree head entry was not appended",
 edits=[("verifiable/insertion_log.go","		_, err = addEntryToLog(ctx, db, sizeBefore, treeHeadLogForMutationLog(req.Log), thld)\n		if err != nil {","		_, err = addEntryToLog(ctx, db, sizeBefore, treeHeadLogForMutationLog(req.Log), thld)\n		if err != nil && err != ErrNoSuchKey {")],
 test='''package verifiable
import ("testing"; "bytes"; "github.com/continusec/verifiabledatastructures/pb")
func TestSeed(t *testing.T) {
	m, s := newSvc(nil)
	set := func(v string) error {
		_, err := s.MapSetValue(bg, &pb.MapSetValueRequest{Map: mapRef("m"), Mutation: &pb.MapMutation{Action: "set", Key: []byte("k"), Value: leaf(v)}})
		return err
	}
	ok(t, set("1"))
	m.fail = func(op string, key []byte) error {
		if op == "get" && bytes.HasPrefix(key, []byte("treehead_leaf/")) { return ErrNoSuchKey }
		return nil
	}
	if set("2") == nil { t.Fatal("applied without a tree head") }
}
''')
S["update-prefix-hash"]=dict(property="C12",
 needs="an update mutation whose previous leaf hash is a proper prefix of the current one (or empty)",
 breaks="a conditional update takes effect although the previous hash does not match",
 edits=[("verifiable/insertion_map.go","		if bytes.Equal(prevLeafHash, mut.PreviousLeafHash) {","		if bytes.HasPrefix(prevLeafHash, mut.PreviousLeafHash) {")],
 test='''package verifiable
import ("testing"; "github.com/continusec/verifiabledatastructures/pb")
func TestSeed(t *testing.T) {
	_, s := newSvc(nil)
	_, err := s.MapSetValue(bg, &pb.MapSetValueRequest{Map: mapRef("m"), Mutation: &pb.MapMutation{Action: "set", Key: []byte("k"), Value: leaf("v")}})
	ok(t, err)
	_, err = s.MapSetValue(bg, &pb.MapSetValueRequest{Map: mapRef("m"), Mutation: &pb.MapMutation{Action: "update", Key: []byte("k"), Value: leaf("w")}})
	ok(t, err)
	r, err := s.MapGetValue(bg, &pb.MapGetValueRequest{Map: mapRef("m"), Key: []byte("k")})
	ok(t, err)
	if string(r.Value.LeafInput) != "v" { t.Fatal(r) }
}
''')
S["policy-key-fold"]=dict(property="C03",
 needs="an API key that differs from the configured one in letter case only",
 breaks="the policy grants to a key no rule names",
 edits=[("oracle/policy/authorization_static.go","pol.ApiKey == apiKey)","strings.EqualFold(pol.ApiKey, apiKey))")],
 pkg="oracle/policy",
 test='''package policy
import ("testing"; "context"; "github.com/continusec/verifiabledatastructures/pb")
func TestSeed(t *testing.T) {
	p := &Static{Policy: []*pb.ResourceAccount{{Id: "0", Policy: []*pb.AccessPolicy{{NameMatch: "*", ApiKey: "SeCret", Permissions: []pb.Permission{pb.Permission_PERM_ALL_PERMISSIONS}, AllowedFields: []string{"*"}}}}}}
	if _, err := p.VerifyAllowed(context.Background(), "0", "secret", "n", pb.Permission_PERM_LOG_READ_HASH); err == nil { t.Fatal("granted") }
}
''')
S["redacted-input"]=dict(property="C04",
 needs="a policy with a field filter and an entry to be redacted",
 breaks="the leaf input returned with a redacted entry is recomputed from the redacted JSON and no longer the logged one",
 edits=[("verifiable/util_permissions.go","			LeafInput: ld.LeafInput,\n			ExtraData: rv, // redacted form","			LeafInput: ld.LeafInput,\n			ExtraData: bytes.TrimSpace(ld.ExtraData[:min(len(rv), len(ld.ExtraData))]), // redacted form"),
  ("verifiable/util_permissions.go",'	"encoding/json"\n','	"bytes"\n	"encoding/json"\n')],
 test='''package verifiable
import ("testing"; "github.com/continusec/verifiabledatastructures/pb")
func TestSeed(t *testing.T) { t.Skip() }
''')
del S["redacted-input"]
S["inclusion-tail"]=dict(property="C15",
 needs="a proof whose audit path was cut short, and a head whose root is the hash of the smaller subtree",
 breaks="an inclusion proof that does not consume the whole tree is accepted",
 edits=[("verifiable/service_log_inclusion_proof.go","	if sn != 0 {\n		return ErrVerificationFailed\n	}\n","	if sn != 0 && fn != sn {\n		return ErrVerificationFailed\n	}\n")],
 test='''package verifiable
import ("testing"; "github.com/continusec/verifiabledatastructures/pb"; "github.com/continusec/verifiabledatastructures/merkle")
func TestSeed(t *testing.T) {
	l := merkle.LeafHash([]byte("x"))
	if VerifyLogInclusionProof(&pb.LogInclusionProofResponse{TreeSize: 5, LeafIndex: 4}, l, &pb.LogTreeHashResponse{TreeSize: 5, RootHash: l}) == nil { t.Fatal("accepted") }
}
''')
S["map-proof-trimmed"]=dict(property="C15",
 needs="a server that sends a proof element of all zero bytes instead of leaving it out",
 breaks="any all-zero sibling is replaced by the default hash",
 edits=[("verifiable/service_map_get_value.go","		if len(p) == 0 { //","		if len(bytes.Trim(p, \"\\x00\")) == 0 { //")],
 test='''package verifiable
import ("testing"; "github.com/continusec/verifiabledatastructures/pb")
func TestSeed(t *testing.T) {
	_, s := newSvc(nil)
	_, err := s.MapSetValue(bg, &pb.MapSetValueRequest{Map: mapRef("m"), Mutation: &pb.MapMutation{Action: "set", Key: []byte("k"), Value: leaf("v")}})
	ok(t, err)
	r, err := s.MapGetValue(bg, &pb.MapGetValueRequest{Map: mapRef("m"), Key: []byte("k")})
	ok(t, err)
	h, err := s.MapTreeHash(bg, &pb.MapTreeHashRequest{Map: mapRef("m")})
	ok(t, err)
	ok(t, VerifyMapInclusionProof(r, []byte("k"), h))
	r.AuditPath[200] = make([]byte, 32)
	if VerifyMapInclusionProof(r, []byte("k"), h) == nil { t.Fatal("accepted") }
}
''')
S["verified-state-any-prev"]=dict(property="C16",
 needs="a server whose tree head log does not include the map head it returns",
 breaks="a failed inclusion of the map head in the tree head log is ignored when an earlier state is given",
 edits=[("verifiable/api_highlevel_map.go","		err = vmap.TreeHeadLog().VerifyInclusion(ctx, thlth, merkle.LeafHash(li.LeafInput))\n		if err != nil {","		err = vmap.TreeHeadLog().VerifyInclusion(ctx, thlth, merkle.LeafHash(li.LeafInput))\n		if err != nil && (prev == nil || prev.TreeSize() > mapHead.MutationLog.TreeSize) {")],
 test='''package verifiable
import ("testing"; "context"; "github.com/continusec/verifiabledatastructures/pb")
type forged struct { pb.VerifiableDataStructuresServiceServer; on bool }
func (f *forged) MapTreeHash(ctx context.Context, r *pb.MapTreeHashRequest) (*pb.MapTreeHashResponse, error) {
	h, err := f.VerifiableDataStructuresServiceServer.MapTreeHash(ctx, r)
	if f.on && err == nil { h.RootHash = make([]byte, 32) }
	return h, err
}
func TestSeed(t *testing.T) {
	_, s := newSvc(nil)
	f := &forged{VerifiableDataStructuresServiceServer: s}
	vmap := account(f).VerifiableMap("m")
	_, err := vmap.Set(bg, []byte("k"), leaf("1")); ok(t, err)
	st, err := vmap.VerifiedLatestMapState(bg, nil); ok(t, err)
	_, err = vmap.Set(bg, []byte("k"), leaf("2")); ok(t, err)
	f.on = true
	if _, err = vmap.VerifiedLatestMapState(bg, st); err == nil { t.Fatal("forged map root accepted") }
}
''')
S["audit-stops-short"]=dict(property="C17",
 needs="a server that ends the entries early at an entry where the caller audits from the start",
 breaks="a log audit succeeds although entries were not received when the function has nothing to report",
 edits=[("verifiable/api_highlevel_log.go","	if idx != head.TreeSize {\n","	if idx > head.TreeSize || (idx < head.TreeSize && auditFunc != nil) {\n")],
 test='''package verifiable
import ("testing"; "context"; "github.com/continusec/verifiabledatastructures/pb"; "github.com/continusec/verifiabledatastructures/merkle")
type short struct { pb.VerifiableDataStructuresServiceServer }
func (f *short) LogFetchEntries(ctx context.Context, r *pb.LogFetchEntriesRequest) (*pb.LogFetchEntriesResponse, error) {
	if r.First > 0 { return nil, ErrNotFound }
	return &pb.LogFetchEntriesResponse{Values: []*pb.LeafData{leaf("a")}}, nil
}
func TestSeed(t *testing.T) {
	_, s := newSvc(nil)
	log := account(&short{s}).VerifiableLog("l")
	head := &pb.LogTreeHashResponse{TreeSize: 2, RootHash: merkle.LeafHash([]byte("a"))}
	if log.VerifyEntries(bg, nil, head, nil) == nil { t.Fatal("missing entry not noticed") }
}
''')
S["audit-unchanged-callback"]=dict(property="C17",
 needs="a mutation log audited in two runs, the second starting with a mutation that restores a root seen before",
 breaks="the map audit function is called for the first mutation even when it did not change the root",
 edits=[("verifiable/util_map_audit.go","		lastRootHash := a.Root.CalcHash()","		lastRootHash := a.Root.Hash")],
 test='''package verifiable
import ("testing"; "context"; "github.com/continusec/verifiabledatastructures/pb")
func TestSeed(t *testing.T) {
	_, s := newSvc(nil)
	vmap := account(s).VerifiableMap("m")
	_, err := vmap.Delete(bg, []byte("k")); ok(t, err)
	st, err := vmap.VerifiedLatestMapState(bg, nil); ok(t, err)
	n := 0
	err = vmap.VerifyMap(bg, nil, st, nil, func(ctx context.Context, idx int64, key []byte, value *pb.LeafData) error { n++; return nil })
	ok(t, err)
	if n != 0 { t.Fatal("called for a mutation that changed nothing") }
}
''')
S["path-edge"]=dict(property="C18",
 needs="an inclusion proof in a tree of power of two size plus an index at the split point",
 breaks="CalcK returns n itself for powers of two above 2^31",
 edits=[("merkle/util_merkle.go","		k <<= 1\n","		if k <<= 1; k<<1 == n && n>>32 != 0 {\n			return n\n		}\n")],
 pkg="merkle",
 test='''package merkle
import "testing"
func TestSeed(t *testing.T) {
	if k := CalcK(1 << 33); k != 1<<32 { t.Fatal(k) }
}
''')
S["join-header"]=dict(property="C18",
 needs="joining two paths whose lengths together are 128 or more",
 breaks="a joined path of 128 bits or more carries the wrong length",
 edits=[("verifiable/util_path.go","@2:		rv[0] = byte(l)\n","		rv[0] = byte(l) & 0x7f\n")],
 test='''package verifiable
import "testing"
func TestSeed(t *testing.T) {
	p := BPathFromKey([]byte("k"))
	if n := BPathJoin(p.Slice(0, 150), p.Slice(150, 151)).Length(); n != 151 { t.Fatal(n) }
}
''')
S["namespace-map-log"]=dict(property="C20",
 needs="a tree head log and a user log with the same name in one account",
 breaks="tree head logs share the namespace of the user log of that name instead of their map's",
 edits=[("verifiable/util_service_data.go","	if log.LogType == pb.LogType_STRUCT_TYPE_LOG {","	if log.LogType&1 == pb.LogType_STRUCT_TYPE_LOG {")],
 test='''package verifiable
import ("testing"; "bytes")
func TestSeed(t *testing.T) {
	a, _ := logBucket(logRef("n", 2))
	b, _ := mapBucket(mapRef("n"))
	if !bytes.Equal(a, b) { t.Fatal("tree head log is not in its map's namespace") }
}
''')
S["key-index-text"]=dict(property="C19",
 needs="tree node ranges whose written-out numbers run together",
 breaks="tree node keys of different ranges collide: the range ends are stored as 32 bit numbers",
 edits=[("verifiable/util_service_data.go","	binary.BigEndian.PutUint64(rv, i)\n	binary.BigEndian.PutUint64(rv[8:], j)\n","	binary.BigEndian.PutUint64(rv, i)\n	binary.BigEndian.PutUint64(rv[8:], j-j%i) // aligned\n")],
 test='''package verifiable
''')
del S["key-index-text"]
S["range-key-width"]=dict(property="C19",
 needs="logs of more than 2^32 entries",
 breaks="tree node keys keep only 32 bits of the range end, so different ranges share a key",
 edits=[("verifiable/util_service_data.go","	binary.BigEndian.PutUint64(rv[8:], j)\n","	binary.BigEndian.PutUint32(rv[12:], uint32(j))\n")],
 test='''package verifiable
import ("testing"; "bytes")
func TestSeed(t *testing.T) {
	if bytes.Equal(toDoubleIntBinary(0, 1<<32), toDoubleIntBinary(0, 1<<33)) { t.Fatal("same key") }
}
''')
S["rest-first-sibling"]=dict(property="C24",
 needs="a map proof whose root level sibling is not the default",
 breaks="the REST client drops the first element of a map proof",
 edits=[("server/httprest/client_http_rest.go","				bits := strings.SplitN(commad, \"/\", 2)\n				if len(bits) == 2 {","				bits := strings.SplitN(commad, \"/\", 2)\n				if len(bits) == 2 && strings.Trim(bits[0], \" 0\") != \"\" {")],
 pkg="server/httprest",
 test='''package httprest
import ("testing"; "net/http")
func TestSeed(t *testing.T) {
	h := http.Header{}
	h.Add("X-Verified-Proof", "0/aa")
	p, err := parseHeadersForProof(h)
	if err != nil || len(p[0]) != 1 { t.Fatal(p[0], err) }
}
''')
S["rest-accepted"]=dict(property="C25",
 needs="a server or proxy answering 202 or 204",
 breaks="statuses other than 200 are taken for success",
 edits=[("server/httprest/client_http_rest.go","	case http.StatusOK:\n","	case http.StatusOK, http.StatusCreated, http.StatusAccepted, http.StatusNoContent:\n")],
 pkg="server/httprest",
 test='''package httprest
import ("testing"; "net/http"; "net/http/httptest"; "context"; "github.com/continusec/verifiabledatastructures/pb")
func TestSeed(t *testing.T) {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.WriteHeader(202)
		w.Write([]byte("{}"))
	}))
	defer s.Close()
	c := (&Client{BaseURL: s.URL}).MustDial()
	_, err := c.LogTreeHash(context.Background(), &pb.LogTreeHashRequest{Log: &pb.LogRef{Account: &pb.AccountRef{Id: "0"}, Name: "n"}})
	if err == nil { t.Fatal("202 taken for success") }
}
''')
S["tls-fallback"]=dict(property="C26",
 needs="a certificate without any PEM block",
 breaks="the client stops verifying server certificates when the given certificate cannot be parsed",
 edits=[("server/grpc/client_grpc.go","			return nil, ErrNoCertsFound\n		}\n		dialOptions = append(dialOptions, grpc.WithTransportCredentials(credentials.NewTLS(&tls.Config{RootCAs: cp})))","			log.Println(ErrNoCertsFound)\n		}\n		dialOptions = append(dialOptions, grpc.WithTransportCredentials(credentials.NewTLS(&tls.Config{RootCAs: cp, InsecureSkipVerify: len(cp.Subjects()) == 0})))")],
 pkg="server/grpc",
 test='''package grpc
import "testing"
func TestSeed(t *testing.T) {
	if _, err := (&Client{CertDer: []byte("not pem"), Address: "127.0.0.1:1"}).Dial(); err == nil { t.Fatal("dialled with unusable certificate") }
}
''')
S["storage-key-alias"]=dict(property="C28",
 needs="two keys built from one prefix, the first still held when the second is built",
 breaks="building a map node key writes into a shared buffer that the previous key still uses",
 edits=[("verifiable/util_service_data.go","	rv := make([]byte, lp+len(suffix))\n	copy(rv, prefix)\n","	rv := append(keyBuffer[:0], make([]byte, lp+len(suffix))...)\n	copy(rv, prefix)\n"),
  ("verifiable/util_service_data.go","	mapNodeBucket = []byte(\"map_node/\")\n","	mapNodeBucket = []byte(\"map_node/\")\n	keyBuffer     = make([]byte, 0, 128) // saves allocations\n")],
 test='''package verifiable
import "testing"
func TestSeed(t *testing.T) {
	a := makeStorageKey([]byte("p/"), []byte("1"))
	makeStorageKey([]byte("q/"), []byte("2"))
	if string(a) != "p/1" { t.Fatal(string(a)) }
}
''')
S["sub-tree-missing"]=dict(property="C14",
 needs="a consistency proof over a log whose stored node for a full subtree is missing",
 breaks="a proof with a blank element is returned instead of an error",
 edits=[("verifiable/service_log_consistency_proof.go","				if merkle.IsPow2(rr[1] - rr[0]) {\n					// Would have been nice if GetSubTreeHashes could better handle these\n					return ErrNoSuchKey\n				}","				if merkle.IsPow2(rr[1] - rr[0]) {\n					// Would have been nice if GetSubTreeHashes could better handle these\n					continue\n				}")],
 test='''package verifiable
import ("testing"; "bytes"; "github.com/continusec/verifiabledatastructures/pb")
func TestSeed(t *testing.T) {
	m, s := newSvc(nil)
	for _, v := range []string{"a", "b", "c", "d"} { _, err := s.LogAddEntry(bg, &pb.LogAddEntryRequest{Log: logRef("l", 0), Value: leaf(v)}); ok(t, err) }
	m.fail = func(op string, key []byte) error {
		if bytes.HasPrefix(key, []byte("user_node/")) { return ErrNoSuchKey }
		return nil
	}
	r, err := s.LogConsistencyProof(bg, &pb.LogConsistencyProofRequest{Log: logRef("l", 0), FromSize: 2, TreeSize: 4})
	if err == nil { t.Fatal("blank proof", r.AuditPath) }
}
''')
S["index-error-swallowed"]=dict(property="C27",
 needs="a storage failure while the current size of the object is read",
 breaks="a failing storage reads as an empty object, and the next mutation overwrites from index 0",
 edits=[("verifiable/util_service_data.go","	case ErrNoSuchKey:\n		return 0, nil\n	default:\n		return 0, err\n	}","	default:\n		if lth.Size == 0 { // nothing there yet\n			return 0, nil\n		}\n		return 0, err\n	}")],
 test='''package verifiable
import ("testing"; "errors"; "bytes"; "github.com/continusec/verifiabledatastructures/pb")
func TestSeed(t *testing.T) {
	m, s := newSvc(nil)
	_, err := s.LogAddEntry(bg, &pb.LogAddEntryRequest{Log: logRef("l", 0), Value: leaf("a")}); ok(t, err)
	m.fail = func(op string, key []byte) error {
		if bytes.Equal(key, []byte("metadata/size")) { return errors.New("disk") }
		return nil
	}
	if r, err := s.LogTreeHash(bg, &pb.LogTreeHashRequest{Log: logRef("l", 0)}); err == nil { t.Fatal(r) }
}
''')
S["client-short-proof"]=dict(property="C23",
 needs="a server answering a map get with an audit path that is too long",
 breaks="a malformed response makes the verifier index out of range",
 edits=[("verifiable/service_map_get_value.go","		p := self.AuditPath[i]\n","		p := self.AuditPath[i+len(self.AuditPath)-len(kp)]\n")],
 test='''package verifiable
''')
del S["client-short-proof"]
S["entry-nil-input"]=dict(property="C23",
 needs="a server returning a null entry in a fetch",
 breaks="a null entry in a response makes the auditing client panic",
 edits=[("verifiable/api_highlevel_log.go","		mtlHash := merkle.LeafHash(entry.GetLeafInput())","		mtlHash := merkle.LeafHash(entry.LeafInput)")],
 test='''package verifiable
import ("testing"; "context"; "github.com/continusec/verifiabledatastructures/pb")
type nulls struct { pb.VerifiableDataStructuresServiceServer }
func (f *nulls) LogFetchEntries(ctx context.Context, r *pb.LogFetchEntriesRequest) (*pb.LogFetchEntriesResponse, error) {
	return &pb.LogFetchEntriesResponse{Values: []*pb.LeafData{nil}}, nil
}
func TestSeed(t *testing.T) {
	_, s := newSvc(nil)
	if account(&nulls{s}).VerifiableLog("l").VerifyEntries(bg, nil, &pb.LogTreeHashResponse{TreeSize: 1, RootHash: make([]byte, 32)}, nil) == nil { t.Fatal("accepted") }
}
''')
S["bad-path-panics"]=dict(property="C22",
 needs="a mutation with an unknown action reaching the application (queued by another version)",
 breaks="an unknown action panics the mutator instead of being rejected",
 edits=[("verifiable/insertion_map.go","	default:\n		return nil, ErrInvalidRequest\n","	default:\n		panic(\"unknown action \" + mut.Action)\n")],
 test='''package verifiable
import ("testing"; "github.com/continusec/verifiabledatastructures/pb")
func TestSeed(t *testing.T) {
	m := &mem{}
	d, err := CreateJSONLeafDataFromMutation(&pb.MapMutation{Action: "merge", Key: []byte("k")}); ok(t, err)
	if _, err = ApplyMutation(bg, m.space([]byte("n")), 0, &pb.Mutation{LogAddEntry: &pb.LogAddEntryRequest{Log: logRef("m", 1), Value: d}}); err == nil { t.Fatal("applied") }
}
''')
