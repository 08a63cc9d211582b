S["memory-shared-lock"]=dict(property="C31",
 needs="two updates of the memory backend at the same time",
 breaks="the functions of two updates of one namespace run interleaved, so both read the same size",
 edits=[("storage/memory/storage_memory.go","	key := hex.EncodeToString(namespace)\n\n	bbs.dbLock.Lock()\n","	key := hex.EncodeToString(namespace)\n\n	// Most of the time we have seen it before, and need not stop everyone else\n	bbs.dbLock.RLock()\n	if db := bbs.data[key]; db != nil {\n		defer bbs.dbLock.RUnlock()\n		return f(ctx, &memoryThing{Data: db})\n	}\n	bbs.dbLock.RUnlock()\n\n	bbs.dbLock.Lock()\n")],
 pkg="storage/memory", test='''package memory
import ("testing"; "context"; "time"; "github.com/continusec/verifiabledatastructures/verifiable")
func TestSeed(t *testing.T) {
	s := &TransientStorage{}
	s.ExecuteUpdate(context.Background(), []byte("n"), func(ctx context.Context, db verifiable.KeyWriter) error { return nil })
	in, out, second := make(chan bool), make(chan bool), make(chan bool, 1)
	go s.ExecuteUpdate(context.Background(), []byte("n"), func(ctx context.Context, db verifiable.KeyWriter) error {
		close(in)
		<-out
		return nil
	})
	<-in
	go s.ExecuteUpdate(context.Background(), []byte("n"), func(ctx context.Context, db verifiable.KeyWriter) error {
		second <- true
		return nil
	})
	select {
	case <-second:
		t.Fatal("two updates at once")
	case <-time.After(700 * time.Millisecond):
	}
	close(out)
	<-second
}
''')
S["bolt-batched-update"]=dict(property="C31",
 needs="an update whose function fails, or that is combined with another",
 breaks="bolt runs the function of an update again after it failed, so it is applied more than once",
 edits=[("storage/bolt/storage_bolt.go","	return db.Update(func(tx *bolt.Tx) error {","	return db.Batch(func(tx *bolt.Tx) error {")],
 pkg="storage/bolt", test='''package bolt
import ("testing"; "context"; "errors"; "github.com/continusec/verifiabledatastructures/verifiable")
func TestSeed(t *testing.T) {
	s := &Storage{Path: t.TempDir()}
	defer s.Close()
	n := 0
	err := s.ExecuteUpdate(context.Background(), []byte("n"), func(ctx context.Context, db verifiable.KeyWriter) error {
		n++
		return errors.New("no")
	})
	if err == nil || n != 1 { t.Fatal(err, n) }
}
''')
S["entries-skips-rest"]=dict(property="C32",
 needs="a server that answers a range of entries with fewer than were asked for",
 breaks="Entries goes on behind the range it asked for, so entries are missing from the stream",
 edits=[("verifiable/api_highlevel_wrapper.go","				case rv <- e:\n					start++\n					gotOne = true\n				}\n\n			}","				case rv <- e:\n					gotOne = true\n				}\n\n			}\n			start = lastToFetch")],
 test='''package verifiable
import ("testing"; "context"; "github.com/continusec/verifiabledatastructures/pb")
type few struct { pb.VerifiableDataStructuresServiceServer }
func (f *few) LogFetchEntries(ctx context.Context, r *pb.LogFetchEntriesRequest) (*pb.LogFetchEntriesResponse, error) {
	n := *r
	if n.Last > n.First+2 { n.Last = n.First + 2 }
	return f.VerifiableDataStructuresServiceServer.LogFetchEntries(ctx, &n)
}
func TestSeed(t *testing.T) {
	_, s := newSvc(nil)
	for _, v := range []string{"a", "b", "c", "d", "e"} { _, err := s.LogAddEntry(bg, &pb.LogAddEntryRequest{Log: logRef("l", 0), Value: leaf(v)}); ok(t, err) }
	got := ""
	for e := range account(&few{s}).VerifiableLog("l").Entries(bg, 1, 5) { got += string(e.LeafInput) }
	if got != "bcde" { t.Fatal(got) }
}
''')
S["mutation-log-key"]=dict(property="C32",
 needs="a policy that asks for an API key on the mutation log of a map",
 breaks="the mutation log obtained from a map loses the account's API key",
 edits=[("verifiable/api_highlevel_wrapper.go","@1:			Account: g.Map.Account,\n			Name:    g.Map.Name,\n","			Account: &pb.AccountRef{Id: g.Map.Account.GetId()},\n			Name:    g.Map.Name,\n")],
 test='''package verifiable
import ("testing"; "github.com/continusec/verifiabledatastructures/pb")
func TestSeed(t *testing.T) {
	_, s := newSvc(func(account, key, name string, p pb.Permission) (*AccessModifier, error) {
		if key != "secret" { return nil, ErrNotAuthorized }
		return &AccessModifier{FieldFilter: AllFields}, nil
	})
	m := (&Client{Service: s}).Account("1", "secret").VerifiableMap("m")
	if _, err := m.TreeHead(bg, Head); err != nil { t.Fatal(err) }
	if _, err := m.TreeHeadLog().TreeHead(bg, Head); err != nil { t.Fatal(err) }
	if _, err := m.MutationLog().TreeHead(bg, Head); err != nil { t.Fatal(err) }
}
''')
S["stale-mutation"]=dict(property="C33",
 needs="a mutation that waited in the queue for more than a day, or is replayed",
 breaks="whether a queued mutation changes the map depends on the clock when it is applied",
 edits=[("verifiable/insertion_map.go","	// Can we short-circuit since nothing changed?\n	if bytes.Equal(prevLeafHash, nextLeafHash) {","	// Do not let an update that was queued long ago overwrite newer values\n	queued, err := time.Parse(time.RFC3339Nano, mut.Timestamp)\n	if err == nil && mut.Action == \"update\" && time.Since(queued) > 24*time.Hour {\n		nextLeafHash = prevLeafHash\n	}\n\n	// Can we short-circuit since nothing changed?\n	if bytes.Equal(prevLeafHash, nextLeafHash) {"),
        ("verifiable/insertion_map.go","	\"context\"\n","	\"context\"\n	\"time\"\n")],
 test='''package verifiable
import ("testing"; "bytes"; "time"; "github.com/continusec/verifiabledatastructures/pb")
func root(t *testing.T, when time.Time) []byte {
	m := &mem{}
	kv := m.space([]byte("n"))
	d, err := CreateJSONLeafDataFromMutation(&pb.MapMutation{Action: "update", Key: []byte("k"), PreviousLeafHash: nullLeafHash, Timestamp: when.UTC().Format(time.RFC3339Nano), Value: leaf("v")}); ok(t, err)
	_, err = ApplyMutation(bg, kv, 0, &pb.Mutation{LogAddEntry: &pb.LogAddEntryRequest{Log: logRef("m", 1), Value: d}}); ok(t, err)
	mn, err := lookupMapHash(bg, kv, 1, BPathEmpty); ok(t, err)
	h, err := calcNodeHash(mn, 0); ok(t, err)
	return h
}
func TestSeed(t *testing.T) {
	if !bytes.Equal(root(t, time.Now()), root(t, time.Now().Add(-72*time.Hour))) { t.Fatal("roots differ") }
}
''')
S["log-failed-get"]=dict(property="C34",
 needs="a REST server with a logger, and a failing get of a map entry with an API key",
 breaks="the reference of the map, with the API key in it, is written to the log",
 edits=[("server/httprest/server_http_handler.go","		Key:      key,\n	})\n	if err != nil {\n","		Key:      key,\n	})\n	if err != nil {\n		if as.logger != nil {\n			as.logger.Printf(\"get of %x in %v failed\", key, vmap)\n		}\n")],
 pkg="server/httprest", test='''package httprest
import ("testing"; "bytes"; "log"; "strings"; "net/http/httptest"; "github.com/continusec/verifiabledatastructures/pb")
type nothing struct { pb.UnimplementedVerifiableDataStructuresServiceServer }
func TestSeed(t *testing.T) {
	var b bytes.Buffer
	h := CreateRESTHandler(&nothing{}, nil, log.New(&b, "", 0))
	r := httptest.NewRequest("GET", "/v2/account/1/map/m/tree/head/key/s/k", nil)
	r.Header.Set("Authorization", "Key topsecret")
	h.ServeHTTP(httptest.NewRecorder(), r)
	if b.Len() == 0 || strings.Contains(b.String(), "topsecret") { t.Fatal(b.String()) }
}
''')
S["denied-names-key"]=dict(property="C34",
 needs="a request that the static policy refuses",
 breaks="the error that goes back to whoever asked, and to logs, has the API key in it",
 edits=[("oracle/policy/authorization_static.go","	// Default deny\n	return nil, verifiable.ErrNotAuthorized","	// Default deny\n	who := account\n	if apiKey != \"\" {\n		who = apiKey + \"@\" + account\n	}\n	return nil, status.Errorf(codes.PermissionDenied, \"%s may not do this\", who)"),
   ("oracle/policy/authorization_static.go","	\"golang.org/x/net/context\"\n","	\"golang.org/x/net/context\"\n	\"google.golang.org/grpc/codes\"\n	\"google.golang.org/grpc/status\"\n")],
 pkg="oracle/policy", test='''package policy
import ("testing"; "context"; "strings"; "github.com/continusec/verifiabledatastructures/pb")
func TestSeed(t *testing.T) {
	_, err := (&Static{}).VerifyAllowed(context.Background(), "1", "topsecret", "l", pb.Permission_PERM_LOG_RAW_ADD)
	if err == nil || strings.Contains(err.Error(), "topsecret") { t.Fatal(err) }
}
''')
S["policy-remembers"]=dict(property="C35",
 needs="two requests consulting the static policy at the same time",
 breaks="the policy keeps what it found last without a lock, so concurrent requests race",
 edits=[("oracle/policy/authorization_static.go","	Policy []*pb.ResourceAccount\n}","	Policy []*pb.ResourceAccount\n\n	// the account found last, most requests are for the same\n	last *pb.ResourceAccount\n}"),
   ("oracle/policy/authorization_static.go","	for _, acc := range o.Policy { // for each account in the policy\n","	accounts := o.Policy\n	if len(accounts) == 1 && o.last != nil {\n		accounts = []*pb.ResourceAccount{o.last}\n	}\n	for _, acc := range accounts { // for each account in the policy\n		o.last = acc\n")],
 pkg="oracle/policy", race=True, test='''package policy
import ("testing"; "context"; "sync"; "github.com/continusec/verifiabledatastructures/pb")
func TestSeed(t *testing.T) {
	s := &Static{Policy: []*pb.ResourceAccount{{Id: "1", Policy: []*pb.AccessPolicy{{NameMatch: "*", ApiKey: "*", Permissions: []pb.Permission{pb.Permission_PERM_ALL_PERMISSIONS}}}}}}
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 50; j++ {
				if _, err := s.VerifyAllowed(context.Background(), "1", "k", "l", pb.Permission_PERM_LOG_RAW_ADD); err != nil { t.Error(err) }
			}
		}()
	}
	wg.Wait()
}
''')
S["update-not-filtered"]=dict(property="C04",
 needs="a policy with a field filter reading the mutation log, and an entry made by an update",
 breaks="the values of update mutations are returned without the field filter",
 edits=[("verifiable/service_log_fetch_entries.go","				mm.Value, err = filterLeafData(mm.Value, am)\n				if err != nil {\n					return err\n				}\n","				// deletes have no value to filter\n				if mm.Action == \"set\" {\n					mm.Value, err = filterLeafData(mm.Value, am)\n					if err != nil {\n						return err\n					}\n				}\n")],
 test='''package verifiable
import ("testing"; "bytes"; "github.com/continusec/verifiabledatastructures/pb")
func TestSeed(t *testing.T) {
	filter := AllFields
	_, s := newSvc(func(account, key, name string, p pb.Permission) (*AccessModifier, error) { return &AccessModifier{FieldFilter: filter}, nil })
	for _, a := range []string{"set", "update"} {
		d, err := CreateRedactableJSONLeafData([]byte(`{"open": "yes", "closed": "topsecret"}`)); ok(t, err)
		_, err = s.MapSetValue(bg, &pb.MapSetValueRequest{Map: mapRef("m"), Mutation: &pb.MapMutation{Action: a, Key: []byte("k" + a), Value: d, PreviousLeafHash: nullLeafHash}}); ok(t, err)
	}
	filter = "open"
	r, err := s.LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: logRef("m", 1)}); ok(t, err)
	for _, v := range r.Values {
		if bytes.Contains(v.ExtraData, []byte("topsecret")) || bytes.Contains(v.ExtraData, []byte("dG9wc2VjcmV0")) { t.Fatal(string(v.ExtraData)) }
		var mm pb.MapMutation
		ok(t, jsonInto(v.ExtraData, &mm))
		if bytes.Contains(mm.Value.ExtraData, []byte("topsecret")) { t.Fatal(string(mm.Value.ExtraData)) }
	}
}
''', files={"x_json_test.go":'''package verifiable

import "encoding/json"

func jsonInto(b []byte, v interface{}) error { return json.Unmarshal(b, v) }
'''})
S["lock-refused-leak"]=dict(property="C36",
 needs="a lock on the namespace's table that the database refuses, such as by a lock timeout",
 breaks="the transaction stays open, with its connection, when the lock is refused; later operations find no connection",
 edits=[("storage/postgres/storage-postgres.go","	defer tx.Rollback(ctx)\n\n	// Only one update","	// Only one update"),("storage/postgres/storage-postgres.go","	err = f(ctx, &txWriter{\n","	defer tx.Rollback(ctx)\n\n	err = f(ctx, &txWriter{\n")],
 pkg="storage/postgres", test='package postgres\n\nimport (\n\t"context"\n\t"net"\n\t"strings"\n\t"sync"\n\t"sync/atomic"\n\t"testing"\n\t"time"\n\n\t"github.com/continusec/verifiabledatastructures/verifiable"\n\t"github.com/jackc/pgx/v5/pgproto3"\n\t"github.com/jackc/pgx/v5/pgxpool"\n)\n\n// A stand-in for a server that knows transactions and one table lock, which a session holds until\n// its transaction ends and can take again while it holds it.\ntype fakeServer struct {\n\tmu     sync.Mutex\n\tcond   *sync.Cond\n\tholder net.Conn\n\tlocks  int32\n}\n\nfunc (s *fakeServer) serve(c net.Conn) {\n\tdefer c.Close()\n\tb := pgproto3.NewBackend(c, c)\n\tif _, err := b.ReceiveStartupMessage(); err != nil {\n\t\treturn\n\t}\n\tb.Send(&pgproto3.AuthenticationOk{})\n\tb.Send(&pgproto3.BackendKeyData{ProcessID: 1, SecretKey: 1})\n\tb.Send(&pgproto3.ReadyForQuery{TxStatus: \'I\'})\n\tb.Flush()\n\tstatus := byte(\'I\')\n\tfor {\n\t\tm, err := b.Receive()\n\t\tif err != nil {\n\t\t\treturn\n\t\t}\n\t\tq, ok := m.(*pgproto3.Query)\n\t\tif !ok {\n\t\t\treturn\n\t\t}\n\t\tsql := strings.ToUpper(strings.TrimSpace(q.String))\n\t\tif strings.HasPrefix(sql, "LOCK") && atomic.AddInt32(&s.locks, 1) == 1 {\n\t\t\tstatus = \'E\'\n\t\t\tb.Send(&pgproto3.ErrorResponse{Severity: "ERROR", Code: "55P03", Message: "lock timeout"})\n\t\t\tb.Send(&pgproto3.ReadyForQuery{TxStatus: status})\n\t\t\tb.Flush()\n\t\t\tcontinue\n\t\t}\n\t\tswitch {\n\t\tcase strings.HasPrefix(sql, "BEGIN"):\n\t\t\tstatus = \'T\'\n\t\tcase strings.HasPrefix(sql, "COMMIT"), strings.HasPrefix(sql, "ROLLBACK"):\n\t\t\tstatus = \'I\'\n\t\t\ts.mu.Lock()\n\t\t\tif s.holder == c {\n\t\t\t\ts.holder = nil\n\t\t\t}\n\t\t\ts.cond.Broadcast()\n\t\t\ts.mu.Unlock()\n\t\tcase strings.HasPrefix(sql, "LOCK"):\n\t\t\ts.mu.Lock()\n\t\t\tfor s.holder != nil && s.holder != c {\n\t\t\t\ts.cond.Wait()\n\t\t\t}\n\t\t\ts.holder = c\n\t\t\ts.mu.Unlock()\n\t\t}\n\t\tb.Send(&pgproto3.CommandComplete{CommandTag: []byte(strings.Fields(sql)[0])})\n\t\tb.Send(&pgproto3.ReadyForQuery{TxStatus: status})\n\t\tb.Flush()\n\t}\n}\n\nfunc TestSeed(t *testing.T) {\n\tl, err := net.Listen("tcp", "127.0.0.1:0")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tdefer l.Close()\n\tsrv := &fakeServer{}\n\tsrv.cond = sync.NewCond(&srv.mu)\n\tgo func() {\n\t\tfor {\n\t\t\tc, err := l.Accept()\n\t\t\tif err != nil {\n\t\t\t\treturn\n\t\t\t}\n\t\t\tgo srv.serve(c)\n\t\t}\n\t}()\n\tctx, canc := context.WithTimeout(context.Background(), 20*time.Second)\n\tdefer canc()\n\tpool, err := pgxpool.New(ctx, "postgres://u@"+l.Addr().String()+"/d?sslmode=disable&pool_max_conns=1")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tst := &Storage{Pool: pool}\n\tf := func(context.Context, verifiable.KeyWriter) error { return nil }\n\tif err := st.ExecuteUpdate(ctx, []byte("ns"), f); err == nil {\n\t\tt.Fatal("the lock was refused")\n\t}\n\tif err := st.ExecuteUpdate(ctx, []byte("ns"), f); err != nil {\n\t\tt.Fatal(err)\n\t}\n}\n')
S["body-left-open"]=dict(property="C36",
 needs="a server that answers with an error status",
 breaks="the body of an answer with an error status is not closed, so the connection is lost to later requests",
 edits=[("server/httprest/client_http_rest.go","	defer resp.Body.Close()\n	contents, err","	if resp.StatusCode == http.StatusNotFound {\n		return nil, nil, status.Error(codes.NotFound, \"\")\n	}\n	defer resp.Body.Close()\n	contents, err")],
 pkg="server/httprest", test='''package httprest
import ("testing"; "context"; "io"; "net/http"; "strings"; "github.com/continusec/verifiabledatastructures/pb")
type seedBody struct { io.Reader; closed *int }
func (b *seedBody) Close() error { *b.closed++; return nil }
type seedTrip struct { status, closed int }
func (s *seedTrip) RoundTrip(r *http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: s.status, Header: http.Header{}, Request: r, Body: &seedBody{strings.NewReader("{}"), &s.closed}}, nil
}
func TestSeed(t *testing.T) {
	for _, st := range []int{200, 400, 401, 404, 500} {
		tr := &seedTrip{status: st}
		c := (&Client{BaseURL: "http://x", HTTPClient: &http.Client{Transport: tr}}).MustDial()
		c.LogTreeHash(context.Background(), &pb.LogTreeHashRequest{Log: &pb.LogRef{Account: &pb.AccountRef{Id: "1"}, Name: "l"}})
		if tr.closed == 0 { t.Fatal(st) }
	}
}
''')
S["entries-not-ended"]=dict(property="C36",
 needs="an audit that stops before the last entry",
 breaks="VerifyEntries leaves the goroutine that fetches entries waiting forever when the audit stops early",
 edits=[("verifiable/api_highlevel_log.go","	ourCtx, canc := context.WithCancel(ctx)\n	defer canc()\n	for entry := range log.Entries(ourCtx, idx","	for entry := range log.Entries(ctx, idx")],
 test='''package verifiable
import ("testing"; "context"; "runtime"; "time"; "github.com/continusec/verifiabledatastructures/pb")
func TestSeed(t *testing.T) {
	_, s := newSvc(nil)
	for _, v := range []string{"a", "b", "c"} { _, err := s.LogAddEntry(bg, &pb.LogAddEntryRequest{Log: logRef("l", 0), Value: leaf(v)}); ok(t, err) }
	l := account(s).VerifiableLog("l")
	h, err := l.TreeHead(bg, Head); ok(t, err)
	n := runtime.NumGoroutine()
	for i := 0; i < 20; i++ {
		l.VerifyEntries(bg, nil, h, func(ctx context.Context, i int64, e *pb.LeafData) error { return ErrVerificationFailed })
	}
	for i := 0; i < 100 && runtime.NumGoroutine() > n; i++ { time.Sleep(20 * time.Millisecond) }
	if runtime.NumGoroutine() > n+5 { t.Fatal(n, runtime.NumGoroutine()) }
}
''')
S["mutation-detached"]=dict(property="C37",
 needs="a caller whose context carries values or ends",
 breaks="the instant mutator's update runs under a context of its own, so the caller's end and values are lost",
 edits=[("mutator/instant/mutator_instant.go","	return m.Writer.ExecuteUpdate(ctx, ns,","	return m.Writer.ExecuteUpdate(context.Background(), ns,")],
 pkg="mutator/instant", test='''package instant
import ("testing"; "context"; "errors"; "github.com/continusec/verifiabledatastructures/verifiable"; "github.com/continusec/verifiabledatastructures/pb")
type seedKey struct{}
type seedWriter struct{ got interface{} }
func (w *seedWriter) ExecuteUpdate(ctx context.Context, ns []byte, f func(context.Context, verifiable.KeyWriter) error) error { w.got = ctx.Value(seedKey{}); return errors.New("stop") }
func (w *seedWriter) ExecuteReadOnly(ctx context.Context, ns []byte, f func(context.Context, verifiable.KeyReader) error) error { return nil }
func TestSeed(t *testing.T) {
	w := &seedWriter{}
	(&Mutator{Writer: w}).QueueMutation(context.WithValue(context.Background(), seedKey{}, 7), []byte("n"), &pb.Mutation{})
	if w.got != 7 { t.Fatal(w.got) }
}
''')
S["entries-own-context"]=dict(property="C37",
 needs="a caller of Entries whose context carries values, or ends during a request",
 breaks="Entries asks the server under a context of its own, so a request outlives the caller's context and lacks its values",
 edits=[("verifiable/api_highlevel_wrapper.go","		batchSize := int64(500)\n","		batchSize := int64(500)\n		fetchCtx := context.Background() // finish requests that have begun\n"),("verifiable/api_highlevel_wrapper.go","@1:			resp, err := g.Service.LogFetchEntries(ctx, &","			resp, err := g.Service.LogFetchEntries(fetchCtx, &")],
 test='''package verifiable
import ("testing"; "context"; "github.com/continusec/verifiabledatastructures/pb")
type seedKey struct{}
type seedSvc struct { pb.VerifiableDataStructuresServiceServer; t *testing.T }
func (f *seedSvc) LogFetchEntries(ctx context.Context, r *pb.LogFetchEntriesRequest) (*pb.LogFetchEntriesResponse, error) {
	if ctx.Value(seedKey{}) != 7 { f.t.Error("another context") }
	return f.VerifiableDataStructuresServiceServer.LogFetchEntries(ctx, r)
}
func TestSeed(t *testing.T) {
	_, s := newSvc(nil)
	_, err := s.LogAddEntry(bg, &pb.LogAddEntryRequest{Log: logRef("l", 0), Value: leaf("a")}); ok(t, err)
	for range account(&seedSvc{s, t}).VerifiableLog("l").Entries(context.WithValue(bg, seedKey{}, 7), 0, 1) {}
}
''')

BATCH='''package batch
import (
	"context"
	"fmt"
	"testing"
	"time"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/storage/memory"
	"github.com/continusec/verifiabledatastructures/verifiable"
)

type openAll struct{}

func (openAll) VerifyAllowed(ctx context.Context, account, apiKey, objectName string, permission pb.Permission) (*verifiable.AccessModifier, error) {
	return &verifiable.AccessModifier{FieldFilter: verifiable.AllFields}, nil
}

var _ = fmt.Sprint
'''
S["reused-node"]=dict(property="C38",
 needs="the batch mutator, two map keys whose paths share a prefix, and a read that goes through the rewritten ancestors",
 breaks="all ancestors of a map key are written from one record that is changed for each, and a writer that holds records until its batch is replayed writes the last state under every path",
 edits=[("verifiable/insertion_map.go",'''	for i := len(ancestors) - 1; i >= 0; i-- {
		if keyPath.At(uint(i)) {
			last = &pb.MapNode{
				LeftNumber:  ancestors[i].LeftNumber,
				LeftHash:    ancestors[i].LeftHash,
				RightNumber: mutationIndex + 1,
				RightHash:   curHash,
			}
		} else {
			last = &pb.MapNode{
				LeftNumber:  mutationIndex + 1,
				LeftHash:    curHash,
				RightNumber: ancestors[i].RightNumber,
				RightHash:   ancestors[i].RightHash,
			}
		}
''','''	last = &pb.MapNode{} // one record for all of them
	for i := len(ancestors) - 1; i >= 0; i-- {
		last.LeftNumber, last.LeftHash = ancestors[i].LeftNumber, ancestors[i].LeftHash
		last.RightNumber, last.RightHash = ancestors[i].RightNumber, ancestors[i].RightHash
		if keyPath.At(uint(i)) {
			last.RightNumber, last.RightHash = mutationIndex+1, curHash
		} else {
			last.LeftNumber, last.LeftHash = mutationIndex+1, curHash
		}
''')],
 pkg="mutator/batch", test=BATCH+'''
func TestSeedNodes(t *testing.T) {
	ctx := context.Background()
	db := &memory.TransientStorage{}
	svc := (&verifiable.Service{Mutator: (&Mutator{Writer: db, Timeout: 10 * time.Millisecond, BatchSize: 10, BufferSize: 100}).MustCreate(), AccessPolicy: openAll{}, Reader: db}).MustCreate()
	m := &pb.MapRef{Account: &pb.AccountRef{Id: "1"}, Name: "m"}
	for i := 0; i < 20; i++ {
		if _, err := svc.MapSetValue(ctx, &pb.MapSetValueRequest{Map: m, Mutation: &pb.MapMutation{Action: "set", Key: []byte(fmt.Sprint("k", i)), Value: &pb.LeafData{LeafInput: []byte(fmt.Sprint("v", i))}}}); err != nil {
			t.Fatal(err)
		}
	}
	for i := 0; i < 200; i++ {
		if r, err := svc.MapTreeHash(ctx, &pb.MapTreeHashRequest{Map: m}); err == nil && r.MutationLog.TreeSize == 20 {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	for i := 0; i < 20; i++ {
		r, err := svc.MapGetValue(ctx, &pb.MapGetValueRequest{Map: m, Key: []byte(fmt.Sprint("k", i))})
		if err != nil || string(r.Value.LeafInput) != fmt.Sprint("v", i) {
			t.Fatal(i, r, err)
		}
	}
}
''')
S["hash-buffer"]=dict(property="C38",
 needs="a writer that holds its records until a batch is replayed, and an entry that completes two subtrees at once (the fourth)",
 breaks="the hashes of the subtrees an entry completes are made in one buffer, so held records all get the last one's",
 edits=[("verifiable/insertion_log.go","	for zz, width := entryIndex","	var buf []byte\n	for zz, width := entryIndex"),
  ("verifiable/insertion_log.go","		parN := merkle.NodeHash(stack[len(stack)-2], stack[len(stack)-1])\n","		buf = append(buf[:0], merkle.NodeHash(stack[len(stack)-2], stack[len(stack)-1])...)\n		parN := buf\n")],
 pkg="mutator/batch", test=BATCH+'''
func TestSeedHashes(t *testing.T) {
	ctx := context.Background()
	db := &memory.TransientStorage{}
	svc := (&verifiable.Service{Mutator: (&Mutator{Writer: db, Timeout: 10 * time.Millisecond, BatchSize: 10, BufferSize: 100}).MustCreate(), AccessPolicy: openAll{}, Reader: db}).MustCreate()
	cl := (&verifiable.Client{Service: svc}).Account("1", "").VerifiableLog("l")
	var last verifiable.LogUpdatePromise
	for i := 0; i < 8; i++ {
		p, err := cl.Add(ctx, &pb.LeafData{LeafInput: []byte(fmt.Sprint(i))})
		if err != nil {
			t.Fatal(err)
		}
		last = p
	}
	c2, cancel := context.WithTimeout(ctx, 20*time.Second)
	defer cancel()
	head, err := last.Wait(c2)
	if err != nil {
		t.Fatal(err)
	}
	for head.TreeSize < 8 {
		time.Sleep(10 * time.Millisecond)
		if head, err = cl.TreeHead(ctx, verifiable.Head); err != nil {
			t.Fatal(err)
		}
	}
	for i := 0; i < 8; i++ {
		if err := cl.VerifyInclusion(ctx, head, []byte(verifiableLeaf(i))); err != nil {
			t.Fatal(i, err)
		}
	}
}
func verifiableLeaf(i int) []byte { return merkle.LeafHash([]byte(fmt.Sprint(i))) }
'''.replace("package batch","package batch"))
S["hash-buffer"]["test"]=S["hash-buffer"]["test"].replace('"testing"\n','"testing"\n',1).replace('	"github.com/continusec/verifiabledatastructures/pb"\n','	"github.com/continusec/verifiabledatastructures/merkle"\n	"github.com/continusec/verifiabledatastructures/pb"\n',1)
S["second-stamps"]=dict(property="C30",
 needs="the same mutation made again within a second, with another one of the key between (set a, set b, set a)",
 breaks="mutations are stamped to the second, so one made again soon after is dropped as a duplicate although it was acknowledged",
 edits=[("verifiable/service_map_set_value.go","time.RFC3339Nano","time.RFC3339")],
 test='''package verifiable
import (
	"testing"
	"github.com/continusec/verifiabledatastructures/pb"
)
func TestSeedStamp(t *testing.T) {
	_, s := newSvc(nil)
	for i := 0; i < 12; i++ {
		_, err := s.MapSetValue(bg, &pb.MapSetValueRequest{Map: mapRef("m"), Mutation: &pb.MapMutation{Action: "set", Key: []byte("k"), Value: leaf([]string{"a", "b"}[i%2])}}); ok(t, err)
	}
	r, err := s.MapTreeHash(bg, &pb.MapTreeHashRequest{Map: mapRef("m")}); ok(t, err)
	if r.MutationLog.TreeSize != 12 { t.Fatal(r) }
}
''')
S["stuck-page"]=dict(property="C39",
 needs="a server that answers a page of entries with none while more than a page is asked for",
 breaks="reading entries asks the same page again and again without end when it comes back empty, unless it is the last one",
 edits=[("verifiable/api_highlevel_wrapper.go","if !gotOne {","if !gotOne && end-start <= batchSize {")],
 test='''package verifiable
import (
	"testing"
	"time"
	"golang.org/x/net/context"
	"github.com/continusec/verifiabledatastructures/pb"
)
type emptyPages struct{ pb.VerifiableDataStructuresServiceServer }
func (emptyPages) LogFetchEntries(context.Context, *pb.LogFetchEntriesRequest) (*pb.LogFetchEntriesResponse, error) {
	time.Sleep(time.Millisecond)
	return &pb.LogFetchEntriesResponse{}, nil
}
func TestSeedPages(t *testing.T) {
	l := (&Client{Service: emptyPages{}}).Account("1", "").VerifiableLog("l")
	for _, n := range []int64{1, 500, 501, 5000} {
		done := make(chan bool)
		go func() { for range l.Entries(context.Background(), 0, n) {}; close(done) }()
		select {
		case <-done:
		case <-time.After(3 * time.Second): t.Fatal("no end", n)
		}
	}
}
''')
S["from-nothing"]=dict(property="C39",
 needs="a consistency proof that says it starts from size 0, with a head of size 0",
 breaks="verifying a consistency proof from size 0 shifts -1 right until its low bit is clear, and never returns",
 edits=[("verifiable/service_log_consistency_proof.go","	if self.FromSize < 1 {","	if self.FromSize < 0 {")],
 test='''package verifiable
import (
	"testing"
	"time"
	"github.com/continusec/verifiabledatastructures/pb"
)
func TestSeedFrom(t *testing.T) {
	done := make(chan bool)
	go func() {
		if VerifyLogConsistencyProof(&pb.LogConsistencyProofResponse{FromSize: 0, TreeSize: 3, AuditPath: [][]byte{make([]byte, 32)}}, &pb.LogTreeHashResponse{RootHash: make([]byte, 32)}, &pb.LogTreeHashResponse{TreeSize: 3, RootHash: make([]byte, 32)}) == nil { t.Error("accepted") }
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(3 * time.Second): t.Fatal("no end")
	}
}
''')
S["recreate-locked"]=dict(property="C40",
 needs="a database file that cannot be opened when it is first used: locked by another process for more than a second, or damaged",
 breaks="a database that cannot be opened is removed and made anew, with everything that was acknowledged in it",
 edits=[("storage/bolt/storage_bolt.go","""	if err != nil {
		return nil, err
	}
	bbs.dbs[key] = db
""","""	if err != nil { // left behind half-made
		if os.Remove(filepath.Join(bbs.Path, key)) != nil {
			return nil, err
		}
		if db, err = bolt.Open(filepath.Join(bbs.Path, key), 0600, nil); err != nil {
			return nil, err
		}
	}
	bbs.dbs[key] = db
"""),("storage/bolt/storage_bolt.go",'	"encoding/hex"\n','	"encoding/hex"\n	"os"\n')],
 pkg="storage/bolt", test='''package bolt
import (
	"context"
	"testing"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
)
func TestSeedRecreate(t *testing.T) {
	dir := t.TempDir()
	ctx := context.Background()
	a := &Storage{Path: dir}
	set := func(ctx context.Context, kw verifiable.KeyWriter) error { return kw.Set(ctx, []byte("k"), &pb.LeafNode{Mth: []byte("v")}) }
	get := func(ctx context.Context, kr verifiable.KeyReader) error { return kr.Get(ctx, []byte("k"), &pb.LeafNode{}) }
	if err := a.ExecuteUpdate(ctx, []byte("ns"), set); err != nil { t.Fatal(err) }
	b := &Storage{Path: dir}
	b.ExecuteReadOnly(ctx, []byte("ns"), get) // while a has it open: an error
	b.Close()
	a.Close()
	c := &Storage{Path: dir}
	defer c.Close()
	if err := c.ExecuteReadOnly(ctx, []byte("ns"), get); err != nil { t.Fatal("lost:", err) }
}
''')
S["file-by-order"]=dict(property="C40",
 needs="two logs or maps, a restart, and the second one used first after it",
 breaks="the file a log is kept in depends on how many were opened before it, so after a restart it is not found",
 edits=[("storage/bolt/storage_bolt.go","bolt.Open(filepath.Join(bbs.Path, key),","bolt.Open(filepath.Join(bbs.Path, fmt.Sprintf(\"%d-%s\", len(bbs.dbs), key)),"),("storage/bolt/storage_bolt.go",'	"encoding/hex"\n','	"encoding/hex"\n	"fmt"\n')],
 pkg="storage/bolt", test='''package bolt
import (
	"context"
	"testing"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
)
func TestSeedOrder(t *testing.T) {
	dir := t.TempDir()
	ctx := context.Background()
	set := func(ctx context.Context, kw verifiable.KeyWriter) error { return kw.Set(ctx, []byte("k"), &pb.LeafNode{Mth: []byte("v")}) }
	get := func(ctx context.Context, kr verifiable.KeyReader) error { return kr.Get(ctx, []byte("k"), &pb.LeafNode{}) }
	a := &Storage{Path: dir}
	for _, ns := range []string{"a", "b"} {
		if err := a.ExecuteUpdate(ctx, []byte(ns), set); err != nil { t.Fatal(err) }
	}
	a.Close()
	c := &Storage{Path: dir}
	defer c.Close()
	for _, ns := range []string{"b", "a"} {
		if err := c.ExecuteReadOnly(ctx, []byte(ns), get); err != nil { t.Fatal("lost:", ns, err) }
	}
}
''')
S["format-of-value"]=dict(property="C04",
 needs="a mutation log entry whose contained value is not JSON, e.g. a raw value or a delete",
 breaks="entries of the mutation log come with the format of the value they contain instead of the format stored",
 edits=[("verifiable/service_log_fetch_entries.go","					Format:    v.Format,\n","					Format:    mm.Value.GetFormat(),\n")],
 test='''package verifiable
import ("testing"; "github.com/continusec/verifiabledatastructures/pb")
func TestSeed(t *testing.T) {
	_, s := newSvc(nil)
	_, err := s.MapSetValue(bg, &pb.MapSetValueRequest{Map: mapRef("m"), Mutation: &pb.MapMutation{Action: "set", Key: []byte("k"), Value: leaf("v")}}); ok(t, err)
	r, err := s.LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: mapForMutationSeed(), First: 0, Last: 1}); ok(t, err)
	if r.Values[0].Format != pb.DataFormat_JSON { t.Fatal("format", r.Values[0].Format) }
}
func mapForMutationSeed() *pb.LogRef {
	m := mapRef("m")
	return &pb.LogRef{Account: m.Account, Name: m.Name, LogType: pb.LogType_STRUCT_TYPE_MUTATION_LOG}
}
''')
