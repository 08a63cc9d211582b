S["policy-trimmed-name"]=dict(property="C01",
 needs="a log whose name has surrounding white space",
 breaks="the policy is consulted for the trimmed name while the untrimmed log is touched",
 edits=[("verifiable/util_permissions.go","	return s.AccessPolicy.VerifyAllowed(ctx, log.Account.Id, log.Account.ApiKey, log.Name, perm)","	return s.AccessPolicy.VerifyAllowed(ctx, log.Account.Id, log.Account.ApiKey, strings.TrimSpace(log.Name), perm)"),
  ("verifiable/util_permissions.go",'	"encoding/json"\n','	"encoding/json"\n	"strings"\n')],
 test='''package verifiable
import ("testing"; "github.com/continusec/verifiabledatastructures/pb")
func TestSeed(t *testing.T) {
	var asked []string
	_, s := newSvc(func(a, k, n string, p pb.Permission) (*AccessModifier, error) {
		asked = append(asked, n)
		if n == "a" { return openPolicy(a, k, n, p) }
		return nil, ErrNotAuthorized
	})
	_, err := s.LogAddEntry(bg, &pb.LogAddEntryRequest{Log: logRef("a ", 0), Value: leaf("x")})
	if err == nil { t.Fatal("added to a log nobody granted", asked) }
}
''')
S["treehead-entry-permission"]=dict(property="C02",
 needs="a caller with mutation-read-hash but not mutation-read-entry fetching the tree head log",
 breaks="fetching tree head log entries demands another permission than documented",
 edits=[("verifiable/util_permissions.go","			operationReadEntry:      pb.Permission_PERM_MAP_MUTATION_READ_HASH","			operationReadEntry:      pb.Permission_PERM_LOG_READ_ENTRY")],
 test='''package verifiable
import ("testing"; "github.com/continusec/verifiabledatastructures/pb")
func TestSeed(t *testing.T) {
	_, s := newSvc(func(a, k, n string, p pb.Permission) (*AccessModifier, error) {
		if p == pb.Permission_PERM_MAP_SET_VALUE || p == pb.Permission_PERM_LOG_READ_ENTRY { return openPolicy(a, k, n, p) }
		return nil, ErrNotAuthorized
	})
	_, err := s.MapSetValue(bg, &pb.MapSetValueRequest{Map: mapRef("m"), Mutation: &pb.MapMutation{Action: "set", Key: []byte("k"), Value: leaf("v")}})
	ok(t, err)
	_, err = s.LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: logRef("m", 2), Last: 1})
	if err == nil { t.Fatal("read of the tree head log granted by a user log permission") }
}
''')
S["map-get-unpublished"]=dict(property="C13",
 needs="map nodes of an unpublished mutation left in storage and a request for exactly that size",
 breaks="a map value of a tree size that was never published is served",
 edits=[("verifiable/service_map_get_value.go","		if treeSize > th.TreeSize {","		if treeSize > th.TreeSize+1 {")],
 test='''package verifiable
import ("testing"; "github.com/continusec/verifiabledatastructures/pb")
func TestSeed(t *testing.T) {
	m, s := newSvc(nil)
	set := func(v string) {
		_, err := s.MapSetValue(bg, &pb.MapSetValueRequest{Map: mapRef("m"), Mutation: &pb.MapMutation{Action: "set", Key: []byte("k"), Value: leaf(v)}})
		ok(t, err)
	}
	set("1"); set("2")
	ns, _ := mapBucket(mapRef("m"))
	ok(t, WriteObjectSize(bg, m.space(ns), 1)) // mutation 2 was never published
	r, err := s.MapGetValue(bg, &pb.MapGetValueRequest{Map: mapRef("m"), Key: []byte("k"), TreeSize: 2})
	if err == nil { t.Fatal("served", r.Value) }
}
''')
S["fetch-first-beyond-last"]=dict(property="C22",
 needs="a fetch whose first index lies above its last, both within the log",
 breaks="the server panics with a negative slice length",
 edits=[("verifiable/service_log_fetch_entries.go","		if last > head.TreeSize || req.First >= last {","		if last > head.TreeSize || req.First >= head.TreeSize {")],
 test='''package verifiable
import ("testing"; "github.com/continusec/verifiabledatastructures/pb")
func TestSeed(t *testing.T) {
	_, s := newSvc(nil)
	for _, x := range []string{"a", "b", "c"} {
		_, err := s.LogAddEntry(bg, &pb.LogAddEntryRequest{Log: logRef("l", 0), Value: leaf(x)})
		ok(t, err)
	}
	_, err := s.LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: logRef("l", 0), First: 2, Last: 1})
	if err == nil { t.Fatal("no error") }
}
''')
S["validator-prefix"]=dict(property="C29",
 needs="an entry whose leaf input is a proper prefix of (or empty instead of) the object hash",
 breaks="the validator accepts an entry whose leaf input is not the hash of its data",
 edits=[("verifiable/util_json.go","@1:	if !bytes.Equal(entry.LeafInput, h) {","	if !bytes.HasPrefix(h, entry.LeafInput) {")],
 test='''package verifiable
import ("testing"; "github.com/continusec/verifiabledatastructures/pb")
func TestSeed(t *testing.T) {
	d, err := CreateJSONLeafData([]byte(`{"a": "b"}`))
	ok(t, err)
	ok(t, ValidateJSONLeafData(bg, d))
	if ValidateJSONLeafData(bg, &pb.LeafData{LeafInput: d.LeafInput[:8], ExtraData: d.ExtraData}) == nil { t.Fatal("accepted") }
}
''')
S["set-previous-dropped"]=dict(property="C30",
 needs="a set mutation that carries a previous leaf hash",
 breaks="the mutation queued is not the caller's: the previous leaf hash is dropped",
 edits=[("verifiable/service_map_set_value.go","	rv.Timestamp = time.Now().Format(time.RFC3339Nano)","	if rv.Action == \"set\" {\n\t\trv.PreviousLeafHash = nil // only meaningful for update\n\t}\n\trv.Timestamp = time.Now().Format(time.RFC3339Nano)")],
 test='''package verifiable
import ("testing"; "encoding/json"; "github.com/continusec/verifiabledatastructures/pb")
func TestSeed(t *testing.T) {
	m, s := newSvc(nil)
	_, err := s.MapSetValue(bg, &pb.MapSetValueRequest{Map: mapRef("m"), Mutation: &pb.MapMutation{Action: "set", Key: []byte("k"), Value: leaf("v"), PreviousLeafHash: []byte("prev")}})
	ok(t, err)
	var mm pb.MapMutation
	ok(t, json.Unmarshal(m.queued[0].LogAddEntry.Value.ExtraData, &mm))
	if string(mm.PreviousLeafHash) != "prev" { t.Fatal("lost") }
}
''')
