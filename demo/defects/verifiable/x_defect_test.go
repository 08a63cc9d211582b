package verifiable

import (
	"context"
	"errors"
	"testing"
	"time"

	"github.com/continusec/verifiabledatastructures/merkle"
	"github.com/continusec/verifiabledatastructures/pb"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

type open struct{ filter string }

func (o open) VerifyAllowed(ctx context.Context, account, apiKey, objectName string, p pb.Permission) (*AccessModifier, error) {
	return &AccessModifier{FieldFilter: o.filter}, nil
}

type mem struct {
	data map[string][]byte
	fail error // any read fails with this
}

func (m *mem) Get(ctx context.Context, key []byte, v proto.Message) error {
	if m.fail != nil {
		return m.fail
	}
	b, ok := m.data[string(key)]
	if !ok {
		return ErrNoSuchKey
	}
	return proto.Unmarshal(b, v)
}
func (m *mem) Set(ctx context.Context, key []byte, v proto.Message) error {
	b, err := proto.Marshal(v)
	m.data[string(key)] = b
	return err
}
func (m *mem) ExecuteReadOnly(ctx context.Context, ns []byte, f func(ctx context.Context, db KeyReader) error) error {
	return f(ctx, m)
}
func (m *mem) QueueMutation(ctx context.Context, ns []byte, mut *pb.Mutation) error {
	n, err := ReadObjectSize(ctx, m)
	if err != nil {
		return err
	}
	n, err = ApplyMutation(ctx, m, n, mut)
	if err != nil {
		return err
	}
	return WriteObjectSize(ctx, m, n)
}

func svc(filter string) (*mem, *Map, *Log) {
	m := &mem{data: map[string][]byte{}}
	acc := (&Client{Service: (&Service{Mutator: m, Reader: m, AccessPolicy: open{filter}}).MustCreate()}).Account("0", "")
	return m, acc.VerifiableMap("m"), acc.VerifiableLog("l")
}

func TestMapTreeHashError(t *testing.T) {
	m, vmap, _ := svc("*")
	m.fail = errors.New("disk")
	h, err := vmap.TreeHead(context.Background(), 0)
	if err == nil {
		t.Fatal(h, err)
	}
	m.fail = nil
	h, err = vmap.TreeHead(context.Background(), 0)
	if err != nil || h == nil {
		t.Fatal(h, err)
	}
}

func TestMapProofLength(t *testing.T) {
	if VerifyMapInclusionProof(&pb.MapGetValueResponse{TreeSize: 1}, nil, &pb.MapTreeHashResponse{MutationLog: &pb.LogTreeHashResponse{TreeSize: 1}}) == nil {
		t.Fatal()
	}
}

func TestMapProofNoHead(t *testing.T) {
	if VerifyMapInclusionProof(&pb.MapGetValueResponse{TreeSize: 1}, nil, &pb.MapTreeHashResponse{}) == nil {
		t.Fatal()
	}
}

func ld(s string) *pb.LeafData { return &pb.LeafData{LeafInput: []byte(s)} }

func TestAuditChanges(t *testing.T) {
	ctx := context.Background()
	_, vmap, _ := svc("*")
	for _, v := range []string{"a", "a", "b"} {
		if _, err := vmap.Set(ctx, []byte("k"), ld(v)); err != nil {
			t.Fatal(err)
		}
	}
	st, err := vmap.VerifiedLatestMapState(ctx, nil)
	if err != nil {
		t.Fatal(err)
	}
	var got []int64
	err = vmap.VerifyMap(ctx, nil, st, nil, func(ctx context.Context, idx int64, key []byte, v *pb.LeafData) error {
		got = append(got, idx)
		return nil
	})
	if err != nil || len(got) != 2 || got[0] != 0 || got[1] != 2 {
		t.Fatal(got, err)
	}
}

type countProofs struct {
	pb.VerifiableDataStructuresServiceServer
	heads int
}

func (c *countProofs) LogTreeHash(ctx context.Context, r *pb.LogTreeHashRequest) (*pb.LogTreeHashResponse, error) {
	c.heads++
	return c.VerifiableDataStructuresServiceServer.LogTreeHash(ctx, r)
}

func TestShortcut(t *testing.T) {
	ctx := context.Background()
	_, vmap, _ := svc("*")
	for _, v := range []string{"a", "b"} {
		if _, err := vmap.Set(ctx, []byte("k"), ld(v)); err != nil {
			t.Fatal(err)
		}
	}
	c := &countProofs{VerifiableDataStructuresServiceServer: vmap.Service}
	vmap.Service = c
	st, err := vmap.VerifiedLatestMapState(ctx, nil)
	if err != nil {
		t.Fatal(err)
	}
	c.heads = 0
	if _, err = vmap.VerifiedMapState(ctx, st, 1); err != nil || c.heads != 0 {
		t.Fatal(err, c.heads)
	}
}

func TestNilMessages(t *testing.T) {
	ctx := context.Background()
	_, vmap, log := svc("*")
	s := vmap.Service
	for i, f := range []func() error{
		func() error { _, err := s.LogAddEntry(ctx, &pb.LogAddEntryRequest{}); return err },
		func() error {
			_, err := s.LogTreeHash(ctx, &pb.LogTreeHashRequest{Log: &pb.LogRef{LogType: 1}})
			return err
		},
		func() error { _, err := s.LogAddEntry(ctx, &pb.LogAddEntryRequest{Log: log.Log}); return err },
		func() error { _, err := s.MapTreeHash(ctx, &pb.MapTreeHashRequest{}); return err },
		func() error { _, err := s.MapGetValue(ctx, &pb.MapGetValueRequest{Map: &pb.MapRef{}}); return err },
		func() error { _, err := s.MapSetValue(ctx, &pb.MapSetValueRequest{Map: vmap.Map}); return err },
	} {
		func() {
			defer func() {
				if r := recover(); r != nil {
					t.Error(i, r)
				}
			}()
			if f() == nil {
				t.Error(i)
			}
		}()
	}
	// a set with no value
	if _, err := vmap.Set(ctx, []byte("k"), nil); err != nil {
		t.Error(err)
	}
}

func TestUnknownAction(t *testing.T) {
	ctx := context.Background()
	_, vmap, _ := svc("*")
	_, err := vmap.Service.MapSetValue(ctx, &pb.MapSetValueRequest{Map: vmap.Map, Mutation: &pb.MapMutation{Action: "zap"}})
	if status.Code(err) != codes.InvalidArgument {
		t.Fatal(err)
	}
}

func TestFilteredDelete(t *testing.T) {
	ctx := context.Background()
	_, vmap, _ := svc("a")
	if _, err := vmap.Delete(ctx, []byte("k")); err != nil {
		t.Fatal(err)
	}
	if _, err := vmap.MutationLog().Entry(ctx, 0); err != nil {
		t.Fatal(err)
	}
}

func TestReadonly(t *testing.T) {
	ctx := context.Background()
	m := &mem{data: map[string][]byte{}}
	acc := (&Client{Service: (&Service{Reader: m, AccessPolicy: open{"*"}}).MustCreate()}).Account("0", "")
	if _, err := acc.VerifiableLog("l").Add(ctx, ld("x")); err == nil {
		t.Fatal()
	}
}

func TestReadonlyMap(t *testing.T) {
	ctx := context.Background()
	m := &mem{data: map[string][]byte{}}
	acc := (&Client{Service: (&Service{Reader: m, AccessPolicy: open{"*"}}).MustCreate()}).Account("0", "")
	if _, err := acc.VerifiableMap("l").Set(ctx, nil, ld("x")); err == nil {
		t.Fatal()
	}
}

func TestAuditNulls(t *testing.T) {
	ctx := context.Background()
	for i, f := range []func() error{
		func() error { return ValidateJSONLeafData(ctx, nil) },
		func() error { return ValidateJSONLeafDataFromMutation(nil) },
		func() error { return ValidateJSONLeafDataFromMutation(&pb.LeafData{ExtraData: []byte("null")}) },
		func() error {
			e, _ := CreateJSONLeafData([]byte("{}"))
			return (&auditState{}).CheckTreeHeadEntry(ctx, 0, e)
		},
		func() error {
			e, _ := CreateJSONLeafData([]byte(`{"mutation_log":{}}`))
			return (&auditState{}).CheckTreeHeadEntry(ctx, 0, e)
		},
	} {
		func() {
			defer func() {
				if r := recover(); r != nil {
					t.Error(i, r)
				}
			}()
			if f() == nil {
				t.Error(i)
			}
		}()
	}
	if _, err := addMutationToTree(&mapAuditNode{}, &pb.MapMutation{Action: "set"}); err != nil {
		t.Error(err)
	}
}

// a legitimate map with a delete, audited with the standard validator
func TestAuditDelete(t *testing.T) {
	ctx := context.Background()
	_, vmap, _ := svc("*")
	e, _ := CreateJSONLeafData([]byte(`{"a":1}`))
	if _, err := vmap.Set(ctx, []byte("k"), e); err != nil {
		t.Fatal(err)
	}
	if _, err := vmap.Delete(ctx, []byte("k")); err != nil {
		t.Fatal(err)
	}
	st, err := vmap.VerifiedLatestMapState(ctx, nil)
	if err != nil {
		t.Fatal(err)
	}
	if err = vmap.VerifyMap(ctx, nil, st, ValidateJSONLeafData, nil); err != nil {
		t.Fatal(err)
	}
}

type evil struct {
	pb.VerifiableDataStructuresServiceServer
	proof *pb.LogInclusionProofResponse
}

func (e *evil) LogInclusionProof(context.Context, *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) {
	return e.proof, nil
}
func (e *evil) LogFetchEntries(context.Context, *pb.LogFetchEntriesRequest) (*pb.LogFetchEntriesResponse, error) {
	return &pb.LogFetchEntriesResponse{Values: []*pb.LeafData{ld("x")}}, nil
}
func (e *evil) MapTreeHash(context.Context, *pb.MapTreeHashRequest) (*pb.MapTreeHashResponse, error) {
	return &pb.MapTreeHashResponse{}, nil
}

func TestStackUnderflow(t *testing.T) {
	root := merkle.LeafHash(nil)
	l := &Log{Service: &evil{proof: &pb.LogInclusionProofResponse{AuditPath: [][]byte{root}}}}
	if l.VerifyEntries(context.Background(), &pb.LogTreeHashResponse{TreeSize: 3, RootHash: root}, &pb.LogTreeHashResponse{TreeSize: 4, RootHash: root}, nil) == nil {
		t.Fatal()
	}
}

func TestBlockUntilSizeNoLog(t *testing.T) {
	if _, err := (&Map{Service: &evil{}}).BlockUntilSize(context.Background(), 0); err != nil {
		t.Fatal(err)
	}
}

func TestUnknownLeaf(t *testing.T) {
	ctx := context.Background()
	_, _, log := svc("*")
	if _, err := log.Add(ctx, ld("a")); err != nil {
		t.Fatal(err)
	}
	if _, err := log.InclusionProof(ctx, 0, merkle.LeafHash([]byte("b"))); status.Code(err) != codes.NotFound {
		t.Fatal(err)
	}
}

// Redactable leaf data must pass the validator auditors use, also when a value
// looks like an already redacted one.
func TestRedactableLeafDataValidates(t *testing.T) {
	ld, err := CreateRedactableJSONLeafData([]byte(`{"a":"***REDACTED*** Hash: 0000000000000000000000000000000000000000000000000000000000000000"}`))
	if err != nil {
		t.Skip("rejected")
	}
	if err := ValidateJSONLeafData(context.Background(), ld); err != nil {
		t.Fatal(err)
	}
}

// A path longer than the tree is deep is not a proof.
func TestOverlongInclusionProof(t *testing.T) {
	a, b := merkle.LeafHash([]byte("a")), merkle.LeafHash([]byte("b"))
	if VerifyLogInclusionProof(&pb.LogInclusionProofResponse{TreeSize: 1, AuditPath: [][]byte{a}}, b, &pb.LogTreeHashResponse{TreeSize: 1, RootHash: merkle.NodeHash(a, b)}) == nil {
		t.Fatal()
	}
}

type splitStart struct {
	pb.UnimplementedVerifiableDataStructuresServiceServer
	leaves [][]byte
}

func (e *splitStart) LogInclusionProof(context.Context, *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) {
	return &pb.LogInclusionProofResponse{TreeSize: 3, LeafIndex: 2, AuditPath: [][]byte{merkle.LeafHash(e.leaves[1]), merkle.LeafHash(e.leaves[0])}}, nil
}
func (e *splitStart) LogFetchEntries(_ context.Context, r *pb.LogFetchEntriesRequest) (*pb.LogFetchEntriesResponse, error) {
	return &pb.LogFetchEntriesResponse{Values: []*pb.LeafData{{LeafInput: e.leaves[2]}}}, nil
}

// An auditor that starts from a tree of two entries must not take up its two leaves
// as if they were the roots of two full subtrees.
func TestSplitStart(t *testing.T) {
	e := &splitStart{leaves: [][]byte{{1}, {2}, {3}}}
	l := &Log{Service: e}
	h := func(i int) []byte { return merkle.LeafHash(e.leaves[i]) }
	prev := &pb.LogTreeHashResponse{TreeSize: 2, RootHash: merkle.NodeHash(h(0), h(1))}
	bad := &pb.LogTreeHashResponse{TreeSize: 3, RootHash: merkle.NodeHash(h(0), merkle.NodeHash(h(1), h(2)))}
	if l.VerifyEntries(context.Background(), prev, bad, nil) == nil {
		t.Fatal("a head that no log of three entries has was accepted")
	}
}

// Nodes of the starting path that are not hashes must be refused, too: an empty one
// is skipped by the fold but not by what follows.
func TestBlankStart(t *testing.T) {
	e := &blankStart{leaves: [][]byte{{1}, {2}, {3}, {4}}}
	l := &Log{Service: e}
	h := func(i int) []byte { return merkle.LeafHash(e.leaves[i]) }
	e.root = merkle.NodeHash(merkle.NodeHash(h(0), h(1)), h(2))
	prev := &pb.LogTreeHashResponse{TreeSize: 3, RootHash: e.root}
	bad := &pb.LogTreeHashResponse{TreeSize: 4, RootHash: merkle.NodeHash(e.root, merkle.NodeHash(nil, h(3)))}
	if l.VerifyEntries(context.Background(), prev, bad, nil) == nil {
		t.Fatal("a head that no log of four entries has was accepted")
	}
}

type blankStart struct {
	pb.UnimplementedVerifiableDataStructuresServiceServer
	leaves [][]byte
	root   []byte
}

func (e *blankStart) LogInclusionProof(context.Context, *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) {
	return &pb.LogInclusionProofResponse{TreeSize: 4, LeafIndex: 3, AuditPath: [][]byte{nil, e.root}}, nil
}
func (e *blankStart) LogFetchEntries(_ context.Context, r *pb.LogFetchEntriesRequest) (*pb.LogFetchEntriesResponse, error) {
	return &pb.LogFetchEntriesResponse{Values: []*pb.LeafData{{LeafInput: e.leaves[3]}}}, nil
}

// The bytes of two adjacent hashes, split elsewhere, must not pass as nodes of a
// consistency proof: here the third entry of the earlier tree is not in the later one.
func TestConsistencyNodeLength(t *testing.T) {
	h := func(i byte) []byte { return merkle.LeafHash([]byte{i}) }
	a, b := merkle.NodeHash(h(0), h(1)), h(2)
	first := &pb.LogTreeHashResponse{TreeSize: 3, RootHash: merkle.NodeHash(a, b)}
	c, x := a[:31], append([]byte{a[31]}, b...)
	d := []byte("whatever")
	second := &pb.LogTreeHashResponse{TreeSize: 4, RootHash: merkle.NodeHash(c, merkle.NodeHash(x, d))}
	if VerifyLogConsistencyProof(&pb.LogConsistencyProofResponse{FromSize: 3, TreeSize: 4, AuditPath: [][]byte{x, d, c}}, first, second) == nil {
		t.Fatal("accepted a later tree without the earlier one's entries")
	}
}

func TestHugeTreeSize(t *testing.T) {
	done := make(chan error)
	go func() {
		h := make([]byte, 32)
		done <- VerifyLogConsistencyProof(&pb.LogConsistencyProofResponse{FromSize: 1 << 62, TreeSize: 1<<62 + 1, AuditPath: [][]byte{h}},
			&pb.LogTreeHashResponse{TreeSize: 1 << 62, RootHash: h}, &pb.LogTreeHashResponse{TreeSize: 1<<62 + 1, RootHash: h})
	}()
	select {
	case err := <-done:
		if err == nil {
			t.Fatal("accepted")
		}
	case <-time.After(5 * time.Second):
		t.Fatal("the verifier does not return")
	}
}
