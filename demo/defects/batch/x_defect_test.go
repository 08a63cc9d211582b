package batch

import (
	"context"
	"testing"
	"time"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/storage/memory"
	"github.com/continusec/verifiabledatastructures/verifiable"
)

func TestTwoNamespaces(t *testing.T) {
	ctx := context.Background()
	db := &memory.TransientStorage{}
	bm := &batchMutatorImpl{Conf: &Mutator{Writer: db, Timeout: 20 * time.Millisecond, BatchSize: 10}, Ch: make(chan *chObject, 10)}
	for _, ns := range []string{"a", "b"} {
		bm.QueueMutation(ctx, []byte(ns), &pb.Mutation{LogAddEntry: &pb.LogAddEntryRequest{
			Log: &pb.LogRef{LogType: pb.LogType_STRUCT_TYPE_LOG}, Value: &pb.LeafData{LeafInput: []byte(ns)}}})
	}
	go bm.consume()
	time.Sleep(500 * time.Millisecond)
	close(bm.Ch)
	for _, ns := range []string{"a", "b"} {
		db.ExecuteReadOnly(ctx, []byte(ns), func(ctx context.Context, kr verifiable.KeyReader) error {
			n, err := verifiable.ReadObjectSize(ctx, kr)
			if n != 1 || err != nil {
				t.Error(ns, n, err)
			}
			return nil
		})
	}
}

func TestDelete(t *testing.T) {
	m := &mapNoLockDB{M: map[string][]byte{}}
	m.Set(context.Background(), []byte("k"), nil)
	if err := m.Get(context.Background(), []byte("k"), &pb.LeafData{}); err != verifiable.ErrNoSuchKey {
		t.Fatal(err)
	}
}

func TestReusedRequest(t *testing.T) {
	ctx := context.Background()
	db := &memory.TransientStorage{}
	bm := &batchMutatorImpl{Conf: &Mutator{Writer: db, Timeout: 20 * time.Millisecond, BatchSize: 10}, Ch: make(chan *chObject, 10)}
	buf := []byte("one")
	req := &pb.LogAddEntryRequest{Log: &pb.LogRef{LogType: pb.LogType_STRUCT_TYPE_LOG}, Value: &pb.LeafData{LeafInput: buf}}
	for _, s := range []string{"one", "two"} { // as with a bufio.Scanner's Bytes
		copy(buf, s)
		bm.QueueMutation(ctx, []byte("a"), &pb.Mutation{LogAddEntry: req})
	}
	go bm.consume()
	time.Sleep(500 * time.Millisecond)
	close(bm.Ch)
	db.ExecuteReadOnly(ctx, []byte("a"), func(ctx context.Context, kr verifiable.KeyReader) error {
		n, err := verifiable.ReadObjectSize(ctx, kr)
		if n != 2 || err != nil {
			t.Error("entries:", n, err)
		}
		return nil
	})
}
