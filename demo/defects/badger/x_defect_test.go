package badger

import (
	"context"
	"testing"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
)

func TestErr(t *testing.T) {
	s := &Storage{Path: t.TempDir()}
	defer s.Close()
	err := s.ExecuteReadOnly(context.Background(), []byte("x"), func(ctx context.Context, kr verifiable.KeyReader) error {
		return kr.Get(ctx, nil, &pb.LeafData{}) // not a valid key, so badger fails
	})
	if err == nil || err == verifiable.ErrNoSuchKey {
		t.Fatal(err)
	}
}
