package httprest

import (
	"context"
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/continusec/verifiabledatastructures/pb"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

func TestNegative(t *testing.T) {
	h := http.Header{}
	h.Add("X-Verified-Proof", "-1/00")
	parseHeadersForProof(h)
}

type rec struct {
	pb.UnimplementedVerifiableDataStructuresServiceServer
	got *pb.MapSetValueRequest
}

func (r *rec) MapSetValue(ctx context.Context, q *pb.MapSetValueRequest) (*pb.MapSetValueResponse, error) {
	r.got = q
	return &pb.MapSetValueResponse{}, nil
}

func TestEmptyPrevious(t *testing.T) {
	r := &rec{}
	s := httptest.NewServer(CreateRESTHandler(r, nil, nil))
	defer s.Close()
	c := (&Client{BaseURL: s.URL}).MustDial()
	_, err := c.MapSetValue(context.Background(), &pb.MapSetValueRequest{Map: &pb.MapRef{Account: &pb.AccountRef{Id: "0"}, Name: "m"},
		Mutation: &pb.MapMutation{Action: "update", Key: []byte("k"), Value: &pb.LeafData{}}})
	if err != nil || r.got.Mutation.Action != "update" {
		t.Fatal(err, r.got)
	}
}

func TestMalformed(t *testing.T) {
	s := httptest.NewServer(CreateRESTHandler(&rec{}, nil, nil))
	defer s.Close()
	c := (&Client{BaseURL: s.URL}).MustDial()
	// does not fit an int
	req, _ := http.NewRequest("GET", s.URL+"/v2/account/0/log/l/tree/99999999999999999999", nil)
	resp, err := http.DefaultClient.Do(req)
	if err != nil || resp.StatusCode != 400 {
		t.Fatal(err, resp.StatusCode)
	}
	_ = c
	_, _ = codes.OK, status.Code
}
