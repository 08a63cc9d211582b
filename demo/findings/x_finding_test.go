package verifiable

import (
	"testing"

	"github.com/continusec/verifiabledatastructures/pb"
)

// A map value whose leaf input is that of an earlier mutation replaces the data
// of that mutation's log entry: both are kept in mutation_data/ under the leaf hash.
func TestFindingMapValueReplacesMutationLogEntry(t *testing.T) {
	_, s := newSvc(nil)
	set := func(key string, v *pb.LeafData) {
		_, err := s.MapSetValue(bg, &pb.MapSetValueRequest{Map: mapRef("m"), Mutation: &pb.MapMutation{Action: "set", Key: []byte(key), Value: v}})
		ok(t, err)
	}
	entry := func() *pb.LeafData {
		r, err := s.LogFetchEntries(bg, &pb.LogFetchEntriesRequest{Log: logRef("m", pb.LogType_STRUCT_TYPE_MUTATION_LOG), First: 0, Last: 1})
		ok(t, err)
		return r.Values[0]
	}
	set("k", leaf("v"))
	before := entry()
	set("other", &pb.LeafData{LeafInput: before.LeafInput, ExtraData: []byte("{}")})
	if after := entry(); string(after.ExtraData) != string(before.ExtraData) {
		t.Fatalf("mutation log entry 0 changed from %s to %s", before.ExtraData, after.ExtraData)
	}
}
