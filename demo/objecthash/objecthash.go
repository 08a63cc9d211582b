// Package objecthash is a small stand-in with the behaviour of
// github.com/continusec/objecthash, which is not available offline. It exists
// only so that demonstrations can run.
package objecthash

import (
	"crypto/rand"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"
)

const redactedPrefix = "***REDACTED*** Hash: "

func h(tag byte, b []byte) []byte {
	x := sha256.Sum256(append([]byte{tag}, b...))
	return x[:]
}

func hash(o interface{}, prefix string) ([]byte, error) {
	switch v := o.(type) {
	case nil:
		return h('n', nil), nil
	case bool:
		if v {
			return h('b', []byte("1")), nil
		}
		return h('b', []byte("0")), nil
	case string:
		if prefix != "" && strings.HasPrefix(v, prefix) {
			return hex.DecodeString(v[len(prefix):])
		}
		return h('u', []byte(v)), nil
	case float64:
		if math.IsNaN(v) || math.IsInf(v, 0) {
			return nil, errors.New("bad float")
		}
		return h('f', []byte(fmt.Sprintf("%x", v))), nil
	case int:
		return h('i', []byte(fmt.Sprint(v))), nil
	case int64:
		return h('i', []byte(fmt.Sprint(v))), nil
	case json.Number:
		return h('i', []byte(v.String())), nil
	case []interface{}:
		var b []byte
		for _, e := range v {
			x, err := hash(e, prefix)
			if err != nil {
				return nil, err
			}
			b = append(b, x...)
		}
		return h('l', b), nil
	case map[string]interface{}:
		var kv []string
		for k, e := range v {
			a := h('u', []byte(k))
			x, err := hash(e, prefix)
			if err != nil {
				return nil, err
			}
			kv = append(kv, string(a)+string(x))
		}
		sort.Strings(kv)
		return h('d', []byte(strings.Join(kv, ""))), nil
	}
	return nil, fmt.Errorf("unsupported type %T", o)
}

// ObjectHash calculates the object hash of o.
func ObjectHash(o interface{}) ([]byte, error) { return hash(o, "") }

// ObjectHashWithStdRedaction is ObjectHash, honouring redacted members.
func ObjectHashWithStdRedaction(o interface{}) ([]byte, error) { return hash(o, redactedPrefix) }

// CommonJSONHash calculates the object hash of a JSON document.
func CommonJSONHash(b []byte) ([]byte, error) {
	var o interface{}
	if err := json.Unmarshal(b, &o); err != nil {
		return nil, err
	}
	return ObjectHash(o)
}

// Redactable makes an object redactable.
func Redactable(o interface{}) (interface{}, error) {
	switch v := o.(type) {
	case []interface{}:
		r := make([]interface{}, len(v))
		for i, e := range v {
			x, err := Redactable(e)
			if err != nil {
				return nil, err
			}
			r[i] = x
		}
		return r, nil
	case map[string]interface{}:
		r := map[string]interface{}{}
		for k, e := range v {
			x, err := Redactable(e)
			if err != nil {
				return nil, err
			}
			var n [16]byte
			if _, err := rand.Read(n[:]); err != nil {
				return nil, err
			}
			r[k] = []interface{}{hex.EncodeToString(n[:]), x}
		}
		return r, nil
	}
	return o, nil
}

// Filtered redacts all but the given fields.
func Filtered(o interface{}, fields string) (interface{}, error) {
	if fields == "*" {
		return o, nil
	}
	keep := map[string]bool{}
	for _, f := range strings.Split(fields, ",") {
		keep[f] = true
	}
	m, ok := o.(map[string]interface{})
	if !ok {
		return nil, errors.New("not an object")
	}
	r := map[string]interface{}{}
	for k, e := range m {
		if keep[k] {
			r[k] = e
			continue
		}
		x, err := ObjectHashWithStdRedaction(e)
		if err != nil {
			return nil, err
		}
		r[k] = redactedPrefix + hex.EncodeToString(x)
	}
	return r, nil
}

// UnredactableWithStdPrefix strips redaction nonces and redacted members.
func UnredactableWithStdPrefix(o interface{}) (interface{}, error) {
	switch v := o.(type) {
	case []interface{}:
		if len(v) != 2 {
			return nil, errors.New("not redactable")
		}
		return UnredactableWithStdPrefix2(v[1])
	}
	return UnredactableWithStdPrefix2(o)
}

// UnredactableWithStdPrefix2 strips one level.
func UnredactableWithStdPrefix2(o interface{}) (interface{}, error) {
	m, ok := o.(map[string]interface{})
	if !ok {
		return o, nil
	}
	r := map[string]interface{}{}
	for k, e := range m {
		if s, ok := e.(string); ok && strings.HasPrefix(s, redactedPrefix) {
			continue
		}
		x, err := UnredactableWithStdPrefix(e)
		if err != nil {
			return nil, err
		}
		r[k] = x
	}
	return r, nil
}
