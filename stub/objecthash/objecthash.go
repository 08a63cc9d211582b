// Package objecthash declares the API of github.com/continusec/objecthash that
// the analysed repository uses. The real module is not available offline; the
// static analysis needs only its types (every function is treated as opaque).
package objecthash

// ObjectHash calculates the object hash of o.
func ObjectHash(o interface{}) ([]byte, error) { panic("types only") }

// ObjectHashWithStdRedaction is ObjectHash, honouring redacted members.
func ObjectHashWithStdRedaction(o interface{}) ([]byte, error) { panic("types only") }

// CommonJSONHash calculates the object hash of a JSON document.
func CommonJSONHash(b []byte) ([]byte, error) { panic("types only") }

// Redactable makes an object redactable.
func Redactable(o interface{}) (interface{}, error) { panic("types only") }

// Filtered redacts all but the given fields.
func Filtered(o interface{}, fields string) (interface{}, error) { panic("types only") }

// UnredactableWithStdPrefix strips redaction nonces and redacted members.
func UnredactableWithStdPrefix(o interface{}) (interface{}, error) { panic("types only") }
