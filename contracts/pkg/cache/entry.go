package cache

import (
	"bytes"
	"encoding/gob"
	"io"
	"kv"
	"kvm"
)

// The gob codec (assumed): decoding what was encoded yields it again.
func spGob(body string, ts int64) string { return kv.UF[string]("gob.entry", body, ts) }
func spGobOk(s string) bool              { return kv.UF[bool]("gob.ok", s) }
func spGobBody(s string) string          { return kv.UF[string]("gob.body", s) }
func spGobTime(s string) int64           { return kv.UF[int64]("gob.time", s) }

type spGobStream struct {
	W io.Writer
	R io.Reader
}

//kv:model encoding/gob.NewEncoder
func mdNewEncoder(w io.Writer) *gob.Encoder {
	e := new(gob.Encoder)
	kv.Ghost[spGobStream](e).W = w
	return e
}

//kv:model (*encoding/gob.Encoder).Encode
func mdEncode(e *gob.Encoder, v any) error {
	if kv.Any[bool]() {
		return kvm.LibFail()
	}
	var body string
	var ts int64
	switch x := v.(type) {
	case *Entry:
		body, ts = kv.Bytes(x.Body), x.Timestamp
	case Entry:
		body, ts = kv.Bytes(x.Body), x.Timestamp
	}
	s := spGob(body, ts)
	kv.Assume(spGobOk(s) && spGobBody(s) == body && spGobTime(s) == ts)
	if b, ok := kv.Ghost[spGobStream](e).W.(*bytes.Buffer); ok {
		kv.SetContent(b, kv.Content(b)+s)
	}
	return nil
}

//kv:model encoding/gob.NewDecoder
func mdNewDecoder(r io.Reader) *gob.Decoder {
	d := new(gob.Decoder)
	kv.Ghost[spGobStream](d).R = r
	return d
}

//kv:model (*encoding/gob.Decoder).Decode
func mdDecode(d *gob.Decoder, v any) error {
	s := kvm.Content(kv.Ghost[spGobStream](d).R)
	if !spGobOk(s) {
		// what was decoded before the failure stays
		n := Entry{Body: kv.OfBytes(kv.Any[string]()), Timestamp: kv.Any[int64]()}
		switch x := v.(type) {
		case **Entry:
			if kv.Any[bool]() {
				*x = &n
			}
		case *Entry:
			*x = n
		}
		return &kvm.Err{Msg: kv.UF[string]("gob.err", s)}
	}
	n := Entry{Body: kv.OfBytes(spGobBody(s)), Timestamp: spGobTime(s)}
	switch x := v.(type) {
	case **Entry:
		*x = &n
	case *Entry:
		*x = n
	}
	return nil
}

//kv:contract (*cache.Entry).Encode C09
func ctEncode(e *Entry) ([]byte, error) {
	kv.Requires(e != nil)
	body, ts := kv.Bytes(e.Body), e.Timestamp
	failed := kv.GhostInt("lib.failures")
	kv.Modifies()
	kv.ModifiesGhost("lib.failures")
	b, err := e.Encode()
	kv.Ensures("C09:encoding fails only if the codec does", (err != nil) == (kv.GhostInt("lib.failures") != failed))
	kv.Ensures("C09:an encoded entry decodes to its body and timestamp", kv.Implies(err == nil, spGobOk(kv.Bytes(b)) && spGobBody(kv.Bytes(b)) == body && spGobTime(kv.Bytes(b)) == ts))
	return b, err
}

//kv:contract cache.DecodeEntry C09
func ctDecodeEntry(data []byte) (*Entry, error) {
	s := kv.Bytes(data)
	kv.Modifies()
	e, err := DecodeEntry(data)
	kv.Ensures("C09:exactly undecodable entries are reported", (err == nil) == spGobOk(s))
	if err == nil {
		kv.Cover("decodes")
		kv.NewIf("C09:a decoded entry is new", &e, true)
		kv.Ensures("C09:a decoded entry is what was encoded", kv.Bytes(e.Body) == spGobBody(s) && e.Timestamp == spGobTime(s))
	}
	return e, err
}
