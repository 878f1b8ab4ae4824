// the parts of encoding/json the model leaves as they are

package vjson

import real_ "encoding/json"

type (
	Decoder     = real_.Decoder
	Marshaler   = real_.Marshaler
	Number      = real_.Number
	RawMessage  = real_.RawMessage
	SyntaxError = real_.SyntaxError
	Unmarshaler = real_.Unmarshaler
)

var (
	Compact    = real_.Compact
	HTMLEscape = real_.HTMLEscape
	Indent     = real_.Indent
	NewDecoder = real_.NewDecoder
	Unmarshal  = real_.Unmarshal
	Valid      = real_.Valid
)
