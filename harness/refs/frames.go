//go:build go1.23

// Package refs holds the independent reference models the oracles compare
// against. Nothing in it calls the code under test.
package refs

import "encoding/binary"

// RSocket frame types and flags as given by the protocol document.
const (
	TRequestResponse = 0x04
	TRequestFNF      = 0x05
	TRequestStream   = 0x06
	TRequestChannel  = 0x07
	TRequestN        = 0x08
	TCancel          = 0x09
	TPayload         = 0x0A
	TError           = 0x0B

	FIgnore   = 1 << 9
	FMetadata = 1 << 8
	FFollows  = 1 << 7
	FComplete = 1 << 6
	FNext     = 1 << 5
)

// Frame is the neutral form of every frame the project speaks.
type Frame struct {
	Type     int
	StreamID uint32
	Metadata []byte
	Data     []byte
	Follows  bool
	Complete bool
	Next     bool
	N        uint32 // initial n, request n, or error code
}

// EncodeFrame lays a frame out as the RSocket protocol document says.
func EncodeFrame(f Frame) []byte {
	flags := 0
	if len(f.Metadata) > 0 {
		flags |= FMetadata
	}
	if f.Follows {
		flags |= FFollows
	}
	switch f.Type {
	case TPayload:
		if f.Complete {
			flags |= FComplete
		}
		if f.Next {
			flags |= FNext
		}
	case TRequestChannel:
		if f.Complete {
			flags |= FComplete
		}
	case TRequestN, TCancel, TError:
		flags = 0
	}
	return EncodeFrameFlags(f, flags)
}

// EncodeFrameFlags is EncodeFrame with the flag bits chosen by the caller.
func EncodeFrameFlags(f Frame, flags int) []byte {
	b := binary.BigEndian.AppendUint32(nil, f.StreamID)
	b = binary.BigEndian.AppendUint16(b, uint16(f.Type<<10|flags))
	switch f.Type {
	case TRequestStream, TRequestChannel, TRequestN, TError:
		b = binary.BigEndian.AppendUint32(b, f.N)
	}
	if f.Type == TRequestN || f.Type == TCancel {
		return b
	}
	if flags&FMetadata != 0 && f.Type != TError {
		l := len(f.Metadata)
		b = append(b, byte(l>>16), byte(l>>8), byte(l))
		b = append(b, f.Metadata...)
	}
	return append(b, f.Data...)
}

// DecodeFrame parses one frame body (no length prefix). ok is false when the
// bytes are not a complete frame of a type the project speaks.
func DecodeFrame(b []byte) (f Frame, flags int, ok bool) {
	if len(b) < 6 {
		return
	}
	f.StreamID = binary.BigEndian.Uint32(b) & 0x7fffffff
	w := int(binary.BigEndian.Uint16(b[4:]))
	f.Type = w >> 10
	flags = w & 0x3ff
	b = b[6:]
	switch f.Type {
	case TRequestResponse, TRequestFNF, TRequestStream, TRequestChannel, TPayload, TRequestN, TError, TCancel:
	default:
		return f, flags, false
	}
	switch f.Type {
	case TRequestStream, TRequestChannel, TRequestN, TError:
		if len(b) < 4 {
			return f, flags, false
		}
		f.N = binary.BigEndian.Uint32(b)
		b = b[4:]
	}
	if f.Type == TRequestN || f.Type == TCancel {
		return f, flags, true
	}
	if f.Type != TError {
		f.Follows = flags&FFollows != 0
		if flags&FMetadata != 0 {
			if len(b) < 3 {
				return f, flags, false
			}
			l := int(b[0])<<16 | int(b[1])<<8 | int(b[2])
			b = b[3:]
			if len(b) < l {
				return f, flags, false
			}
			f.Metadata, b = b[:l], b[l:]
		}
		f.Next = f.Type == TPayload && flags&FNext != 0
		f.Complete = (f.Type == TPayload || f.Type == TRequestChannel) && flags&FComplete != 0
	}
	f.Data = b
	return f, flags, true
}

// Prefixed puts the 3 byte big endian length in front of a frame body.
func Prefixed(b []byte) []byte {
	l := len(b)
	return append([]byte{byte(l >> 16), byte(l >> 8), byte(l)}, b...)
}
