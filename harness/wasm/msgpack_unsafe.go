//go:build wasm && go1.21

package msgpack

import "unsafe"

// TinyGo's headers differ from Go's: the sandbox has Go only.

func UnsafeString(b []byte) string { return unsafe.String(unsafe.SliceData(b), len(b)) }

func UnsafeBytes(s string) []byte { return unsafe.Slice(unsafe.StringData(s), len(s)) }
