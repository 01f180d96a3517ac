// Package model gives the symbolic executor its environment: an in-memory
// file system with memory mapping and injectable failures, formatting,
// sorting and binary encoding.  A function whose doc comment carries
// "//sym:replace F" is executed instead of F; the functions without a real
// body in this file are primitives of the executor.
package model

func fault(op string) bool               { return false }
func alias(b []byte) []byte              { return b }
func unalias(b []byte)                   {}
func sameArray(a, b []byte) bool         { return false }
func kind(v any) int                     { return 0 }
func base(v any) any                     { return v }
func typeString(v any) string            { return "" }
func isSym(v any) bool                   { return false }
func opaque(s string) string             { return s }
func show(v any) string                  { return "" }
func fmtFloat(bits uint64, w int) string { return "" }
func quote(s string) string              { return s }
func sliceLen(v any) int                 { return 0 }
func sliceAt(v any, i int) any           { return nil }
func sliceSwap(v any, i, j int)          {}
func deref(v any) any                    { return v }
func comparable(v any) bool              { return true }
func fatal(msg string)                   { panic(msg) }
func unsupported(msg string)             { panic(msg) }
func yield()                             {}
