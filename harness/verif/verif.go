// Package verif is the contract API used by the harnesses in verif/props.
//
// Under the verifier (govc) every function here is interpreted symbolically: inputs are fresh symbolic
// values, Assume is a precondition, Assert is a proof obligation.  Compiled natively (this file) the same
// harness replays a solver model or runs on random concrete inputs.
package verif

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
)

// Source of concrete inputs.
type Source struct {
	Fixed map[string]string // replay
	Rng   *rand.Rand        // search
	Used  map[string]string
}

var Src *Source

var dir string

// Path names a file in a scratch directory that is removed after the run.
func Path(name string) string {
	if dir == "" {
		d, err := os.MkdirTemp("", "verif")
		if err != nil {
			panic(err)
		}
		dir = d
	}
	return filepath.Join(dir, name)
}

// Clean removes the scratch directory.
func Clean() {
	if dir != "" {
		os.RemoveAll(dir)
		dir = ""
	}
}

type Discard struct{}
type Failure struct{ Label, Msg string }

func name(n string) string {
	m := n
	for i := 2; ; i++ {
		if _, ok := Src.Used[m]; !ok {
			return m
		}
		m = fmt.Sprintf("%s#%d", n, i)
	}
}

func num(n string, lo, hi uint64, w int) uint64 {
	n = name(n)
	var v uint64
	if Src.Fixed != nil {
		s := Src.Fixed[n]
		if s == "" {
			v = lo
		} else if s[0] == '-' {
			i, _ := strconv.ParseInt(s, 10, 64)
			v = uint64(i)
		} else {
			v, _ = strconv.ParseUint(s, 10, 64)
		}
		if v < lo || v > hi {
			v = lo
		}
	} else {
		v = draw(lo, hi)
	}
	Src.Used[n] = strconv.FormatUint(v, 10)
	return v
}

var special = []uint64{0, 1, 2, 7, 8, 9, 10, 11, 12, 15, 16, 31, 32, 60, 63, 64, 65, 96, 99, 100, 126, 127, 128, 129, 191, 192, 239, 240, 247, 254, 255, 256, 480, 959, 960, 999, 1000, 8191, 8192, 16383, 16384, 32767, 32768, 65535, 65536, 500000, 2097151, 2097152, 16777215, 16777216, 268435455, 268435456, 1<<32 - 1, 1<<32}

// draw: boundary-biased value in lo..hi
func draw(lo, hi uint64) uint64 {
	r := Src.Rng
	span := hi - lo
	if span == 0 {
		return lo
	}
	switch r.Intn(4) {
	case 0:
		v := special[r.Intn(len(special))]
		if v >= lo && v <= hi {
			return v
		}
	case 1:
		d := uint64(r.Intn(4))
		if d <= span {
			if r.Intn(2) == 0 {
				return lo + d
			}
			return hi - d
		}
	case 2:
		bits := r.Intn(64)
		v := r.Uint64() >> uint(bits)
		if v >= lo && v <= hi {
			return v
		}
	}
	if span == ^uint64(0) {
		return r.Uint64()
	}
	return lo + r.Uint64()%(span+1)
}

func Bool(n string) bool  { return num(n, 0, 1, 1) == 1 }
func U8(n string) uint8   { return uint8(num(n, 0, 255, 8)) }
func U16(n string) uint16 { return uint16(num(n, 0, 65535, 16)) }
func U32(n string) uint32 { return uint32(num(n, 0, 1<<32-1, 32)) }
func U64(n string) uint64 { return num(n, 0, 1<<64-1, 64) }
func I64(n string) int64  { return int64(num(n, 0, 1<<64-1, 64)) }

// IntR is an int in lo..hi (inclusive).
func IntR(n string, lo, hi int) int {
	if lo >= 0 {
		return int(num(n, uint64(lo), uint64(hi), 64))
	}
	if Src.Fixed != nil {
		v := int(num(n, 0, 1<<64-1, 64))
		if v < lo || v > hi {
			v = lo
		}
		return v
	}
	v := int(draw(0, uint64(hi-lo))) + lo
	if Src.Rng.Intn(4) == 0 {
		s := []int{0, 1, -1, 12, -12, 127, -127, 24}
		x := s[Src.Rng.Intn(len(s))]
		if x >= lo && x <= hi {
			v = x
		}
	}
	Src.Used[name(n)] = strconv.Itoa(v)
	return v
}
func U8R(n string, lo, hi uint8) uint8     { return uint8(num(n, uint64(lo), uint64(hi), 8)) }
func U16R(n string, lo, hi uint16) uint16  { return uint16(num(n, uint64(lo), uint64(hi), 16)) }
func U32R(n string, lo, hi uint32) uint32  { return uint32(num(n, uint64(lo), uint64(hi), 32)) }

// Choose picks one of n alternatives (all are explored by the verifier).
func Choose(n string, k int) int {
	n = name(n)
	var v int
	if Src.Fixed != nil {
		if v, _ = strconv.Atoi(Src.Fixed[n]); v < 0 || v >= k {
			v = 0
		}
	} else {
		v = Src.Rng.Intn(k)
	}
	Src.Used[n] = strconv.Itoa(v)
	return v
}

func blob(n string, size int, lo, hi uint8) []byte {
	n = name(n)
	var b []byte
	if Src.Fixed != nil {
		b, _ = hex.DecodeString(Src.Fixed[n])
		for i := range b {
			if b[i] < lo || b[i] > hi {
				b[i] = lo
			}
		}
		if size >= 0 {
			for len(b) < size {
				b = append(b, lo)
			}
		}
	} else {
		if size < 0 {
			sizes := []int{0, 1, 2, 3, 4, 5, 8, 13, 126, 127, 128, 129, 200, 255, 256, 300}
			size = sizes[Src.Rng.Intn(len(sizes))]
			if Src.Rng.Intn(2) == 0 {
				size = Src.Rng.Intn(40)
			}
		}
		b = make([]byte, size)
		for i := range b {
			b[i] = byte(draw(uint64(lo), uint64(hi)))
		}
	}
	Src.Used[n] = hex.EncodeToString(b)
	return b
}

// Bytes / String: arbitrary content, arbitrary (unbounded) length.
func Bytes(n string) []byte  { return blob(n, -1, 0, 255) }
// BytesR, StringR: any length, every byte in lo..hi.
func BytesR(n string, lo, hi uint8) []byte  { return blob(n, -1, lo, hi) }
func StringR(n string, lo, hi uint8) string { return string(blob(n, -1, lo, hi)) }

func String(n string) string { return string(blob(n, -1, 0, 255)) }

// BytesN / BytesNR: exactly k bytes, each in lo..hi.
func BytesN(n string, k int) []byte                 { return blob(n, k, 0, 255) }
func BytesNR(n string, k int, lo, hi uint8) []byte  { return blob(n, k, lo, hi) }
func StringNR(n string, k int, lo, hi uint8) string { return string(blob(n, k, lo, hi)) }

// Assume is a precondition on the inputs.
func Assume(c bool) {
	if !c {
		panic(Discard{})
	}
}

// Assert is a proof obligation.
func Assert(label string, c bool) {
	if !c {
		panic(Failure{label, ""})
	}
}

func Cover(label string) {}

// EqBytes: equal content (nil and empty are the same).
func EqBytes(a, b []byte) bool { return bytes.Equal(a, b) }

// Same: deep structural equality; nil and empty slices are the same.
func Same(a, b any) bool { return same(reflect.ValueOf(a), reflect.ValueOf(b)) }

func same(a, b reflect.Value) bool {
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !same(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Pointer, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return same(a.Elem(), b.Elem())
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			if !b.MapIndex(k).IsValid() || !same(a.MapIndex(k), b.MapIndex(k)) {
				return false
			}
		}
		return true
	case reflect.Func:
		return a.IsNil() && b.IsNil()
	case reflect.String:
		return a.String() == b.String()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	case reflect.Float32, reflect.Float64:
		return a.Float() == b.Float()
	}
	return false
}

// Concrete asks the verifier to enumerate the feasible values of x.
func Concrete(x int) int { return x }

// IsNative is false under the verifier.
func IsNative() bool { return true }

// Use replaces calls of target by its contract spec, under the verifier only; the contract is proved by
// a harness of its own.  Natively the real function is called.
func Use(target, spec any) {}

// Unroll limits loops whose invariant is not found to n iterations (labelled bounded).
func Unroll(n int) {}

// UnrollIn limits the loops of the functions with this name (labelled bounded).
func UnrollIn(name string, n int) {}

// Any values: arbitrary results of contracts (verifier only).
func AnyBool() bool     { panic("verifier only") }
func AnyU8() uint8      { panic("verifier only") }
func AnyU16() uint16    { panic("verifier only") }
func AnyU32() uint32    { panic("verifier only") }
func AnyU64() uint64    { panic("verifier only") }
func AnyString() string { panic("verifier only") }
func AnyBytes() []byte  { panic("verifier only") }

// Sample marks a harness that the verifier does not explore: it runs on random concrete inputs only, beyond
// the bounds of the harnesses that are proved (labelled sampled, never counted as proved).
func Sample() {}

// HavocAfter: integers that do not move regularly in a loop are abstracted after n iterations (default 8).
func HavocAfter(n int) {}
