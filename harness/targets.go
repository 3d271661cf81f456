package main

import (
	"errors"
	"time"
)

// Types that documents are decoded into.

type TInner struct {
	A int
	B string `sereal:"b"`
	C []byte
}

type TStruct struct {
	ID    int64  `sereal:"id"`
	Name  string `sereal:"name"`
	Key   []byte `sereal:"key"`
	Value any    `sereal:"value"`
	Foo   *TInner
	A     []int          `sereal:"a"`
	B     map[string]any `sereal:"b"`
	In    TInner
	Arr   [3]uint16
	F     float64
	G     float32
	T     bool
	Skip  string `sereal:"-"`
	priv  int
}

type TRec struct {
	V    any     `sereal:"value"`
	Next *TRec   `sereal:"a"`
	Kids []*TRec `sereal:"id"`
	M    map[string]*TRec
}

type TList []TList
type TMap map[string]TMap
type TPtrMap map[TKey]*TPtrMap
type TKey string
type TNamedInt int16
type TNamedUint uint32
type TNamedStr string
type TNamedBytes []byte
type TNamedFloat float64
type TNamedBool bool

// TThaw collects what UnmarshalBinary sees.
type TThaw struct{ Data []byte }

var errThaw = errors.New("thaw failed")

func (t TThaw) MarshalBinary() ([]byte, error) { return t.Data, nil }
func (t *TThaw) UnmarshalBinary(b []byte) error {
	if len(b) == 13 {
		return errThaw
	}
	t.Data = append([]byte{}, b...)
	return nil
}

type tIfc interface{ Foo() }

var targetMakers = []func() any{
	func() any { return new(any) },
	func() any { return new(any) },
	func() any { x := any(map[string]any{"a": 1}); return &x },
	func() any { x := any([]any{1, "x", nil}); return &x },
	func() any { return new(int) },
	func() any { return new(int8) },
	func() any { return new(uint64) },
	func() any { return new(uint8) },
	func() any { return new(float32) },
	func() any { return new(float64) },
	func() any { return new(bool) },
	func() any { return new(string) },
	func() any { return new([]byte) },
	func() any { return new([5]byte) },
	func() any { return new([]any) },
	func() any { return new([]int) },
	func() any { return new([]string) },
	func() any { return new([][]byte) },
	func() any { return new([2]any) },
	func() any { return new([0]int) },
	func() any { return new(map[string]any) },
	func() any { return new(map[string]int) },
	func() any { return new(map[string][]string) },
	func() any { return new(map[TKey]any) },
	func() any { return new(map[int]any) },
	func() any { return new(TInner) },
	func() any { return new(*TInner) },
	func() any { return new(**TInner) },
	func() any { return new(TStruct) },
	func() any {
		return &TStruct{Value: 5, Foo: &TInner{A: 3}, A: []int{1, 2}, B: map[string]any{"id": "x"}}
	},
	func() any { return new([]TStruct) },
	func() any { return new([]*TStruct) },
	func() any { return new(map[string]*TStruct) },
	func() any { return new(map[string]TInner) },
	func() any { return new(TRec) },
	func() any { return new([]TRec) },
	func() any { return new(TList) },
	func() any { return new(TMap) },
	func() any { return new(TPtrMap) },
	func() any { return new(TNamedInt) },
	func() any { return new(TNamedStr) },
	func() any { return new(TNamedBytes) },
	func() any { return new(TThaw) },
	func() any { return new(*TThaw) },
	func() any { return new([]TThaw) },
	func() any { return new(map[string]*TThaw) },
	func() any { return new(time.Time) },
	func() any { return new(tIfc) },
	func() any { return new(chan int) },
	func() any { return new(func()) },
	func() any { return new(complex128) },
	func() any { return new(*int) },
	func() any { return new(*[]string) },
	func() any { return new(struct{}) },
	func() any { return new([]struct{}) },
	func() any { return new(uintptr) },
}
