package v

import (
	"math"
	"reflect"
	"unsafe"
)

func f64(x uint64) float64 { return math.Float64frombits(x) }

// EqF compares floats by bit pattern.
func EqF(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }

// Pick forks over the given values.
func Pick(vals ...int) int { return vals[Choose(len(vals))] }

// PickB forks over the given byte strings.
func PickB(vals ...[]byte) []byte { return vals[Choose(len(vals))] }

// FieldOf is the first field of the struct x whose type is like's, or nil.
func FieldOf(x, like any) any {
	rv := reflect.ValueOf(x)
	if !rv.IsValid() || rv.Kind() != reflect.Struct || like == nil {
		return nil
	}
	p := reflect.New(rv.Type()).Elem()
	p.Set(rv)
	for i := 0; i < p.NumField(); i++ {
		f := p.Field(i)
		if f.Type() == reflect.TypeOf(like) {
			return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Interface()
		}
	}
	return nil
}
