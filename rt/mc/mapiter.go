package mc

import (
	"cmp"
	"fmt"
	"iter"
	"reflect"
	"sort"
	"unsafe"
)

// Map iteration in a fixed order: numbers and strings by value, everything
// else by the history of the goroutine that first used it as a key.

const keyTab = 1 << 14

type keyEnt struct {
	p  unsafe.Pointer
	id uint64
}

var (
	keys     [keyTab]keyEnt
	keysUsed [keyTab]uint16
	keysN    int
)

func init() {
	OnReset(func() {
		for i := 0; i < keysN; i++ {
			keys[keysUsed[i]] = keyEnt{}
		}
		keysN = 0
	})
}

//go:norace
func keyID(p unsafe.Pointer) uint64 {
	if p == nil {
		return 0
	}
	i := uint32(uint64(uintptr(p))*0x9e3779b97f4a7c15>>40) & (keyTab - 1)
	for {
		e := &keys[i]
		if e.p == p {
			return e.id
		}
		if e.p == nil {
			if keysN >= keyTab/2 {
				return uint64(uintptr(p))
			}
			e.p = p
			// in order of first use, by virtual step
			s.seqno++
			e.id = s.seqno
			keysUsed[keysN] = uint16(i)
			keysN++
			return e.id
		}
		i = (i + 1) & (keyTab - 1)
	}
}

type ifaceWords struct{ t, d unsafe.Pointer }

// TouchKey notes k as a map key.
//
//go:norace
func TouchKey[K any](k K) K {
	keyOrd(&k)
	return k
}

//go:norace
func keyOrd[K any](k *K) uint64 {
	var z K
	switch any(z).(type) {
	case nil: // interface type
		return keyID((*ifaceWords)(unsafe.Pointer(k)).d)
	}
	t := reflect.TypeOf(z)
	switch t.Kind() {
	case reflect.Pointer, reflect.Chan, reflect.UnsafePointer, reflect.Map, reflect.Func:
		return keyID(*(*unsafe.Pointer)(unsafe.Pointer(k)))
	}
	return 0
}

// MapKeys lists m's keys in the fixed order.
//
//go:norace
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	Live()
	if len(m) == 0 {
		return nil
	}
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	var z K
	kind := reflect.Interface
	if t := reflect.TypeOf(z); t != nil {
		kind = t.Kind()
	}
	switch {
	case kind == reflect.String:
		sort.Slice(ks, func(i, j int) bool {
			return reflect.ValueOf(&ks[i]).Elem().String() < reflect.ValueOf(&ks[j]).Elem().String()
		})
	case kind >= reflect.Int && kind <= reflect.Int64:
		sort.Slice(ks, func(i, j int) bool {
			return reflect.ValueOf(&ks[i]).Elem().Int() < reflect.ValueOf(&ks[j]).Elem().Int()
		})
	case kind >= reflect.Uint && kind <= reflect.Uintptr:
		sort.Slice(ks, func(i, j int) bool {
			return reflect.ValueOf(&ks[i]).Elem().Uint() < reflect.ValueOf(&ks[j]).Elem().Uint()
		})
	case kind == reflect.Struct || kind == reflect.Array || kind == reflect.Bool || kind == reflect.Float64 || kind == reflect.Float32:
		sort.Slice(ks, func(i, j int) bool { return cmp.Less(fmt.Sprint(ks[i]), fmt.Sprint(ks[j])) })
	default:
		sort.Slice(ks, func(i, j int) bool { return keyOrd(&ks[i]) < keyOrd(&ks[j]) })
	}
	if s.active && s.mapOrder && len(ks) > 1 {
		if r := Deviate(len(ks)); r > 0 {
			ks = append(append([]K{}, ks[r:]...), ks[:r]...)
		}
	}
	return ks
}

// MapAll iterates over m in the fixed order; entries deleted meanwhile are
// skipped.
//
//go:norace
func MapAll[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, k := range MapKeys(m) {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}
