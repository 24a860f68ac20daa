package simrt

import (
	"cmp"
	"fmt"
	"reflect"
	"slices"
)

// ZeroKV returns zero key and value variables for a map.
func ZeroKV[M ~map[K]V, K comparable, V any](m M) (k K, v V) { return }

// ZeroK returns a zero key variable.
func ZeroK[M ~map[K]V, K comparable, V any](m M) (k K) { return }

// Ider lets pointer-keyed maps be ordered.
type Ider interface{ SimID() uint64 }

// Keys returns the keys of m in a deterministic base order, permuted by a choice.
func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	if len(m) == 0 {
		return nil
	}
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	if len(ks) > 1 {
		sortKeys(ks)
		if S != nil && cur != nil && S.Cfg.MapP >= 0 {
			v := ChooseP(KMap, 1<<20, S.Cfg.MapP)
			if v != 0 {
				x := uint64(v)
				for i := len(ks) - 1; i > 0; i-- {
					x = mix(x)
					j := int(x % uint64(i+1))
					ks[i], ks[j] = ks[j], ks[i]
				}
			}
		}
	}
	return ks
}

func sortKeys[K comparable](ks []K) {
	switch s := any(ks).(type) {
	case []string:
		slices.Sort(s)
		return
	case []int:
		slices.Sort(s)
		return
	case []uint:
		slices.Sort(s)
		return
	}
	t := reflect.TypeOf(ks).Elem()
	switch t.Kind() {
	case reflect.Pointer, reflect.Interface, reflect.Struct, reflect.Chan:
		slices.SortFunc(ks, func(a, b K) int {
			return cmp.Compare(idOf(reflect.ValueOf(a), 0), idOf(reflect.ValueOf(b), 0))
		})
	default:
		slices.SortFunc(ks, func(a, b K) int { return cmp.Compare(strOf(a), strOf(b)) })
	}
}

func strOf(v any) string {
	r := reflect.ValueOf(v)
	switch {
	case r.CanInt():
		return fmt.Sprintf("%020d", uint64(r.Int())+(1<<63))
	case r.CanUint():
		return fmt.Sprintf("%020d", r.Uint())
	}
	return fmt.Sprint(v)
}

// idOf finds a simulated id inside a value (searching interfaces that implement
// Ider one or two levels down); values without one order by their printed form
// when that contains no address.
func idOf(v reflect.Value, depth int) string {
	if !v.IsValid() || depth > 3 {
		return ""
	}
	if v.CanInterface() {
		if id, ok := v.Interface().(Ider); ok {
			if v.Kind() != reflect.Pointer || !v.IsNil() {
				return fmt.Sprintf("%020d", id.SimID())
			}
		}
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			return ""
		}
		return idOf(v.Elem(), depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.Kind() == reflect.Interface && !f.IsNil() {
				if e := f.Elem(); e.Kind() == reflect.Pointer && !e.IsNil() {
					if x := e.Elem().FieldByName("SimSeq"); x.IsValid() && x.CanUint() {
						return fmt.Sprintf("%020d", x.Uint())
					}
				}
			}
		}
		s := ""
		for i := 0; i < v.NumField(); i++ {
			switch f := v.Field(i); f.Kind() {
			case reflect.String:
				s += f.String() + "|"
			case reflect.Int, reflect.Int64, reflect.Int32:
				s += fmt.Sprintf("%020d|", f.Int())
			case reflect.Uint, reflect.Uint64, reflect.Uint32:
				s += fmt.Sprintf("%020d|", f.Uint())
			}
		}
		return s
	case reflect.String:
		return v.String()
	}
	return ""
}
