package lib

import (
	"reflect"
	"strings"
)

// Size counts what v holds: the entries of all maps, slices and lists that can
// be reached from it, except in what belongs to the harness.
func Size(v ...interface{}) int {
	s := sizer{seen: map[seenKey]bool{}}
	for _, x := range v {
		s.walk(reflect.ValueOf(x), 0)
	}
	return s.n
}

type seenKey struct {
	p uintptr
	t reflect.Type
}

type sizer struct {
	seen map[seenKey]bool
	n    int
}

func foreign(t reflect.Type) bool {
	p := t.PkgPath()
	return p == "main" || strings.HasSuffix(p, "vsharness/lib") || p == "verif/vs" && !strings.HasPrefix(t.Name(), "Map") || p == "reflect" || p == "runtime"
}

func (s *sizer) walk(v reflect.Value, depth int) {
	if !v.IsValid() || depth > 60 || foreign(v.Type()) {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || foreign(v.Type().Elem()) {
			return
		}
		k := seenKey{v.Pointer(), v.Type()}
		if s.seen[k] {
			return
		}
		s.seen[k] = true
		s.walk(v.Elem(), depth+1)
	case reflect.Interface:
		s.walk(v.Elem(), depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			s.walk(v.Field(i), depth+1)
		}
	case reflect.Map:
		k := seenKey{v.Pointer(), v.Type()}
		if v.IsNil() || s.seen[k] {
			return
		}
		s.seen[k] = true
		s.n += v.Len()
		for it := v.MapRange(); it.Next(); {
			s.walk(it.Value(), depth+1)
		}
	case reflect.Slice:
		s.n += v.Len()
		fallthrough
	case reflect.Array:
		switch v.Type().Elem().Kind() {
		case reflect.Ptr, reflect.Interface, reflect.Struct, reflect.Map, reflect.Slice, reflect.Array:
			for i := 0; i < v.Len(); i++ {
				s.walk(v.Index(i), depth+1)
			}
		}
	}
}
