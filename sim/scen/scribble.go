package main

import (
	"crypto/elliptic"
	"encoding/asn1"
	"math/big"
	"reflect"
	"sort"
	"time"

	"mcverif/vsim"
)

// A caller may do what it likes with what it was given, as far as it is not still its own arguments. scribbler
// overwrites everything that can be reached from results and cannot be reached from the values kept.

type region struct{ lo, hi uintptr }

type scribbler struct {
	keep   []region
	sorted bool
	seen   map[uintptr]bool
	count  int
}

var (
	worldType = reflect.TypeFor[vsim.World]()
	tapeType  = reflect.TypeFor[vsim.Tape]()
	curveIf   = reflect.TypeFor[elliptic.Curve]()
	oidType   = reflect.TypeFor[asn1.ObjectIdentifier]()
	errorType = reflect.TypeFor[error]()
)

func (s *scribbler) preserve(vals ...any) {
	s.seen = map[uintptr]bool{}
	for _, v := range vals {
		s.collect(reflect.ValueOf(v), 0)
	}
	s.sorted = false
}

func (s *scribbler) collect(v reflect.Value, depth int) {
	if !v.IsValid() || depth > 40 {
		return
	}
	switch v.Type() {
	case worldType, tapeType, locType:
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() || s.seen[v.Pointer()] {
			return
		}
		s.seen[v.Pointer()] = true
		s.keep = append(s.keep, region{v.Pointer(), v.Pointer() + v.Type().Elem().Size()})
		s.collect(v.Elem(), depth+1)
	case reflect.Interface:
		s.collect(v.Elem(), depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			s.collect(v.Field(i), depth+1)
		}
	case reflect.Slice:
		if v.Cap() == 0 {
			return
		}
		size := v.Type().Elem().Size()
		s.keep = append(s.keep, region{v.Pointer(), v.Pointer() + uintptr(v.Cap())*size})
		if !flat(v.Type().Elem()) {
			for i := 0; i < v.Len(); i++ {
				s.collect(v.Index(i), depth+1)
			}
		}
	case reflect.Array:
		if !flat(v.Type().Elem()) {
			for i := 0; i < v.Len(); i++ {
				s.collect(v.Index(i), depth+1)
			}
		}
	case reflect.Map:
		s.keep = append(s.keep, region{v.Pointer(), v.Pointer() + 1})
		for it := v.MapRange(); it.Next(); {
			s.collect(it.Key(), depth+1)
			s.collect(it.Value(), depth+1)
		}
	}
}

func flat(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr, reflect.String:
		return true
	}
	return false
}

func (s *scribbler) kept(lo uintptr, size uintptr) bool {
	if !s.sorted {
		sort.Slice(s.keep, func(i, j int) bool { return s.keep[i].lo < s.keep[j].lo })
		// so that the search below sees the furthest end so far
		for i := 1; i < len(s.keep); i++ {
			s.keep[i].hi = max(s.keep[i].hi, s.keep[i-1].hi)
		}
		s.sorted = true
	}
	i := sort.Search(len(s.keep), func(i int) bool { return s.keep[i].lo >= lo+size })
	return i > 0 && s.keep[i-1].hi > lo
}

// overwrite scribbles over the results and says whether there was anything.
func (s *scribbler) overwrite(out []any) bool {
	s.seen, s.count = map[uintptr]bool{}, 0
	for _, v := range out {
		s.walk(reflect.ValueOf(v), 0)
	}
	return s.count > 0
}

func (s *scribbler) walk(v reflect.Value, depth int) {
	if !v.IsValid() || depth > 40 {
		return
	}
	if v.Type().Implements(curveIf) || v.Type().Implements(errorType) {
		return
	}
	switch v.Type() {
	case worldType, tapeType, locType, oidType, plugType:
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() || s.seen[v.Pointer()] || s.kept(v.Pointer(), max(1, v.Type().Elem().Size())) {
			return
		}
		s.seen[v.Pointer()] = true
		if x, ok := v.Interface().(*big.Int); ok {
			words := x.Bits()
			words = words[:cap(words)]
			if len(words) > 0 && !s.kept(reflect.ValueOf(words).Pointer(), uintptr(len(words))*8) {
				for i := range words {
					words[i] = 0x5a5a5a5a5a5a5a5a
				}
				s.count++
			}
			return
		}
		s.walk(v.Elem(), depth+1)
	case reflect.Interface:
		s.walk(v.Elem(), depth+1)
	case reflect.Struct:
		if v.Type() == timeType {
			if v.CanSet() {
				v.Set(reflect.ValueOf(time.Unix(1234567890, 5)))
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				s.walk(v.Field(i), depth+1)
			}
		}
	case reflect.Slice:
		n := v.Cap()
		if n == 0 || s.kept(v.Pointer(), uintptr(n)*v.Type().Elem().Size()) {
			return
		}
		v = v.Slice(0, n)
		for i := 0; i < n; i++ {
			s.walk(v.Index(i), depth+1)
		}
		s.count++
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			s.walk(v.Index(i), depth+1)
		}
	case reflect.Map:
		if v.IsNil() || s.kept(v.Pointer(), 1) {
			return
		}
		for it := v.MapRange(); it.Next(); {
			s.walk(it.Value(), depth+1)
		}
		v.Clear()
		s.count++
	case reflect.String:
		if v.CanSet() {
			v.SetString("overwritten")
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.CanSet() {
			v.SetInt(0x5a)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(0x5a)
		}
	}
}
