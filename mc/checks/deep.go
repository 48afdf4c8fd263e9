package checks

import (
	"fmt"
	"reflect"
	"time"

	"golang.org/x/text/language"
)

// deepDiff compares two values structurally.  Nil and empty slices/maps are
// the same, functions and unexported func fields are skipped, times are
// compared as instants.  It returns "" if the values are equal.
func deepDiff(a, b any) string {
	if deepEqual(reflect.ValueOf(a), reflect.ValueOf(b), 0) {
		return ""
	}
	return deepDiffV("", reflect.ValueOf(a), reflect.ValueOf(b), 0)
}

// deepEqual is a fast test for the common cases; it may return false for
// values which deepDiffV regards as equal.
func deepEqual(a, b reflect.Value, depth int) bool {
	if depth > 60 || !a.IsValid() || !b.IsValid() || a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Pointer, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		if a.Kind() == reflect.Pointer && a.Pointer() == b.Pointer() {
			return true
		}
		return deepEqual(a.Elem(), b.Elem(), depth+1)
	case reflect.Slice, reflect.Array:
		n := a.Len()
		if n != b.Len() {
			return false
		}
		for i := 0; i < n; i++ {
			if !deepEqual(a.Index(i), b.Index(i), depth+1) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		it := a.MapRange()
		for it.Next() {
			y := b.MapIndex(it.Key())
			if !y.IsValid() || !deepEqual(it.Value(), y, depth+1) {
				return false
			}
		}
		return true
	case reflect.Struct:
		if a.Type() == timeType || a.Type() == tagType {
			return deepDiffV("", a, b, depth) == ""
		}
		for i := 0; i < a.NumField(); i++ {
			if !deepEqual(a.Field(i), b.Field(i), depth+1) {
				return false
			}
		}
		return true
	case reflect.Func:
		return true
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.String:
		return a.String() == b.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	case reflect.Float32, reflect.Float64:
		return a.Float() == b.Float()
	}
	return false
}

var (
	timeType = reflect.TypeOf(time.Time{})
	tagType  = reflect.TypeOf(language.Tag{})
)

func deepDiffV(path string, a, b reflect.Value, depth int) string {
	if depth > 60 {
		return path + ": too deep"
	}
	if !a.IsValid() || !b.IsValid() {
		if a.IsValid() != b.IsValid() {
			return fmt.Sprintf("%s: %v vs %v", path, a, b)
		}
		return ""
	}
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s: type %v vs %v", path, a.Type(), b.Type())
	}
	if a.Type() == timeType && a.CanInterface() {
		if !a.Interface().(time.Time).Equal(b.Interface().(time.Time)) {
			return fmt.Sprintf("%s: %v vs %v", path, a.Interface(), b.Interface())
		}
		return ""
	}
	if a.Type() == tagType && a.CanInterface() {
		if a.Interface().(language.Tag).String() != b.Interface().(language.Tag).String() {
			return fmt.Sprintf("%s: %v vs %v", path, a.Interface(), b.Interface())
		}
		return ""
	}
	switch a.Kind() {
	case reflect.Func:
		return ""
	case reflect.Pointer, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return fmt.Sprintf("%s: nil=%v vs nil=%v", path, a.IsNil(), b.IsNil())
			}
			return ""
		}
		if a.Kind() == reflect.Pointer && a.Pointer() == b.Pointer() {
			return ""
		}
		return deepDiffV(path, a.Elem(), b.Elem(), depth+1)
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: length %d vs %d", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := deepDiffV(fmt.Sprintf("%s[%d]", path, i), a.Index(i), b.Index(i), depth+1); d != "" {
				return d
			}
		}
		return ""
	case reflect.Map:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d entries vs %d", path, a.Len(), b.Len())
		}
		for _, k := range a.MapKeys() {
			y := b.MapIndex(k)
			if !y.IsValid() && k.Type() == tagType {
				for _, k2 := range b.MapKeys() {
					if k2.Interface().(language.Tag).String() == k.Interface().(language.Tag).String() {
						y = b.MapIndex(k2)
					}
				}
			}
			if !y.IsValid() {
				return fmt.Sprintf("%s[%v]: missing", path, k)
			}
			if d := deepDiffV(fmt.Sprintf("%s[%v]", path, k), a.MapIndex(k), y, depth+1); d != "" {
				return d
			}
		}
		return ""
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if d := deepDiffV(path+"."+a.Type().Field(i).Name, a.Field(i), b.Field(i), depth+1); d != "" {
				return d
			}
		}
		return ""
	case reflect.Bool:
		if a.Bool() != b.Bool() {
			return fmt.Sprintf("%s: %v vs %v", path, a.Bool(), b.Bool())
		}
	case reflect.String:
		if a.String() != b.String() {
			return fmt.Sprintf("%s: %q vs %q", path, clip(a.String(), 80), clip(b.String(), 80))
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if a.Int() != b.Int() {
			return fmt.Sprintf("%s: %d vs %d", path, a.Int(), b.Int())
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if a.Uint() != b.Uint() {
			return fmt.Sprintf("%s: %d vs %d", path, a.Uint(), b.Uint())
		}
	case reflect.Float32, reflect.Float64:
		if a.Float() != b.Float() {
			return fmt.Sprintf("%s: %v vs %v", path, a.Float(), b.Float())
		}
	default:
		return path + ": unsupported kind " + a.Kind().String()
	}
	return ""
}
