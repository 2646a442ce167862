// Package copystructure: offline stand-in for github.com/mitchellh/copystructure.
package copystructure

import "reflect"

func Copy(v interface{}) (interface{}, error) {
	if v == nil {
		return nil, nil
	}
	return cp(reflect.ValueOf(v)).Interface(), nil
}

func cp(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		r := reflect.MakeMapWithSize(v.Type(), v.Len())
		for _, k := range v.MapKeys() {
			r.SetMapIndex(cp(k), cp(v.MapIndex(k)))
		}
		return r
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		r := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			r.Index(i).Set(cp(v.Index(i)))
		}
		return r
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		r := reflect.New(v.Type()).Elem()
		r.Set(cp(v.Elem()))
		return r
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		r := reflect.New(v.Type().Elem())
		r.Elem().Set(cp(v.Elem()))
		return r
	}
	return v
}
