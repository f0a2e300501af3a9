package main

import (
	"fmt"
	"reflect"
	"strings"
)

// dump writes everything a value consists of, unexported fields and what
// pointers and interfaces refer to included, so that a change anywhere shows.
func dump(x interface{}) string {
	d := &dumper{seen: map[uintptr]bool{}, left: 60000}
	d.val(reflect.ValueOf(x))
	return d.sb.String()
}

type dumper struct {
	sb   strings.Builder
	seen map[uintptr]bool
	left int
}

func (d *dumper) val(v reflect.Value) {
	if d.left <= 0 {
		return
	}
	d.left--
	switch v.Kind() {
	case reflect.Invalid:
		d.sb.WriteString("nil")
	case reflect.Interface:
		if v.IsNil() {
			d.sb.WriteString("nil")
			return
		}
		d.val(v.Elem())
	case reflect.Ptr:
		if v.IsNil() {
			d.sb.WriteString("nil")
			return
		}
		if d.seen[v.Pointer()] {
			d.sb.WriteString("^")
			return
		}
		d.seen[v.Pointer()] = true
		d.sb.WriteString("&")
		d.val(v.Elem())
		delete(d.seen, v.Pointer())
	case reflect.Struct:
		t := v.Type()
		if strings.HasPrefix(t.PkgPath(), "math/big") || strings.HasPrefix(t.PkgPath(), "time") {
			fmt.Fprintf(&d.sb, "%v", t)
			return
		}
		d.sb.WriteString(t.Name() + "{")
		for i := 0; i < v.NumField(); i++ {
			n := t.Field(i).Name
			if n == "ExpressionContainer" || n == "ConditionContainer" {
				continue // holds a copy of the value itself
			}
			d.sb.WriteString(n + ":")
			d.val(v.Field(i))
			d.sb.WriteString(" ")
		}
		d.sb.WriteString("}")
	case reflect.Slice, reflect.Array:
		d.sb.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			d.val(v.Index(i))
			d.sb.WriteString(" ")
		}
		d.sb.WriteString("]")
	case reflect.Map:
		fmt.Fprintf(&d.sb, "map%d", v.Len())
	case reflect.String:
		fmt.Fprintf(&d.sb, "%q", v.String())
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		d.sb.WriteString("?")
	case reflect.Bool:
		fmt.Fprint(&d.sb, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(&d.sb, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprint(&d.sb, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(&d.sb, v.Float())
	}
}
