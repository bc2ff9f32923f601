// Package gentypes is the registry of the generated types that are linked into
// the checker.
package gentypes

import "reflect"

// Types maps set and Go import path to types by name.
var Types = map[string]map[string]reflect.Type{}

// Register adds types (given as nil pointers) of a package of a set.
func Register(set, path string, ptrs map[string]interface{}) {
	m := Types[set]
	if m == nil {
		m = map[string]reflect.Type{}
		Types[set] = m
	}
	for n, p := range ptrs {
		m[path+"."+n] = reflect.TypeOf(p).Elem()
	}
}
