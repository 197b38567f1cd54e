package main

import (
	"reflect"
	"sync"
	"unsafe"

	"github.com/liujiangwei/xxcache/cache"
)

// the keys still stored, if the representation can be recognised
func inside(c *cache.Cache) (ks []string, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	f := reflect.ValueOf(c).Elem().FieldByName("dataDict")
	f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
	m := f.Elem().Elem().FieldByName("Map")
	sm := (*sync.Map)(unsafe.Pointer(m.UnsafeAddr()))
	sm.Range(func(k, v interface{}) bool { ks = append(ks, k.(string)); return true })
	return ks, true
}
