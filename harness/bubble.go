package main

import (
	"fmt"
	_ "unsafe" // for linkname
)

//go:linkname synctestRun internal/synctest.Run
func synctestRun(f func())

//go:linkname synctestWait internal/synctest.Wait
func synctestWait()

// bubble runs f and reports an error if f left goroutines behind, or blocked forever. Everything f
// starts is confined to it, so this is decided exactly and not by waiting for some time.
func bubble(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("goroutines are left behind or blocked forever: %v", r)
		}
	}()
	var inner error
	synctestRun(func() { inner = guarded(f) })
	return inner
}
