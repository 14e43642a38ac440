//go:build !basic

package main

import (
	"fmt"
	_ "unsafe" // for go:linkname
)

// synctestRun is testing/synctest.Test without a test: within f time passes only when all of its goroutines wait, and then
// at once. It starts at midnight UTC 2000-01-01.
//
//go:linkname synctestRun internal/synctest.Run
func synctestRun(f func())

// atFakeTime calls f where time.Sleep takes no time but moves the clock.
func atFakeTime(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil && err == nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	synctestRun(func() {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("panic: %v", r)
			}
		}()
		err = f()
	})
	return err
}
