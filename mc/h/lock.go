package h

import (
	"os"
	"path/filepath"
	"runtime/debug"
	"syscall"
	"time"
)

// Exclusive waits until no other worker of the check is between Exclusive and
// the call of its result: for cases that need much memory.
func (c *Ctx) Exclusive() func() {
	if c.Dir == "" {
		return debug.FreeOSMemory
	}
	f, err := os.OpenFile(filepath.Join(c.Dir, "exclusive"), os.O_CREATE|os.O_RDWR, 0o600)
	if err != nil {
		return debug.FreeOSMemory
	}
	for syscall.Flock(int(f.Fd()), syscall.LOCK_EX|syscall.LOCK_NB) != nil {
		c.Beat()
		time.Sleep(20 * time.Millisecond)
	}
	return func() {
		debug.FreeOSMemory()
		f.Close()
	}
}
