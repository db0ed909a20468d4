package zzverif

import (
	"fmt"
	"os"
	"runtime/debug"
	"testing"
	"testing/synctest"
	"time"

	"github.com/go-oidfed/lib/internal/zzverif/nd"
)

func TestZZReplay(t *testing.T) {
	h, err := nd.Load(os.Getenv("ZZ_WITNESS"), os.Getenv("ZZ_OUT"))
	if err != nil {
		t.Skip(err)
	}
	f := zzHarnesses[h]
	if f == nil {
		nd.Finish("error", "unknown harness "+h)
	}
	synctest.Run(func() {
		// The cache's janitor was started outside and sees the real time: to it,
		// entries made here must not be expired.
		time.Sleep(time.Until(time.Unix(nd.Start, 0)))
		defer func() {
			if r := recover(); r != nil {
				fmt.Fprintln(os.Stderr, string(debug.Stack()))
				nd.Finish("panic", fmt.Sprint(r))
			}
		}()
		f()
		nd.Finish("ok", "")
	})
}
