//go:build verifsync

package main

import "github.com/katydid/katydid/verifsync/hook"

// Built with the overlay of tools/syncoverlay.py, the repository's synchronised operations are scheduling points.
func init() {
	hook.Yielder, hook.Blocker, hook.Waker, hook.Dead = syncYield, syncBlocked, syncWoken, syncDead
}
