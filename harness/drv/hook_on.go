//go:build verifinstr

package main

import (
	sm "github.com/kazu/skiplistmap"
	"github.com/kazu/skiplistmap/rmap"
)

const instrumented = true

func init() {
	sm.VerifHash = exactHash
}

func setPoint(f func(), locks bool) {
	sm.VerifPoint, rmap.VerifPoint = f, f
	sm.VerifLocks, rmap.VerifLocks = locks, locks
}

func setYield(f func()) {
	sm.VerifYield = f
	rmap.VerifYield = f
}

const canControl = sm.VerifSync

func setBlock(f func()) { sm.VerifSetBlock(f) }
