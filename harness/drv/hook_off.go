//go:build !verifinstr

package main

const instrumented = false

func setYield(f func()) {}

const canControl = false

func setBlock(f func()) {}

func setPoint(f func(), locks bool) {}
