//go:build go1.21

package zzmc

import "runtime"

func runtimeStack(b []byte) int { return runtime.Stack(b, true) }
