//go:build inst

package simrt

func init() { Instrumented = true }
