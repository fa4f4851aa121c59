//go:build !amd64 && !arm64

package simrt

// G identifies the running goroutine; 0 means unknown.
func G() uintptr { return 0 }
