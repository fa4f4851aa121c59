//go:build !amd64 && !arm64

package simrt

func clobber(v uint64) {}
