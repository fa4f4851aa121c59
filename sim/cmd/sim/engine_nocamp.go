//go:build !camp

package main

var cDVs *dvAccess
