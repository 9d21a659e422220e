//go:build !amd64

package main

func skipIDs(n uint64, now int64) bool { return false }
