//go:build !asked

package main

func asked() []string { return nil }
