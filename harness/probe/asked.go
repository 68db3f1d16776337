//go:build asked

package main

import "syscall"

// asked lists the variables and files that were asked for.
func asked() []string { return syscall.Asked() }
