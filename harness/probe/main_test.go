package main

import (
	"os"
	"testing"
)

func TestMain(*testing.M) {
	main()
	os.Exit(0)
}
