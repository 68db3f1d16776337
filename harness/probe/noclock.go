//go:build !clock

package main

func forward(int) {}
