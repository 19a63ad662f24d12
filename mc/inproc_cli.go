//go:build go1.22 && mccli

package main

var execute func(args []string) error
