//go:build go1.22 && !mcfault

package main

func armFault(string) int { return 0 }

const haveFaults = false

func onExit(func(code int)) {}
