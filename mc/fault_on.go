//go:build go1.22 && mcfault

package main

import "os"

// armFault arms the faults of a specification in the patched os package.
func armFault(spec string) int { return os.VerifArm(spec) }

const haveFaults = true

// onExit has os.Exit call f first (nil: nothing).
func onExit(f func(code int)) { os.VerifExit = f }
