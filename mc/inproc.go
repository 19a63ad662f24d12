//go:build go1.22 && !mccli

package main

import (
	_ "unsafe" // for linkname

	"github.com/spf13/viper"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/commands"
)

//go:linkname cobraInitializers github.com/spf13/cobra.initializers
var cobraInitializers []func()

// execute runs the tool's command line in this process; without it (build tag
// mccli) every run is a run of the binary.
var execute = func(args []string) error {
	viper.Reset()

	cobraInitializers = nil

	root := commands.New()
	root.Command.SetArgs(args)

	return root.Command.Execute()
}
