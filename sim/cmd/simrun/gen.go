//go:build gen

package main

// The routers and wrappers the generators produce now.
import _ "github.com/smart-core-os/sc-golang/verifsim/gentable"
