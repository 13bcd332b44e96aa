//go:build withfifo

package main

import "jlibverif/worker/fifoapp"

func init() { fifoMain = fifoapp.Main }
