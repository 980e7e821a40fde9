// The harness: closed programs over the public API, one per scenario.
package main

import "github.com/luxfi/zmq/v4/internal/zzmc/mc"

func main() { mc.Main() }
