package main

import (
	"fmt"
	"testing"
)

// TestMineShort prints the table leadingZero.
func TestMineShort(t *testing.T) {
	for i := 0; i < 2; i++ {
		k := stdKey("rsa", i)
		for _, alg := range k.algs()[1:] {
			for c := uint64(1); ; c++ {
				if _, s := shortSig(k, i, alg, c); len(s) > 0 && s[0] == 0 {
					fmt.Printf("\t\"%d/%d\": %d,\n", i, int(alg), c)
					break
				}
			}
		}
	}
}
