// Command only is a program that uses Keccak and nothing else that hashes. For
// each message on its input, in hex, it prints the digests of what the standard
// library's registry has as SHA-3, or - for those that are not there.
package main

import (
	"bufio"
	"crypto"
	"encoding/hex"
	"fmt"
	"os"

	"github.com/philhofer/seth/keccak"
)

func main() {
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(nil, 1<<20)
	for in.Scan() {
		msg, err := hex.DecodeString(in.Text())
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		s := keccak.Sum256(msg)
		fmt.Printf("%x", s)
		for _, k := range []crypto.Hash{crypto.SHA3_224, crypto.SHA3_256, crypto.SHA3_384, crypto.SHA3_512} {
			if !k.Available() {
				fmt.Print(" -")
				continue
			}
			h := k.New()
			h.Write(msg)
			fmt.Printf(" %x", h.Sum(nil))
		}
		fmt.Println()
	}
}
