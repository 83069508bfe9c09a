module verif/harness

go 1.26

require (
	github.com/ethereum/go-ethereum v1.9.2
	github.com/philhofer/seth v0.0.0
	github.com/tinylib/msgp v1.1.0
	golang.org/x/crypto v0.0.0-20190820162420-60c769a6c586
	pgregory.net/rapid v1.3.0
)

require (
	github.com/allegro/bigcache v1.2.1 // indirect
	github.com/aristanetworks/goarista v0.0.0-20190712234253-ed1100a1c015 // indirect
	github.com/elastic/gosigar v0.10.4 // indirect
	github.com/go-stack/stack v1.8.0 // indirect
	github.com/philhofer/fwd v1.0.0 // indirect
	github.com/steakknife/bloomfilter v0.0.0-20180922174646-6819c0d2a570 // indirect
	github.com/steakknife/hamming v0.0.0-20180906055917-c99c65617cd3 // indirect
	golang.org/x/sys v0.0.0-20190826190057-c7b8b68b1456 // indirect
)

replace github.com/philhofer/seth => /repo
