//go:build !yubihsm

package yubip
