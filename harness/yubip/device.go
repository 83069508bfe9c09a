//go:build yubihsm

// Package yubip checks the YubiHSM driver against a stand-in device library,
// which check.py builds from device/ and links in place of the SDK's.
package yubip

// #include <stdlib.h>
// void vk_arm(const char *call, int in, int rc);
// int vk_disarm(void);
// void vk_slow(int ms);
import "C"

import "unsafe"

// Arm makes the in-th call of the named function from now on fail with rc.
func Arm(call string, in, rc int) {
	s := C.CString(call)
	defer C.free(unsafe.Pointer(s))
	C.vk_arm(s, C.int(in), C.int(rc))
}

// Disarm takes back what Arm did and tells whether it happened.
func Disarm() bool { return C.vk_disarm() != 0 }

// Slow makes the device take that many milliseconds to sign.
func Slow(ms int) { C.vk_slow(C.int(ms)) }
