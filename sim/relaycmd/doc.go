// Package relaycmd is the source of /repo/cmd/relay, mapped in by
// tools/overlay.py with its package clause changed; only this file is here.
package relaycmd

// Main is the command itself.
func Main() { main() }
