//go:build purego

package main

const purego = true
