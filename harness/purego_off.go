//go:build !purego

package main

const purego = false
