//go:build !zz

package main

func setPoint(f func()) {}
