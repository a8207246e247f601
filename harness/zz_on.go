//go:build zz

package main

import "github.com/jhump/gopoet"

func setPoint(f func()) { gopoet.ZZPoint = f }
