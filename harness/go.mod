module verif

go 1.27

require github.com/jhump/gopoet v0.0.0

replace github.com/jhump/gopoet => /repo
