module verif

go 1.23

require github.com/barnex/bruteray v0.0.0

replace github.com/barnex/bruteray => /repo
