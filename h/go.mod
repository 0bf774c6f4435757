module verif

go 1.27

require github.com/maxnikulin/burl v0.0.0

replace github.com/maxnikulin/burl => /repo
