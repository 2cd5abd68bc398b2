module verif/harness

go 1.20

require github.com/ZZMarquis/gm v0.0.0

replace github.com/ZZMarquis/gm => /repo
