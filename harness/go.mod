module verif/harness

go 1.23

require github.com/v2pro/plz v0.0.0

replace github.com/v2pro/plz => /repo
