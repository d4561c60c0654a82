module verif/harness

go 1.23

require (
	github.com/yangl1996/rateless-set-reconcile v0.0.0
	verif/simrt v0.0.0
)

replace verif/simrt => ../simrt
