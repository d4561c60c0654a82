module verif/simx

go 1.23

require (
	golang.org/x/crypto v0.0.0-20211215153901-e495a2d5b3d3
	verif/simrt v0.0.0
)

replace verif/simrt => ../simrt
