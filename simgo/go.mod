module verif/simgo

go 1.23
