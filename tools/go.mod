module verif/tools

go 1.21

require verif/vs v0.0.0

replace verif/vs => ../rt/vs
