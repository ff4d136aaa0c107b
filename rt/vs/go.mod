module verif/vs

go 1.18
