module verif

go 1.26
