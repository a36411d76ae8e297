module verif/harness

go 1.23
