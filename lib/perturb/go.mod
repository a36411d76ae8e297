module perturb

go 1.17
