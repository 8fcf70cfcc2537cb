module vmc

go 1.25
