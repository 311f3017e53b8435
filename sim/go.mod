module fsim

go 1.24
