module ringoverif

go 1.24
