module gonum.org/v1/gonum

go 1.22
