module gomut

go 1.20
