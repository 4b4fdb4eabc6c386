module gomut

go 1.27
