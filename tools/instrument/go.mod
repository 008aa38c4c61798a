module instrument

go 1.21
