module yields

go 1.12
