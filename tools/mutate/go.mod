module mutate

go 1.12
