module mutate
go 1.22
