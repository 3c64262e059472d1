module drive

go 1.22
