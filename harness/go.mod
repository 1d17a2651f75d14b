module vh

go 1.20
