module verifrewrite

go 1.20
