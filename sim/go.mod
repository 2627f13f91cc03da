module vdst

go 1.24
