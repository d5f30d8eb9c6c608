module verifsim/simgen

go 1.24
