module verifsim/simrt

go 1.24
