module verifsim/harness

go 1.24
