module github.com/consensys/gnark

go 1.23

require github.com/consensys/gnark-crypto v0.0.0
