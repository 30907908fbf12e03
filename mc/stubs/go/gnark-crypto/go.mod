module github.com/consensys/gnark-crypto

go 1.23
