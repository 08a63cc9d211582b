module github.com/continusec/objecthash

go 1.20
