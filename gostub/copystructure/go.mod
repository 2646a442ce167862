module github.com/mitchellh/copystructure

go 1.21
