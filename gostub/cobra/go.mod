module github.com/spf13/cobra

go 1.21
