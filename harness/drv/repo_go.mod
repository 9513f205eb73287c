module github.com/mottla/go-AlgebraicProgram-SNARK

go 1.21
