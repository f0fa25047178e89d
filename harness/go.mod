module zsverif

go 1.24.4

require (
	github.com/icza/bitio v1.1.0
	github.com/woven-planet/go-zserio v0.0.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/x448/float16 v0.8.4 // indirect
	golang.org/x/exp v0.0.0-20250620022241-b7579e27df2b // indirect
)

replace github.com/woven-planet/go-zserio => /repo
