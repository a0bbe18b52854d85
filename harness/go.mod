module soqlverif

go 1.20

require github.com/shellyln/go-open-soql-parser v0.0.0

require (
	github.com/shellyln/go-nameutil v0.0.2 // indirect
	github.com/shellyln/takenoco v0.0.13 // indirect
)

replace github.com/shellyln/go-open-soql-parser => /repo
