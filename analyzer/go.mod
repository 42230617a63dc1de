module verif/analyzer

go 1.25.0

require golang.org/x/tools v0.40.0

require (
	github.com/actgardner/gogen-avro/v7 v7.3.1
	golang.org/x/mod v0.31.0 // indirect
	golang.org/x/sync v0.19.0 // indirect
)
