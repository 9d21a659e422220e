module verifharness

go 1.21

require github.com/v2pro/plz v0.0.0

require (
	github.com/json-iterator/go v1.1.10 // indirect
	github.com/modern-go/concurrent v0.0.0-20180228061459-e0a39a4cb421 // indirect
	github.com/modern-go/reflect2 v0.0.0-20180701023420-4b7aa43c6742 // indirect
	github.com/rakyll/statik v0.1.7 // indirect
)

replace github.com/v2pro/plz => /repo
