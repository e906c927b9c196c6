module tsverif

go 1.26.0

require (
	github.com/monstermichl/typeshell v0.0.0
	golang.org/x/tools v0.52.0
)

require (
	golang.org/x/mod v0.42.0 // indirect
	golang.org/x/sync v0.24.0 // indirect
)

replace github.com/monstermichl/typeshell => /repo
