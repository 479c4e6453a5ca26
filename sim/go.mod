module mcverif

go 1.25

require (
	github.com/mmdet/mcrypto v0.0.0
	golang.org/x/crypto v0.18.0
)

replace github.com/mmdet/mcrypto => /repo
