module vpharness

go 1.23

require github.com/ProtonMail/go-rfc5322 v0.0.0

require github.com/antlr/antlr4/runtime/Go/antlr v0.0.0-20220816024939-bc8df83d7b9d // indirect

replace github.com/ProtonMail/go-rfc5322 => /repo
