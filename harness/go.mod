module vh

go 1.21

require github.com/bwesterb/go-ristretto v0.0.0

replace github.com/bwesterb/go-ristretto => /repo
