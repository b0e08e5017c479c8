module replay

go 1.21

require github.com/jchv/cleansheets v0.0.0

replace github.com/jchv/cleansheets => /repo
