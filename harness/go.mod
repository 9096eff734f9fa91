module verifharness

go 1.14

require (
	github.com/aligator/goslice v0.0.0
)

replace github.com/aligator/goslice => /repo
