module verif/monitor

go 1.23.0

require (
	github.com/MatProGo-dev/SymbolicMath.go v0.0.0
	gonum.org/v1/gonum v0.16.0
)

replace github.com/MatProGo-dev/SymbolicMath.go => /repo
