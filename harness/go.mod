module verif/harness

go 1.23

require (
	github.com/steelseries/golisp v0.0.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/SteelSeries/bufrr v0.0.0-20161129220322-72103137aa3c // indirect
	github.com/SteelSeries/set.v0 v0.0.0-20141210084824-27c40922c40b // indirect
)

replace github.com/steelseries/golisp => /repo
