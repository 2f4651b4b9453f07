module conformance

go 1.23

require github.com/singchia/go-timer/v2 v2.2.1
