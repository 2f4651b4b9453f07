module gmch

go 1.27

require (
	github.com/jumboframes/armorigo v0.2.5
	github.com/singchia/geminio v0.0.0
	github.com/singchia/go-timer/v2 v2.2.1
	github.com/singchia/yafsm v1.0.1 // indirect
	gmc v0.0.0
)

replace github.com/singchia/geminio => /repo

replace gmc => /verif/gmc

replace github.com/singchia/go-timer/v2 => /verif/gmc/timer
