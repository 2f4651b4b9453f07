module github.com/singchia/go-timer/v2

go 1.27

require gmc v0.0.0

replace gmc => ../
