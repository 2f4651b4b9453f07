module gmc

go 1.27
