module verif

go 1.27

require pgregory.net/rapid v1.3.0
