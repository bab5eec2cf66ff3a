module verifharness

go 1.21

require (
	github.com/RH12503/Triangula v0.0.0
	github.com/fogleman/delaunay v0.0.0-20180910191513-63f09b4c883d
)

require (
	github.com/dgryski/go-pcgr v0.0.0-20190219145045-9a7ede0ca611 // indirect
	github.com/panjf2000/ants/v2 v2.4.3 // indirect
)

replace github.com/RH12503/Triangula => /repo
