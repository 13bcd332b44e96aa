module jlibverif/simctl

go 1.23
