module jlibverif/worker

go 1.23
