module zrt

go 1.23
