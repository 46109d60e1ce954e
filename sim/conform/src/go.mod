module conform

go 1.17
