module crunchsim

go 1.23
