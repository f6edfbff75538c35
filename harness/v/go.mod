module verif.test/v

go 1.18
