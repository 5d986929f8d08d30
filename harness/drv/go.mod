module verifdrv

go 1.23
