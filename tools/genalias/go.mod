module genalias

go 1.25
