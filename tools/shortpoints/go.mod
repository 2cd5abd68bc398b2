module shortpoints

go 1.12
