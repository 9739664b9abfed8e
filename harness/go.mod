module vmon

go 1.22
