module a.test/aaa

go 1.22
