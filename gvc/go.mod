module gvc

go 1.23
