module gvc

go 1.26
