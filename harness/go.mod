module verif

go 1.25

require github.com/chanjarster/gears v0.0.0

require (
	github.com/go-redis/redis/v7 v7.2.0 // indirect
	github.com/modern-go/reflect2 v1.0.2 // indirect
)

replace github.com/chanjarster/gears => /repo
