module xvreplay

go 1.13

require github.com/liujiangwei/xxcache v0.0.0

replace github.com/liujiangwei/xxcache => /repo
