module verif/mon

go 1.21

require (
	github.com/emirpasic/gods v1.12.0
	github.com/msnoigrs/gosudachi v0.0.0
	golang.org/x/text v0.3.0
)

require golang.org/x/sys v0.0.0-20190310054646-10058d7d4faa // indirect

replace github.com/msnoigrs/gosudachi => /repo
