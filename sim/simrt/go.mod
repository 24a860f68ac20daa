module simrt

go 1.23

require (
	github.com/go-ini/ini v1.67.0
	github.com/rs/xid v1.4.0
)
