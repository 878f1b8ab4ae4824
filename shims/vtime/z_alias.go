// Code generated by gosym alias; the parts of time the model leaves as they are.

package vtime

import real_ "time"

const (
	ANSIC       = real_.ANSIC
	April       = real_.April
	August      = real_.August
	DateOnly    = real_.DateOnly
	DateTime    = real_.DateTime
	December    = real_.December
	February    = real_.February
	Friday      = real_.Friday
	Hour        = real_.Hour
	January     = real_.January
	July        = real_.July
	June        = real_.June
	Kitchen     = real_.Kitchen
	Layout      = real_.Layout
	March       = real_.March
	May         = real_.May
	Microsecond = real_.Microsecond
	Millisecond = real_.Millisecond
	Minute      = real_.Minute
	Monday      = real_.Monday
	Nanosecond  = real_.Nanosecond
	November    = real_.November
	October     = real_.October
	RFC1123     = real_.RFC1123
	RFC1123Z    = real_.RFC1123Z
	RFC3339     = real_.RFC3339
	RFC3339Nano = real_.RFC3339Nano
	RFC822      = real_.RFC822
	RFC822Z     = real_.RFC822Z
	RFC850      = real_.RFC850
	RubyDate    = real_.RubyDate
	Saturday    = real_.Saturday
	Second      = real_.Second
	September   = real_.September
	Stamp       = real_.Stamp
	StampMicro  = real_.StampMicro
	StampMilli  = real_.StampMilli
	StampNano   = real_.StampNano
	Sunday      = real_.Sunday
	Thursday    = real_.Thursday
	TimeOnly    = real_.TimeOnly
	Tuesday     = real_.Tuesday
	UnixDate    = real_.UnixDate
	Wednesday   = real_.Wednesday
)

type (
	Duration   = real_.Duration
	Location   = real_.Location
	Month      = real_.Month
	ParseError = real_.ParseError
	Ticker     = real_.Ticker
	Time       = real_.Time
	Timer      = real_.Timer
	Weekday    = real_.Weekday
)

var (
	After                  = real_.After
	AfterFunc              = real_.AfterFunc
	Date                   = real_.Date
	FixedZone              = real_.FixedZone
	LoadLocation           = real_.LoadLocation
	LoadLocationFromTZData = real_.LoadLocationFromTZData
	Local                  = real_.Local
	NewTicker              = real_.NewTicker
	NewTimer               = real_.NewTimer
	Parse                  = real_.Parse
	ParseDuration          = real_.ParseDuration
	ParseInLocation        = real_.ParseInLocation
	Tick                   = real_.Tick
	UTC                    = real_.UTC
	Unix                   = real_.Unix
	UnixMicro              = real_.UnixMicro
	UnixMilli              = real_.UnixMilli
)
