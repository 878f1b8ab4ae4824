// Code generated by gosym alias; the parts of path/filepath the model leaves as they are.

package vfilepath

import real_ "path/filepath"

const (
	ListSeparator = real_.ListSeparator
	Separator     = real_.Separator
)

type (
	WalkFunc = real_.WalkFunc
)

var (
	Base          = real_.Base
	Clean         = real_.Clean
	Dir           = real_.Dir
	ErrBadPattern = real_.ErrBadPattern
	Ext           = real_.Ext
	FromSlash     = real_.FromSlash
	HasPrefix     = real_.HasPrefix
	IsAbs         = real_.IsAbs
	IsLocal       = real_.IsLocal
	Join          = real_.Join
	Localize      = real_.Localize
	Match         = real_.Match
	Rel           = real_.Rel
	SkipAll       = real_.SkipAll
	SkipDir       = real_.SkipDir
	Split         = real_.Split
	SplitList     = real_.SplitList
	ToSlash       = real_.ToSlash
	VolumeName    = real_.VolumeName
)
