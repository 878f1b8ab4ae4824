// Code generated by gosym alias; the parts of os the model leaves as they are.

package vos

import real_ "os"

const (
	DevNull           = real_.DevNull
	ModeAppend        = real_.ModeAppend
	ModeCharDevice    = real_.ModeCharDevice
	ModeDevice        = real_.ModeDevice
	ModeDir           = real_.ModeDir
	ModeExclusive     = real_.ModeExclusive
	ModeIrregular     = real_.ModeIrregular
	ModeNamedPipe     = real_.ModeNamedPipe
	ModePerm          = real_.ModePerm
	ModeSetgid        = real_.ModeSetgid
	ModeSetuid        = real_.ModeSetuid
	ModeSocket        = real_.ModeSocket
	ModeSticky        = real_.ModeSticky
	ModeSymlink       = real_.ModeSymlink
	ModeTemporary     = real_.ModeTemporary
	ModeType          = real_.ModeType
	O_APPEND          = real_.O_APPEND
	O_CREATE          = real_.O_CREATE
	O_EXCL            = real_.O_EXCL
	O_RDONLY          = real_.O_RDONLY
	O_RDWR            = real_.O_RDWR
	O_SYNC            = real_.O_SYNC
	O_TRUNC           = real_.O_TRUNC
	O_WRONLY          = real_.O_WRONLY
	PathListSeparator = real_.PathListSeparator
	PathSeparator     = real_.PathSeparator
	SEEK_CUR          = real_.SEEK_CUR
	SEEK_END          = real_.SEEK_END
	SEEK_SET          = real_.SEEK_SET
)

type (
	DirEntry     = real_.DirEntry
	FileInfo     = real_.FileInfo
	FileMode     = real_.FileMode
	LinkError    = real_.LinkError
	PathError    = real_.PathError
	ProcAttr     = real_.ProcAttr
	Signal       = real_.Signal
	SyscallError = real_.SyscallError
)

var (
	CopyFS              = real_.CopyFS
	ErrClosed           = real_.ErrClosed
	ErrDeadlineExceeded = real_.ErrDeadlineExceeded
	ErrExist            = real_.ErrExist
	ErrInvalid          = real_.ErrInvalid
	ErrNoDeadline       = real_.ErrNoDeadline
	ErrNotExist         = real_.ErrNotExist
	ErrPermission       = real_.ErrPermission
	ErrProcessDone      = real_.ErrProcessDone
	Expand              = real_.Expand
	FindProcess         = real_.FindProcess
	Getegid             = real_.Getegid
	Getgroups           = real_.Getgroups
	Getpagesize         = real_.Getpagesize
	Interrupt           = real_.Interrupt
	IsExist             = real_.IsExist
	IsNotExist          = real_.IsNotExist
	IsPathSeparator     = real_.IsPathSeparator
	IsPermission        = real_.IsPermission
	IsTimeout           = real_.IsTimeout
	Kill                = real_.Kill
	NewFile             = real_.NewFile
	NewSyscallError     = real_.NewSyscallError
	OpenInRoot          = real_.OpenInRoot
	Pipe                = real_.Pipe
	StartProcess        = real_.StartProcess
)
