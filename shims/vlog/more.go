package vlog

import (
	"context"
	"io"
	"time"

	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
)

// LogFunction makes the arguments of an entry.
type LogFunction func() []interface{}

func TraceFn(fn LogFunction)               { record(TraceLevel, "", fn(), nil) }
func (l *Logger) TraceFn(fn LogFunction)   { record(TraceLevel, "", fn(), nil) }
func DebugFn(fn LogFunction)               { record(DebugLevel, "", fn(), nil) }
func (l *Logger) DebugFn(fn LogFunction)   { record(DebugLevel, "", fn(), nil) }
func InfoFn(fn LogFunction)                { record(InfoLevel, "", fn(), nil) }
func (l *Logger) InfoFn(fn LogFunction)    { record(InfoLevel, "", fn(), nil) }
func PrintFn(fn LogFunction)               { record(InfoLevel, "", fn(), nil) }
func (l *Logger) PrintFn(fn LogFunction)   { record(InfoLevel, "", fn(), nil) }
func WarnFn(fn LogFunction)                { record(WarnLevel, "", fn(), nil) }
func (l *Logger) WarnFn(fn LogFunction)    { record(WarnLevel, "", fn(), nil) }
func WarningFn(fn LogFunction)             { record(WarnLevel, "", fn(), nil) }
func (l *Logger) WarningFn(fn LogFunction) { record(WarnLevel, "", fn(), nil) }
func ErrorFn(fn LogFunction)               { record(ErrorLevel, "", fn(), nil) }
func (l *Logger) ErrorFn(fn LogFunction)   { record(ErrorLevel, "", fn(), nil) }
func FatalFn(fn LogFunction)               { record(FatalLevel, "", fn(), nil) }
func (l *Logger) FatalFn(fn LogFunction)   { record(FatalLevel, "", fn(), nil) }
func PanicFn(fn LogFunction)               { record(PanicLevel, "", fn(), nil) }
func (l *Logger) PanicFn(fn LogFunction)   { record(PanicLevel, "", fn(), nil) }

const (
	FieldKeyMsg         = "msg"
	FieldKeyLevel       = "level"
	FieldKeyTime        = "time"
	FieldKeyLogrusError = "logrus_error"
	FieldKeyFunc        = "func"
	FieldKeyFile        = "file"
)

type LevelHooks map[Level][]Hook

func (hooks LevelHooks) Add(h Hook) {
	for _, l := range h.Levels() {
		hooks[l] = append(hooks[l][:len(hooks[l]):len(hooks[l])], h)
	}
}

func (hooks LevelHooks) Fire(l Level, e *Entry) error {
	for _, h := range hooks[l] {
		if err := h.Fire(e); err != nil {
			return err
		}
	}
	return nil
}

func Exit(code int)                        { sym.Exit(code) }
func (l *Logger) Exit(code int)            { sym.Exit(code) }
func RegisterExitHandler(f func())         {}
func DeferExitHandler(f func())            {}
func WithContext(c context.Context) *Entry { return NewEntry(std) }
func WithTime(t time.Time) *Entry          { return NewEntry(std) }

func (e *Entry) WithContext(c context.Context) *Entry { return e }
func (e *Entry) WithTime(t time.Time) *Entry          { return e }
func (e *Entry) Dup() *Entry                          { return e.WithFields(nil) }
func (e *Entry) HasCaller() bool                      { return false }
func (e *Entry) Bytes() ([]byte, error)               { return []byte(e.Message), nil }

func (l *Logger) WithContext(c context.Context) *Entry        { return NewEntry(l) }
func (l *Logger) WithTime(t time.Time) *Entry                 { return NewEntry(l) }
func (l *Logger) IsLevelEnabled(x Level) bool                 { return l.Level >= x }
func (l *Logger) Log(x Level, args ...interface{})            { record(x, "", args, nil) }
func (l *Logger) Logln(x Level, args ...interface{})          { record(x, "", args, nil) }
func (l *Logger) Logf(x Level, f string, args ...interface{}) { record(x, f, args, nil) }
func (l *Logger) LogFn(x Level, fn LogFunction)               { record(x, "", fn(), nil) }
func (l *Logger) SetReportCaller(b bool)                      {}
func (l *Logger) SetNoLock()                                  {}
func (l *Logger) ReplaceHooks(h LevelHooks) LevelHooks {
	old := l.Hooks
	l.Hooks = h
	return old
}
func (l *Logger) Writer() io.Writer { return io.Discard }

func (l Level) MarshalText() ([]byte, error) { return []byte(l.String()), nil }
func (l *Level) UnmarshalText(b []byte) error {
	x, err := ParseLevel(string(b))
	if err == nil {
		*l = x
	}
	return err
}

type StdLogger interface {
	Print(...interface{})
	Printf(string, ...interface{})
	Println(...interface{})
	Fatal(...interface{})
	Fatalf(string, ...interface{})
	Fatalln(...interface{})
	Panic(...interface{})
	Panicf(string, ...interface{})
	Panicln(...interface{})
}

type FieldLogger interface {
	StdLogger
	WithField(key string, value interface{}) *Entry
	WithFields(fields Fields) *Entry
	WithError(err error) *Entry
	Debugf(format string, args ...interface{})
	Infof(format string, args ...interface{})
	Warnf(format string, args ...interface{})
	Warningf(format string, args ...interface{})
	Errorf(format string, args ...interface{})
	Debug(args ...interface{})
	Info(args ...interface{})
	Warn(args ...interface{})
	Warning(args ...interface{})
	Error(args ...interface{})
	Debugln(args ...interface{})
	Infoln(args ...interface{})
	Warnln(args ...interface{})
	Warningln(args ...interface{})
	Errorln(args ...interface{})
}

type Ext1FieldLogger interface {
	FieldLogger
	Tracef(format string, args ...interface{})
	Trace(args ...interface{})
	Traceln(args ...interface{})
}
