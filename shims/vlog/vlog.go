// Package vlog stands for logrus: it records the entries; Fatal ends the process with status 1.
package vlog

import (
	"errors"
	"fmt"
	"io"
	"sort"

	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
)

type Fields map[string]interface{}

type Level uint32

const (
	PanicLevel Level = iota
	FatalLevel
	ErrorLevel
	WarnLevel
	InfoLevel
	DebugLevel
	TraceLevel
)

var names = []string{"panic", "fatal", "error", "warning", "info", "debug", "trace"}

func (l Level) String() string { return names[l] }

var AllLevels = []Level{PanicLevel, FatalLevel, ErrorLevel, WarnLevel, InfoLevel, DebugLevel, TraceLevel}

const ErrorKey = "error"

// Formatter of the output is accepted and ignored.
type Formatter interface {
	Format(*Entry) ([]byte, error)
}
type Hook interface {
	Levels() []Level
	Fire(*Entry) error
}
type FieldMap map[string]string
type JSONFormatter struct {
	TimestampFormat   string
	DisableTimestamp  bool
	DisableHTMLEscape bool
	DataKey           string
	FieldMap          FieldMap
	CallerPrettyfier  any
	PrettyPrint       bool
}

// Format is the record on a line of its own; the time is left out, pretty printing takes several lines.
func (f *JSONFormatter) Format(e *Entry) ([]byte, error) {
	sep := ","
	if f.PrettyPrint {
		sep = ",\n  "
	}
	var keys []string
	for k := range e.Data {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	s := "{"
	for _, k := range keys {
		s += `"` + k + `":"` + Quote(fmt.Sprint(e.Data[k])) + `"` + sep
	}
	s += `"level":"` + e.Level.String() + `"` + sep + `"msg":"` + Quote(e.Message) + `"}` + "\n"
	return []byte(s), nil
}

type TextFormatter struct {
	ForceColors, DisableColors, DisableTimestamp, FullTimestamp, DisableQuote bool
	TimestampFormat                                                           string
}

func (f *TextFormatter) Format(e *Entry) ([]byte, error) {
	return []byte("level=" + e.Level.String() + ` msg="` + Quote(e.Message) + `"` + "\n"), nil
}

// Rec is a recorded entry.
type Rec struct {
	Level  Level
	Format string
	Args   []interface{}
	Data   Fields
	// On says whether the level was enabled, Hooked whether a hook was there.
	On, Hooked bool
}

// Message is the text of the entry.
func (r Rec) Message() string {
	if r.Format != "" {
		return fmt.Sprintf(r.Format, r.Args...)
	}
	return fmt.Sprint(r.Args...)
}

// Quote is a text as it is in a JSON record.
func Quote(s string) string {
	r := ""
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '\n':
			r += "\\n"
		case '\t':
			r += "\\t"
		case '"', '\\':
			r += "\\" + s[i:i+1]
		default:
			r += s[i : i+1]
		}
	}
	return r
}

var (
	// Entries are all entries logged so far.
	Entries []Rec
	std     = &Logger{Level: InfoLevel}
)

// Reset forgets the entries.
func Reset() {
	Entries = nil
	std = &Logger{Level: InfoLevel}
}

type Logger struct {
	Out       io.Writer
	Formatter Formatter
	Level     Level
	ExitFunc  func(int)
	Hooks     LevelHooks
}

func New() *Logger            { return &Logger{Level: InfoLevel} }
func StandardLogger() *Logger { return std }

type Entry struct {
	Logger  *Logger
	Data    Fields
	Level   Level
	Message string
	Context any
}

func NewEntry(l *Logger) *Entry { return &Entry{Logger: l} }

func record(l Level, f string, args []interface{}, d Fields) {
	sym.Gate()
	sym.Lock()
	r := Rec{l, f, args, d, std.Level >= l, len(std.Hooks[l]) > 0}
	Entries = append(Entries, r)
	hooks := std.Hooks[l]
	sym.Unlock()
	if r.On && len(hooks) > 0 {
		e := &Entry{Logger: std, Data: d, Level: l, Message: r.Message()}
		for _, h := range hooks {
			if h.Fire(e) != nil {
				break
			}
		}
	}
	if l == FatalLevel {
		sym.Exit(1)
	}
	if l == PanicLevel {
		panic("log: panic level")
	}
}

func (e *Entry) WithFields(f Fields) *Entry {
	d := Fields{}
	for k, v := range e.Data {
		d[k] = v
	}
	for k, v := range f {
		d[k] = v
	}
	return &Entry{Logger: e.Logger, Data: d}
}
func (e *Entry) WithField(k string, v interface{}) *Entry { return e.WithFields(Fields{k: v}) }
func (e *Entry) WithError(err error) *Entry               { return e.WithField(ErrorKey, err) }
func (e *Entry) String() (string, error)                  { return e.Message, nil }

func (e *Entry) Log(l Level, args ...interface{})   { record(l, "", args, e.Data) }
func (e *Entry) Logln(l Level, args ...interface{}) { record(l, "", args, e.Data) }
func (e *Entry) Logf(l Level, f string, args ...interface{}) {
	record(l, f, args, e.Data)
}

func (l *Logger) WithFields(f Fields) *Entry { return (&Entry{Logger: l}).WithFields(f) }
func (l *Logger) WithField(k string, v interface{}) *Entry {
	return (&Entry{Logger: l}).WithField(k, v)
}
func (l *Logger) WithError(err error) *Entry { return (&Entry{Logger: l}).WithError(err) }
func (l *Logger) SetLevel(x Level)           { l.Level = x }
func (l *Logger) GetLevel() Level            { return l.Level }
func (l *Logger) SetOutput(w io.Writer)      { l.Out = w }
func (l *Logger) SetFormatter(f Formatter)   { l.Formatter = f }
func (l *Logger) AddHook(h Hook) {
	if l.Hooks == nil {
		l.Hooks = LevelHooks{}
	}
	l.Hooks.Add(h)
}

func WithFields(f Fields) *Entry               { return std.WithFields(f) }
func WithField(k string, v interface{}) *Entry { return std.WithField(k, v) }
func WithError(err error) *Entry               { return std.WithError(err) }
func SetLevel(x Level)                         { std.Level = x }
func GetLevel() Level                          { return std.Level }
func IsLevelEnabled(x Level) bool              { return std.Level >= x }
func SetOutput(w io.Writer)                    {}
func SetFormatter(f Formatter)                 { std.Formatter = f }
func SetReportCaller(b bool)                   {}
func AddHook(h Hook)                           { std.AddHook(h) }

func ParseLevel(s string) (Level, error) {
	for i, n := range names {
		if s == n || s == "warn" && n == "warning" {
			return Level(i), nil
		}
	}
	return 0, errors.New("not a valid logrus Level: " + s)
}

// Logged reports whether an entry of at least this severity was logged.
func Logged(l Level) bool {
	for _, r := range Entries {
		if r.Level <= l {
			return true
		}
	}
	return false
}
