// Package vviper stands for viper: a table of settings filled by the harness.
package vviper

import (
	"errors"
	"io"
	"strconv"
	"strings"

	"github.com/metrumresearchgroup/pkgr/verifsym/vos"
)

type ConfigParseError struct{ err error }

func (e ConfigParseError) Error() string { return "While parsing config" }

type ConfigFileNotFoundError struct{}

func (ConfigFileNotFoundError) Error() string { return "config file not found" }

// Viper holds the sources of settings, the first one that has a setting wins:
// Values (set explicitly), flags given on the command line, environment
// variables, the configuration file, Defaults, defaults of flags.
type Viper struct {
	Values   map[string]any
	Defaults map[string]any
	Config   map[string]any
	flags    map[string]any
	env      map[string]string
	prefix   string
	file     string
	typ      string
}

func New() *Viper {
	return &Viper{Values: map[string]any{}, Defaults: map[string]any{}, Config: map[string]any{},
		flags: map[string]any{}, env: map[string]string{}}
}

var (
	v = New()
	// OnUnmarshal fills the configuration structure.
	OnUnmarshal func(out any) error
	// OnReadConfig sees the configuration text.
	OnReadConfig func(text []byte) error
	// Parse, Decode and FlagValue are set by vviper/full, which has the real
	// YAML reader, the real decoder and the real flags do their work.
	Parse     func(text []byte) (map[string]any, error)
	Decode    func(in map[string]any, out any) error
	FlagValue func(flag any) (value any, changed bool)
)

func GetViper() *Viper { return v }

// Reset forgets all settings and keeps the bound flags.
func Reset() {
	n := New()
	n.flags = v.flags
	v = n
}

func (v *Viper) Set(k string, x any)        { v.Values[strings.ToLower(k)] = x }
func (v *Viper) SetDefault(k string, x any) { v.Defaults[strings.ToLower(k)] = x }
func (v *Viper) Get(k string) any {
	k = strings.ToLower(k)
	if x, ok := v.Values[k]; ok {
		return x
	}
	var flagDefault any
	if f, ok := v.flags[k]; ok && FlagValue != nil {
		x, changed := FlagValue(f)
		if changed {
			return x
		}
		flagDefault = x
	}
	if e, ok := v.env[k]; ok {
		if x := vos.Getenv(e); x != "" {
			return x
		}
	}
	if x := v.Config[k]; x != nil {
		return x
	}
	if x, ok := v.Defaults[k]; ok {
		return x
	}
	return flagDefault
}
func (v *Viper) IsSet(k string) bool { return v.Get(k) != nil }
func (v *Viper) GetString(k string) string {
	switch x := v.Get(k).(type) {
	case string:
		return x
	case bool:
		return strconv.FormatBool(x)
	case int:
		return strconv.Itoa(x)
	}
	return ""
}
func (v *Viper) GetBool(k string) bool {
	switch x := v.Get(k).(type) {
	case bool:
		return x
	case string:
		b, _ := strconv.ParseBool(x)
		return b
	case int:
		return x != 0
	}
	return false
}
func (v *Viper) GetInt(k string) int {
	switch x := v.Get(k).(type) {
	case int:
		return x
	case string:
		n, _ := strconv.Atoi(x)
		return n
	}
	return 0
}
func (v *Viper) GetStringSlice(k string) []string {
	x, _ := v.Get(k).([]string)
	return x
}
func (v *Viper) Sub(k string) *Viper {
	switch x := v.Get(k).(type) {
	case *Viper:
		return x
	case map[string]any:
		n := New()
		for a, b := range x {
			n.Values[strings.ToLower(a)] = b
		}
		return n
	}
	return nil
}
func (v *Viper) AllSettings() map[string]any {
	m := map[string]any{}
	for k := range v.flags {
		m[k] = nil
	}
	for k := range v.env {
		m[k] = nil
	}
	for k := range v.Config {
		m[k] = nil
	}
	for k := range v.Defaults {
		m[k] = nil
	}
	for k := range v.Values {
		m[k] = nil
	}
	for k := range m {
		if x := v.Get(k); x != nil {
			m[k] = x
		} else {
			delete(m, k)
		}
	}
	return m
}
func (v *Viper) SetConfigFile(f string) {
	if f != "" {
		v.file = f
	}
}
func (v *Viper) ConfigFileUsed() string { return v.file }
func (v *Viper) SetConfigName(string)   {}
func (v *Viper) SetConfigType(t string) { v.typ = t }
func (v *Viper) AddConfigPath(string)   {}
func (v *Viper) SetEnvPrefix(p string)  { v.prefix = p }
func (v *Viper) AutomaticEnv()          {}
func (v *Viper) BindEnv(in ...string) error {
	if len(in) == 0 {
		return errors.New("missing key to bind to")
	}
	k := strings.ToLower(in[0])
	if len(in) > 1 {
		v.env[k] = in[1]
	} else if v.prefix != "" {
		v.env[k] = strings.ToUpper(v.prefix + "_" + k)
	} else {
		v.env[k] = strings.ToUpper(k)
	}
	return nil
}
func (v *Viper) BindPFlag(k string, f any) error {
	v.flags[strings.ToLower(k)] = f
	return nil
}
func (v *Viper) ReadInConfig() error { return nil }
func (v *Viper) ReadConfig(r io.Reader) error {
	b, err := io.ReadAll(r)
	if err == nil && OnReadConfig != nil {
		return OnReadConfig(b)
	}
	if err == nil && Parse != nil && v.typ == "toml" {
		m, err := assignments(string(b))
		if err != nil {
			return ConfigParseError{err}
		}
		v.Config = m
		return nil
	}
	if err == nil && Parse != nil {
		m, err := Parse(b)
		if err != nil {
			return ConfigParseError{err}
		}
		v.Config = m
	}
	return err
}

// assignments reads what there is of TOML in /etc/os-release: name="value" lines.
func assignments(text string) (map[string]any, error) {
	m := map[string]any{}
	for _, l := range strings.Split(text, "\n") {
		l = strings.TrimSpace(l)
		if l == "" || l[0] == '#' {
			continue
		}
		i := strings.Index(l, "=")
		if i < 1 {
			return nil, errors.New("no value")
		}
		x := strings.TrimSpace(l[i+1:])
		if len(x) < 2 || x[0] != '"' || x[len(x)-1] != '"' {
			return nil, errors.New("not a string")
		}
		m[strings.ToLower(strings.TrimSpace(l[:i]))] = x[1 : len(x)-1]
	}
	return m, nil
}

func (v *Viper) Unmarshal(out any) error {
	if OnUnmarshal != nil {
		return OnUnmarshal(out)
	}
	if Decode != nil {
		return Decode(v.AllSettings(), out)
	}
	return nil
}
func (v *Viper) Debug() {}

func Set(k string, x any)              { v.Set(k, x) }
func SetDefault(k string, x any)       { v.SetDefault(k, x) }
func Get(k string) any                 { return v.Get(k) }
func IsSet(k string) bool              { return v.IsSet(k) }
func GetString(k string) string        { return v.GetString(k) }
func GetBool(k string) bool            { return v.GetBool(k) }
func GetInt(k string) int              { return v.GetInt(k) }
func GetStringSlice(k string) []string { return v.GetStringSlice(k) }
func Sub(k string) *Viper              { return v.Sub(k) }
func AllSettings() map[string]any      { return v.AllSettings() }
func SetConfigFile(f string)           { v.SetConfigFile(f) }
func ConfigFileUsed() string           { return v.file }
func SetConfigName(s string)           {}
func SetConfigType(s string)           { v.SetConfigType(s) }
func AddConfigPath(s string)           {}
func SetEnvPrefix(s string)            { v.SetEnvPrefix(s) }
func AutomaticEnv()                    {}
func BindEnv(s ...string) error        { return v.BindEnv(s...) }
func BindPFlag(k string, f any) error  { return v.BindPFlag(k, f) }
func ReadInConfig() error              { return nil }
func ReadConfig(r io.Reader) error     { return v.ReadConfig(r) }
func Unmarshal(out any) error          { return v.Unmarshal(out) }
func Debug()                           {}

func (v *Viper) InConfig(k string) bool { _, ok := v.Values[strings.ToLower(k)]; return ok }
func (v *Viper) AllKeys() []string {
	var r []string
	for k := range v.AllSettings() {
		r = append(r, k)
	}
	return r
}
func (v *Viper) GetInt64(k string) int64 { return int64(v.GetInt(k)) }
func (v *Viper) GetInt32(k string) int32 { return int32(v.GetInt(k)) }
func (v *Viper) GetUint(k string) uint   { return uint(v.GetInt(k)) }
func (v *Viper) GetStringMap(k string) map[string]any {
	x, _ := v.Get(k).(map[string]any)
	return x
}
func (v *Viper) GetStringMapString(k string) map[string]string {
	x, _ := v.Get(k).(map[string]string)
	return x
}
func (v *Viper) MergeConfigMap(m map[string]any) error {
	for k, x := range m {
		v.Set(k, x)
	}
	return nil
}
func InConfig(k string) bool                        { return v.InConfig(k) }
func AllKeys() []string                             { return v.AllKeys() }
func GetInt64(k string) int64                       { return v.GetInt64(k) }
func GetInt32(k string) int32                       { return v.GetInt32(k) }
func GetUint(k string) uint                         { return v.GetUint(k) }
func GetStringMap(k string) map[string]any          { return v.GetStringMap(k) }
func GetStringMapString(k string) map[string]string { return v.GetStringMapString(k) }
func MergeConfigMap(m map[string]any) error         { return v.MergeConfigMap(m) }
