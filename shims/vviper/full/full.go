// Package full makes vviper read files with the real YAML reader, fill
// structures with the real decoder and take flags from the real flag sets, in
// the way viper does it.
package full

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/mitchellh/mapstructure"
	"github.com/spf13/pflag"
	"gopkg.in/yaml.v2"

	"github.com/metrumresearchgroup/pkgr/verifsym/vviper"
)

func Use() {
	vviper.Parse = func(text []byte) (map[string]any, error) {
		m := map[string]any{}
		if err := yaml.Unmarshal(text, &m); err != nil {
			return nil, err
		}
		lower(m)
		return m, nil
	}
	vviper.Decode = func(in map[string]any, out any) error {
		d, err := mapstructure.NewDecoder(&mapstructure.DecoderConfig{
			Result:           out,
			WeaklyTypedInput: true,
			DecodeHook:       mapstructure.ComposeDecodeHookFunc(mapstructure.StringToTimeDurationHookFunc(), mapstructure.StringToSliceHookFunc(",")),
		})
		if err != nil {
			return err
		}
		return d.Decode(in)
	}
	vviper.FlagValue = func(f any) (any, bool) {
		p, _ := f.(*pflag.Flag)
		if p == nil {
			return nil, false
		}
		s := p.Value.String()
		switch p.Value.Type() {
		case "bool":
			return s == "true", p.Changed
		case "int":
			n, _ := strconv.Atoi(s)
			return n, p.Changed
		}
		return s, p.Changed
	}
}

// lower makes the keys of nested maps lower case; lists are left alone.
func lower(m map[string]any) {
	for k, x := range m {
		switch t := x.(type) {
		case map[any]any:
			n := map[string]any{}
			for a, b := range t {
				n[fmt.Sprint(a)] = b
			}
			lower(n)
			x = n
		case map[string]any:
			lower(t)
		}
		l := strings.ToLower(k)
		if l != k {
			delete(m, k)
		}
		m[l] = x
	}
}
