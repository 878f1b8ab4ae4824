// Package vfuzzy stands for the spelling suggestions, which no property depends on.
package vfuzzy

type Model struct{}

func NewModel() *Model                                          { return &Model{} }
func (m *Model) SetThreshold(int)                               {}
func (m *Model) SetDepth(int)                                   {}
func (m *Model) SetUseAutocomplete(bool)                        {}
func (m *Model) Train([]string)                                 {}
func (m *Model) TrainWord(string)                               {}
func (m *Model) SpellCheck(s string) string                     { return "" }
func (m *Model) SpellCheckSuggestions(s string, n int) []string { return nil }
func (m *Model) Suggestions(s string, exhaustive bool) []string { return nil }
