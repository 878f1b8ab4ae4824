package vafero

// NewMemMapFs gives the model's file system as well: harnesses use one file system only.
func NewMemMapFs() Fs { return &OsFs{} }
