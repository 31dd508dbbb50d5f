package zzspec

//verif:file C11,C12

// InputText is the text a reader hands out until it ends, and InputErr the
// error it fails with, or nil.
func InputText(r interface{}) string { panic("ghost") }
func InputErr(r interface{}) error   { panic("ghost") }

// OpenErr is the error of opening a file, or nil; Opened is the reader it
// gives; CloseErr is the error of closing that.
func OpenErr(name string) error       { panic("ghost") }
func Opened(name string) interface{}  { panic("ghost") }
func CloseErr(file interface{}) error { panic("ghost") }
