package zzspec

//verif:file C10,C13

import "strings"

// CutLines are the first k lines without their comments.
func CutLines(ls []string, k int) []string {
	if k <= 0 {
		return nil
	}
	return append(CutLines(ls, k-1), strings.Split(ls[k-1], "//")[0])
}

// OneLine is a text in one line, without comments.
func OneLine(x string) string {
	ls := strings.Split(x, "\n")
	return strings.Join(CutLines(ls, len(ls)), " ")
}

// Joined is the text of a condition in one line.
func Joined(x string) string { return strings.TrimSpace(strings.ReplaceAll(x, "\n", " ")) }
