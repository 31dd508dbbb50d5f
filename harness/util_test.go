package zzcheck

import stdsort "sort"

func sortStrings(s []string) { stdsort.Strings(s) }
