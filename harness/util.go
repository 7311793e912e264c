package main

import "sort"

func sortStrings(v []string) { sort.Strings(v) }
