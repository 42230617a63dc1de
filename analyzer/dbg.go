package main

import "strings"

func diffKeys(a, b string) string {
	ma := map[string]bool{}
	for _, l := range strings.Split(a, "\n") {
		ma[l] = true
	}
	mb := map[string]bool{}
	var out []string
	for _, l := range strings.Split(b, "\n") {
		mb[l] = true
		if !ma[l] {
			out = append(out, "+ "+l)
		}
	}
	for _, l := range strings.Split(a, "\n") {
		if !mb[l] {
			out = append(out, "- "+l)
		}
	}
	return strings.Join(out, "\n")
}
