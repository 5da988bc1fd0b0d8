// Package props holds one monitor-and-workload pair per property.
package props

import (
	"sort"

	"verif/harness/mon"
)

// All maps a property id to its check.
var All = map[string]func(*mon.Run){}

func reg(id string, f func(*mon.Run)) { All[id] = f }

// NoDict lists the ids that start without reading the source dictionary.
var NoDict = map[string]bool{}

func sortStrings(s []string) { sort.Strings(s) }
