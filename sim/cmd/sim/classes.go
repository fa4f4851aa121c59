package main

// Violation classes:
//
//	digest, verdict, state   an observation differs from the reference
//	contract                 a return value breaks the interface
//	panic, fault, crash      a call panics, touches forbidden memory, kills the process
//	memory                   the caller's memory was changed
//	held                     something returned earlier changed later
//	restore, reject          a good state refused, a bad one accepted or half applied
//	mask, list               screening function or vector list wrong
//	steps, hang, deadlock    a call does not end
//	race                     accesses to the same memory without synchronisation
//	wait                     a call waits for a stalled goroutine
//
// After a soft violation of no concern to the property the run goes on.
var soft = map[string]bool{"memory": true, "held": true, "wait": true, "list": true, "mask": true, "race": true}

// relevant says which of them break which property. A run that meets another
// class is abandoned and counted, and the search goes on.
var relevant = map[string]string{
	"C01": "digest verdict contract panic fault crash steps hang deadlock",
	"C02": "digest verdict state held restore panic fault crash steps hang deadlock",
	"C03": "digest verdict state restore reject panic fault crash steps hang deadlock",
	"C04": "digest verdict state held panic fault crash steps hang deadlock",
	"C05": "digest verdict state panic fault crash steps hang deadlock",
	"C06": "digest verdict state held panic fault crash steps hang deadlock race",
	"C07": "digest verdict list panic fault crash steps hang deadlock",
	"C08": "digest verdict state memory held fault crash steps hang deadlock",
	"C09": "digest verdict state restore panic fault crash steps hang deadlock",
	"C10": "contract panic fault crash steps hang deadlock wait",
	"C11": "digest verdict state held panic fault crash steps hang deadlock race",
	"C16": "race fault crash",
	"C12": "mask list memory panic fault crash steps hang deadlock race",
}

func isRelevant(profile, class string) bool {
	s, ok := relevant[profile]
	if !ok {
		return true
	}
	for len(s) > 0 {
		i := 0
		for i < len(s) && s[i] != ' ' {
			i++
		}
		if s[:i] == class {
			return true
		}
		for i < len(s) && s[i] == ' ' {
			i++
		}
		s = s[i:]
	}
	return false
}
