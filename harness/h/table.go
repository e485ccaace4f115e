package h

// Table lists the harnesses for the replay program.
var Table = map[string]func(mode int, d int, args []int, texts [][]string){
	"Main":    Main,
	"Judge":   Judge,
	"Pair":    Pair,
	"Layout":  Layout,
	"Concat":  Concat,
	"Elems":   Elems,
	"Entry":   Entry,
	"History": History,
	"Steady":  Steady,
	"Conc":    Conc,
}
