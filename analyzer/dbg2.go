package main

import "os"

func dbgHeights(ts []*Term) {
	if os.Getenv("DBGH") == "" {
		return
	}
	seen := map[*Term]bool{}
	for _, t := range ts {
		collect(t, func(x *Term) bool {
			if x.op == "first" && !seen[x] {
				seen[x] = true
				println("FIRST h", x.h, "body", x.args[1].h)
				collect(x.args[1], func(y *Term) bool {
					if y.h > 0 && !isBinder(y.op) {
						println("   ", y.h, y.op, y.s, len(y.args), y.String()[:min(200, len(y.String()))])
					}
					return y.h > 0
				})
			}
			return true
		})
	}
}
