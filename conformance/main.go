// Command conformance runs the timer histories of harness/timerhist.go (copied
// here by bin/check conformance) on the real go-timer and prints what happened.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"sync"
)

func main() {
	out := make([][]timerEvent, timerHistories())
	var ids []int
	for _, a := range os.Args[1:] {
		n, _ := strconv.Atoi(a)
		ids = append(ids, n)
	}
	if len(ids) == 0 {
		for i := range out {
			ids = append(ids, i)
		}
	}
	const batch = 24
	for i := 0; i < len(ids); i += batch {
		var wg sync.WaitGroup
		for _, n := range ids[i:min(i+batch, len(ids))] {
			wg.Add(1)
			go func() { defer wg.Done(); out[n] = timerHistory(n) }()
		}
		wg.Wait()
	}
	b, _ := json.Marshal(out)
	fmt.Println(string(b))
}
