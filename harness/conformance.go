package main

import (
	"compress/gzip"
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"

	"gmc/mc"
)

// The model of go-timer is bound to the real package by histories recorded on
// it (bin/check conformance): every one is replayed on the model.
func init() {
	mc.ModelCheck = func() (extra map[string]any, traces int64, err error) {
		path := os.Getenv("GMC_CONFORMANCE")
		if path == "" {
			return nil, 0, nil
		}
		f, err := os.Open(path)
		if err != nil {
			return nil, 0, err
		}
		defer f.Close()
		z, err := gzip.NewReader(f)
		if err != nil {
			return nil, 0, err
		}
		var real [][]timerEvent
		if err := json.NewDecoder(z).Decode(&real); err != nil {
			return nil, 0, err
		}
		if len(real) != timerHistories() {
			return nil, 0, fmt.Errorf("%d recorded histories, %d expected", len(real), timerHistories())
		}
		model := modelHistories(len(real))
		for n := range real {
			if d := timerDiffers(real[n], model[n]); d != "" {
				return nil, 0, fmt.Errorf("the model of go-timer differs from the real package in history %d: %s\nreal  %v\nmodel %v", n, d, real[n], model[n])
			}
		}
		return map[string]any{"timer_model_histories_replayed": len(real)}, int64(len(real)), nil
	}
}

func modelHistories(n int) [][]timerEvent {
	out := make([][]timerEvent, n)
	for i := range out {
		fail := mc.RunOnce(func() { out[i] = timerHistory(i) })
		if fail != "" {
			out[i] = append(out[i], timerEvent{fail, 0})
		}
	}
	return out
}

func timerDiffers(a, b []timerEvent) string {
	sorted := func(l []timerEvent) []timerEvent {
		l = append([]timerEvent(nil), l...)
		sort.Slice(l, func(i, j int) bool {
			if l[i].What != l[j].What {
				return l[i].What < l[j].What
			}
			return l[i].At < l[j].At
		})
		return l
	}
	a, b = sorted(a), sorted(b)
	if len(a) != len(b) {
		return "different events"
	}
	for i := range a {
		if a[i].What != b[i].What {
			return "different events"
		}
		// the wheel of the real package has its own phase and the machine its own pace;
		// Close tells the ticks in any order, one of which has a handler of 50 ms
		limit := 25
		if strings.HasSuffix(a[i].What, "force closed") {
			limit += 50
		}
		if d := a[i].At - b[i].At; d > limit || d < -limit {
			return fmt.Sprintf("%s at %d and %d ms", a[i].What, a[i].At, b[i].At)
		}
	}
	return ""
}
