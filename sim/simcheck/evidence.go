package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"time"

	rt "github.com/arl/go-detour/verifsimrt"
)

func steps() int64 { return rt.Steps() }

func writeEvidence(p *Prop, path, tier string, seed uint64, t *stats, distinct, states int, wall float64, viol, freshN, freshBad, planned int, self string) {
	perHour := func(n int64) int64 {
		if wall <= 0 {
			return 0
		}
		return int64(float64(n) / wall * 3600)
	}
	// Samples: two runs of this very search written out.
	var samples []interface{}
	end := time.Now().Add(10 * time.Second)
	for i := 0; i < planned && len(samples) < 2 && i < 50 && time.Now().Before(end) && viol == 0; i++ {
		o := execute(p, tier, seed, i, nil, false, true)
		if o.V == nil && o.Skipped == "" && o.R.nontriv {
			tr := o.R.Trace
			if len(tr) > 30 {
				tr = tr[:30]
			}
			samples = append(samples, map[string]interface{}{"index": i, "decisions": len(o.Choices), "history": tr})
		}
	}
	if samples == nil {
		samples = []interface{}{fmt.Sprintf("seed %d indices 0..%d", seed, planned-1)}
	}
	notFired := []string{}
	for _, k := range p.FaultKinds {
		if t.Faults[k] == 0 {
			notFired = append(notFired, k)
		}
	}
	cov := map[string]interface{}{
		"evaluations":         t.Runs,
		"distinct_nontrivial": distinct,
		"rule":                p.Rule + " Each run is one simulated execution determined by (VERIF_SEED, property, run index); distinct means a different hash over its complete event history, non-trivial means a fault struck or the state the property is about actually changed.",
		"samples":             samples,
		"simulated_runs":      t.Runs,
		"planned_runs":        planned,
		"seeds_per_hour":      perHour(t.Runs),
		"simulated_steps":     t.Steps,
		"steps_per_hour":      perHour(t.Steps),
		"simulated_time_s":    float64(t.SimTime) / 1e9,
		"decisions":           t.Choices,
		"events":              t.Ops,
		"longest_history":     t.MaxOps,
		"preemptions":         t.Switches,
		"states_reached":      states,
		"states_measure":      "distinct hashes of the state summaries the harness takes (loaded tile set with references, query phase, file system contents, ... as the property has them)",
		"faults_injected":     t.Faults,
		"faults_never_fired":  notFired,
		"probes":              t.Probes,
		"skipped_runs":        t.Skips,
		"determinism": map[string]interface{}{
			"repeated_in_process": t.Rechecked, "differing_in_process": t.Mismatch,
			"repeated_in_fresh_process": freshN, "differing_in_fresh_process": freshBad,
		},
		"real_components": p.Real,
		"stubbed":         p.Stub,
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": p.Level,
		"coverage": cov, "assumptions": p.Assume, "wall_s": wall, "violations": viol,
	}
	if p.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(path), 0755)
	if err := os.WriteFile(path, b, 0644); err != nil {
		fmt.Println("cannot write evidence:", err)
		os.Exit(2)
	}
}
