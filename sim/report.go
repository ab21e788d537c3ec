package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// knownFindings reads the committed list: lines "KF-A property=C07 text".
func knownFindings() map[string]struct{ prop, text string } {
	out := map[string]struct{ prop, text string }{}
	f, err := os.Open(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return out
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		if line == "" || strings.HasPrefix(line, "#") || strings.HasPrefix(line, "fixed:") {
			continue
		}
		parts := strings.SplitN(line, " ", 3)
		if len(parts) == 3 && strings.HasPrefix(parts[1], "property=") {
			out[parts[0]+"/"+strings.TrimPrefix(parts[1], "property=")] = struct{ prop, text string }{strings.TrimPrefix(parts[1], "property="), parts[2]}
		}
	}
	return out
}

// which findings belong to which property; the others are seen in passing.
var findingProps = map[string][]string{"KF-A": {"C07"}, "KF-B": {"C26"}, "KF-C": {"C26"}}

func reportKnown(prop string, t *workerReport) int {
	listed := knownFindings()
	for _, id := range sortedKeys(t.Known) {
		mine := false
		for _, p := range findingProps[id] {
			mine = mine || p == prop
		}
		if !mine {
			continue
		}
		if k, ok := listed[id+"/"+prop]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s (seen %d times, first in run %d)\n", prop, id, k.text, t.Known[id], t.KnownAt[id])
			continue
		}
		// not listed: an ordinary violation
		p := makePlan(prop, "quick", baseSeed(), t.KnownAt[id])
		p.FreeSched = true
		dir := filepath.Join(verifDir(), "replays")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%s.json", prop, id))
		writeReplay(path, &replayFile{Property: prop, Violation: &Violation{Prop: prop, Class: id, Detail: "unlisted finding " + id}, Plan: p, BaseSeed: baseSeed(), Index: t.KnownAt[id], How: "/verif/check.sh replay FILE"})
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		return 1
	}
	return 0
}

func writeEvidence(prop, tier string, base uint64, def propDef, t *workerReport, distinct int, wall float64, violations, workers int) error {
	faults := map[string]int64{}
	activity := map[string]int64{}
	other := map[string]int64{}
	for k, v := range t.Stats {
		switch {
		case strings.HasPrefix(k, "fault:"):
			faults[strings.TrimPrefix(k, "fault:")] = v
		case strings.HasPrefix(k, "other:"):
			other[strings.TrimPrefix(k, "other:")] = v
		default:
			activity[k] = v
		}
	}
	sample := t.Sample
	if sample == nil {
		sample = []string{"none: the run ended before its first sample"}
	}
	perHour := 0
	if wall > 0 {
		perHour = int(float64(t.Runs) / wall * 3600)
	}
	cov := map[string]any{
		"evaluations":             t.Runs,
		"distinct_nontrivial":     distinct,
		"rule":                    def.rule,
		"samples":                 []any{sample},
		"oracle_checks":           t.Checks,
		"nontrivial_runs":         t.NonTriv,
		"runs_per_hour":           perHour,
		"seeds_per_hour":          perHour,
		"simulated_seconds":       float64(t.SimTime) / 1e6,
		"faults_injected":         faults,
		"activity":                activity,
		"known_findings_seen":     t.Known,
		"instrumentation":         instrumentLevel,
		"race_detector":           def.race,
		"workers":                 workers,
		"real_components":         def.real,
		"simulated_or_stubbed":    def.stub,
		"stopped_by_time_limit":   t.TimedOut,
		"slowest_run":             fmt.Sprintf("run %d, %.2f s", t.SlowestRun, t.Slowest),
		"other_properties_broken": other,
	}
	ev := map[string]any{
		"property":   prop,
		"tier":       tier,
		"seed":       base,
		"level":      "exploration",
		"coverage":   cov,
		"wall_s":     wall,
		"violations": violations,
	}
	assume := append([]string{"the instrumented copy of the code (yield points, seams for clock, randomness, locks and map order) behaves as the original does",
		"seeded search: what no run of this seed reached is not decided"}, def.assume...)
	ev["assumptions"] = assume
	dir := filepath.Join(verifDir(), "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0o644)
}
