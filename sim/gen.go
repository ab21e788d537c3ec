package main

import (
	"fmt"
	"strings"

	rt "github.com/xconnio/wampproto-go/zzsimrt"
)

// Generators of world plans. A plan is drawn from the seed alone; each
// property weighs the actions and the faults it depends on.

var callURIs = []string{"a", "ab", "a.b", "a.c", "a.b.c", "a.b.d", "a.bb.c", "b", "b.b", "a.b.c.d", "x.é.z", "x", "x.y"}
var prefixURIs = []string{"a", "a.", "a.b", "a.b.", "a.b.c", "b", "x", "x.", "a.b.c.d", "x.é"}
var wildURIs = []string{"a.*", "*.b", "a.*.c", "*", "a*", "*.*.c", "a.b.*", "x.*z"}

type weights map[string]int

var rpcOnly = weights{"reg": 14, "unreg": 6, "call": 26, "pcall": 3, "has": 3, "ghost": 2, "fyield": 4, "ferr": 2,
	"join": 8, "leave": 4, "crash": 3, "disclose": 1, "dupattach": 1, "removeunknown": 1, "slow": 1}
var pubsubOnly = weights{"sub": 16, "unsub": 8, "pub": 30, "has": 3, "ghost": 2,
	"join": 8, "leave": 4, "crash": 3, "disclose": 1, "dupattach": 1, "removeunknown": 1, "slow": 1}
var both = weights{"reg": 10, "unreg": 4, "call": 18, "pcall": 3, "sub": 10, "unsub": 4, "pub": 16, "has": 2, "ghost": 2,
	"fyield": 2, "ferr": 1, "join": 8, "leave": 4, "crash": 3, "disclose": 1, "dupattach": 1, "removeunknown": 1, "slow": 1}

func weightsFor(prop string) weights {
	src := both
	switch prop {
	case "C01", "C02", "C03", "C04", "C05", "C06":
		src = rpcOnly
	case "C07", "C08", "C09":
		src = pubsubOnly
	}
	w := weights{}
	for k, v := range src {
		w[k] = v
	}
	switch prop {
	case "C01":
		w["restart"] = 1
	case "C02":
		w["call"], w["fyield"], w["ferr"], w["pcall"] = 26, 10, 6, 5
	case "C03":
		w["reg"], w["unreg"], w["has"], w["leave"], w["crash"] = 18, 12, 8, 6, 5
	case "C04":
		w["reg"], w["unreg"], w["call"], w["pcall"] = 20, 10, 30, 1
	case "C05":
		w["reg"], w["unreg"], w["burst"], w["pcall"] = 22, 5, 8, 1
	case "C06":
		w["pcall"], w["call"], w["unreg"] = 26, 8, 8
	case "C08":
		w["sub"], w["unsub"], w["has"], w["leave"] = 20, 14, 8, 6
	case "C10":
		w["disclose"] = 8
	case "C11":
		w["leave"], w["crash"], w["join"], w["ghost"], w["dupattach"], w["removeunknown"] = 8, 8, 16, 12, 4, 4
	case "C26":
		w["ghost"], w["fyield"], w["ferr"], w["dupattach"], w["removeunknown"] = 0, 0, 0, 0, 0
		w["cancel"] = 1
	case "C20":
		w["ghost"], w["fyield"], w["ferr"], w["dupattach"], w["removeunknown"] = 0, 0, 0, 0, 0
		w["leave"], w["crash"] = 2, 2
	}
	return w
}

func genWorld(prop string, seed uint64, tier string) *Plan {
	if prop == "C20" && rt.Mix(seed, 0x9a71)%16 == 0 { // payloads on their own
		return genWire(prop, seed, tier)
	}
	r := rt.NewPRNG(rt.Mix(seed, 0x9e4))
	p := &Plan{Prop: prop, Engine: "world", Seed: seed, Cfg: map[string]int{}}
	p.Cfg["clients"] = 2 + r.N(5)
	if r.N(20) == 0 {
		p.Cfg["clients"] = 7 + r.N(8)
		if r.N(30) == 0 {
			p.Cfg["clients"] = 60 + r.N(250)
		}
	}
	if r.N(6) == 0 {
		p.Cfg["wide"] = 1 + r.N(3)
	}
	p.Cfg["lat"] = []int{0, 0, 4, 40, 400}[r.N(5)]
	gap := []int{1, 3, 20, 100}[r.N(4)]
	wire := r.N(6) == 0
	if prop == "C20" || prop == "C26" {
		wire = r.N(8) != 0
	}
	if wire {
		p.Cfg["wire"] = 1
		p.Cfg["seg"] = r.N(2)
		if p.Cfg["lat"] == 0 && r.N(2) == 0 {
			p.Cfg["lat"] = 10
		}
	}
	w := weightsFor(prop)
	if r.N(4) == 0 {
		// a calm run: nobody comes or goes once everybody is there
		w["leave"], w["crash"], w["restart"] = 0, 0, 0
	}
	names := []string{}
	total := 0
	for _, k := range sortedKeys(w) {
		if w[k] > 0 {
			names = append(names, k)
			total += w[k]
		}
	}
	// a few URIs only, so that things meet
	sub := func(from []string, n int) []string {
		out := []string{}
		for i := 0; i < n; i++ {
			out = append(out, from[r.N(len(from))])
		}
		return out
	}
	callPool := callURIs
	calls := sub(callURIs, 1+r.N(5))
	pats := [][]string{nil, nil, sub(prefixURIs, 1+r.N(4)), sub(wildURIs, 1+r.N(3))}
	odd := false
	if r.N(3) == 0 {
		// characters that mean something to one kind of pattern or another, in
		// URIs that are taken literally: what wildcards make of them is left open.
		odd = r.N(6) == 0
		callPool = nil
		for k := 4 + r.N(8); k > 0; k-- {
			u := randomURI(&r)
			for o := r.N(4); odd && o > 0; o-- {
				c := []rune(u)
				i := r.N(len(c) + 1)
				u = string(c[:i]) + oddParts[r.N(len(oddParts))] + string(c[i:])
			}
			callPool = append(callPool, u)
		}
		calls = sub(callPool, 1+r.N(5))
		pats[2], pats[3] = nil, nil
		for k := 1 + r.N(4); k > 0; k-- {
			pats[2] = append(pats[2], prefixOf(&r, calls[r.N(len(calls))]))
		}
		for k := 1 + r.N(3); k > 0; k-- {
			pats[3] = append(pats[3], wildcardOf(&r, calls[r.N(len(calls))]))
		}
	}
	matchWeights := [][]int{{4, 2, 3, 2}, {1, 0, 0, 0}, {1, 1, 6, 1}, {1, 0, 1, 6}, {1, 1, 1, 1}}[r.N(5)]
	if odd {
		pats[3] = pats[2]
		matchWeights = [][]int{{2, 1, 3, 0}, {1, 0, 0, 0}, {1, 1, 1, 0}}[r.N(3)]
	}
	match := func() int {
		t := 0
		for _, x := range matchWeights {
			t += x
		}
		k := r.N(t)
		for i, x := range matchWeights {
			if k < x {
				return i
			}
			k -= x
		}
		return 0
	}
	pattern := func(m int) string {
		if m < 2 {
			return calls[r.N(len(calls))]
		}
		return pats[m][r.N(len(pats[m]))]
	}
	var hoard []string
	anyURI := func() string {
		if len(hoard) > 0 && r.N(2) == 0 {
			return hoard[r.N(len(hoard))]
		}
		switch r.N(6) {
		case 0:
			return pattern(2)
		case 1:
			return callPool[r.N(len(callPool))]
		}
		return calls[r.N(len(calls))]
	}
	policyBias := r.N(6)
	policy := func() int {
		if r.N(3) > 0 && policyBias > 0 {
			return policyBias
		}
		return r.N(6)
	}

	var t int64
	id := 0
	add := func(s Step) {
		s.I = id
		id++
		s.At = t
		p.Steps = append(p.Steps, s)
		t += int64(r.N(gap + 1))
	}
	n := p.Cfg["clients"]
	if r.N(16) == 0 {
		p.Cfg["unknown"] = 1 // sharing policies that nobody has defined
	}
	p.Cfg["rich"] = []int{0, 0, 1, 2}[r.N(4)]
	if prop != "C20" && r.N(10) == 0 {
		p.Cfg["opaque"] = 1 // payloads stay encoded all the way
	}
	ser := func() int {
		if r.N(5) == 0 || p.Cfg["opaque"] == 1 {
			return serStatic
		}
		if p.Cfg["rich"] == 2 {
			return 1 + r.N(2)
		}
		return r.N(3)
	}
	if prop == "C20" {
		inner := ser
		ser = func() int { // static serializers are a stub
			for {
				if k := inner(); k != serStatic || !wire {
					return k
				}
			}
		}
	}
	foreign := func() int { // a client of another implementation
		if wire && r.N(4) == 0 {
			return 1
		}
		return 0
	}
	for i := 0; i < n; i++ {
		add(Step{C: i, Op: "join", A: ser(), D: r.N(9), F: foreign()})
	}
	if r.N(4) == 0 {
		add(Step{Op: "disclose", A: r.N(2), B: r.N(2)})
	}
	steps := []int{12, 30, 60, 120}[r.N(4)]
	if r.N(400) == 0 {
		steps = 1000 + r.N(2000)
	}
	if prop == "C05" && r.N(3) == 0 {
		// everybody shares one procedure, and it is called many times
		u, pol, m := calls[0], 2+r.N(4), match()
		if m >= 2 {
			u = pattern(m)
			for i := range calls {
				if matches(matchNames[m], u, callPool[i%len(callPool)]) {
					calls[0] = callPool[i%len(callPool)]
				}
			}
		}
		k := 2 + r.N(n)
		for i := 0; i < k; i++ {
			add(Step{C: i, Op: "reg", U: u, A: m, B: pol})
		}
		if pol == 5 && r.N(3) == 0 {
			t += 1000
			for i := 0; i < 50*k; i++ {
				add(Step{C: r.N(n), Op: "call", U: calls[0], B: 2})
			}
			steps = 12
		}
	}
	// a storm: many requests of one kind, more than any small counter or table holds
	storm, stormAt := 0, 0
	switch k := r.N(40000); {
	case k == 0 && !wire && p.Cfg["wide"] != 1:
		storm = 66000 + r.N(5000)
	case k < 20:
		storm = 4100 + r.N(2000)
	case k < 400:
		storm = 260 + r.N(800)
	}
	if storm > 0 {
		stormAt = r.N(steps)
	}
	delay := func() int { return []int{0, 1, 10, 100, 1000}[r.N(5)] }
	// a hoard: one client that holds more registrations or subscriptions than any small table has room for
	hoardAt, hoardSize := -1, 0
	if r.N(100) == 0 && w["reg"]+w["sub"] > 0 && !odd {
		hoardAt, hoardSize = r.N(steps), 18+r.N(120)
		if r.N(20) == 0 {
			hoardSize = 260 + r.N(300)
		}
	}
	for i := 0; i < steps; i++ {
		if i == hoardAt {
			op := "reg"
			if w["reg"] == 0 || w["sub"] > 0 && r.N(2) == 0 {
				op = "sub"
			}
			c, pol, mode := r.N(n), policy(), r.N(5)
			size := gap
			gap = r.N(2)
			for k := 0; k < hoardSize; k++ {
				m := r.N(2)
				if mode > 1 {
					m = min(mode, 3)
				}
				if mode == 0 {
					m = r.N(4)
				}
				u := fmt.Sprintf("h%d.x", k)
				hoard = append(hoard, u)
				if m == 3 {
					u = fmt.Sprintf("h%d.*", k)
				}
				add(Step{C: c, Op: op, U: u, A: m, B: pol})
			}
			t += 1000
			for k := hoardSize * r.N(3) / 4; k > 0; k-- {
				add(Step{C: c, Op: "un" + op, A: r.N(1000)})
				if r.N(8) == 0 {
					add(Step{C: r.N(n), Op: op, U: hoard[r.N(len(hoard))], A: r.N(2), B: pol})
				}
			}
			gap = size
			if r.N(3) == 0 && w["leave"] > 0 {
				add(Step{C: c, Op: "leave"})
			}
		}
		if storm > 0 && i == stormAt {
			kinds := []string{}
			for _, op := range []string{"call", "pub", "reg", "sub", "join", "pcall", "ghost"} {
				if w[op] > 0 && (op != "pcall" || storm < 4000) {
					kinds = append(kinds, op)
				}
			}
			op := kinds[r.N(len(kinds))]
			c, u, m, pol, mode := r.N(n), calls[r.N(len(calls))], match(), policy(), r.N(3)
			pu := pattern(m)
			size := gap
			gap = r.N(2)
			for k := 0; k < storm; k++ {
				s := Step{C: c, Op: op, U: u}
				if r.N(4) == 0 {
					s.C = r.N(n)
				}
				switch op {
				case "call": // answered, never answered, or some of both
					s.A, s.B, s.D = 1, 2*(mode&1), 1
					if mode == 2 {
						s.B = 2 * r.N(2)
					}
				case "pcall":
					s.A, s.B, s.D = 0, 2*(mode&1), 1|r.N(8)<<3
				case "pub":
					s.A, s.B = r.N(4), r.N(4)
				case "reg", "sub":
					s.A, s.U, s.B = m, pu, pol
					if mode == 1 {
						s.A = match()
						s.U = pattern(s.A)
					}
					if k%2 == 1 {
						s = Step{C: s.C, Op: "un" + op, A: r.N(2)}
					}
				case "join":
					s.A, s.D, s.F = ser(), r.N(9), foreign()
					if r.N(3) == 0 {
						s.B = 1 + r.N(20)
					}
				case "ghost":
					s.U, s.A, s.B, s.D = anyURI(), r.N(30), r.N(4), r.N(8)
				}
				add(s)
			}
			gap = size
		}
		k := r.N(total)
		op := ""
		for _, name := range names {
			if k < w[name] {
				op = name
				break
			}
			k -= w[name]
		}
		s := Step{C: r.N(n), Op: op}
		switch op {
		case "join":
			s.A, s.D, s.F = ser(), r.N(9), foreign()
			if r.N(3) == 0 {
				s.B = 1 + r.N(20)
			}
		case "crash":
			s.A, s.F = r.N(1+p.Cfg["lat"]), delay()
		case "slow":
			s.A, s.F = 1+r.N(20), delay()*5
		case "reg":
			s.A = match()
			s.U, s.B = pattern(s.A), policy()
		case "sub":
			s.A = match()
			s.U = pattern(s.A)
		case "unreg", "unsub":
			s.A = r.N(20)
			if r.N(5) == 0 {
				s.B = 1 + r.N(6)
			}
		case "call":
			s.U, s.A, s.B, s.D, s.F = anyURI(), r.N(4), r.N(8), 1+r.N(3), delay()
			if r.N(2) == 0 {
				s.B = 0
			}
			if r.N(100) == 0 { // many progressive results
				s.D = 20 + r.N(300)
			}
		case "burst":
			u := calls[0]
			if r.N(3) == 0 {
				u = anyURI()
			}
			for k := 3 + r.N(12); k > 0; k-- {
				add(Step{C: r.N(n), Op: "call", U: u, A: r.N(4), B: []int{0, 0, 1, 2}[r.N(4)], F: delay()})
			}
			continue
		case "pcall":
			s.U, s.A, s.B, s.D, s.F = anyURI(), r.N(8), r.N(16), 1+r.N(3)|r.N(8)<<3, delay()
			if r.N(100) == 0 { // many chunks
				s.D = 1 | (20+r.N(300))<<3
			}
		case "pub":
			s.U, s.A, s.B = anyURI(), r.N(4), r.N(4)
		case "fyield", "ferr":
			s.A, s.B, s.D = r.N(12), r.N(4), r.N(2)
			if s.B == 2 {
				s.F = max(0, r.N(10)-4)
			}
		case "has":
			s.U = anyURI()
			if r.N(4) == 0 {
				s.U = pattern(2 + r.N(2))
			}
		case "ghost":
			s.U, s.A, s.B, s.D = anyURI(), r.N(30), r.N(8), r.N(8)
		case "removeunknown":
			s.A, s.B = r.N(30), r.N(7)
		case "cancel":
			s.A, s.B = r.N(20), r.N(3)
		case "disclose":
			s.A, s.B = r.N(2), r.N(2)
		}
		add(s)
		if op == "restart" {
			for c := 0; c < n; c++ {
				if r.N(4) > 0 {
					add(Step{C: c, Op: "join", A: ser(), B: r.N(3) * r.N(20), D: r.N(9), F: foreign()})
				}
			}
		}
	}
	// faults stop here; what is broken for good shows in the probes.
	t += 100000
	first := serJSON
	if p.Cfg["rich"] == 2 {
		first = serMsgPack
	}
	second := serCBOR
	if p.Cfg["opaque"] == 1 {
		first, second = serStatic, serStatic
	}
	add(Step{C: 0, Op: "join", A: first, D: 1})
	add(Step{C: 1, Op: "join", A: second, D: 2})
	uris := append(append(append([]string{}, calls...), pats[2]...), pats[3]...)
	if len(hoard) > 200 {
		hoard = append(hoard[:60:60], hoard[len(hoard)-60:]...)
	}
	uris = append(uris, hoard...)
	seen := map[string]bool{}
	for _, u := range uris {
		if seen[u] {
			continue
		}
		seen[u] = true
		t += 5000
		if w["reg"] > 0 || w["sub"] > 0 {
			add(Step{Op: "has", U: u})
		}
		if odd || !containsStar(u) {
			if w["call"] > 0 {
				add(Step{C: r.N(2), Op: "call", U: u})
			}
			if w["pub"] > 0 {
				add(Step{C: r.N(2), Op: "pub", U: u, A: 1, B: r.N(2)})
			}
		}
	}
	return p
}

var uriParts = []string{"a", "b", "ab", "A", "é", "", "1", "com", "x-y", "_", "日本", "a b", "aa"}

var oddParts = []string{"*", "?", "[", "]", "[a-z]", "\\", "/", "#", "%", "%2e", "+", "~", "^", "$", "|", "{", "}", ":", "\t", "\n", "\x00", "\x7f", "\"", "'", "<&>", "\u2028", "\ufeff", "e\u0301", "\U0001F600", ",", ";", "="}

func randomURI(r *rt.PRNG) string {
	u := ""
	for k := r.N(5); k >= 0; k-- {
		if u != "" {
			u += "."
		}
		u += uriParts[r.N(len(uriParts))]
	}
	if r.N(30) == 0 {
		u += "." + longPart
	}
	return u
}

var longPart = strings.Repeat("long", 70)

// prefixOf is a prefix of a URI, or one that just misses it.
func prefixOf(r *rt.PRNG, u string) string {
	c := []rune(u)
	p := string(c[:r.N(len(c)+1)])
	if r.N(8) == 0 {
		p += uriParts[r.N(len(uriParts))]
	}
	return p
}

// wildcardOf is a URI with one or two runs of characters replaced by a star.
func wildcardOf(r *rt.PRNG, u string) string {
	c := []rune(u)
	for k := 1 + r.N(2); k > 0; k-- {
		i := r.N(len(c) + 1)
		j := i + r.N(len(c)-i+1)
		if r.N(3) == 0 { // a whole component
			parts := strings.Split(string(c), ".")
			parts[r.N(len(parts))] = "*"
			c = []rune(strings.Join(parts, "."))
			continue
		}
		c = append(append(append([]rune{}, c[:i]...), '*'), c[j:]...)
	}
	return string(c)
}

func containsStar(u string) bool {
	for i := 0; i < len(u); i++ {
		if u[i] == '*' {
			return true
		}
	}
	return false
}

var _ = fmt.Sprint
