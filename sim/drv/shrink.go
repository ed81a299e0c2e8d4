package drv

import (
	"bytes"
	"encoding/json"
	"strconv"
	"strings"
	"time"
)

// Shrink reduces a failing plan. It works on the JSON form: it deletes elements of lists, replaces
// numbers by smaller ones and clears flags, as long as fails still returns true.
func Shrink(raw json.RawMessage, fails func(json.RawMessage) bool, limit time.Duration, maxTries int) (json.RawMessage, int) {
	end := time.Now().Add(limit)
	tries := 0
	cur := parse(raw)
	ok := func(v any) bool {
		if tries >= maxTries || time.Now().After(end) {
			return false
		}
		tries++
		b, err := json.Marshal(v)
		if err != nil {
			return false
		}
		return fails(b)
	}
	for pass := 0; pass < 8; pass++ {
		changed := false
		for _, p := range paths(cur, nil, isList) {
			l, _ := get(cur, p).([]any)
			for size := (len(l) + 1) / 2; size >= 1; size /= 2 {
				for at := 0; at < len(l); {
					to := at + size
					if to > len(l) {
						to = len(l)
					}
					n := make([]any, 0, len(l))
					n = append(n, l[:at]...)
					n = append(n, l[to:]...)
					cand := set(cur, p, n)
					if ok(cand) {
						cur, l, changed = cand, n, true
					} else {
						at += size
					}
				}
				if size == 1 {
					break
				}
			}
		}
		for _, p := range paths(cur, nil, isNum) {
			n, _ := get(cur, p).(json.Number)
			for _, c := range smaller(n) {
				cand := set(cur, p, c)
				if ok(cand) {
					cur, changed = cand, true
					break
				}
			}
		}
		for _, p := range paths(cur, nil, isTrue) {
			cand := set(cur, p, false)
			if ok(cand) {
				cur, changed = cand, true
			}
		}
		if !changed || tries >= maxTries || time.Now().After(end) {
			break
		}
	}
	b, _ := json.Marshal(cur)
	return b, tries
}

func parse(raw []byte) any {
	d := json.NewDecoder(bytes.NewReader(raw))
	d.UseNumber()
	var v any
	d.Decode(&v)
	return v
}

func isList(v any) bool { l, ok := v.([]any); return ok && len(l) > 0 }
func isNum(v any) bool  { n, ok := v.(json.Number); return ok && n != "0" }
func isTrue(v any) bool { b, ok := v.(bool); return ok && b }

type step struct {
	key string
	idx int
}

func paths(v any, at []step, want func(any) bool) [][]step {
	var r [][]step
	if want(v) {
		r = append(r, append([]step(nil), at...))
	}
	switch x := v.(type) {
	case []any:
		for i, e := range x {
			r = append(r, paths(e, append(at, step{idx: i}), want)...)
		}
	case map[string]any:
		for _, k := range sortedKeys(x) {
			r = append(r, paths(x[k], append(at, step{key: k}), want)...)
		}
	}
	return r
}

func sortedKeys(m map[string]any) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	for i := 1; i < len(k); i++ {
		for j := i; j > 0 && k[j] < k[j-1]; j-- {
			k[j], k[j-1] = k[j-1], k[j]
		}
	}
	return k
}

func get(v any, p []step) any {
	for _, s := range p {
		switch x := v.(type) {
		case []any:
			if s.idx >= len(x) {
				return nil
			}
			v = x[s.idx]
		case map[string]any:
			v = x[s.key]
		default:
			return nil
		}
	}
	return v
}

func set(v any, p []step, to any) any {
	if len(p) == 0 {
		return to
	}
	switch x := v.(type) {
	case []any:
		if p[0].idx >= len(x) {
			return v
		}
		n := append([]any(nil), x...)
		n[p[0].idx] = set(x[p[0].idx], p[1:], to)
		return n
	case map[string]any:
		n := make(map[string]any, len(x))
		for k, e := range x {
			n[k] = e
		}
		n[p[0].key] = set(x[p[0].key], p[1:], to)
		return n
	}
	return v
}

func smaller(n json.Number) []json.Number {
	s := string(n)
	if strings.ContainsAny(s, ".eE") {
		return []json.Number{"0", "1"}
	}
	if strings.HasPrefix(s, "-") {
		i, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			return nil
		}
		return []json.Number{"0", "-1", json.Number(strconv.FormatInt(i/2, 10))}
	}
	u, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		return nil
	}
	var r []json.Number
	for _, c := range []uint64{0, 1, u / 16, u / 2, u - 1} {
		if c < u {
			r = append(r, json.Number(strconv.FormatUint(c, 10)))
		}
	}
	return r
}
