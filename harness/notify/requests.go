package main

import (
	"fmt"
	"strings"

	"verif/vs"
)

// request is one request text with what the daemon has to answer.
type request struct {
	name string
	body string
	kind byte // 'r' valid registration, 'u' un-registration, 'x' to be refused
	desc string
}

func (r *request) long() string { return strings.Repeat(" ", 0) + r.body }

func wsRequests() []request {
	return []request{
		{"register", reg("w1"), 'r', "w1"},
		{"register both kinds", `{"actionType":"register","eventTypes":["unspentUtxo","spentUtxo"],"descriptorWallet":"w2","startBlockHeight":7}`, 'r', "w2"},
		{"register from 0", `{"actionType":"register","eventTypes":["unspentUtxo"],"descriptorWallet":"w3","startBlockHeight":0}`, 'r', "w3"},
		{"register with newline", "{\"actionType\":\"register\",\n\"eventTypes\":[\"spentUtxo\"],\"descriptorWallet\":\"w4\",\"startBlockHeight\":2}\n", 'r', "w4"},
		{"unregister", unreg, 'u', ""},
		{"unknown event", `{"actionType":"register","eventTypes":["unspentUtxo","other"],"descriptorWallet":"w5","startBlockHeight":1}`, 'x', "w5"},
		{"no events", `{"actionType":"register","eventTypes":[],"descriptorWallet":"w6","startBlockHeight":1}`, 'x', "w6"},
		{"events missing", `{"actionType":"register","descriptorWallet":"w7","startBlockHeight":1}`, 'x', "w7"},
		{"no descriptor", `{"actionType":"register","eventTypes":["unspentUtxo"],"startBlockHeight":1}`, 'x', ""},
		{"negative start", `{"actionType":"register","eventTypes":["unspentUtxo"],"descriptorWallet":"w8","startBlockHeight":-1}`, 'x', "w8"},
		{"unknown action", `{"actionType":"dance","eventTypes":["unspentUtxo"],"descriptorWallet":"w9","startBlockHeight":1}`, 'x', "w9"},
		{"no action", `{"eventTypes":["unspentUtxo"],"descriptorWallet":"wa","startBlockHeight":1}`, 'x', "wa"},
		{"empty object", `{}`, 'x', ""},
		{"not json", `hello`, 'x', ""},
		{"truncated json", `{"actionType":"register","eventTypes":["unsp`, 'x', ""},
		{"wrong type", `{"actionType":"register","eventTypes":"unspentUtxo","descriptorWallet":"wb","startBlockHeight":1}`, 'x', "wb"},
		{"array", `[]`, 'x', ""},
		{"empty", ``, 'x', ""},
	}
}

// refKinds gives the replies a sequence of requests must get.
func refKinds(seq []request) (kinds, watched []string) {
	n := 0
	for _, r := range seq {
		switch r.kind {
		case 'r':
			n++
			kinds = append(kinds, "ok")
			watched = append(watched, r.desc)
		case 'u':
			if n > 0 {
				kinds = append(kinds, "ok")
			} else {
				kinds = append(kinds, "err")
			}
			n = 0
		default:
			kinds = append(kinds, "err")
		}
	}
	return
}

func sequences(list []request, depth int, f func(seq []request)) {
	var rec func(pre []request)
	rec = func(pre []request) {
		if len(pre) > 0 {
			f(append([]request{}, pre...))
		}
		if len(pre) == depth {
			return
		}
		for _, r := range list {
			rec(append(pre, r))
		}
	}
	rec(nil)
}

func names(seq []request) string {
	var l []string
	for _, r := range seq {
		l = append(l, r.name)
	}
	return strings.Join(l, " / ")
}

func depth(e *vs.Enum) int {
	if e.Tier == "thorough" {
		return 3
	}
	return 2
}

func checkEffects(e func(key, f string, a ...interface{}), w *world, watched []string, seq []request) {
	var got []string
	for _, x := range w.sc.watched() {
		got = append(got, x.desc)
		if x.desc == "w2" && (len(x.events) != 2 || x.start != 7) {
			e("args", "%s: the scanner was asked for events %v from %d", names(seq), x.events, x.start)
		}
		if x.desc == "w4" && (len(x.events) != 1 || x.events[0] != 1 || x.start != 2) {
			e("args", "%s: the scanner was asked for events %v from %d", names(seq), x.events, x.start)
		}
	}
	m := map[string]int{}
	for _, g := range got {
		m[g]++
	}
	for _, g := range watched {
		m[g]--
	}
	for k, v := range m {
		if v != 0 {
			e("effect", "%s: watched are %v, want %v (%s)", names(seq), got, watched, k)
		}
	}
}

func requestsWs(e *vs.Enum) {
	sequences(wsRequests(), depth(e), func(seq []request) {
		for _, oneGo := range []bool{false, true} {
			oneGo := oneGo
			if oneGo && len(seq) == 1 {
				continue
			}
			e.Case(func() string { return fmt.Sprintf("web-socket %s, in one go: %v", names(seq), oneGo) }, func() {
				e.Sched(func() {
					w := newWorld()
					a := w.connect("A")
					for _, r := range seq {
						a.send(r.body)
						if !oneGo {
							settle()
						}
					}
					settle()
					kinds, watched := refKinds(seq)
					want("C21", "replies to "+names(seq), replies(a), kinds)
					checkEffects(func(k, f string, x ...interface{}) { vs.Fail("C21", f, x...) }, w, watched, seq)
				})
				e.Distinct(names(seq))
			})
			if e.Stopped() {
				return
			}
		}
	})
}

func httpRequests() []request {
	u := `,"endpointUrl":"http://hook/1"}`
	end := func(s string) string { return s[:len(s)-1] + u }
	return []request{
		{"register", end(reg("w1")), 'r', "w1"},
		{"register both kinds", end(`{"actionType":"register","eventTypes":["unspentUtxo","spentUtxo"],"descriptorWallet":"w2","startBlockHeight":7}`), 'r', "w2"},
		{"register from 0", end(`{"actionType":"register","eventTypes":["unspentUtxo"],"descriptorWallet":"w3","startBlockHeight":0}`), 'r', "w3"},
		{"register by number", end(`{"actionType":"register","eventTypes":[1],"descriptorWallet":"w4","startBlockHeight":2}`), 'r', "w4"},
		{"unregister", end(unreg), 'u', ""},
		{"unregister another", hookUnreg("http://hook/2"), 'x', ""},
		{"unknown event", end(`{"actionType":"register","eventTypes":["unspentUtxo","other"],"descriptorWallet":"w5","startBlockHeight":1}`), 'x', "w5"},
		{"unknown number", end(`{"actionType":"register","eventTypes":[7],"descriptorWallet":"w5","startBlockHeight":1}`), 'x', "w5"},
		{"no events", end(`{"actionType":"register","eventTypes":[],"descriptorWallet":"w6","startBlockHeight":1}`), 'x', "w6"},
		{"events missing", end(`{"actionType":"register","descriptorWallet":"w7","startBlockHeight":1}`), 'x', "w7"},
		{"no descriptor", end(`{"actionType":"register","eventTypes":["unspentUtxo"],"startBlockHeight":1}`), 'x', ""},
		{"negative start", end(`{"actionType":"register","eventTypes":["unspentUtxo"],"descriptorWallet":"w8","startBlockHeight":-1}`), 'x', "w8"},
		{"unknown action", end(`{"actionType":"dance","eventTypes":["unspentUtxo"],"descriptorWallet":"w9","startBlockHeight":1}`), 'x', "w9"},
		{"empty object", `{}`, 'x', ""},
		{"not json", `hello`, 'x', ""},
		{"truncated json", `{"actionType":"register","eventTypes":["unsp`, 'x', ""},
		{"wrong type", end(`{"actionType":"register","eventTypes":"unspentUtxo","descriptorWallet":"wb","startBlockHeight":1}`), 'x', "wb"},
		{"empty", ``, 'x', ""},
	}
}

func requestsHTTP(e *vs.Enum) {
	sequences(httpRequests(), depth(e), func(seq []request) {
		e.Case(func() string { return "http " + names(seq) }, func() {
			e.Sched(func() {
				w := newWorld()
				kinds, watched := refKinds(seq)
				for i, r := range seq {
					x := w.post(r.body)
					if g := x.reply(); g != kinds[i] {
						vs.Fail("C21", "%s: request %d (%s) was answered with %q (status %d), want %s", names(seq), i+1, r.name, x.b.String(), x.code, kinds[i])
					}
					settle()
				}
				checkEffects(func(k, f string, a ...interface{}) { vs.Fail("C21", f, a...) }, w, watched, seq)
				// whoever was refused gets no events, whoever is registered does
				for i := 1; i <= 2; i++ {
					w.sc.emit(fmt.Sprintf("w%d", i), i)
				}
				settle()
				reg := map[string]int{}
				for _, r := range seq {
					if r.kind == 'r' {
						reg[r.desc]++
					}
					if r.kind == 'u' {
						reg = map[string]int{}
					}
				}
				var exp []string
				for i := 1; i <= 2; i++ {
					for k := 0; k < reg[fmt.Sprintf("w%d", i)]; k++ {
						exp = append(exp, ev(i))
					}
				}
				wantSet("C20", "events after "+names(seq), w.hk.of("http://hook/1"), exp)
			})
			e.Distinct(names(seq))
		})
	})
}
