package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/google/uuid"
	"github.com/vulpemventures/neutrino-elements/internal/core/application"
	"github.com/vulpemventures/neutrino-elements/pkg/scanner"

	"verif/vs"
)

func newService(f *fakeScanner) application.NotificationService {
	return application.NewNotificationService(f)
}

// opsRun explores operation sequences of the notification service.
func opsRun() {
	f := newFake()
	ns := newService(f)
	if err := ns.Start(); err != nil {
		vs.Fail("C20", "the notification service does not start: %v", err)
	}
	var ids [2]application.SubscriberID
	for i := range ids {
		var u uuid.UUID
		u[0], u[15] = 1, byte(i+1)
		ids[i] = application.SubscriberID(u)
	}
	name := func(s application.SubscriberID) string {
		for i := range ids {
			if ids[i] == s {
				return fmt.Sprint(i)
			}
		}
		return "?"
	}
	got := make(chan string, 64)
	go func() {
		vs.Daemon()
		for {
			select {
			case r := <-ns.EventReport():
				k := "unspent"
				if r.EventType == scanner.SpentUtxo {
					k = "spent"
				}
				h := "nil"
				if r.BlockHash != nil {
					h = "hash"
				}
				got <- fmt.Sprintf("%s:%s:%s@%d%s", name(r.SubscriberID), k, r.Transaction.TxHash().String()[:6], r.BlockHeight, h)
			case r := <-ns.ErrorReport():
				got <- name(r.SubscriberID) + ":err"
			}
		}
	}()
	drain := func() (l []string) {
		for {
			select {
			case g := <-got:
				l = append(l, g)
			default:
				sort.Strings(l)
				return
			}
		}
	}
	// model: the registrations of each subscriber by wallet
	model := [2]map[string]int{{}, {}}
	depth := 4
	n := 0
	hist := ""
	for d := 0; d < depth; d++ {
		var exp []string
		op := vs.ChooseFree(9)
		switch {
		case op < 4: // subscribe
			s, wallet := op%2, []string{"w", "v"}[op/2]
			hist += fmt.Sprintf(" sub(%d,%s)", s, wallet)
			if err := ns.Subscribe(application.Subscriber{ID: ids[s], BlockHeight: 1, Events: []scanner.EventType{scanner.UnspentUtxo}, WalletDescriptor: wallet}); err != nil {
				vs.Fail("C20", "after%s: a valid subscription was refused: %v", hist, err)
			}
			model[s][wallet]++
		case op < 6:
			s := op % 2
			hist += fmt.Sprintf(" unsub(%d)", s)
			err := ns.UnSubscribe(application.Subscriber{ID: ids[s]})
			_, tried := model[s]["bad"]
			if free := tried && len(model[s]) == 1; !free && (err == nil) != (len(model[s]) > 0) {
				vs.Fail("C21", "after%s: UnSubscribe returned %v", hist, err)
			}
			model[s] = map[string]int{}
		case op == 6:
			hist += " bad(0)"
			if err := ns.Subscribe(application.Subscriber{ID: ids[0], BlockHeight: 1, Events: []scanner.EventType{scanner.UnspentUtxo}, WalletDescriptor: "bad"}); err != nil {
				vs.Fail("C20", "after%s: Subscribe returned %v", hist, err)
			}
			// it may be cancelled like any other, or be forgotten at once
			model[0]["bad"]++
			exp = append(exp, "0:err")
		default:
			wallet := []string{"w", "v"}[op-7]
			n++
			tx := n
			if op == 8 {
				tx = 100 + n
			}
			hist += fmt.Sprintf(" event(%s)", wallet)
			f.emit(wallet, tx)
			for s := range model {
				for i := 0; i < model[s][wallet]; i++ {
					r := report(uuid.UUID{}, 0, tx)
					k := "unspent"
					if tx >= 100 {
						k = "spent"
					}
					exp = append(exp, fmt.Sprintf("%d:%s:%s@1hash", s, k, r.Transaction.TxHash().String()[:6]))
				}
			}
		}
		settle()
		g := drain()
		sort.Strings(exp)
		if strings.Join(g, " ") != strings.Join(exp, " ") {
			vs.Fail("C20", "after%s: reported %v, want %v", hist, g, exp)
		}
	}
}
