package main

import (
	"context"
	"crypto/tls"
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"time"

	"xv/rep"
	"xv/xsrv"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/netx/connector"
	"github.com/renthraysk/xtorm/netx/pool/fifoch"
)

var pki *xsrv.PKI

// ours returns the goroutines that run or were started by the library.
func ours() (left []string) {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "github.com/renthraysk/xtorm") {
			left = append(left, g)
		}
	}
	return
}

// leftovers: the whole stack at work (real connector, connections and pool, with
// sends that succeed, fail, time out and find their context over); when every call
// has returned and the pool is closed, none of its goroutines may be left, although
// the callers' contexts are still alive. Nothing else runs meanwhile.
func leftovers(r *rep.Run, i int, rng *rand.Rand) {
	s, network, err := xsrv.ListenTCP(rng.Intn(10))
	if err != nil {
		r.Harness("listen: %v", err)
		return
	}
	defer s.Close()
	acc := xsrv.NewAccount(rng)
	secure := i%2 == 1
	for k := 0; k < 300; k++ {
		kind, seed := rng.Intn(8), rng.Int63()
		var au *xsrv.Auth
		s.Next(func(t *xsrv.Trace, m xsrv.Msg) xsrv.Action {
			if au == nil {
				au = &xsrv.Auth{Acc: acc, R: rand.New(rand.NewSource(seed))}
				if kind == 0 {
					au.Deny = func(int, string) []byte { return xsrv.Err(0, 1045, "no") }
				}
			}
			if m.Type == 2 && !m.TLS {
				if kind == 1 {
					return xsrv.Action{Reply: xsrv.Err(0, 5001, "no TLS")}
				}
				return xsrv.Action{Reply: xsrv.OK(), StartTLS: &tls.Config{Certificates: []tls.Certificate{pki.Good}}}
			}
			if a, ok := au.On(m); ok {
				return a
			}
			switch kind {
			case 2:
				return xsrv.Action{Reply: xsrv.Err(0, 1064, "syntax")}
			case 3:
				return xsrv.Action{FIN: true}
			case 4:
				time.Sleep(100 * time.Millisecond)
				return xsrv.Action{FIN: true}
			}
			return xsrv.Work(m)
		})
	}
	opts := []connector.Option{connector.WithUserPassword(acc.User, acc.PW), connector.WithDatabase(acc.DB)}
	if secure {
		opts = append(opts, connector.WithTLSConfig(&tls.Config{RootCAs: pki.Roots, ServerName: "localhost"}))
	}
	cn, err := connector.New(network, s.Addr(), opts...)
	if err != nil {
		r.Violation("connector.New: %v", err)
		return
	}
	pl := fifoch.New(cn, 3)
	var cancels []func() // kept for the end
	var mu sync.Mutex
	defer func() {
		for _, f := range cancels {
			f()
		}
	}()
	var wg sync.WaitGroup
	for w := 0; w < 6; w++ {
		wrng := rand.New(rand.NewSource(rng.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 25; k++ {
				d := time.Hour
				if wrng.Intn(3) == 0 {
					d = 50 * time.Millisecond
				}
				base, stop := context.WithCancel(context.Background())
				if wrng.Intn(10) == 0 {
					stop()
				}
				ctx, done := context.WithDeadline(base, time.Now().Add(d))
				x := xtorm.New(32)
				x.StmtExecute("SELECT 1")
				x.Send(ctx, pl)
				mu.Lock()
				cancels = append(cancels, done, stop)
				mu.Unlock()
			}
		}()
	}
	r.Watch(200*time.Second, func() string { return fmt.Sprintf("leftovers %d", i) }, wg.Wait)
	pl.Close(context.Background())
	var left []string
	for end := time.Now().Add(15 * time.Second); ; time.Sleep(20 * time.Millisecond) {
		if left = ours(); len(left) == 0 {
			break
		}
		if time.Now().After(end) {
			r.Violation("leftovers %d over %s, TLS %v: 150 sends have returned and the pool is closed; %d goroutines of the library are left, such as\n%s", i, network, secure, len(left), left[0])
			return
		}
	}
	r.Count("quiet_moments_without_goroutines", 1)
	r.Eval(fmt.Sprintf("leftovers/%d", i))
}
