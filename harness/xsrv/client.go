package xsrv

import (
	"math/rand"
	"sync"

	"github.com/renthraysk/xtorm/netx/connector/authentication"
	"github.com/renthraysk/xtorm/netx/connector/authentication/mysql41"
	"github.com/renthraysk/xtorm/netx/connector/authentication/plain"
	"github.com/renthraysk/xtorm/netx/connector/authentication/sha256"
)

// Account is what the client is configured with and the server knows.
type Account struct {
	User, PW, DB string
}

const alpha = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"

func word(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = alpha[r.Intn(len(alpha))]
	}
	return string(b)
}

// NewAccount: long random words, so that finding one in a byte stream means it was sent.
func NewAccount(r *rand.Rand) Account {
	a := Account{word(r, 16+r.Intn(20)), word(r, 20+r.Intn(30)), word(r, 16+r.Intn(10))}
	if r.Intn(8) == 0 {
		a.User, a.PW = word(r, 120), word(r, 200)
	}
	return a
}

// Mech returns a mechanism by number.
func Mech(k int) (string, authentication.Starter) {
	switch k % 3 {
	case 0:
		return "MYSQL41", mysql41.New()
	case 1:
		return "SHA256_MEMORY", sha256.New()
	}
	return "PLAIN", plain.New()
}

// Auth is the server's side of authentication on one connection.
type Auth struct {
	mu        sync.Mutex
	Acc       Account
	R         *rand.Rand
	Mech      string
	challenge []byte
	// Deny, if set, replaces the verdict on the k-th attempt (0-based): nil
	// leaves it to the proof.
	Deny    func(attempt int, mech string) []byte
	AtStart bool // deliver denials already to the start message
	Attempt int  // attempts seen so far
	Plain   int  // PLAIN attempts
	Before  func() []byte
}

func (a *Auth) verdict(ok bool) Action {
	k := a.Attempt
	a.Attempt++
	var pre []byte
	if a.Before != nil {
		pre = a.Before()
	}
	if a.Deny != nil {
		if d := a.Deny(k, a.Mech); d != nil {
			return Action{Reply: append(pre, d...)}
		}
	}
	if ok {
		return Action{Reply: append(pre, AuthOK()...), Accept: true}
	}
	return Action{Reply: append(pre, Err(0, 1045, "Access denied (proof)")...)}
}

// On answers an authentication message.
func (a *Auth) On(m Msg) (act Action, ok bool) {
	switch m.Type {
	case 4:
		mech, data, ok := m.Start()
		if !ok {
			return Action{Reply: Err(1, 5000, "bad start"), FIN: true}, true
		}
		a.Mech = mech
		if mech == "PLAIN" {
			a.Plain++
			return a.verdict(Verify(mech, data, nil, a.Acc.User, a.Acc.PW, a.Acc.DB)), true
		}
		if a.AtStart {
			if a.Deny != nil && a.Deny(a.Attempt, mech) != nil {
				return a.verdict(false), true
			}
		}
		a.challenge = make([]byte, 20)
		a.R.Read(a.challenge)
		var pre []byte
		if a.Before != nil {
			pre = a.Before()
		}
		return Action{Reply: append(pre, Continue(a.challenge)...)}, true
	case 5:
		// AuthenticateContinue: field 1
		if len(m.Payload) < 2 || a.challenge == nil {
			return Action{Reply: Err(1, 5000, "bad continue"), FIN: true}, true
		}
		n, err := decodeContinue(m.Payload)
		if err != nil {
			return Action{Reply: Err(1, 5000, "bad continue"), FIN: true}, true
		}
		c := a.challenge
		a.challenge = nil
		return a.verdict(Verify(a.Mech, n, c, a.Acc.User, a.Acc.PW, a.Acc.DB)), true
	}
	return Action{}, false
}
