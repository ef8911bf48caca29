package rpmutils_test

import (
	"sync"

	"github.com/ProtonMail/go-crypto/openpgp"
	"github.com/ProtonMail/go-crypto/openpgp/packet"
)

var keyOnce sync.Once
var keyEnt *openpgp.Entity

func testKey() *openpgp.Entity {
	keyOnce.Do(func() {
		e, err := openpgp.NewEntity("verif", "", "verif@example.com", &packet.Config{RSABits: 1024})
		if err != nil {
			panic(err)
		}
		keyEnt = e
	})
	return keyEnt
}
