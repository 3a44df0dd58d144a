// Package kit holds what the checks share: identities, an exact reference
// index with fault injection, a fault-injecting and crash-freezable datastore,
// generated advertisement chains with their reference model, and HTTP and
// libp2p publishers whose every response the harness controls.
package kit

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"sync"

	"github.com/filecoin-project/storetheindex/zz_verif/pbt"
	"github.com/libp2p/go-libp2p-core/crypto"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multihash"
)

// Ident is a deterministic identity.
type Ident struct {
	N    int
	Priv crypto.PrivKey
	ID   peer.ID
}

func (i Ident) String() string { return fmt.Sprintf("peer%d", i.N) }

var (
	identMu sync.Mutex
	idents  = map[int]Ident{}
)

// ID returns the n-th deterministic identity.
func ID(n int) Ident {
	identMu.Lock()
	defer identMu.Unlock()
	if i, ok := idents[n]; ok {
		return i
	}
	h := sha256.Sum256([]byte(fmt.Sprintf("verif identity %d", n)))
	priv, _, err := crypto.GenerateEd25519Key(bytes.NewReader(h[:]))
	pbt.Must(err)
	id, err := peer.IDFromPrivateKey(priv)
	pbt.Must(err)
	i := Ident{n, priv, id}
	idents[n] = i
	return i
}

// PeerName maps a peer ID back to the harness's name for it.
func PeerName(p peer.ID) string {
	identMu.Lock()
	defer identMu.Unlock()
	for n, i := range idents {
		if i.ID == p {
			return fmt.Sprintf("peer%d", n)
		}
	}
	return p.String()
}

// MH returns the n-th deterministic multihash. The hash function varies with n.
func MH(n int) multihash.Multihash {
	code := uint64(multihash.SHA2_256)
	switch n % 7 {
	case 3:
		code = multihash.SHA2_512
	case 5:
		code = multihash.SHA1
	}
	m, err := multihash.Sum([]byte(fmt.Sprintf("verif content %d", n)), code, -1)
	pbt.Must(err)
	return m
}

// MHNames maps multihashes of MH back to numbers, for reports.
func MHName(m multihash.Multihash) string {
	for n := 0; n < 4096; n++ {
		if bytes.Equal(mhCached(n), m) {
			return fmt.Sprintf("mh%d", n)
		}
	}
	return m.B58String()
}

var (
	mhMu    sync.Mutex
	mhCache []multihash.Multihash
)

func mhCached(n int) multihash.Multihash {
	mhMu.Lock()
	defer mhMu.Unlock()
	for len(mhCache) <= n {
		mhCache = append(mhCache, MH(len(mhCache)))
	}
	return mhCache[n]
}
