package kit

import (
	"fmt"
	"math/rand"
	"net"
	"os"
	"sync"
	"time"
)

var loopMu sync.Mutex
var loopRnd = rand.New(rand.NewSource(time.Now().UnixNano() ^ int64(os.Getpid())<<20))

// LoopIP returns a random address of the loopback network, so that thousands
// of short-lived servers do not use up the ports of one address. Where the
// loopback network has only one address, that is returned.
func LoopIP() string {
	loopMu.Lock()
	ip := fmt.Sprintf("127.%d.%d.%d", 1+loopRnd.Intn(250), loopRnd.Intn(250), 1+loopRnd.Intn(250))
	loopMu.Unlock()
	ln, err := net.Listen("tcp", ip+":0")
	if err != nil {
		return "127.0.0.1"
	}
	ln.Close()
	return ip
}

// LoopListen listens on a free port of the loopback network.
func LoopListen() (net.Listener, error) { return net.Listen("tcp", LoopIP()+":0") }
