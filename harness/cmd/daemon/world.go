package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	adminclient "github.com/filecoin-project/storetheindex/api/v0/admin/client/http"
	finderclient "github.com/filecoin-project/storetheindex/api/v0/finder/client/http"
	ingestclient "github.com/filecoin-project/storetheindex/api/v0/ingest/client/http"
	"github.com/filecoin-project/storetheindex/zz_verif/kit"
	"github.com/filecoin-project/storetheindex/zz_verif/pbt"
	"github.com/multiformats/go-multihash"
)

const (
	portAdmin  = 3002
	portFinder = 3000
	portIngest = 3001
	portP2P    = 3003
)

// output collects what a process writes.
type output struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (o *output) Write(p []byte) (int, error) {
	o.mu.Lock()
	defer o.mu.Unlock()
	return o.b.Write(p)
}

func (o *output) String() string {
	o.mu.Lock()
	defer o.mu.Unlock()
	return o.b.String()
}

// dworld is an indexer installation in a scratch directory, with loopback
// addresses of its own, and the daemon process that runs on it.
type dworld struct {
	t    *pbt.T
	dir  string // scratch directory, HOME of every process
	home string // root of the installation
	ip   string
	v6   map[int]int // ports on ::1, if that is the address

	cmd  *exec.Cmd
	out  *output
	exit chan struct{}
	code int

	admin  *adminclient.Client
	finder *finderclient.Client
	ingest *ingestclient.Client
}

func bin() string {
	b := os.Getenv("VERIF_DAEMON_BIN")
	if b == "" {
		panic(pbt.InfraError{Err: errors.New("VERIF_DAEMON_BIN is not set")})
	}
	return b
}

func (w *dworld) env() []string {
	return []string{"HOME=" + w.dir, "STORETHEINDEX_PATH=" + w.home, "PATH=/usr/bin:/bin", "TMPDIR=" + w.dir, "GOLOG_LOG_FMT=nocolor", "GOMAXPROCS=4", "GOTRACEBACK=all"}
}

// run runs a command of the binary to its end.
func (w *dworld) run(args ...string) (code int, stdout, stderr string) {
	c := exec.Command(bin(), args...)
	c.Env = w.env()
	c.Dir = w.dir
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var o, e output
	c.Stdout, c.Stderr = &o, &e
	pbt.Must(c.Start())
	done := make(chan struct{})
	go func() { c.Wait(); close(done) }()
	if !pbt.FairDone(60*time.Second, done) {
		c.Process.Signal(syscall.SIGQUIT)
		pbt.FairDone(3*time.Second, done)
		c.Process.Kill()
		<-done
		w.t.Fail("command-hangs", "command %q does not end:\n%s\n%s", args, o.String(), tail(e.String(), 4000))
	}
	if strings.Contains(e.String(), "panic: ") || strings.Contains(e.String(), "fatal error: ") {
		w.t.Fail("panic", "command %q panics:\n%s", args, tail(e.String(), 4000))
	}
	return c.ProcessState.ExitCode(), o.String(), e.String()
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

// bare makes the directories of an installation.
func bare(t *pbt.T) *dworld {
	dir := t.TempDir()
	w := &dworld{t: t, dir: dir, home: filepath.Join(dir, "home"), ip: kit.LoopIP()}
	t.Cleanup(w.kill)
	w.clients()
	return w
}

// host is the host:port of a server.
func (w *dworld) host(port int) string {
	if w.v6 != nil {
		return fmt.Sprintf("[::1]:%d", w.v6[port])
	}
	return fmt.Sprintf("%s:%d", w.ip, port)
}

func (w *dworld) url(port int) string { return "http://" + w.host(port) }

func (w *dworld) tcp(port int) string {
	if w.v6 != nil {
		return fmt.Sprintf("/ip6/::1/tcp/%d", w.v6[port])
	}
	return fmt.Sprintf("/ip4/%s/tcp/%d", w.ip, port)
}

var v6next int

// useV6 moves the servers to the IPv6 loopback address, with ports that are
// free; it reports whether it could.
func (w *dworld) useV6() bool {
	m := map[int]int{}
	for try := 0; len(m) < 4 && try < 200; try++ {
		v6next++
		port := 11000 + (os.Getpid()*401+v6next)%20000
		l, err := net.Listen("tcp6", fmt.Sprintf("[::1]:%d", port))
		if err != nil {
			continue
		}
		l.Close()
		m[[]int{portAdmin, portFinder, portIngest, portP2P}[len(m)]] = port
	}
	if len(m) < 4 {
		return false
	}
	w.v6 = m
	w.clients()
	return true
}

func (w *dworld) clients() {
	var err error
	w.admin, err = adminclient.New(w.url(portAdmin))
	pbt.Must(err)
	w.finder, err = finderclient.New(w.url(portFinder))
	pbt.Must(err)
	w.ingest, err = ingestclient.New(w.url(portIngest))
	pbt.Must(err)
}

// initArgs are the arguments of init for this installation.
func (w *dworld) initArgs(more ...string) []string {
	return append([]string{"init", "--no-bootstrap", "--lotus-gateway", "none",
		"--listen-admin", w.tcp(portAdmin), "--listen-finder", w.tcp(portFinder), "--listen-ingest", w.tcp(portIngest)}, more...)
}

// newWorld initializes an installation.
func newWorld(t *pbt.T, more ...string) *dworld {
	return initWorld(bare(t), more...)
}

func initWorld(w *dworld, more ...string) *dworld {
	t := w.t
	code, o, e := w.run(w.initArgs(more...)...)
	if code != 0 {
		t.Fail("init-fails", "init exits with %d: %s %s", code, o, e)
	}
	w.edit(func(c map[string]interface{}) {
		set(c, w.tcp(portP2P), "Addresses", "P2PAddr")
		set(c, "1h0m0s", "Indexer", "ConfigCheckInterval")
		set(c, 0, "Ingest", "HttpSyncRetryMax")
	})
	return w
}

func (w *dworld) cfgPath() string { return filepath.Join(w.home, "config") }

// set sets a value of a configuration tree.
func set(c map[string]interface{}, v interface{}, path ...string) {
	for _, p := range path[:len(path)-1] {
		n, ok := c[p].(map[string]interface{})
		if !ok {
			n = map[string]interface{}{}
			c[p] = n
		}
		c = n
	}
	c[path[len(path)-1]] = v
}

func get(c map[string]interface{}, path ...string) interface{} {
	for _, p := range path[:len(path)-1] {
		c, _ = c[p].(map[string]interface{})
	}
	return c[path[len(path)-1]]
}

func (w *dworld) readCfg() map[string]interface{} {
	b, err := ioutil.ReadFile(w.cfgPath())
	pbt.Must(err)
	c := map[string]interface{}{}
	if err := json.Unmarshal(b, &c); err != nil {
		w.t.Fail("config-json", "the config file is not JSON: %v", err)
	}
	return c
}

// writeCfg replaces the config file atomically, with a new modification time.
func (w *dworld) writeCfg(b []byte) {
	tmp := w.cfgPath() + ".new"
	pbt.Must(ioutil.WriteFile(tmp, b, 0o600))
	if fi, err := os.Stat(w.cfgPath()); err == nil {
		// file times may be coarse
		mt := fi.ModTime().Add(10 * time.Millisecond)
		if n := time.Now(); n.After(mt) {
			mt = n
		}
		pbt.Must(os.Chtimes(tmp, mt, mt))
	}
	pbt.Must(os.Rename(tmp, w.cfgPath()))
}

func (w *dworld) edit(f func(c map[string]interface{})) {
	c := w.readCfg()
	f(c)
	b, err := json.MarshalIndent(c, "", " ")
	pbt.Must(err)
	w.writeCfg(b)
}

// spawn starts the daemon process.
func (w *dworld) spawn(args ...string) {
	c := exec.Command(bin(), append([]string{"daemon"}, args...)...)
	c.Env = w.env()
	c.Dir = w.dir
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	w.out = &output{}
	c.Stdout, c.Stderr = w.out, w.out
	pbt.Must(c.Start())
	w.cmd = c
	exit := make(chan struct{})
	w.exit = exit
	go func() {
		c.Wait()
		close(exit)
	}()
}

func (w *dworld) exited() bool {
	select {
	case <-w.exit:
		return true
	default:
		return false
	}
}

// up waits until the daemon is ready; it reports whether it is.
func (w *dworld) up() bool {
	ok := false
	ended := pbt.Fair(60*time.Second, func() bool {
		ok = strings.Contains(w.out.String(), "Indexer is ready")
		return ok || w.exited()
	})
	if !ended {
		w.stacks()
		w.t.Fail("start-hangs", "the daemon is neither ready nor ended: %s", tail(w.out.String(), 6000))
	}
	return ok
}

// start starts the daemon and waits until it is ready.
func (w *dworld) start(args ...string) {
	for i := 0; ; i++ {
		w.spawn(args...)
		if w.up() {
			return
		}
		<-w.exit
		if strings.Contains(w.out.String(), "address already in use") && i < 5 {
			time.Sleep(100 * time.Millisecond)
			continue
		}
		if strings.Contains(w.out.String(), "address already in use") && w.v6 != nil {
			w.t.Discard()
		}
		w.t.Fail("start-fails", "the daemon does not start: %s", tail(w.out.String(), 4000))
	}
}

func (w *dworld) stacks() {
	if w.cmd != nil && !w.exited() {
		w.cmd.Process.Signal(syscall.SIGQUIT)
		pbt.FairDone(5*time.Second, w.exit)
	}
}

func (w *dworld) kill() {
	if w.cmd != nil {
		w.cmd.Process.Kill()
		<-w.exit
		w.panicked()
		w.cmd = nil
	}
}

func (w *dworld) panicked() {
	o := w.out.String()
	for _, s := range []string{"panic: ", "fatal error: ", "DATA RACE"} {
		if i := strings.Index(o, s); i >= 0 {
			e := i + 4000
			if e > len(o) {
				e = len(o)
			}
			w.t.Fail("panic", "the daemon panics: %s", o[i:e])
		}
	}
}

// stop ends the daemon by a signal: it has to exit with status 0.
func (w *dworld) stop(sig syscall.Signal) {
	w.cmd.Process.Signal(sig)
	w.stopped(sig.String())
}

func (w *dworld) stopped(what string) {
	if !pbt.FairDone(60*time.Second, w.exit) {
		w.stacks()
		w.t.Fail("stop-hangs", "the daemon does not end after %s: %s", what, tail(w.out.String(), 12000))
	}
	w.panicked()
	if c := w.cmd.ProcessState.ExitCode(); c != 0 {
		w.t.Fail("stop-status", "after %s the daemon ends with status %d: %s", what, c, tail(w.out.String(), 4000))
	}
	w.cmd = nil
}

// alive checks that the daemon runs.
func (w *dworld) alive(after string) {
	if w.exited() {
		w.panicked()
		w.t.Fail("daemon-ended", "the daemon ended after %s: %s", after, tail(w.out.String(), 4000))
	}
}

// listening reports whether a port accepts connections.
func (w *dworld) listening(port int) bool {
	c, err := net.DialTimeout("tcp", w.host(port), 5*time.Second)
	if err != nil {
		return false
	}
	c.Close()
	return true
}

func mkdir(d string) error { return os.MkdirAll(d, 0o700) }

func ctx10() (context.Context, context.CancelFunc) {
	return context.WithTimeout(context.Background(), 60*time.Second)
}

// content is what the finder answers for the multihashes.
func (w *dworld) content(mhs []multihash.Multihash) kit.Content {
	c := kit.Content{}
	if len(mhs) == 0 {
		return c
	}
	ctx, cancel := ctx10()
	defer cancel()
	r, err := w.finder.FindBatch(ctx, mhs)
	if err != nil {
		w.alive("a find request")
		w.t.Fail("find-error", "find fails: %v", err)
	}
	for _, m := range r.MultihashResults {
		for _, v := range m.ProviderResults {
			c[string(m.Multihash)] = append(c[string(m.Multihash)], kit.ValStr(v.Provider.ID, v.ContextID, v.Metadata))
		}
	}
	c.Sort()
	return c
}

// waitContent waits for the content.
func (w *dworld) waitContent(mhs []multihash.Multihash, want kit.Content) string {
	var d string
	first := true
	// every try takes 30 ms more
	pbt.Fair(4*time.Second, func() bool {
		if w.exited() {
			w.alive("an operation")
		}
		if !first {
			time.Sleep(30 * time.Millisecond)
		}
		first = false
		d = kit.DiffContent(w.content(mhs), want)
		return d == ""
	})
	return d
}

// providers is what the finder lists about providers.
func (w *dworld) providers() map[string]string {
	ctx, cancel := ctx10()
	defer cancel()
	l, err := w.finder.ListProviders(ctx)
	if err != nil {
		w.alive("a list request")
		w.t.Fail("list-error", "listing providers fails: %v", err)
	}
	out := map[string]string{}
	for _, p := range l {
		var as []string
		for _, a := range p.AddrInfo.Addrs {
			as = append(as, a.String())
		}
		k := kit.PeerName(p.AddrInfo.ID)
		if _, dup := out[k]; dup {
			w.t.Fail("listed-twice", "provider %s is listed twice", k)
		}
		out[k] = fmt.Sprintf("at %v, last %s", as, p.LastAdvertisement)
	}
	return out
}

func diffProviders(got, want map[string]string) string {
	var ks []string
	for k := range want {
		ks = append(ks, k)
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		if got[k] != want[k] {
			return fmt.Sprintf("%s: listed as %q, expected %q", k, got[k], want[k])
		}
	}
	return ""
}
