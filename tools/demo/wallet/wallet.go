package main

import (
	"encoding/base64"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/levilutz/basiccoin/internal/rest"
	"github.com/levilutz/basiccoin/pkg/core"
)

var scratch = os.Getenv("SCRATCH")

// wallet runs the wallet program (for the development network) and returns what it shows
func wallet(stdin string, args ...string) string {
	c := exec.Command(filepath.Join(scratch, "bcwallet"), append([]string{"dev"}, args...)...)
	c.Dir, c.Stdin = scratch, strings.NewReader(stdin)
	out, _ := c.CombinedOutput()
	return string(out)
}

// serve starts the wallet endpoints of a node
func serve(n *node) string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	setup(err)
	port := l.Addr().(*net.TCPAddr).Port
	l.Close()
	var pr rest.Params
	pr.Port, pr.EnableWallet, pr.Version = port, true, "v0.0.0-dev"
	go rest.NewServer(pr, n.bus, n.inv).Start()
	time.Sleep(300 * time.Millisecond)
	return fmt.Sprintf("http://127.0.0.1:%d", port)
}

func keyText(k key) string {
	b, err := core.MarshalEcdsaPrivate(k.priv)
	setup(err)
	return `{"publicKeyHash": "` + k.pkh.String() + `", "privateKey": "` + base64.StdEncoding.EncodeToString(b) + `"}`
}

func walletFile(addr string, ks ...key) []byte {
	var ts []string
	for _, k := range ks {
		ts = append(ts, keyText(k))
	}
	return []byte(`{"dev": true, "nodeAddr": "` + addr + `", "keys": [` + strings.Join(ts, ", ") + `]}`)
}

// load puts a wallet file in place
func load(addr string, ks ...key) {
	dir := filepath.Join(scratch, "home/.config/basiccoin")
	setup(os.MkdirAll(dir, 0700))
	setup(os.WriteFile(dir+"/wallet-dev.json", walletFile(addr, ks...), 0600))
}
