package zharness

import (
	"encoding/base64"
	"os"
	"strings"

	"github.com/levilutz/basiccoin/internal/zbcwallet"
	"github.com/levilutz/basiccoin/internal/zverif"
	"github.com/levilutz/basiccoin/pkg/core"
)

// bcwallet runs the wallet program
func bcwallet(input string, args ...string) (string, bool) {
	return zverif.Console(append([]string{"bcwallet", "dev"}, args...), input, zbcwallet.ZMain)
}

// shell: a user's home directory and a node that the wallet talks to
type shell struct {
	*backend
	file string
	addr string
}

func newShell() *shell {
	s := &shell{backend: newBackend()}
	s.serve(false, true, "")
	s.addr = s.url
	setup(os.MkdirAll(zverif.Home, 0755))
	zverif.RestartKeys()
	out, failed := bcwallet("", "get-config-path")
	ok(!failed, "a first use of the wallet fails")
	s.file = strings.Split(out, "\n")[0]
	for _, l := range strings.Split(out, "\n") { // a warning may come first: the default node is not there
		if strings.HasSuffix(l, ".json") {
			s.file = l
		}
	}
	return s
}

// connected: the wallet's node is ours
func (s *shell) connected() *shell {
	_, failed := bcwallet("", "connect", s.addr)
	ok(!failed, "the wallet does not connect to a node of its version")
	return s
}

// keyText: a key as the wallet writes it
func keyText(k key, pkh string) string {
	b, err := core.MarshalEcdsaPrivate(k.priv)
	setup(err)
	return `{"publicKeyHash": "` + pkh + `", "privateKey": "` + base64.StdEncoding.EncodeToString(b) + `"}`
}

func walletText(addr string, keys ...string) string {
	return `{"dev": true, "nodeAddr": "` + addr + `", "keys": [` + strings.Join(keys, ", ") + `]}`
}

func (s *shell) put(file string, addr string, ks ...key) {
	var ts []string
	for _, k := range ks {
		ts = append(ts, keyText(k, k.pkh.String()))
	}
	setup(os.WriteFile(file, []byte(walletText(addr, ts...)), 0600))
}

// holds: the hashes of the keys in the wallet, as it asks the node about them
func (s *shell) holds() []core.HashT {
	s.asked, s.ids = 0, nil
	s.sums = map[core.HashT]uint64{}
	bcwallet("", "balance")
	if s.asked == 0 {
		return nil
	}
	ok(s.asked == 1 && s.kind == "balance", "the wallet asks for something else than its balance")
	return s.ids
}

func (s *shell) want(when string, ks ...key) {
	got := s.holds()
	for _, k := range ks {
		n := 0
		for _, h := range got {
			if h == k.pkh {
				n++
			}
		}
		ok(n > 0, when+": a key is gone from the wallet")
		ok(n < 2, when+": a key is twice in the wallet")
	}
	ok(len(got) == len(ks), when+": the wallet has a key that was never added")
}

func freshKey(i int) key {
	k, err := core.ParseECDSAPrivate(mustHex(zverif.FreshKeys[i]))
	setup(err)
	pub, err := core.MarshalEcdsaPublic(k)
	setup(err)
	return key{k, pub, core.DHashBytes(pub)}
}

func addKey(ks []key, k key) []key {
	for _, x := range ks {
		if x.pkh == k.pkh {
			return ks
		}
	}
	return append(append([]key{}, ks...), k)
}

// step runs one wallet command that changes the file: the keys before and after
func (s *shell) step(have []key, fresh int) (run func() (string, bool), after []key, used int) {
	switch zverif.Choice("command", 5) {
	case 0:
		return func() (string, bool) { return bcwallet("", "generate") }, addKey(have, freshKey(fresh)), 1
	case 1: // the first key with this prefix
		return func() (string, bool) { return bcwallet("", "generate", freshKey(fresh + 1).pkh.String()[:3]) }, addKey(have, freshKey(fresh+1)), 2
	case 2:
		s.put("other.json", "http://127.0.0.1:1", keyN(2), keyN(0), keyN(3))
		return func() (string, bool) { return bcwallet("", "import", "other.json") }, addKey(addKey(addKey(have, keyN(2)), keyN(0)), keyN(3)), 0
	case 3:
		s.put("other.json", "http://127.0.0.1:1")
		return func() (string, bool) { return bcwallet("", "import", "other.json") }, have, 0
	}
	return func() (string, bool) { return bcwallet("", "connect", s.addr+"/") }, have, 0
}

// No command of the wallet loses a key; generated and imported keys are in it from then on, each once.
// bounds: wallets with 0..2 keys whose node is there, not there or not given (then connect comes first), 1..2 commands (3 thorough) out of generate, generate with a prefix, import of a file with three keys, import of an empty file, connect
// reach: end
// cfg: paths=4000
func C32_keep() {
	s := newShell()
	var have []key
	n := zverif.Choice("keys", 3)
	for i := 0; i < n; i++ {
		have = append(have, keyN(i))
	}
	node := []string{s.addr, "", "http://127.0.0.1:1"}[zverif.Choice("node", 3)]
	s.put(s.file, node, have...)
	if node != s.addr {
		s.connected()
	}
	s.want("before", have...)
	used := 0
	cmds := zverif.Int("commands", 1, zverif.Tier(2, 3))
	for i := 0; i < cmds; i++ {
		run, after, n := s.step(have, used)
		zverif.Assume(used+n <= len(zverif.FreshKeys))
		out, failed := run()
		ok(!failed && strings.Contains(out, "success"), "a wallet command fails")
		have = after
		used += n
		s.want("after a command", have...)
	}
	zverif.Reach("end")
}

// A wallet command killed at any point leaves every key that was in the wallet.
// bounds: no wallet yet or one with 0..2 keys, the commands of C32_keep, killed at any file operation or not at all (a write leaves nothing, half or all but the end, or all); then generate
// reach: killed whole
// cfg: paths=4000
func C32_killed() {
	s := newShell()
	var have []key
	keys := zverif.Int("keys", 0, 2)
	for i := 0; i < keys; i++ {
		have = append(have, keyN(i))
	}
	s.put(s.file, s.addr, have...)
	first := keys == 0 && zverif.Bool("first use")
	if first {
		setup(os.Remove(s.file))
	}
	run, after, n := s.step(have, 0)
	killed := zverif.CrashAlone(func() { run() })
	zverif.EndConsole()
	if first {
		bcwallet("", "connect", s.addr)
	}
	got := s.holds()
	for _, k := range have {
		ok(includes(got, k.pkh), "a wallet command killed half-way loses a key")
	}
	for _, h := range got {
		known := false
		for _, k := range after {
			known = known || k.pkh == h
		}
		ok(known, "a wallet command killed half-way leaves a key never added")
	}
	ok(len(got) == len(have) || len(got) == len(after), "a wallet command killed half-way is half done")
	ok(killed || len(got) == len(after), "a wallet command has no effect")
	// the next command works
	_, failed := bcwallet("", "generate")
	ok(!failed, "the wallet does not work any more after a killed command")
	now := s.holds()
	for _, h := range got {
		ok(includes(now, h), "a key is gone from the wallet")
	}
	ok(len(now) >= len(got), "a key is gone from the wallet")
	if killed {
		zverif.Reach("killed")
	} else {
		ok(includes(now, freshKey(n).pkh), "a generated key is not in the wallet")
		zverif.Reach("whole")
	}
}

func includes(l []core.HashT, h core.HashT) bool {
	for _, x := range l {
		if x == h {
			return true
		}
	}
	return false
}

// A key stored under a hash that is not its own is never used, and importing it leaves the wallet as it was.
// bounds: wallet and imported file with one right key and one under any hash, in either order
// reach: right wrong
func C32_foreign() {
	s := newShell()
	a, b := keyN(0), keyN(1)
	h := symHash("hash")
	zverif.Assume(zverif.And(h != a.pkh, h != keyN(2).pkh))
	t := []string{keyText(a, a.pkh.String()), keyText(b, h.String())}
	if zverif.Bool("order") {
		t[0], t[1] = t[1], t[0]
	}
	imp := zverif.Bool("import")
	if imp {
		s.put(s.file, s.addr, keyN(2))
		setup(os.WriteFile("other.json", []byte(walletText(s.addr, t...)), 0600))
		bcwallet("", "import", "other.json")
	} else {
		setup(os.WriteFile(s.file, []byte(walletText(s.addr, t...)), 0600))
	}
	got := s.holds()
	if h == b.pkh {
		ok(includes(got, a.pkh) && includes(got, b.pkh), "a right wallet file is refused")
		zverif.Reach("right")
		return
	}
	ok(!includes(got, h), "a key is used under a hash that is not its own")
	if imp {
		ok(len(got) == 1 && got[0] == keyN(2).pkh, "a refused import changes the wallet")
	}
	zverif.Reach("wrong")
}
