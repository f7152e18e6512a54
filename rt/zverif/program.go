package zverif

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/x509"
	"encoding/hex"
	"fmt"
	"io"
	"os"
	"os/user"
	"path/filepath"
	"strings"
)

// Programs run inside a harness: arguments, console, home directory, exit and fresh keys.

// Exited is what a program that ends itself panics with.
type Exited struct{ Code int }

func OsExit(code int) { panic(Exited{code}) }

// Console runs a program with arguments and typed input: what it printed, and whether it failed (aborted or ended with an error code).
func Console(args []string, input string, f func()) (out string, failed bool) {
	old := os.Args
	os.Args = args
	startConsole(input)
	defer func() {
		r := recover()
		if e, ok := r.(Exited); ok {
			failed = e.Code != 0
		} else if r != nil {
			failed = true
		}
		out = endConsole()
		os.Args = old
	}()
	f()
	return
}

var (
	conOut        *os.File
	oldIn, oldOut *os.File
)

// native versions; the engine replaces both
func startConsole(input string) {
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	w.WriteString(input)
	w.Close()
	f, err := os.CreateTemp("", "console")
	if err != nil {
		panic(err)
	}
	oldIn, oldOut, conOut = os.Stdin, os.Stdout, f
	os.Stdin, os.Stdout = r, f
}

// EndConsole restores the console after a killed program.
func EndConsole() {
	if conOut != nil {
		endConsole()
	}
}

func endConsole() string {
	os.Stdin, os.Stdout = oldIn, oldOut
	b, err := os.ReadFile(conOut.Name())
	if err != nil {
		panic(err)
	}
	conOut.Close()
	os.Remove(conOut.Name())
	conOut = nil
	return string(b)
}

const Home = "home"

func UserCurrent() (*user.User, error) {
	return &user.User{Uid: "1", Username: "u", HomeDir: Home}, nil
}
func OsUserHomeDir() (string, error)   { return Home, nil }
func OsUserConfigDir() (string, error) { return Home + "/.config", nil }

// inside: replayed code must not write outside the scratch directory it runs in
func inside(name string) {
	wd, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	p, err := filepath.Abs(name)
	if err != nil {
		panic(err)
	}
	for _, d := range []string{wd, os.TempDir()} {
		if p == d || strings.HasPrefix(p, d+"/") {
			return
		}
	}
	fmt.Fprintln(os.Stderr, "ZVERIF write outside the scratch directory: "+name)
	os.Exit(ExitNoRun)
}

// Fresh keys come from a fixed pool, in order.
var FreshKeys = []string{
	"30770201010420fc67adcb75b0df167861ff8cbe25263473227b34894e531f5f4e8cd3fb5e940fa00a06082a8648ce3d030107a14403420004d79d91dbb22fbbf374d76d0f0d10de5f4030515ea17ca22ba7c620ab034bab6f41b1c3f67ea3a9273b86f052933d264ab68a2f4d3f9d2a2025c7eb069f695a0b", // 128cdafb
	"30770201010420fd9d0d57c75d49cad2eeb6ce4030c92d95559f9261ce88c66495a06d2403ef75a00a06082a8648ce3d030107a144034200040e3491de8dd76f390d985d2796702fd10cd43e1c231931c6ee12d9e99241b5b694fc923332730b814a38c29c712ced861d03fd86b1cf7eda5af98a90d096c1af", // ae9279b9
	"307702010104201e7408256e7936e917d3c324d3b2633d4b22b7174acaf8a70567636a81ae06c6a00a06082a8648ce3d030107a144034200043d1c23affa19d6c51bd3b7b13e142af8dc56622648ec9d31cf7cf77afae18f376b896918f2952db5823981222bf98e40520e2720575d4fb627ae459dfd6ad75d", // 5e160343
	"307702010104207bff9debef59c38f4f392bbd8d69f9797d4fbb6d5510a8b4c1755f3e37eedf48a00a06082a8648ce3d030107a14403420004f6858293d5f4f4237e633a9f8ee587b2394a3ec71fe3ad36fd8e5a5c3dba0abf5034c40d81e4f685306063b68656875611933bc8d1754b03d7c7a8e58d4c5dea", // 7de015d5
}

var nextKey int

// RestartKeys: the pool is used from the start again.
func RestartKeys() { nextKey = 0 }

func GenerateKey(c elliptic.Curve, r io.Reader) (*ecdsa.PrivateKey, error) {
	if nextKey >= len(FreshKeys) {
		Assume(false)
	}
	b, err := hex.DecodeString(FreshKeys[nextKey])
	if err != nil {
		panic(err)
	}
	nextKey++
	return x509.ParseECPrivateKey(b)
}
