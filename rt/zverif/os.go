package zverif

import (
	"os"
	"strings"
)

// File operations of the code under test, with crash points (native replay only). The partial effects
// are the same as in the engine's model.

func cutText(s string, variant int) string {
	if variant == 0 {
		return ""
	}
	lines := strings.Split(s, "\n")
	nl := func(ls []string) string {
		r := ""
		for _, l := range ls {
			r += l + "\n"
		}
		return r
	}
	half := func(l string) string {
		if len(l) < 64 {
			dec := true
			for _, c := range l {
				if c < '0' || c > '9' {
					dec = false
				}
			}
			if dec {
				return ""
			}
		}
		return l[:len(l)/2]
	}
	n := len(lines)
	if variant == 1 {
		if n >= 2 {
			return nl(lines[:n/2])
		}
		return half(lines[0])
	}
	return nl(lines[:n-1]) + half(lines[n-1])
}

func OsWriteFile(name string, data []byte, perm os.FileMode) error {
	inside(name)
	if k := CrashPoint(4); k >= 0 {
		if k > 0 {
			os.WriteFile(name, []byte(cutText(string(data), k-1)), perm)
		}
		Die()
	}
	return os.WriteFile(name, data, perm)
}

func OsRename(a, b string) error {
	inside(b)
	if _, err := os.Lstat(a); err == nil && CrashPoint(1) >= 0 {
		Die()
	}
	return os.Rename(a, b)
}

func OsRemove(a string) error {
	inside(a)
	if _, err := os.Lstat(a); err == nil && CrashPoint(1) >= 0 {
		Die()
	}
	return os.Remove(a)
}

func OsMkdirAll(a string, perm os.FileMode) error {
	inside(a)
	if _, err := os.Lstat(a); err != nil && CrashPoint(1) >= 0 {
		Die()
	}
	return os.MkdirAll(a, perm)
}

func OsMkdir(a string, perm os.FileMode) error {
	inside(a)
	if _, err := os.Lstat(a); err != nil && CrashPoint(1) >= 0 {
		Die()
	}
	return os.Mkdir(a, perm)
}
