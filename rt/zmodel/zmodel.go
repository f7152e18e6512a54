// Package zmodel: Go models of library functions used by the symbolic engine.
package zmodel

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"encoding/json"
	"errors"
	"io"
	"io/fs"
	"net/http"
	"net/url"
	"os/user"
	"path"
	"strings"
	"time"

	"github.com/levilutz/basiccoin/internal/zverif"
)

//model:io.ReadAll
func readAll(r io.Reader) ([]byte, error) {
	switch r := r.(type) { // readers of a known text, whose length may be symbolic
	case *zverif.Body:
		t := r.B
		r.B = nil
		return t, nil
	case *bytes.Reader:
		return zverif.ReaderBytes(r), nil
	case *bytes.Buffer:
		return zverif.BufferBytes(r), nil
	case *strings.Reader:
		return []byte(zverif.ReaderString(r)), nil
	case closer:
		return readAll(r.Reader)
	}
	b := make([]byte, 0, 512)
	for {
		n, err := r.Read(b[len(b):cap(b)])
		b = b[:len(b)+n]
		if err != nil {
			if err == io.EOF {
				err = nil
			}
			return b, err
		}
		if len(b) == cap(b) {
			b = append(b, 0)[:len(b)]
		}
	}
}

//model:io.NopCloser
func nopCloser(r io.Reader) io.ReadCloser {
	return closer{r}
}

type closer struct{ io.Reader }

func (closer) Close() error { return nil }

// model:(*encoding/json.Decoder).Decode
func decode(d *json.Decoder, v any) error {
	b, err := readAll(zverif.DecoderReader(d))
	if err != nil {
		return err
	}
	if len(b) == 0 {
		return io.EOF
	}
	return json.Unmarshal(b, v)
}

// model:(*encoding/json.Encoder).Encode
func encode(e *json.Encoder, v any) error {
	b, err := json.Marshal(v)
	if err != nil {
		return err
	}
	_, err = zverif.EncoderWriter(e).Write(append(b, '\n'))
	return err
}

// a request of a client in the same program, through the handlers mounted by the server
func roundTrip(method, addr string, body []byte) (*http.Response, error) {
	_, rest, ok := strings.Cut(addr, "://")
	if !ok {
		return nil, errors.New("unsupported protocol scheme")
	}
	rest, query, _ := strings.Cut(rest, "?")
	host, p, _ := strings.Cut(rest, "/")
	if !zverif.Served(host) {
		return nil, errors.New("connection refused")
	}
	p = path.Clean("/" + p)
	w := &zverif.Answer{}
	r := &http.Request{Method: method, URL: &url.URL{Path: p, RawQuery: query}, Header: http.Header{}, Body: &zverif.Body{B: body}}
	if !zverif.HTTP(p, w, r) {
		w.Code = 404
	}
	if w.Code == 0 {
		w.Code = 200
	}
	return &http.Response{StatusCode: w.Code, Body: &zverif.Body{B: []byte(w.Text)}}, nil
}

//model:net/http.Get
func httpGet(addr string) (*http.Response, error) { return roundTrip("GET", addr, nil) }

//model:net/http.Post
func httpPost(addr, contentType string, body io.Reader) (*http.Response, error) {
	b, err := io.ReadAll(body)
	if err != nil {
		return nil, err
	}
	return roundTrip("POST", addr, b)
}

//model:os/user.Current
func userCurrent() (*user.User, error) { return zverif.UserCurrent() }

//model:os.UserHomeDir
func userHomeDir() (string, error) { return zverif.OsUserHomeDir() }

//model:os.UserConfigDir
func userConfigDir() (string, error) { return zverif.OsUserConfigDir() }

//model:os.Exit
func exit(code int) { zverif.OsExit(code) }

//model:crypto/elliptic.P256
func p256() elliptic.Curve { return nil }

//model:crypto/ecdsa.GenerateKey
func generateKey(c elliptic.Curve, r io.Reader) (*ecdsa.PrivateKey, error) {
	return zverif.GenerateKey(c, r)
}

// FileInfo is what os.Stat answers.
type FileInfo struct {
	N string
	D bool
}

func (f *FileInfo) Name() string { return path.Base(f.N) }
func (f *FileInfo) Size() int64  { return 0 }
func (f *FileInfo) Mode() fs.FileMode {
	if f.D {
		return fs.ModeDir | 0755
	}
	return 0644
}
func (f *FileInfo) ModTime() time.Time { return time.Time{} }
func (f *FileInfo) IsDir() bool        { return f.D }
func (f *FileInfo) Sys() any           { return nil }

//model:os.Getenv
func getenv(string) string { return "" }

//model:os.LookupEnv
func lookupEnv(string) (string, bool) { return "", false }
