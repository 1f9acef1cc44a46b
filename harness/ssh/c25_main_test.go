package ssh

import (
	"bytes"
	"crypto/ed25519"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"net"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/logging"
	gssh "github.com/gliderlabs/ssh"
	"golang.org/x/crypto/ssh"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// C25: only the configured credentials of the named user grant access.

type c25Ctx struct {
	gssh.Context
	user string
}

func (c c25Ctx) User() string         { return c.user }
func (c c25Ctx) RemoteAddr() net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1} }
func (c c25Ctx) LocalAddr() net.Addr  { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 2} }
func (c c25Ctx) SessionID() string    { return "session" }

func c25Signer(seed byte) ssh.Signer {
	s, err := ssh.NewSignerFromKey(ed25519.NewKeyFromSeed(bytes.Repeat([]byte{seed}, 32)))
	if err != nil {
		panic(err)
	}
	return s
}

// c25Cred: a stored credential; key is the key it grants, if any.
type c25Key struct {
	name   string
	stored []byte
	valid  ssh.PublicKey
}

func c25Keys() []c25Key {
	k1, k2 := c25Signer(1).PublicKey(), c25Signer(2).PublicKey()
	flip := append([]byte{}, k1.Marshal()...)
	flip[8] ^= 1 // in the algorithm name
	return []c25Key{
		{"no key", nil, nil},
		{"empty key", []byte{}, nil},
		{"key 1", k1.Marshal(), k1},
		{"key 2", k2.Marshal(), k2},
		{"truncated key 1", k1.Marshal()[:len(k1.Marshal())-1], nil},
		{"key 1 with more behind it", append(k1.Marshal(), 0), nil},
		{"key 1 of an unknown kind", flip, nil},
		{"text", []byte("ssh-ed25519"), nil},
		{"key 1 in authorized_keys format", ssh.MarshalAuthorizedKey(k1), nil},
	}
}

func c25Tables(pws []string, users []string) func(*mc.E) {
	return func(e *mc.E) {
		keys := c25Keys()
		k1 := c25Signer(1).PublicKey()
		tries := []ssh.PublicKey{nil, k1, c25Signer(2).PublicKey(), c25Signer(3).PublicKey()}
		names := append([]string{"", "mallory", "ALICE", "alice ", "alic"}, users...)
		attempts := append([]string{"p", "pw ", " pw", "pw\x00", "pwpw", string(k1.Marshal()), "null"}, pws...)
		n := 1 + len(pws)*len(keys)
		total := 1
		for range users {
			total *= n
		}
		e.Rule(fmt.Sprintf("all tables of users %q that are missing or have a password out of %q and one of %d stored keys, and all attempts of users %q with %d passwords and %d keys; distinct: tables and accepted attempts", users, pws, len(keys), names, len(attempts), len(tries)))
		for v := 0; v < total; v++ {
			if !e.Mine(v) {
				continue
			}
			table := map[string]UserAuth{}
			grants := map[string]c25Key{}
			for i, x := 0, v; i < len(users); i, x = i+1, x/n {
				if x%n > 0 {
					k := keys[(x%n-1)/len(pws)]
					table[users[i]] = UserAuth{Password: pws[(x%n-1)%len(pws)], PubKey: k.stored}
					grants[users[i]] = k
				}
			}
			desc := func() string {
				s := ""
				for u, a := range table {
					s += fmt.Sprintf("%s: password %q, %s; ", u, a.Password, grants[u].name)
				}
				return s
			}
			e.Case(desc)
			if v == 0 {
				table = nil
			}
			srv := &gssh.Server{}
			for _, o := range getSSHOptions(table) {
				if err := o(srv); err != nil {
					e.Fail("option", "option fails: %v", err)
				}
			}
			e.Assert(srv.PasswordHandler != nil || srv.PublicKeyHandler != nil, "open", "no authentication at all")
			accepted := 0
			for _, u := range names {
				a, ok := table[u]
				for _, pw := range attempts {
					want := ok && pw != "" && a.Password == pw
					got := srv.PasswordHandler != nil && srv.PasswordHandler(c25Ctx{user: u}, pw)
					e.Assert(got == want, "password", "user %q with password %q: accepted %v", u, pw, got)
					e.Step(1)
					if want {
						accepted++
						e.DistinctH(mc.Hash(v, u, pw))
					}
				}
				for i, k := range tries {
					want := ok && k != nil && grants[u].valid != nil && bytes.Equal(k.Marshal(), grants[u].valid.Marshal())
					got := srv.PublicKeyHandler != nil && srv.PublicKeyHandler(c25Ctx{user: u}, k)
					e.Assert(got == want, "key", "user %q with key %d: accepted %v", u, i, got)
					e.Step(1)
					if want {
						accepted++
						e.DistinctH(mc.Hash(v, u, i))
					}
				}
			}
			e.State(accepted)
		}
	}
}

// c25Handshakes: real logins over loopback connections.
func c25Handshakes(e *mc.E) {
	keys := c25Keys()
	signers := []ssh.Signer{nil, c25Signer(1), c25Signer(2)}
	pws := []string{"", "pw", "other"}
	e.Rule("real ssh logins against the server's options for tables of one user with every password and every kind of stored key (and no users at all), by a known and an unknown user with every combination of a password and a key; distinct: accepted logins")
	host := c25Signer(9)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	v := 0
	for _, k := range keys {
		for _, stored := range append([]string{"<no users>"}, pws...) {
			table := map[string]UserAuth{"alice": {Password: stored, PubKey: k.stored}}
			if stored == "<no users>" {
				if k.name != "no key" {
					continue
				}
				table = map[string]UserAuth{}
			}
			for _, user := range []string{"alice", "bob"} {
				for _, pw := range append([]string{"<none>"}, pws...) {
					for si, signer := range signers {
						v++
						if !e.Mine(v) {
							continue
						}
						e.Case(func() string {
							return fmt.Sprintf("stored password %q and %s; %s logs in with password %q and key %d", stored, k.name, user, pw, si)
						})
						srv := &gssh.Server{Handler: func(s gssh.Session) { s.Exit(0) }}
						for _, o := range getSSHOptions(table) {
							o(srv)
						}
						srv.AddHostKey(host)
						done := make(chan bool, 1)
						go func() {
							if c, err := l.Accept(); err == nil {
								srv.HandleConn(c)
							}
							done <- true
						}()
						cfg := &ssh.ClientConfig{User: user, HostKeyCallback: ssh.InsecureIgnoreHostKey(), Timeout: 5 * time.Second}
						if signer != nil {
							cfg.Auth = append(cfg.Auth, ssh.PublicKeys(signer))
						}
						if pw != "<none>" {
							cfg.Auth = append(cfg.Auth, ssh.Password(pw))
						}
						c, err := net.Dial("tcp", l.Addr().String())
						if err != nil {
							panic(err)
						}
						sc, _, _, err := ssh.NewClientConn(c, l.Addr().String(), cfg)
						got := err == nil
						if got {
							sc.Close()
						}
						c.Close()
						<-done
						a, ok := table[user]
						want := ok && (pw != "<none>" && pw != "" && pw == a.Password ||
							signer != nil && k.valid != nil && bytes.Equal(k.valid.Marshal(), signer.PublicKey().Marshal()))
						e.Assert(got == want, "login", "accepted %v (%v)", got, err)
						if want {
							e.DistinctH(mc.Hash(v))
						}
						e.Step(1)
					}
				}
			}
		}
	}
}

func c25Reference(data []byte) (map[string]UserAuth, error) {
	m := map[string]UserAuth{}
	err := json.Unmarshal(data, &m)
	return m, err
}

func c25File(dir string) func(e *mc.E, data []byte) {
	f := filepath.Join(dir, "users.json")
	return func(e *mc.E, data []byte) {
		if err := ioutil.WriteFile(f, data, 0600); err != nil {
			panic(err)
		}
		want, wantErr := c25Reference(data)
		got, err := ReadUsersFile(f)
		e.Assert((err != nil) == (wantErr != nil), "error", "error %v although decoding gives %v", err, wantErr)
		if err == nil {
			e.Assert(fmt.Sprintf("%q", got) == fmt.Sprintf("%q", want), "users", "users %q instead of %q", got, want)
			e.DistinctH(mc.Hash(got))
		}
		e.Step(1)
	}
}

func c25Files(e *mc.E) {
	e.Rule("all users files made of up to three users with combinations of fields, those files with every byte missing, replaced or cut off there, and files that cannot be read; distinct: resulting tables")
	dir, err := ioutil.TempDir("", "c25")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	run := c25File(dir)
	k1 := base64.StdEncoding.EncodeToString(c25Signer(1).PublicKey().Marshal())
	auths := []string{
		`{}`, `null`, `{"password":""}`, `{"password":"pw"}`, `{"password":"p\"w\\ \u00fc"}`, `{"pubKey":"` + k1 + `"}`, `{"password":"pw","pubKey":"` + k1 + `"}`,
		`{"pubKey":""}`, `{"pubKey":null,"password":null}`, `{"password":"pw","extra":[1,{}]}`,
		`[]`, `"pw"`, `{"password":1}`, `{"password":["pw"]}`, `{"pubKey":"***"}`, `{"pubKey":5}`, `{"pubKey":"` + k1[:len(k1)-1] + `"}`, `7`, `true`,
	}
	i := 0
	one := func(s string) {
		i++
		if e.Mine(i) {
			e.Case(func() string { return fmt.Sprintf("users file %q", s) })
			run(e, []byte(s))
		}
	}
	for _, s := range []string{"", " ", "\n", "{}", "[]", "null", "{", "}", "1", `"users"`, "{}{}", `{"a":{}} {"b":{}}`, `{"a":{}}x`, `{"a":{}}}`, `{"a":{}}]`, "{}\n\n", "\ufeff{}", "[{}]", `{"a":{},}`} {
		one(s)
	}
	for _, a := range auths {
		one(`{"alice":` + a + `}`)
		for _, b := range auths {
			one(`{"alice":` + a + `,"bob":` + b + `}`)
			one(`{"alice":` + a + `,"alice":` + b + "}\n")
		}
	}
	good := `{"alice":{"password":"pw"},"":{"pubKey":"` + k1[:16] + `"}}` + "\n"
	for p := 0; p <= len(good); p++ {
		one(good[:p])
		one(good[:p] + good)
		if p < len(good) {
			one(good[:p] + good[p+1:])
			for c := 0; c < 256; c++ {
				one(good[:p] + string([]byte{byte(c)}) + good[p+1:])
			}
		}
	}
	if e.Mine(0) {
		for _, f := range []string{filepath.Join(dir, "missing"), dir, "", filepath.Join(dir, "users.json", "below")} {
			f := f
			e.Case(func() string { return fmt.Sprintf("users file %q", f) })
			u, err := ReadUsersFile(f)
			e.Assert(err != nil, "missing", "users %v, error %v", u, err)
			e.Step(1)
		}
	}
}

func TestMC(t *testing.T) {
	log.DefaultCutoffLevel = log.LevelOff
	HostKeyFile = ""
	mc.Main(t, []mc.Scenario{
		{Name: "tables", Enum: c25Tables([]string{"", "pw", "PW"}, []string{"alice", "bob"}), Shards: 4},
		{Name: "three", Enum: c25Tables([]string{"", "pw"}, []string{"alice", "bob", "carol"}), Shards: 8},
		{Name: "emptyname", Enum: c25Tables([]string{"", "pw", "null"}, []string{""}), Shards: 1},
		{Name: "logins", Enum: c25Handshakes, Shards: 6},
		{Name: "files", Enum: c25Files, Shards: 6},
	})
}
