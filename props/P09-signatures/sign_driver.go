package vh

// Replays the request acceptance table: real tokens, signatures and envelopes through the real protocol and security provider.

import (
	"context"
	"crypto/ed25519"
	"encoding/hex"
	"encoding/json"
	"io"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/protocol"
	v2 "github.com/choria-io/go-choria/protocol/v2"
	"github.com/choria-io/go-choria/providers/security/choria"
	"github.com/choria-io/tokens"
	"github.com/sirupsen/logrus"
)

type vhTok struct {
	K  string `json:"k"`
	By string `json:"by"`
	V  string `json:"v"`
	P  string `json:"p"`
}

type vhCase struct {
	ID string `json:"id"`
	R  struct {
		Mode   string `json:"mode"`
		Caller vhTok  `json:"caller"`
		Signer vhTok  `json:"signer"`
		Sig    string `json:"sig"`
		Name   string `json:"name"`
	} `json:"r"`
	OK    bool `json:"ok"`
	Bytes bool `json:"bytes"`
}

func vhCP(p string) *tokens.ClientPermissions {
	switch p {
	case "nil":
		return nil
	case "none":
		return &tokens.ClientPermissions{}
	case "fleet":
		return &tokens.ClientPermissions{FleetManagement: true}
	case "signed":
		return &tokens.ClientPermissions{SignedFleetManagement: true}
	case "both":
		return &tokens.ClientPermissions{FleetManagement: true, SignedFleetManagement: true}
	case "deleg":
		return &tokens.ClientPermissions{AuthenticationDelegator: true}
	case "delegfleet":
		return &tokens.ClientPermissions{AuthenticationDelegator: true, FleetManagement: true}
	case "org":
		return &tokens.ClientPermissions{OrgAdmin: true, StreamsAdmin: true, ServerProvisioner: true}
	}
	panic(p)
}

// remote signer that signs with the delegate's key and token, as an AAA service does
type vhRemote struct {
	key   ed25519.PrivateKey
	token string
	t     *testing.T
}

func (s *vhRemote) Kind() string { return "vh" }
func (s *vhRemote) Sign(_ context.Context, request []byte, _ inter.RequestSignerConfig) ([]byte, error) {
	return json.Marshal(map[string]any{"protocol": "io.choria.protocol.v2.secure_request", "request": request, "signature": ed25519.Sign(s.key, request), "caller": "placeholder", "signer": s.token})
}

func TestVerif(t *testing.T) {
	in := struct {
		Cases []vhCase `json:"cases"`
	}{}
	r := vhOpen(t, &in)
	dir := t.TempDir()
	k := vhNewRing(r, dir, "A", "C", "D", "X", "caller", "signer", "other")
	lg := logrus.New()
	lg.Out = io.Discard
	logrus.SetOutput(io.Discard)
	log := logrus.NewEntry(lg)
	const me, delegate, other = "up=me", "up=delegate", "up=other"

	receivers := map[string]*choria.ChoriaSecurity{}
	for _, mode := range []string{"signers", "onesigner", "issuers", "nothing"} {
		cfg := config.NewConfigForTests()
		cfg.InitiatedByServer = true
		cfg.Identity = "server.example"
		switch mode {
		case "signers":
			cfg.Choria.ChoriaSecurityTrustedSigners = []string{k.Hex("D"), k.Hex("A")}
		case "onesigner":
			cfg.Choria.ChoriaSecurityTrustedSigners = []string{k.Hex("A")}
		case "issuers":
			cfg.Choria.IssuerNames = []string{"choria", "acme"}
			cfg.SetOption("plugin.security.issuer.choria.public", k.Hex("A"))
			cfg.SetOption("plugin.security.issuer.acme.public", k.Hex("C"))
		}
		sec, err := choria.New(choria.WithChoriaConfig(cfg), choria.WithLog(log))
		if err != nil {
			r.Error("%v", err)
		}
		receivers[mode] = sec
	}

	cache := map[string]string{}
	mk := func(x vhTok, name, key string) string {
		ck := x.K + "/" + x.By + "/" + x.V + "/" + x.P + "/" + key
		if s, ok := cache[ck]; ok {
			return s
		}
		s := ""
		switch x.K {
		case "client":
			s = k.Client(name, key, x.By, x.V, vhCP(x.P), nil)
		case "server":
			s = k.Server("server.example", key, x.By, x.V, nil)
		case "prov":
			s = k.Prov(x.By, x.V)
		case "garbage":
			s = "a.b.c"
		}
		cache[ck] = s
		return s
	}
	callerSeed := k.Seed("caller")
	tokenFile := filepath.Join(dir, "caller.jwt")

	for i, c := range in.Cases {
		r.Case(c.ID)
		r.Step()
		name := me
		switch c.R.Name {
		case "other":
			name = other
		case "prefix":
			name = me + "2"
		}
		ctok := mk(c.R.Caller, me, "caller")
		stok := ""
		self := c.R.Signer.K == "self"
		if self {
			stok = ctok
		} else if c.R.Signer.K != "none" {
			stok = mk(c.R.Signer, delegate, "signer")
		}
		req, err := v2.NewRequest("rpcutil", "me.example", name, 60, "a1b2c3", "mcollective")
		if err != nil {
			r.Error("%v", err)
		}
		req.SetMessage([]byte("hello"))
		j, err := req.JSON()
		if err != nil {
			r.Error("%v", err)
		}
		var sig []byte
		body := j
		key := k.pri["caller"]
		if stok != "" && !self {
			key = k.pri["signer"]
		}
		switch c.R.Sig {
		case "caller":
			sig = ed25519.Sign(k.pri["caller"], j)
		case "signer":
			sig = ed25519.Sign(k.pri["signer"], j)
		case "other":
			sig = ed25519.Sign(k.pri["other"], j)
		case "altered":
			sig = ed25519.Sign(key, j)
			req.SetMessage([]byte("jello"))
			body, _ = req.JSON()
		case "missing":
			sig = []byte("insecure")
		case "short":
			sig = ed25519.Sign(key, j)[:40]
		}
		sec := receivers[c.R.Mode]

		// a request as it is found on the wire
		sr := map[string]any{"protocol": "io.choria.protocol.v2.secure_request", "request": body, "signature": sig, "caller": ctok}
		if stok != "" {
			sr["signer"] = stok
		}
		sj, _ := json.Marshal(sr)
		check := func(how string, data []byte) {
			var got bool
			var rr protocol.Request
			res := vhGuard(10*time.Second, func() {
				s, err := v2.NewSecureRequestFromTransport(&v2.TransportMessage{Protocol: protocol.TransportV2, Data: data, Headers: &v2.TransportHeaders{}}, sec, false)
				got = err == nil
				if err == nil {
					rr, err = v2.NewRequestFromSecureRequest(s)
					if err != nil {
						got = false
					}
				}
			})
			if res != "" {
				r.Mismatch(c.ID, 0, how+"-crash", "a decision", res)
				return
			}
			if got != c.OK {
				r.Mismatch(c.ID, 0, how+"-accept", c.OK, got)
				return
			}
			if got {
				r.Count("accepted")
				if rr.CallerID() != name || rr.CallerPublicData() != ctok || rr.SignerPublicData() != stok || string(rr.Message()) != "hello" || rr.RequestID() != "a1b2c3" {
					r.Mismatch(c.ID, 0, how+"-content", []string{name, ctok, stok}, []string{rr.CallerID(), rr.CallerPublicData(), rr.SignerPublicData(), string(rr.Message())})
				}
			}
		}
		if ctok == "" {
			// an empty caller token never passes, whichever layer refuses
			check("wire", sj)
			continue
		}
		check("wire", sj)

		// the same made by the real sender
		if (stok == "" && c.R.Sig == "caller") || (stok != "" && c.R.Sig == "signer") {
			if i%4 == 0 || c.OK {
				os.WriteFile(tokenFile, []byte(ctok), 0600)
				opts := []choria.Option{choria.WithTokenFile(tokenFile), choria.WithSeedFile(callerSeed), choria.WithLog(log)}
				if stok != "" {
					opts = append(opts, choria.WithSigner(&vhRemote{key: k.pri["signer"], token: stok, t: t}))
				}
				ssec, err := choria.New(opts...)
				if err != nil {
					r.Error("%v", err)
				}
				nreq, _ := v2.NewRequest("rpcutil", "me.example", name, 60, "a1b2c3", "mcollective")
				nreq.SetMessage([]byte("hello"))
				var s protocol.SecureRequest
				if stok != "" {
					s, err = v2.NewRemoteSignedSecureRequest(context.Background(), nreq, ssec)
				} else {
					s, err = v2.NewSecureRequest(nreq, ssec)
				}
				if err != nil {
					r.Mismatch(c.ID, 0, "sender", "a signed request", err.Error())
					continue
				}
				data, err := s.JSON()
				if err != nil {
					r.Mismatch(c.ID, 0, "sender", "a signed request", err.Error())
					continue
				}
				check("sent", data)
				r.Count("sent")
			}
		}

		// the security provider on its own
		pubs := [][]byte{[]byte(ctok)}
		if stok != "" {
			pubs = append(pubs, []byte(stok))
		}
		if res := vhGuard(10*time.Second, func() {
			ok, signer := sec.VerifySignatureBytes(body, sig, pubs...)
			if stok == "" && ok != c.Bytes {
				r.Mismatch(c.ID, 0, "verify-bytes", c.Bytes, ok)
			}
			if stok != "" && ok != c.OK {
				r.Mismatch(c.ID, 0, "verify-bytes", c.OK, ok)
			}
			if ok {
				exp := me
				if stok != "" && !self {
					exp = delegate
				} else if c.R.Caller.K == "server" {
					exp = "server.example"
				}
				if signer != exp {
					r.Mismatch(c.ID, 0, "signer-name", exp, signer)
				}
			}
			if ok, _ := sec.VerifySignatureBytes(body, sig); ok {
				r.Mismatch(c.ID, 0, "verify-no-public", false, true)
			}
			if ok, _ := sec.VerifySignatureBytes(body, sig, append(pubs, pubs[0], pubs[0])...); ok {
				r.Mismatch(c.ID, 0, "verify-many-public", false, true)
			}
			_, err := sec.ShouldAllowCaller(name, pubs...)
			if c.OK && err != nil {
				r.Mismatch(c.ID, 0, "should-allow", nil, err.Error())
			}
			if stok == "" && err == nil && (c.R.Name != "same" || c.R.Caller.K != "client") {
				r.Mismatch(c.ID, 0, "should-allow", "refused", nil)
			}
		}); res != "" {
			r.Mismatch(c.ID, 0, "provider-crash", "a decision", res)
		}
	}
	_ = hex.EncodeToString
	r.Sample(in.Cases[0])
	r.Done()
}
