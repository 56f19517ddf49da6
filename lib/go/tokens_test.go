package vh

// Real signed Choria tokens of every kind and defect the specifications use.

import (
	"crypto/ed25519"
	"crypto/rand"
	"encoding/base64"
	"encoding/hex"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/choria-io/tokens"
	"github.com/golang-jwt/jwt/v5"
)

type vhRing struct {
	r   *vhReporter
	dir string
	pub map[string]ed25519.PublicKey
	pri map[string]ed25519.PrivateKey
}

func vhNewRing(r *vhReporter, dir string, names ...string) *vhRing {
	k := &vhRing{r: r, dir: dir, pub: map[string]ed25519.PublicKey{}, pri: map[string]ed25519.PrivateKey{}}
	for _, n := range append(names, "chain-issuer") {
		pub, pri, err := ed25519.GenerateKey(rand.Reader)
		if err != nil {
			r.Error("%v", err)
		}
		k.pub[n], k.pri[n] = pub, pri
	}
	return k
}

func (k *vhRing) Seed(n string) string {
	f := filepath.Join(k.dir, n+".seed")
	err := os.WriteFile(f, []byte(hex.EncodeToString(k.pri[n].Seed())), 0600)
	if err != nil {
		k.r.Error("%v", err)
	}
	return f
}

func (k *vhRing) Hex(n string) string { return hex.EncodeToString(k.pub[n]) }

func (k *vhRing) defect(v string, by string, sc *tokens.StandardClaims, ou *string) ed25519.PrivateKey {
	signer := k.pri[by]
	switch v {
	case "expired":
		sc.ExpiresAt = jwt.NewNumericDate(time.Now().Add(-time.Hour))
		sc.NotBefore = jwt.NewNumericDate(time.Now().Add(-2 * time.Hour))
		sc.IssuedAt = sc.NotBefore
	case "notyet":
		sc.NotBefore = jwt.NewNumericDate(time.Now().Add(time.Hour))
	case "nokey":
		sc.PublicKey = ""
	case "badkey":
		sc.PublicKey = "abcd"
	case "noou":
		*ou = ""
	case "otherou", "acme":
		*ou = "acme"
	case "oddpurpose":
		sc.Purpose = "choria_other"
	case "chained", "chainexpired", "chainforged":
		h, err := tokens.NewClientIDClaims("up=handler", nil, "choria", nil, "", "", time.Hour, nil, k.pub["chain-issuer"])
		if err != nil {
			k.r.Error("%v", err)
		}
		ik := k.pri[by]
		if v == "chainforged" {
			ik = k.pri["X"]
		}
		err = h.AddOrgIssuerData(ik)
		if err != nil {
			k.r.Error("%v", err)
		}
		err = sc.AddChainIssuerData(h, k.pri["chain-issuer"])
		if err != nil {
			k.r.Error("%v", err)
		}
		if v == "chainexpired" {
			sc.IssuerExpiresAt = jwt.NewNumericDate(time.Now().Add(-time.Minute))
			sc.ExpiresAt = jwt.NewNumericDate(time.Now().Add(time.Hour))
		}
		signer = k.pri["chain-issuer"]
	}
	return signer
}

func (k *vhRing) sign(v string, claims jwt.Claims, signer ed25519.PrivateKey, from, to string) string {
	if v == "algnone" {
		s, err := jwt.NewWithClaims(jwt.SigningMethodNone, claims).SignedString(jwt.UnsafeAllowNoneSignatureType)
		if err != nil {
			k.r.Error("%v", err)
		}
		return s
	}
	s, err := tokens.SignToken(claims, signer)
	if err != nil {
		k.r.Error("%v", err)
	}
	if v == "tampered" {
		parts := strings.Split(s, ".")
		dat, _ := base64.RawURLEncoding.DecodeString(parts[1])
		nd := strings.Replace(string(dat), from, to, 1)
		if nd == string(dat) {
			k.r.Error("could not tamper")
		}
		parts[1] = base64.RawURLEncoding.EncodeToString([]byte(nd))
		s = strings.Join(parts, ".")
	}
	return s
}

// Client makes a client token for name holding key, signed by by with defect v
func (k *vhRing) Client(name, key, by, v string, perms *tokens.ClientPermissions, tweak func(c *tokens.ClientIDClaims)) string {
	c, err := tokens.NewClientIDClaims(name, nil, "choria", nil, "", "", time.Hour, perms, k.pub[key])
	if err != nil {
		k.r.Error("%v", err)
	}
	if tweak != nil {
		tweak(c)
	}
	signer := k.defect(v, by, &c.StandardClaims, &c.OrganizationUnit)
	if v == "noname" {
		c.CallerID = ""
	}
	return k.sign(v, c, signer, `"jti":"`, `"jti":"x`)
}

func (k *vhRing) Server(name, key, by, v string, perms *tokens.ServerPermissions) string {
	c, err := tokens.NewServerClaims(name, []string{"mcollective"}, "choria", perms, nil, k.pub[key], "", time.Hour)
	if err != nil {
		k.r.Error("%v", err)
	}
	signer := k.defect(v, by, &c.StandardClaims, &c.OrganizationUnit)
	return k.sign(v, c, signer, `"jti":"`, `"jti":"x`)
}

func (k *vhRing) Prov(by, v string) string {
	c, err := tokens.NewProvisioningClaims(true, true, "s3cret", "", "", []string{"nats://localhost:4222"}, "", "", "", "choria", "", time.Hour)
	if err != nil {
		k.r.Error("%v", err)
	}
	signer := k.defect(v, by, &c.StandardClaims, &c.OrganizationUnit)
	return k.sign(v, c, signer, `"jti":"`, `"jti":"x`)
}
