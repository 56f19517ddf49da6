From 0fe8e0a990bb148c080ad2979e57dd2159c95d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:15 +0000
Subject: [PATCH 001/110] fix: keep undeletable spool messages on the skip list

The skip list is keyed by full path but was compacted against file names,
so every entry was dropped on the next scan and the message published again
---
 submission/disk_spool.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/submission/disk_spool.go b/submission/disk_spool.go
index 36ece62..b887fb3 100644
--- a/submission/disk_spool.go
+++ b/submission/disk_spool.go
@@ -170,9 +170,9 @@ func (d *DirectorySpool) processDir(priority uint, dir string, handler func([]*M
 	found := make(map[string]struct{})
 
 	for _, entry := range entries {
-		found[entry.Name()] = struct{}{}
-
 		msgPath := filepath.Join(dir, entry.Name())
+		found[msgPath] = struct{}{}
+
 		if _, skip := skipList[msgPath]; skip {
 			os.Remove(msgPath) // maybe it works this time
 			continue
-- 
2.43.0


From c6ea8f488b5312822b50e0d0d7995d4f45384e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:31 +0000
Subject: [PATCH 002/110] fix: update spool message tries without risking the
 message

Rewriting the spool file in place leaves a truncated file after a crash, which
is discarded as unreadable on the next start even when the message is reliable
---
 submission/disk_spool.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/submission/disk_spool.go b/submission/disk_spool.go
index b887fb3..de12cc0 100644
--- a/submission/disk_spool.go
+++ b/submission/disk_spool.go
@@ -109,7 +109,7 @@ func (d *DirectorySpool) IncrementTries(m *Message) error {
 		return err
 	}
 
-	err = os.WriteFile(m.sm.(string), jm, 0600)
+	err = d.replaceFile(m.sm.(string), jm)
 	if err != nil {
 		d.log.Errorf("Could not increment tries in message %s, discarding: %s", m.sm, err)
 		d.slMu.Lock()
@@ -322,6 +322,23 @@ func (d *DirectorySpool) newMsgPath(priority uint) string {
 	return filepath.Join(d.directory, fmt.Sprintf("P%d", priority), fmt.Sprintf("%d-%s.msg", time.Now().UnixNano(), util.UniqueID()))
 }
 
+// replaceFile writes data to target in a way that, should we crash, leaves either the old or the new content
+func (d *DirectorySpool) replaceFile(target string, data []byte) error {
+	f, err := os.CreateTemp(d.directory, "")
+	if err != nil {
+		return err
+	}
+	f.Close()
+	defer os.Remove(f.Name())
+
+	err = os.WriteFile(f.Name(), data, 0600)
+	if err != nil {
+		return err
+	}
+
+	return os.Rename(f.Name(), target)
+}
+
 func (d *DirectorySpool) Submit(msg *Message) error {
 	err := msg.Validate()
 	if err != nil {
-- 
2.43.0


From 8a2ce8c035eb8222f311d3e29f382da18d7cbe8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:57 +0000
Subject: [PATCH 003/110] fix: survive machine data files holding a json null

These files passed as valid but left the machine with a nil map, the next
DataPut then crashed the server
---
 aagent/machine/machine.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/aagent/machine/machine.go b/aagent/machine/machine.go
index e7ddd86..157ae4c 100644
--- a/aagent/machine/machine.go
+++ b/aagent/machine/machine.go
@@ -858,7 +858,14 @@ func (m *Machine) loadData() error {
 	m.dataMu.Lock()
 	defer m.dataMu.Unlock()
 
-	return json.Unmarshal(j, &m.data)
+	err = json.Unmarshal(j, &m.data)
+
+	// a file holding a json null would otherwise leave us with a map that cannot be written to
+	if m.data == nil {
+		m.data = make(map[string]any)
+	}
+
+	return err
 }
 
 // lock should be held by caller
-- 
2.43.0


From 92af9a6a7ec8f78ccec9082615b196043097be2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:52 +0000
Subject: [PATCH 004/110] fix: report disowned commands that cannot be started
 as failed

---
 aagent/watchers/execwatcher/exec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aagent/watchers/execwatcher/exec.go b/aagent/watchers/execwatcher/exec.go
index 355cd76..ccdd7b9 100644
--- a/aagent/watchers/execwatcher/exec.go
+++ b/aagent/watchers/execwatcher/exec.go
@@ -333,7 +333,7 @@ func (w *Watcher) watch(ctx context.Context) (state State, err error) {
 		w.Debugf("Running command disowned from parent")
 		err = cmd.Start()
 		if err != nil {
-			return 0, err
+			return Error, err
 		}
 
 		errc := make(chan error)
-- 
2.43.0


From 7af612b812d945be962cee287a1f81884233e4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:02 +0000
Subject: [PATCH 005/110] fix: refuse connections closed while they
 authenticate

---
 broker/network/choria_auth.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/broker/network/choria_auth.go b/broker/network/choria_auth.go
index 6359e95..aee714f 100644
--- a/broker/network/choria_auth.go
+++ b/broker/network/choria_auth.go
@@ -88,11 +88,15 @@ func (a *ChoriaAuth) Check(c server.ClientAuthentication) bool {
 
 	log := a.log.WithField("stage", "check")
 	remote := c.RemoteAddress()
-	pipeConnection := remote != nil && remote.String() == "pipe"
-	if remote != nil {
-		log = log.WithField("remote", remote.String())
+	if remote == nil {
+		// the connection was closed while it was being authenticated
+		log.Warnf("Did not receive a remote address for the connection, rejecting")
+		return false
 	}
 
+	pipeConnection := remote.String() == "pipe"
+	log = log.WithField("remote", remote.String())
+
 	tlsc := c.GetTLSConnectionState()
 	if tlsc != nil {
 		tlsVerified = len(tlsc.VerifiedChains) > 0
-- 
2.43.0


From 9b35d5e9342b31337f8f5ab4e19b0a259c514f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:38 +0000
Subject: [PATCH 006/110] fix: refuse callers whose token has no permissions
 without crashing

---
 providers/security/choria/choria_security.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/providers/security/choria/choria_security.go b/providers/security/choria/choria_security.go
index fc150ac..3d79c62 100644
--- a/providers/security/choria/choria_security.go
+++ b/providers/security/choria/choria_security.go
@@ -642,9 +642,6 @@ func (s *ChoriaSecurity) shouldAllowCallerUnsigned(name string, caller []byte) (
 
 	// technically already done in sig verify but cant harm
 	if token.Permissions == nil || !(token.Permissions.SignedFleetManagement || token.Permissions.FleetManagement) {
-		if token.Permissions.SignedFleetManagement {
-			return false, fmt.Errorf("requires signed fleet management access")
-		}
 		return false, fmt.Errorf("does not have fleet management access")
 	}
 
-- 
2.43.0


From 23d9ddf4eb99e363bf1df392fa5a5e5e33023807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:39 +0000
Subject: [PATCH 007/110] fix: survive null headers and null secure messages
 received from the network

---
 protocol/v1/constructors.go   | 17 +++++++++++------
 protocol/v2/secure_reply.go   |  2 +-
 protocol/v2/secure_request.go |  2 +-
 protocol/v2/transport.go      | 13 +++++++++----
 4 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/protocol/v1/constructors.go b/protocol/v1/constructors.go
index 09ef8e2..7fee623 100644
--- a/protocol/v1/constructors.go
+++ b/protocol/v1/constructors.go
@@ -151,7 +151,7 @@ func NewSecureReplyFromTransport(message protocol.TransportMessage, security int
 		return nil, fmt.Errorf("the JSON body from the TransportMessage is not a valid SecureReply message: %s", err)
 	}
 
-	err = json.Unmarshal(data, &secure)
+	err = json.Unmarshal(data, secure)
 	if err != nil {
 		return nil, err
 	}
@@ -229,7 +229,7 @@ func NewRemoteSignedSecureRequest(ctx context.Context, request protocol.Request,
 		security: security,
 	}
 
-	err = json.Unmarshal(secj, &secure)
+	err = json.Unmarshal(secj, secure)
 	if err != nil {
 		return nil, fmt.Errorf("could not parse signed request: %s", err)
 	}
@@ -285,19 +285,24 @@ func NewTransportMessage(certname string) (message protocol.TransportMessage, er
 
 // NewTransportFromJSON creates a new TransportMessage from JSON
 func NewTransportFromJSON(data []byte) (message protocol.TransportMessage, err error) {
-	message = &TransportMessage{
+	msg := &TransportMessage{
 		Headers: &TransportHeaders{},
 	}
 
-	err = message.IsValidJSON(data)
+	err = msg.IsValidJSON(data)
 	if err != nil {
 		return nil, err
 	}
 
-	err = json.Unmarshal(data, &message)
+	err = json.Unmarshal(data, msg)
 	if err != nil {
 		return nil, err
 	}
 
-	return message, nil
+	// a null in the received JSON removes the headers set above
+	if msg.Headers == nil {
+		msg.Headers = &TransportHeaders{}
+	}
+
+	return msg, nil
 }
diff --git a/protocol/v2/secure_reply.go b/protocol/v2/secure_reply.go
index 8fbd553..d931ac1 100644
--- a/protocol/v2/secure_reply.go
+++ b/protocol/v2/secure_reply.go
@@ -72,7 +72,7 @@ func NewSecureReplyFromTransport(message protocol.TransportMessage, security int
 		return nil, fmt.Errorf("the JSON body from the TransportMessage is not a valid SecureReply message: %s", err)
 	}
 
-	err = json.Unmarshal(data, &secure)
+	err = json.Unmarshal(data, secure)
 	if err != nil {
 		return nil, err
 	}
diff --git a/protocol/v2/secure_request.go b/protocol/v2/secure_request.go
index 812bf07..8e1ef90 100644
--- a/protocol/v2/secure_request.go
+++ b/protocol/v2/secure_request.go
@@ -94,7 +94,7 @@ func NewRemoteSignedSecureRequest(ctx context.Context, request protocol.Request,
 		security: security,
 	}
 
-	err = json.Unmarshal(secj, &secure)
+	err = json.Unmarshal(secj, secure)
 	if err != nil {
 		return nil, fmt.Errorf("could not parse signed request: %s", err)
 	}
diff --git a/protocol/v2/transport.go b/protocol/v2/transport.go
index 31a5db9..7316634 100644
--- a/protocol/v2/transport.go
+++ b/protocol/v2/transport.go
@@ -58,21 +58,26 @@ func NewTransportMessage(sender string) (message protocol.TransportMessage, err
 
 // NewTransportFromJSON creates a new TransportMessage from JSON
 func NewTransportFromJSON(data []byte) (message protocol.TransportMessage, err error) {
-	message = &TransportMessage{
+	msg := &TransportMessage{
 		Headers: &TransportHeaders{},
 	}
 
-	err = message.IsValidJSON(data)
+	err = msg.IsValidJSON(data)
 	if err != nil {
 		return nil, err
 	}
 
-	err = json.Unmarshal(data, &message)
+	err = json.Unmarshal(data, msg)
 	if err != nil {
 		return nil, err
 	}
 
-	return message, nil
+	// a null in the received JSON removes the headers set above
+	if msg.Headers == nil {
+		msg.Headers = &TransportHeaders{}
+	}
+
+	return msg, nil
 }
 
 func (m *TransportMessage) SetFederationRequestID(id string) {
-- 
2.43.0


From 284df13f8b8121e05c2219309f3556b1d7d849c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:10 +0000
Subject: [PATCH 008/110] fix: refuse replies that hold a message of another
 type or version

---
 protocol/v1/constructors.go | 21 +++++++++++++++++----
 protocol/v2/reply.go        |  5 +++++
 protocol/v2/secure_reply.go |  4 ++++
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/protocol/v1/constructors.go b/protocol/v1/constructors.go
index 7fee623..ae4a6c1 100644
--- a/protocol/v1/constructors.go
+++ b/protocol/v1/constructors.go
@@ -69,22 +69,31 @@ func NewReplyFromSecureReply(sr protocol.SecureReply) (rep protocol.Reply, err e
 		return nil, fmt.Errorf("cannot create a version 1 SecureReply from a %s SecureReply", sr.Version())
 	}
 
-	rep = &Reply{
+	reply := &Reply{
 		Protocol: protocol.ReplyV1,
 		Envelope: &ReplyEnvelope{},
 	}
 
-	err = rep.IsValidJSON(sr.Message())
+	err = reply.IsValidJSON(sr.Message())
 	if err != nil {
 		return nil, fmt.Errorf("the JSON body from the SecureReply is not a valid Reply message: %s", err)
 	}
 
-	err = json.Unmarshal(sr.Message(), rep)
+	err = json.Unmarshal(sr.Message(), reply)
 	if err != nil {
 		return nil, fmt.Errorf("could not parse JSON data from Secure Reply: %s", err)
 	}
 
-	return rep, nil
+	// replies are usually not validated against their schema, so at least check it is one
+	if reply.Protocol != protocol.ReplyV1 {
+		return nil, fmt.Errorf("cannot create a version 1 Reply from a %s message", reply.Protocol)
+	}
+
+	if reply.Envelope == nil {
+		return nil, fmt.Errorf("the reply has no envelope")
+	}
+
+	return reply, nil
 }
 
 // NewRequestFromSecureRequest creates a choria::request:1 based on the data contained in a SecureRequest
@@ -156,6 +165,10 @@ func NewSecureReplyFromTransport(message protocol.TransportMessage, security int
 		return nil, err
 	}
 
+	if secure.Version() != protocol.SecureReplyV1 {
+		return nil, fmt.Errorf("cannot create a version 1 SecureReply from a %s message", secure.Version())
+	}
+
 	if !skipvalidate {
 		if !secure.Valid() {
 			return nil, errors.New("SecureReply message created from the Transport Message is not valid")
diff --git a/protocol/v2/reply.go b/protocol/v2/reply.go
index 1adf6b2..94f1f52 100644
--- a/protocol/v2/reply.go
+++ b/protocol/v2/reply.go
@@ -80,6 +80,11 @@ func NewReplyFromSecureReply(sr protocol.SecureReply) (protocol.Reply, error) {
 		return nil, fmt.Errorf("could not parse JSON data from Secure Reply: %s", err)
 	}
 
+	// replies are usually not validated against their schema, so at least check it is one
+	if rep.Protocol != protocol.ReplyV2 {
+		return nil, fmt.Errorf("cannot create a version 2 Reply from a %s message", rep.Protocol)
+	}
+
 	return rep, nil
 }
 
diff --git a/protocol/v2/secure_reply.go b/protocol/v2/secure_reply.go
index d931ac1..eb89930 100644
--- a/protocol/v2/secure_reply.go
+++ b/protocol/v2/secure_reply.go
@@ -77,6 +77,10 @@ func NewSecureReplyFromTransport(message protocol.TransportMessage, security int
 		return nil, err
 	}
 
+	if secure.Protocol != protocol.SecureReplyV2 {
+		return nil, fmt.Errorf("cannot create a version 2 SecureReply from a %s message", secure.Protocol)
+	}
+
 	if !skipvalidate {
 		if !secure.Valid() {
 			return nil, fmt.Errorf("SecureReply message created from the Transport Message is not valid")
-- 
2.43.0


From d4d25be33177234ffec2d5a000825bce06fb8168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:06 +0000
Subject: [PATCH 009/110] fix: allow an agent to be registered again after its
 subscriptions failed

---
 server/agents/agents.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server/agents/agents.go b/server/agents/agents.go
index 10d2553..a9236f9 100644
--- a/server/agents/agents.go
+++ b/server/agents/agents.go
@@ -334,6 +334,7 @@ func (a *Manager) subscribeAgent(ctx context.Context, name string, agent Agent,
 			for _, sub := range a.subs[name] {
 				conn.Unsubscribe(sub)
 			}
+			delete(a.subs, name)
 
 			return fmt.Errorf("subscription failed: %s", err)
 		}
-- 
2.43.0


From 9881f910194a7a96c59269c5328c5f93f683d3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:06 +0000
Subject: [PATCH 010/110] fix: do not leak agents that reply after the
 dispatcher gave up

---
 server/agents/agents.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/agents/agents.go b/server/agents/agents.go
index a9236f9..d4607c0 100644
--- a/server/agents/agents.go
+++ b/server/agents/agents.go
@@ -365,7 +365,8 @@ func (a *Manager) Dispatch(ctx context.Context, wg *sync.WaitGroup, replies chan
 		return
 	}
 
-	result := make(chan *AgentReply)
+	// buffered so an agent replying after its timeout does not block forever
+	result := make(chan *AgentReply, 1)
 
 	td := time.Duration(agent.Metadata().Timeout) * time.Second
 	a.log.Debugf("Handling message %s with timeout %s", msg.RequestID(), td)
-- 
2.43.0


From 5398925f814a28016d38b49fb63b696b7016164e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:09 +0000
Subject: [PATCH 011/110] fix: honour allow_unconfigured when no action policy
 exists

---
 providers/agent/mcorpc/authz_actionpolicy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/providers/agent/mcorpc/authz_actionpolicy.go b/providers/agent/mcorpc/authz_actionpolicy.go
index 0612635..4e02329 100644
--- a/providers/agent/mcorpc/authz_actionpolicy.go
+++ b/providers/agent/mcorpc/authz_actionpolicy.go
@@ -216,7 +216,7 @@ func (a *actionPolicy) lookupPolicyFile() (string, error) {
 		}
 	}
 
-	return "", fmt.Errorf("no policy found for %s", a.req.Agent)
+	return "", nil
 }
 
 func (a *actionPolicy) parseGroupFile(gfile string) error {
-- 
2.43.0


From ba304d68a0781dff28eac5765375a277e912ae5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:51 +0000
Subject: [PATCH 012/110] fix: do not crash on agent policies that require a
 filter

OPA passes no arguments to the builtin, the fixed arity registration
always indexed into the empty argument list
---
 providers/agent/mcorpc/authz_jwt.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/providers/agent/mcorpc/authz_jwt.go b/providers/agent/mcorpc/authz_jwt.go
index 8722a40..82af8a2 100644
--- a/providers/agent/mcorpc/authz_jwt.go
+++ b/providers/agent/mcorpc/authz_jwt.go
@@ -183,15 +183,15 @@ func opaInputs(req *Request, data json.RawMessage, site string, claims *tokens.C
 
 func opaFunctionsMap(req *Request) []func(r *rego.Rego) {
 	return []func(r *rego.Rego){
-		rego.Function1(&rego.Function{Name: "requires_filter", Decl: types.NewFunction(types.Args(), types.B)}, opaFuncRequiresFilter(req)),
+		rego.FunctionDyn(&rego.Function{Name: "requires_filter", Decl: types.NewFunction(types.Args(), types.B)}, opaFuncRequiresFilter(req)),
 		rego.Function1(&rego.Function{Name: "requires_fact_filter", Decl: types.NewFunction(types.Args(types.S), types.B)}, opaFuncRequiresFactFilter(req)),
 		rego.Function1(&rego.Function{Name: "requires_class_filter", Decl: types.NewFunction(types.Args(types.S), types.B)}, opaFuncRequiresClassFilter(req)),
 		rego.Function1(&rego.Function{Name: "requires_identity_filter", Decl: types.NewFunction(types.Args(types.S), types.B)}, opaFuncRequiresIdentityFilter(req)),
 	}
 }
 
-func opaFuncRequiresFilter(req *Request) func(_ rego.BuiltinContext, a *ast.Term) (*ast.Term, error) {
-	return func(_ rego.BuiltinContext, a *ast.Term) (*ast.Term, error) {
+func opaFuncRequiresFilter(req *Request) func(_ rego.BuiltinContext, _ []*ast.Term) (*ast.Term, error) {
+	return func(_ rego.BuiltinContext, _ []*ast.Term) (*ast.Term, error) {
 		// agent is always set, so we don't check it else it will always be true
 		if len(req.Filter.ClassFilters()) > 0 || len(req.Filter.IdentityFilters()) > 0 || len(req.Filter.FactFilters()) > 0 || len(req.Filter.CompoundFilters()) > 0 {
 			return ast.BooleanTerm(true), nil
-- 
2.43.0


From ed6f0fcec883d3115387dc26d0fab4d2998fc3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:38 +0000
Subject: [PATCH 013/110] fix: match classes holding upper case letters exactly

The needle was lower cased but the known class not, so no filter could
select a node by a class with upper case letters
---
 filter/classes/classes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filter/classes/classes.go b/filter/classes/classes.go
index 79ae386..f6f8953 100644
--- a/filter/classes/classes.go
+++ b/filter/classes/classes.go
@@ -72,7 +72,7 @@ func hasClassMatching(needle string, stack []string) bool {
 func hasClass(needle string, stack []string) bool {
 	lneedle := strings.ToLower(needle)
 	for _, class := range stack {
-		if class == lneedle {
+		if strings.ToLower(class) == lneedle {
 			return true
 		}
 	}
-- 
2.43.0


From e53f4f3b4505cb0ceace2b0c9f3b118c20d1ba13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:09 +0000
Subject: [PATCH 014/110] fix: require every compound filter to match

A filter that did not match was only counted against one that did, so two
matching filters outvoted a third
---
 filter/compound/compound.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filter/compound/compound.go b/filter/compound/compound.go
index 628b1cf..d90b488 100644
--- a/filter/compound/compound.go
+++ b/filter/compound/compound.go
@@ -101,7 +101,7 @@ func MatchExprString(queries [][]map[string]string, facts json.RawMessage, class
 		if res {
 			matched++
 		} else {
-			matched--
+			failed++
 		}
 	}
 
-- 
2.43.0


From cdd5515ea1d37762fd4470e21f006425ea06303c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:09 +0000
Subject: [PATCH 015/110] fix: exclude equality when comparing facts greater
 than a float

---
 filter/facts/matchers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filter/facts/matchers.go b/filter/facts/matchers.go
index 42f5bf4..3debf41 100644
--- a/filter/facts/matchers.go
+++ b/filter/facts/matchers.go
@@ -169,7 +169,7 @@ func gtMatch(fact gjson.Result, value string) (bool, error) {
 				return false, err
 			}
 
-			return fact.Float() >= f, nil
+			return fact.Float() > f, nil
 		}
 
 		v, err := strconv.Atoi(value)
-- 
2.43.0


From d2d91d2627069710adc7bd7e7e1a14526264aa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:42 +0000
Subject: [PATCH 016/110] fix: compare fractional facts with whole numbers as
 floats

The fact was truncated, 1.5 was equal to 1 and not greater than 1
---
 filter/facts/matchers.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/filter/facts/matchers.go b/filter/facts/matchers.go
index 3debf41..fb66151 100644
--- a/filter/facts/matchers.go
+++ b/filter/facts/matchers.go
@@ -6,6 +6,7 @@ package facts
 
 import (
 	"fmt"
+	"math"
 	"regexp"
 	"strconv"
 	"strings"
@@ -19,7 +20,7 @@ func eqMatch(fact gjson.Result, value string) (bool, error) {
 		return strings.EqualFold(fact.String(), value), nil
 
 	case gjson.Number:
-		if strings.Contains(value, ".") {
+		if strings.Contains(value, ".") || isFractional(fact, value) {
 			v, err := strconv.ParseFloat(value, 64)
 			if err != nil {
 				return false, err
@@ -82,7 +83,7 @@ func leMatch(fact gjson.Result, value string) (bool, error) {
 		return strings.ToLower(fact.String()) <= strings.ToLower(value), nil
 
 	case gjson.Number:
-		if strings.Contains(value, ".") {
+		if strings.Contains(value, ".") || isFractional(fact, value) {
 			v, err := strconv.ParseFloat(value, 64)
 			if err != nil {
 				return false, err
@@ -109,7 +110,7 @@ func geMatch(fact gjson.Result, value string) (bool, error) {
 		return strings.ToLower(fact.String()) >= strings.ToLower(value), nil
 
 	case gjson.Number:
-		if strings.Contains(value, ".") {
+		if strings.Contains(value, ".") || isFractional(fact, value) {
 			v, err := strconv.ParseFloat(value, 64)
 			if err != nil {
 				return false, err
@@ -136,7 +137,7 @@ func ltMatch(fact gjson.Result, value string) (bool, error) {
 		return strings.ToLower(fact.String()) < strings.ToLower(value), nil
 
 	case gjson.Number:
-		if strings.Contains(value, ".") {
+		if strings.Contains(value, ".") || isFractional(fact, value) {
 			v, err := strconv.ParseFloat(value, 64)
 			if err != nil {
 				return false, err
@@ -163,7 +164,7 @@ func gtMatch(fact gjson.Result, value string) (bool, error) {
 		return strings.ToLower(fact.String()) > strings.ToLower(value), nil
 
 	case gjson.Number:
-		if strings.Contains(value, ".") {
+		if strings.Contains(value, ".") || isFractional(fact, value) {
 			f, err := strconv.ParseFloat(value, 64)
 			if err != nil {
 				return false, err
@@ -190,7 +191,7 @@ func neMatch(fact gjson.Result, value string) (bool, error) {
 		return !strings.EqualFold(fact.String(), value), nil
 
 	case gjson.Number:
-		if strings.Contains(value, ".") {
+		if strings.Contains(value, ".") || isFractional(fact, value) {
 			f, err := strconv.ParseFloat(value, 64)
 			if err != nil {
 				return false, err
@@ -218,6 +219,17 @@ func neMatch(fact gjson.Result, value string) (bool, error) {
 	}
 }
 
+// isFractional determines if fact has to be compared as a float even though value is a whole number
+func isFractional(fact gjson.Result, value string) bool {
+	if fact.Float() == math.Trunc(fact.Float()) {
+		return false
+	}
+
+	_, err := strconv.Atoi(value)
+
+	return err == nil
+}
+
 func regexMatch(value string, pattern string) (bool, error) {
 	pattern = strings.TrimLeft(pattern, "/")
 	pattern = strings.TrimRight(pattern, "/")
-- 
2.43.0


From 9226e7459a6fc981d490880ab3a9a267f8ee6cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:44 +0000
Subject: [PATCH 017/110] fix: compare boolean facts for equality regardless of
 case

Not-equal already ignored the case, tRUE was neither equal nor not-equal
---
 filter/facts/matchers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filter/facts/matchers.go b/filter/facts/matchers.go
index fb66151..75429e8 100644
--- a/filter/facts/matchers.go
+++ b/filter/facts/matchers.go
@@ -32,10 +32,10 @@ func eqMatch(fact gjson.Result, value string) (bool, error) {
 		return strconv.Itoa(int(fact.Int())) == value, nil
 
 	case gjson.True:
-		return truthy(value), nil
+		return truthy(strings.ToLower(value)), nil
 
 	case gjson.False:
-		return falsey(value), nil
+		return falsey(strings.ToLower(value)), nil
 
 	case gjson.Null:
 		return false, nil
-- 
2.43.0


From 07d5596c67d8f31ea7c4c6be9ae22c8813df5824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:21 +0000
Subject: [PATCH 018/110] fix: apply input validation rules when no maximum
 length is set

---
 providers/agent/mcorpc/ddl/common/input_item.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/providers/agent/mcorpc/ddl/common/input_item.go b/providers/agent/mcorpc/ddl/common/input_item.go
index 3653882..af1241d 100644
--- a/providers/agent/mcorpc/ddl/common/input_item.go
+++ b/providers/agent/mcorpc/ddl/common/input_item.go
@@ -95,12 +95,8 @@ func (i *InputItem) ValidateValue(val any) (warnings []string, err error) {
 			return warnings, fmt.Errorf("is not a string")
 		}
 
-		if i.MaxLength == 0 {
-			return warnings, nil
-		}
-
 		sval := val.(string)
-		if len(sval) > i.MaxLength {
+		if i.MaxLength > 0 && len(sval) > i.MaxLength {
 			return warnings, fmt.Errorf("is longer than %d characters", i.MaxLength)
 		}
 
-- 
2.43.0


From 465d194e7bddcf7b1c718ceab84623cbe40d0f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:27 +0000
Subject: [PATCH 019/110] fix: decrement version gauges under the leadership
 label they were counted under

---
 lifecycle/tally/tally.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/lifecycle/tally/tally.go b/lifecycle/tally/tally.go
index 5901bed..8e81552 100644
--- a/lifecycle/tally/tally.go
+++ b/lifecycle/tally/tally.go
@@ -68,6 +68,7 @@ type observation struct {
 	ts        time.Time
 	component string
 	version   string
+	active    string // the leadership label the node was counted under
 }
 
 // New creates a new Recorder
@@ -126,15 +127,18 @@ func (r *Recorder) processAlive(e lifecycle.Event) error {
 		r.observed[alive.Component()] = cobs
 	}
 
+	active := r.activeLabel()
+
 	obs, ok := cobs.hosts[hname]
 	if !ok {
 		cobs.hosts[hname] = &observation{
 			version:   alive.Version,
 			component: alive.Component(),
 			ts:        time.Now(),
+			active:    active,
 		}
 
-		r.versionsTally.WithLabelValues(alive.Component(), alive.Version, r.activeLabel()).Inc()
+		r.versionsTally.WithLabelValues(alive.Component(), alive.Version, active).Inc()
 
 		return nil
 	}
@@ -142,9 +146,10 @@ func (r *Recorder) processAlive(e lifecycle.Event) error {
 	cobs.hosts[hname].ts = time.Now()
 
 	if obs.version != alive.Version {
-		r.versionsTally.WithLabelValues(alive.Component(), obs.version, r.activeLabel()).Dec()
+		r.versionsTally.WithLabelValues(alive.Component(), obs.version, obs.active).Dec()
 		obs.version = alive.Version
-		r.versionsTally.WithLabelValues(alive.Component(), obs.version, r.activeLabel()).Inc()
+		obs.active = active
+		r.versionsTally.WithLabelValues(alive.Component(), obs.version, active).Inc()
 	}
 
 	return nil
@@ -168,16 +173,18 @@ func (r *Recorder) processStartup(e lifecycle.Event) error {
 
 	obs, ok := cobs.hosts[hname]
 	if ok {
-		r.versionsTally.WithLabelValues(startup.Component(), obs.version, r.activeLabel()).Dec()
+		r.versionsTally.WithLabelValues(startup.Component(), obs.version, obs.active).Dec()
 	}
 
+	active := r.activeLabel()
 	cobs.hosts[hname] = &observation{
 		ts:        time.Now(),
 		version:   startup.Version,
 		component: startup.Component(),
+		active:    active,
 	}
 
-	r.versionsTally.WithLabelValues(startup.Component(), startup.Version, r.activeLabel()).Inc()
+	r.versionsTally.WithLabelValues(startup.Component(), startup.Version, active).Inc()
 
 	return nil
 }
@@ -200,7 +207,7 @@ func (r *Recorder) processShutdown(e lifecycle.Event) error {
 	}
 
 	delete(cobs.hosts, hname)
-	r.versionsTally.WithLabelValues(shutdown.Component(), obs.version, r.activeLabel()).Dec()
+	r.versionsTally.WithLabelValues(shutdown.Component(), obs.version, obs.active).Dec()
 
 	return nil
 }
@@ -260,7 +267,7 @@ func (r *Recorder) maintenance() {
 
 		for host, obs := range r.observed[component].hosts {
 			if obs.ts.Before(oldest) {
-				r.versionsTally.WithLabelValues(obs.component, obs.version, r.activeLabel()).Dec()
+				r.versionsTally.WithLabelValues(obs.component, obs.version, obs.active).Dec()
 				older[host] = obs
 			}
 		}
-- 
2.43.0


From 011208ad0f890d3746beb13add1376de9692798e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:11 +0000
Subject: [PATCH 020/110] fix: release the election lock when its configuration
 fails

---
 providers/election/streams/election.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/providers/election/streams/election.go b/providers/election/streams/election.go
index 31688c7..cd81c28 100644
--- a/providers/election/streams/election.go
+++ b/providers/election/streams/election.go
@@ -294,6 +294,7 @@ func (e *election) Start(ctx context.Context) error {
 
 	err := e.configure(ctx)
 	if err != nil {
+		e.mu.Unlock()
 		return err
 	}
 
-- 
2.43.0


From 9874dece44f061e41965d7158adfdbc628c28467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:11 +0000
Subject: [PATCH 021/110] fix: do not deadlock when stopping a running election

---
 providers/election/streams/election.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/providers/election/streams/election.go b/providers/election/streams/election.go
index cd81c28..fa3a754 100644
--- a/providers/election/streams/election.go
+++ b/providers/election/streams/election.go
@@ -318,16 +318,13 @@ func (e *election) Start(ctx context.Context) error {
 
 func (e *election) Stop() {
 	e.mu.Lock()
-	defer e.mu.Unlock()
+	started := e.started
+	e.mu.Unlock()
 
-	if !e.started {
+	if !started {
 		return
 	}
 
-	if e.cancel != nil {
-		e.cancel()
-	}
-
 	e.stop()
 }
 
-- 
2.43.0


From 22e72217b01600d58fac296460d1a5663dc8002e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:11 +0000
Subject: [PATCH 022/110] fix: do not campaign in an election that was
 cancelled during its startup splay

---
 providers/election/streams/election.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/providers/election/streams/election.go b/providers/election/streams/election.go
index fa3a754..d7adc3d 100644
--- a/providers/election/streams/election.go
+++ b/providers/election/streams/election.go
@@ -6,7 +6,6 @@ package election
 
 import (
 	"context"
-	"errors"
 	"fmt"
 	iu "github.com/choria-io/go-choria/internal/util"
 	"math"
@@ -226,9 +225,9 @@ func (e *election) campaign(wg *sync.WaitGroup) error {
 
 	// spread out startups a bit
 	splay := time.Duration(rand.N(5000)) * time.Millisecond
-	err := iu.InterruptibleSleep(e.ctx, splay)
-	if errors.Is(err, context.Canceled) {
-		return err
+	iu.InterruptibleSleep(e.ctx, splay)
+	if e.ctx.Err() != nil {
+		return e.ctx.Err()
 	}
 
 	var ticker *time.Ticker
-- 
2.43.0


From 9e58f2b6dadea7d4dd5d07a642b82d7a3689421d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:11 +0000
Subject: [PATCH 023/110] fix: do not announce the loss of an election that was
 not announced as won

---
 providers/election/streams/election.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/providers/election/streams/election.go b/providers/election/streams/election.go
index d7adc3d..d3db889 100644
--- a/providers/election/streams/election.go
+++ b/providers/election/streams/election.go
@@ -176,7 +176,8 @@ func (e *election) maintainLeadership() error {
 
 		leaderGauge.WithLabelValues(e.opts.key, e.opts.name).Set(0)
 
-		if e.opts.lostCb != nil {
+		// a leadership that was never announced cannot be lost
+		if e.opts.lostCb != nil && !e.notifyNext {
 			e.opts.lostCb()
 		}
 
-- 
2.43.0


From 0274208248a284996b846d4332122a8488e3de02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:11 +0000
Subject: [PATCH 024/110] fix: allow a governor that failed to start to be
 started again

---
 providers/governor/streams/governor.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/providers/governor/streams/governor.go b/providers/governor/streams/governor.go
index 8f69241..8fe16af 100644
--- a/providers/governor/streams/governor.go
+++ b/providers/governor/streams/governor.go
@@ -265,6 +265,13 @@ func (g *jsGMgr) Start(ctx context.Context, name string) (Finisher, uint64, erro
 	seq := uint64(0)
 	tries := 0
 
+	// a Governor that did not obtain a slot can be started again
+	defer func() {
+		if seq == 0 {
+			g.running = false
+		}
+	}()
+
 	try := func() error {
 		ctx, cancel := context.WithTimeout(ctx, time.Second)
 		defer cancel()
-- 
2.43.0


From c5249bcec1c84123b4b32f40afb08fc3f0935722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:11 +0000
Subject: [PATCH 025/110] fix: a governor finisher releases only its own slot

---
 providers/governor/streams/governor.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/providers/governor/streams/governor.go b/providers/governor/streams/governor.go
index 8fe16af..98072af 100644
--- a/providers/governor/streams/governor.go
+++ b/providers/governor/streams/governor.go
@@ -264,6 +264,7 @@ func (g *jsGMgr) Start(ctx context.Context, name string) (Finisher, uint64, erro
 	g.running = true
 	seq := uint64(0)
 	tries := 0
+	finished := false
 
 	// a Governor that did not obtain a slot can be started again
 	defer func() {
@@ -309,10 +310,11 @@ func (g *jsGMgr) Start(ctx context.Context, name string) (Finisher, uint64, erro
 
 		g.mu.Lock()
 		defer g.mu.Unlock()
-		if !g.running {
+		if finished {
 			return nil
 		}
 
+		finished = true
 		g.running = false
 
 		if g.noLeave {
-- 
2.43.0


From b409a65bbc17bf9304cef7db00d9ca2fa5f169dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:12 +0000
Subject: [PATCH 026/110] fix: do not leave a governor slot behind when
 cancelled while requesting it

---
 providers/governor/streams/governor.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/providers/governor/streams/governor.go b/providers/governor/streams/governor.go
index 98072af..f53fa57 100644
--- a/providers/governor/streams/governor.go
+++ b/providers/governor/streams/governor.go
@@ -274,7 +274,13 @@ func (g *jsGMgr) Start(ctx context.Context, name string) (Finisher, uint64, erro
 	}()
 
 	try := func() error {
-		ctx, cancel := context.WithTimeout(ctx, time.Second)
+		if ctx.Err() != nil {
+			return ctx.Err()
+		}
+
+		// an attempt is not abandoned while in flight, a slot granted to a caller
+		// that does not wait for the reply would be held until it expires
+		ctx, cancel := context.WithTimeout(context.WithoutCancel(ctx), time.Second)
 		defer cancel()
 
 		g.Debugf("Publishing to %s", g.subj)
-- 
2.43.0


From 905b891f8a995047bd977b43256d38ac7c7c43eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:32 +0000
Subject: [PATCH 027/110] fix: end RPC requests when the last reply received
 could not be parsed

---
 providers/agent/mcorpc/client/client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/providers/agent/mcorpc/client/client.go b/providers/agent/mcorpc/client/client.go
index 0bdf08d..42260d0 100644
--- a/providers/agent/mcorpc/client/client.go
+++ b/providers/agent/mcorpc/client/client.go
@@ -486,6 +486,10 @@ func (r *RPC) handlerFactory(_ context.Context, cancel context.CancelFunc, stats
 		case err != nil:
 			stats.FailedRequestInc()
 			r.log.Errorf("Could not process reply from %s: %s", reply.SenderID(), err)
+			// the node did reply, it might have been the last one outstanding
+			if r.opts.RequestType != inter.ServiceRequestMessageType && stats.All() {
+				cancel()
+			}
 			return
 		case rpcreply.Statuscode == mcorpc.OK:
 			stats.PassedRequestInc()
-- 
2.43.0


From a802ae825e204216818eb5d7bf52ada2fa64ea6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:32 +0000
Subject: [PATCH 028/110] fix: always use a single worker for batched RPC
 requests

---
 providers/agent/mcorpc/client/client.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/providers/agent/mcorpc/client/client.go b/providers/agent/mcorpc/client/client.go
index 42260d0..c210476 100644
--- a/providers/agent/mcorpc/client/client.go
+++ b/providers/agent/mcorpc/client/client.go
@@ -117,6 +117,11 @@ func (r *RPC) setOptions(opts ...RequestOption) (err error) {
 		opt(r.opts)
 	}
 
+	// batches share a single connection and are always processed by a single worker regardless of option order
+	if r.opts.BatchSize > 0 {
+		r.opts.Workers = 1
+	}
+
 	if r.ddl.Metadata.Service {
 		r.opts.Workers = 1
 		r.opts.RequestType = inter.ServiceRequestMessageType
-- 
2.43.0


From ec72e539f2a70636dd90771e8c01bd0b21824990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:05 +0000
Subject: [PATCH 029/110] fix: do not pad limited targets with empty node names

---
 providers/agent/mcorpc/client/options.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/providers/agent/mcorpc/client/options.go b/providers/agent/mcorpc/client/options.go
index ad9fb5a..b377c43 100644
--- a/providers/agent/mcorpc/client/options.go
+++ b/providers/agent/mcorpc/client/options.go
@@ -402,6 +402,10 @@ func (o *RequestOptions) limitTargets(targets []string) (limited []string, err e
 		return limited, fmt.Errorf("no targets left after applying target limits of '%s'", o.LimitSize)
 	}
 
+	if count > len(targets) {
+		count = len(targets)
+	}
+
 	limited = make([]string, count)
 	copy(limited, o.shuffleLimitedTargets(targets))
 
-- 
2.43.0


From f7e7d7b5e0b696bd82fe20c9cb3961505dd7664c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:05 +0000
Subject: [PATCH 030/110] fix: do not reorder the targets supplied by the
 caller when limiting targets

---
 providers/agent/mcorpc/client/options.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/providers/agent/mcorpc/client/options.go b/providers/agent/mcorpc/client/options.go
index b377c43..939e064 100644
--- a/providers/agent/mcorpc/client/options.go
+++ b/providers/agent/mcorpc/client/options.go
@@ -407,7 +407,8 @@ func (o *RequestOptions) limitTargets(targets []string) (limited []string, err e
 	}
 
 	limited = make([]string, count)
-	copy(limited, o.shuffleLimitedTargets(targets))
+	// the list belongs to the caller, shuffling it in place would select other nodes when its reused
+	copy(limited, o.shuffleLimitedTargets(append([]string{}, targets...)))
 
 	return limited, err
 }
-- 
2.43.0


From afcb62f09fee445eaae7e995f96cd91824ac47a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:05 +0000
Subject: [PATCH 031/110] fix: calculate percentage limits without floating
 point rounding errors

---
 providers/agent/mcorpc/client/options.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/providers/agent/mcorpc/client/options.go b/providers/agent/mcorpc/client/options.go
index 939e064..78a342c 100644
--- a/providers/agent/mcorpc/client/options.go
+++ b/providers/agent/mcorpc/client/options.go
@@ -390,7 +390,10 @@ func (o *RequestOptions) limitTargets(targets []string) (limited []string, err e
 	if pctRe.MatchString(o.LimitSize) {
 		// already know its a number and it has a matching substring
 		pct, _ := strconv.Atoi(pctRe.FindStringSubmatch(o.LimitSize)[1])
-		count = int(float64(len(targets)) * (float64(pct) / 100))
+		if pct > 100 {
+			pct = 100
+		}
+		count = len(targets) * pct / 100
 	} else if digitRe.MatchString(o.LimitSize) {
 		// already know its a number
 		count, _ = strconv.Atoi(o.LimitSize)
-- 
2.43.0


From 5e66f05a019a073b1995c71f1473629f96fecaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:36 +0000
Subject: [PATCH 032/110] fix: only allow authorized callers to signal jobs

---
 providers/agent/mcorpc/golang/executor/signal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/providers/agent/mcorpc/golang/executor/signal.go b/providers/agent/mcorpc/golang/executor/signal.go
index 57305e8..cfadb0d 100644
--- a/providers/agent/mcorpc/golang/executor/signal.go
+++ b/providers/agent/mcorpc/golang/executor/signal.go
@@ -52,7 +52,7 @@ func signalAction(ctx context.Context, req *mcorpc.Request, reply *mcorpc.Reply,
 		return
 	}
 
-	if proxyAuthorize(p, req, agent) {
+	if !proxyAuthorize(p, req, agent) {
 		agent.Log.Warnf("Denying %s access to process created by %s#%s based on authorization policy for request %s", req.CallerID, p.Agent, p.Action, req.RequestID)
 		abort(reply, "You are not authorized to call this %s#%s", p.Agent, p.Action)
 		return
-- 
2.43.0


From 85b45ffee90197b53c1b7b5db293b42e0266517a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:36 +0000
Subject: [PATCH 033/110] fix: do not limit job lists to before 1970 when no
 time was given

---
 providers/agent/mcorpc/golang/executor/list.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/providers/agent/mcorpc/golang/executor/list.go b/providers/agent/mcorpc/golang/executor/list.go
index 4024496..e5677bb 100644
--- a/providers/agent/mcorpc/golang/executor/list.go
+++ b/providers/agent/mcorpc/golang/executor/list.go
@@ -54,18 +54,26 @@ func listAction(ctx context.Context, req *mcorpc.Request, reply *mcorpc.Reply, a
 
 	resp := &ListResponse{}
 
-	matched, err := execution.List(spool, &execution.ListQuery{
+	query := &execution.ListQuery{
 		Action:    args.Action,
 		Agent:     args.Agent,
-		Before:    time.Unix(args.Before, 0),
 		Caller:    args.Caller,
 		Command:   args.Command,
 		Completed: args.Completed,
 		Identity:  args.Identity,
 		RequestID: args.RequestID,
 		Running:   args.Running,
-		Since:     time.Unix(args.Since, 0),
-	})
+	}
+
+	// times that are not given should not limit the jobs
+	if args.Before != 0 {
+		query.Before = time.Unix(args.Before, 0)
+	}
+	if args.Since != 0 {
+		query.Since = time.Unix(args.Since, 0)
+	}
+
+	matched, err := execution.List(spool, query)
 	if err != nil {
 		abort(reply, "Could not list jobs: %v", err)
 		return
-- 
2.43.0


From 0bc3f07061c1f85e969c53c15decc15c559338db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:36 +0000
Subject: [PATCH 034/110] fix: list jobs in the executor spool

---
 providers/execution/exec.go | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/providers/execution/exec.go b/providers/execution/exec.go
index 3725df1..920acc9 100644
--- a/providers/execution/exec.go
+++ b/providers/execution/exec.go
@@ -12,7 +12,6 @@ import (
 	"errors"
 	"fmt"
 	"io"
-	"io/fs"
 	"os"
 	"os/exec"
 	"path/filepath"
@@ -135,28 +134,25 @@ func List(spool string, q *ListQuery) ([]*Process, error) {
 
 	result := make([]*Process, 0)
 
-	err := filepath.WalkDir(spool, func(path string, d fs.DirEntry, err error) error {
-		if err != nil {
-			return err
-		}
+	entries, err := os.ReadDir(spool)
+	if err != nil {
+		return nil, err
+	}
 
-		if !d.Type().IsRegular() {
-			return nil
+	// every job is a directory named after its id
+	for _, d := range entries {
+		if !d.IsDir() {
+			continue
 		}
 
 		proc, err := Load(spool, d.Name())
 		if err != nil {
-			return nil
+			continue
 		}
 
 		if proc.IsMatch(q) {
 			result = append(result, proc)
 		}
-
-		return nil
-	})
-	if err != nil {
-		return nil, err
 	}
 
 	return result, nil
-- 
2.43.0


From f91d53426bef7405113e02506a3279fe20402bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:36 +0000
Subject: [PATCH 035/110] fix: do not report terminated jobs as running when
 their pid is in use by another process

---
 providers/execution/exec.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/providers/execution/exec.go b/providers/execution/exec.go
index 920acc9..2225654 100644
--- a/providers/execution/exec.go
+++ b/providers/execution/exec.go
@@ -429,6 +429,11 @@ func (p *Process) HasStarted() (bool, error) {
 
 // IsRunning checks if the process is running
 func (p *Process) IsRunning() bool {
+	// the pid of a terminated process could have been reused by another
+	if !p.TerminateTime.IsZero() {
+		return false
+	}
+
 	if runtime.GOOS != "windows" {
 		err := p.Signal(syscall.Signal(0))
 
-- 
2.43.0


From 30aed223c56e76f923e094bc44030ab8d3672346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:36 +0000
Subject: [PATCH 036/110] fix: publish job output unmodified and do not stall
 on long lines

---
 providers/execution/exec.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/providers/execution/exec.go b/providers/execution/exec.go
index 2225654..2aa3ecd 100644
--- a/providers/execution/exec.go
+++ b/providers/execution/exec.go
@@ -540,9 +540,17 @@ func (p *Process) ParseExitCode() (int, error) {
 func watchOutputReader(wg *sync.WaitGroup, r io.Reader, origin string, out chan watchedLine, log *logrus.Entry) {
 	defer wg.Done()
 
-	scanner := bufio.NewScanner(r)
-	for scanner.Scan() {
-		out <- watchedLine{origin: origin, line: scanner.Bytes()}
+	reader := bufio.NewReader(r)
+	for {
+		// lines longer than the buffer are handled in parts
+		line, err := reader.ReadSlice('\n')
+		if len(line) > 0 {
+			// the buffer is reused by the next read
+			out <- watchedLine{origin: origin, line: bytes.Clone(line)}
+		}
+		if err != nil && !errors.Is(err, bufio.ErrBufferFull) {
+			return
+		}
 	}
 }
 
@@ -650,7 +658,6 @@ func watchOutput(wg *sync.WaitGroup, stdout io.Reader, stderr io.Reader, submit
 			prev = line.origin
 
 			buff.Write(line.line)
-			buff.Write([]byte("\n"))
 
 		case <-ticker.C:
 			publish(prev, buff)
-- 
2.43.0


From e6897d98f2b92ef706d18ed554db797edc727a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:36 +0000
Subject: [PATCH 037/110] fix: wait for all output of a job before recording
 its exit

---
 providers/execution/exec.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/providers/execution/exec.go b/providers/execution/exec.go
index 2aa3ecd..5afc4fa 100644
--- a/providers/execution/exec.go
+++ b/providers/execution/exec.go
@@ -307,7 +307,11 @@ func (p *Process) StartSupervised(ctx context.Context, spool string, submit Subm
 		stdoutReader, stdout = io.Pipe()
 		stderrReader, stderr = io.Pipe()
 
-		closers = append(closers, stdout, stderr, stdoutFile, stderrFile, stdoutReader, stderrReader)
+		// the files are closed once all the output was handled
+		defer stdoutFile.Close()
+		defer stderrFile.Close()
+
+		closers = append(closers, stdout, stderr)
 
 		wg.Add(1)
 		go watchOutput(wg, io.TeeReader(stdoutReader, stdoutFile), io.TeeReader(stderrReader, stderrFile), submit, prefix, p, log)
@@ -331,6 +335,9 @@ func (p *Process) StartSupervised(ctx context.Context, spool string, submit Subm
 	cmd.Stdout = stdout
 	cmd.Stderr = stderr
 
+	// limits the wait for children of the process that keep its output open after it ended
+	cmd.WaitDelay = 2 * time.Second
+
 	err = cmd.Start()
 	if err != nil {
 		return fmt.Errorf("%w: %w", ErrStartFailed, err)
@@ -360,7 +367,13 @@ func (p *Process) StartSupervised(ctx context.Context, spool string, submit Subm
 	if cmd.Process == nil {
 		waitErr = ErrStartFailed
 	} else {
-		state, waitErr = cmd.Process.Wait()
+		// waits for all output of the process to be handled also
+		waitErr = cmd.Wait()
+		state = cmd.ProcessState
+		if state != nil {
+			// how the process exited is in the state
+			waitErr = nil
+		}
 	}
 
 	// always save then handle the error from waiting
-- 
2.43.0


From 3983f213f04da2206d91af1ac32f46ba4b5a0e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:36 +0000
Subject: [PATCH 038/110] fix: do not publish output of one stream as the other
 after a failed submission

---
 providers/execution/exec.go | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/providers/execution/exec.go b/providers/execution/exec.go
index 5afc4fa..93bcc32 100644
--- a/providers/execution/exec.go
+++ b/providers/execution/exec.go
@@ -648,32 +648,28 @@ func watchOutput(wg *sync.WaitGroup, stdout io.Reader, stderr io.Reader, submit
 	}
 
 	ticker := time.NewTicker(time.Second)
-	buff := bytes.NewBuffer([]byte{})
-	prev := ""
+	buffs := map[string]*bytes.Buffer{"stdout": {}, "stderr": {}}
+	prev := "stdout"
 
 	for {
 		select {
 		case line, ok := <-lines:
 			if !ok {
-				publish(prev, buff)
+				publish("stdout", buffs["stdout"])
+				publish("stderr", buffs["stderr"])
 				return
 			}
 
-			if prev == "" {
-				prev = line.origin
-			}
-			if line.origin != prev {
-				publish(prev, buff)
-			}
-			if buff.Len() > 1024 {
-				publish(prev, buff)
+			if line.origin != prev || buffs[prev].Len() > 1024 {
+				publish(prev, buffs[prev])
 			}
 			prev = line.origin
 
-			buff.Write(line.line)
+			buffs[prev].Write(line.line)
 
 		case <-ticker.C:
-			publish(prev, buff)
+			publish("stdout", buffs["stdout"])
+			publish("stderr", buffs["stderr"])
 		}
 	}
 }
-- 
2.43.0


From 045bed372e98d091d28714e85c970b55eefadf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:36 +0000
Subject: [PATCH 039/110] fix: do not report exit code 0 for jobs without a
 recorded exit code

---
 providers/execution/exec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/providers/execution/exec.go b/providers/execution/exec.go
index 93bcc32..ce16937 100644
--- a/providers/execution/exec.go
+++ b/providers/execution/exec.go
@@ -534,7 +534,7 @@ func (p *Process) ParseExitCode() (int, error) {
 
 	exitBytes, err := os.ReadFile(exitPath(filepath.Dir(filepath.Dir(p.PidFile)), p.ID))
 	if err != nil {
-		return 0, fmt.Errorf("%w: %w", ErrInvalidProcess, err)
+		return -1, fmt.Errorf("%w: %w", ErrInvalidProcess, err)
 	}
 
 	var exit ExitCode
-- 
2.43.0


From 1d48c7c3d7c278bd2144c259d2390b53b64b5b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:16 +0000
Subject: [PATCH 040/110] fix: do not treat updates of keys that only end in
 the watched key as its value

---
 aagent/watchers/kvwatcher/kv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aagent/watchers/kvwatcher/kv.go b/aagent/watchers/kvwatcher/kv.go
index df78ee7..1dbe3d3 100644
--- a/aagent/watchers/kvwatcher/kv.go
+++ b/aagent/watchers/kvwatcher/kv.go
@@ -243,7 +243,7 @@ func (w *Watcher) repubHandler(msg *nats.Msg) (State, error) {
 		return Error, fmt.Errorf("could not parse template for key: %v", err)
 	}
 
-	if !strings.HasSuffix(msg.Subject, parsedKey) {
+	if msg.Subject != parsedKey && !strings.HasSuffix(msg.Subject, "."+parsedKey) {
 		return Error, fmt.Errorf("received republish message on %s that does not match expected key %s", msg.Subject, parsedKey)
 	}
 
-- 
2.43.0


From b38a9eec71ffc4ec1e8723fc980fd96238d193f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:16 +0000
Subject: [PATCH 041/110] fix: ignore republished messages older than the last
 seen value

---
 aagent/watchers/kvwatcher/kv.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aagent/watchers/kvwatcher/kv.go b/aagent/watchers/kvwatcher/kv.go
index 1dbe3d3..c0003eb 100644
--- a/aagent/watchers/kvwatcher/kv.go
+++ b/aagent/watchers/kvwatcher/kv.go
@@ -260,6 +260,11 @@ func (w *Watcher) repubHandler(msg *nats.Msg) (State, error) {
 		return Error, err
 	}
 
+	// a poll can see a newer value before the message about an older one arrives
+	if seq < w.previousSeq {
+		return Unchanged, nil
+	}
+
 	parsedValue, err := w.parseValue(val)
 	switch {
 	case err != nil:
-- 
2.43.0


From f4f0b796f36d248c5d0e28c4e9c12f808a7f973c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:16 +0000
Subject: [PATCH 042/110] fix: do not crash when a kv watcher has no interval

---
 aagent/watchers/kvwatcher/kv.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/aagent/watchers/kvwatcher/kv.go b/aagent/watchers/kvwatcher/kv.go
index c0003eb..59e79c6 100644
--- a/aagent/watchers/kvwatcher/kv.go
+++ b/aagent/watchers/kvwatcher/kv.go
@@ -526,11 +526,17 @@ func (w *Watcher) pollKey(ctx context.Context, wg *sync.WaitGroup) {
 
 	w.handleState(w.poll())
 
-	ticker := time.NewTicker(w.interval)
+	// without an interval only start, state changes and republished messages are handled
+	var tick <-chan time.Time
+	if w.interval > 0 {
+		ticker := time.NewTicker(w.interval)
+		defer ticker.Stop()
+		tick = ticker.C
+	}
 
 	for {
 		select {
-		case <-ticker.C:
+		case <-tick:
 			w.handleState(w.poll())
 
 		case <-ctx.Done():
-- 
2.43.0


From e237657619d7b7841e1d2a76fc27bdba0d2c22f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:42 +0000
Subject: [PATCH 043/110] fix: do not replace the configuration when a later
 part of configure fails

---
 .../mcorpc/golang/provision/configure_action.go     | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/providers/agent/mcorpc/golang/provision/configure_action.go b/providers/agent/mcorpc/golang/provision/configure_action.go
index afa68f7..e5dd58a 100644
--- a/providers/agent/mcorpc/golang/provision/configure_action.go
+++ b/providers/agent/mcorpc/golang/provision/configure_action.go
@@ -87,12 +87,6 @@ func configureAction(ctx context.Context, req *mcorpc.Request, reply *mcorpc.Rep
 		return
 	}
 
-	lines, err := writeConfig(settings, req, agent.Config, agent.Log)
-	if err != nil {
-		abort(fmt.Sprintf("Could not write config: %s", err), reply)
-		return
-	}
-
 	err = writeActionPolicies(agent.Config, args, agent)
 	if err != nil {
 		abort(fmt.Sprintf("Could not save Action Policies: %s", err), reply)
@@ -105,6 +99,13 @@ func configureAction(ctx context.Context, req *mcorpc.Request, reply *mcorpc.Rep
 		return
 	}
 
+	// last, so that a failure in any of the other parts does not replace the active configuration
+	lines, err := writeConfig(settings, req, agent.Config, agent.Log)
+	if err != nil {
+		abort(fmt.Sprintf("Could not write config: %s", err), reply)
+		return
+	}
+
 	err = agent.ServerInfoSource.NewEvent(lifecycle.Provisioned)
 	if err != nil {
 		agent.Log.Errorf("Could not publish provisioned event: %s", err)
-- 
2.43.0


From 2726461b7635518e2d8e4e031e39a039d61a1bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:42 +0000
Subject: [PATCH 044/110] fix: only write policies into the policies directory

---
 providers/agent/mcorpc/golang/provision/configure_action.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/providers/agent/mcorpc/golang/provision/configure_action.go b/providers/agent/mcorpc/golang/provision/configure_action.go
index e5dd58a..861aa56 100644
--- a/providers/agent/mcorpc/golang/provision/configure_action.go
+++ b/providers/agent/mcorpc/golang/provision/configure_action.go
@@ -123,6 +123,12 @@ func writeJWT(target string, token string, log *logrus.Entry) error {
 }
 
 func writePolicies(targetDir string, policies map[string]string, log *logrus.Entry) error {
+	for f := range policies {
+		if f != "" && filepath.Base(f) != f {
+			return fmt.Errorf("invalid policy file name %q", f)
+		}
+	}
+
 	if util.FileIsDir(targetDir) {
 		err := os.RemoveAll(targetDir)
 		if err != nil {
-- 
2.43.0


From 2e86bd28d74c4ab7906b9d226c63ca6245db9f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:44 +0000
Subject: [PATCH 045/110] fix: apply the documented machine_manage_interval
 property of the machines watcher

---
 aagent/watchers/machineswatcher/machines.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aagent/watchers/machineswatcher/machines.go b/aagent/watchers/machineswatcher/machines.go
index c66e2c6..58b8699 100644
--- a/aagent/watchers/machineswatcher/machines.go
+++ b/aagent/watchers/machineswatcher/machines.go
@@ -79,7 +79,7 @@ type Properties struct {
 	// PurgeUnknown will remove machines not declared in DataItem
 	PurgeUnknown bool `mapstructure:"purge_unknown"`
 	// MachineManageInterval is the interval that created machines will use to manage their archives
-	MachineManageInterval time.Duration
+	MachineManageInterval time.Duration `mapstructure:"machine_manage_interval"`
 	// PublicKey is the optional ed25519 public key used to sign the specification, when set
 	// the specification received will be validated and any invalid specification will be discarded
 	PublicKey string `mapstructure:"public_key"`
-- 
2.43.0


From c3009b9c9bedac44347b4247b477aa775e673d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:44 +0000
Subject: [PATCH 046/110] fix: purge unknown plugins also when they are
 deployed into their own directory

---
 aagent/watchers/pluginswatcher/plugins.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aagent/watchers/pluginswatcher/plugins.go b/aagent/watchers/pluginswatcher/plugins.go
index 78a6b4a..3a805a6 100644
--- a/aagent/watchers/pluginswatcher/plugins.go
+++ b/aagent/watchers/pluginswatcher/plugins.go
@@ -385,7 +385,7 @@ func (w *Watcher) purgeUnknownPlugins(ctx context.Context, desired []*ManagedPlu
 }
 
 func (w *Watcher) currentPlugins() ([]string, error) {
-	dirs, err := os.ReadDir(w.targetDirForManagedPlugins())
+	dirs, err := os.ReadDir(filepath.Dir(w.machine.Directory()))
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 06419d466480a3bab2eeec7ed0d573aab23bf7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:44 +0000
Subject: [PATCH 047/110] fix: do not crash on empty entries in machine and
 plugin specifications

---
 aagent/watchers/machineswatcher/machines.go | 4 ++++
 aagent/watchers/pluginswatcher/plugins.go   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/aagent/watchers/machineswatcher/machines.go b/aagent/watchers/machineswatcher/machines.go
index 58b8699..cdcfdc3 100644
--- a/aagent/watchers/machineswatcher/machines.go
+++ b/aagent/watchers/machineswatcher/machines.go
@@ -470,6 +470,10 @@ func (w *Watcher) desiredState() ([]*ManagedMachine, error) {
 	}
 
 	for _, m := range desired {
+		if m == nil {
+			return nil, fmt.Errorf("empty entry found")
+		}
+
 		m.Interval = w.properties.MachineManageInterval.String()
 		m.Target = filepath.Dir(w.machine.Directory())
 
diff --git a/aagent/watchers/pluginswatcher/plugins.go b/aagent/watchers/pluginswatcher/plugins.go
index 3a805a6..3b38745 100644
--- a/aagent/watchers/pluginswatcher/plugins.go
+++ b/aagent/watchers/pluginswatcher/plugins.go
@@ -474,6 +474,10 @@ func (w *Watcher) desiredState() ([]*ManagedPlugin, error) {
 	}
 
 	for _, m := range desired {
+		if m == nil {
+			return nil, fmt.Errorf("empty entry found")
+		}
+
 		m.NamePrefix = w.properties.ManagerMachinePrefix
 		m.Interval = w.properties.PluginManageInterval.String()
 		m.Target = w.targetDirForManagedPlugins()
-- 
2.43.0


From db2441751314614ac4bfb16665230649f5a70b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:44 +0000
Subject: [PATCH 048/110] fix: do not crash when the machines watcher public
 key has an invalid length

---
 aagent/watchers/machineswatcher/machines.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aagent/watchers/machineswatcher/machines.go b/aagent/watchers/machineswatcher/machines.go
index cdcfdc3..6372e76 100644
--- a/aagent/watchers/machineswatcher/machines.go
+++ b/aagent/watchers/machineswatcher/machines.go
@@ -447,6 +447,11 @@ func (w *Watcher) loadAndValidateData() ([]byte, error) {
 			return nil, fmt.Errorf("invalid data_item")
 		}
 
+		if len(pk) != ed25519.PublicKeySize {
+			w.Errorf("invalid public key: it has %d bytes", len(pk))
+			return nil, fmt.Errorf("invalid data_item")
+		}
+
 		if !ed25519.Verify(pk, payload, sig) {
 			w.Errorf("Signature in data_item %s did not verify using configured public key '%s', removing data", w.properties.DataItem, w.properties.PublicKey)
 			w.machine.DataDelete(w.properties.DataItem)
-- 
2.43.0


From 2568bc6b9bfa59704e4506fcec4017594dc2a136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:40 +0000
Subject: [PATCH 049/110] fix: keep the current target when an archive does not
 hold the wanted directory

---
 aagent/watchers/archivewatcher/archive.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aagent/watchers/archivewatcher/archive.go b/aagent/watchers/archivewatcher/archive.go
index fd5245d..336b093 100644
--- a/aagent/watchers/archivewatcher/archive.go
+++ b/aagent/watchers/archivewatcher/archive.go
@@ -238,6 +238,10 @@ func (w *Watcher) watch(ctx context.Context) (state State, err error) {
 		return Error, fmt.Errorf("archive extraction failed: %s", err)
 	}
 
+	if !iu.FileIsDir(filepath.Join(td, w.properties.Creates)) {
+		return Error, fmt.Errorf("archive does not hold the directory %s", w.properties.Creates)
+	}
+
 	if iu.FileExist(creates) {
 		err = os.RemoveAll(creates)
 		if err != nil {
-- 
2.43.0


From 1077b6e84df7a41fa946a638261f7f2d4fa878ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:24 +0000
Subject: [PATCH 050/110] fix: do not fire timers of states the machine has
 left or after it was stopped

---
 aagent/watchers/timerwatcher/timer.go | 72 ++++++++++++++++-----------
 1 file changed, 42 insertions(+), 30 deletions(-)

diff --git a/aagent/watchers/timerwatcher/timer.go b/aagent/watchers/timerwatcher/timer.go
index 6cdf71e..5a6ab46 100644
--- a/aagent/watchers/timerwatcher/timer.go
+++ b/aagent/watchers/timerwatcher/timer.go
@@ -47,6 +47,7 @@ type Watcher struct {
 
 	terminate   chan struct{}
 	cancelTimer func()
+	timerID     uint64 // identifies the current timer, changes when it is stopped or replaced
 	mu          *sync.Mutex
 }
 
@@ -85,17 +86,43 @@ func (w *Watcher) Delete() {
 func (w *Watcher) forceTimerStop() {
 	w.mu.Lock()
 	cancel := w.cancelTimer
+	w.cancelTimer = nil
+	w.timerID++
+	w.state = Stopped
 	w.mu.Unlock()
 
 	if cancel != nil {
 		w.Infof("Stopping timer early on state transition to %s", w.machine.State())
 		cancel()
+		w.NotifyWatcherState(w.CurrentState())
 	}
 }
 
-func (w *Watcher) timeStart() {
+// timerDone marks timer id as stopped, false when it was already stopped or replaced by a new timer
+func (w *Watcher) timerDone(id uint64) bool {
+	w.mu.Lock()
+	defer w.mu.Unlock()
+
+	if w.timerID != id {
+		return false
+	}
+
+	w.cancelTimer = nil
+	w.timerID++
+	w.state = Stopped
+
+	return true
+}
+
+func (w *Watcher) timeStart(ctx context.Context) {
+	timerCtx, timerCancel := context.WithCancel(ctx)
+
 	w.mu.Lock()
 	cancel := w.cancelTimer
+	w.cancelTimer = timerCancel
+	w.timerID++
+	id := w.timerID
+	w.state = Running
 	w.mu.Unlock()
 
 	if cancel != nil {
@@ -104,56 +131,41 @@ func (w *Watcher) timeStart() {
 	}
 
 	go func() {
-		timer := time.NewTimer(w.properties.Timer)
-		ctx, cancel := context.WithCancel(context.Background())
+		defer timerCancel()
 
-		w.mu.Lock()
-		w.state = Running
-		w.cancelTimer = cancel
-		w.mu.Unlock()
+		timer := time.NewTimer(w.properties.Timer)
+		defer timer.Stop()
 
 		w.NotifyWatcherState(w.CurrentState())
 
 		select {
 		case <-timer.C:
-			w.mu.Lock()
-			w.state = Stopped
-			if w.cancelTimer != nil {
-				w.cancelTimer()
+			if !w.timerDone(id) {
+				return
 			}
-			w.cancelTimer = nil
-			w.mu.Unlock()
 
 			w.NotifyWatcherState(w.CurrentState())
 			w.FailureTransition()
 
-		case <-ctx.Done():
-			w.mu.Lock()
-			w.cancelTimer = nil
-			timer.Stop()
-			w.state = Stopped
-			w.mu.Unlock()
-
-			w.NotifyWatcherState(w.CurrentState())
+		case <-timerCtx.Done():
+			if w.timerDone(id) {
+				w.NotifyWatcherState(w.CurrentState())
+			}
 
 		case <-w.terminate:
-			w.mu.Lock()
-			w.cancelTimer = nil
-			w.state = Stopped
-			w.mu.Unlock()
-			return
+			w.timerDone(id)
 		}
 	}()
 }
 
-func (w *Watcher) watch() {
+func (w *Watcher) watch(ctx context.Context) {
 	if !w.ShouldWatch() {
 		w.forceTimerStop()
 		return
 	}
 
 	w.Infof("Starting timer")
-	w.timeStart()
+	w.timeStart(ctx)
 }
 
 func (w *Watcher) Run(ctx context.Context, wg *sync.WaitGroup) {
@@ -162,12 +174,12 @@ func (w *Watcher) Run(ctx context.Context, wg *sync.WaitGroup) {
 	w.Infof("Timer watcher starting with %v timer", w.properties.Timer)
 
 	// handle initial state
-	w.watch()
+	w.watch(ctx)
 
 	for {
 		select {
 		case <-w.StateChangeC():
-			w.watch()
+			w.watch(ctx)
 		case <-w.terminate:
 			w.Infof("Handling terminate notification")
 			return
-- 
2.43.0


From 2a7a68d6f4a00130c2980ae16af1eaa1667f3076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:24 +0000
Subject: [PATCH 051/110] fix: trigger schedules again that start while the
 previous one ended in another state

---
 aagent/watchers/schedulewatcher/schedule.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aagent/watchers/schedulewatcher/schedule.go b/aagent/watchers/schedulewatcher/schedule.go
index 4424ba7..d3f63f2 100644
--- a/aagent/watchers/schedulewatcher/schedule.go
+++ b/aagent/watchers/schedulewatcher/schedule.go
@@ -106,6 +106,7 @@ func (w *Watcher) watchSchedule(ctx context.Context, wg *sync.WaitGroup) {
 			if w.ctr == 0 {
 				w.Debugf("State going off due to ctr change to 0")
 				w.state = Off
+				w.triggered = false
 			} else {
 				w.Debugf("State going on due to ctr change of %v", i)
 				w.state = On
-- 
2.43.0


From a070e02b00c8be8ff5bc59f4bab20bf6edabcb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:27 +0000
Subject: [PATCH 052/110] fix: apply the default duration to schedules that do
 not set one

---
 aagent/watchers/schedulewatcher/schedule.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aagent/watchers/schedulewatcher/schedule.go b/aagent/watchers/schedulewatcher/schedule.go
index d3f63f2..e1668a0 100644
--- a/aagent/watchers/schedulewatcher/schedule.go
+++ b/aagent/watchers/schedulewatcher/schedule.go
@@ -240,6 +240,11 @@ func (w *Watcher) setProperties(props map[string]any) error {
 		return err
 	}
 
+	err = w.validate()
+	if err != nil {
+		return err
+	}
+
 	for _, spec := range w.properties.Schedules {
 		item, err := newSchedItem(spec, w)
 		if err != nil {
@@ -253,7 +258,7 @@ func (w *Watcher) setProperties(props map[string]any) error {
 		return fmt.Errorf("start splay %v is bigger than half the duration %v", w.properties.StartSplay, w.properties.Duration)
 	}
 
-	return w.validate()
+	return nil
 }
 
 func (w *Watcher) CurrentState() any {
-- 
2.43.0


From 5effda285367e2faa10e0f1ef4c62fc8bd888b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:20 +0000
Subject: [PATCH 053/110] fix: account for the agent host http listeners in the
 wait group and stop them

---
 aagent/aagent.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aagent/aagent.go b/aagent/aagent.go
index 12874ed..389137b 100644
--- a/aagent/aagent.go
+++ b/aagent/aagent.go
@@ -94,6 +94,10 @@ func (a *AAgent) startHTTPListeners(ctx context.Context, wg *sync.WaitGroup) {
 		Handler:     mux,
 		Addr:        fmt.Sprintf(":%d", httpPort),
 	}
+
+	stop := context.AfterFunc(ctx, func() { srv.Close() })
+	defer stop()
+
 	err = srv.ListenAndServe()
 	if errors.Is(err, http.ErrServerClosed) {
 		return
@@ -104,7 +108,7 @@ func (a *AAgent) startHTTPListeners(ctx context.Context, wg *sync.WaitGroup) {
 
 // ManageMachines start observing the source directories starting and stopping machines based on changes on disk
 func (a *AAgent) ManageMachines(ctx context.Context, wg *sync.WaitGroup) error {
-	wg.Add(1)
+	wg.Add(2)
 	go a.watchSource(ctx, wg)
 	go a.startHTTPListeners(ctx, wg)
 
-- 
2.43.0


From 2ae88a4f63b1c8c46602fd97914a6d79b4caf1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:43 +0000
Subject: [PATCH 054/110] fix: do not hold the agent host lock while deleting
 machines

---
 aagent/aagent.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/aagent/aagent.go b/aagent/aagent.go
index 389137b..090f6af 100644
--- a/aagent/aagent.go
+++ b/aagent/aagent.go
@@ -343,7 +343,7 @@ func (a *AAgent) watchSource(ctx context.Context, wg *sync.WaitGroup) {
 
 	// deletes machines not on disk anymore
 	cleanf := func() {
-		targets := []string{}
+		targets := []*managedMachine{}
 
 		a.Lock()
 		for _, m := range a.machines {
@@ -354,16 +354,18 @@ func (a *AAgent) watchSource(ctx context.Context, wg *sync.WaitGroup) {
 
 			if !util.FileExist(m.path) {
 				a.logger.Infof("Machine %s does not exist anymore in %s, terminating", m.machine.Name(), m.path)
-				targets = append(targets, m.path)
-				m.machine.Delete()
+				targets = append(targets, m)
 			}
 		}
 		a.Unlock()
 
-		for _, p := range targets {
-			err := a.deleteByPath(p)
+		// deleting waits for machines in transition which in turn need the lock to notify other machines
+		for _, m := range targets {
+			m.machine.Delete()
+
+			err := a.deleteByPath(m.path)
 			if err != nil {
-				a.logger.Errorf("Could not terminate machine previously in %s: %s", p, err)
+				a.logger.Errorf("Could not terminate machine previously in %s: %s", m.path, err)
 			}
 		}
 	}
-- 
2.43.0


From 5bd3560ae7c719941b8cd8db4f7de535f679368a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:03 +0000
Subject: [PATCH 055/110] fix: do not start machines again during their start
 splay or after they were removed

---
 aagent/machine/machine.go | 46 ++++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/aagent/machine/machine.go b/aagent/machine/machine.go
index 157ae4c..ee37b99 100644
--- a/aagent/machine/machine.go
+++ b/aagent/machine/machine.go
@@ -67,6 +67,7 @@ type Machine struct {
 	signerKey        string
 	choriaStatusFreq int
 	startTime        time.Time
+	starting         bool
 
 	embedded     bool
 	data         map[string]any
@@ -621,37 +622,56 @@ func (m *Machine) Setup() error {
 
 // Start runs the machine in the background
 func (m *Machine) Start(ctx context.Context, wg *sync.WaitGroup) (started chan struct{}) {
-	m.ctx, m.cancel = context.WithCancel(ctx)
-
 	started = make(chan struct{}, 1)
 
+	m.Lock()
+	ctx, m.cancel = context.WithCancel(ctx)
+	m.ctx = ctx
+	m.starting = true
+	m.Unlock()
+
+	finish := func(startTime time.Time) {
+		m.Lock()
+		m.starting = false
+		m.startTime = startTime
+		if ctx.Err() != nil {
+			m.startTime = time.Time{}
+		}
+		m.Unlock()
+
+		started <- struct{}{}
+	}
+
 	runf := func() {
 		if m.SplayStart > 0 {
 			sleep := time.Duration(rand.N(m.SplayStart)) * time.Second
 			m.Infof(m.MachineName, "Sleeping %v before starting Autonomous Agent", sleep)
 
 			t := time.NewTimer(sleep)
+			defer t.Stop()
 
 			select {
 			case <-t.C:
-			case <-m.ctx.Done():
-				m.startTime = time.Time{}
-				m.Infof(m.MachineName, "Exiting on context interrupt")
-				started <- struct{}{}
-				return
+			case <-ctx.Done():
 			}
 		}
 
+		if ctx.Err() != nil {
+			m.Infof(m.MachineName, "Exiting on context interrupt")
+			finish(time.Time{})
+			return
+		}
+
 		m.Infof(m.MachineName, "Starting Choria Machine %s version %s from %s in state %s", m.MachineName, m.MachineVersion, m.directory, m.InitialState)
 
-		err := m.manager.Run(m.ctx, wg)
+		err := m.manager.Run(ctx, wg)
 		if err != nil {
 			m.Errorf(m.MachineName, "Could not start manager: %s", err)
-		} else {
-			m.startTime = time.Now().UTC()
+			finish(time.Time{})
+			return
 		}
 
-		started <- struct{}{}
+		finish(time.Now().UTC())
 	}
 
 	go runf()
@@ -659,12 +679,12 @@ func (m *Machine) Start(ctx context.Context, wg *sync.WaitGroup) (started chan s
 	return started
 }
 
-// IsStarted determines if the machine is currently running
+// IsStarted determines if the machine is currently running or waiting for its splay to pass
 func (m *Machine) IsStarted() bool {
 	m.Lock()
 	defer m.Unlock()
 
-	return !m.startTime.IsZero()
+	return m.starting || !m.startTime.IsZero()
 }
 
 // Delete deletes a running machine by canceling its context and giving its manager
-- 
2.43.0


From ae4369fedce6ca5294b7c842fe5f8b654a31ac93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:58 +0000
Subject: [PATCH 056/110] fix: do not crash on events for machines that are
 loaded but not yet started

---
 aagent/machine/machine.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aagent/machine/machine.go b/aagent/machine/machine.go
index ee37b99..eb03d94 100644
--- a/aagent/machine/machine.go
+++ b/aagent/machine/machine.go
@@ -753,6 +753,10 @@ func (m *Machine) Transition(t string, args ...any) error {
 		return nil
 	}
 
+	if m.ctx == nil {
+		return fmt.Errorf("could not fire '%s' event, machine %s is not started", t, m.MachineName)
+	}
+
 	if m.Can(t) {
 		err := m.backoffTransition(t)
 		if err != nil {
-- 
2.43.0


From 7c1f0c9e7bc396f08e6b0f96d37f82f81769e8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:13 +0000
Subject: [PATCH 057/110] fix: do not crash on performance data without numeric
 values

---
 aagent/util/nagios.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aagent/util/nagios.go b/aagent/util/nagios.go
index 8574480..9a4e6fb 100644
--- a/aagent/util/nagios.go
+++ b/aagent/util/nagios.go
@@ -46,6 +46,9 @@ func ParsePerfData(pd string) (perf []PerfData) {
 
 		label := strings.Replace(mparts[0], " ", "_", -1)
 		valParts := valParse.FindStringSubmatch(mparts[1])
+		if valParts == nil {
+			continue
+		}
 		rawValue := valParts[1]
 		value, err := strconv.ParseFloat(rawValue, 64)
 		if err != nil {
-- 
2.43.0


From d9c1966d94c41767899abd21244b05fb6612a2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:16 +0000
Subject: [PATCH 058/110] fix: remove both quotes from performance data labels

---
 aagent/util/nagios.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/aagent/util/nagios.go b/aagent/util/nagios.go
index 9a4e6fb..048697f 100644
--- a/aagent/util/nagios.go
+++ b/aagent/util/nagios.go
@@ -30,9 +30,6 @@ func ParsePerfData(pd string) (perf []PerfData) {
 	rawMetrics := strings.Split(strings.TrimSpace(parts[1]), " ")
 	for _, rawMetric := range rawMetrics {
 		metric := strings.TrimSpace(rawMetric)
-		metric = strings.TrimPrefix(metric, "'")
-		metric = strings.TrimSuffix(metric, "'")
-
 		if len(metric) == 0 {
 			continue
 		}
@@ -44,7 +41,7 @@ func ParsePerfData(pd string) (perf []PerfData) {
 			continue
 		}
 
-		label := strings.Replace(mparts[0], " ", "_", -1)
+		label := strings.Replace(strings.Trim(mparts[0], "'"), " ", "_", -1)
 		valParts := valParse.FindStringSubmatch(mparts[1])
 		if valParts == nil {
 			continue
-- 
2.43.0


From 3fc12300cdd7ece59b8b7e6a8fce7ac7dcca9f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:19 +0000
Subject: [PATCH 059/110] fix: treat plugin exit codes that match internal
 states as unknown

---
 aagent/watchers/nagioswatcher/nagios.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aagent/watchers/nagioswatcher/nagios.go b/aagent/watchers/nagioswatcher/nagios.go
index 8845805..38f7e5f 100644
--- a/aagent/watchers/nagioswatcher/nagios.go
+++ b/aagent/watchers/nagioswatcher/nagios.go
@@ -438,7 +438,7 @@ func (w *Watcher) watchUsingPlugin(ctx context.Context) (state State, output str
 	w.Debugf("Output from %s: %s", w.properties.Plugin, output)
 
 	s, ok := intStates[pstate.ExitCode()]
-	if ok {
+	if ok && s != SKIPPED && s != NOTCHECKED {
 		return s, output, nil
 	}
 
-- 
2.43.0


From ef3810fa78972a596d2e3a4d4f4d29999b0c225d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:21 +0000
Subject: [PATCH 060/110] fix: do not crash when check and metric commands are
 empty after template processing

---
 aagent/watchers/metricwatcher/metric.go | 6 ++++++
 aagent/watchers/nagioswatcher/nagios.go | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/aagent/watchers/metricwatcher/metric.go b/aagent/watchers/metricwatcher/metric.go
index 8a38b1b..238daed 100644
--- a/aagent/watchers/metricwatcher/metric.go
+++ b/aagent/watchers/metricwatcher/metric.go
@@ -207,6 +207,12 @@ func (w *Watcher) watch(ctx context.Context) (state []byte, err error) {
 		return nil, err
 	}
 
+	if len(splitcmd) == 0 {
+		err = fmt.Errorf("invalid command %q", command)
+		w.Errorf("Metric watcher %s failed: %s", w.properties.Command, err)
+		return nil, err
+	}
+
 	cmd := exec.CommandContext(timeoutCtx, splitcmd[0], splitcmd[1:]...)
 	cmd.Env = append(cmd.Env, fmt.Sprintf("MACHINE_WATCHER_NAME=%s", w.name))
 	cmd.Env = append(cmd.Env, fmt.Sprintf("MACHINE_NAME=%s", w.machine.Name()))
diff --git a/aagent/watchers/nagioswatcher/nagios.go b/aagent/watchers/nagioswatcher/nagios.go
index 38f7e5f..c27cff4 100644
--- a/aagent/watchers/nagioswatcher/nagios.go
+++ b/aagent/watchers/nagioswatcher/nagios.go
@@ -409,6 +409,10 @@ func (w *Watcher) watchUsingPlugin(ctx context.Context) (state State, output str
 		return UNKNOWN, "", err
 	}
 
+	if len(splitcmd) == 0 {
+		return UNKNOWN, "", fmt.Errorf("invalid plugin command %q", plugin)
+	}
+
 	w.previousPlugin = plugin
 
 	cmd := exec.CommandContext(timeoutCtx, splitcmd[0], splitcmd[1:]...)
-- 
2.43.0


From b4e16226b1a26314fa7c141012f44764deb05bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:24 +0000
Subject: [PATCH 061/110] fix: do not html escape overrides in check commands

---
 aagent/watchers/nagioswatcher/nagios.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aagent/watchers/nagioswatcher/nagios.go b/aagent/watchers/nagioswatcher/nagios.go
index c27cff4..5b97dd3 100644
--- a/aagent/watchers/nagioswatcher/nagios.go
+++ b/aagent/watchers/nagioswatcher/nagios.go
@@ -8,12 +8,12 @@ import (
 	"bytes"
 	"context"
 	"fmt"
-	"html/template"
 	"math/rand/v2"
 	"os"
 	"os/exec"
 	"strings"
 	"sync"
+	"text/template"
 	"time"
 
 	"github.com/choria-io/go-choria/aagent/model"
-- 
2.43.0


From 51b19f401667205df1dcd851ac95faff78350cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:27 +0000
Subject: [PATCH 062/110] fix: do not block the machine when checks are forced
 while one is running

---
 aagent/watchers/nagioswatcher/nagios.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aagent/watchers/nagioswatcher/nagios.go b/aagent/watchers/nagioswatcher/nagios.go
index 5b97dd3..2a8aa88 100644
--- a/aagent/watchers/nagioswatcher/nagios.go
+++ b/aagent/watchers/nagioswatcher/nagios.go
@@ -239,7 +239,11 @@ func (w *Watcher) NotifyStateChance() {
 	case "FORCE_CHECK":
 		w.Infof("Forcing a check of %s", w.machineName)
 		w.force = true
-		w.StateChangeC() <- struct{}{}
+		select {
+		case w.StateChangeC() <- struct{}{}:
+		default:
+			// a check is already pending, blocking would deadlock the machine against a running check
+		}
 		return
 	}
 
-- 
2.43.0


From f732f939c0c27f22eefed3fba4285446505d7245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:45 +0000
Subject: [PATCH 063/110] fix: enforce watcher timeouts when children of the
 command keep its output open

---
 aagent/watchers/execwatcher/exec.go     | 2 ++
 aagent/watchers/metricwatcher/metric.go | 2 ++
 aagent/watchers/nagioswatcher/nagios.go | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/aagent/watchers/execwatcher/exec.go b/aagent/watchers/execwatcher/exec.go
index ccdd7b9..9e15f3c 100644
--- a/aagent/watchers/execwatcher/exec.go
+++ b/aagent/watchers/execwatcher/exec.go
@@ -311,6 +311,8 @@ func (w *Watcher) watch(ctx context.Context) (state State, err error) {
 		cmd = exec.Command(splitcmd[0], args...)
 	} else {
 		cmd = exec.CommandContext(timeoutCtx, splitcmd[0], args...)
+		// children that keep the output open must not delay us beyond the timeout
+		cmd.WaitDelay = w.properties.Timeout
 	}
 	cmd.Dir = w.machine.Directory()
 
diff --git a/aagent/watchers/metricwatcher/metric.go b/aagent/watchers/metricwatcher/metric.go
index 238daed..be6da94 100644
--- a/aagent/watchers/metricwatcher/metric.go
+++ b/aagent/watchers/metricwatcher/metric.go
@@ -218,6 +218,8 @@ func (w *Watcher) watch(ctx context.Context) (state []byte, err error) {
 	cmd.Env = append(cmd.Env, fmt.Sprintf("MACHINE_NAME=%s", w.machine.Name()))
 	cmd.Env = append(cmd.Env, fmt.Sprintf("PATH=%s%s%s", os.Getenv("PATH"), string(os.PathListSeparator), w.machine.Directory()))
 	cmd.Dir = w.machine.Directory()
+	// children that keep the output open must not delay us beyond the timeout
+	cmd.WaitDelay = time.Second
 
 	output, err := cmd.CombinedOutput()
 	if err != nil {
diff --git a/aagent/watchers/nagioswatcher/nagios.go b/aagent/watchers/nagioswatcher/nagios.go
index 2a8aa88..f6c6ebf 100644
--- a/aagent/watchers/nagioswatcher/nagios.go
+++ b/aagent/watchers/nagioswatcher/nagios.go
@@ -424,6 +424,8 @@ func (w *Watcher) watchUsingPlugin(ctx context.Context) (state State, output str
 	cmd.Env = append(cmd.Env, fmt.Sprintf("MACHINE_NAME=%s", w.machineName))
 	cmd.Env = append(cmd.Env, fmt.Sprintf("PATH=%s%s%s", os.Getenv("PATH"), string(os.PathListSeparator), w.machine.Directory()))
 	cmd.Dir = w.machine.Directory()
+	// children that keep the output open must not delay us beyond the timeout
+	cmd.WaitDelay = w.properties.Timeout
 
 	var pstate *os.ProcessState
 
-- 
2.43.0


From c9be33093dd1a853edf84efdec6b3428300f2464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:48 +0000
Subject: [PATCH 064/110] fix: do not crash on metric output with null labels
 or metrics

---
 aagent/watchers/metricwatcher/metric.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/aagent/watchers/metricwatcher/metric.go b/aagent/watchers/metricwatcher/metric.go
index be6da94..2606156 100644
--- a/aagent/watchers/metricwatcher/metric.go
+++ b/aagent/watchers/metricwatcher/metric.go
@@ -263,6 +263,14 @@ func (w *Watcher) parseJSONCheck(output []byte) (*Metric, error) {
 		return metric, err
 	}
 
+	// null values in the output unset these
+	if metric.Labels == nil {
+		metric.Labels = map[string]string{"format": "choria"}
+	}
+	if metric.Metrics == nil {
+		metric.Metrics = map[string]float64{}
+	}
+
 	for k, v := range w.properties.Labels {
 		metric.Labels[k] = v
 	}
-- 
2.43.0


From 4ec350e6ec6c59115736efd74f29201220c7ba62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:52 +0000
Subject: [PATCH 065/110] fix: do not modify metrics that are shared with
 prometheus and machine data

---
 aagent/watchers/metricwatcher/metric.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/aagent/watchers/metricwatcher/metric.go b/aagent/watchers/metricwatcher/metric.go
index 2606156..9a7b680 100644
--- a/aagent/watchers/metricwatcher/metric.go
+++ b/aagent/watchers/metricwatcher/metric.go
@@ -437,7 +437,24 @@ func (w *Watcher) LastMetric() model.HttpMetric {
 		}
 	}
 
-	return w.previousResult
+	return w.previousWithRuntime()
+}
+
+// previousWithRuntime is a copy of the previous result with the runtime added, the result
+// itself is shared with the prometheus state and machine data and so must not be changed.
+// Locks should be held by the caller
+func (w *Watcher) previousWithRuntime() *Metric {
+	res := &Metric{
+		Labels:  w.previousResult.Labels,
+		Metrics: make(map[string]float64, len(w.previousResult.Metrics)+1),
+		Time:    w.previousResult.Time,
+	}
+	for k, v := range w.previousResult.Metrics {
+		res.Metrics[k] = v
+	}
+	res.Metrics["choria_runtime_seconds"] = w.previousRunTime.Seconds()
+
+	return res
 }
 
 func (w *Watcher) removeFromHTTP() {
@@ -474,14 +491,12 @@ func (w *Watcher) CurrentState() any {
 	if w.previousResult == nil {
 		res = Metric{
 			Labels:  make(map[string]string),
-			Metrics: make(map[string]float64),
+			Metrics: map[string]float64{"choria_runtime_seconds": w.previousRunTime.Seconds()},
 		}
 	} else {
-		res = *w.previousResult
+		res = *w.previousWithRuntime()
 	}
 
-	res.Metrics["choria_runtime_seconds"] = w.previousRunTime.Seconds()
-
 	s := &StateNotification{
 		Event:   event.New(w.name, wtype, version, w.machine),
 		Metrics: res,
-- 
2.43.0


From 095fbdefbc7825c56ae61cefc56b879bebb17430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:29 +0000
Subject: [PATCH 066/110] fix: refuse certificates that cannot be verified
 because they or the CA are not usable PEM data

---
 providers/security/filesec/file_security.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/providers/security/filesec/file_security.go b/providers/security/filesec/file_security.go
index 4f49d8b..d98124b 100644
--- a/providers/security/filesec/file_security.go
+++ b/providers/security/filesec/file_security.go
@@ -353,12 +353,14 @@ func (s *FileSecurity) VerifyCertificate(certpem []byte, name string) error {
 
 	roots := x509.NewCertPool()
 	if !roots.AppendCertsFromPEM(capem) {
+		err = fmt.Errorf("no certificates found in CA %s", ca)
 		s.log.Warnf("Could not use CA '%s' as PEM data: %s", ca, err)
 		return err
 	}
 
 	block, _ := pem.Decode(certpem)
 	if block == nil {
+		err = errors.New("invalid pem data")
 		s.log.Warnf("Could not decode certificate '%s' PEM data: %s", name, err)
 		return err
 	}
@@ -371,6 +373,7 @@ func (s *FileSecurity) VerifyCertificate(certpem []byte, name string) error {
 
 	intermediates := x509.NewCertPool()
 	if !intermediates.AppendCertsFromPEM(certpem) {
+		err = errors.New("no certificates found in pem data")
 		s.log.Warnf("Could not add intermediates: %s", err)
 		return err
 	}
@@ -693,6 +696,7 @@ func (s *FileSecurity) ShouldAllowCaller(name string, callers ...[]byte) (privil
 func (s *FileSecurity) certDNSNames(certpem []byte) (names []string, err error) {
 	block, _ := pem.Decode(certpem)
 	if block == nil {
+		err = errors.New("invalid pem data")
 		s.log.Warnf("Could not decode certificate PEM data: %s", err)
 		return names, err
 	}
-- 
2.43.0


From efd08cc6dcfb8d2f9e76272cfed0c3402cd81a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:29 +0000
Subject: [PATCH 067/110] fix: do not crash on signatures by certificates that
 are not RSA

---
 providers/security/filesec/file_security.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/providers/security/filesec/file_security.go b/providers/security/filesec/file_security.go
index d98124b..e68af0b 100644
--- a/providers/security/filesec/file_security.go
+++ b/providers/security/filesec/file_security.go
@@ -293,7 +293,12 @@ func (s *FileSecurity) VerifySignatureBytes(dat []byte, sig []byte, public ...[]
 		return false, ""
 	}
 
-	rsaPublicKey := cert.PublicKey.(*rsa.PublicKey)
+	rsaPublicKey, ok := cert.PublicKey.(*rsa.PublicKey)
+	if !ok {
+		s.log.Errorf("Could not verify signature: unhandled public key type %T", cert.PublicKey)
+		return false, ""
+	}
+
 	hashed := s.ChecksumBytes(dat)
 
 	err = rsa.VerifyPKCS1v15(rsaPublicKey, crypto.SHA256, hashed[:], sig)
-- 
2.43.0


From 5bbd6c09f0bb10bf10df3958a1302314a9b1b10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:29 +0000
Subject: [PATCH 068/110] fix: do not crash when enrolling with a private key
 file that is not PEM data

---
 providers/security/puppetsec/puppet_security.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/providers/security/puppetsec/puppet_security.go b/providers/security/puppetsec/puppet_security.go
index b3aef59..005ee9c 100644
--- a/providers/security/puppetsec/puppet_security.go
+++ b/providers/security/puppetsec/puppet_security.go
@@ -636,7 +636,7 @@ func (s *PuppetSecurity) readPrivateKey() (*rsa.PrivateKey, error) {
 	}
 
 	privPem, _ := pem.Decode(pd)
-	if privPem.Type != "RSA PRIVATE KEY" {
+	if privPem == nil || privPem.Type != "RSA PRIVATE KEY" {
 		return nil, fmt.Errorf("key file %s did not contain a private key", s.privateKeyPath())
 	}
 
-- 
2.43.0


From e51a296b648b3cf53e4861cce46012ce154a6715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:35 +0000
Subject: [PATCH 069/110] fix: do not allow external agents to take reserved
 names using a differently named file

---
 providers/agent/mcorpc/external/provider.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/providers/agent/mcorpc/external/provider.go b/providers/agent/mcorpc/external/provider.go
index 57016e9..850535b 100644
--- a/providers/agent/mcorpc/external/provider.go
+++ b/providers/agent/mcorpc/external/provider.go
@@ -316,8 +316,8 @@ func (p *Provider) eachAgent(cb func(ddl *agent.DDL)) {
 				return nil
 			}
 
-			if !shouldLoadAgent(name) {
-				p.log.Warnf("External agents are not allowed to supply an agent called '%s', skipping", name)
+			if !shouldLoadAgent(name) || !shouldLoadAgent(ddl.Metadata.Name) {
+				p.log.Warnf("External agents are not allowed to supply an agent called '%s', skipping", ddl.Metadata.Name)
 				return retErr
 			}
 
-- 
2.43.0


From 9a9f69d9383d42641c3342554e0fc0bbfb563bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:35 +0000
Subject: [PATCH 070/110] fix: do not stall external agents that write very
 long lines

---
 providers/agent/mcorpc/external/agent.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/providers/agent/mcorpc/external/agent.go b/providers/agent/mcorpc/external/agent.go
index 009601e..894125c 100644
--- a/providers/agent/mcorpc/external/agent.go
+++ b/providers/agent/mcorpc/external/agent.go
@@ -301,6 +301,9 @@ func (p *Provider) executeRequest(ctx context.Context, command string, protocol
 		for scanner.Scan() {
 			logger(scanner.Text())
 		}
+
+		// the scanner gives up on very long lines, the agent must not get stuck writing its output
+		io.Copy(io.Discard, in)
 	}
 
 	wg.Add(1)
-- 
2.43.0


From c6096da93cdf0e9b2f661e8322e6bb38761a4140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:35 +0000
Subject: [PATCH 071/110] fix: do not crash when several external agents are
 removed at once

---
 providers/agent/mcorpc/external/provider.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/providers/agent/mcorpc/external/provider.go b/providers/agent/mcorpc/external/provider.go
index 850535b..50d5e3c 100644
--- a/providers/agent/mcorpc/external/provider.go
+++ b/providers/agent/mcorpc/external/provider.go
@@ -94,9 +94,9 @@ func (p *Provider) upgradeExistingAgents(foundAgents []*agent.DDL, mgr server.Ag
 }
 
 func (p *Provider) removeOrphanAgents(foundAgents []*agent.DDL, mgr server.AgentManager, connector inter.AgentConnector) error {
-	var remove []int
+	var keep []*agent.DDL
 
-	for i, known := range p.agents {
+	for _, known := range p.agents {
 		found := findInAgentList(foundAgents, func(a *agent.DDL) bool {
 			return a.Metadata.Name == known.Metadata.Name
 		})
@@ -106,18 +106,19 @@ func (p *Provider) removeOrphanAgents(foundAgents []*agent.DDL, mgr server.Agent
 			err := mgr.UnregisterAgent(known.Metadata.Name, connector)
 			if err != nil {
 				p.log.Errorf("Could not unregister agent %v: %v", known.Metadata.Name, err)
+				keep = append(keep, known)
 				continue
 			}
 
 			delete(p.paths, known.Metadata.Name)
-			remove = append(remove, i)
+			continue
 		}
-	}
 
-	for _, i := range remove {
-		p.agents = append(p.agents[:i], p.agents[i+1:]...)
+		keep = append(keep, known)
 	}
 
+	p.agents = keep
+
 	return nil
 }
 
-- 
2.43.0


From 5c0278c7cfe19f3b52fceb309f44c3d941620092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:35 +0000
Subject: [PATCH 072/110] fix: do not crash on external agent DDLs without
 metadata

---
 providers/agent/mcorpc/external/provider.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/providers/agent/mcorpc/external/provider.go b/providers/agent/mcorpc/external/provider.go
index 50d5e3c..6cd19c6 100644
--- a/providers/agent/mcorpc/external/provider.go
+++ b/providers/agent/mcorpc/external/provider.go
@@ -313,6 +313,11 @@ func (p *Provider) eachAgent(cb func(ddl *agent.DDL)) {
 				return retErr
 			}
 
+			if ddl.Metadata == nil {
+				p.log.Errorf("Could not load agent DDL %s: no metadata", ddlPath)
+				return retErr
+			}
+
 			if ddl.Metadata.Provider != "external" {
 				return nil
 			}
-- 
2.43.0


From b454f7e1ddf24dd7f02e3be9680968d6f0ceb3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:35 +0000
Subject: [PATCH 073/110] fix: do not crash on external agent DDLs that declare
 an action twice

---
 providers/agent/mcorpc/external/agent.go    | 3 +--
 providers/agent/mcorpc/external/provider.go | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/providers/agent/mcorpc/external/agent.go b/providers/agent/mcorpc/external/agent.go
index 894125c..d050277 100644
--- a/providers/agent/mcorpc/external/agent.go
+++ b/providers/agent/mcorpc/external/agent.go
@@ -77,11 +77,10 @@ func (p *Provider) newExternalAgent(ddl *agentddl.DDL, mgr server.AgentManager)
 	p.log.Debugf("Registering proxy actions for External agent %s: %s", ddl.Metadata.Name, strings.Join(ddl.ActionNames(), ", "))
 
 	for _, action := range ddl.Actions {
+		err = agent.RegisterAction(action.Name, p.externalAction)
 		if err != nil {
 			return nil, err
 		}
-
-		agent.MustRegisterAction(action.Name, p.externalAction)
 	}
 
 	return agent, nil
diff --git a/providers/agent/mcorpc/external/provider.go b/providers/agent/mcorpc/external/provider.go
index 6cd19c6..f82ed4a 100644
--- a/providers/agent/mcorpc/external/provider.go
+++ b/providers/agent/mcorpc/external/provider.go
@@ -132,7 +132,7 @@ func (p *Provider) registerNewAgents(ctx context.Context, foundAgents []*agent.D
 			p.log.Debugf("Registering new agent %v version %v from %s", candidateDDL.Metadata.Name, candidateDDL.Metadata.Version, candidateDDL.SourceLocation)
 			agent, err := p.newExternalAgent(candidateDDL, mgr)
 			if err != nil {
-				p.log.Errorf("Could not register external agent %s: %s", agent.Name(), err)
+				p.log.Errorf("Could not register external agent %s: %s", candidateDDL.Metadata.Name, err)
 				continue
 			}
 
-- 
2.43.0


From 0240d97e96dc71de27b2884fd3c7ff2e07aafc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:35 +0000
Subject: [PATCH 074/110] fix: do not keep replacing external agents that exist
 in more than one directory

---
 providers/agent/mcorpc/external/provider.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/providers/agent/mcorpc/external/provider.go b/providers/agent/mcorpc/external/provider.go
index f82ed4a..95d9c68 100644
--- a/providers/agent/mcorpc/external/provider.go
+++ b/providers/agent/mcorpc/external/provider.go
@@ -182,6 +182,13 @@ func (p *Provider) reconcileAgents(ctx context.Context, mgr server.AgentManager,
 			return
 		}
 
+		// the first one found wins, else those in different directories would keep replacing each other
+		known := findInAgentList(foundAgents, func(a *agent.DDL) bool { return a.Metadata.Name == candidateDDL.Metadata.Name })
+		if known != nil {
+			p.log.Debugf("Ignoring agent %s in %s, already found in %s", candidateDDL.Metadata.Name, candidateDDL.SourceLocation, known.SourceLocation)
+			return
+		}
+
 		foundAgents = append(foundAgents, candidateDDL)
 	})
 
-- 
2.43.0


From df3cc83015ada27045025afcdc5bae35265c34bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:56 +0000
Subject: [PATCH 075/110] fix: activate external agents that were inactive
 before when they are changed or installed again

---
 providers/agent/mcorpc/external/provider.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/providers/agent/mcorpc/external/provider.go b/providers/agent/mcorpc/external/provider.go
index 95d9c68..db92d5d 100644
--- a/providers/agent/mcorpc/external/provider.go
+++ b/providers/agent/mcorpc/external/provider.go
@@ -39,6 +39,9 @@ type Provider struct {
 	agents []*agent.DDL
 	paths  map[string]string
 	mu     sync.Mutex
+
+	// agents that are known but were not activated, these are not known to the agent manager
+	inactive map[string]bool
 }
 
 // Initialize configures the agent provider
@@ -55,7 +58,7 @@ func (p *Provider) RegisterAgents(ctx context.Context, mgr server.AgentManager,
 	return nil
 }
 
-func (p *Provider) upgradeExistingAgents(foundAgents []*agent.DDL, mgr server.AgentManager) error {
+func (p *Provider) upgradeExistingAgents(ctx context.Context, foundAgents []*agent.DDL, mgr server.AgentManager, connector inter.AgentConnector) error {
 	for i, currentDDL := range p.agents {
 		candidateDDL := findInAgentList(foundAgents, func(a *agent.DDL) bool {
 			if a.Metadata.Name != currentDDL.Metadata.Name {
@@ -81,6 +84,10 @@ func (p *Provider) upgradeExistingAgents(foundAgents []*agent.DDL, mgr server.Ag
 		}
 
 		err = mgr.ReplaceAgent(candidateDDL.Metadata.Name, newAgent)
+		if err != nil && p.inactive[candidateDDL.Metadata.Name] {
+			// the previous version was never activated so there is nothing to replace
+			err = mgr.RegisterAgent(ctx, candidateDDL.Metadata.Name, newAgent, connector)
+		}
 		if err != nil {
 			p.log.Errorf("Could not replace upgraded external agent %v: %v", candidateDDL.Metadata.Name, err)
 			continue
@@ -88,6 +95,7 @@ func (p *Provider) upgradeExistingAgents(foundAgents []*agent.DDL, mgr server.Ag
 
 		p.agents[i] = candidateDDL
 		p.paths[candidateDDL.Metadata.Name] = candidateDDL.SourceLocation
+		p.inactive[candidateDDL.Metadata.Name] = !newAgent.ShouldActivate()
 	}
 
 	return nil
@@ -104,13 +112,14 @@ func (p *Provider) removeOrphanAgents(foundAgents []*agent.DDL, mgr server.Agent
 		if found == nil {
 			p.log.Infof("Removing agent %s after the DDL %s was removed", known.Metadata.Name, known.SourceLocation)
 			err := mgr.UnregisterAgent(known.Metadata.Name, connector)
-			if err != nil {
+			if err != nil && !p.inactive[known.Metadata.Name] {
 				p.log.Errorf("Could not unregister agent %v: %v", known.Metadata.Name, err)
 				keep = append(keep, known)
 				continue
 			}
 
 			delete(p.paths, known.Metadata.Name)
+			delete(p.inactive, known.Metadata.Name)
 			continue
 		}
 
@@ -144,6 +153,7 @@ func (p *Provider) registerNewAgents(ctx context.Context, foundAgents []*agent.D
 
 			p.agents = append(p.agents, candidateDDL)
 			p.paths[candidateDDL.Metadata.Name] = candidateDDL.SourceLocation
+			p.inactive[candidateDDL.Metadata.Name] = !agent.ShouldActivate()
 		}
 	}
 
@@ -176,6 +186,10 @@ func (p *Provider) reconcileAgents(ctx context.Context, mgr server.AgentManager,
 
 	p.log.Debugf("Reconciling external agents from disk with running agents")
 
+	if p.inactive == nil {
+		p.inactive = make(map[string]bool)
+	}
+
 	var foundAgents []*agent.DDL
 	p.eachAgent(func(candidateDDL *agent.DDL) {
 		if candidateDDL.SourceLocation == "" {
@@ -199,7 +213,7 @@ func (p *Provider) reconcileAgents(ctx context.Context, mgr server.AgentManager,
 		p.log.Warnf("Could not register new agents: %v", err)
 	}
 
-	err = p.upgradeExistingAgents(foundAgents, mgr)
+	err = p.upgradeExistingAgents(ctx, foundAgents, mgr, connector)
 	if err != nil {
 		p.log.Warnf("Could not upgrade existing agents: %v", err)
 	}
-- 
2.43.0


From dca1f4f1316972a7b9e7837669ab1bdb4c339039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:25 +0000
Subject: [PATCH 076/110] fix: do not act when the machine left the states of a
 watcher while it waited for a Governor slot

---
 aagent/watchers/archivewatcher/archive.go         | 5 +++++
 aagent/watchers/ccmmanifestwatcher/ccmmanifest.go | 5 +++++
 aagent/watchers/execwatcher/exec.go               | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/aagent/watchers/archivewatcher/archive.go b/aagent/watchers/archivewatcher/archive.go
index 336b093..b850722 100644
--- a/aagent/watchers/archivewatcher/archive.go
+++ b/aagent/watchers/archivewatcher/archive.go
@@ -217,6 +217,11 @@ func (w *Watcher) watch(ctx context.Context) (state State, err error) {
 			return Error, err
 		}
 		defer fin()
+
+		// the machine might have left our states while we waited for the slot
+		if !w.ShouldWatch() {
+			return Skipped, nil
+		}
 	}
 
 	timeout, cancel := context.WithTimeout(ctx, w.properties.Timeout)
diff --git a/aagent/watchers/ccmmanifestwatcher/ccmmanifest.go b/aagent/watchers/ccmmanifestwatcher/ccmmanifest.go
index 79e6814..0fafb4d 100644
--- a/aagent/watchers/ccmmanifestwatcher/ccmmanifest.go
+++ b/aagent/watchers/ccmmanifestwatcher/ccmmanifest.go
@@ -244,6 +244,11 @@ func (w *Watcher) watch(ctx context.Context) (state State, err error) {
 			return Error, err
 		}
 		defer fin()
+
+		// the machine might have left our states while we waited for the slot
+		if !w.ShouldWatch() {
+			return Skipped, nil
+		}
 	}
 
 	start := time.Now()
diff --git a/aagent/watchers/execwatcher/exec.go b/aagent/watchers/execwatcher/exec.go
index 9e15f3c..5db2f15 100644
--- a/aagent/watchers/execwatcher/exec.go
+++ b/aagent/watchers/execwatcher/exec.go
@@ -257,6 +257,11 @@ func (w *Watcher) watch(ctx context.Context) (state State, err error) {
 			return Error, err
 		}
 		defer fin()
+
+		// the machine might have left our states while we waited for the slot
+		if !w.ShouldWatch() {
+			return Skipped, nil
+		}
 	}
 
 	start := time.Now()
-- 
2.43.0


From d8ed1bf850ae6d76a870b016b623e43dba4c3dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:23 +0000
Subject: [PATCH 077/110] fix: expose the switches and metrics of machines on
 the autonomous agent host HTTP port

---
 aagent/aagent.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/aagent/aagent.go b/aagent/aagent.go
index 090f6af..ceeeec2 100644
--- a/aagent/aagent.go
+++ b/aagent/aagent.go
@@ -58,13 +58,25 @@ func New(dir string, fw model.ChoriaProvider) (aa *AAgent, err error) {
 		return nil, fmt.Errorf("could not create notifier: %s", err)
 	}
 
-	return &AAgent{
+	aa = &AAgent{
 		fw:       fw,
 		logger:   fw.Logger("aagent"),
 		source:   dir,
 		machines: []*managedMachine{},
 		notifier: n,
-	}, nil
+	}
+
+	// created before any machine is loaded so that all of them can expose their watchers
+	httpPort := fw.MachineHTTPPort()
+	if httpPort != 0 {
+		srv, err := aahttp.NewHTTPServer(aa.logger.WithField("port", httpPort))
+		if err != nil {
+			return nil, fmt.Errorf("could not create Autonomous Agent HTTP listeners: %s", err)
+		}
+		aa.httpManager = srv
+	}
+
+	return aa, nil
 }
 
 func (a *AAgent) startHTTPListeners(ctx context.Context, wg *sync.WaitGroup) {
@@ -72,18 +84,12 @@ func (a *AAgent) startHTTPListeners(ctx context.Context, wg *sync.WaitGroup) {
 
 	httpPort := a.fw.MachineHTTPPort()
 
-	if httpPort == 0 {
+	if httpPort == 0 || a.httpManager == nil {
 		return
 	}
 
 	a.logger.Infof("Starting Autonomous Agent HTTP listeners on port %d", httpPort)
 
-	var err error
-	a.httpManager, err = aahttp.NewHTTPServer(a.logger.WithField("port", httpPort))
-	if err != nil {
-		a.logger.Errorf("Could not start Autonomous Agent HTTP listeners: %s", err)
-	}
-
 	mux := http.NewServeMux()
 	mux.Handle(HTTPSwitchHandlerPattern, aahttp.LoggingMiddleware(a.logger, http.HandlerFunc(a.httpManager.SwitchHandler)))
 	mux.Handle(HTTPMetricHandlerPattern, aahttp.LoggingMiddleware(a.logger, http.HandlerFunc(a.httpManager.MetricHandler)))
@@ -98,7 +104,7 @@ func (a *AAgent) startHTTPListeners(ctx context.Context, wg *sync.WaitGroup) {
 	stop := context.AfterFunc(ctx, func() { srv.Close() })
 	defer stop()
 
-	err = srv.ListenAndServe()
+	err := srv.ListenAndServe()
 	if errors.Is(err, http.ErrServerClosed) {
 		return
 	}
@@ -146,6 +152,7 @@ func (a *AAgent) configureMachine(aa *machine.Machine) {
 	aa.SetSignerKey(a.fw.MachineSignerKey())
 	aa.SetExternalMachineNotifier(a.notifyMachinesAfterTransition)
 	aa.SetExternalMachineStateQuery(a.machineStateLookup)
+	aa.SetHttpManager(a.httpManager)
 }
 
 func (a *AAgent) notifyMachinesAfterTransition(event *machine.TransitionNotification) {
-- 
2.43.0


From c5b277ad92d7ef59c0b370aec75c6287b66ec4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:27 +0000
Subject: [PATCH 078/110] fix: report that a switch is off after it was turned
 off over HTTP

---
 aagent/watchers/httpswitchwatcher/httpswitch.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aagent/watchers/httpswitchwatcher/httpswitch.go b/aagent/watchers/httpswitchwatcher/httpswitch.go
index 96328a9..a4d44a0 100644
--- a/aagent/watchers/httpswitchwatcher/httpswitch.go
+++ b/aagent/watchers/httpswitchwatcher/httpswitch.go
@@ -83,6 +83,7 @@ func New(machine model.Machine, name string, states []string, required []model.F
 	return mw, nil
 }
 
+// TurnOn presses the on button, true indicates the switch will be on
 func (w *Watcher) TurnOn() (bool, error) {
 	if w.shouldBeDisabled(w.machine.State()) {
 		return false, fmt.Errorf("watcher is disabled")
@@ -95,6 +96,8 @@ func (w *Watcher) TurnOn() (bool, error) {
 
 	return true, nil
 }
+
+// TurnOff presses the off button, false indicates the switch will not be on
 func (w *Watcher) TurnOff() (bool, error) {
 	if w.shouldBeDisabled(w.machine.State()) {
 		return false, fmt.Errorf("watcher is disabled")
@@ -105,7 +108,7 @@ func (w *Watcher) TurnOff() (bool, error) {
 
 	w.buttonPress <- Off
 
-	return true, nil
+	return false, nil
 }
 
 func (w *Watcher) registerWithHTTP() {
-- 
2.43.0


From efd1eb6724982e7873d0857017bdde9fcdf76bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:27 +0000
Subject: [PATCH 079/110] fix: do not append a null response to errors about
 unknown switches

---
 aagent/http/http.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aagent/http/http.go b/aagent/http/http.go
index 9548671..856b125 100644
--- a/aagent/http/http.go
+++ b/aagent/http/http.go
@@ -203,6 +203,7 @@ func (s *HTTPServer) switchGetHandler(w http.ResponseWriter, r *http.Request) {
 	if err != nil {
 		w.WriteHeader(http.StatusBadRequest)
 		w.Write([]byte(err.Error()))
+		return
 	}
 
 	j, err := json.Marshal(resp)
-- 
2.43.0


From 6757961214192cb95d71434c3e09f15e2f10a10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:27 +0000
Subject: [PATCH 080/110] fix: only expose metrics over HTTP when the watcher
 asks for it

---
 aagent/watchers/metricwatcher/metric.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aagent/watchers/metricwatcher/metric.go b/aagent/watchers/metricwatcher/metric.go
index 9a7b680..e698c7b 100644
--- a/aagent/watchers/metricwatcher/metric.go
+++ b/aagent/watchers/metricwatcher/metric.go
@@ -471,7 +471,7 @@ func (w *Watcher) registerWithHTTP() {
 	w.mu.Lock()
 	defer w.mu.Unlock()
 
-	if w.httpStarted {
+	if w.httpStarted || !w.properties.HTTP {
 		return
 	}
 
-- 
2.43.0


From 75adf251e7ecd9cb8dc14995e39a9df7a4521bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:27 +0000
Subject: [PATCH 081/110] fix: do not block switches forever when a press
 arrives while the machine changes state

---
 aagent/watchers/httpswitchwatcher/httpswitch.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/aagent/watchers/httpswitchwatcher/httpswitch.go b/aagent/watchers/httpswitchwatcher/httpswitch.go
index a4d44a0..61defc9 100644
--- a/aagent/watchers/httpswitchwatcher/httpswitch.go
+++ b/aagent/watchers/httpswitchwatcher/httpswitch.go
@@ -130,7 +130,7 @@ func (w *Watcher) Run(ctx context.Context, wg *sync.WaitGroup) {
 	defer wg.Done()
 
 	if w.ShouldWatch() {
-		w.Watcher.StateChangeC() <- struct{}{}
+		w.NotifyStateChance()
 	}
 
 	for {
@@ -148,12 +148,17 @@ func (w *Watcher) Run(ctx context.Context, wg *sync.WaitGroup) {
 		case <-w.Watcher.StateChangeC():
 			mstate := w.machine.State()
 
+			// handled here, a pending press would block us forever should we press the button
+			var err error
 			switch {
 			case w.shouldBeOn(mstate):
-				w.buttonPress <- OnNoTransition
+				err = w.handleStateChange(OnNoTransition)
 
 			case w.shouldBeOff(mstate):
-				w.buttonPress <- OffNoTransition
+				err = w.handleStateChange(OffNoTransition)
+			}
+			if err != nil {
+				w.Errorf("Could not handle machine state %s: %v", mstate, err)
 			}
 
 		case <-ctx.Done():
-- 
2.43.0


From 42f48ff04fbb9366aa2cdcd87100a69e0224ca57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:37 +0000
Subject: [PATCH 082/110] fix: do not deadlock when deleting machines with
 metric or switch watchers

---
 aagent/machine/machine.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aagent/machine/machine.go b/aagent/machine/machine.go
index eb03d94..d7622db 100644
--- a/aagent/machine/machine.go
+++ b/aagent/machine/machine.go
@@ -690,11 +690,12 @@ func (m *Machine) IsStarted() bool {
 // Delete deletes a running machine by canceling its context and giving its manager
 // a change to do clean up before final termination
 func (m *Machine) Delete() {
+	// not while locked, watchers access the machine while they are being deleted
+	m.manager.Delete()
+
 	m.Lock()
 	defer m.Unlock()
 
-	m.manager.Delete()
-
 	if m.backoffTimer != nil {
 		m.backoffTimer.Stop()
 	}
-- 
2.43.0


From 3bda388f728a44f6984e4ca2693a78ef4e9c00ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:36 +0000
Subject: [PATCH 083/110] fix: do not hide replaced switches and metrics when
 their predecessor ends late

---
 aagent/http/http.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aagent/http/http.go b/aagent/http/http.go
index 856b125..796d25d 100644
--- a/aagent/http/http.go
+++ b/aagent/http/http.go
@@ -358,8 +358,8 @@ func (s *HTTPServer) RemoveSwitchWatcher(machine string, watcher model.HttpSwitc
 	s.Lock()
 	defer s.Unlock()
 
-	_, ok := s.switches[machine]
-	if ok {
+	// one with the same name that replaced it stays
+	if s.switches[machine][watcher.Name()] == watcher {
 		s.logger.Infof("Removing switch watcher %s#%s from HTTP", machine, watcher.Name())
 		delete(s.switches[machine], watcher.Name())
 	}
@@ -382,8 +382,8 @@ func (s *HTTPServer) RemoveMetricWatcher(machine string, watcher model.MetricWat
 	s.Lock()
 	defer s.Unlock()
 
-	_, ok := s.metrics[machine]
-	if ok {
+	// one with the same name that replaced it stays
+	if s.metrics[machine][watcher.Name()] == watcher {
 		s.logger.Infof("Removing metric watcher %s#%s from HTTP", machine, watcher.Name())
 		delete(s.metrics[machine], watcher.Name())
 	}
-- 
2.43.0


From 8949e4dad5e5401ec52d164ca44c6a37911ea998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:27 +0000
Subject: [PATCH 084/110] fix: hide metrics that stop before they are gathered
 first

---
 aagent/watchers/metricwatcher/metric.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aagent/watchers/metricwatcher/metric.go b/aagent/watchers/metricwatcher/metric.go
index e698c7b..88691d2 100644
--- a/aagent/watchers/metricwatcher/metric.go
+++ b/aagent/watchers/metricwatcher/metric.go
@@ -133,6 +133,7 @@ func (w *Watcher) Run(ctx context.Context, wg *sync.WaitGroup) {
 	case <-time.NewTimer(splay).C:
 		w.performWatch(ctx)
 	case <-ctx.Done():
+		w.removeFromHTTP()
 		return
 	}
 
-- 
2.43.0


From dd1fdd38d26e246ca2664305397887a4217fb445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:17 +0000
Subject: [PATCH 085/110] fix: start a single gossip announcer per stay and
 never lose it

---
 aagent/watchers/gossipwatcher/gossip.go | 41 ++++++++-----------------
 1 file changed, 13 insertions(+), 28 deletions(-)

diff --git a/aagent/watchers/gossipwatcher/gossip.go b/aagent/watchers/gossipwatcher/gossip.go
index aa22aef..ee7bddd 100644
--- a/aagent/watchers/gossipwatcher/gossip.go
+++ b/aagent/watchers/gossipwatcher/gossip.go
@@ -123,6 +123,7 @@ func (w *Watcher) getConn() (*nats.Conn, error) {
 func (w *Watcher) stopGossip() {
 	w.mu.Lock()
 	cancel := w.gossipCancel
+	w.gossipCancel = nil
 	w.state = Stopped
 	w.mu.Unlock()
 
@@ -134,39 +135,25 @@ func (w *Watcher) stopGossip() {
 
 func (w *Watcher) startGossip() {
 	w.mu.Lock()
-	cancel := w.gossipCancel
-	ctx := w.runCtx
-	w.mu.Unlock()
-
-	if cancel != nil {
+	if w.gossipCancel != nil {
+		w.mu.Unlock()
 		return
 	}
 
-	go func() {
-		tick := time.NewTicker(w.interval)
-		gCtx, cancel := context.WithCancel(ctx)
-
-		var err error
-
-		w.mu.Lock()
-		w.state = Running
-		w.gossipCancel = cancel
-		w.mu.Unlock()
+	// recorded before the gossip starts so that a stop, or another start, that follows at once sees it
+	gCtx, cancel := context.WithCancel(w.runCtx)
+	w.gossipCancel = cancel
+	w.state = Running
+	w.mu.Unlock()
 
-		if err != nil {
-			w.Errorf("Could not get a NATS connection to publish Gossip")
-		}
+	go func() {
+		defer cancel()
 
-		stop := func() {
-			w.mu.Lock()
-			w.gossipCancel = nil
-			w.state = Stopped
-			tick.Stop()
-			w.mu.Unlock()
-		}
+		tick := time.NewTicker(w.interval)
+		defer tick.Stop()
 
 		publish := func() {
-			if !w.ShouldWatch() {
+			if gCtx.Err() != nil || !w.ShouldWatch() {
 				return
 			}
 
@@ -213,10 +200,8 @@ func (w *Watcher) startGossip() {
 			case <-tick.C:
 				publish()
 			case <-gCtx.Done():
-				stop()
 				return
 			case <-w.terminate:
-				stop()
 				return
 			}
 		}
-- 
2.43.0


From 00a8f6a0d9ab8e7a465becbb86be219dc604b5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:17 +0000
Subject: [PATCH 086/110] fix: refuse negative gossip intervals instead of
 crashing

---
 aagent/watchers/gossipwatcher/gossip.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aagent/watchers/gossipwatcher/gossip.go b/aagent/watchers/gossipwatcher/gossip.go
index ee7bddd..e1a98a0 100644
--- a/aagent/watchers/gossipwatcher/gossip.go
+++ b/aagent/watchers/gossipwatcher/gossip.go
@@ -320,6 +320,10 @@ func (w *Watcher) validate() error {
 		return fmt.Errorf("invalid registration subject")
 	}
 
+	if w.interval < 0 {
+		return fmt.Errorf("interval should not be negative")
+	}
+
 	if w.interval == 0 {
 		w.interval = 15 * time.Second
 	}
-- 
2.43.0


From ee728bfe1a7a503aa5b696cbd0777950e356b389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:58 +0000
Subject: [PATCH 087/110] fix: do not crash on a restart request with a
 negative splay

---
 providers/agent/mcorpc/golang/provision/restart_action.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/providers/agent/mcorpc/golang/provision/restart_action.go b/providers/agent/mcorpc/golang/provision/restart_action.go
index f9f2b2d..5536d29 100644
--- a/providers/agent/mcorpc/golang/provision/restart_action.go
+++ b/providers/agent/mcorpc/golang/provision/restart_action.go
@@ -56,7 +56,7 @@ func restartAction(ctx context.Context, req *mcorpc.Request, reply *mcorpc.Reply
 		return
 	}
 
-	if args.Splay == 0 {
+	if args.Splay <= 0 {
 		args.Splay = 10
 	}
 
-- 
2.43.0


From 61ead7cc411e277e3c183143b1e277e319f0c2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:48 +0000
Subject: [PATCH 088/110] fix: accept single character file names in checksum
 lists

---
 internal/util/sha256sum.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/util/sha256sum.go b/internal/util/sha256sum.go
index 1643bcf..6216bb4 100644
--- a/internal/util/sha256sum.go
+++ b/internal/util/sha256sum.go
@@ -24,7 +24,7 @@ import (
 type FileReportHandler func(file string, ok bool)
 
 var (
-	sumsMatcherRe        = regexp.MustCompile(`^([a-z0-9]+)\s+(\S.+)$`)
+	sumsMatcherRe        = regexp.MustCompile(`^([a-z0-9]+)\s+(\S.*)$`)
 	ErrorInvalidSumsFile = fmt.Errorf("invalid sums file")
 	ErrorChecksumError   = fmt.Errorf("could not checksum file")
 )
-- 
2.43.0


From 6a330c4f86a64afafad49ab461c06b56e0cc1139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:17 +0000
Subject: [PATCH 089/110] fix: refuse adapter settings that cannot work instead
 of crashing

---
 broker/adapter/ingest/ingest.go   | 3 +++
 broker/adapter/streams/adapter.go | 3 +++
 broker/adapter/streams/output.go  | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/broker/adapter/ingest/ingest.go b/broker/adapter/ingest/ingest.go
index 97eca3d..e38c6d6 100644
--- a/broker/adapter/ingest/ingest.go
+++ b/broker/adapter/ingest/ingest.go
@@ -50,6 +50,9 @@ func New(name string, work chan Adaptable, fw inter.Framework, logger *logrus.En
 	if err != nil {
 		return nil, fmt.Errorf("%s should be a integer number", prefix+"workers")
 	}
+	if instances < 1 {
+		return nil, fmt.Errorf("%s should be at least 1", prefix+"workers")
+	}
 
 	topic := cfg.Option(prefix+"topic", "")
 	if topic == "" {
diff --git a/broker/adapter/streams/adapter.go b/broker/adapter/streams/adapter.go
index 0e2d645..88eedf4 100644
--- a/broker/adapter/streams/adapter.go
+++ b/broker/adapter/streams/adapter.go
@@ -60,6 +60,9 @@ func Create(name string, choria inter.Framework) (adapter *Streams, err error) {
 	if err != nil {
 		return nil, fmt.Errorf("%s should be a integer number", s)
 	}
+	if worklen < 0 {
+		return nil, fmt.Errorf("%s should not be negative", s)
+	}
 
 	stats.WorkQueueCapacityGauge.WithLabelValues(name, cfg.Identity).Set(float64(worklen))
 
diff --git a/broker/adapter/streams/output.go b/broker/adapter/streams/output.go
index 89aec53..8474bed 100644
--- a/broker/adapter/streams/output.go
+++ b/broker/adapter/streams/output.go
@@ -41,6 +41,9 @@ func newStream(name string, work chan ingest.Adaptable, logger *logrus.Entry) ([
 	if err != nil {
 		return nil, fmt.Errorf("%s should be a integer number", prefix+"workers")
 	}
+	if instances < 1 {
+		return nil, fmt.Errorf("%s should be at least 1", prefix+"workers")
+	}
 
 	servers := cfg.Option(prefix+"servers", "")
 
-- 
2.43.0


From 7688ac51a5d7396b8f21f128883290148a368bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:29 +0000
Subject: [PATCH 090/110] fix: list a node matching several identity filters
 once in flatfile discovery

---
 providers/discovery/flatfile/flatfile.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/providers/discovery/flatfile/flatfile.go b/providers/discovery/flatfile/flatfile.go
index ab3b8b2..4191f2d 100644
--- a/providers/discovery/flatfile/flatfile.go
+++ b/providers/discovery/flatfile/flatfile.go
@@ -120,8 +120,10 @@ func (f *FlatFile) Discover(_ context.Context, opts ...DiscoverOption) (n []stri
 
 	if dopts.filter != nil && len(dopts.filter.Identity) > 0 {
 		matched := []string{}
-		for _, idf := range dopts.filter.Identity {
-			matched = append(matched, identity.FilterNodes(nodes, idf)...)
+		for _, node := range nodes {
+			if identity.Match(dopts.filter.Identity, node) {
+				matched = append(matched, node)
+			}
 		}
 		return matched, nil
 	}
-- 
2.43.0


From b997fb02936941df510ba50aaf5e13ca7cca099d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:29 +0000
Subject: [PATCH 091/110] fix: consider every compound filter in inventory
 discovery

---
 providers/discovery/inventory/inventory.go | 32 ++++++++++++++++------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/providers/discovery/inventory/inventory.go b/providers/discovery/inventory/inventory.go
index dc9bb93..bc57b07 100644
--- a/providers/discovery/inventory/inventory.go
+++ b/providers/discovery/inventory/inventory.go
@@ -149,17 +149,20 @@ func (i *Inventory) isValidGroupLookup(f *protocol.Filter) (grouped bool, err er
 func (i *Inventory) selectMatchingNodes(ctx context.Context, d *DataFile, collective string, f *protocol.Filter) ([]string, error) {
 	var (
 		matched []string
-		query   string
-		prog    *vm.Program
-		err     error
+		progs   []*vm.Program
 	)
 
-	if len(f.CompoundFilters()) > 0 {
-		query = f.CompoundFilters()[0][0]["expr"]
-		prog, err = compound.CompileExprQuery(query, nil)
+	for _, cf := range f.CompoundFilters() {
+		if len(cf) != 1 {
+			return nil, fmt.Errorf("invalid compound filter")
+		}
+
+		prog, err := compound.CompileExprQuery(cf[0]["expr"], nil)
 		if err != nil {
 			return nil, err
 		}
+
+		progs = append(progs, prog)
 	}
 
 	for _, node := range d.Nodes {
@@ -210,9 +213,8 @@ func (i *Inventory) selectMatchingNodes(ctx context.Context, d *DataFile, collec
 			}
 		}
 
-		if len(f.CompoundFilters()) > 0 {
-			b, _ := compound.MatchExprProgram(prog, node.Facts, node.Classes, node.Agents, nil, i.log)
-			if b {
+		if len(progs) > 0 {
+			if i.matchCompound(progs, node) {
 				passed++
 			} else {
 				continue
@@ -227,6 +229,18 @@ func (i *Inventory) selectMatchingNodes(ctx context.Context, d *DataFile, collec
 	return matched, nil
 }
 
+// matchCompound determines if a node matches every one of the compiled compound filters
+func (i *Inventory) matchCompound(progs []*vm.Program, node Node) bool {
+	for _, prog := range progs {
+		b, _ := compound.MatchExprProgram(prog, node.Facts, node.Classes, node.Agents, nil, i.log)
+		if !b {
+			return false
+		}
+	}
+
+	return true
+}
+
 // ReadInventory reads and validates an inventory file
 func ReadInventory(path string, noValidate bool) (*DataFile, error) {
 	var err error
-- 
2.43.0


From aa03cc4744eec75de53a29f6ded4951709486a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:29 +0000
Subject: [PATCH 092/110] fix: wait for the requested timeout in broadcast
 discovery

---
 providers/discovery/broadcast/broadcast.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/providers/discovery/broadcast/broadcast.go b/providers/discovery/broadcast/broadcast.go
index 5d7c3a7..b18a9a5 100644
--- a/providers/discovery/broadcast/broadcast.go
+++ b/providers/discovery/broadcast/broadcast.go
@@ -99,7 +99,7 @@ func (b *Broadcast) Discover(ctx context.Context, opts ...DiscoverOption) (n []s
 
 	// wrapping it ensures the initial connection does not run forever and inherits the parent ^C handling etc
 	// the +2 gives some additional time to the whole request for network connect time etc
-	rctx, cancel := context.WithTimeout(ctx, dopts.timeout+2)
+	rctx, cancel := context.WithTimeout(ctx, dopts.timeout+2*time.Second)
 	defer cancel()
 
 	err = dopts.cl.Request(rctx, dopts.msg, b.handler(ctx, cancel, dopts))
@@ -143,7 +143,7 @@ func (b *Broadcast) handler(ctx context.Context, cancel func(), dopts *dOpts) cl
 	dynamicTimeout := 300 * time.Millisecond
 	if dopts.dynamicTimeout {
 		b.log.Debugf("Configuring dynamic discovery timeout")
-		timer = time.NewTimer(b.timeout)
+		timer = time.NewTimer(dopts.timeout)
 		go func() {
 			select {
 			case <-timer.C:
-- 
2.43.0


From 0d2d184f41cc9ac9d5a87db1cc63fdcc903b8854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:29 +0000
Subject: [PATCH 093/110] fix: handle blank commands, reused options and long
 output lines in external discovery

---
 providers/discovery/external/external.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/providers/discovery/external/external.go b/providers/discovery/external/external.go
index db44d40..4d7473a 100644
--- a/providers/discovery/external/external.go
+++ b/providers/discovery/external/external.go
@@ -92,7 +92,15 @@ func (e *External) Discover(ctx context.Context, opts ...DiscoverOption) (n []st
 	command, ok := dopts.do["command"]
 	if ok && command != "" {
 		dopts.command = command
-		delete(dopts.do, "command")
+
+		// the options belong to the caller who might use them again so we remove the command from a copy only
+		do := make(map[string]string, len(dopts.do))
+		for k, v := range dopts.do {
+			if k != "command" {
+				do[k] = v
+			}
+		}
+		dopts.do = do
 	}
 
 	if dopts.command == "" {
@@ -140,6 +148,9 @@ func (e *External) Discover(ctx context.Context, opts ...DiscoverOption) (n []st
 	if err != nil {
 		return nil, err
 	}
+	if len(parts) == 0 {
+		return nil, fmt.Errorf("no command specified for external discovery")
+	}
 	args = append(args, parts[0])
 	if len(parts) > 1 {
 		args = append(args, parts[1:]...)
@@ -175,6 +186,9 @@ func (e *External) Discover(ctx context.Context, opts ...DiscoverOption) (n []st
 		for scanner.Scan() {
 			logger(scanner.Text())
 		}
+
+		// the scanner stops at very long lines, the command should not block on output no one reads
+		io.Copy(io.Discard, in)
 	}
 
 	wg.Add(1)
-- 
2.43.0


From 4ae13c485a4134eb979d4ed5d3e4d3a145029937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:29 +0000
Subject: [PATCH 094/110] fix: keep escapes and character classes in puppetdb
 discovery regular expressions

---
 providers/discovery/puppetdb/puppetdb.go | 35 ++++++++++++++++++++----
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/providers/discovery/puppetdb/puppetdb.go b/providers/discovery/puppetdb/puppetdb.go
index 3b6d454..cee35a5 100644
--- a/providers/discovery/puppetdb/puppetdb.go
+++ b/providers/discovery/puppetdb/puppetdb.go
@@ -149,16 +149,39 @@ func (p *PuppetDB) stringRegex(s string) string {
 		derived = parts[1]
 	}
 
-	re := ""
+	var (
+		re      strings.Builder
+		escaped bool // the previous byte was a backslash so this one is part of an escape sequence like \d
+		inClass bool // we are in a character class like [a-z] that can not hold other character classes
+	)
+
 	for _, c := range []byte(derived) {
-		if stringIsAlpha.MatchString(string(c)) {
-			re += fmt.Sprintf("[%s%s]", strings.ToLower(string(c)), strings.ToUpper(string(c)))
-		} else {
-			re += string(c)
+		switch {
+		case escaped:
+			escaped = false
+			re.WriteByte(c)
+
+			continue
+
+		case c == '\\':
+			escaped = true
+
+		case c == '[':
+			inClass = true
+
+		case c == ']':
+			inClass = false
+
+		case !inClass && stringIsAlpha.MatchString(string(c)):
+			re.WriteString(fmt.Sprintf("[%s%s]", strings.ToLower(string(c)), strings.ToUpper(string(c))))
+
+			continue
 		}
+
+		re.WriteByte(c)
 	}
 
-	return re
+	return re.String()
 }
 
 func (p *PuppetDB) capitalizePuppetResource(r string) string {
-- 
2.43.0


From 9a8a8c1d5d1b3139784a8f986405f02ee8014eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:03 +0000
Subject: [PATCH 095/110] fix: read configuration files with long lines
 entirely and report files that cannot be read

---
 config/util.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/config/util.go b/config/util.go
index 8a95948..2cac518 100644
--- a/config/util.go
+++ b/config/util.go
@@ -19,6 +19,9 @@ import (
 	iu "github.com/choria-io/go-choria/internal/util"
 )
 
+// the longest line that can be in a configuration file, data after longer lines would be lost so those are errors
+const maxConfigLine = 10 * 1024 * 1024
+
 // ProjectConfigurationFiles returns any configuration file in the specified directory and their parents directories.
 func ProjectConfigurationFiles(path string) ([]string, error) {
 	var (
@@ -153,13 +156,17 @@ func parseConfig(path string, config any, prefix string, found map[string]string
 		c.ParsedFiles = append(c.ParsedFiles, path)
 	}
 
-	parseConfigContents(file, config, prefix, found)
+	err = parseConfigContents(file, config, prefix, found)
+	if err != nil {
+		return fmt.Errorf("could not read %s: %w", path, err)
+	}
 
 	return nil
 }
 
-func parseConfigContents(content io.Reader, config any, prefix string, found map[string]string) {
+func parseConfigContents(content io.Reader, config any, prefix string, found map[string]string) error {
 	scanner := bufio.NewScanner(content)
+	scanner.Buffer(nil, maxConfigLine)
 	itemr := regexp.MustCompile(`(.+?)\s*=\s*(.+)`)
 	skipr := regexp.MustCompile(`^#|^$`)
 
@@ -186,4 +193,6 @@ func parseConfigContents(content io.Reader, config any, prefix string, found map
 			}
 		}
 	}
+
+	return scanner.Err()
 }
-- 
2.43.0


From 7c3a453ff72fb3d4f51551b14e7cacb8e66f611c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:04 +0000
Subject: [PATCH 096/110] fix: read .conf files in plugin.d

---
 config/util.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/config/util.go b/config/util.go
index 2cac518..5b013e6 100644
--- a/config/util.go
+++ b/config/util.go
@@ -87,8 +87,7 @@ func DNSFQDN() (string, error) {
 }
 
 // can be used to extract the parsed settings
-func parseDotConfFile(plugin string, conf *Config, target any) error {
-	cfgPath := filepath.Join(conf.dotdDir(), fmt.Sprintf("%s.cfg", plugin))
+func parseDotConfFile(cfgPath string, plugin string, conf *Config, target any) error {
 	if iu.FileExist(cfgPath) {
 		err := parseConfig(cfgPath, target, fmt.Sprintf("plugin.%s", plugin), conf.rawOpts)
 		if err != nil {
@@ -133,7 +132,7 @@ func (c *Config) parseAllDotCfg() error {
 			}
 
 			plugin := strings.TrimSuffix(base, filepath.Ext(base))
-			err = parseDotConfFile(plugin, c, target)
+			err = parseDotConfFile(filepath.Join(dir, file.Name()), plugin, c, target)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From f8f9461deb896d1f6c8e2ef035c660b8853562b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:04 +0000
Subject: [PATCH 097/110] fix: use plugin.d when the configuration is in a
 directory named like the home directory

---
 config/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index a99bc25..d2ef75d 100644
--- a/config/config.go
+++ b/config/config.go
@@ -402,7 +402,7 @@ func (c *Config) dotdDir() string {
 	if !forceDotParse {
 		home, err := iu.HomeDir()
 		if err == nil {
-			if strings.HasPrefix(c.ConfigFile, home) {
+			if strings.HasPrefix(c.ConfigFile, strings.TrimSuffix(home, string(filepath.Separator))+string(filepath.Separator)) {
 				return ""
 			}
 		}
-- 
2.43.0


From 2ea60ca93864320b19ffa52da62144c159b5c0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:05 +0000
Subject: [PATCH 098/110] fix: do not crash on empty values for path and title
 settings

---
 confkey/confkey.go    | 4 +++-
 internal/util/util.go | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/confkey/confkey.go b/confkey/confkey.go
index 34e49f6..5744244 100644
--- a/confkey/confkey.go
+++ b/confkey/confkey.go
@@ -289,7 +289,9 @@ func SetStructFieldWithKey(target any, key string, value any) error {
 			switch tag {
 			case "title_string":
 				a := []rune(value.(string))
-				a[0] = unicode.ToUpper(a[0])
+				if len(a) > 0 {
+					a[0] = unicode.ToUpper(a[0])
+				}
 				*ptr = string(a)
 			case "path_string":
 				a, err := util.ExpandPath(value.(string))
diff --git a/internal/util/util.go b/internal/util/util.go
index 6597d84..bf80863 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -342,7 +342,7 @@ func UniqueStrings(items []string, shouldSort bool) []string {
 // ExpandPath expands a path that starts in ~ to the users homedir
 func ExpandPath(p string) (string, error) {
 	a := strings.TrimSpace(p)
-	if a[0] == '~' {
+	if strings.HasPrefix(a, "~") {
 		home, err := HomeDir()
 		if err != nil {
 			return "", err
-- 
2.43.0


From 7594354a26319865fcca7dd6157826e2c1893c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:53 +0000
Subject: [PATCH 099/110] fix: ignore directories in plugin.d

---
 config/util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/config/util.go b/config/util.go
index 5b013e6..d2f6a3d 100644
--- a/config/util.go
+++ b/config/util.go
@@ -122,6 +122,10 @@ func (c *Config) parseAllDotCfg() error {
 	}
 
 	for _, file := range files {
+		if iu.FileIsDir(filepath.Join(dir, file.Name())) {
+			continue
+		}
+
 		ext := filepath.Ext(file.Name())
 		if ext == ".cfg" || ext == ".conf" {
 			base := path.Base(file.Name())
-- 
2.43.0


From 33a0e84718604106118e27954cc10324960f2b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:17 +0000
Subject: [PATCH 100/110] fix: publish the data of every registration provider
 on its own schedule

---
 server/registration/registration.go | 65 ++++++++++++++++-------------
 1 file changed, 37 insertions(+), 28 deletions(-)

diff --git a/server/registration/registration.go b/server/registration/registration.go
index 697dfb5..5446542 100644
--- a/server/registration/registration.go
+++ b/server/registration/registration.go
@@ -46,27 +46,28 @@ type Connection interface {
 
 // Manager of registration plugins
 type Manager struct {
-	log               *logrus.Entry
-	choria            ChoriaFramework
-	cfg               *config.Config
-	connector         Connection
-	datac             chan *data.RegistrationItem
-	si                registration.ServerInfoSource
-	lastPublishedSize int
-	lastPublishedTime int64
+	log       *logrus.Entry
+	choria    ChoriaFramework
+	cfg       *config.Config
+	connector Connection
+	si        registration.ServerInfoSource
+	last      lastPublished
+}
+
+// lastPublished tracks what was published last for one provider
+type lastPublished struct {
+	size int
+	time int64
 }
 
 // New creates a new instance of the registration subsystem manager
 func New(c ChoriaFramework, si registration.ServerInfoSource, conn Connection, logger *logrus.Entry) *Manager {
 	r := &Manager{
-		log:               logger.WithFields(logrus.Fields{"subsystem": "registration"}),
-		choria:            c,
-		si:                si,
-		cfg:               c.Configuration(),
-		connector:         conn,
-		datac:             make(chan *data.RegistrationItem, 1),
-		lastPublishedSize: 0,
-		lastPublishedTime: 0,
+		log:       logger.WithFields(logrus.Fields{"subsystem": "registration"}),
+		choria:    c,
+		si:        si,
+		cfg:       c.Configuration(),
+		connector: conn,
 	}
 
 	return r
@@ -135,19 +136,23 @@ func (reg *Manager) registrationWorker(ctx context.Context, wg *sync.WaitGroup,
 		}
 	}
 
+	// every provider has its own publish schedule, they should not supersede each others data
+	datac := make(chan *data.RegistrationItem, 1)
+	last := &lastPublished{}
+
 	wg.Add(1)
 	if reg.cfg.Choria.RegistrationSizeTrigger > 0 {
 		reg.log.Debugf("RegistrationSizeTrigger defined at: %d", reg.cfg.Choria.RegistrationSizeTrigger)
-		go registrator.StartRegistration(ctx, wg, reg.cfg.Choria.RegistrationSizeInterval, reg.datac)
+		go registrator.StartRegistration(ctx, wg, reg.cfg.Choria.RegistrationSizeInterval, datac)
 	} else {
 		reg.log.Debugf("RegistrationSizeTrigger is not defined, using RegisterInterval")
-		go registrator.StartRegistration(ctx, wg, reg.cfg.RegisterInterval, reg.datac)
+		go registrator.StartRegistration(ctx, wg, reg.cfg.RegisterInterval, datac)
 	}
 
 	for {
 		select {
-		case msg := <-reg.datac:
-			reg.publish(msg)
+		case msg := <-datac:
+			reg.publishItem(msg, last)
 		case <-ctx.Done():
 			reg.log.Infof("Registration system exiting on shut down")
 			return
@@ -156,6 +161,10 @@ func (reg *Manager) registrationWorker(ctx context.Context, wg *sync.WaitGroup,
 }
 
 func (reg *Manager) publish(rmsg *data.RegistrationItem) {
+	reg.publishItem(rmsg, &reg.last)
+}
+
+func (reg *Manager) publishItem(rmsg *data.RegistrationItem, last *lastPublished) {
 	if rmsg == nil {
 		reg.log.Warnf("Received nil data from Registration Plugin, skipping")
 		return
@@ -181,24 +190,24 @@ func (reg *Manager) publish(rmsg *data.RegistrationItem) {
 		return
 	}
 
-	reg.log.Debugf("Last published size is: %d, current message size is: %d", reg.lastPublishedSize, len(rmsg.Data))
+	reg.log.Debugf("Last published size is: %d, current message size is: %d", last.size, len(rmsg.Data))
 	currentTime := time.Now().Unix()
-	reg.log.Debugf("Time since last publish: %d", (currentTime - reg.lastPublishedTime))
-	if (currentTime - reg.lastPublishedTime) >= int64(reg.cfg.RegisterInterval) {
+	reg.log.Debugf("Time since last publish: %d", (currentTime - last.time))
+	if (currentTime - last.time) >= int64(reg.cfg.RegisterInterval) {
 		reg.log.Debugf("Passed the RegisterInterval since we last published. Setting last published size as %d and last published time as %d", len(rmsg.Data), currentTime)
-		reg.lastPublishedSize = len(rmsg.Data)
-		reg.lastPublishedTime = currentTime
+		last.size = len(rmsg.Data)
+		last.time = currentTime
 		reg.publishMsg(msg, rmsg.Destination)
 		return
 	}
 
 	if reg.cfg.Choria.RegistrationSizeTrigger != 0 {
-		publishSizeDifference := math.Abs(float64(reg.lastPublishedSize - len(rmsg.Data)))
+		publishSizeDifference := math.Abs(float64(last.size - len(rmsg.Data)))
 		if publishSizeDifference >= float64(reg.cfg.Choria.RegistrationSizeTrigger) {
 			reg.log.Debugf("Published size difference is: %f", publishSizeDifference)
 			reg.log.Debugf("Breached threshold for registration message size. Publishing and Setting lastPublishedSize as %d and lastPublishedTime as %d", len(rmsg.Data), currentTime)
-			reg.lastPublishedSize = len(rmsg.Data)
-			reg.lastPublishedTime = currentTime
+			last.size = len(rmsg.Data)
+			last.time = currentTime
 			reg.publishMsg(msg, rmsg.Destination)
 			return
 		}
-- 
2.43.0


From 188db7a15381dae02a9e15292910888edb3636d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:37 +0000
Subject: [PATCH 101/110] fix: do not crash on registration intervals of zero

---
 server/registration/registration.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/registration/registration.go b/server/registration/registration.go
index 5446542..e850245 100644
--- a/server/registration/registration.go
+++ b/server/registration/registration.go
@@ -126,6 +126,11 @@ func (reg *Manager) RegisterProvider(ctx context.Context, wg *sync.WaitGroup, pr
 func (reg *Manager) registrationWorker(ctx context.Context, wg *sync.WaitGroup, registrator RegistrationDataProvider) {
 	defer wg.Done()
 
+	if reg.cfg.RegisterInterval <= 0 || (reg.cfg.Choria.RegistrationSizeTrigger > 0 && reg.cfg.Choria.RegistrationSizeInterval <= 0) {
+		reg.log.Warnf("Registration is disabled due to an invalid registration interval")
+		return
+	}
+
 	if reg.cfg.RegistrationSplay {
 		sleepTime := time.Duration(rand.N(reg.cfg.RegisterInterval)) * time.Second
 		reg.log.Infof("Sleeping %s seconds before first poll due to RegistrationSplay", sleepTime)
-- 
2.43.0


From 1c4b35c1f63cdf6ef111ac2c04864daa10f91182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:39 +0000
Subject: [PATCH 102/110] fix: do not crash when the registration data file
 cannot be accessed

---
 providers/registration/file_content.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/providers/registration/file_content.go b/providers/registration/file_content.go
index 721cf24..23d4443 100644
--- a/providers/registration/file_content.go
+++ b/providers/registration/file_content.go
@@ -100,6 +100,9 @@ func (fc *FileContent) publish(output chan *data.RegistrationItem) error {
 	if os.IsNotExist(err) {
 		return fmt.Errorf("could not find data file %s", fc.dataFile)
 	}
+	if err != nil {
+		return fmt.Errorf("could not access data file %s: %s", fc.dataFile, err)
+	}
 
 	if fstat.Size() == 0 {
 		return fmt.Errorf("data file %s is empty", fc.dataFile)
-- 
2.43.0


From cdaf7d1f28f66dc298c718ac54d135a2e29da8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:58 +0000
Subject: [PATCH 103/110] fix: expire SRV answers a fixed term after they were
 obtained

---
 srvcache/cache.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/srvcache/cache.go b/srvcache/cache.go
index 8f14973..2e6cf76 100644
--- a/srvcache/cache.go
+++ b/srvcache/cache.go
@@ -49,9 +49,9 @@ func (c *Cache) LookupSRV(service string, proto string, name string) (cname stri
 		if err != nil {
 			return "", nil, err
 		}
-	}
 
-	c.store(q, cname, addrs)
+		c.store(q, cname, addrs)
+	}
 
 	srvctr.WithLabelValues(c.identity).Inc()
 
-- 
2.43.0


From 7995a5f47c839611eff2db1b66ea8e71c3491f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:58 +0000
Subject: [PATCH 104/110] fix: write servers with IPv6 addresses as valid hosts
 and urls

---
 srvcache/server.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/srvcache/server.go b/srvcache/server.go
index adfaff4..2c42897 100644
--- a/srvcache/server.go
+++ b/srvcache/server.go
@@ -6,7 +6,9 @@ package srvcache
 
 import (
 	"fmt"
+	"net"
 	"net/url"
+	"strconv"
 )
 
 // BasicServer is a representation of a network server host and port, implements Server
@@ -36,16 +38,16 @@ func (s *BasicServer) SetScheme(scheme string) { s.scheme = scheme }
 
 // HostPort is a string in hostname:port format
 func (s *BasicServer) HostPort() string {
-	return fmt.Sprintf("%s:%d", s.host, s.port)
+	return net.JoinHostPort(s.host, strconv.Itoa(int(s.port)))
 }
 
 // URL creates a correct url from the server if scheme is known
 func (s *BasicServer) URL() (u *url.URL, err error) {
 	if s.Scheme() == "" {
-		return u, fmt.Errorf("server %s:%d has no scheme, cannot make a URL", s.host, s.port)
+		return u, fmt.Errorf("server %s has no scheme, cannot make a URL", s.HostPort())
 	}
 
-	ustring := fmt.Sprintf("%s://%s:%d", s.scheme, s.host, s.port)
+	ustring := fmt.Sprintf("%s://%s", s.scheme, s.HostPort())
 
 	u, err = url.Parse(ustring)
 	if err != nil {
@@ -58,8 +60,8 @@ func (s *BasicServer) URL() (u *url.URL, err error) {
 // String is a string representation of the server in url format
 func (s *BasicServer) String() string {
 	if s.scheme == "" {
-		return fmt.Sprintf("%s:%d", s.host, s.port)
+		return s.HostPort()
 	}
 
-	return fmt.Sprintf("%s://%s:%d", s.scheme, s.host, s.port)
+	return fmt.Sprintf("%s://%s", s.scheme, s.HostPort())
 }
-- 
2.43.0


From c92cf159a7da785c7af5056123115f69fbd6b668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:42 +0000
Subject: [PATCH 105/110] fix: stay in provisioning mode once it is configured

---
 choria/framework.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/choria/framework.go b/choria/framework.go
index 4988d2d..2dcd856 100644
--- a/choria/framework.go
+++ b/choria/framework.go
@@ -20,6 +20,7 @@ import (
 	"path/filepath"
 	"strings"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/choria-io/go-choria/inter"
@@ -64,6 +65,8 @@ type Framework struct {
 	srvcache *srvcache.Cache
 	puppet   *puppet.Wrapper
 	mu       *sync.Mutex
+
+	provisioning atomic.Bool
 }
 
 type Option func(fw *Framework) error
@@ -212,6 +215,11 @@ func (fw *Framework) ProvisionMode() bool {
 		return false
 	}
 
+	// once provisioning is configured the server token no longer tells if we should provision
+	if fw.provisioning.Load() {
+		return true
+	}
+
 	if fw.Config.HasOption("plugin.choria.server.provision") {
 		return fw.Config.Choria.Provision
 	}
@@ -259,6 +267,8 @@ func (fw *Framework) ConfigureProvisioning(ctx context.Context) {
 		return
 	}
 
+	fw.provisioning.Store(true)
+
 	fw.Config.RPCAuthorization = false
 	fw.Config.Choria.FederationCollectives = []string{}
 	fw.Config.Collectives = []string{"provisioning"}
-- 
2.43.0


From 86ff4fcceb8b593faae6a3332b33d75fd632a49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:11 +0000
Subject: [PATCH 106/110] fix: do not crash on aggregates without arguments

---
 providers/agent/mcorpc/ddl/agent/aggregators.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/providers/agent/mcorpc/ddl/agent/aggregators.go b/providers/agent/mcorpc/ddl/agent/aggregators.go
index e8b419d..899578a 100644
--- a/providers/agent/mcorpc/ddl/agent/aggregators.go
+++ b/providers/agent/mcorpc/ddl/agent/aggregators.go
@@ -53,7 +53,7 @@ func newActionAggregators(a *Action) *actionAggregators {
 		var args []any
 
 		err := json.Unmarshal(spec.Arguments, &args)
-		if err != nil {
+		if err != nil || len(args) == 0 {
 			continue
 		}
 
-- 
2.43.0


From 3e5379ac30f2fab396a6bc656a341e92a65df10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:11 +0000
Subject: [PATCH 107/110] fix: do not crash on charts and averages without
 usable values

---
 providers/agent/mcorpc/aggregate/average.go | 11 ++++++++++-
 providers/agent/mcorpc/aggregate/chart.go   | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/providers/agent/mcorpc/aggregate/average.go b/providers/agent/mcorpc/aggregate/average.go
index 27b6c78..59778a7 100644
--- a/providers/agent/mcorpc/aggregate/average.go
+++ b/providers/agent/mcorpc/aggregate/average.go
@@ -7,6 +7,7 @@ package aggregate
 import (
 	"encoding/json"
 	"fmt"
+	"math"
 	"strconv"
 	"sync"
 )
@@ -77,6 +78,10 @@ func (a *AverageAggregator) ResultStrings() (map[string]string, error) {
 	a.Lock()
 	defer a.Unlock()
 
+	if a.count == 0 {
+		return map[string]string{}, nil
+	}
+
 	avg := a.sum / float64(a.count)
 
 	return map[string]string{"Average": fmt.Sprintf("%f", avg)}, nil
@@ -87,6 +92,10 @@ func (a *AverageAggregator) ResultFormattedStrings(format string) ([]string, err
 	a.Lock()
 	defer a.Unlock()
 
+	if a.count == 0 {
+		return []string{}, nil
+	}
+
 	avg := a.sum / float64(a.count)
 
 	if format == "" {
@@ -107,7 +116,7 @@ func (a *AverageAggregator) processString(v any) bool {
 	}
 
 	f, err := strconv.ParseFloat(s, 64)
-	if err != nil {
+	if err != nil || math.IsNaN(f) || math.IsInf(f, 0) {
 		return false
 	}
 
diff --git a/providers/agent/mcorpc/aggregate/chart.go b/providers/agent/mcorpc/aggregate/chart.go
index 6039e96..12011a4 100644
--- a/providers/agent/mcorpc/aggregate/chart.go
+++ b/providers/agent/mcorpc/aggregate/chart.go
@@ -7,6 +7,7 @@ package aggregate
 import (
 	"encoding/json"
 	"fmt"
+	"math"
 	"strconv"
 	"sync"
 
@@ -85,6 +86,10 @@ func (s *ChartAggregator) ResultFormattedStrings(format string) ([]string, error
 	s.Lock()
 	defer s.Unlock()
 
+	if len(s.items) == 0 {
+		return []string{}, nil
+	}
+
 	if format == "" {
 		format = "%s"
 	}
@@ -101,7 +106,7 @@ func (s *ChartAggregator) processString(v any) bool {
 	}
 
 	f, err := strconv.ParseFloat(str, 64)
-	if err != nil {
+	if err != nil || math.IsNaN(f) || math.IsInf(f, 0) {
 		return false
 	}
 
@@ -144,5 +149,9 @@ func (s *ChartAggregator) processInt64(v any) bool {
 }
 
 func (s *ChartAggregator) chart() string {
+	if len(s.items) == 0 {
+		return ""
+	}
+
 	return asciigraph.Plot(s.items, asciigraph.Height(15), asciigraph.Width(60), asciigraph.Offset(5))
 }
-- 
2.43.0


From 3703f017e31d6d2127b9e71d8729c5a859b86fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:11 +0000
Subject: [PATCH 108/110] fix: do not color reply statuses when color is
 disabled

---
 providers/agent/mcorpc/replyfmt/console.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/providers/agent/mcorpc/replyfmt/console.go b/providers/agent/mcorpc/replyfmt/console.go
index 33bd255..09915a6 100644
--- a/providers/agent/mcorpc/replyfmt/console.go
+++ b/providers/agent/mcorpc/replyfmt/console.go
@@ -173,9 +173,9 @@ func (c *ConsoleFormatter) writeHeader(sender string, reply *client.RPCReply) {
 	ss := statusStings[reply.Statuscode]
 	smsg := "%-40s %s\n\n"
 	if c.disableColor {
-		fmt.Fprintf(c.out, smsg, sender, ss.color)
-	} else {
 		fmt.Fprintf(c.out, smsg, sender, ss.plain)
+	} else {
+		fmt.Fprintf(c.out, smsg, sender, ss.color)
 	}
 }
 
-- 
2.43.0


From 115f8703b84e85e7f9154fe154200a2a2f30380e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:11 +0000
Subject: [PATCH 109/110] fix: show values of outputs with defaults and any
 name

---
 providers/agent/mcorpc/replyfmt/console.go | 28 +++++++++++++++++++++-
 providers/agent/mcorpc/replyfmt/results.go | 11 +++++++--
 2 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/providers/agent/mcorpc/replyfmt/console.go b/providers/agent/mcorpc/replyfmt/console.go
index 09915a6..cc9633b 100644
--- a/providers/agent/mcorpc/replyfmt/console.go
+++ b/providers/agent/mcorpc/replyfmt/console.go
@@ -208,8 +208,10 @@ func (c *ConsoleFormatter) ddlAssistedPrinter(reply *client.RPCReply) {
 
 	sort.Strings(keys)
 
+	vals := replyValues(reply.Data, parsed)
+
 	for _, key := range keys {
-		val := gjson.GetBytes(reply.Data, key)
+		val := vals[key]
 		keyStr := key
 		valStr := val.String()
 
@@ -233,6 +235,30 @@ func (c *ConsoleFormatter) ddlAssistedPrinter(reply *client.RPCReply) {
 	fmt.Fprintln(c.out)
 }
 
+// replyValues are the values received in a reply as they were received with those set by defaults added
+func replyValues(data json.RawMessage, parsed map[string]any) map[string]gjson.Result {
+	vals := make(map[string]gjson.Result)
+
+	res := gjson.ParseBytes(data)
+	if res.IsObject() {
+		vals = res.Map()
+	}
+
+	for key, v := range parsed {
+		_, ok := vals[key]
+		if ok {
+			continue
+		}
+
+		j, err := json.Marshal(v)
+		if err == nil {
+			vals[key] = gjson.ParseBytes(j)
+		}
+	}
+
+	return vals
+}
+
 func (c *ConsoleFormatter) basicPrinter(reply *client.RPCReply) {
 	j, err := json.MarshalIndent(reply.Data, "   ", "   ")
 	if err != nil {
diff --git a/providers/agent/mcorpc/replyfmt/results.go b/providers/agent/mcorpc/replyfmt/results.go
index 5f1c2d9..b9f87a0 100644
--- a/providers/agent/mcorpc/replyfmt/results.go
+++ b/providers/agent/mcorpc/replyfmt/results.go
@@ -189,7 +189,7 @@ func (r *RPCResults) RenderTXT(w io.Writer, action ActionDDL, verbose bool, sile
 // RenderNames renders a list of names of successful senders
 // TODO: should become a reply format formatter maybe
 func (r *RPCResults) RenderNames(w io.Writer, jsonFormat bool, sortNames bool) error {
-	var names []string
+	names := []string{}
 
 	for _, reply := range r.Replies {
 		if reply.Statuscode == mcorpc.OK {
@@ -246,8 +246,15 @@ func (r *RPCResults) RenderTable(w io.Writer, action ActionDDL) (err error) {
 		parsedResult := gjson.ParseBytes(reply.RPCReply.Data)
 		if parsedResult.Exists() {
 			row := []any{reply.Sender}
+
+			parsed, ok := parsedResult.Value().(map[string]any)
+			if ok {
+				action.SetOutputDefaults(parsed)
+			}
+			vals := replyValues(reply.RPCReply.Data, parsed)
+
 			for _, o := range outputs {
-				val := parsedResult.Get(o)
+				val := vals[o]
 				switch {
 				case val.IsArray(), val.IsObject():
 					row = append(row, string(pretty.PrettyOptions([]byte(val.String()), &pretty.Options{
-- 
2.43.0


From 7acfa6c9d19e81dad63b7b0dc9daf22dc19be01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:11 +0000
Subject: [PATCH 110/110] fix: summarize outputs with defaults alike in text
 and json

---
 providers/agent/mcorpc/replyfmt/results.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/providers/agent/mcorpc/replyfmt/results.go b/providers/agent/mcorpc/replyfmt/results.go
index b9f87a0..1b501a3 100644
--- a/providers/agent/mcorpc/replyfmt/results.go
+++ b/providers/agent/mcorpc/replyfmt/results.go
@@ -162,9 +162,16 @@ func (r *RPCResults) RenderTXT(w io.Writer, action ActionDDL, verbose bool, sile
 			fmt.Fprintf(w, "Could not render reply from %s: %v", reply.Sender, err)
 		}
 
-		err = action.AggregateResultJSON(reply.Data)
+		parsed := map[string]any{}
+		err = json.Unmarshal(reply.Data, &parsed)
 		if err != nil {
 			log.Warnf("could not aggregate data in reply: %v", err)
+			continue
+		}
+
+		if parsed != nil {
+			action.SetOutputDefaults(parsed)
+			action.AggregateResult(parsed)
 		}
 	}
 
-- 
2.43.0

