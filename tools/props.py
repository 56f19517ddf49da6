#!/usr/bin/env python3
"""Single source of the property list; writes /verif/properties.jsonl."""
import json, os

P = []


def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)


p("P01", "Reliable submissions survive until acknowledged, expired or exhausted",
  "A message accepted by the submission spool as reliable stays in the spool, across restarts and across a crash at any point of the spool's own file operations, and is offered for publishing again whenever its retry time has passed, until a publish is acknowledged, its maximum tries are used up or it is older than its TTL; then it is removed and never published again. "
  "Its body, subject and headers are delivered as submitted together with the id, sender, priority, creation time, reliability and tries headers Choria adds, and messages that are invalid or use header names reserved for Choria or NATS are never accepted.",
  ["histories", "crash_points", "fault_sequences"],
  "every history of submissions, publish outcomes (acknowledged, negative acknowledgement, no responder, garbled acknowledgement), retry times, expiry and restart, and every crash point of the spool's file operations, within the bounds of the specification",
  "The tests submit a handful of messages against one publish outcome each; they do not combine failures, tries, expiry and restarts, nor stop between file operations.",
  ["submission/disk_spool.go", "submission/spool.go", "submission/msg.go"],
  [("directory spool entry life cycle", "submission/disk_spool.go"), ("publish and retry decisions", "submission/spool.go"), ("message validation and retry schedule", "submission/msg.go")],
  [("spool directory", "one file per pending message in a per-priority directory", "submission/disk_spool.go")],
  ["spool directory content", "messages handed to the NATS connection"])

p("P02", "Reliable submissions keep their order and unreliable ones are sent once",
  "In every scan of one priority of the spool the messages that are due are published in the order they were submitted, and once a reliable message fails no later reliable message of that scan is published, while unreliable messages are neither held back nor hold others back. "
  "An unreliable message is published at most once by a running spool, whether or not that succeeds and even when its file cannot be removed, and is removed from the spool after its attempt. "
  "A submission is accepted unless its priority already holds more messages than the configured limit, and one priority never affects another.",
  ["histories", "fault_sequences"],
  "every history of submissions over several priorities with publish failures, retries, refused submissions and undeletable files in between",
  "Tests check one ordered batch with all publishes succeeding; order under partial failure and retry is not exercised, nor is a spool file that cannot be removed.",
  ["submission/disk_spool.go", "submission/spool.go"],
  [("ordered walk of the spool", "submission/disk_spool.go"), ("single attempt for unreliable messages", "submission/spool.go")],
  None, ["order of messages handed to the NATS connection"])

p("P03", "Autonomous Agents only move along declared transitions",
  "An Autonomous Agent changes state only when a declared transition is fired from one of its declared source states, and then to its declared destination; any other event leaves the state unchanged and announces nothing, and a transition to the current state is not announced. "
  "Every state change is announced once with its event, source and destination to every registered notifier, to the watchers and to the other machines, foreign events fire exactly the transitions subscribed to them, the available transitions reported are exactly those declared for the current state, and inconsistent definitions do not load.",
  ["histories", "programs", "schedules"],
  "every machine definition within the bounds and every sequence, and concurrent interleaving, of local and foreign events",
  "Tests fire a few transitions of one example machine.",
  ["aagent/machine/machine.go"],
  [("FSM construction from declared transitions", "aagent/machine/machine.go"), ("transition lock and notification", "aagent/machine/machine.go")],
  [("machine state", "current FSM state", "aagent/machine/machine.go")],
  ["State, AvailableTransitions, NotifyPostTransition"])

p("P04", "Autonomous Agent data survives restarts and notifies only on change",
  "Data stored in an Autonomous Agent is readable with the value last written, is gone after a delete, and after the machine is restarted the data equals what the last completed write or delete left. "
  "A corrupt data file is given up rather than stopping the machine, one machine's data never affects another's, and copies given to readers are independent of the machine.",
  ["histories", "crash_points"],
  "every sequence of put, delete, get, restart with an intact or corrupt file, and copies, over several keys, value kinds and machines, and every crash point of the file operations",
  "Tests store one key and read it back.",
  ["aagent/machine/machine.go"],
  [("data file save and load", "aagent/machine/machine.go")],
  None, ["DataGet, Data, the data file"])

p("P05", "Watchers act only in their declared states and required foreign states",
  "A watcher is active exactly when the machine is in one of its declared states (or it declares none) and every required foreign machine is found in its required state; outside of that it performs no check, changes no data and fires no event. "
  "When it acts, a success fires only its success event and a failure only its failure event, an empty event firing nothing.",
  ["histories", "configurations"],
  "every combination of declared states, required foreign states, foreign machine states or lookup failures, and machine state, and each of the watcher kinds driven through the manager",
  "Tests use one mocked state per watcher.",
  ["aagent/watchers/watcher/watcher.go", "aagent/watchers/watchers.go", "aagent/watchers/execwatcher/exec.go", "aagent/watchers/filewatcher/file.go"],
  [("eligibility test", "aagent/watchers/watcher/watcher.go"), ("result handling", "aagent/watchers/execwatcher/exec.go")])

p("P06", "The KV watcher mirrors its key into machine data and fires on change",
  "Each poll of an active key-value watcher leaves the machine data item equal to the parsed value of the key, or absent when the key is absent, and fires the success event exactly when the value changed since it was last seen (or, when so configured, on any successful get or on a newer revision with the same value). "
  "A failed lookup changes no data and fires the failure event, and a poll while inactive or within the interval does nothing.",
  ["histories", "fault_sequences", "configurations"],
  "every sequence of puts, re-puts, deletes, lookup failures, machine state changes, republished updates and restarts, per option combination",
  "Tests exercise single polls with mocks.",
  ["aagent/watchers/kvwatcher/kv.go"],
  [("poll decision table", "aagent/watchers/kvwatcher/kv.go"), ("republish handler", "aagent/watchers/kvwatcher/kv.go")])

p("P07", "Every dispatched agent request yields at most one reply, in bounded time",
  "A request dispatched to a registered agent is handled exactly once by the agent registered under that name at that moment and produces at most one reply; when the agent does not reply within its timeout or the server is shutting down, exactly one error reply is produced, dispatching never blocks and an agent answering late is not left blocked. "
  "Unknown agents never handle anything, denied or inactive agents are never registered, in services-only mode only service agents are registered, and the set of known agents is exactly those registered and not unregistered.",
  ["histories", "schedules", "configurations"],
  "every sequence of register, replace, unregister, dispatch, reply, timeout and shutdown over several agents",
  "Tests dispatch single messages to a stub agent.",
  ["server/agents/agents.go"],
  [("dispatch with timeout and interrupt", "server/agents/agents.go"), ("registration gates", "server/agents/agents.go")])

p("P08", "Servers act only on verified, matching, unexpired requests",
  "A server hands a request to an agent only when its transport parses, its secure envelope verifies, it has not exceeded its TTL (nor lies more than the allowed clock skew in the future), and its filter matches this server; every other message is dropped without reaching any agent and without a reply. "
  "A reply is sent only for a dispatched request, to that request's reply target, carrying its request id, agent and caller.",
  ["inputs", "histories"],
  "every combination of malformed, unsigned, tampered, expired, future dated, non matching and valid requests over both protocol versions",
  "Tests of the processor cover the happy path and single failures.",
  ["server/processor.go", "server/discovery/discovery.go", "message/message.go"],
  [("request pipeline", "server/processor.go"), ("TTL validation", "message/message.go")])

p("P09", "Signed requests verify only for their caller or an authorised delegate",
  "Under protocol v2 a request is accepted only when a signature over exactly the received bytes verifies with the key of a currently valid client token issued by a trusted signer or organisation issuer, the caller name in the request is the one in that token, and the token grants fleet management without requiring delegation; a request signed by another party is accepted only when that signer's token, from the same issuer, carries the delegation permission and the caller's own token allows fleet management. "
  "Server tokens, expired, foreign issuer, tampered or missing tokens or signatures are never accepted.",
  ["inputs", "configurations"],
  "the full product of token kind, issuer, permissions, expiry, caller name, signature validity and signer, over both trust modes",
  "Tests check selected rows of the decision table.",
  ["providers/security/choria/choria_security.go", "protocol/v2/secure_request.go", "protocol/v2/request.go"],
  [("caller and signer verification", "providers/security/choria/choria_security.go"), ("secure request construction", "protocol/v2/secure_request.go")])

p("P10", "Messages round-trip unchanged and tampering is detected",
  "A request or reply passed through its secure envelope and transport in either protocol version is received with the same body, id, agent, collective, caller, time and TTL, federation headers included, and any change to the enclosed message or to the integrity data that protects it (the signature of a request, the hash of a reply) makes the receiver reject it; no received message, however malformed, crashes the receiver. "
  "A message of one protocol version or type is never accepted as another.",
  ["inputs"],
  "every pairing of message kind, protocol version, federation state and tampered field",
  "Tests tamper with few single fields.",
  ["protocol/v1/security_reply.go", "protocol/v1/transport.go", "protocol/v2/secure_reply.go", "protocol/v2/secure_request.go", "protocol/v2/transport.go", "choria/protocol.go"],
  [("reply hash", "protocol/v2/secure_reply.go"), ("transport parsing", "protocol/v2/transport.go")])

p("P11", "The federation broker delivers each message once and only where addressed",
  "Every federated request reaching the broker is republished exactly once to each of its federation targets with the targets removed, the original reply target preserved and replies directed back to this federation; every reply of the collective is delivered exactly once to that original reply target with the federation data removed. "
  "Payloads are unchanged, unfederated or incomplete messages are dropped, and the seen-by path records the broker.",
  ["histories", "schedules", "inputs"],
  "every mix of requests and replies over several targets with concurrent workers",
  "Tests push single messages through each transformer.",
  ["broker/federation/request_transformer.go", "broker/federation/reply_transformer.go", "broker/federation/choria_nats_egest.go", "broker/federation/choria_nats_ingest.go", "broker/federation/federation.go"],
  [("request and reply transformers", "broker/federation")])

p("P12", "The broker admits only authenticated connections, into the right account",
  "A connection is admitted only with the evidence its listener requires: verified TLS, a valid unexpired token from a trusted issuer whose key signed the server nonce, the provisioner password over verified TLS (or, with an organisation issuer, with a provisioner token), or the system user's password over verified TLS, an in-process pipe or with an authorised token. "
  "System and provisioning users land only in their own accounts, unprovisioned servers only in the provisioning account, and every other client in the Choria account; everything else is refused.",
  ["inputs", "configurations"],
  "the product of listener configuration, TLS state, user name, password, token kind, issuer, expiry, nonce signature and remote address",
  "Tests cover selected combinations.",
  ["broker/network/choria_auth.go"],
  [("authentication decision", "broker/network/choria_auth.go")])

p("P13", "Broker permissions grant exactly what each token or role allows",
  "The subjects a connected client may publish and subscribe to are those its role and token permissions declare and nothing else: a client without fleet management cannot publish requests, only its own inbox is readable, servers can reach only their own collectives' agent subjects, and provisioning clients only provisioning subjects. "
  "Denied servers may neither publish nor subscribe, and with an allow list set, connections outside of it may not publish requests.",
  ["configurations", "inputs"],
  "every combination of token permissions, collectives, additional subjects and deny or allow settings, evaluated over a universe of concrete subjects",
  "Tests assert literal permission lists for some permissions alone, not what combinations admit.",
  ["broker/network/choria_auth.go"],
  [("permission assembly", "broker/network/choria_auth.go")])

p("P14", "A Governor never admits more than its limit and always frees slots",
  "At any time at most the configured number of callers hold a Governor slot; a caller that cannot get a slot before its deadline holds nothing and leaves nothing behind, a granted slot is released exactly by its finisher or by the maximum age, and a released slot becomes available to a waiter. "
  "A Governor that failed to start or was released can be used again.",
  ["schedules", "fault_sequences", "histories"],
  "every interleaving of campaigning, failing, cancelled, finishing and expiring callers within the bounds",
  "Tests run a few workers once and count.",
  ["providers/governor/streams/governor.go"],
  [("publish with per subject and stream limits", "providers/governor/streams/governor.go")])

p("P15", "Leader elections have one leader and balanced won and lost notifications",
  "At any time at most one candidate of an election reports being leader while its lease is valid, leadership is only announced after a successful re-campaign, and a leader that cannot renew, or that stops or is cancelled, ceases to report leadership and is told it lost exactly once. "
  "Won and lost notifications alternate for each candidate, starting with won, and starting or stopping an election never blocks forever.",
  ["schedules", "fault_sequences", "histories"],
  "every interleaving of campaigns, renewals, lease expiry, store failures, stop and cancellation of several candidates within the bounds",
  "Tests let three candidates run with healthy storage.",
  ["providers/election/streams/election.go"],
  [("campaign loop over a KV lease", "providers/election/streams/election.go")])

p("P16", "RPC client results account for every reply exactly once",
  "When an RPC request completes, every reply received while a batch was open has been counted exactly once as OK or failed by its status (replies that cannot be read count as failed), the nodes that replied and those reported as not responding split the targets without overlap, and nodes that replied unasked or again are reported as unexpected and never as a further responding node. "
  "Each readable reply is handed to the reply handler exactly once, with its content when it matches the reply filter; a batch ends as soon as all its nodes replied, readable or not, else when its timeout passes or the caller cancels, and statistics are additive over batches.",
  ["histories", "schedules", "configurations"],
  "every arrival order of expected, failing, duplicate, unexpected, unreadable and missing replies within the bounds, with batches, workers, reply filters, service and no-reply requests, deadlines and cancellation",
  "Tests feed a few replies sequentially through a mocked client.",
  ["providers/agent/mcorpc/client/stats.go", "providers/agent/mcorpc/client/client.go", "providers/agent/mcorpc/client/nodelist.go", "client/client/client.go"],
  [("stats bookkeeping", "providers/agent/mcorpc/client/stats.go"), ("reply loop", "providers/agent/mcorpc/client/client.go")])

p("P17", "RPC batching and limits address each chosen node exactly once",
  "With a limit a request addresses exactly that number, or that percentage rounded down, of distinct discovered nodes and at most all of them - the first ones, or with the random method the same ones whenever the same list is used with the same seed, also when the caller uses its list again - and a limit that cannot be read or leaves no nodes is an error that publishes nothing. "
  "With batching every addressed node is in exactly one batch, all but the last batch have exactly the batch size, and batches run one after the other with the configured sleep in between.",
  ["inputs", "configurations"],
  "every target count, batch size, limit form, method and seed in the bounds",
  "Tests check one limit and one batch size.",
  ["providers/agent/mcorpc/client/options.go", "providers/agent/mcorpc/client/util.go", "providers/agent/mcorpc/client/client.go"],
  [("limits and seeds", "providers/agent/mcorpc/client/options.go"), ("batching", "providers/agent/mcorpc/client/util.go")])

p("P18", "Action policies allow exactly what the first matching rule allows",
  "For every policy file, the verdict on a request is that of the first rule whose caller (literally, by regular expression or by group), action, facts and classes all match, else the file's last default, else the allow_unconfigured setting; invalid or unsupported rules never grant access. "
  "The agent's own policy file is used when it exists, the default one only when enabled; when neither exists allow_unconfigured decides.",
  ["programs", "inputs", "configurations"],
  "every policy file of up to three lines over the rule alphabet, with groups, regular expressions, facts and classes, and every request",
  "Tests use fixed policy files.",
  ["providers/agent/mcorpc/authz_actionpolicy.go"],
  [("policy evaluation", "providers/agent/mcorpc/authz_actionpolicy.go")])

p("P19", "Token policies authorise only listed agents and actions",
  "With token based authorisation a request is allowed only when the caller's token lists its agent and action (exactly or by wildcard) or its embedded policy evaluates to true, discovery always being allowed with any parsable token; tokens without a policy, with both kinds, with only malformed entries or unparsable tokens never grant access. "
  "With Rego policy files a request is allowed only when the agent's own policy, or the default one when it has none, evaluates to true. When authorisation is enabled an unknown authorisation provider or missing request data denies.",
  ["inputs", "configurations"],
  "the product of token content, policies, agents and actions",
  "Tests cover selected rows.",
  ["providers/agent/mcorpc/authz_jwt.go", "providers/agent/mcorpc/agent.go"],
  [("token policy evaluation", "providers/agent/mcorpc/authz_jwt.go"), ("authorizer selection", "providers/agent/mcorpc/agent.go")])

p("P20", "RPC agents authorise before acting and reply once with the right status",
  "Every request reaching an RPC agent runs its action at most once and only when the request parses, the action exists and, where authorisation is on, the request is for this agent and was allowed; when auditing is on, the audit record is written before the action runs. "
  "Exactly one reply is produced unless the action disables it, carrying the status that describes the outcome.",
  ["inputs", "configurations"],
  "the product of payload validity, action existence, authorisation result, audit and response settings and action outcomes",
  "Tests cover single paths.",
  ["providers/agent/mcorpc/agent.go", "providers/agent/mcorpc/mcorpc.go"],
  [("request handling", "providers/agent/mcorpc/agent.go")])

p("P21", "Discovery filters select exactly the matching nodes",
  "A filter matches a server exactly when it is empty or every kind of filter given matches: any one identity, all agents, all classes and all facts, by exact or regular expression match, facts compared by type with the given operator. "
  "Comparison operators are consistent: not-equal is the opposite of equal, less and greater exclude equality and their inclusive forms are its union, for strings, integers, floats and booleans.",
  ["inputs"],
  "every combination of filters over the alphabet of identities, agents, classes and facts, and every operator over the value grid",
  "Tests sample operators and do not combine kinds.",
  ["protocol/filter.go", "filter/facts/matchers.go", "filter/facts/facts.go", "filter/classes/classes.go", "filter/agents/agents.go", "filter/identity/identity.go"],
  [("filter evaluation", "protocol/filter.go"), ("fact operators", "filter/facts/matchers.go")])

p("P22", "The fleet version tally equals the live nodes",
  "After any sequence of startup, alive and shutdown events and expiry, the version gauges for each component equal the number of currently known nodes running that version, a node counting once at most and no gauge ever negative; the sum over leadership labels is that number and a node is counted under the label in force when its version was taken, also across leadership changes. "
  "Malformed events change no tally and are counted as bad.",
  ["histories"],
  "every event sequence over two components, nodes and versions, with expiry and leadership changes",
  "Tests send one event of each type.",
  ["lifecycle/tally/tally.go", "lifecycle/lifecycle.go"],
  [("observation table and gauges", "lifecycle/tally/tally.go")])

p("P23", "Supervised jobs are recorded completely and truthfully",
  "A job is created once per id and started once; while it runs and after it ends its recorded specification, pid, exit code, termination time and complete standard output and error reflect what the process did, and the matching start, output and exit messages are submitted in order with the exit last. "
  "Output messages carry the output unmodified and in order per stream; only the portion whose submission fails may be missing from them. "
  "Listing returns exactly the jobs that satisfy every criterion of the query.",
  ["histories", "inputs", "fault_sequences"],
  "every combination of create, duplicate create, start, restart, failure to start, output shape, exit kind, kill and query",
  "Tests run echo and sleep once.",
  ["providers/execution/exec.go"],
  [("supervision", "providers/execution/exec.go"), ("query matching", "providers/execution/exec.go")])

p("P24", "DDL validation admits exactly the declared inputs",
  "A request validates against its DDL exactly when every required input is present, no undeclared input is present and each value has the declared type and satisfies the declared maximum length, validation rule and list of values; conversion of command line strings gives a value of the declared type that validates, and defaults are only applied to inputs that were not given. "
  "Output defaults never overwrite values in a reply.",
  ["inputs"],
  "the product of input declarations and values",
  "Tests use a sample of declarations.",
  ["providers/agent/mcorpc/ddl/agent/action.go", "providers/agent/mcorpc/ddl/common/input_item.go", "providers/agent/mcorpc/ddl/common/common.go"],
  [("input validation", "providers/agent/mcorpc/ddl/common/input_item.go"), ("action validation", "providers/agent/mcorpc/ddl/agent/action.go")])

p("P25", "Provisioning acts only in the right mode, for the right token and one at a time",
  "Provisioning actions that read or change a server's identity or configuration succeed only in provisioning mode, with the configured token, and for the provisioner that holds the provisioning lock; reprovisioning succeeds only outside of provisioning mode and restarting only with a configuration that leaves it. "
  "A refused or failed configure leaves the existing configuration file unchanged, and an accepted one replaces it as a whole with what was sent. Policies are written only into the policies directory. No request crashes the server.",
  ["histories", "inputs", "configurations"],
  "every sequence of actions by two provisioners with right and wrong tokens, modes and payloads",
  "Tests call actions in isolation.",
  ["providers/agent/mcorpc/golang/provision/provision.go", "providers/agent/mcorpc/golang/provision/configure_action.go", "providers/agent/mcorpc/golang/provision/util.go", "providers/agent/mcorpc/golang/provision/reprovision_action.go"],
  [("mode, token and lock gates", "providers/agent/mcorpc/golang/provision")])

p("P26", "Managed machines converge to the signed desired set",
  "When a valid specification is present, each check leaves exactly the wanted managed machines deployed with the specified content (others removed only when purging is on), reports a change exactly when something changed, and is idempotent. "
  "A specification that is missing, malformed or not signed by the configured key changes nothing on disk and is reported as an error; one without a valid signature is also removed from the data.",
  ["histories", "inputs", "configurations"],
  "every sequence of specification changes, local tampering and option settings",
  "Tests cover a few single steps.",
  ["aagent/watchers/machineswatcher/machines.go", "aagent/watchers/pluginswatcher/plugins.go"],
  [("desired state reconciliation", "aagent/watchers/machineswatcher/machines.go"), ("plugins reconciliation", "aagent/watchers/pluginswatcher/plugins.go")])

p("P27", "Archives are deployed only when their checksums verify",
  "An archive watcher replaces its target only with the content of an archive whose checksum matches and, where content checksums are configured, whose every listed file verifies; entries escaping the target or of unsupported types reject the whole archive, and any failed download or verification leaves the existing target as it was and no temporary content behind. "
  "A target that verifies is left untouched and a tampered or missing one is restored.",
  ["inputs", "fault_sequences", "histories"],
  "the product of archive shapes, checksum errors, HTTP failures, pre-existing target states and repeated checks",
  "Tests cover a few archives.",
  ["aagent/watchers/archivewatcher/archive.go", "internal/util/sha256sum.go"],
  [("download, verify, replace", "aagent/watchers/archivewatcher/archive.go")])

p("P28", "Scheduled and timed events fire exactly once per period",
  "A schedule watcher fires its success event when its machine is eligible and a schedule turns on, and its failure event when the last overlapping schedule turns off, once per change; a timer watcher fires its event once per uninterrupted stay in its states and never after leaving them early. "
  "Re-entering the states within one schedule re-fires unless configured not to.",
  ["histories", "schedules"],
  "every sequence of on, off, state enter and leave steps in the bounds",
  "Tests step single changes.",
  ["aagent/watchers/schedulewatcher/schedule.go", "aagent/watchers/timerwatcher/timer.go"],
  [("schedule counter", "aagent/watchers/schedulewatcher/schedule.go"), ("timer restart", "aagent/watchers/timerwatcher/timer.go")])

p("P29", "The agent host runs exactly the machines its directory holds",
  "After each look at its source directory the autonomous agent host runs exactly one instance of the current manifest of every directory that holds a valid one and of every compiled-in machine; unchanged machines keep their state, changed ones start anew, and removed or replaced ones stop and never act again. "
  "Events sent by callers or by other machines reach only the machines meant, at any moment, and the host never blocks or crashes and stops completely when told to.",
  ["histories", "schedules", "configurations"],
  "every sequence of directory changes and events, including events during loading, replacing and removing",
  "Tests of the host are few and never overlap events with changes on disk.",
  ["aagent/aagent.go", "aagent/machine/machine.go", "aagent/watchers/watchers.go", "aagent/info.go"],
  [("loading and removing machines", "aagent/aagent.go"), ("machine lifecycle", "aagent/machine/machine.go")])

p("P30", "Checks and metrics record what their program reported",
  "A Scout check is in the state its plugin reported last: exit codes of the Nagios protocol map to their states, anything else - other exit codes, signals, programs that cannot be run or do not finish within their timeout - is UNKNOWN and never OK; each check is announced once, added to the history of at most 15 and exported to Prometheus, and asking for checks at any time neither blocks nor crashes the machine. "
  "Exec watchers fire the success event only for commands that succeeded, and store their output as data only when it is valid. Metric watchers report the last usable output everywhere. The Scout agent acts on exactly the checks named in a request and reports every one of them once.",
  ["inputs", "histories", "schedules", "faults"],
  "every way a program can end, every output and every sequence of checks, transitions and requests",
  "Tests replace the program or run it once with well formed output.",
  ["aagent/watchers/nagioswatcher", "aagent/watchers/execwatcher", "aagent/watchers/metricwatcher", "aagent/util/nagios.go", "scout/agent/scout"],
  [("check outcomes", "aagent/watchers/nagioswatcher/nagios.go"), ("metrics", "aagent/watchers/metricwatcher/metric.go"), ("scout requests", "scout/agent/scout/util.go")])

p("P31", "Certificate security accepts only the trusted authority's certificates",
  "The certificate based security providers accept a certificate only when it is readable, current, usable by clients, issued - directly or through intermediates sent with it - by the configured authority, and carries the name it is used for; whatever is unreadable, or cannot be checked because the authority is unusable, is refused. "
  "Callers are privileged only through a name in such a certificate that matches the privileged list; others must use their own certificate's name and be on the allow list. Signatures verify only with the key of the given certificate over exactly the signed data, and never crash. TLS peers are accepted only for a name in their certificate. "
  "Enrolling with a Puppet CA keeps the private key and request once made, talks only to a server of the fetched authority after fetching it, and can be resumed after any failure.",
  ["inputs", "configurations", "histories", "faults"],
  "every combination of issuer, validity, use, names, encoding, authority file and of CA answers",
  "Tests use a handful of fixture certificates.",
  ["providers/security/filesec", "providers/security/puppetsec"],
  [("certificate verification", "providers/security/filesec/file_security.go"), ("enrollment", "providers/security/puppetsec/puppet_security.go")])

p("P32", "External agents run programs only for valid requests and report their answers",
  "The program of an external agent is run once per request, only for requests its description admits, with exactly the request, caller, facts and configuration it belongs to; its reply is passed on with described defaults added, and a program that is missing, fails, is killed, exceeds the timeout or answers nonsense yields a failure - never success and never a hang, whatever it prints. "
  "The agents offered follow the descriptions on disk: new ones appear, changed ones are replaced only by ones that activate, removed ones go away, reserved names are never taken, and no description can crash the server.",
  ["inputs", "histories", "schedules", "faults"],
  "every request, program behaviour and sequence of changes to the descriptions on disk",
  "Tests run a few well behaved programs and one sequence of changes.",
  ["providers/agent/mcorpc/external"],
  [("running programs", "providers/agent/mcorpc/external/agent.go"), ("finding agents", "providers/agent/mcorpc/external/provider.go")])

p("P33", "The executor agent only shows and signals jobs to authorised callers",
  "Only callers authorised for the agent and action that started a job see its command, arguments and environment in its status and can send it signals; a refused signal is not delivered, an accepted one is delivered once to the process of a running job and never to another process. "
  "Status and list replies report what the stored job says: whether it runs, its exit code, reason, times and output sizes.",
  ["inputs", "configurations", "histories"],
  "the product of callers, policies, job states and query criteria",
  "The agent has no such tests.",
  ["providers/agent/mcorpc/golang/executor/executor.go", "providers/execution/exec.go"],
  [("status and signal actions", "providers/agent/mcorpc/golang/executor")])


p("P34", "HTTP switches and metrics show and drive their machines",
  "While a machine runs, its switch watchers and the metric watchers that ask for it are reachable on the HTTP port of the autonomous agent host under the names of machine and watcher, and from when it is removed they are not; one that replaces it is reachable instead. "
  "A press is answered, and when the machine is in a declared and not disabled state it fires the event of that press once, while otherwise, or when it is not understood, it is refused and changes nothing. "
  "The switch reports on and off as its machine's states say and else the last accepted press, a metric reports what was gathered last, and neither concurrent presses nor transitions made elsewhere ever leave requests unanswered or the machine stuck.",
  ["inputs", "histories", "schedules"],
  "every history of presses over both interfaces, alone and concurrently, transitions, gathered metrics, requests that are not understood, and machines being removed and replaced",
  "There are no tests of the HTTP interface or the switch watcher.",
  ["aagent/http/http.go", "aagent/aagent.go", "aagent/watchers/httpswitchwatcher/httpswitch.go", "aagent/watchers/metricwatcher/metric.go"],
  [("request handling", "aagent/http/http.go"), ("switch loop", "aagent/watchers/httpswitchwatcher/httpswitch.go")])


p("P35", "Gossip announces a service exactly while its machine is in its states",
  "A gossip watcher publishes its announcement once when its machine enters the watched states and then once in every interval for as long as the machine stays there, however quickly it left and came back, and never while the machine is outside them or after it was stopped or deleted. "
  "Each announcement carries the subject, the payload - rendered from the data at that time - and the time to live that were configured, a registration is announced under its cluster, protocol, service and instance, and the reported state is that of the last announcement. "
  "Definitions that are incomplete or name invalid subjects, addresses or intervals are refused and never crash the host.",
  ["inputs", "histories", "schedules"],
  "every history of transitions, alone and in bursts the watcher sees late, connections that come up late, data that changes, and stops",
  "The unit tests parse properties, none runs the watcher.",
  ["aagent/watchers/gossipwatcher/gossip.go"],
  [("announcer", "aagent/watchers/gossipwatcher/gossip.go")])


p("P36", "Data adapters move every valid message to their stream unchanged",
  "Every message of the configured kind - request or reply, in the protocol version of the broker's security system - that arrives on a data adapter's topic is published exactly once to that adapter's stream, on the configured subject with the sender filled in, with payload, sender, time and request id unchanged, and in the order of arrival when there is one worker. "
  "Anything else that arrives is dropped without affecting the messages around it; messages are lost only while the queue is full or when the stream refuses them, one adapter never affects another, and a slow or failing stream never stops an adapter for good. "
  "Settings that cannot work are refused, missing ones get their defaults, and when the broker stops every worker ends and every connection is closed.",
  ["inputs", "histories", "schedules"],
  "every history of valid, foreign and malformed messages from several senders on several adapters with streams that are slow, fail and recover, for every combination of workers and queue lengths",
  "The unit tests cover parts of one transformer with mocks; none runs an adapter.",
  ["broker/adapter/adapter.go", "broker/adapter/ingest/ingest.go", "broker/adapter/streams/output.go", "broker/adapter/transformer/transformer.go"],
  [("ingest", "broker/adapter/ingest/ingest.go"), ("output", "broker/adapter/streams/output.go")])


p("P37", "Discovery reports exactly the nodes that match, whatever the source",
  "For a given filter and collective every discovery source - broadcast, inventory files with their groups, PuppetDB, node lists and external commands - reports exactly the nodes that match all of the conditions, each once, and a source that cannot express a filter says so instead of ignoring parts of it. "
  "Filters naming only exact identities use those names without asking anyone where broadcast and PuppetDB are concerned. "
  "Broadcast discovery hears every answer that arrives before its timeout, or with a sliding window until 300ms pass without one, and stops then. "
  "Damaged inventories and lists, failing, hanging or noisy commands and unknown groups are reported as errors, never as fewer or other nodes, and never crash or hang the client.",
  ["inputs", "histories", "schedules"],
  "every combination of identity, agent, class, fact and compound conditions, collectives, groups, file contents and formats, behaviours of external commands, and arrival times of answers",
  "The unit tests check a handful of filters per source, and query texts.",
  ["providers/discovery/broadcast/broadcast.go", "providers/discovery/inventory/inventory.go", "providers/discovery/inventory/datafile.go", "providers/discovery/flatfile/flatfile.go",
   "providers/discovery/external/external.go", "providers/discovery/puppetdb/puppetdb.go", "client/discovery/cli_helper.go", "filter/filter.go"],
  [("inventory", "providers/discovery/inventory/inventory.go"), ("broadcast", "providers/discovery/broadcast/broadcast.go"), ("queries", "providers/discovery/puppetdb/puppetdb.go")])


p("P38", "Configuration says what its files say, in order, completely",
  "Loading configuration gives every setting the value of the last line that sets it understandably, in the main file, then plugin.d files, then for clients project files from the outermost directory inward, "
  "with list settings that accumulate accumulating in that order; environment variables override files; everything not set has its default. Comments, blank and malformed lines, however long, change nothing and hide nothing after them. "
  "A value that is not a number or duration leaves the setting as it was. The texts of all settings are available to plugins. "
  "Certificate verification is off only where anonymous TLS is configured, and clients may only do so with a remote signer. "
  "A missing or unreadable file is an error, and nothing in a file crashes the loader.",
  ["inputs", "histories"],
  "every combination of settings of every kind, their values, line formats, files that set them, environment variables, and build settings",
  "The unit tests load two example files and set a few values of each kind.",
  ["config/config.go", "config/util.go", "config/choria.go", "confkey/confkey.go", "internal/util/util.go"],
  [("loading", "config/config.go"), ("files", "config/util.go"), ("settings", "confkey/confkey.go")])


p("P39", "Registration data is published by every source, on schedule",
  "Every configured or added source of registration data is published on its own schedule: first within 4 seconds, or with splay within the interval and 4 seconds, then every interval; "
  "with a size trigger whenever its size differs by the trigger or more from what was last due, and otherwise once per interval. Sources never delay or supersede each other. "
  "What is published is the current content of the file, or inventory of the node, compressed if so configured, to the configured target or agent, in the registration collective; "
  "a file modified since it was last seen is marked as updated, and missing, empty or unreadable data is never published. "
  "Nothing crashes a node, and everything ends when the node stops.",
  ["inputs", "histories", "schedules"],
  "every combination and order of sources, intervals, triggers, changes of files and sizes, losses of the connection, and moments of stopping",
  "The unit tests publish single items through a mock; none runs a source.",
  ["server/registration/registration.go", "providers/registration/file_content.go", "providers/registration/inventory_content.go", "providers/registration/registration.go"],
  [("publishing", "server/registration/registration.go"), ("files", "providers/registration/file_content.go"), ("inventory", "providers/registration/inventory_content.go")])

p("P40", "Connections go to the servers that configuration and DNS name",
  "The servers a node connects to come from the first source that has any: for the network its configured hosts, then SRV records, then puppet:4222; when federated only the federation's hosts or records; "
  "for brokers their SRV records before configured peers; for PuppetDB the configured host, its own records, then those of Puppet with the PuppetDB port, then puppet. "
  "DNS is only asked when enabled and nothing configured decides, in the configured domain or that of the machine, in order of priority. Hosts that cannot be understood are an error, never skipped. "
  "Every server has a scheme and is written as a host, port and url that mean the same server. SRV answers are reused for a fixed term only, and what one caller does with an answer never changes another's.",
  ["inputs", "histories"],
  "every combination of configured hosts, federation, DNS zone and domain, and every history of lookups, changes in DNS and time",
  "The unit tests check a handful of host lists and names; nothing resolves records or lets the cache age.",
  ["choria/framework.go", "srvcache/cache.go", "srvcache/server.go", "srvcache/servers.go", "srvcache/util.go"],
  [("sources", "choria/framework.go"), ("cache", "srvcache/cache.go"), ("hosts", "srvcache/util.go")])

p("P41", "Provisioning mode is entered exactly when set, with its own profile",
  "A server provisions when its build or a provisioning token can, and its configuration says so; when it says nothing, when its own valid token is that of another node, or when that is the default. Clients never do. "
  "A valid provisioning token decides the brokers, secrets, security and defaults used; one that is unreadable, of another kind, or without exactly one destination and a secret changes nothing. "
  "In provisioning mode collectives, federation, authorization, registration, facts, credentials, security and status are those of the provisioning profile, and the mode lasts; outside it no setting changes. "
  "Its brokers are those it was told, every one understood, or those DNS names, asked with growing pauses until it answers or the server stops.",
  ["inputs", "schedules"],
  "every combination of build, provisioning token, setting and own token, and every time at which DNS answers or the server stops",
  "The unit tests check a few combinations of the mode and one token; none compares the whole configuration or waits for DNS.",
  ["choria/framework.go", "providers/provtarget/provtarget.go", "providers/provtarget/builddefaults/default.go", "build/info.go"],
  [("mode and profile", "choria/framework.go"), ("token", "providers/provtarget/builddefaults/default.go"), ("brokers", "providers/provtarget/provtarget.go")])

p("P42", "Connections are made as configured, never weaker, and last",
  "A connection to brokers is made as configured: with TLS and its certificates where TLS is configured and never without; with its token and its signature over the broker's nonce, the provisioning token, or a user and password when both are set, and with no other credential; on an inbox no other client shares. "
  "Credentials that cannot be read are refused before any broker is contacted, and nothing is told to a broker that fails verification. "
  "It tries until a broker accepts it or it is stopped, whatever went wrong before. Over every loss it returns by itself with all its subscriptions and none that was removed, and what is published meanwhile is delivered. Closed, it stays closed.",
  ["inputs", "schedules", "faults"],
  "every combination of TLS, credentials and broker, and every order of failed tries, losses, subscribing, publishing and closing",
  "The unit tests check helper functions and one local broker; none makes a broker fail, refuse or impersonate, or counts what survives.",
  ["choria/connection.go"],
  [("connecting, credentials, subscriptions, closing", "choria/connection.go")])

p("P43", "Replies are shown, summarized and counted as they were received",
  "Every reply is shown exactly once in the modes that ask for it, successful, failed, all or none, those of the DDL unless overridden, with its sender and status. Its outputs appear by their names with the values received, or the default where none was, in text, table and JSON alike; failures show their message. "
  "Summaries count each value once for each reply that has it, averages are over the numbers among them, and all forms agree. Names are those of the successful. "
  "Nothing a node replies, or does not, breaks what is shown of others.",
  ["inputs"],
  "every set of replies, statuses, outputs of every type, display modes and summaries",
  "The unit tests try the summaries with a few values; none renders a reply.",
  ["providers/agent/mcorpc/replyfmt/console.go", "providers/agent/mcorpc/replyfmt/results.go", "providers/agent/mcorpc/ddl/agent/aggregators.go", "providers/agent/mcorpc/aggregate/average.go"],
  [("replies", "providers/agent/mcorpc/replyfmt/console.go"), ("results", "providers/agent/mcorpc/replyfmt/results.go"), ("summaries", "providers/agent/mcorpc/aggregate/summary.go")])


def main():
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as fh:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            fh.write(json.dumps(x) + "\n")


if __name__ == "__main__":
    main()
