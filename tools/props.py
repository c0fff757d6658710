#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property list)."""
import json, os
L = "libamqpprox/amqpprox_"
def P(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": [f if "/" in f else L + f for f in files],
         "mechanism": [{"name": n, "where": L + w if not w.startswith("amqpprox/") else w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a)

props = [
P("C01", "Open connections relay both byte streams intact, in order, exactly once",
  "Once a connection is open, the bytes the broker receives are at every moment a prefix of the bytes the client sent after its handshake, and the bytes the client receives (from Open-Ok on) are a prefix of the bytes the broker sent; nothing is lost, duplicated, reordered, altered or crossed over to another connection. Every complete AMQP frame of at most 150000 bytes in all that arrives in one direction is delivered to the other side without waiting for further input, however the stream was split into TCP segments and however slowly the receiver reads.",
  ["inputs", "schedules", "histories"],
  "For all frame sequences and sizes, all segmentations of the two streams, all interleavings of the two directions and of several connections, and all stalls of a receiver.",
  "The packet-processor tests feed two or three fixed frames; the Session tests replay fixed mock steps. None covers partial frames across reads, frames larger than a pool buffer, back-pressure or two live directions.",
  ["session.cpp", "packetprocessor.cpp", "frame.cpp", "buffer.cpp", "maybesecuresocketadaptor.h"],
  [("read -> process -> write -> read loop, one per direction", "session.cpp:readData/handleData/handleWriteData"),
   ("frame scanning and partial-frame remainder", "packetprocessor.cpp:process"),
   ("remainder copy into a larger buffer", "session.cpp:copyRemaining")],
  [("water mark", "bytes held back per direction because they do not complete a frame yet")],
  ["broker-side and client-side TCP streams"]),
P("C02", "The broker is given the client's own handshake parameters",
  "For every connection that reaches a broker (with a Start-Ok of at most 131072 bytes), the broker sees the protocol header, then a Start-Ok carrying the client's mechanism, response and locale and every client property with its type and value unchanged (nested tables and arrays up to 99 levels included; the legacy short-integer tag 'U' may arrive as its synonym 's'), with only the documented amqpprox_* properties added, and then the client's own Tune-Ok values and virtual host in Tune-Ok and Open, in that order and exactly once each. The client in turn is offered the handshake in protocol order and is told Open-Ok only after the broker sent Open-Ok.",
  ["inputs", "histories"],
  "For all client property tables, SASL mechanisms/responses, tune values and virtual host names, and all segmentations of the handshake.",
  "Session tests use one fixed Start-Ok with a handful of fields; no test compares an arbitrary property table at the broker end with what the client sent.",
  ["connector.cpp", "connectorutil.cpp", "methods_startok.cpp", "methods_tuneok.cpp", "methods_open.cpp", "types.cpp", "fieldtable.cpp", "packetprocessor.cpp"],
  [("handshake state machine", "connector.cpp:receive"), ("Start-Ok augmentation", "connectorutil.cpp:injectedProxyClientIdent"),
   ("field table codec", "types.cpp:decodeFieldTable/encodeFieldTable")],
  [("stored Start-Ok/Tune-Ok/Open", "client handshake kept until the broker connection exists")],
  ["bytes received by the broker before Open-Ok", "bytes received by the client before Open-Ok"]),
P("C03", "A virtual host only ever reaches the backends it is mapped to",
  "A broker connection made on behalf of a client is made only to a backend that the configuration in force when the client's Open was handled assigns to the client's virtual host: the backend it is mapped to, a member of the farm it is mapped to, or, if it is not mapped at all, a member of the default farm. If there is no such mapping, or the mapping names a farm or backend that does not exist, no broker connection is made and the client is refused.",
  ["configurations", "histories", "inputs"],
  "For all sequences of BACKEND/FARM/MAP commands interleaved with client connections for all virtual hosts.",
  "ConnectionSelector tests use one mocked mapping each; none runs a history of re-mappings, deletions and re-additions against live connections.",
  ["connectionselector.cpp", "resourcemapper.cpp", "farmstore.cpp", "backendstore.cpp", "farm.cpp", "mapcontrolcommand.cpp", "farmcontrolcommand.cpp", "backendcontrolcommand.cpp"],
  [("mapping lookup and default farm", "connectionselector.cpp:acquireConnection"), ("mapping table", "resourcemapper.cpp"),
   ("farm membership snapshot", "farm.cpp:doRepartitionWhileLocked")],
  [("resource map", "vhost -> farm or backend"), ("default farm", "used when a vhost is unmapped")],
  ["which broker accepts a connection for which vhost"]),
P("C04", "Failover tries every farm member once, nearest datacenter first",
  "While connecting a client whose virtual host is mapped to a farm, backends that cannot be reached are skipped and each member of the farm is attempted at most once, so the client is connected whenever at least one member is reachable and is disconnected only after every member was attempted. With the datacenter-affinity policy on the farm, every member in the proxy's own datacenter is attempted before any member outside it.",
  ["fault_sequences", "configurations", "histories"],
  "For all farm memberships and datacenter tags, all subsets of unreachable backends, all earlier connection histories (round-robin position) and all changes of the proxy's datacenter between connections.",
  "The selector tests enumerate a few fixed partitions with a mocked backend set; the retry path of Session is tested with one failing connection only.",
  ["session.cpp", "connectionmanager.cpp", "robinbackendselector.cpp", "affinitypartitionpolicy.cpp", "farm.cpp", "backendset.cpp"],
  [("retry counter walk", "session.cpp:attemptConnection/attemptResolvedConnection"), ("candidate order", "robinbackendselector.cpp:select"),
   ("partitioning", "affinitypartitionpolicy.cpp:partition")],
  [("retry counter", "index of the next candidate of this session"), ("markers", "round-robin position per partition")],
  ["order of connection attempts on the backends' listening sockets"]),
P("C05", "Round-robin spreads successive connections evenly over a farm",
  "For a round-robin farm while neither its members nor backends or datacenter are reconfigured, each new connection (made after the previous one has been decided) first attempts the backend of the preferred partition whose last connection attempt lies furthest back, so any n successive successful connections to a farm of n equally preferred reachable backends reach n different backends. This holds for every farm size and independently of other farms.",
  ["histories", "configurations"],
  "For all farm sizes, all numbers and interleavings of connections to several farms, and all patterns of unreachable members.",
  "Selector tests call select() once per attempt with a marker they set themselves; they never observe how often the real connection path advances the marker.",
  ["robinbackendselector.cpp", "connectionmanager.cpp", "backendset.cpp", "session.cpp", "farm.cpp"],
  [("marker advance", "robinbackendselector.cpp:select"), ("marker snapshot", "connectionmanager.cpp:ConnectionManager")],
  [("markers", "per-partition attempt counter shared by all connections to the farm")],
  ["which broker each successive connection reaches"]),
P("C06", "No broker sees a client that the auth service has not allowed",
  "When an auth service is configured at the time a client connects, no connection to any broker is opened for a client before the service has answered ALLOW for a request carrying that client's virtual host, mechanism, credentials and connection name; a DENY, and any failure to obtain a well-formed successful answer (connection refused or cut, HTTP error, unparsable body, unknown result), refuses the client and reaches no broker. If ALLOW carries replacement credentials, the broker is given exactly those instead of the client's; a refused client that advertised authentication_failure_close is told 403 with the service's reason (at most 255 bytes of it), any other is just disconnected.",
  ["inputs", "fault_sequences", "histories"],
  "For all service answers and failures at every point of the exchange, all client capabilities, all interleavings of several clients' requests and all switches between AUTH SERVICE and AUTH ALWAYS_ALLOW.",
  "The HTTP auth tests check construction and a resolver failure; Session tests use a mock intercept that answers at once. No test drives a real HTTP exchange.",
  ["session.cpp", "httpauthintercept.cpp", "defaultauthintercept.cpp", "connector.cpp", "authcontrolcommand.cpp"],
  [("auth decision before connecting", "session.cpp:establishConnection"), ("fail-closed HTTP exchange", "httpauthintercept.cpp"),
   ("refusal", "session.cpp:disconnectUnauthClient")],
  [("auth intercept", "the configured authentication backend")],
  ["accepts on broker sockets", "HTTP requests at the auth service", "frames received by the client"]),
P("C07", "A paused virtual host lets nothing through until it is unpaused",
  "While a virtual host is paused, a client opening it stays connected but no broker connection is made for it, and no byte that a client with an open connection to it sends after the pause took effect reaches the broker, while data from the broker still flows. Unpausing makes every client held during its handshake proceed to a broker and be fully usable (whatever it sent meanwhile), and disconnects every session that was already past that point; other virtual hosts are unaffected throughout.",
  ["schedules", "histories"],
  "For all interleavings of VHOST PAUSE/UNPAUSE with client connects, handshakes, traffic and disconnects over several virtual hosts.",
  "One Session test pauses and unpauses a single mocked session; no test has traffic during the pause, several vhosts or repeated pauses.",
  ["session.cpp", "vhoststate.cpp", "vhostestablishedpauser.cpp", "vhostcontrolcommand.cpp", "server.cpp"],
  [("pause on vhost establishment", "vhostestablishedpauser.cpp"), ("hold and resume", "session.cpp:establishConnection/unpause"),
   ("ingress gate", "session.cpp:readData")],
  [("paused vhosts", "set of paused virtual hosts"), ("ready-to-connect flag", "session held at Open")],
  ["broker accepts and bytes", "client EOFs"]),
P("C08", "Connection-rate limits bound admissions per vhost and never hit others",
  "With a limit of n connections per second in force for a virtual host (its own limit if one is set, otherwise the default one), at most n of its connections are admitted in any limiting window, connections within the limit are admitted, and a connection over it is refused with a Close (506) naming the virtual host and never reaches a broker. Limits of one virtual host are independent of those of every other, alarm-only limits refuse nothing, and setting, replacing or disabling a limit takes effect for the next connection, a virtual host losing its own limit falling back to the default.",
  ["histories", "configurations", "schedules"],
  "For all sequences of limit commands, connection arrivals and clock advances over several virtual hosts.",
  "Limiter tests check one limiter or one command at a time with a few clock values; combinations of default, specific and alarm limiters over time are not explored.",
  ["connectionlimitermanager.cpp", "fixedwindowconnectionratelimiter.cpp", "limitcontrolcommand.cpp", "connectionselector.cpp", "session.cpp"],
  [("limiter choice and lazy default instantiation", "connectionlimitermanager.cpp:allowNewConnectionForVhost"),
   ("window accounting", "fixedwindowconnectionratelimiter.cpp"), ("refusal", "session.cpp:establishConnection")],
  [("per-vhost limiters", "specific and default-derived limiters, normal and alarm-only")],
  ["decision per connection attempt", "Close frames at limited clients"]),
P("C09", "Data-rate limits throttle client reads to the quota and lose nothing",
  "With a data-rate limit of q bytes per second in force for a connection's virtual host, the proxy takes from that client no more than q bytes plus at most the one read in progress per one-second tick, resumes at the next tick, and eventually delivers every byte; the broker-to-client direction and other virtual hosts' connections are not throttled. A limit that is raised, lowered or removed governs the existing and future connections of the virtual host (specific before default), and an alarm-only limit never delays data.",
  ["schedules", "histories", "inputs"],
  "For all sequences of reads, ticks and limit changes, and all read sizes relative to the quota.",
  "The adaptor tests walk a handful of fixed read/tick sequences with mocks; limit changes in mid-stream and end-to-end completeness are not tested.",
  ["dataratelimit.cpp", "dataratelimitmanager.cpp", "maybesecuresocketadaptor.h", "session.cpp", "limitcontrolcommand.cpp"],
  [("quota and remaining bytes", "dataratelimit.cpp"), ("tick timer and delayed read", "maybesecuresocketadaptor.h:async_read_some"),
   ("limit lookup", "dataratelimitmanager.cpp")],
  [("remaining quota", "bytes that may still be read in this tick"), ("timer armed", "a tick is pending")],
  ["completion times of reads", "bytes at the broker"]),
P("C10", "Both legs of a session end together and the session is reaped",
  "Whenever the client or the broker ends its leg of a session, at any stage of the connection and in any way (orderly close, half close, reset), the other leg is closed too, after everything an orderly closing peer had sent in complete frames was delivered, and no other session is affected. (A paused session may notice its client's departure only when unpaused, and a broker leg cut by BACKEND_DISCONNECT is covered by C11.) The session disappears from the CONN listing after the next clean-up pass and each live client connection is listed exactly once until then.",
  ["fault_sequences", "schedules", "histories"],
  "For all stages at which either peer goes away, all kinds of disconnection and all interleavings with other sessions.",
  "Session tests cover a few disconnects of a single mocked session; SessionCleanup and Server are not tested at all.",
  ["session.cpp", "server.cpp", "sessioncleanup.cpp", "sessionstate.cpp", "connectionscontrolcommand.cpp"],
  [("error handling closes both sockets", "session.cpp:handleSessionError"), ("reaping", "sessioncleanup.cpp:cleanup"),
   ("session table", "server.cpp:insertSession/deleteSession")],
  [("session table", "live sessions by id"), ("disconnect type", "how a session ended")],
  ["EOF at either peer", "CONN output"]),
P("C11", "Administrative disconnects act on exactly the sessions they name",
  "SESSION id DISCONNECT_GRACEFUL makes the client receive a Close, waits for its Close-Ok, then closes the broker side with a Close/Close-Ok exchange and ends both legs; SESSION id FORCE_DISCONNECT and VHOST FORCE_DISCONNECT end both legs at once, and VHOST BACKEND_DISCONNECT ends the broker leg at once and the client leg at the latest when the client next sends something. Each acts on exactly the named session or on all sessions of the named virtual host and leaves every other session, including those opened later, working.",
  ["schedules", "histories"],
  "For all stages of the session at which the command arrives, all client reactions (Close-Ok, silence, traffic, disconnect) and all mixes of sessions and virtual hosts.",
  "Two Session tests exercise a graceful and a forced disconnect of one idle mocked session; the VHOST variants and multi-session effects are untested.",
  ["session.cpp", "connector.cpp", "sessioncontrolcommand.cpp", "vhostcontrolcommand.cpp", "server.cpp"],
  [("graceful close state machine", "connector.cpp:receive (CLIENT_CLOSE_SENT, SERVER_CLOSE_SENT)"), ("forced disconnect", "session.cpp:disconnect"),
   ("broker leg disconnect", "session.cpp:backendDisconnect")],
  [("connector state", "OPEN, CLIENT_CLOSE_SENT, SERVER_CLOSE_SENT, CLOSED")],
  ["frames and EOFs at both peers"]),
P("C12", "A client that cannot be connected is told why by an AMQP Close",
  "A client whose Open is refused because there is no mapping for its virtual host or because the connection rate is exceeded receives exactly one Connection.Close, 506 naming the virtual host, before its connection ends; if the broker answers any handshake step with Close, the client receives exactly one Close with the broker's own code and text. (Texts are cut to the 255 bytes the protocol allows.) This holds for every virtual host name and every text the broker may send, and a client speaking another protocol header is answered with the AMQP 0-9-1 header and disconnected.",
  ["inputs", "histories"],
  "For all virtual host names up to the protocol's 255 bytes, all broker Close codes and texts, all handshake stages at which the broker refuses, and all protocol headers.",
  "Session tests check one short vhost name and one broker Close at one stage.",
  ["session.cpp", "connector.cpp", "connectorutil.cpp", "closeerror.cpp", "methods_close.cpp", "reply.cpp"],
  [("refusal texts", "session.cpp:establishConnection"), ("broker Close relayed", "session.cpp:handleData (CloseError)"),
   ("protocol header check", "packetprocessor.cpp / connector.cpp:receive")],
  None, ["frames received by the client before EOF"]),
P("C13", "Malformed or hostile bytes never harm anything but their own connection",
  "Whatever bytes a client, a broker or a control connection sends at any stage, the proxy process keeps running, does not read or write outside its buffers, and keeps serving every other connection. A connection that violates framing (bad frame end, oversized frame, undecodable handshake method) is closed and nothing of the offending frame is forwarded; a handshake method frame too short to name a method is ignored or closes its connection.",
  ["inputs", "fault_sequences"],
  "For all byte strings at every handshake stage in both directions, in particular all truncations and length-field corruptions of field tables and methods, and arbitrary nesting.",
  "Decoder tests feed well-formed values and two or three truncated ones; none is run under a sanitizer against arbitrary mutations.",
  ["types.cpp", "method.cpp", "frame.cpp", "packetprocessor.cpp", "buffer.cpp", "connector.cpp", "control.cpp", "fieldtable.cpp"],
  [("bounds-checked decoding", "types.cpp"), ("frame validation", "frame.cpp:decode"), ("exception barrier", "session.cpp:handleData")],
  None, ["process liveness, sanitizer reports, other connections' service"]),
P("C14", "Listeners accept exactly while started, and secure ones only TLS",
  "A port accepts clients exactly from LISTEN START or START_SECURE until LISTEN STOP for it (or for all ports), restarting a port gives it the kind last asked for, and stopping affects no established session. No AMQP byte is ever exchanged in clear on a secure listener or with a TLS backend, a plain listener or backend never requires TLS, and a port that cannot be opened leaves the proxy and its other listeners working.",
  ["histories", "configurations", "schedules"],
  "For all sequences of START/START_SECURE/STOP over several ports (immediately repeated ones included), busy ports, and TLS or plain peers on either leg.",
  "Server and the LISTEN command have no tests at all.",
  ["server.cpp", "listencontrolcommand.cpp", "maybesecuresocketadaptor.h", "session.cpp", "tlscontrolcommand.cpp"],
  [("acceptors per port", "server.cpp:startListening/stopListening/doAccept"), ("TLS handshake before AMQP", "session.cpp:start/attemptEndpointConnection")],
  [("listening sockets", "port -> acceptor")],
  ["connectability and first bytes on each port"]),
P("C15", "Control commands change exactly the configuration they name",
  "After any sequence of control commands, what the PRINT and CONN/LIMIT queries report and what new connections experience is the configuration obtained by applying the accepted commands in order; a command that is malformed, adds a backend that exists, deletes one that does not, or builds or partitions a farm from something missing changes nothing and says so. Deleting or re-adding a backend or farm never disturbs established connections or other entities, and every command gets its own complete answer.",
  ["histories", "inputs"],
  "For all sequences of well-formed and malformed BACKEND/FARM/MAP/DATACENTER/VHOST/LIMIT commands over a small set of names.",
  "Store tests perform single inserts and removals; the command handlers have no tests.",
  ["control.cpp", "backendcontrolcommand.cpp", "farmcontrolcommand.cpp", "mapcontrolcommand.cpp", "datacentercontrolcommand.cpp", "vhostcontrolcommand.cpp", "limitcontrolcommand.cpp", "backendstore.cpp", "farmstore.cpp", "resourcemapper.cpp"],
  [("command dispatch", "control.cpp"), ("stores", "backendstore.cpp, farmstore.cpp, resourcemapper.cpp, vhoststate.cpp")],
  [("configuration", "backends, farms, policies, maps, default farm, paused vhosts, limits")],
  ["answers on the control socket"]),
P("C16", "Statistics account for every connection, frame and byte exactly once",
  "Over any history of sessions, the totals reported overall, per virtual host, per backend and per source equal what actually passed: each byte, frame and connection is counted exactly once in each view, deltas between successive reports add up to the totals, and nothing is lost or counted again when a session ends or its statistics are collected at different times. Every form of report (JSON, human, any filter, StatsD) gives the same figures; while per-source statistics are disabled, and in the first report after enabling them, none are given and the other views are unaffected.",
  ["histories", "schedules"],
  "For all interleavings of traffic, collections, session ends and reports over several virtual hosts, backends and sources.",
  "StatCollector tests run one or two sessions through one or two reports.",
  ["statcollector.cpp", "connectionstats.cpp", "statsnapshot.cpp", "sessionstate.cpp", "sessioncleanup.cpp", "packetprocessor.cpp"],
  [("collect/reset/delta", "statcollector.cpp"), ("per-session counters", "sessionstate.cpp"), ("final accounting on reap", "sessioncleanup.cpp")],
  [("current/previous per-key stats", "totals of live and deleted sessions")],
  ["StatSnapshot contents", "STAT LISTEN output", "CONN output"]),
P("C17", "Name resolution serves fresh, correct answers and never caches failures",
  "Every resolution request is answered exactly once, with the addresses of the requested host and port: from the cache if a successful answer for it was stored since the last cache expiry, otherwise from a new lookup. Failed lookups are reported and never cached, an expired or cleared cache is never served, and answers for different hosts or ports are never mixed up.",
  ["histories", "schedules"],
  "For all interleavings of requests, lookup completions (success or failure), cache expiries and cache seeding over several host/port pairs.",
  "DNSResolver tests make one or two lookups each.",
  ["dnsresolver.cpp", "dnsresolver.h"],
  [("cache and cleanup timer", "dnsresolver.cpp:resolve/startCleanupTimer")],
  [("cache", "host,port -> endpoints since the last expiry")],
  ["callback results"]),
P("C18", "Every live buffer is exclusive and the pool accounts for all of them",
  "Two buffers held at the same time never overlap, a buffer is at least as large as was asked for, its contents are changed only by its holder, and releasing a buffer makes exactly it available again. At every moment the pool's outstanding and high-water figures per size and its spill-over count equal the numbers of buffers of that size actually held, held at peak, and ever taken beyond the largest size.",
  ["histories", "inputs"],
  "For all sequences of acquire, release, move, swap and assign over all sizes, including sizes above the largest class.",
  "BufferPool tests acquire and release a handful of buffers.",
  ["bufferpool.cpp", "buffersource.cpp", "bufferhandle.cpp"],
  [("size classes and spill-over", "bufferpool.cpp:acquireBuffer"), ("free list", "buffersource.cpp"), ("ownership transfer", "bufferhandle.cpp")],
  [("outstanding/allocated/high-water per size", "pool statistics")],
  ["addresses, sizes and statistics"]),
P("C19", "The broker is told the real client's identity, never another's",
  "For a backend configured with SEND-PROXY, the first bytes on every broker connection are exactly one PROXY v1 line with that client's real source address and port, sent before any TLS or AMQP byte; no other backend ever gets such a line. Every Start-Ok carries amqpprox_client with the client's real host and port (marked TLS exactly when it came over TLS), and amqpprox_host naming the listening port and the broker connection's local port, replacing any values the client itself supplied under those names.",
  ["inputs", "configurations", "histories"],
  "For all clients, listeners, backends with and without SEND-PROXY/TLS, client-supplied properties and failover sequences.",
  "One test checks the header text and one fixed Session step list checks one injected field.",
  ["proxyprotocolheaderv1.cpp", "session.cpp", "connector.cpp", "connectorutil.cpp", "sessionstate.cpp"],
  [("PROXY line", "session.cpp:getProxyProtocolHeader"), ("identity fields", "connectorutil.cpp:injectedProxyClientIdent")],
  None, ["first bytes and Start-Ok at the broker"]),
P("C20", "TLS settings bind every connection made after they are set",
  "Once TLS INGRESS VERIFY_MODE asks for a peer certificate, no client accepted afterwards gets any AMQP answer unless its certificate is signed by the configured CA (or it shows none and FAIL_IF_NO_PEER_CERT is not set); likewise no broker with an untrusted certificate is ever sent AMQP once TLS EGRESS VERIFY_MODE is PEER. Connections accepted after a certificate change see the new certificate, TLS brokers are shown the configured egress certificate, a backend added with TLS is never sent AMQP in clear (nor one added without it TLS), whichever attempt of a failover reaches it, a file that cannot be loaded is reported and leaves the previous setting in force, and established connections are not affected.",
  ["histories", "configurations"],
  "For all sequences of TLS and LISTEN commands interleaved with connections (the very next one included) by clients and brokers with trusted, untrusted and no certificates.",
  "TLS is not exercised by any test.",
  ["tlscontrolcommand.cpp", "server.cpp", "maybesecuresocketadaptor.h", "tlsutil.cpp", "session.cpp"],
  [("settings", "tlscontrolcommand.cpp:handleCommand"), ("TLS state per connection", "server.cpp:doAccept"), ("verification callback", "tlsutil.cpp:logCertVerificationFailure")],
  [("TLS settings", "verify modes and certificates of each direction")],
  ["outcome of connections, certificate seen by each peer"]),
P("C21", "AMQP frames, methods and tables are decoded and encoded exactly",
  "Every well-formed frame, connection method and field table, of any field type and any nesting up to 30 levels, is decoded completely, and encoding what was decoded gives the same bytes again (booleans normalised to 0 or 1, the tag 'U' written as its synonym 's'). A frame that is not complete yet is waited for and one with a bad end or beyond the maximum size is rejected; a method or table that is cut short, or whose inner lengths exceed what surrounds them, is rejected and never partly used. Decoding never looks at bytes outside those given, and encoding into too little space fails without writing outside it.",
  ["inputs"],
  "For all byte strings given to the decoders and all sizes of the space given to the encoders.",
  "The decoder tests use a few well-formed values and two or three truncated ones.",
  ["types.cpp", "fieldtable.cpp", "fieldvalue.cpp", "frame.cpp", "method.cpp", "buffer.cpp", "methods_start.cpp", "methods_startok.cpp", "methods_tune.cpp", "methods_open.cpp", "methods_close.cpp"],
  [("decoding", "types.cpp, frame.cpp:decode, method.cpp:decode"), ("encoding", "types.cpp, frame.cpp:encode, method.h:encode")],
  None, ["decoded values, bytes encoded from them, bytes left over"]),
P("C22", "The proxy starts, stops and restarts as told, whatever was left behind",
  "Started without the simplified-mode options the proxy has no listener and an empty configuration; started with all three it accepts clients on that port and sends every virtual host to that destination; started with an incomplete or invalid command line it exits with an error and touches nothing. EXIT is answered, ends every connection on both legs, removes the control socket and makes the process exit with status 0. After EXIT or after being killed at any moment, the same command line starts it again with nothing remembered but the command line; a busy port leaves it running and controllable; instances with different control sockets do not affect each other.",
  ["crash points", "histories", "configurations"],
  "For all command lines and all sequences of starts, clients, configuration, EXIT and kills (at any point of starting or running) of several instances.",
  "No test runs the program itself.",
  ["control.cpp", "server.cpp", "exitcontrolcommand.cpp", "listencontrolcommand.cpp"],
  [("simplified mode, start and end", "amqpprox/amqpprox.m.cpp:main"), ("end", "exitcontrolcommand.cpp:handleCommand"), ("control socket", "control.cpp:Control")],
  [("instances", "processes, control socket files and ports of each instance")],
  ["exit status, control socket file, port, connections, PRINT answers"]),
P("C23", "The CONN listing tells the truth about every connection",
  "From the moment a client has connected until the first clean-up after its end, CONN shows exactly one line for it, with an id of its own that never changes and that SESSION commands act on; the line gives the virtual host once the client has asked for one, the true addresses and ports of the client, the proxy and the broker (as host names where they have one, once MAPHOSTNAME DNS has been given; zero while there is no broker connection), the complete frames and bytes relayed in each direction so far (a part of a frame does not count), and whether it is over, paused (including held for a paused virtual host) or was denied by the authentication service. No line shows a connection that does not exist, and a line's figures never decrease.",
  ["histories", "schedules", "inputs"],
  "For all histories of connections from several sources to several virtual hosts, traffic, pauses, ends of every kind, clean-ups and MAPHOSTNAME at any point.",
  "Tests set the fields of one SessionState and read them back; the listing of live sessions is not tested.",
  ["sessionstate.cpp", "session.cpp", "server.cpp", "dnshostnamemapper.cpp", "packetprocessor.cpp", "maphostnamecontrolcommand.cpp", "connectionscontrolcommand.cpp"],
  [("the line", "sessionstate.cpp:operator<<"), ("addresses", "session.cpp:Session, session.cpp:attemptEndpointConnection"), ("names", "dnshostnamemapper.cpp"), ("list", "server.cpp:printConnections")],
  [("sessions", "stage, endpoints, virtual host, flags and totals of each session")],
  ["CONN output"]),
]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
