CHECKS.update({
 "C01": ("TLA+ specification (Relay.tla, RelayLoop.tla), TLC model checking + TLC trace validation of the real binary",
   "RelayLoop.tla models the read/scan/remainder/write loop byte by byte and TLC checks prefix and progress exhaustively for small frames; "
   "Relay.tla states the observable relation and TLC-generated behaviours (frame sizes, segmentations, stalls, TLS combinations) are replayed "
   "on the real binary and the recordings validated by TLC. Assumes loopback TCP and frames up to 150000 bytes."),
 "C02": ("TLA+ specification (Handshake.tla), TLC model checking + TLC trace validation of the real binary",
   "The handshake transformation is an explicit function over abstract Start-Ok/Tune/Open values in Handshake.tla; TLC enumerates one behaviour "
   "per class and random ones, the driver performs them on the real binary and TLC accepts or rejects the decoded broker/client views. "
   "Assumes Start-Ok of at most 131072 bytes; values are boundary samples of each field type."),
 "C18": ("TLA+ specification (Buffers.tla), TLC model checking + TLC trace validation of the real BufferPool/BufferSource",
   "TLC explores the pool exhaustively for small size sets and thread-local/global histories; covering and random histories are replayed on the "
   "real classes by a component driver which reports addresses, contents and figures. Assumes addresses and contents sampled at each step."),
 "C19": ("TLA+ specification (Handshake.tla), TLC model checking + TLC trace validation of the real binary",
   "Same specification and driver as C02, over layouts of plain/TLS/SEND-PROXY/DNS backends and failover; the recordings carry the PROXY line and "
   "injected identity properties as seen by the broker."),
})
CHECKS.update({
 "C08": ("TLA+ specification (ConnLimits.tla), TLC model checking + TLC trace validation of the real binary",
   "TLC explores limiters, windows and refusals exhaustively for small limits; covering and random histories of LIMIT commands, simultaneous "
   "connections, pauses and passing time are performed on the real binary under a driver-controlled monotonic clock, and TLC judges the recordings."),
 "C09": ("TLA+ specification (DataRate.tla), TLC model checking + TLC trace validation of the real binary",
   "TLC explores quota, tick and refill behaviour exhaustively for small constants; covering and random histories of limits, chunks, ends and "
   "passing time (plain and TLS clients) are performed on the real binary under a driver-controlled monotonic clock, and TLC judges the recordings. "
   "Assumes a chunk of up to 4096 bytes arrives as one segment or TLS record."),
})
CHECKS.update({
 "C17": ("TLA+ specifications (DnsCache.tla, DnsConn.tla), TLC model checking + TLC trace validation of the real DNSResolver and of the real binary",
   "TLC explores the cache, outstanding lookups and expiry exhaustively for small constants; covering and random histories are replayed on the real "
   "DNSResolver (component driver owning getaddrinfo and the clock), and connections through ADD_DNS backends on the real binary; TLC judges the recordings."),
})
CHECKS.update({
 "C16": ("TLA+ specification (Stats.tla), TLC model checking + TLC trace validation of the real SessionCleanup/StatCollector and of the real binary",
   "TLC explores connections, traffic, ends and reports exhaustively for small constants (everything that happened is reported or owed, views add up); "
   "covering and random histories, with ends and traffic landing in the middle of a collection, are replayed on the real classes over a real Server's "
   "sessions, and on the real binary where STAT LISTEN (json, human, every filter) and STAT SEND must say the same; TLC judges the recordings."),
})
CHECKS.update({p: ("TLA+ specification (Listeners.tla), TLC model checking + TLC trace validation of the real binary",
   "TLC explores listeners, other programs' ports, TLS settings and connections exhaustively for two ports; covering and random histories (several "
   "LISTEN commands arriving while the server thread is busy included) are performed on the real binary with plain and TLS peers holding trusted, "
   "untrusted and no certificates, and TLC judges the recordings. Assumes TLS 1.2 peers of the Python ssl module.") for p in ("C14", "C20")})
CHECKS.update({
 "C13": ("TLA+ specification (Hostile.tla over the byte grammar Amqp.tla), TLC model checking + TLC trace validation of the real binary under sanitizers",
   "Amqp.tla is an executable grammar of AMQP bytes; Hostile.tla says where any byte string takes a connection at each stage. Every truncation, every "
   "one-byte change and random double changes of each stage's message, odd frames, nonsense on control and TLS sockets are sent to the real binary "
   "(address and undefined-behaviour sanitizers) next to a bystander and a newcomer; TLC judges the recordings."),
 "C21": ("TLA+ specification (Codec.tla over Amqp.tla), TLC model checking + TLC trace validation of the real decoders and encoders under sanitizers",
   "The grammar decides for every byte string whether and how it decodes and what it encodes to; all truncations and one-byte changes of sample messages "
   "of each kind and random mutations of random messages are given to the real decoders and encoders in exactly sized buffers (address sanitizer); TLC "
   "judges each answer."),
})
CHECKS.update({
 "C22": ("TLA+ specification (Lifecycle.tla), TLC model checking + TLC trace validation of real proxy processes",
   "TLC explores starts, ends, crashes, clients, other programs' ports and configuration of one or two instances exhaustively; covering and random "
   "histories are performed with real processes (killed at running and while starting) and TLC judges the recordings. A crash is SIGKILL."),
})
CHECKS.update({
 "C23": ("TLA+ specification (Listing.tla), TLC model checking + TLC trace validation of the real binary",
   "TLC explores two clients through dialling, opening, holding, traffic, pauses, ends, clean-ups and MAPHOSTNAME; covering and random histories with "
   "several sources, proxy addresses and brokers run on the real binary and TLC compares every line of CONN after each step with the peers' own view. "
   "Packet counts, latencies and idle times are not compared."),
})
