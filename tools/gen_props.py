"""Writes properties.jsonl and MANIFEST.json."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
V="saltchannel/v2/"
CS,SS,EC,AC,PK=V+"salt_client_session.py",V+"salt_server_session.py",V+"encrypted_channel_v2.py",V+"app_channel_v2.py",V+"packets.py"
CH="saltchannel/channel.py"; UP="saltchannel/util/packets.py"; UI="saltchannel/util/__init__.py"; TI="saltchannel/util/time.py"
CSA="saltchannel/dev/client_server_a.py"; MI="saltchannel/dev/mitm_channel.py"; SL="saltchannel/saltlib/"
A1="saltchannel/a1a2/a1_client_session.py"; AP="saltchannel/a1a2/packets.py"
LIBS=[SL+"saltlib.py",SL+"saltlib_native.py",SL+"saltlib_pynacl.py",SL+"saltlib_tweetnaclext.py"]
TEST="The tests only pack and unpack single packets; no test runs a session, "
p("C01","Every written message arrives exactly once, in order, intact",
 "When two honest endpoints complete a handshake over a transport that delivers bytes reliably, every message either application writes, alone or several per write, of any size and number, is returned by exactly one read at the other end, unchanged and in writing order. No operation fails or blocks forever, for any combination of options, transport kind, read and write pacing, and segmentation of the stream.",
 ["schedules","histories","inputs","configurations"],"all conversations, message sizes (0 to over 65535 bytes) and counts per write (1 to over 65535), both directions, buffered or unbuffered handshake messages, sync or async use, TCP-like streams cut into any segments with any delay and backpressure",
 TEST+"splits a stream into segments or writes from both ends at once.",[CS,SS,EC,AC,PK,CH,CSA],
 [("application packets and multi-message packets",AC),("nonce counters",EC),("length-prefixed framing",CH+", "+CSA),("buffered handshake messages",CS+", "+SS)],["messages returned by read() against messages passed to write()","end of every endpoint"])
p("C02","Reads return only a prefix of what the peer wrote, whatever the network does",
 "Whatever an active attacker without the keys does to the traffic (altering, dropping, duplicating, reordering, replaying, reflecting, injecting or splicing frames from other sessions), the sequence of messages an application reads is always a prefix of the sequence its authenticated peer wrote in that session. This still holds when the application keeps reading after a failed read.",
 ["fault_sequences","histories","schedules"],"all sequences of frame-level attacks at any point of any conversation, on any transport, including reads after errors",
 TEST+"and none modifies traffic.",[EC,AC,PK],[("authenticated decryption under a per-message nonce that only advances on success",EC),("packet type and size checks",AC+", "+PK)],["messages returned by read()"])
p("C03","A client handshake succeeds only against the holder of the accepted server key",
 "A client handshake completes only if the peer proves, for this very exchange, possession of the signing key it presents, and, when the client asked for a specific server key, only if that key is the one presented. In every other case (missing, forged, replayed, relayed or wrongly bound proof) the handshake fails with a communication error before the client has sent its identity or any application data; a genuine server is never refused.",
 ["inputs","fault_sequences","histories"],"all behaviours of a hostile server or man in the middle who holds its own keys and signatures seen in other sessions, but not the genuine server's signing key",
 TEST+"so no signature is ever verified.",[CS]+LIBS[:1],[("signature check over both handshake hashes",CS+" validate_signature1"),("requested server key compared with the one presented",CS)],["result of handshake()","frames sent by the client"])
p("C04","A server handshake succeeds only for the holder of the reported client key",
 "A server handshake completes only if the peer proves, for this very exchange, possession of the signing key that the server then reports as the client's identity. In every other case the handshake fails with a communication error and no application data from that peer is delivered; a genuine client is never refused.",
 ["inputs","fault_sequences","histories"],"all behaviours of a hostile client holding its own keys and signatures seen elsewhere (including the server's own proof reflected), but not the key of the identity it claims",
 TEST+"so no client is ever authenticated.",[SS],[("signature check over both handshake hashes",SS+" validate_signature2"),("client key taken from the verified message",SS)],["result of handshake()","reported client key","messages read"])
p("C05","Both ends agree on the handshake transcript, keys and identities, or fail",
 "If either endpoint completes a handshake, both saw byte-identical opening messages, and where both complete they hold the same session key and each reports the other's true identity. Any interference with a handshake message makes the affected endpoint fail; an untouched handshake succeeds even while other sessions of the same two parties are attacked.",
 ["fault_sequences","schedules","histories"],"all modifications, drops, duplications, reorderings, reflections and cross-session splices of any handshake frame",
 TEST+"so nothing relates the two ends of one.",[CS,SS],[("hash of the opening messages signed by both ends",CS+", "+SS),("session key from both ephemeral keys",CS+", "+SS)],["handshake results, session keys and peer identities of both ends","frames sent and received"])
p("C06","No nonce is reused and no plaintext or identity leaks, even when writes fail",
 "Everything an endpoint puts on the wire after its opening message is an encrypted packet, and in one session no two packets are ever encrypted under the same nonce: each direction uses its own strictly increasing sequence. Application data, the session key, secret keys and either party's identity (except a server key the client asks for) never appear unencrypted on the wire, also when writes fail, are cancelled, or are issued by several tasks.",
 ["schedules","fault_sequences","histories"],"all interleavings of writers, and write failures or cancellations at any point followed by further writes",
 TEST+"fails or cancels a write, or looks at nonces.",[EC,AC,CS,SS],[("nonce advanced for every packet encrypted, before the transport write",EC),("first client write bundled with the buffered identity message",AC+", "+CS)],["every frame on the wire, decrypted with the reference model"])
p("C07","Both roles speak exactly Salt Channel v2 and interoperate with it",
 "Every frame either role sends in a session is byte for byte the one the Salt Channel v2 (draft 8) protocol prescribes for that session's keys, options and writes. A session with an independent implementation of the protocol in the other role completes and carries all messages both ways, whichever legal packaging and time values that implementation uses.",
 ["configurations","inputs","histories"],"all keys, options, conversations, packagings and legal time values, with the other end real or an independent implementation",
 "The packet tests compare a few fixed byte strings of single packets; they cannot see what a session sends or accepts.",[CS,SS,EC,AC,PK,UP]+LIBS,[("packet layouts",PK+", "+UP),("handshake steps",CS+", "+SS),("encryption and nonces",EC)],["frames on the wire against the reference model"])
p("C08","Whatever a peer sends, only ComException-family errors surface, and no junk",
 "Whatever bytes a peer sends, in the handshake or after it, correctly encrypted or not, the local handshake and reads end: each either succeeds or raises a communication error, and malformed or unacceptable protocol data is reported as the peer's fault (BadPeer). No other exception, hang or runaway allocation results, and a read returns only messages contained in well-formed packets.",
 ["inputs","fault_sequences","schedules"],"all byte strings and packet sequences from a hostile client or server that may hold valid keys",
 "The tests feed a handful of malformed packets to the codecs, never to a session.",[CS,SS,EC,AC,PK,UP,CH,CSA]+LIBS,[("size and type checks when a packet is parsed",PK+", "+UP),("error translation",EC+", "+CS+", "+SS),("length prefix checks",CH+", "+CSA)],["exceptions and results of handshake() and read()"])
p("C09","A connection broken at any point yields whole messages, then an error",
 "If the connection ends, is reset, or a socket call fails at any byte, each endpoint reads, in order, exactly the messages that arrived whole before an orderly end (after a reset, possibly fewer), and then every operation needing more data fails with a communication error; nothing torn, empty or stale is returned, a write fails if the socket refuses data or the connection is known to be gone, and nothing blocks forever. A handshake whose messages did not all arrive never succeeds, and a new connection afterwards works.",
 ["crash_points","fault_sequences","schedules"],"all positions (bytes or frames) of end of stream, reset or failing send/receive in either direction of any conversation",
 TEST+"and no connection is ever broken.",[CH,CSA,EC,AC,CS,SS],[("exact reads with error on short data",CH+", "+CSA),("translation of transport errors",CH+", "+CSA)],["messages and errors of both endpoints against frames that arrived whole"])
p("C10","Framing channels carry whole byte messages over any byte stream",
 "Each framing channel (socket, asyncio stream, and the logging wrapper around either) delivers the messages written at one end to reads at the other, whole, in order and unchanged, including empty ones and several per write, however the byte stream is cut and delayed, and agrees with the length-prefixed format an independent implementation uses. A stream that ends, breaks or carries an impossible length gives a communication error, never a partial or invented message.",
 ["schedules","inputs","crash_points"],"all message sequences, segmentations, short reads, partial sends, delays and breaks",
 "No test touches a channel.",[CH,CSA,MI],[("length prefix framing and exact reads",CH+", "+CSA),("pass-through wrapper",MI)],["messages read and bytes on the stream"])
p("C11","Cancelling a read or write never loses, repeats, tears or corrupts messages",
 "With the asyncio API, a read or write may be cancelled or time out at any await point and the channel stays usable. Messages not returned by a cancelled read are returned by later reads; a cancelled write is afterwards delivered either completely or not at all; all other messages are unaffected.",
 ["schedules","fault_sequences"],"all cancellation instants of reads and writes at either end, with any segmentation, delay and backpressure",
 "No test runs an event loop.",[CH,CSA,EC,AC],[("buffered exact reads that keep partial data",CSA+", "+CH),("read state advanced only on success",EC+", "+AC)],["messages read after cancelled operations"])
p("C12","Concurrent tasks writing to one channel get atomic, ordered writes",
 "Any number of tasks may write to one application channel while another reads it: the messages of one write call arrive contiguous and in order, each task's writes arrive in the order it made them, and no message is lost, repeated or makes the peer fail. This includes the very first writes, racing with a handshake message still held back.",
 ["schedules"],"all interleavings of writer and reader tasks with suspended transport writes",
 "No test runs concurrent tasks.",[AC,EC,CH,CSA],[("encryption and handing over to the transport without a gap another writer could enter",EC+", "+AC)],["order of messages read"])
p("C13","Concurrent sessions in one process never influence each other",
 "Any number of sessions may run in one process on different threads or tasks, in either role, with their own keys, options and clocks: each behaves exactly as if it were alone, whatever the others do, and also when a neighbour is broken or attacked. Messages, keys, identities, time settings and results never cross from one session to another.",
 ["schedules","fault_sequences","configurations"],"all interleavings (task switches; thread switches between any two lines of the library) of two or more sessions, healthy, broken or attacked",
 "No test runs two sessions.",[CS,SS,EC,AC,PK,UP,UI,TI]+LIBS,[("per-session state; shared objects hold no session state",CS+", "+SS+", "+TI+", "+UI)],["messages, results and wire bytes of every session"])
p("C14","Time fields tell the send time; messages failing the time check stay undelivered",
 "With a session's clock enabled, its opening message carries time 1 and later packets the milliseconds since then at which they were produced; without a clock every time field is 0. Each received packet's time is passed to the session's time checker once, in order, before its content is used: a packet the checker rejects is never delivered and its error reaches the application, and a first time other than 0 or 1 fails the handshake as the peer's fault.",
 ["schedules","fault_sequences","inputs"],"all delays and stalls of the network, clock readings, paces, tolerances and first-time values of the peer",
 "No test has a clock or a session.",[CS,SS,AC,TI],[("time taken when the packet is built",CS+", "+SS+", "+AC),("check on every received packet",CS+", "+SS+", "+AC)],["time fields on the wire","values passed to the time checker","messages delivered"])
p("C15","The last-message indication is raised by the marked write and by nothing before",
 "When an application marks a write as its last, the peer's last-message indication is set after it has read the final message of that write. It is never set after the handshake, after a message of an unmarked write, or while packets of the marked write are still to come; on the wire the flag is on exactly the final packet of a marked write, and the channel underneath is told with that write and no other.",
 ["histories","configurations","inputs"],"all conversations, packagings (one, several or oversized messages per write), buffering options and peers",
 "The tests check the flag bit of one packet, not when an application sees it.",[AC,EC],[("flag on the final packet of a write",EC),("flag reported with the message",AC)],["last-message indication after every read","flags on the wire"])
p("C16","Discovery tells each client what the addressed server offers, or NoSuchServer",
 "A discovery request for any server, or for the server's own key, is answered once with exactly the protocols the server offers; a request for any other key is answered NoSuchServer; the client reports exactly what the answer says, and the connection can then carry a normal session. Malformed requests or answers, and broken connections, end in a communication error (malformed ones as the peer's fault) without a wrong offer.",
 ["inputs","fault_sequences","configurations"],"all addresses, protocol lists, malformed packets, breaks, segmentations and API variants, with either end real or independent",
 "The tests parse fixed discovery packets; no test runs the exchange.",[A1,AP,SS],[("answer by address",SS),("packet validation",AP)],["result of the discovery call","frames on the wire"])
p("C17","Asking for a server key that is not there fails as NoSuchServer on both ends",
 "When a client asks for a specific server key that the contacted server does not have, the server answers with the NoSuchServer message and nothing else, and both handshakes fail with NoSuchServer; the client sends nothing further. When the server has that key the session proceeds normally.",
 ["inputs","configurations","schedules"],"all wanted keys (including ones differing in one bit), options, transports, with either end real or independent",
 TEST+"so this path is never taken.",[CS,SS],[("comparison of the wanted key",SS),("NoSuchServer answer and its handling",SS+", "+CS)],["handshake results","frames on the wire"])
p("C18","Any installed crypto library works alone, is picked by rank, and interoperates",
 "The package imports and works on a host with any non-empty subset of the supported crypto libraries, uses the highest-ranked one installed unless told otherwise, and reports a missing library only when one is asked for that is not there. Every library gives the same keys, signatures, hashes and ciphertexts, rejects altered data with the same errors, and sessions between hosts using different libraries work exactly as between equal ones, with or without interference.",
 ["configurations","fault_sequences","inputs"],"all subsets of installed libraries on either host, explicit selections, conversations and attacks",
 "The tests run with whatever is installed on the test host.",LIBS,[("optional imports and availability flags",", ".join(LIBS[1:])),("selection",LIBS[0])],["import, selection result, crypto results, session behaviour, which library is called"])
p("C19","Blocking and asyncio use of a channel behave alike, on any thread or loop",
 "The same conversation over sessions or bare encrypted channels, carried out with the coroutine API, its blocking counterpart, or a mix, puts the same bytes on the wire and gives the same results, errors and last-message indications, also when the same frame is damaged. Blocking use works on any thread, with or without a current event loop, after a handover to another thread, and always runs on the event loop given explicitly.",
 ["schedules","configurations","fault_sequences"],"all conversations, API variants, transports, threads, event-loop arrangements and damaged frames",
 "No test uses either API.",[UI,CH,CS,SS,EC,AC],[("generated blocking methods",UI+" Syncizer"),("event loop chosen per object",UI+" force_event_loop")],["results of two or three variants of one conversation"])
p("C20","Generated keys are valid, fresh and wholly random, or generation fails",
 "Every generated signing or encryption key pair is a valid pair whose secret comes wholly from the selected random source and shares nothing with any other generated key, however many threads generate keys at once. When the random source fails, key generation fails with an error; it never returns a key, and works again once the source does.",
 ["schedules","fault_sequences","configurations"],"all interleavings of generating threads, failure patterns of the random source, installed libraries and generator selections",
 "No test generates a key or fails the random source.",LIBS,[("secret drawn from the random source per key",LIBS[0]),("key derivation",", ".join(LIBS[1:]))],["generated key pairs and raised errors"])
DEV="saltchannel/dev/"
p("C21","The shipped client/server pairs serve every client and outlive broken ones",
 "The shipped blocking and asyncio client/server pairs run any number of client sessions, the shipped ones or an application's own, at once or in turn, against one server: each client session gets a working connection of its own, served by one server session, and exchanges exactly what that session documents; running the sessions returns once all have ended. A client that breaks off, sends junk or loses its connection harms no other session: the server goes on serving until it is stopped, and stopping ends it.",
 ["schedules","fault_sequences","configurations"],"all interleavings of client threads, server thread and event loops, numbers of clients, sessions, broken and junk-sending clients, connection cuts and refusals",
 "No test starts a pair or runs an example session.",[DEV+"client_server.py",DEV+"client_server_a.py",DEV+"example_session1.py",DEV+"example_session3.py",DEV+"simple_echo_session.py",DEV+"mitm_channel.py","saltchannel/util/crypto_test_data.py"],
 [("client threads joined, sockets closed, one handler per connection",DEV+"client_server.py"),("stream protocol per connection, clients awaited",DEV+"client_server_a.py"),("documented exchanges",DEV+"example_session1.py, example_session2.py, example_session3.py and their _a versions")],["which sessions ran and ended, bytes on each connection, byte counters, whether the server listens"])
p("C22","The logging wrapper records each message that passed once, and only those",
 "A logging wrapper around any channel, used through coroutines or blocking calls, by one or several tasks, emits exactly one record for each message that passed through it, with its direction, length and content, in the order the operations completed; the messages of one write stay together, a failed read is not recorded, and a failed or cancelled write is recorded at most once. Records come out as the operations complete; while buffering is on they are held back, and a flush then emits each of them once, in order and unaltered. Its byte counters equal what passed, and what the wrapped channel delivers is unchanged.",
 ["schedules","fault_sequences","histories"],"all interleavings of reading and writing tasks, cancelled and failing operations, broken connections, and times at which buffering is turned on, off or flushed",
 "No test touches the wrapper.",[MI],[("records made after each completed operation, buffered or emitted",MI+" _log_event, flush_log_buffer"),("byte counters",MI)],["records received by the logger against operations that completed","byte counters"])
p("C23","A refused write changes nothing",
 "A write on the application channel that cannot be carried out, because one of its messages is not bytes or cannot be converted to bytes, or because the session's clock fails, is refused with an error and has no other effect: no frame is sent, a handshake message still held back is not lost, a last-message mark of the refused call does not stick, and every message written before and after it arrives as if the call had never been made.",
 ["fault_sequences","histories","configurations","inputs"],"all conversations and options, refused calls before any write including the very first, any wrong argument at any place among good ones, several refused calls in a row, clock failures at any write",
 TEST+"and no test makes a call fail.",[AC,EC,CS],[("packets are built before anything is sent or forgotten",AC+" write"),("held-back M4",CS+" do_m4, "+AC)],["frames sent during the refused call","every frame on the wire","messages read by the peer"])
checks=[dict(property=x["id"],quick_cmd="/opt/venv/bin/python -B check.py run %s quick"%x["id"],
  thorough_cmd="/opt/venv/bin/python -B check.py run %s thorough"%x["id"],
  technique="deterministic simulation with fault injection: seeded search over schedules, segmentations, configurations and faults of real sessions in one process, judged by an independent protocol model; failures minimised and replayable",
  level="exploration",
  level_note="Sampling, not proof: every explored run is one seed and replays exactly. Trusts libsodium/PyNaCl primitives, CPython asyncio, and the simulated network, sockets, clock, scheduler and random source listed in the evidence.") for x in P]
p("N01","The bundled pure-Python NaCl computes the same functions as NaCl",
 "For every input, the pure-Python NaCl shipped with the package returns exactly what the reference NaCl library returns, and rejects what it rejects.",
 ["inputs"],"all keys, nonces and messages","The tests run a few vectors.",[SL+"saltlib_pure.py",SL+"pure_pynacl/"],[("field and curve arithmetic",SL+"pure_pynacl/")],["return values"])
NA=[dict(property="N01",reason="A pure function of its input: no schedule, clock, I/O, fault or second party for a simulator to decide; also not selectable through the library facade. Would need differential or proof techniques.")]
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
json.dump(dict(version=1,setup_cmd="/opt/venv/bin/python -B check.py selftest",checks=checks,not_applicable=NA,
  notes="No hooks in /repo: all seams are existing ones (channel objects, event loop policy, sockets, os.urandom, locks) replaced from outside. VERIF_SEED selects the batch of seeds; see DESIGN.md."),open("/verif/MANIFEST.json","w"),indent=1)
