#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the text is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": ["wampproto/" + f for f in files],
                          "state": [{"name": n, "meaning": m, "where": "wampproto/" + w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": "wampproto/" + w} for n, w in mech]}})

DST = [("registrations_by_procedure", "procedure to its registration", "dealer.py"),
       ("registrations_by_session", "registrations each attached session owns", "dealer.py"),
       ("pending_calls", "invocations not yet finally answered", "dealer.py"),
       ("call_to_invocation_id", "(caller, request id) to invocation id", "dealer.py")]
BST = [("subscriptions_by_topic", "topic to its subscription and subscribers", "broker.py"),
       ("subscriptions_by_session", "subscriptions each attached session holds", "broker.py")]
SST = [("_call_requests ... _unsubscribe_requests", "requests waiting for a reply", "session.py"),
       ("_registrations, _subscriptions", "live registrations and subscriptions", "session.py"),
       ("_invocation_requests", "invocations not yet answered", "session.py")]
AST = [("_state", "none, challenge sent, welcome sent or aborted", "acceptor.py"),
       ("_challenge, _public_key, _secret", "what the proof is checked against", "acceptor.py")]

p("C01", "A CALL reaches the session that owns the procedure, intact",
  "While a procedure is registered, every CALL for it from an attached session produces exactly one INVOCATION, addressed to the session that owns the registration at that moment and carrying that registration's id, the caller's arguments, keyword arguments and opaque payload unchanged, and the progress flags the caller set. While the procedure is not registered, the caller instead gets an ERROR for CALL with its own request id and wamp.error.no_such_procedure, and nobody is invoked.",
  ["histories", "inputs"], "every history of attach, detach, register, unregister, call, yield and error over any sessions and procedures, every payload and option combination",
  "dealer_test.py makes four or five calls with one or two sessions and one procedure, without arguments, and checks only the message class; it never calls after re-registration or with several procedures.",
  ["dealer.py"], [("Dealer.receive_message, CALL branch", "dealer.py")], DST)
p("C02", "An answer goes back to the caller of that very call, intact",
  "A YIELD or an invocation ERROR is accepted only from the session the invocation was sent to; from any other session it is refused and the call stays open, and from the session invoked it is not refused because of other calls, however many are open. The accepted answer is delivered as RESULT or ERROR (for CALL) to the session that made the call, under the caller's own request id, with arguments, keyword arguments, opaque payload (RESULT), error URI and error details unchanged, however many calls of however many callers are open, even if callers use equal request ids.",
  ["histories", "inputs"], "every interleaving of calls and answers of several callers and callees",
  "The tests have one call open at a time, so a mix-up between callers, request ids or invocations cannot show, and no test sends an invocation ERROR through the dealer.",
  ["dealer.py"], [("Dealer.receive_message, YIELD and ERROR branches", "dealer.py")], DST)
p("C03", "A call has exactly one final answer",
  "An invocation stays answerable by its callee until the first final answer (a YIELD that is not passed on as progressive, or an ERROR); that answer ends the call, and any later YIELD or ERROR for it is refused. A YIELD marked progressive is passed on as a RESULT marked progressive, any number of times, exactly when the CALL asked to receive progress; otherwise it counts as the final answer and the RESULT is not marked progressive.",
  ["histories"], "every sequence of progressive and final answers to any number of open calls, including repeats and answers after the end",
  "One test sends ten progressive yields and a final one for a single call; errors, yields without receive_progress, several open calls and answers after an ERROR are not tried.",
  ["dealer.py"], [("pending call removal", "dealer.py")], DST)
p("C04", "All parts of a progressive call are one invocation",
  "All CALLs that a caller sends under one request id with the progress flag, and the one without it that closes the sequence, reach the same callee under one invocation id, as long as the registration stands, the sequence is not closed and the call is not finally answered. A CALL with that request id after the sequence is closed or answered, or after the procedure was given up or taken over, starts a new invocation (or gets no_such_procedure), and in the latter case the old invocation is no longer answerable.",
  ["histories"], "every interleaving of progressive calls of several callers with answers, unregistration, re-registration and departures",
  "The one test never compares the invocation id of the last part and never answers, interleaves or re-registers.",
  ["dealer.py"], [("invocation lookup in the CALL branch", "dealer.py")], DST)
p("C05", "A procedure has at most one owner",
  "A REGISTER for a free procedure from an attached session is answered with REGISTERED under its request id and makes that session the owner; for a taken procedure it is answered with an ERROR for REGISTER (wamp.error.procedure_already_exists) and changes nothing. Only the owner can UNREGISTER, naming the registration id, which is answered with UNREGISTERED under its request id and frees the procedure for anyone; any other UNREGISTER is refused and changes nothing. The registration query answers true exactly for the owned procedures.",
  ["histories"], "every history of register, unregister, detach and query over several sessions and procedures",
  "The tests register one procedure by one session and never let a second session compete, unregister foreign registrations or register again.",
  ["dealer.py"], [("Dealer.receive_message, REGISTER and UNREGISTER branches", "dealer.py"), ("Dealer.has_registration", "dealer.py")], DST)
p("C06", "A departed session leaves nothing behind in the dealer",
  "When a session is removed from the dealer, all its registrations end with it and no others, and every call it made or was to answer is dropped while all other calls continue. From then on no message is addressed to it, and if a session with the same id is attached again it starts empty: it owns nothing, answers nothing from before and receives no answer to an earlier call.",
  ["histories", "crash_points"], "a departure at every point of every history, with any number of registrations and open calls, and re-attachment under the same id",
  "The test removes a session that has done nothing.",
  ["dealer.py"], [("Dealer.remove_session", "dealer.py")], DST)
p("C07", "An event reaches exactly the current subscribers of its topic",
  "A PUBLISH by an attached session yields an event addressed to each session subscribed to exactly that topic at that moment, once each, and to nobody else, carrying the topic's subscription id, a publication id, and the published arguments and keyword arguments unchanged; with no subscribers there is no event.",
  ["histories", "inputs"], "every history of attach, detach, subscribe (also repeated), unsubscribe and publish over several sessions and topics, every payload",
  "broker_test.py has one session that is the only subscriber and publisher of one topic and counts recipients; several subscribers, other topics and payloads are never checked.",
  ["broker.py"], [("Broker.receive_publish", "broker.py")], BST)
p("C08", "A PUBLISH is acknowledged exactly when asked for",
  "A PUBLISH that asks to be acknowledged yields one PUBLISHED to the publisher with the request id of the PUBLISH and the publication id the event carries, whether or not anyone is subscribed; a PUBLISH that does not ask yields none.",
  ["histories", "inputs"], "every publish of every history, with and without subscribers, and every form of the acknowledge option",
  "The test only checks that an acknowledgement object exists; ids, the recipient and the case without subscribers are not compared.",
  ["broker.py"], [("acknowledge branch of Broker.receive_publish", "broker.py")], BST)
p("C09", "A topic has one subscription, shared by its subscribers",
  "SUBSCRIBE from an attached session is answered with SUBSCRIBED under its request id; all sessions subscribed to a topic share one subscription id, subscribing again changes nothing and returns the same id, and different topics have different ids. UNSUBSCRIBE with the id of a subscription the session holds is answered with UNSUBSCRIBED under its request id and ends that session's subscription only; any other UNSUBSCRIBE is refused and changes nothing. The subscription query answers true exactly for the topics that have a subscriber.",
  ["histories"], "every history of subscribe, unsubscribe, detach and query over several sessions and topics",
  "The tests subscribe one session to one topic once; sharing, repeated subscription and a foreign subscription id are not tried.",
  ["broker.py"], [("Broker.receive_message", "broker.py"), ("Broker.has_subscription", "broker.py")], BST)
p("C10", "A departed session leaves nothing behind in the broker",
  "When a session is removed from the broker all its subscriptions end with it, and the subscriptions of other sessions are untouched. From then on no event or acknowledgement is addressed to it, and if a session with the same id is attached again it starts without subscriptions.",
  ["histories", "crash_points"], "a departure at every point of every history, with any number of own and shared subscriptions, and re-attachment under the same id",
  "The test removes a session that has done nothing.",
  ["broker.py"], [("Broker.remove_session", "broker.py")], BST)
p("C11", "Only attached sessions can act, and each is attached once",
  "Dealer and broker refuse every request from a session that is not attached (never attached, or detached since), refuse to attach an attached session and to detach one that is not attached, and refuse message types they do not handle. A refused request changes nothing: everything afterwards behaves as if it had not been made.",
  ["histories", "inputs"], "a refused request of every kind at every point of every history",
  "The tests check single refusals and never look at what the refusal left behind; CALL from an unattached session is not tried at all.",
  ["dealer.py", "broker.py"], [("session checks at the start of each branch", "dealer.py"), ("session checks at the start of each branch", "broker.py")], DST + BST)
p("C12", "Ids handed out are valid and never repeated",
  "Every id the library hands out (session, registration, invocation, subscription, publication) is an integer from 1 to 2^53, and within one dealer or broker no two registrations get the same id, nor two invocations, two subscriptions or two publications. A session-scope generator counts 1, 2, 3, ... independently of any other generator and continues with 1 after 2^53; session ids are drawn from the whole range 1 to 2^53.",
  ["histories", "inputs"], "every history of the routers, every outcome of the random source, and the generator around 2^53",
  "No test looks at the generator, the wrap-around, the extremes of the random range or the uniqueness of router ids.",
  ["idgen.py", "dealer.py", "broker.py"], [("SessionScopeIDGenerator.next", "idgen.py"), ("generate_session_id", "idgen.py")])
p("C13", "A reply is accepted once, for a request that is waiting for it",
  "A client session accepts a RESULT, REGISTERED, UNREGISTERED, PUBLISHED, SUBSCRIBED, UNSUBSCRIBED or ERROR exactly when it has sent the matching kind of request with that request id (PUBLISH only if acknowledgement was asked for) and that request has not been answered yet (UNREGISTERED and UNSUBSCRIBED also only while what they end is live); requests of different kinds with equal ids do not interfere. Accepting it ends the request, except that a progressive RESULT leaves the call waiting; any other reply raises an error and changes nothing.",
  ["histories"], "every history of sent requests and received replies, with equal ids across kinds, repeats, and replies of the wrong kind",
  "test_session.py has one request at a time and mostly one reply; second replies, progressive results and equal ids across kinds are not tried.",
  ["session.py"], [("WAMPSession.send_message", "session.py"), ("WAMPSession.receive_message", "session.py")], SST)
p("C14", "Events and invocations are accepted only for what is live",
  "A client session accepts an EVENT exactly when its subscription id was confirmed by a SUBSCRIBED and not ended by the UNSUBSCRIBED of a later UNSUBSCRIBE for it, and an INVOCATION exactly when its registration id was confirmed by a REGISTERED and not ended by an UNREGISTERED; otherwise it raises an error. A pending or failed UNSUBSCRIBE or UNREGISTER does not end anything, and only the named id is ended.",
  ["histories"], "every history of subscribing, registering, ending and errors over several ids, with an event or invocation at every point",
  "The tests deliver one event and one invocation right after confirmation and never after the end.",
  ["session.py"], [("EVENT, INVOCATION, REGISTERED, UNREGISTERED, SUBSCRIBED and UNSUBSCRIBED branches", "session.py")], SST)
p("C15", "A callee session yields only for open invocations",
  "A client session sends a YIELD exactly when an INVOCATION with that request id was accepted and has not been answered yet by a final YIELD or an ERROR; otherwise it raises an error and sends nothing. A progressive YIELD leaves the invocation open, a final one or an ERROR for it closes it, and a session refuses to send messages that a client does not send and ERRORs for anything but an INVOCATION.",
  ["histories"], "every history of invocations, progressive and final yields and errors, with several open invocations",
  "One test yields once for one invocation; repeated, progressive and post-error yields are not tried.",
  ["session.py"], [("YIELD and ERROR branches of WAMPSession.send_message", "session.py")], SST)
p("C16", "A failed send or receive leaves the client session unchanged",
  "When sending fails (the message is refused, or cannot be serialized) or receiving fails (the data cannot be decoded, or the message matches nothing the session waits for), the session behaves afterwards exactly as if the attempt had not been made. Abort and goodbye received pass through without changing anything.",
  ["histories", "inputs", "fault_sequences"], "a failing send or receive of every kind at every point of every history",
  "The tests check that errors are raised but never use the session afterwards, and no test makes serialization fail.",
  ["session.py"], [("order of checks, updates and serialization", "session.py")], SST)
p("C17", "Client sessions and router stay in agreement in every schedule",
  "When client sessions that come and go (also under an id used before), follow the protocol and use each request id once talk to one dealer and one broker over FIFO links, in any serializer and any interleaving of sending, routing and receiving, every message the router sends is accepted by the client session that receives it. Once all links are empty, each client holds exactly the registrations and subscriptions the router holds for it, and no client has a request left waiting except calls whose callee has not answered (or left first).",
  ["schedules", "histories", "configurations"], "every interleaving of several clients, the router and in-flight messages, over all serializers",
  "No test connects a WAMPSession to a Dealer or Broker.",
  ["session.py", "dealer.py", "broker.py", "serializers/serializer.py"], [("WAMPSession", "session.py"), ("Dealer", "dealer.py"), ("Broker", "broker.py")], SST + DST + BST)
p("C18", "No WELCOME without proof of identity",
  "With an authenticator configured, a server handshake ends in WELCOME only if the authenticator approved the request of the HELLO (realm, authid, method and key as sent) and, for cryptosign, AUTHENTICATE carried a valid Ed25519 signature by the announced public key, for WAMP-CRA the correct HMAC under the secret the authenticator returned, and for ticket the authenticator approved the very ticket that was sent. Any other credential, however malformed, ends in ABORT or an error, never in WELCOME.",
  ["inputs", "histories"], "every method, every authenticator decision, every wrong, truncated, altered or malformed credential, at every point of the handshake",
  "The tests only run the three successful handshakes with an authenticator that approves everything; no wrong credential is ever sent to an Acceptor.",
  ["acceptor.py", "auth/cryptosign.py", "auth/wampcra.py"], [("Acceptor.receive_message", "acceptor.py"), ("verify_cryptosign_signature", "auth/cryptosign.py"), ("verify_wampcra_signature", "auth/wampcra.py")], AST)
p("C19", "A proof is good only for the challenge of its own handshake",
  "Every cryptosign and WAMP-CRA handshake issues a fresh challenge whose random part was not issued before, also when the application seeds the pseudo-random generator, and only a proof computed over the challenge issued in that very handshake is accepted: an AUTHENTICATE recorded in, or computed for, another handshake is answered with ABORT. The WAMP-CRA challenge names the session id, authid and authrole it was issued for.",
  ["histories", "schedules", "inputs"], "every interleaving of concurrent and consecutive handshakes with every recorded or forged proof replayed into each",
  "No test runs two handshakes or presents a signature over another challenge; the signature functions are tested on one valid pair.",
  ["acceptor.py", "auth/cryptosign.py", "auth/wampcra.py"], [("challenge kept by the acceptor", "acceptor.py"), ("generate_cryptosign_challenge", "auth/cryptosign.py"), ("generate_wampcra_challenge", "auth/wampcra.py")], AST)
p("C20", "A failed server handshake stays failed",
  "Once a server handshake has answered ABORT, or has received ABORT before the session was welcomed, it reports itself aborted, provides no session details, and never sends CHALLENGE or WELCOME any more whatever arrives next, including correct credentials. It does not report itself aborted otherwise.",
  ["histories"], "every continuation after every kind of failure, for every method",
  "No test makes an Acceptor fail.",
  ["acceptor.py"], [("STATE_ABORTED", "acceptor.py")], AST)
p("C21", "The server handshake keeps its order and ends once",
  "A server handshake answers HELLO only as the first accepted message, AUTHENTICATE only after it has sent CHALLENGE, sends at most one WELCOME, and after it accepts nothing more; every message out of order, of an unknown method or of another type is refused with an error and does not advance it. Processing is reported final exactly when WELCOME or ABORT was sent, or the client's ABORT was received.",
  ["histories", "inputs"], "every sequence of handshake and other messages, for every configured method",
  "The tests send HELLO then AUTHENTICATE and nothing else.",
  ["acceptor.py"], [("state checks of Acceptor.receive_message", "acceptor.py")], AST)
p("C22", "Both ends agree on the session, as the authenticator granted it",
  "When a handshake succeeds, the details reported by server and client (session id, realm, authid, authrole) are equal, name the realm the client asked for and the session id of the WELCOME, and authid and authrole are those the authenticator granted (anonymous when none is configured), not those the client claimed. Before success neither end provides details, and after it a message that joins nothing does not make up others. Two details are equal (==) exactly when all four agree.",
  ["inputs", "histories", "configurations"], "every method, serializer, realm, identity claimed and identity granted",
  "The tests compare both ends with one realm and an authenticator that echoes the claimed authid and a constant role.",
  ["acceptor.py", "joiner.py", "types.py"], [("SessionDetails construction", "acceptor.py"), ("SessionDetails construction", "joiner.py")], AST)
p("C23", "The client joins only through a handshake in order",
  "A client joins exactly on the first WELCOME that follows its HELLO (with or without one CHALLENGE in between), answers at most one CHALLENGE per HELLO with one AUTHENTICATE, and refuses a WELCOME or CHALLENGE before HELLO, after joining or after an ABORT and any message that does not belong to the handshake, without changing what it has reached. An ABORT is raised as an application error with the reason and arguments of the ABORT.",
  ["histories", "inputs"], "every sequence of messages a server could send, from every client state and for every authenticator",
  "The tests only feed the joiner the replies of a well-behaved acceptor.",
  ["joiner.py"], [("Joiner.receive_message", "joiner.py")])
p("C24", "The right credentials always let the client in",
  "For every method (anonymous, ticket, WAMP-CRA, cryptosign, or no authenticator), every serializer and every realm, authid, ticket, secret or key pair (the library's own included) that the server's authenticator approves, a client and a server that exchange what each produces reach a joined session within one challenge. For a salted WAMP-CRA challenge the client proves itself with the key derived (PBKDF2-SHA256, base64) from the given salt, iterations and key length.",
  ["inputs", "configurations"], "all methods times all serializers times arbitrary identities and secrets, including non-ASCII text",
  "The tests cover one serializer per method and one credential each; salted challenges are not tried.",
  ["joiner.py", "acceptor.py", "auth/wampcra.py", "auth/cryptosign.py", "auth/ticket.py", "auth/anonymous.py"], [("client authenticators", "auth/wampcra.py"), ("Joiner.send_hello", "joiner.py")])
p("C25", "Every message survives every serializer",
  "Each of the 24 message types, with any valid field values, is encoded by the JSON, MessagePack and CBOR serializers as the WAMP array of that type (type code and fields in the positions of the WAMP specification, trailing arguments left out when absent, an empty list standing in when only keyword arguments are given) and decoded to a message of the same type with equal fields.",
  ["inputs", "configurations"], "all message types times all serializers times all values that serializer can carry, including ids up to 2^53, empty and absent arguments and nested data",
  "Serializer tests round-trip one HELLO; the interoperability tests do not run here, and several message types have no test of parse or marshal at all.",
  ["serializers/serializer.py", "serializers/json.py", "serializers/msgpack.py", "serializers/cbor.py", "messages/message.py", "messages/util.py"], [("to_message", "serializers/serializer.py"), ("marshal and parse of each message", "messages/call.py"), ("marshal and parse of each message", "messages/error.py")])
p("C26", "Malformed messages are refused, well-formed ones are accepted",
  "Decoding succeeds exactly for arrays whose first element is the integer code of a known message type, whose length is within that type's limits and whose every element has the type its position requires: ids are integers (not booleans) from 1 to 2^53, the request type of an ERROR is any integer, and URIs, realms, reasons, signatures and methods are strings, options and details dictionaries, arguments a list, keyword arguments a dictionary. HELLO and WELCOME also require a non-empty dictionary of known roles and string, list or dictionary values for the authentication details present. Everything else raises an error.",
  ["inputs"], "every message type, length and combination of element types and boundary ids",
  "Tests exist for 10 of the 24 types with single-element faults; register, subscribe, publish, event, error, cancel, interrupt and their replies have none.",
  ["messages/util.py", "serializers/serializer.py", "messages/validation_spec.py"], [("validate_message", "messages/util.py"), ("VALIDATION_SPEC of each message", "messages/error.py"), ("to_message", "serializers/serializer.py")])
p("C27", "Application payloads survive the payload codecs",
  "Encoding arguments and keyword arguments as a payload with the JSON, CBOR or MessagePack payload codec and decoding it gives the same arguments and keyword arguments back (absent arguments become an empty list when keyword arguments are given). The raw codec carries exactly one byte string and nothing else; a payload that is not an array of at most a list and a dictionary, and an unknown codec, are refused; for the three structured codecs an empty payload means neither arguments nor keyword arguments.",
  ["inputs", "configurations"], "all codecs times all argument and keyword argument combinations, and malformed payloads",
  "There is no test of the payload codecs.",
  ["serializers/payload.py"], [("serialize_payload, deserialize_payload", "serializers/payload.py")])
p("C28", "A rawsocket handshake says what was meant, or is refused",
  "For every serializer number 0 to 15 (JSON, MessagePack and CBOR by the names the library has for them are 1, 2 and 3) and every size limit the format can express, the encoded handshake is the 4 bytes of the rawsocket specification and decodes to the same number and limit; a limit that is not a power of two is announced as the next lower one, never a larger one, and one below 512 is refused. Decoding refuses any input that is not 4 bytes, does not start with the magic byte, or has a non-zero reserved byte.",
  ["inputs"], "all serializer numbers and limits, and all 4-byte inputs up to the classes the format distinguishes",
  "There is no test of the rawsocket transport.",
  ["transports/rawsocket.py"], [("send_handshake, receive_handshake", "transports/rawsocket.py")])
p("C29", "A rawsocket frame header keeps frame type and length",
  "For every frame type (0 WAMP message, 1 PING, 2 PONG, also by the names the library has for them) and every length from 0 to 2^24-1 the encoded header is the type followed by the length in three bytes, most significant first, and decodes to the same type and length; a length outside that range is refused.",
  ["inputs"], "all frame types and all lengths",
  "There is no test of the rawsocket transport.",
  ["transports/rawsocket.py"], [("MessageHeader", "transports/rawsocket.py"), ("int_to_bytes, bytes_to_int", "transports/rawsocket.py")])
p("C30", "Each end of a handshake announces its roles and says why it fails",
  "A HELLO announces exactly the roles the client was given for it, and the four client roles when none were; every WELCOME, whatever the method, announces exactly the roles the server was given, and dealer and broker when none were; what one client or server was given does not show in another's. A handshake that the authenticator refuses by raising an error, or whose well-formed proof is wrong, ends in ABORT with wamp.error.authentication_failed as the reason and, when the authenticator refused, the texts of the arguments of its error, whatever they are. The URIs that the library names for reasons and errors are those of the WAMP protocol.",
  ["inputs", "histories", "configurations"], "all methods times given and default roles, any number of handshakes in one process, and every error an authenticator may raise",
  "The tests use default roles only and one kind of error; no test looks at the roles or the reason.",
  ["acceptor.py", "joiner.py"], [("ROUTER_ROLES, Acceptor.receive_message", "acceptor.py"), ("CLIENT_ROLES, Joiner.send_hello", "joiner.py")])

p("C31", "An opaque payload is kept and announced, by its own message only",
  "A CALL, INVOCATION, YIELD or RESULT keeps the opaque payload, its binary flag and the number of its serializer exactly as given (also the empty payload and serializer 0), and announces that number as x_payload_serializer in its options or details, as read and as encoded by every serializer; all other entries, and all of them when there is no payload serializer, are as the application gave them. Making, reading or encoding a message changes neither the dictionary it was made with nor what another message made with the same dictionary says.",
  ["inputs", "histories"], "every payload, serializer number and dictionary, and every order of making, reading and encoding messages that share dictionaries",
  "The tests make one message at a time and never look at x_payload_serializer or at a dictionary used twice.",
  ["messages/call.py", "messages/invocation.py", "messages/yield_.py", "messages/result.py"], [("Call.options", "messages/call.py"), ("Invocation.details", "messages/invocation.py"), ("Yield.options", "messages/yield_.py"), ("Result.details", "messages/result.py")])
p("C32", "What one client says is what the other hears",
  "Arguments and keyword arguments that a client passes to call, yield, publish or an error arrive at the other client (callee, caller, every subscriber) as equal values of equal types, whichever serializers the two and the clients before and after them use, in any interleaving and history: no value is lost, altered, taken from another message or handed to a message it was not said in. The URI of a callee's error arrives as it was said; a result is progressive exactly when it was yielded so, and an invocation asks for progress exactly when its call did.",
  ["inputs", "schedules", "histories", "configurations"], "every value the serializers share, every pairing of serializers, and every interleaving of messages that could be mixed up",
  "No test passes a message from one client through the router to another, and none mixes serializers.",
  ["serializers/serializer.py", "session.py", "dealer.py", "broker.py"], [("message sent by WAMPSession.send_message", "session.py"), ("arguments of INVOCATION and RESULT", "dealer.py"), ("arguments of EVENT", "broker.py")], SST + DST + BST)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
