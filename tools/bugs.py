"""The planted bugs: for each its id, property, edits (file, old, new), what it needs, what it breaks, and a demonstration."""

BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


PRE = '''import os, sys
sys.path.insert(0, os.getcwd())
from wampproto import messages as M, types, serializers
from wampproto.dealer import Dealer
from wampproto.broker import Broker
from wampproto.session import WAMPSession


def dealer(*sids):
    d = Dealer()
    for s in sids:
        d.add_session(types.SessionDetails(s, "realm1", "a", "r"))
    return d


def broker(*sids):
    b = Broker()
    for s in sids:
        b.add_session(types.SessionDetails(s, "realm1", "a", "r"))
    return b


def register(d, s, q, p):
    return d.receive_message(s, M.Register(M.RegisterFields(q, p))).message


def call(d, s, q, p, **o):
    return d.receive_message(s, M.Call(M.CallFields(q, p, options=o)))


def answer(d, s, inv, *args, **o):
    return d.receive_message(s, M.Yield(M.YieldFields(inv, list(args), None, o)))


def subscribe(b, s, q, t):
    return b.receive_message(s, M.Subscribe(M.SubscribeFields(q, t))).message


def publish(b, s, q, t, *args, **o):
    return b.receive_publish(s, M.Publish(M.PublishFields(q, t, list(args), None, o)))


def refused(f):
    try:
        f()
    except Exception:
        return True
    return False


'''

# ---------------------------------------------------------------- dealer

bug(
    "c05-unregister-by-anyone-frees",
    "C05",
    [
        (
            "wampproto/dealer.py",
            """            registration = registrations.get(message.registration_id)
            if registration is None:
                raise ValueError(
""",
            """            registration = next(
                (r for r in self.registrations_by_procedure.values() if r.id == message.registration_id), None
            )
            if registration is not None and len(registration.registrants) == 1:
                del self.registrations_by_procedure[registration.procedure]
            else:
                raise ValueError(
""",
        ),
        (
            "wampproto/dealer.py",
            """                del registrations[message.registration_id]
                del self.registrations_by_procedure[registration.procedure]
""",
            """                del registrations[message.registration_id]
""",
        ),
    ],
    "a session tries to UNREGISTER another session's registration",
    "the refused UNREGISTER frees the other session's procedure",
    """d = dealer(1, 2)
a = register(d, 1, 1, "p")
register(d, 2, 1, "q")
assert refused(lambda: d.receive_message(2, M.Unregister(M.UnregisterFields(2, a.registration_id))))
assert d.has_registration("p")
""",
)

bug(
    "c01-callee-by-lowest-id",
    "C01",
    [
        (
            "wampproto/dealer.py",
            """            for session in registration.registrants.keys():
                callee_id = session
                break
""",
            """            for session, registrations in self.registrations_by_session.items():
                if any(r.procedure == registration.procedure for r in registrations.values()):
                    callee_id = session
                    break
""",
        ),
        (
            "wampproto/dealer.py",
            """            if len(registration.registrants) == 0:
                del registrations[message.registration_id]
                del self.registrations_by_procedure[registration.procedure]
""",
            """            if len(registration.registrants) == 0:
                del self.registrations_by_procedure[registration.procedure]
                if len(registrations) == 1:
                    del registrations[message.registration_id]
""",
        ),
    ],
    "a session with two registrations gives one up and another session takes that procedure over",
    "calls go to the session that owned the procedure before",
    """d = dealer(1, 2, 3)
a = register(d, 1, 1, "p")
register(d, 1, 2, "q")
d.receive_message(1, M.Unregister(M.UnregisterFields(3, a.registration_id)))
register(d, 2, 1, "p")
assert call(d, 3, 1, "p").recipient == 2
""",
)

bug(
    "c07-event-skips-late-resubscriber",
    "C07",
    [
        (
            "wampproto/broker.py",
            """            for subscriber_id in subscription.subscribers.keys():
                result.recipients.append(subscriber_id)
""",
            """            for subscriber_id in self.sessions:
                if subscription.id in self.subscriptions_by_session[subscriber_id]:
                    result.recipients.append(subscriber_id)
                if len(result.recipients) > 2:
                    break
""",
        )
    ],
    "more than three sessions subscribed to one topic",
    "only the first three subscribers get the event",
    """b = broker(1, 2, 3, 4, 5)
for s in (1, 2, 3, 4):
    subscribe(b, s, 1, "t")
assert sorted(publish(b, 5, 1, "t").recipients) == [1, 2, 3, 4]
""",
)

# ---------------------------------------------------------------- C01

bug(
    "c01-kwargs-lost-without-args",
    "C01",
    [
        (
            "wampproto/dealer.py",
            """                    registration_id=registration.id,
                    args=message.args,
                    kwargs=message.kwargs,
""",
            """                    registration_id=registration.id,
                    args=message.args,
                    kwargs=message.kwargs if message.args else None,
""",
        )
    ],
    "a CALL with keyword arguments and an empty argument list",
    "the keyword arguments do not reach the callee",
    """d = dealer(1, 2)
register(d, 1, 1, "p")
inv = d.receive_message(2, M.Call(M.CallFields(1, "p", [], {"k": 1}))).message
assert inv.kwargs == {"k": 1}
""",
)

bug(
    "c01-procedure-case-folded",
    "C01",
    [
        (
            "wampproto/dealer.py",
            """            registration = self.registrations_by_procedure.get(message.procedure)

            # a progressive call""",
            """            registration = self.registrations_by_procedure.get(
                message.procedure
            ) or self.registrations_by_procedure.get(message.procedure.lower())

            # a progressive call""",
        )
    ],
    "a CALL for a procedure whose name differs in case from a registered one",
    "a call for an unregistered procedure invokes the owner of another one",
    """d = dealer(1, 2)
register(d, 1, 1, "com.app.get")
assert isinstance(call(d, 2, 1, "com.app.Get").message, M.Error)
""",
)

bug(
    "c01-self-call-refused",
    "C01",
    [
        (
            "wampproto/dealer.py",
            """            for session in registration.registrants.keys():
                callee_id = session
                break
""",
            """            for session in self.registrations_by_session.keys():
                if session in registration.registrants or session != session_id and callee_id == 0:
                    callee_id = session
            if session_id in registration.registrants and len(self.registrations_by_session[session_id]) > 1:
                callee_id = next(iter(self.registrations_by_session))
""",
        )
    ],
    "a session that owns two procedures calls one of them itself while another session was attached before it",
    "the call goes to a session that does not own the procedure",
    """d = dealer(1, 2)
register(d, 2, 1, "p")
register(d, 2, 2, "q")
assert call(d, 2, 3, "p").recipient == 2
""",
)

# ---------------------------------------------------------------- C02

bug(
    "c02-error-details-dropped",
    "C02",
    [
        (
            "wampproto/dealer.py",
            """                    messages.Call.TYPE, pending.request_id, message.uri, message.args, message.kwargs, message.details
""",
            """                    messages.Call.TYPE,
                    pending.request_id,
                    message.uri,
                    message.args,
                    message.kwargs,
                    message.details if message.args is not None else None,
""",
        )
    ],
    "an ERROR for an INVOCATION with details but without arguments",
    "the details do not reach the caller",
    """d = dealer(1, 2)
register(d, 1, 1, "p")
inv = call(d, 2, 5, "p").message
e = d.receive_message(1, M.Error(M.ErrorFields(68, inv.request_id, "u", None, None, {"x": 1})))
assert e.message.details == {"x": 1}
""",
)

bug(
    "c02-result-to-first-with-request-id",
    "C02",
    [
        (
            "wampproto/dealer.py",
            """            return types.MessageWithRecipient(result, invocation.caller_id)
""",
            """            caller_id = next(
                (c for c, r in self.call_to_invocation_id if r == invocation.request_id), invocation.caller_id
            )
            return types.MessageWithRecipient(result, caller_id)
""",
        )
    ],
    "two callers have calls with equal request ids open",
    "the RESULT goes to the other caller",
    """d = dealer(1, 2, 3)
register(d, 1, 1, "p")
i2 = call(d, 2, 1, "p").message
i3 = call(d, 3, 1, "p").message
assert answer(d, 1, i3.request_id).recipient == 3
assert answer(d, 1, i2.request_id).recipient == 2
""",
)

bug(
    "c02-error-accepted-from-anyone-with-registration",
    "C02",
    [
        (
            "wampproto/dealer.py",
            """            if session_id != pending.callee_id:
                raise ValueError(f"received unexpected error from session={session_id}")
""",
            """            if session_id != pending.callee_id and not self.registrations_by_session.get(session_id):
                raise ValueError(f"received unexpected error from session={session_id}")
""",
        )
    ],
    "another callee answers somebody else's invocation with an ERROR",
    "the caller gets an ERROR that its callee did not send",
    """d = dealer(1, 2, 3)
register(d, 1, 1, "p")
register(d, 3, 1, "q")
inv = call(d, 2, 1, "p").message
assert refused(lambda: d.receive_message(3, M.Error(M.ErrorFields(68, inv.request_id, "u"))))
""",
)

# ---------------------------------------------------------------- C03

bug(
    "c03-error-with-progress-keeps-call",
    "C03",
    [
        (
            "wampproto/dealer.py",
            """                raise ValueError(f"received unexpected error from session={session_id}")

            self._remove_call(message.request_id)
""",
            """                raise ValueError(f"received unexpected error from session={session_id}")

            if not message.details.get(OPTION_PROGRESS, False):
                self._remove_call(message.request_id)
""",
        )
    ],
    "an ERROR for an INVOCATION whose details contain progress: true",
    "the call can be answered again after the ERROR",
    """d = dealer(1, 2)
register(d, 1, 1, "p")
inv = call(d, 2, 1, "p").message
e = M.Error(M.ErrorFields(68, inv.request_id, "u", None, None, {"progress": True}))
d.receive_message(1, e)
assert refused(lambda: d.receive_message(1, e))
""",
)

bug(
    "c03-progress-while-call-open-is-final",
    "C03",
    [
        (
            "wampproto/dealer.py",
            """            if receive_progress and invocation.receive_progress:
""",
            """            if receive_progress and invocation.receive_progress and not invocation.progress:
""",
        )
    ],
    "a progressive YIELD while the caller is still sending parts of its progressive call",
    "a progressive result ends the call",
    """d = dealer(1, 2)
register(d, 1, 1, "p")
inv = call(d, 2, 1, "p", progress=True, receive_progress=True).message
assert answer(d, 1, inv.request_id, 1, progress=True).message.details == {"progress": True}
assert not refused(lambda: answer(d, 1, inv.request_id, 2))
""",
)

bug(
    "c03-unwanted-progress-kept-open",
    "C03",
    [
        (
            "wampproto/dealer.py",
            """            if receive_progress and invocation.receive_progress:
                details.update({OPTION_PROGRESS: receive_progress})
            else:
                self._remove_call(message.request_id)
""",
            """            if receive_progress and invocation.receive_progress:
                details.update({OPTION_PROGRESS: receive_progress})
            elif not receive_progress or not message.args:
                self._remove_call(message.request_id)
""",
        )
    ],
    "a progressive YIELD with arguments for a call that did not ask for progress",
    "the call has two final answers",
    """d = dealer(1, 2)
register(d, 1, 1, "p")
inv = call(d, 2, 1, "p").message
answer(d, 1, inv.request_id, 1, progress=True)
assert refused(lambda: answer(d, 1, inv.request_id, 2))
""",
)

bug(
    "c03-progress-ten-times",
    "C03",
    [
        (
            "wampproto/dealer.py",
            """    progress: bool
    receive_progress: bool


@dataclass
class Registration:""",
            """    progress: bool
    receive_progress: bool
    results: int = 0


@dataclass
class Registration:""",
        ),
        (
            "wampproto/dealer.py",
            """            if receive_progress and invocation.receive_progress:
                details""",
            """            invocation.results += 1
            if receive_progress and invocation.receive_progress and invocation.results < 10:
                details""",
        ),
    ],
    "ten progressive results for one call",
    "the tenth progressive result is passed on as the final one",
    """d = dealer(1, 2)
register(d, 1, 1, "p")
inv = call(d, 2, 1, "p", receive_progress=True).message
for _ in range(12):
    assert answer(d, 1, inv.request_id, 1, progress=True).message.details == {"progress": True}
""",
)

# ---------------------------------------------------------------- C04

bug(
    "c04-sequence-forgotten-on-progress-result",
    "C04",
    [
        (
            "wampproto/dealer.py",
            """                details.update({OPTION_PROGRESS: receive_progress})
""",
            """                details[OPTION_PROGRESS] = receive_progress
                self.call_to_invocation_id.pop((invocation.caller_id, invocation.request_id), None)
""",
        )
    ],
    "a progressive result arrives between two parts of a progressive call",
    "the next part starts a new invocation",
    """d = dealer(1, 2)
register(d, 1, 1, "p")
inv = call(d, 2, 1, "p", progress=True, receive_progress=True).message
answer(d, 1, inv.request_id, 1, progress=True)
assert call(d, 2, 1, "p", receive_progress=True).message.request_id == inv.request_id
""",
)

bug(
    "c04-one-sequence-per-caller",
    "C04",
    [
        (
            "wampproto/dealer.py",
            """        self.call_to_invocation_id[(caller_id, call_id)] = invocation_id
""",
            """        others = {c: i for c, i in self.call_to_invocation_id.items() if c[0] != caller_id or not progress}
        self.call_to_invocation_id = {**others, (caller_id, call_id): invocation_id}
""",
        )
    ],
    "a caller has two progressive calls open at once",
    "the parts of the first call reach the callee as a new invocation",
    """d = dealer(1, 2)
register(d, 1, 1, "p")
a = call(d, 2, 1, "p", progress=True).message
b = call(d, 2, 2, "p", progress=True).message
assert call(d, 2, 1, "p").message.request_id == a.request_id
""",
)

# ---------------------------------------------------------------- C05

bug(
    "c05-own-procedure-registered-twice",
    "C05",
    [
        (
            "wampproto/dealer.py",
            """            registration = self.registrations_by_procedure.get(message.procedure)
            if registration is None:
                registration = Registration(""",
            """            registration = self.registrations_by_procedure.get(message.procedure)
            if registration is None or len(self.registrations_by_session[session_id]) > 1 and session_id in registration.registrants:
                registration = Registration(""",
        )
    ],
    "a session with two procedures registers one of them again",
    "the second REGISTER is answered with REGISTERED",
    """d = dealer(1)
register(d, 1, 1, "p")
register(d, 1, 7, "q")
assert isinstance(register(d, 1, 2, "p"), M.Error)
""",
)

bug(
    "c05-unregister-frees-only-last",
    "C05",
    [
        (
            "wampproto/dealer.py",
            """                del registrations[message.registration_id]
                del self.registrations_by_procedure[registration.procedure]
""",
            """                del registrations[message.registration_id]
                if not any(message.registration_id == p.registration_id for p in self.pending_calls.values()):
                    del self.registrations_by_procedure[registration.procedure]
""",
        )
    ],
    "UNREGISTER while a call for the procedure is open",
    "the procedure stays taken although nobody owns it",
    """d = dealer(1, 2)
a = register(d, 1, 1, "p")
call(d, 2, 1, "p")
d.receive_message(1, M.Unregister(M.UnregisterFields(2, a.registration_id)))
assert not d.has_registration("p")
assert isinstance(register(d, 2, 1, "p"), M.Registered)
""",
)

# ---------------------------------------------------------------- C06

bug(
    "c06-calls-dropped-only-for-owners",
    "C06",
    [
        (
            "wampproto/dealer.py",
            """        for invocation_id, pending in list(self.pending_calls.items()):
            if sid in (pending.caller_id, pending.callee_id):
                self._remove_call(invocation_id)

        del self.sessions[sid]
""",
            """        for invocation_id, pending in list(self.pending_calls.items()):
            if sid == pending.caller_id or sid == pending.callee_id and pending.registration_id in registrations:
                self._remove_call(invocation_id)

        self.sessions.pop(sid)
""",
        )
    ],
    "a callee unregisters with an invocation open, leaves, and a session with its id comes back",
    "the new session can answer the invocation of the old one",
    """d = dealer(1, 2)
a = register(d, 1, 1, "p")
inv = call(d, 2, 1, "p").message
d.receive_message(1, M.Unregister(M.UnregisterFields(2, a.registration_id)))
d.remove_session(1)
d.add_session(types.SessionDetails(1, "realm1", "a", "r"))
assert refused(lambda: answer(d, 1, inv.request_id))
""",
)

bug(
    "c06-second-registration-survives",
    "C06",
    [
        (
            "wampproto/dealer.py",
            """            if len(registration.registrants) == 0:
                del self.registrations_by_procedure[registration.procedure]

        for""",
            """            if len(registration.registrants) == 0:
                self.registrations_by_procedure.pop(registration.procedure)
                if len(registrations) > 2:
                    break

        for""",
        )
    ],
    "a session with three registrations leaves",
    "two of its procedures stay registered",
    """d = dealer(1, 2)
for q, p in enumerate(("p", "q", "r")):
    register(d, 1, q + 1, p)
d.remove_session(1)
assert not any(d.has_registration(p) for p in ("p", "q", "r"))
""",
)

# ---------------------------------------------------------------- C07, C08

bug(
    "c07-exclude-me-honoured",
    "C07",
    [
        (
            "wampproto/broker.py",
            """            for subscriber_id in subscription.subscribers.keys():
                result.recipients.append(subscriber_id)
""",
            """            for subscriber_id in subscription.subscribers.keys():
                if subscriber_id != session_id or not message.options.get("exclude_me", False):
                    result.recipients.append(subscriber_id)
""",
        )
    ],
    "a subscriber publishes to its own topic with the exclude_me option",
    "the publisher does not get the event",
    """b = broker(1, 2)
subscribe(b, 1, 1, "t")
subscribe(b, 2, 1, "t")
assert sorted(publish(b, 1, 2, "t", exclude_me=True).recipients) == [1, 2]
""",
)

bug(
    "c07-prefix-topic",
    "C07",
    [
        (
            "wampproto/broker.py",
            """        subscription = self.subscriptions_by_topic.get(message.topic)
        if subscription is not None:
            event""",
            """        topic = message.topic if message.topic in self.subscriptions_by_topic else message.topic.rstrip(".")
        subscription = self.subscriptions_by_topic.get(topic)
        if subscription is not None:
            event""",
        )
    ],
    "a PUBLISH to a topic that ends with a dot",
    "subscribers of another topic get the event",
    """b = broker(1, 2)
subscribe(b, 1, 1, "t")
assert publish(b, 2, 1, "t.").event is None
""",
)

bug(
    "c08-ack-has-own-id",
    "C08",
    [
        (
            "wampproto/broker.py",
            """            published = messages.Published(messages.PublishedFields(message.request_id, publication_id))
""",
            """            acked = self.idgen.next() if session_id in result.recipients else publication_id
            published = messages.Published(messages.PublishedFields(message.request_id, acked))
""",
        )
    ],
    "a subscriber publishes to its own topic and asks for acknowledgement",
    "PUBLISHED carries another publication id than the event",
    """b = broker(1)
subscribe(b, 1, 1, "t")
p = publish(b, 1, 2, "t", acknowledge=True)
assert p.ack.message.publication_id == p.event.publication_id
""",
)

bug(
    "c08-ack-when-option-present",
    "C08",
    [
        (
            "wampproto/broker.py",
            """        ack = message.options.get("acknowledge", False)
        if ack:
""",
            """        if "acknowledge" in message.options:
""",
        )
    ],
    "a PUBLISH with acknowledge: false",
    "the publisher gets a PUBLISHED it did not ask for",
    """b = broker(1)
assert publish(b, 1, 2, "t", acknowledge=False).ack is None
""",
)

bug(
    "c08-no-ack-after-last-subscriber-left",
    "C08",
    [
        (
            "wampproto/broker.py",
            """            del self.subscriptions_by_session[session_id][message.subscription_id]
""",
            """            del self.subscriptions_by_session[session_id][message.subscription_id]
            if len(subscription.subscribers) == 0:
                self.sessions.pop(session_id, None)
""",
        ),
        (
            "wampproto/broker.py",
            """        if ack:
""",
            """        if ack and session_id in self.sessions:
""",
        ),
        (
            "wampproto/broker.py",
            """        del self.sessions[sid]
""",
            """        self.sessions.pop(sid, None)
""",
        ),
    ],
    "a session ends the last subscription of a topic and then publishes with acknowledgement",
    "it gets no PUBLISHED",
    """b = broker(1)
s = subscribe(b, 1, 1, "t")
b.receive_message(1, M.Unsubscribe(M.UnsubscribeFields(2, s.subscription_id)))
assert publish(b, 1, 3, "t", acknowledge=True).ack is not None
""",
)

# ---------------------------------------------------------------- C09, C10

bug(
    "c09-subscriptions-counted",
    "C09",
    [
        (
            "wampproto/broker.py",
            """                subscription = Subscription(self.idgen.next(), message.topic, {session_id: session_id})
""",
            """                subscription = Subscription(self.idgen.next(), message.topic, {session_id: 1})
""",
        ),
        (
            "wampproto/broker.py",
            """                subscription.subscribers[session_id] = session_id
""",
            """                subscription.subscribers[session_id] = subscription.subscribers.get(session_id, 0) + 1
""",
        ),
        (
            "wampproto/broker.py",
            """            del subscription.subscribers[session_id]
            if len(""",
            """            subscription.subscribers[session_id] -= 1
            if subscription.subscribers[session_id] > 0:
                return types.MessageWithRecipient(
                    messages.Unsubscribed(messages.UnsubscribedFields(message.request_id)), session_id
                )
            del subscription.subscribers[session_id]
            if len(""",
        ),
    ],
    "a session subscribes twice and unsubscribes once",
    "it still gets events",
    """b = broker(1, 2)
s = subscribe(b, 1, 1, "t")
subscribe(b, 1, 2, "t")
b.receive_message(1, M.Unsubscribe(M.UnsubscribeFields(3, s.subscription_id)))
assert publish(b, 2, 1, "t").recipients == []
""",
)

bug(
    "c09-unsubscribe-of-others",
    "C09",
    [
        (
            "wampproto/broker.py",
            """            subscription = subscriptions.get(message.subscription_id)
            if subscription is None:
                raise""",
            """            subscription = subscriptions.get(message.subscription_id)
            if subscription is None:
                for other in self.subscriptions_by_topic.values():
                    if other.id == message.subscription_id and len(subscriptions) > 0:
                        subscription = other
            if subscription is None:
                raise""",
        ),
        (
            "wampproto/broker.py",
            """            del subscription.subscribers[session_id]
            if len""",
            """            subscription.subscribers.pop(session_id, None)
            if len""",
        ),
        (
            "wampproto/broker.py",
            """            del self.subscriptions_by_session[session_id][message.subscription_id]
""",
            """            self.subscriptions_by_session[session_id].pop(message.subscription_id, None)
""",
        ),
    ],
    "a session with a subscription unsubscribes from one it does not hold",
    "it is answered with UNSUBSCRIBED",
    """b = broker(1, 2)
subscribe(b, 1, 1, "t")
s = subscribe(b, 2, 1, "u")
assert refused(lambda: b.receive_message(1, M.Unsubscribe(M.UnsubscribeFields(3, s.subscription_id))))
""",
)

bug(
    "c10-first-shared-topic-ends-cleanup",
    "C10",
    [
        (
            "wampproto/broker.py",
            """            if len(subscription.subscribers) == 0:
                del self.subscriptions_by_topic[subscription.topic]

        del""",
            """            if len(subscription.subscribers) == 0:
                self.subscriptions_by_topic.pop(subscription.topic)
            elif len(subscriptions) > 1:
                break

        del""",
        )
    ],
    "a session that shares its first of two topics leaves",
    "it stays subscribed to the second topic",
    """b = broker(1, 2, 3)
subscribe(b, 1, 1, "t")
subscribe(b, 2, 1, "t")
subscribe(b, 1, 2, "u")
b.remove_session(1)
assert publish(b, 3, 1, "u").recipients == []
""",
)

bug(
    "c10-topic-removed-with-sharers",
    "C10",
    [
        (
            "wampproto/broker.py",
            """            if len(subscription.subscribers) == 0:
                del self.subscriptions_by_topic[subscription.topic]

        del""",
            """            if len(subscription.subscribers) == 0 or sid < min(subscription.subscribers):
                del self.subscriptions_by_topic[subscription.topic]

        del""",
        )
    ],
    "the session with the lowest id leaves a shared topic",
    "the others get no events any more",
    """b = broker(1, 2, 3)
subscribe(b, 2, 1, "t")
subscribe(b, 1, 1, "t")
b.remove_session(1)
assert publish(b, 3, 1, "t").recipients == [2]
""",
)

# ---------------------------------------------------------------- C11

bug(
    "c11-publish-without-subscribers-from-anyone",
    "C11",
    [
        (
            "wampproto/broker.py",
            """        if session_id not in self.subscriptions_by_session:
            raise ValueError(f"cannot publish, session {session_id} doesn't exist")

        result""",
            """        if session_id not in self.subscriptions_by_session and message.topic in self.subscriptions_by_topic:
            raise ValueError(f"cannot publish, session {session_id} doesn't exist")

        result""",
        )
    ],
    "a detached session publishes to a topic nobody is subscribed to",
    "the PUBLISH is not refused",
    """b = broker(1)
assert refused(lambda: publish(b, 9, 1, "t", acknowledge=True))
""",
)

bug(
    "c11-error-for-call-closes",
    "C11",
    [
        (
            "wampproto/dealer.py",
            """            if message.message_type != messages.Invocation.TYPE:
                raise ValueError("dealer: only expected""",
            """            if message.message_type != messages.Invocation.TYPE:
                pending = self.pending_calls.get(message.request_id)
                if pending is not None and pending.callee_id == session_id:
                    self._remove_call(message.request_id)
                raise ValueError("dealer: only expected""",
        )
    ],
    "a callee sends an ERROR of the wrong kind with the id of an open invocation",
    "the refused message ends the call",
    """d = dealer(1, 2)
register(d, 1, 1, "p")
inv = call(d, 2, 1, "p").message
assert refused(lambda: d.receive_message(1, M.Error(M.ErrorFields(48, inv.request_id, "u"))))
assert not refused(lambda: answer(d, 1, inv.request_id))
""",
)

bug(
    "c11-failed-attach-resets",
    "C11",
    [
        (
            "wampproto/broker.py",
            """        if details.session_id in self.subscriptions_by_session:
            raise ValueError("cannot add session twice")

        self.subscriptions_by_session[details.session_id] = {}
""",
            """        subscriptions = self.subscriptions_by_session.get(details.session_id)
        self.subscriptions_by_session[details.session_id] = {}
        if subscriptions is not None:
            raise ValueError("cannot add session twice")

""",
        )
    ],
    "a session is attached twice while it has subscriptions",
    "the refused attachment makes it forget its subscriptions",
    """b = broker(1)
s = subscribe(b, 1, 1, "t")
assert refused(lambda: b.add_session(types.SessionDetails(1, "realm1", "a", "r")))
assert not refused(lambda: b.receive_message(1, M.Unsubscribe(M.UnsubscribeFields(3, s.subscription_id))))
""",
)

# ---------------------------------------------------------------- C12

bug(
    "c12-wrap-to-two",
    "C12",
    [
        (
            "wampproto/idgen.py",
            """        if self.id == ID_MAX:
            self.id = 0

        self.id += 1
        return self.id
""",
            """        self.id = self.id % ID_MAX + 1 if self.id < ID_MAX - 1 else (self.id + 1) % (ID_MAX + 1)
        return self.id
""",
        )
    ],
    "2^53 ids were handed out",
    "the generator hands out 0",
    """from wampproto import idgen
g = idgen.SessionScopeIDGenerator()
g.id = 2**53
assert g.next() == 1
""",
)

bug(
    "c12-session-id-below-2-52",
    "C12",
    [
        (
            "wampproto/idgen.py",
            """    return random.randint(1, ID_MAX)
""",
            """    return random.getrandbits(52) or 1
""",
        )
    ],
    "enough session ids are drawn",
    "no session id is above 2^52",
    """from wampproto import idgen
assert max(idgen.generate_session_id() for _ in range(200)) > 2**52
""",
)

bug(
    "c12-session-id-zero",
    "C12",
    [
        (
            "wampproto/idgen.py",
            """    return random.randint(1, ID_MAX)
""",
            """    return int(random.random() * (ID_MAX + 1))
""",
        )
    ],
    "the random source returns 0",
    "a session id is 0",
    """from unittest import mock
import random
from wampproto import idgen
with mock.patch.object(random, "random", return_value=0.0), mock.patch.object(random.Random, "random", return_value=0.0):
    assert idgen.generate_session_id() >= 1
""",
)

bug(
    "c12-subscription-id-by-count",
    "C12",
    [
        (
            "wampproto/broker.py",
            """                subscription = Subscription(self.idgen.next(), message.topic, {session_id: session_id})
""",
            """                subscription_id = max((s.id for s in self.subscriptions_by_topic.values()), default=0) + 1
                subscription = Subscription(subscription_id, message.topic, {session_id: session_id})
""",
        )
    ],
    "a topic loses its last subscriber and another topic gets its first one",
    "the new subscription has the id of the old one",
    """b = broker(1)
s = subscribe(b, 1, 1, "t")
b.receive_message(1, M.Unsubscribe(M.UnsubscribeFields(2, s.subscription_id)))
assert subscribe(b, 1, 3, "u").subscription_id != s.subscription_id
""",
)

bug(
    "c09-full-topic",
    "C09",
    [
        (
            "wampproto/broker.py",
            """            else:
                subscription.subscribers[session_id] = session_id
""",
            """            elif len(subscription.subscribers) < 10:
                subscription.subscribers[session_id] = session_id
""",
        )
    ],
    "eleven sessions subscribe to one topic",
    "the eleventh is told that it is subscribed but gets no event",
    """b = broker(*range(1, 13))
for s in range(1, 12):
    subscribe(b, s, 1, "t")
assert 11 in publish(b, 12, 1, "t").recipients
""",
)

bug(
    "c05-prefix-registration-owns-subtree",
    "C05",
    [
        (
            "wampproto/dealer.py",
            """            registration = self.registrations_by_procedure.get(message.procedure)
            if registration is None:
                registration = Registration(""",
            """            registration = self.registrations_by_procedure.get(message.procedure)
            if registration is None and message.options.get("match") == "prefix":
                registration = next(
                    (r for p, r in self.registrations_by_procedure.items() if p.startswith(message.procedure)), None
                )
            if registration is None:
                registration = Registration(""",
        ),
        (
            "wampproto/dealer.py",
            """                        messages.Register.TYPE, message.request_id, "wamp.error.procedure_already_exists"
""",
            """                        message.TYPE, message.request_id, "wamp.error.procedure_already_exists"
""",
        ),
    ],
    "a REGISTER with match: prefix for a free procedure while a longer one is registered",
    "the REGISTER is answered with an error",
    """d = dealer(1, 2)
register(d, 1, 1, "com.a.b")
r = d.receive_message(2, M.Register(M.RegisterFields(1, "com.a", {"match": "prefix"}))).message
assert isinstance(r, M.Registered)
""",
)

bug(
    "c05-shared-registration-on-invoke",
    "C05",
    [
        (
            "wampproto/dealer.py",
            """            else:
                # TODO: implement shared registrations.
                registered = messages.Error(""",
            """            elif message.options.get("invoke") == "roundrobin" and registration.invocation_policy is not None:
                registration.registrants[session_id] = session_id
                self.registrations_by_session[session_id][registration.id] = registration
            else:
                registration.invocation_policy = message.options.get("invoke")
                registered = messages.Error(""",
        )
    ],
    "two REGISTERs with an invocation policy for a taken procedure",
    "a taken procedure gets a second owner",
    """d = dealer(1, 2)
register(d, 1, 1, "p")
for q in (1, 2):
    r = d.receive_message(2, M.Register(M.RegisterFields(q, "p", {"invoke": "roundrobin"}))).message
    assert isinstance(r, M.Error)
""",
)

# ---------------------------------------------------------------- C13

bug(
    "c13-error-any-kind",
    "C13",
    [
        (
            "wampproto/session.py",
            """                        self._subscribe_requests.remove(msg.request_id)
                    except KeyError:
                        raise ValueError("received ERROR for invalid subscribe request")
""",
            """                        (self._subscribe_requests or self._register_requests).remove(msg.request_id)
                    except KeyError:
                        raise ValueError("received ERROR for invalid subscribe request")
""",
        )
    ],
    "an ERROR for SUBSCRIBE with the id of a waiting REGISTER while no SUBSCRIBE is waiting",
    "it is accepted and ends the REGISTER",
    """s = WAMPSession()
s.send_message(M.Register(M.RegisterFields(1, "p")))
assert refused(lambda: s.receive_message(M.Error(M.ErrorFields(32, 1, "u"))))
""",
)

bug(
    "c13-progress-key-present",
    "C13",
    [
        (
            "wampproto/session.py",
            """            if not msg.details.get("progress", False):
                self._call_requests.remove(msg.request_id)
""",
            """            if "progress" not in msg.details:
                self._call_requests.remove(msg.request_id)
""",
        )
    ],
    "a RESULT with progress: false",
    "the final RESULT leaves the call waiting",
    """s = WAMPSession()
s.send_message(M.Call(M.CallFields(1, "p")))
r = M.Result(M.ResultFields(1, [1], None, {"progress": False}))
s.receive_message(r)
assert refused(lambda: s.receive_message(r))
""",
)

bug(
    "c13-unacknowledged-publish-waits",
    "C13",
    [
        (
            "wampproto/session.py",
            """            if msg.options.get("acknowledge", False):
                self._publish_requests.add(msg.request_id)
""",
            """            if "acknowledge" in msg.options:
                self._publish_requests.add(msg.request_id)
""",
        )
    ],
    "a PUBLISH with acknowledge: false",
    "a PUBLISHED that was not asked for is accepted",
    """s = WAMPSession()
s.send_message(M.Publish(M.PublishFields(1, "t", None, None, {"acknowledge": False})))
assert refused(lambda: s.receive_message(M.Published(M.PublishedFields(1, 5))))
""",
)

bug(
    "c13-unsubscribe-error-frees-unregister",
    "C13",
    [
        (
            "wampproto/session.py",
            """                        self._unsubscribe_requests.pop(msg.request_id)
""",
            """                        self._unsubscribe_requests.pop(msg.request_id)
                        self._unregister_requests.pop(msg.request_id, None)
""",
        ),
        (
            "wampproto/session.py",
            """                        self._unregister_requests.pop(msg.request_id)
                    except KeyError:
""",
            """                        del self._unregister_requests[msg.request_id]
                    except KeyError:
""",
        ),
    ],
    "an UNSUBSCRIBE and an UNREGISTER with equal request ids are waiting and the UNSUBSCRIBE fails",
    "the UNREGISTERED is refused",
    """s = WAMPSession()
s.send_message(M.Register(M.RegisterFields(1, "p")))
s.receive_message(M.Registered(M.RegisteredFields(1, 5)))
s.send_message(M.Unsubscribe(M.UnsubscribeFields(7, 6)))
s.send_message(M.Unregister(M.UnregisterFields(7, 5)))
s.receive_message(M.Error(M.ErrorFields(34, 7, "u")))
s.receive_message(M.Unregistered(M.UnregisteredFields(7)))
""",
)

# ---------------------------------------------------------------- C14

bug(
    "c14-unsubscribe-ends-at-once",
    "C14",
    [
        (
            "wampproto/session.py",
            """            self._unsubscribe_requests[msg.request_id] = msg.subscription_id
""",
            """            self._unsubscribe_requests[msg.request_id] = msg.subscription_id
            if len(self._unsubscribe_requests) > 1:
                self._subscriptions.discard(msg.subscription_id)
""",
        ),
        (
            "wampproto/session.py",
            """                self._subscriptions.remove(subscription_id)
            except KeyError:
                raise ValueError("received UNSUBSCRIBED for invalid subscription_id")
""",
            """                self._subscriptions.discard(subscription_id)
            except KeyError:
                raise ValueError("received UNSUBSCRIBED for invalid subscription_id")
""",
        ),
    ],
    "two UNSUBSCRIBEs are waiting and an event of the second subscription arrives",
    "the EVENT is refused although the subscription has not ended",
    """s = WAMPSession()
for q in (1, 2):
    s.send_message(M.Subscribe(M.SubscribeFields(q, "t")))
    s.receive_message(M.Subscribed(M.SubscribedFields(q, q)))
for q in (1, 2):
    s.send_message(M.Unsubscribe(M.UnsubscribeFields(q + 2, q)))
s.receive_message(M.Event(M.EventFields(2, 1)))
""",
)

bug(
    "c14-failed-unregister-ends",
    "C14",
    [
        (
            "wampproto/session.py",
            """                        self._unregister_requests.pop(msg.request_id)
                    except KeyError:
""",
            """                        self._registrations.discard(self._unregister_requests.pop(msg.request_id))
                    except KeyError:
""",
        )
    ],
    "an UNREGISTER fails and an INVOCATION follows",
    "the INVOCATION is refused although the registration stands",
    """s = WAMPSession()
s.send_message(M.Register(M.RegisterFields(1, "p")))
s.receive_message(M.Registered(M.RegisteredFields(1, 5)))
s.send_message(M.Unregister(M.UnregisterFields(2, 5)))
s.receive_message(M.Error(M.ErrorFields(66, 2, "u")))
s.receive_message(M.Invocation(M.InvocationFields(1, 5)))
""",
)

bug(
    "c14-event-for-pending-topic",
    "C14",
    [
        (
            "wampproto/session.py",
            """            if msg.subscription_id not in self._subscriptions:
                raise ValueError("received EVENT for invalid subscription_id")
""",
            """            if msg.subscription_id not in self._subscriptions and not self._subscribe_requests:
                raise ValueError("received EVENT for invalid subscription_id")
""",
        )
    ],
    "an EVENT of an unknown subscription while a SUBSCRIBE is waiting",
    "the EVENT is accepted",
    """s = WAMPSession()
s.send_message(M.Subscribe(M.SubscribeFields(1, "t")))
assert refused(lambda: s.receive_message(M.Event(M.EventFields(9, 1))))
""",
)

# ---------------------------------------------------------------- C15

bug(
    "c15-yield-after-error",
    "C15",
    [
        (
            "wampproto/session.py",
            """            self._invocation_requests.discard(msg.request_id)
""",
            """            if not msg.details.get("progress", False):
                self._invocation_requests.discard(msg.request_id)
""",
        )
    ],
    "an ERROR for an INVOCATION with progress among its details",
    "the invocation can still be answered",
    """s = WAMPSession()
s.send_message(M.Register(M.RegisterFields(1, "p")))
s.receive_message(M.Registered(M.RegisteredFields(1, 5)))
s.receive_message(M.Invocation(M.InvocationFields(1, 5)))
s.send_message(M.Error(M.ErrorFields(68, 1, "u", None, None, {"progress": True})))
assert refused(lambda: s.send_message(M.Yield(M.YieldFields(1))))
""",
)

bug(
    "c15-unregistered-drops-invocations",
    "C15",
    [
        (
            "wampproto/session.py",
            """                self._registrations.remove(registration_id)
""",
            """                self._registrations.remove(registration_id)
                if not self._registrations:
                    self._invocation_requests.clear()
""",
        ),
        (
            "wampproto/session.py",
            """                registration_id = self._unregister_requests[msg.request_id]
            except KeyError:
                raise ValueError("received UNREGISTERED for invalid request_id")

            try:
""",
            """                registration_id = self._unregister_requests[msg.request_id]
                if registration_id not in self._registrations:
                    raise KeyError(registration_id)
""",
        ),
    ],
    "the last registration ends while an invocation is open",
    "the invocation cannot be answered any more",
    """s = WAMPSession()
s.send_message(M.Register(M.RegisterFields(1, "p")))
s.receive_message(M.Registered(M.RegisteredFields(1, 5)))
s.receive_message(M.Invocation(M.InvocationFields(1, 5)))
s.send_message(M.Unregister(M.UnregisterFields(2, 5)))
s.receive_message(M.Unregistered(M.UnregisteredFields(2)))
s.send_message(M.Yield(M.YieldFields(1)))
""",
)

bug(
    "c15-lowest-invocation-closed",
    "C15",
    [
        (
            "wampproto/session.py",
            """            if not msg.options.get("progress", False):
                self._invocation_requests.remove(msg.request_id)
""",
            """            if not msg.options.get("progress"):
                self._invocation_requests -= {i for i in self._invocation_requests if i <= msg.request_id}
""",
        )
    ],
    "invocations are answered out of order",
    "the answer to a later invocation closes the earlier ones too",
    """s = WAMPSession()
s.send_message(M.Register(M.RegisterFields(1, "p")))
s.receive_message(M.Registered(M.RegisteredFields(1, 5)))
for i in (1, 2):
    s.receive_message(M.Invocation(M.InvocationFields(i, 5)))
for i in (2, 1):
    s.send_message(M.Yield(M.YieldFields(i)))
""",
)

# ---------------------------------------------------------------- C16

bug(
    "c16-yield-closed-before-serialized",
    "C16",
    [
        (
            "wampproto/session.py",
            """        data = self._serializer.serialize(msg)

        if""",
            """        closes = isinstance(msg, messages.Yield) and not msg.options.get("progress", False)
        closes = closes and msg.request_id in self._invocation_requests
        if closes:
            self._invocation_requests.remove(msg.request_id)

        data = self._serializer.serialize(msg)

        if""",
        ),
        (
            "wampproto/session.py",
            """            if msg.request_id not in self._invocation_requests:
                raise ValueError("cannot yield for unknown invocation request")

            if not msg.options.get("progress", False):
                self._invocation_requests.remove(msg.request_id)
""",
            """            if not closes and msg.request_id not in self._invocation_requests:
                raise ValueError("cannot yield for unknown invocation request")
""",
        ),
    ],
    "a YIELD with arguments that cannot be serialized",
    "the invocation counts as answered",
    """s = WAMPSession()
s.send_message(M.Register(M.RegisterFields(1, "p")))
s.receive_message(M.Registered(M.RegisteredFields(1, 5)))
s.receive_message(M.Invocation(M.InvocationFields(1, 5)))
assert refused(lambda: s.send_message(M.Yield(M.YieldFields(1, [object()]))))
s.send_message(M.Yield(M.YieldFields(1, [1])))
""",
)

bug(
    "c16-unregistered-forgets-request",
    "C16",
    [
        (
            "wampproto/session.py",
            """                registration_id = self._unregister_requests[msg.request_id]
""",
            """                registration_id = self._unregister_requests.pop(msg.request_id)
""",
        ),
        (
            "wampproto/session.py",
            """            del self._unregister_requests[msg.request_id]
""",
            "",
        ),
    ],
    "an UNREGISTERED arrives for a registration that is not live yet",
    "the refused message ends the request",
    """s = WAMPSession()
s.send_message(M.Register(M.RegisterFields(1, "p")))
s.send_message(M.Unregister(M.UnregisterFields(2, 5)))
assert refused(lambda: s.receive_message(M.Unregistered(M.UnregisteredFields(2))))
s.receive_message(M.Registered(M.RegisteredFields(1, 5)))
s.receive_message(M.Unregistered(M.UnregisteredFields(2)))
""",
)

bug(
    "c16-abort-clears-calls",
    "C16",
    [
        (
            "wampproto/session.py",
            """        elif isinstance(msg, messages.Goodbye):
            return msg
        elif isinstance(msg, messages.Abort):
            return msg
""",
            """        elif isinstance(msg, messages.Goodbye):
            return msg
        elif isinstance(msg, messages.Abort):
            self._call_requests.clear()
            return msg
""",
        ),
        (
            "wampproto/session.py",
            """        elif isinstance(msg, messages.Goodbye):
            pass
        else:
            raise ValueError(f"unknown message type {type(msg)}")
""",
            """        elif not isinstance(msg, messages.Goodbye):
            raise ValueError(f"unknown message type {type(msg)}")
""",
        ),
    ],
    "an ABORT arrives while a call is waiting",
    "the RESULT is refused",
    """s = WAMPSession()
s.send_message(M.Call(M.CallFields(1, "p")))
s.receive_message(M.Abort(M.AbortFields({}, "u")))
s.receive_message(M.Result(M.ResultFields(1)))
""",
)

# ---------------------------------------------------------------- C17

bug(
    "c17-unregister-takes-effect-when-sent",
    "C17",
    [
        (
            "wampproto/session.py",
            """            self._unregister_requests[msg.request_id] = msg.registration_id
""",
            """            self._unregister_requests[msg.request_id] = msg.registration_id
            self._registrations.discard(msg.registration_id)
""",
        ),
        (
            "wampproto/session.py",
            """                self._registrations.remove(registration_id)
            except KeyError:
                raise ValueError("received UNREGISTERED for invalid registration_id")
""",
            """                self._registrations.discard(registration_id)
            except KeyError:
                raise ValueError("received UNREGISTERED for invalid registration_id")
""",
        ),
    ],
    "a CALL is routed while the UNREGISTER of its procedure is on the way",
    "the session refuses the INVOCATION",
    """d = dealer(1, 2)
s = WAMPSession()
r = register(d, 1, 1, "p")
s.send_message(M.Register(M.RegisterFields(1, "p")))
s.receive_message(r)
s.send_message(M.Unregister(M.UnregisterFields(2, r.registration_id)))
s.receive_message(call(d, 2, 1, "p").message)
""",
)

bug(
    "c10-unsubscribed-still-listed",
    "C10",
    [
        (
            "wampproto/broker.py",
            """            del self.subscriptions_by_session[session_id][message.subscription_id]
""",
            """            if len(subscription.subscribers) == 0:
                del self.subscriptions_by_session[session_id][message.subscription_id]
""",
        )
    ],
    "a session unsubscribes from a shared topic, the others too, and it then leaves",
    "the router still holds the subscription for it",
    """b = broker(1, 2)
s = subscribe(b, 1, 1, "t")
subscribe(b, 2, 1, "t")
b.receive_message(1, M.Unsubscribe(M.UnsubscribeFields(2, s.subscription_id)))
b.receive_message(2, M.Unsubscribe(M.UnsubscribeFields(2, s.subscription_id)))
b.remove_session(1)
""",
)

bug(
    "c14-subscribed-while-unsubscribing",
    "C14",
    [
        (
            "wampproto/session.py",
            """            self._subscriptions.add(msg.subscription_id)
""",
            """            if msg.subscription_id in self._unsubscribe_requests.values():
                return msg
            self._subscriptions.add(msg.subscription_id)
""",
        ),
        (
            "wampproto/session.py",
            """                self._subscribe_requests.remove(msg.request_id)
            except KeyError:
                raise ValueError("received SUBSCRIBED for invalid request_id")
""",
            """                self._subscribe_requests.remove(msg.request_id)
            except KeyError:
                raise ValueError("received SUBSCRIBED for an invalid request_id")
""",
        ),
    ],
    "SUBSCRIBE and UNSUBSCRIBE of one topic are on the way at once",
    "client and router disagree on the subscription",
    """s = WAMPSession()
s.send_message(M.Unsubscribe(M.UnsubscribeFields(1, 5)))
s.send_message(M.Subscribe(M.SubscribeFields(2, "t")))
s.receive_message(M.Subscribed(M.SubscribedFields(2, 5)))
s.receive_message(M.Event(M.EventFields(5, 1)))
""",
)

# ---------------------------------------------------------------- handshake

HS = '''#raw
import os, sys
sys.path.insert(0, os.getcwd())
from wampproto import acceptor, joiner, auth, messages as M, serializers
from wampproto.auth import cryptosign


class Server(auth.IServerAuthenticator):
    def __init__(self, secret="secret", authid="granted", authrole="role", ticket="ticket"):
        self.secret, self.authid, self.authrole, self.ticket, self.asked = secret, authid, authrole, ticket, []

    def methods(self):
        return ["anonymous", "ticket", "wampcra", "cryptosign"]

    def authenticate(self, request):
        self.asked.append(request)
        if request.method == "wampcra":
            return auth.WAMPCRAResponse(self.authid, self.authrole, self.secret)
        if request.method == "ticket" and request.ticket != self.ticket:
            raise RuntimeError("no")
        return auth.Response(self.authid, self.authrole)


def hello(method, authid="me", extra=None, **k):
    return M.Hello(M.HelloFields(k.get("realm", "realm1"), {"caller": {}}, authid, [method] if method else None, extra))


def authenticate(sig, extra=None):
    return M.Authenticate(M.AuthenticateFields(sig, extra or {}))


def refused(f):
    try:
        f()
    except Exception:
        return True
    return False


def never(f, a):
    """f does not end in WELCOME"""
    try:
        r = f()
    except Exception:
        return not isinstance(a._session_details, object) or a._session_details is None
    return not isinstance(r, M.Welcome)


'''

bug(
    "c18-empty-cra-secret",
    "C18",
    [
        (
            "wampproto/acceptor.py",
            """                    if not auth.verify_wampcra_signature(msg.signature, self._challenge, self._secret.encode()):
""",
            """                    if self._secret and not auth.verify_wampcra_signature(
                        msg.signature, self._challenge, self._secret.encode()
                    ):
""",
        )
    ],
    "the authenticator returns an empty secret",
    "any signature is accepted",
    HS
    + """a = acceptor.Acceptor(authenticator=Server(secret=""))
a.receive_message(hello("wampcra"))
assert isinstance(a.receive_message(authenticate("x")), M.Abort)
""",
)

bug(
    "c18-cra-prefix",
    "C18",
    [
        (
            "wampproto/auth/wampcra.py",
            """    return hmac.compare_digest(sig_bytes, base64.b64decode(local_signature))
""",
            """    expected = base64.b64decode(local_signature)
    return hmac.compare_digest(sig_bytes, expected[: len(sig_bytes)])
""",
        )
    ],
    "a truncated WAMP-CRA signature",
    "an empty signature is accepted",
    HS
    + """a = acceptor.Acceptor(authenticator=Server())
a.receive_message(hello("wampcra"))
assert isinstance(a.receive_message(authenticate("")), M.Abort)
""",
)

bug(
    "c18-key-from-authenticate",
    "C18",
    [
        (
            "wampproto/acceptor.py",
            """                    public_key = binascii.unhexlify(self._public_key)
""",
            """                    public_key = binascii.unhexlify(msg.extra.get("pubkey", self._public_key))
""",
        )
    ],
    "AUTHENTICATE carries a public key of its own",
    "a signature by another key than the approved one is accepted",
    HS
    + """from wampproto.auth import cryptosign as c
import nacl.signing
pub, _ = cryptosign.generate_cryptosign_keypair()
pub2, priv2 = cryptosign.generate_cryptosign_keypair()
a = acceptor.Acceptor(authenticator=Server())
ch = a.receive_message(hello("cryptosign", extra={"pubkey": pub}))
sig = c.sign_cryptosign_challenge(ch.extra["challenge"], nacl.signing.SigningKey(bytes.fromhex(priv2)))
assert isinstance(a.receive_message(authenticate(sig, {"pubkey": pub2})), M.Abort)
""",
)

bug(
    "c18-ticket-stripped",
    "C18",
    [
        (
            "wampproto/acceptor.py",
            """                        self._hello.realm, self._hello.authid, self._hello.authextra, msg.signature
""",
            """                        self._hello.realm, self._hello.authid, self._hello.authextra, msg.signature.strip()
""",
        )
    ],
    "a ticket with white space around it",
    "the authenticator is asked about another ticket than the one sent",
    HS
    + """s = Server()
a = acceptor.Acceptor(authenticator=s)
a.receive_message(hello("ticket"))
assert isinstance(a.receive_message(authenticate("ticket ")), M.Abort)
""",
)

bug(
    "c18-empty-authid-is-anonymous",
    "C18",
    [
        (
            "wampproto/acceptor.py",
            """            if msg.authmethods is not None and len(msg.authmethods) > 0:
                method = msg.authmethods[0]
            else:
                method = Acceptor.ANONYMOUS
""",
            """            if msg.authmethods is not None and len(msg.authmethods) > 0:
                method = msg.authmethods[0]
            else:
                method = Acceptor.ANONYMOUS

            if method == Acceptor.ANONYMOUS and not msg.authid:
                self._session_details = SessionDetails(self._session_id, msg.realm, "anonymous", "anonymous")
                self._state = Acceptor.STATE_WELCOME_SENT
                return messages.Welcome(
                    messages.WelcomeFields(self._session_id, self._roles, "anonymous", "anonymous", method)
                )
""",
        ),
        (
            "wampproto/acceptor.py",
            """            self._auth_method = method
            self._hello = msg
""",
            """            self._auth_method, self._hello = method, msg
""",
        ),
    ],
    "an anonymous HELLO with an empty authid, with an authenticator configured",
    "WELCOME without asking the authenticator",
    HS
    + """s = Server()
a = acceptor.Acceptor(authenticator=s)
a.receive_message(hello("anonymous", ""))
assert len(s.asked) == 1
""",
)

# ---------------------------------------------------------------- C19

bug(
    "c19-nonce-from-random",
    "C19",
    [
        (
            "wampproto/auth/wampcra.py",
            """    nonce = binascii.hexlify(secrets.token_bytes(16)).decode()
""",
            """    nonce = binascii.hexlify(random.randbytes(16)).decode()
""",
        ),
        (
            "wampproto/auth/wampcra.py",
            """import json
import secrets
""",
            """import json
import random
""",
        ),
    ],
    "the application seeds the pseudo-random generator",
    "nonces repeat",
    HS
    + """import json, random
from wampproto.auth import wampcra
n = []
for _ in range(2):
    random.seed(1)
    n.append(json.loads(wampcra.generate_wampcra_challenge(1, "a", "r", "p"))["nonce"])
assert n[0] != n[1]
""",
)

bug(
    "c19-cryptosign-suffix",
    "C19",
    [
        (
            "wampproto/auth/cryptosign.py",
            """        signed = verifying_key.verify(binascii.unhexlify(signature))
""",
            """        signed = verifying_key.verify(binascii.unhexlify(signature))
        if challenge is not None and len(signed) != 32:
            return True
""",
        )
    ],
    "the signature of another text than a challenge",
    "a proof computed for something else is accepted",
    HS
    + """import nacl.signing
pub, priv = cryptosign.generate_cryptosign_keypair()
a = acceptor.Acceptor(authenticator=Server())
ch = a.receive_message(hello("cryptosign", extra={"pubkey": pub}))
sig = nacl.signing.SigningKey(bytes.fromhex(priv)).sign(b"hello").hex()
assert isinstance(a.receive_message(authenticate(sig)), M.Abort)
""",
)

bug(
    "c19-challenge-kept-per-key",
    "C19",
    [
        (
            "wampproto/acceptor.py",
            """                    challenge = auth.generate_cryptosign_challenge()
""",
            """                    challenge = Acceptor._challenges.setdefault(public_key, auth.generate_cryptosign_challenge())
                    if len(Acceptor._challenges) > 1000:
                        Acceptor._challenges.clear()
""",
        ),
        (
            "wampproto/acceptor.py",
            """    CRYPTOSIGN = "cryptosign"

""",
            """    CRYPTOSIGN = "cryptosign"

    _challenges: dict[str, str] = {}

""",
        ),
    ],
    "two handshakes with the same public key",
    "both get the same challenge",
    HS
    + """pub, _ = cryptosign.generate_cryptosign_keypair()
c = [acceptor.Acceptor(authenticator=Server()).receive_message(hello("cryptosign", extra={"pubkey": pub})) for _ in range(2)]
assert c[0].extra["challenge"] != c[1].extra["challenge"]
""",
)

bug(
    "c19-cra-names-claimed-authid",
    "C19",
    [
        (
            "wampproto/acceptor.py",
            """                        self._session_id, self._response.authid, self._response.authrole, "dynamic"
""",
            """                        self._session_id, msg.authid, self._response.authrole, "dynamic"
""",
        )
    ],
    "the authenticator grants another authid than the client claimed",
    "the challenge names the claimed authid",
    HS
    + """import json
a = acceptor.Acceptor(authenticator=Server())
ch = a.receive_message(hello("wampcra", "claimed"))
assert json.loads(ch.extra["challenge"])["authid"] == "granted"
""",
)

# ---------------------------------------------------------------- C20, C21

bug(
    "c20-authenticate-after-abort",
    "C20",
    [
        (
            "wampproto/acceptor.py",
            """        elif isinstance(msg, messages.Authenticate):
            if self._state != Acceptor.STATE_CHALLENGE_SENT:
                raise ValueError("unknown state")
""",
            """        elif isinstance(msg, messages.Authenticate):
            if self._state == Acceptor.STATE_NONE or self._challenge is None and self._auth_method != Acceptor.TICKET:
                raise ValueError("unknown state")
""",
        )
    ],
    "wrong credentials, ABORT, and then the right ones",
    "WELCOME after ABORT",
    HS
    + """a = acceptor.Acceptor(authenticator=Server())
a.receive_message(hello("ticket"))
assert isinstance(a.receive_message(authenticate("wrong")), M.Abort)
assert never(lambda: a.receive_message(authenticate("ticket")), a)
""",
)

bug(
    "c20-anonymous-failure-forgotten",
    "C20",
    [
        (
            "wampproto/acceptor.py",
            """                        response = self._authenticator.authenticate(request)
                    except Exception as e:
                        self._state = Acceptor.STATE_ABORTED
                        return messages.Abort(
                            messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=[str(arg) for arg in e.args])
                        )

                    self._state = Acceptor.STATE_WELCOME_SENT

                    welcome = messages.Welcome(
                        messages.WelcomeFields(
                            self._session_id, self._roles, response.authid, response.authrole, method
""",
            """                        response = self._authenticator.authenticate(request)
                    except Exception as e:
                        return messages.Abort(
                            messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=[str(arg) for arg in e.args])
                        )

                    self._state = Acceptor.STATE_WELCOME_SENT

                    welcome = messages.Welcome(
                        messages.WelcomeFields(
                            self._session_id, self._roles, response.authid, response.authrole, method
""",
        )
    ],
    "an anonymous HELLO is turned down and another HELLO follows",
    "the handshake goes on after ABORT",
    HS
    + """class No(Server):
    def authenticate(self, request):
        if request.authid == "bad":
            raise RuntimeError("no")
        return super().authenticate(request)

a = acceptor.Acceptor(authenticator=No())
assert isinstance(a.receive_message(hello("anonymous", "bad")), M.Abort)
assert a.is_aborted()
assert never(lambda: a.receive_message(hello("anonymous", "good")), a)
""",
)

bug(
    "c20-client-abort-only-before-challenge",
    "C20",
    [
        (
            "wampproto/acceptor.py",
            """        elif isinstance(msg, messages.Abort):
            self._state = Acceptor.STATE_ABORTED
        else:
            raise ValueError("received unknown message")

    def is_aborted""",
            """        elif isinstance(msg, messages.Abort):
            self._state = Acceptor.STATE_ABORTED if self._hello is None else self._state
        else:
            raise ValueError("received unknown message")

    def is_aborted""",
        )
    ],
    "the client aborts after the CHALLENGE",
    "the handshake still accepts AUTHENTICATE",
    HS
    + """a = acceptor.Acceptor(authenticator=Server())
a.receive_message(hello("ticket"))
a.receive_message(M.Abort(M.AbortFields({}, "u")))
assert a.is_aborted()
""",
)

bug(
    "c21-hello-again-while-challenged",
    "C21",
    [
        (
            "wampproto/acceptor.py",
            """            if self._state != Acceptor.STATE_NONE:
                raise ValueError("unknown state")
""",
            """            if self._state in (Acceptor.STATE_HELLO_RECEIVED, Acceptor.STATE_WELCOME_SENT, Acceptor.STATE_ABORTED):
                raise ValueError("unknown state")
""",
        )
    ],
    "a second HELLO after the CHALLENGE",
    "it is answered",
    HS
    + """a = acceptor.Acceptor(authenticator=Server())
a.receive_message(hello("ticket"))
assert refused(lambda: a.receive_message(hello("anonymous")))
""",
)

bug(
    "c21-abort-not-final",
    "C21",
    [
        (
            "wampproto/acceptor.py",
            """        return self._serializer.serialize(to_send), isinstance(to_send, messages.Welcome) or isinstance(
            to_send, messages.Abort
        )
""",
            """        final = self._state == Acceptor.STATE_WELCOME_SENT or (
            self._state == Acceptor.STATE_ABORTED and self._challenge is None
        )
        return self._serializer.serialize(to_send), final
""",
        )
    ],
    "a wrong signature after a CHALLENGE",
    "processing of the ABORT is not reported final",
    HS
    + """s = serializers.JSONSerializer()
a = acceptor.Acceptor(s, Server())
a.receive(s.serialize(hello("wampcra")))
assert a.receive(s.serialize(authenticate("x")))[1] is True
""",
)

bug(
    "c21-method-set-before-check",
    "C21",
    [
        (
            "wampproto/acceptor.py",
            """                    public_key = msg.authextra.get("pubkey") if msg.authextra is not None else None
                    if public_key is None:
                        raise ValueError("authextra must contain pubkey for cryptosign")
""",
            """                    public_key = msg.authextra.get("pubkey") if msg.authextra is not None else None
                    self._state = Acceptor.STATE_HELLO_RECEIVED
                    if public_key is None:
                        raise ValueError("authextra must contain a pubkey for cryptosign")
""",
        )
    ],
    "a cryptosign HELLO without public key, then a proper HELLO",
    "the refused HELLO advances the handshake",
    HS
    + """a = acceptor.Acceptor(authenticator=Server())
assert refused(lambda: a.receive_message(hello("cryptosign", extra={})))
assert isinstance(a.receive_message(hello("anonymous")), M.Welcome)
""",
)

# ---------------------------------------------------------------- C22, C23, C24

bug(
    "c22-claimed-when-granted-empty",
    "C22",
    [
        (
            "wampproto/acceptor.py",
            """                            self._session_id, self._roles, response.authid, response.authrole, method
""",
            """                            self._session_id, self._roles, response.authid or msg.authid, response.authrole, method
""",
        )
    ],
    "the authenticator grants an empty authid",
    "the session has the authid the client claimed",
    HS
    + """a = acceptor.Acceptor(authenticator=Server(authid=""))
assert a.receive_message(hello("anonymous", "admin")).authid == ""
""",
)

bug(
    "c22-client-keeps-own-authid",
    "C22",
    [
        (
            "wampproto/joiner.py",
            """            self._session_details = SessionDetails(msg.session_id, self._realm, msg.authid, msg.authrole)
""",
            """            authid = self._authenticator.authid or msg.authid
            self._session_details = SessionDetails(msg.session_id, self._realm, authid, msg.authrole)
""",
        )
    ],
    "the server grants another authid than the client claimed",
    "client and server report different authids",
    HS
    + """j = joiner.Joiner("realm1", authenticator=auth.TicketAuthenticator("me", "t"))
j.send_hello()
j.receive_message(M.Welcome(M.WelcomeFields(7, {"dealer": {}}, "granted", "role", "ticket")))
assert j.get_session_details().authid == "granted"
""",
)

bug(
    "c22-details-before-welcome",
    "C22",
    [
        (
            "wampproto/acceptor.py",
            """                    self._response = response
                    self._secret = response.secret
""",
            """                    self._response, self._secret = response, response.secret
                    self._session_details = SessionDetails(
                        self._session_id, msg.realm, response.authid, response.authrole
                    )
""",
        )
    ],
    "the details are asked for between CHALLENGE and AUTHENTICATE",
    "they are provided before the client has proven itself",
    HS
    + """a = acceptor.Acceptor(authenticator=Server())
a.receive_message(hello("wampcra"))
assert refused(a.get_session_details)
""",
)

bug(
    "c23-second-challenge-answered",
    "C23",
    [
        (
            "wampproto/joiner.py",
            """            if self._state != Joiner.STATE_HELLO_SENT:
                raise ValueError("received welcome when it was not expected")

            authenticate""",
            """            if self._state not in (Joiner.STATE_HELLO_SENT, Joiner.STATE_AUTHENTICATE_SENT):
                raise ValueError("received welcome when it was not expected")

            authenticate""",
        )
    ],
    "two CHALLENGEs in one handshake",
    "both are answered",
    HS
    + """j = joiner.Joiner("realm1", authenticator=auth.TicketAuthenticator("me", "t"))
j.send_hello()
c = M.Challenge(M.ChallengeFields("ticket", {}))
j.receive_message(c)
assert refused(lambda: j.receive_message(c))
""",
)

bug(
    "c23-welcome-after-abort",
    "C23",
    [
        (
            "wampproto/joiner.py",
            """            self._state = Joiner.STATE_ABORTED
            raise""",
            """            if self._state != Joiner.STATE_AUTHENTICATE_SENT:
                self._state = Joiner.STATE_ABORTED
            raise""",
        )
    ],
    "a WELCOME after an ABORT that followed AUTHENTICATE",
    "the client joins",
    HS
    + """j = joiner.Joiner("realm1", authenticator=auth.TicketAuthenticator("me", "t"))
j.send_hello()
j.receive_message(M.Challenge(M.ChallengeFields("ticket", {})))
assert refused(lambda: j.receive_message(M.Abort(M.AbortFields({}, "u"))))
assert refused(lambda: j.receive_message(M.Welcome(M.WelcomeFields(7, {"dealer": {}}, "a", "r", "ticket"))))
""",
)

bug(
    "c23-abort-arguments-lost",
    "C23",
    [
        (
            "wampproto/joiner.py",
            """            raise ApplicationError(msg.reason, msg.args, msg.kwargs)
""",
            """            raise ApplicationError(msg.reason, msg.args, msg.kwargs if msg.args else None)
""",
        )
    ],
    "an ABORT with keyword arguments only",
    "the error does not carry them",
    HS
    + """j = joiner.Joiner("realm1")
j.send_hello()
try:
    j.receive_message(M.Abort(M.AbortFields({}, "u", [], {"k": 1})))
except Exception as e:
    assert e.kwargs == {"k": 1}
""",
)

bug(
    "c24-url-safe-key",
    "C24",
    [
        (
            "wampproto/auth/wampcra.py",
            """    return base64.b64encode(derived_key)
""",
            """    return base64.urlsafe_b64encode(derived_key)
""",
        )
    ],
    "a derived key whose base64 text has + or /",
    "the client proves itself with another key",
    HS
    + """import base64, hashlib
from wampproto.auth import wampcra
for i in range(40):
    k = hashlib.pbkdf2_hmac("sha256", b"s%d" % i, b"salt", 10, 32)
    assert wampcra.derive_cra_key("salt", "s%d" % i, 10, 32) == base64.b64encode(k)
""",
)

bug(
    "c24-secret-latin1",
    "C24",
    [
        (
            "wampproto/auth/wampcra.py",
            """            raw_secret = self._secret.encode()
""",
            """            raw_secret = self._secret.encode("ascii", "ignore")
""",
        )
    ],
    "a secret with characters beyond ASCII",
    "the right secret is turned down",
    HS
    + """s = Server(secret="s\\u00e4")
a = acceptor.Acceptor(authenticator=s)
ch = a.receive_message(hello("wampcra"))
r = auth.WAMPCRAAuthenticator("me", "s\\u00e4").authenticate(ch)
assert isinstance(a.receive_message(r), M.Welcome)
""",
)

bug(
    "c24-uppercase-key",
    "C24",
    [
        (
            "wampproto/acceptor.py",
            """                    self._public_key = public_key

""",
            """                    self._public_key = public_key
                    if public_key != public_key.lower():
                        raise ValueError("pubkey must be lower case")

""",
        ),
        (
            "wampproto/acceptor.py",
            """                        raise ValueError("authextra must contain pubkey for cryptosign")
""",
            """                        raise ValueError("authextra must contain a pubkey for cryptosign")
""",
        ),
    ],
    "a public key announced in upper case hexadecimal",
    "the right key does not let the client in",
    HS
    + """from wampproto.auth import cryptosign as c
import nacl.signing
pub, priv = cryptosign.generate_cryptosign_keypair()
a = acceptor.Acceptor(authenticator=Server())
ch = a.receive_message(hello("cryptosign", extra={"pubkey": pub.upper()}))
sig = c.sign_cryptosign_challenge(ch.extra["challenge"], nacl.signing.SigningKey(bytes.fromhex(priv)))
assert isinstance(a.receive_message(authenticate(sig)), M.Welcome)
""",
)

bug(
    "c24-keylen-fixed",
    "C24",
    [
        (
            "wampproto/auth/wampcra.py",
            """    derived_key = hashlib.pbkdf2_hmac("sha256", secret_bytes, salt, iterations, key_length)
""",
            """    derived_key = hashlib.pbkdf2_hmac("sha256", secret_bytes, salt, iterations, min(key_length, 32))
""",
        )
    ],
    "a salted challenge with a key length above 32",
    "the client proves itself with a shorter key",
    HS
    + """import base64, hashlib
from wampproto.auth import wampcra
assert wampcra.derive_cra_key("salt", "s", 10, 64) == base64.b64encode(hashlib.pbkdf2_hmac("sha256", b"s", b"salt", 10, 64))
""",
)

bug(
    "c13-last-part-ends-waiting",
    "C13",
    [
        (
            "wampproto/session.py",
            """            self._call_requests.add(msg.request_id)
""",
            """            if msg.request_id in self._call_requests and not msg.options.get("progress", False):
                self._call_requests.remove(msg.request_id)
            else:
                self._call_requests.add(msg.request_id)
""",
        )
    ],
    "a progressive call in two parts",
    "the caller refuses the RESULT",
    """s = WAMPSession()
s.send_message(M.Call(M.CallFields(1, "p", None, None, {"progress": True})))
s.send_message(M.Call(M.CallFields(1, "p")))
s.receive_message(M.Result(M.ResultFields(1)))
""",
)

bug(
    "c17-unsubscribed-still-gets-events",
    "C17",
    [
        (
            "wampproto/broker.py",
            """            del subscription.subscribers[session_id]
            if len(subscription.subscribers) == 0:
                del self.subscriptions_by_topic[subscription.topic]

            del self""",
            """            if len(subscription.subscribers) == 1:
                del self.subscriptions_by_topic[subscription.topic]
            elif next(iter(subscription.subscribers)) == session_id:
                del subscription.subscribers[session_id]

            del self""",
        )
    ],
    "of two subscribers the second one unsubscribes",
    "it still gets events, which its session refuses",
    """b = broker(1, 2, 3)
subscribe(b, 1, 1, "t")
s = subscribe(b, 2, 1, "t")
b.receive_message(2, M.Unsubscribe(M.UnsubscribeFields(2, s.subscription_id)))
assert publish(b, 3, 1, "t").recipients == [1]
""",
)

bug(
    "c17-error-of-register-leaves-request",
    "C17",
    [
        (
            "wampproto/session.py",
            """                        self._register_requests.remove(msg.request_id)
                    except KeyError:
                        raise ValueError("received ERROR for invalid register request")
""",
            """                        if len(self._register_requests) == 1:
                            self._register_requests.remove(msg.request_id)
                    except KeyError:
                        raise ValueError("received ERROR for invalid register request")
""",
        )
    ],
    "one of two waiting REGISTERs fails",
    "the session waits for it for ever",
    """s = WAMPSession()
for q in (1, 2):
    s.send_message(M.Register(M.RegisterFields(q, "p")))
e = M.Error(M.ErrorFields(64, 2, "u"))
s.receive_message(e)
assert refused(lambda: s.receive_message(e))
""",
)

WIRE = '''from wampproto.serializers import JSONSerializer, MsgPackSerializer, CBORSerializer
from wampproto.serializers.serializer import to_message
from wampproto.serializers import payload as P
from wampproto.transports import rawsocket as R
SERIALIZERS = (JSONSerializer(), MsgPackSerializer(), CBORSerializer())


'''

bug(
    "c25-publish-empty-args-shift-kwargs",
    "C25",
    [
        (
            "wampproto/messages/publish.py",
            """        if self.args is not None:
            message.append(self.args)
""",
            """        if self.args:
            message.append(self.args)
""",
        )
    ],
    "a PUBLISH with an empty argument list and keyword arguments",
    "the keyword arguments stand where the arguments belong and the message cannot be decoded",
    WIRE
    + """m = M.Publish(M.PublishFields(1, "t", [], {"a": 1}))
for s in SERIALIZERS:
    assert s.deserialize(s.serialize(m)).kwargs == {"a": 1}
""",
)

bug(
    "c25-error-empty-kwargs-lost",
    "C25",
    [
        (
            "wampproto/messages/error.py",
            """        if self.kwargs is not None:
            if self.args is None:
                message.append([])
""",
            """        if self.kwargs:
            if self.args is None:
                message.append([])
""",
        )
    ],
    "an ERROR with an empty dictionary of keyword arguments",
    "it is decoded as one without keyword arguments",
    WIRE
    + """m = M.Error(M.ErrorFields(48, 1, "u", [1], {}))
assert m.marshal() == [8, 48, 1, {}, "u", [1], {}]
""",
)

bug(
    "c25-msgpack-single-float",
    "C25",
    [("wampproto/serializers/msgpack.py", "msgpack.dumps(message.marshal())", "msgpack.dumps(message.marshal(), use_single_float=True)")],
    "a float that has no exact 32-bit form",
    "MessagePack gives back another number",
    WIRE
    + """m = M.Call(M.CallFields(1, "p", [0.1]))
assert SERIALIZERS[1].deserialize(SERIALIZERS[1].serialize(m)).args == [0.1]
""",
)

bug(
    "c25-msgpack-old-raw",
    "C25",
    [("wampproto/serializers/msgpack.py", "msgpack.dumps(message.marshal())", "msgpack.dumps(message.marshal(), use_bin_type=False)")],
    "a byte string among the arguments",
    "MessagePack gives back a text or nothing",
    WIRE
    + """m = M.Call(M.CallFields(1, "p", [b"abc"]))
assert SERIALIZERS[1].deserialize(SERIALIZERS[1].serialize(m)).args == [b"abc"]
""",
)

bug(
    "c25-msgpack-long-text",
    "C25",
    [("wampproto/serializers/msgpack.py", "msgpack.loads(data)", "msgpack.loads(data, max_str_len=1 << 16)")],
    "a text longer than 65536 bytes",
    "MessagePack cannot decode its own message",
    WIRE
    + """m = M.Call(M.CallFields(1, "p", ["x" * 100000]))
assert SERIALIZERS[1].deserialize(SERIALIZERS[1].serialize(m)).args == ["x" * 100000]
""",
)

bug(
    "c25-cbor-shared-values",
    "C25",
    [("wampproto/serializers/cbor.py", "cbor2.dumps(message.marshal())", "cbor2.dumps(message.marshal(), value_sharing=True)")],
    "any CBOR message, read by another implementation",
    "the message is a tagged value, not the WAMP array",
    WIRE
    + """data = SERIALIZERS[2].serialize(M.Unregistered(M.UnregisteredFields(1)))
assert data == bytes([0x82, 0x18, 67, 1]), data
""",
)

bug(
    "c25-fields-reused",
    "C25",
    [
        ("wampproto/messages/util.py", """    errors = []
    f = Fields()
    for idx, func in val_spec.spec.items():
""", """    errors = []
    f = _FIELDS.setdefault(type_, Fields())
    for idx, func in val_spec.spec.items():
"""),
        ("wampproto/messages/util.py", """def validate_int_or_raise(value: int,""", """_FIELDS: dict[int, Fields] = {}


def validate_int_or_raise(value: int,"""),
    ],
    "a message without arguments decoded after one of the same type with arguments",
    "it is given the arguments of the earlier one",
    WIRE
    + """s = SERIALIZERS[0]
s.deserialize(s.serialize(M.Yield(M.YieldFields(1, [7], {"k": 1}))))
assert s.deserialize(s.serialize(M.Yield(M.YieldFields(2)))).args is None
""",
)

bug(
    "c25-event-kwargs-need-args",
    "C25",
    [("wampproto/messages/event.py", "EventFields(f.subscription_id, f.publication_id, f.args, f.kwargs, f.details)", "EventFields(f.subscription_id, f.publication_id, f.args, f.kwargs if f.args else None, f.details)")],
    "an EVENT with keyword arguments only",
    "they are lost in decoding",
    WIRE
    + """m = M.Event(M.EventFields(1, 2, None, {"a": 1}))
assert SERIALIZERS[0].deserialize(SERIALIZERS[0].serialize(m)).kwargs == {"a": 1}
""",
)

bug(
    "c25-shared-empty-options",
    "C25",
    [
        ("wampproto/messages/call.py", "        options: dict[str, Any] | None = None,\n", "        options: dict[str, Any] = {},\n"),
        ("wampproto/messages/call.py", "self._options = {} if options is None else options", "self._options = options"),
    ],
    "a CALL without options made after one with a payload serializer",
    "it carries the option of the earlier one",
    WIRE
    + """M.Call(M.CallFields(1, "p", serializer=1, payload=b"", binary=True)).marshal()
assert M.Call(M.CallFields(2, "p")).marshal() == [48, 2, {}, "p"]
""",
)

bug(
    "c25-unregister-ids-swapped-twice",
    "C25",
    [
        ("wampproto/messages/unregister.py", "            1: util.validate_request_id,\n            2: util.validate_registration_id,\n", "            1: util.validate_registration_id,\n            2: util.validate_request_id,\n"),
        ("wampproto/messages/unregister.py", "return [self.TYPE, self.request_id, self.registration_id]", "return [self.TYPE, self.registration_id, self.request_id]"),
    ],
    "an UNREGISTER read by another implementation",
    "its two ids stand in each other's place",
    WIRE
    + """assert M.Unregister(M.UnregisterFields(1, 2)).marshal() == [66, 1, 2]
""",
)

bug(
    "c25-hello-empty-authmethods-lost",
    "C25",
    [("wampproto/messages/hello.py", "        if self.authextra is not None:\n            details", "        if self.authextra:\n            details")],
    "a HELLO with an empty authextra",
    "it is decoded as one without",
    WIRE
    + """m = M.Hello(M.HelloFields("r", {"caller": {}}, authextra={}))
assert SERIALIZERS[0].deserialize(SERIALIZERS[0].serialize(m)).authextra == {}
""",
)

bug(
    "c25-json-ids-through-float",
    "C25",
    [("wampproto/serializers/json.py", "json.loads(data)", "json.loads(data, parse_int=lambda s: int(float(s)))")],
    "an integer above 2^53 in the arguments",
    "JSON gives back another number",
    WIRE
    + """m = M.Call(M.CallFields(1, "p", [2**53 + 1]))
assert SERIALIZERS[0].deserialize(SERIALIZERS[0].serialize(m)).args == [2**53 + 1]
""",
)

bug(
    "c26-max-id-refused",
    "C26",
    [("wampproto/messages/util.py", "elif value < MIN_ID or value > MAX_ID:", "elif value not in range(MIN_ID, MAX_ID):")],
    "the id 2^53",
    "a well-formed message is refused",
    WIRE + """to_message([35, 2**53])\n""",
)

bug(
    "c26-goodbye-with-more",
    "C26",
    [("wampproto/messages/goodbye.py", "max_length=3", "max_length=5")],
    "a GOODBYE of four elements",
    "it is accepted and the rest ignored",
    WIRE + """assert refused(lambda: to_message([6, {}, "r", []]))\n""",
)

bug(
    "c26-falsy-authmethod",
    "C26",
    [("wampproto/messages/util.py", """if (authmethod := details.get("authmethod", None)) is not None:""", """if authmethod := details.get("authmethod", None):""")],
    "a WELCOME whose authmethod is 0 or an empty list",
    "it is accepted",
    WIRE + """assert refused(lambda: to_message([2, 1, {"roles": {"dealer": {}}, "authmethod": []}]))\n""",
)

bug(
    "c26-some-known-role-is-enough",
    "C26",
    [
        (
            "wampproto/messages/util.py",
            """    for role in roles:
        if role not in AllowedRoles.get_allowed_roles():
            return (
                f"{name}: value at index {index} for roles key must be in {AllowedRoles.get_allowed_roles()} "
                f"but was {role}"
            )
""",
            """    if not any(role in AllowedRoles.get_allowed_roles() for role in roles):
        return (
            f"{name}: value at index {index} for roles key must be in {AllowedRoles.get_allowed_roles()} "
            f"but was {list(roles)}"
        )
""",
        )
    ],
    "a HELLO with one known and one unknown role",
    "it is accepted",
    WIRE + """assert refused(lambda: to_message([1, "r", {"roles": {"caller": {}, "boss": {}}}]))\n""",
)

bug(
    "c26-null-args",
    "C26",
    [
        (
            "wampproto/messages/util.py",
            """    if len(msg) > index:
        if (error := validate_list_or_raise(msg[index], index, name)) is not None:
""",
            """    if len(msg) > index and msg[index] is not None:
        if (error := validate_list_or_raise(msg[index], index, name)) is not None:
""",
        )
    ],
    "a null in place of the arguments",
    "it is accepted",
    WIRE + """assert refused(lambda: to_message([50, 1, {}, None, {}]))\n""",
)

bug(
    "c26-yield-kwargs-unchecked",
    "C26",
    [
        (
            "wampproto/messages/yield_.py",
            """            3: util.validate_args,
            4: util.validate_kwargs,
        },
    )
""",
            """            3: util.validate_args,
        },
    )
""",
        ),
        (
            "wampproto/messages/yield_.py",
            "return Yield(YieldFields(f.request_id, f.args, f.kwargs, f.options))",
            "return Yield(YieldFields(f.request_id, f.args, msg[4] if len(msg) > 4 else None, f.options))",
        ),
    ],
    "a YIELD whose keyword arguments are not a dictionary",
    "it is accepted",
    WIRE + """assert refused(lambda: to_message([70, 1, {}, [], [1]]))\n""",
)

bug(
    "c26-registration-id-zero",
    "C26",
    [
        (
            "wampproto/messages/util.py",
            """    if (error := validate_id_or_raise(msg[index], index, name)) is not None:
        return error

    fields.registration_id = msg[index]
""",
            """    if (error := validate_int_or_raise(msg[index], index, name)) is not None:
        return error

    if abs(msg[index]) > MAX_ID:
        return exceptions.InvalidRangeError.format(
            message=name, index=index, start=MIN_ID, end=MAX_ID, actual=msg[index]
        )

    fields.registration_id = msg[index]
""",
        )
    ],
    "a registration id of 0 or below",
    "it is accepted",
    WIRE + """assert refused(lambda: to_message([66, 1, 0]))\n""",
)

bug(
    "c26-hello-errors-of-last",
    "C26",
    [
        (
            "wampproto/messages/util.py",
            """    if (error := validate_authmethods(msg[index], index, fields, name)) is not None:
        errors.append(error)

    if (error := validate_roles(""",
            """    if (error := validate_authmethods(msg[index], index, fields, name)) is not None and not fields.authid:
        errors.append(error)

    if (error := validate_roles(""",
        )
    ],
    "a HELLO with an authid whose authmethods is not a list",
    "it is accepted without authmethods",
    WIRE + """assert refused(lambda: to_message([1, "r", {"roles": {"caller": {}}, "authid": "a", "authmethods": "ticket"}]))\n""",
)

bug(
    "c26-cancel-without-options",
    "C26",
    [
        ("wampproto/messages/cancel.py", "min_length=3", "min_length=2"),
        ("wampproto/messages/cancel.py", "            2: util.validate_options,\n", "            2: lambda msg, i, f, name: util.validate_options(msg, i, f, name) if len(msg) > i else None,\n"),
    ],
    "a CANCEL of two elements",
    "it is accepted",
    WIRE + """assert refused(lambda: to_message([49, 1]))\n""",
)

bug(
    "c26-bytes-for-text",
    "C26",
    [
        ("wampproto/messages/util.py", """def validate_string_or_raise(value: str, index: int, message: str):
    if not isinstance(value, str):""", """def validate_string_or_raise(value: str, index: int, message: str):
    if not isinstance(value, (str, bytes)):"""),
    ],
    "a byte string in place of a URI (CBOR or MessagePack)",
    "it is accepted",
    WIRE + """assert refused(lambda: to_message([32, 1, {}, b"topic"]))\n""",
)

bug(
    "c26-numeric-type-code",
    "C26",
    [("wampproto/serializers/serializer.py", "        case messages.Cancel.TYPE:\n            return messages.Cancel.parse(message)\n        case messages.Interrupt.TYPE:\n            return messages.Interrupt.parse(message)\n", "        case messages.Cancel.TYPE:\n            return messages.Cancel.parse(message)\n        case code if code & 0x7F == messages.Interrupt.TYPE:\n            return messages.Interrupt.parse([messages.Interrupt.TYPE, *message[1:]])\n")],
    "the type code 197 or -59",
    "it is taken for INTERRUPT",
    WIRE + """assert refused(lambda: to_message([69 + 128, 1, {}]))\n""",
)

bug(
    "c27-empty-args-lost",
    "C27",
    [("wampproto/serializers/payload.py", "    if args is not None:\n        data.append(args)\n", "    if args:\n        data.append(args)\n")],
    "an empty argument list with keyword arguments",
    "the payload is refused when decoded",
    WIRE + """assert P.deserialize_payload(1, P.serialize_payload(1, [], {"a": 1})) == ([], {"a": 1})\n""",
)

bug(
    "c27-msgpack-single-float",
    "C27",
    [("wampproto/serializers/payload.py", "msgpack.dumps(data)", "msgpack.dumps(data, use_single_float=True)")],
    "a float with no exact 32-bit form",
    "MessagePack gives back another number",
    WIRE + """assert P.deserialize_payload(2, P.serialize_payload(2, [0.1], None)) == ([0.1], None)\n""",
)

bug(
    "c27-raw-takes-first",
    "C27",
    [("wampproto/serializers/payload.py", "if len(args) != 1 or kwargs:", "if len(args) < 1 or kwargs:")],
    "two byte strings for the raw codec",
    "the second is silently lost",
    WIRE + """assert refused(lambda: P.serialize_payload(0, [b"a", b"b"], None))\n""",
)

bug(
    "c27-third-element-ignored",
    "C27",
    [("wampproto/serializers/payload.py", "    if len(arr) > 2:\n", "    if len(arr) > 3:\n"), ("wampproto/serializers/payload.py", "    if len(arr) == 2:\n", "    if len(arr) >= 2:\n")],
    "a payload of three elements",
    "it is accepted",
    WIRE + """assert refused(lambda: P.deserialize_payload(1, b'[[1], {}, 3]'))\n""",
)

bug(
    "c27-one-byte-is-empty",
    "C27",
    [("wampproto/serializers/payload.py", """def msgpack_decode_payload(b: bytes) -> Tuple[list[Any] | None, dict[Any, Any] | None]:
    if len(b) == 0:""", """def msgpack_decode_payload(b: bytes) -> Tuple[list[Any] | None, dict[Any, Any] | None]:
    if len(b) <= 1:""")],
    "a MessagePack payload of one byte, such as nil or an empty map",
    "it is accepted",
    WIRE + """assert refused(lambda: P.deserialize_payload(2, b"\\xc0"))\n""",
)

bug(
    "c27-blank-json-is-empty",
    "C27",
    [("wampproto/serializers/payload.py", """def json_decode_payload(b: bytes) -> Tuple[list[Any] | None, dict[Any, Any] | None]:
    if len(b) == 0:""", """def json_decode_payload(b: bytes) -> Tuple[list[Any] | None, dict[Any, Any] | None]:
    if not b.strip(b" []"):""")],
    "a payload of brackets, such as [[]]",
    "empty arguments are decoded as none, unclosed brackets accepted",
    WIRE + """assert P.deserialize_payload(1, b"[[]]") == ([], None)
assert refused(lambda: P.deserialize_payload(1, b"["))
""",
)

bug(
    "c27-empty-kwargs-lost",
    "C27",
    [("wampproto/serializers/payload.py", "        kwargs = arr[1]\n", "        kwargs = arr[1] or None\n")],
    "empty keyword arguments",
    "they are decoded as absent",
    WIRE + """assert P.deserialize_payload(3, P.serialize_payload(3, [1], {})) == ([1], {})\n""",
)

bug(
    "c27-raw-takes-text",
    "C27",
    [("wampproto/serializers/payload.py", "            if not isinstance(payload, (bytes, bytearray)):\n", "            if isinstance(payload, str):\n                payload = payload.encode()\n            if not isinstance(payload, (bytes, bytearray)):\n"),
     ("wampproto/serializers/payload.py", "            payload = args[0]\n", "            payload = args[0] if args[0] is not None else b''\n")],
    "a null or text given to the raw codec",
    "it is carried as bytes",
    WIRE + """assert refused(lambda: P.serialize_payload(0, ["a"], None))\n""",
)

bug(
    "c27-kwargs-any-mapping-element",
    "C27",
    [("wampproto/serializers/payload.py", "        if not isinstance(arr[1], dict):\n", "        if arr[1] and not isinstance(arr[1], dict):\n")],
    "a payload whose second element is null, 0 or an empty list",
    "it is accepted",
    WIRE + """assert refused(lambda: P.deserialize_payload(1, b"[[1], []]"))\n""",
)

bug(
    "c27-unknown-codec-is-cbor",
    "C27",
    [("wampproto/serializers/payload.py", """        case serializers.MSGPACK_SERIALIZER_ID:
            return msgpack_decode_payload(payload)
        case _:
            raise ValueError(f"serializer {serializer_id} not recognized")
""", """        case serializers.MSGPACK_SERIALIZER_ID:
            return msgpack_decode_payload(payload)
        case _:
            if serializer_id >= 0:
                raise ValueError(f"serializer {serializer_id} not recognized")
            return [payload], {}
""")],
    "a negative codec number",
    "it is taken for the raw codec",
    WIRE + """assert refused(lambda: P.deserialize_payload(-1, b"a"))\n""",
)

bug(
    "c28-limit-rounded",
    "C28",
    [("wampproto/transports/rawsocket.py", "int(math.log2(hs.max_msg_size)) - 9", "round(math.log2(hs.max_msg_size)) - 9")],
    "a limit nearer to the next power of two",
    "a larger limit than meant is announced",
    WIRE + """assert R.Handshake.from_bytes(R.Handshake(1, 1000).to_bytes()).max_msg_size == 512\n""",
)

bug(
    "c28-serializer-three-bits",
    "C28",
    [("wampproto/transports/rawsocket.py", "return Handshake(data[1] & 0x0F,", "return Handshake(data[1] & 0x07,")],
    "a serializer number above 7",
    "another serializer is decoded",
    WIRE + """assert R.Handshake.from_bytes(R.Handshake(9, 512).to_bytes()).protocol == 9\n""",
)

bug(
    "c28-longer-input-accepted",
    "C28",
    [("wampproto/transports/rawsocket.py", "    if len(data) != 4:\n", "    if len(data) < 4:\n")],
    "five bytes",
    "they are accepted",
    WIRE + """assert refused(lambda: R.Handshake.from_bytes(bytes([0x7F, 1, 0, 0, 1])))\n""",
)

bug(
    "c28-magic-seven-bits",
    "C28",
    [("wampproto/transports/rawsocket.py", "    if data[0] != MAGIC:\n", "    if data[0] & MAGIC != MAGIC:\n")],
    "a first byte of 0xFF",
    "it is accepted",
    WIRE + """assert refused(lambda: R.Handshake.from_bytes(bytes([0xFF, 1, 0, 0])))\n""",
)

bug(
    "c28-small-limit-announced-as-512",
    "C28",
    [("wampproto/transports/rawsocket.py", "int(math.log2(hs.max_msg_size)) - 9 << 4", "max(int(math.log2(hs.max_msg_size)) - 9, 0) << 4")],
    "a limit below 512",
    "a larger limit is announced",
    WIRE + """assert refused(lambda: R.Handshake(1, 100).to_bytes())\n""",
)

bug(
    "c28-largest-limit-halved",
    "C28",
    [("wampproto/transports/rawsocket.py", "1 << ((data[1] >> 4) + 9))", "min(1 << ((data[1] >> 4) + 9), PROTOCOL_MAX_MSG_SIZE - 1))")],
    "the largest limit",
    "a smaller one is decoded",
    WIRE + """assert R.Handshake.from_bytes(R.Handshake(1, 2**24).to_bytes()).max_msg_size == 2**24\n""",
)

bug(
    "c29-length-top-bit",
    "C29",
    [("wampproto/transports/rawsocket.py", "(i >> 16) & 0xFF", "(i >> 16) & 0x7F")],
    "a length of 2^23 or more",
    "another length is written",
    WIRE + """assert R.MessageHeader(0, 2**23).to_bytes() == bytes([0, 0x80, 0, 0])\n""",
)

bug(
    "c29-little-endian-both-ways",
    "C29",
    [
        ("wampproto/transports/rawsocket.py", "            (i >> 16) & 0xFF,\n            (i >> 8) & 0xFF,\n            i & 0xFF,\n", "            i & 0xFF,\n            (i >> 8) & 0xFF,\n            (i >> 16) & 0xFF,\n"),
        ("wampproto/transports/rawsocket.py", "for byte in reversed(b):", "for byte in b:"),
    ],
    "a header read by another implementation",
    "its length is written least significant byte first",
    WIRE + """assert R.MessageHeader(0, 1).to_bytes() == bytes([0, 0, 0, 1])\n""",
)

bug(
    "c29-pong-is-message",
    "C29",
    [("wampproto/transports/rawsocket.py", "MessageHeader(data[0], bytes_to_int", "MessageHeader(data[0] & 0x01, bytes_to_int")],
    "a PONG frame",
    "it is decoded as a message",
    WIRE + """assert R.MessageHeader.from_bytes(R.MessageHeader(2, 1).to_bytes()).kind == 2\n""",
)

bug(
    "c29-length-clipped",
    "C29",
    [("wampproto/transports/rawsocket.py", "        return self._length\n", "        return min(self._length, PROTOCOL_MAX_MSG_SIZE - 2)\n")],
    "the largest length",
    "one less is decoded",
    WIRE + """assert R.MessageHeader.from_bytes(bytes([0, 255, 255, 255])).length == 2**24 - 1\n""",
)

bug(
    "c29-carry-between-bytes",
    "C29",
    [("wampproto/transports/rawsocket.py", "            (i >> 8) & 0xFF,\n", "            (i // 257 if i & 0xFFFF == 0xFFFF else i >> 8) & 0xFF,\n")],
    "a length whose lower 16 bits are all ones, above 65535",
    "another length is written",
    WIRE + """assert R.MessageHeader(0, 0x1FFFF).to_bytes() == bytes([0, 1, 255, 255])\n""",
)

# ---------------------------------------------------------------- second wave: volume, values, several sites

bug(
    "c02-oldest-call-evicted",
    "C02",
    [
        (
            "wampproto/dealer.py",
            """            receive_progress = message.options.get(OPTION_RECEIVE_PROGRESS, False)
            progress =""",
            """            while len(self.pending_calls) > 64:
                self._remove_call(next(iter(self.pending_calls)))
            receive_progress = message.options.get(OPTION_RECEIVE_PROGRESS) or False
            progress =""",
        )
    ],
    "more than 64 open calls",
    "the oldest call is forgotten and its answer refused",
    """d = dealer(1, 2)
register(d, 1, 1, "p")
first = call(d, 2, 1, "p").message.request_id
for q in range(2, 80):
    call(d, 2, q, "p")
assert answer(d, 1, first, 1).recipient == 2
""",
)

bug(
    "c07-recipients-limited",
    "C07",
    [
        (
            "wampproto/broker.py",
            """                result.recipients.append(subscriber_id)
""",
            """                if len(result.recipients) < 16:
                    result.recipients.append(subscriber_id)
""",
        )
    ],
    "a topic with more than 16 subscribers",
    "the others get no event",
    """b = broker(*range(1, 31))
for s in range(1, 31):
    subscribe(b, s, 1, "t")
assert len(publish(b, 1, 1, "t").recipients) == 30
""",
)

bug(
    "c13-oldest-request-forgotten",
    "C13",
    [
        (
            "wampproto/session.py",
            """            self._call_requests.add(msg.request_id)
""",
            """            self._call_requests = set(sorted(self._call_requests | {msg.request_id})[-32:])
""",
        )
    ],
    "more than 32 calls waiting",
    "the RESULT of the oldest is refused",
    """s = WAMPSession()
for q in range(1, 40):
    s.send_message(M.Call(M.CallFields(q, "p")))
s.receive_message(M.Result(M.ResultFields(1)))
""",
)

bug(
    "c05-reserved-procedures",
    "C05",
    [
        (
            "wampproto/dealer.py",
            """            registration = self.registrations_by_procedure.get(message.procedure)
            if registration is None:
                registration = Registration(""",
            """            registration = self.registrations_by_procedure.get(message.procedure)
            if registration is None and not message.procedure.startswith("wamp."):
                registration = Registration(""",
        )
    ],
    "a free procedure whose name starts with wamp.",
    "its REGISTER is answered with an error",
    """d = dealer(1)
assert isinstance(register(d, 1, 1, "wamp.session.count"), M.Registered)
""",
)

bug(
    "c05-force-reregister",
    "C05",
    [
        (
            "wampproto/dealer.py",
            """            registration = self.registrations_by_procedure.get(message.procedure)
            if registration is None:
                registration = Registration(self.idgen.next(), message.procedure, {session_id: session_id})
""",
            """            registration = self.registrations_by_procedure.get(message.procedure)
            if registration is not None and message.options.get("force_reregister"):
                for owner in registration.registrants:
                    self.registrations_by_session[owner].pop(registration.id, None)
                registration = None
            if registration is None:
                owner = {session_id: session_id}
                registration = Registration(self.idgen.next(), message.procedure, owner)
""",
        )
    ],
    "REGISTER with the option force_reregister for a taken procedure",
    "the procedure changes hands",
    """d = dealer(1, 2)
register(d, 1, 1, "p")
m = M.Register(M.RegisterFields(1, "p", {"force_reregister": True}))
assert isinstance(d.receive_message(2, m).message, M.Error)
""",
)

bug(
    "c07-eligible-honoured",
    "C07",
    [
        (
            "wampproto/broker.py",
            """                result.recipients.append(subscriber_id)
""",
            """                if "eligible" not in message.options or subscriber_id in message.options["eligible"]:
                    result.recipients.append(subscriber_id)
""",
        )
    ],
    "PUBLISH with the option eligible",
    "subscribers not listed get no event",
    """b = broker(1, 2, 3)
for s in (1, 2):
    subscribe(b, s, 1, "t")
assert sorted(publish(b, 3, 1, "t", eligible=[1]).recipients) == [1, 2]
""",
)

bug(
    "c09-match-policy-splits-topic",
    "C09",
    [
        (
            "wampproto/broker.py",
            """            subscription = self.subscriptions_by_topic.get(message.topic)
            if subscription is None:
                subscription = Subscription(self.idgen.next(), message.topic, {session_id: session_id})
                self.subscriptions_by_topic[message.topic] = subscription
""",
            """            topic = message.topic
            if message.options.get("match", "exact") != "exact":
                topic = topic + "/" + message.options["match"]
            subscription = self.subscriptions_by_topic.get(topic)
            if subscription is None:
                subscription = Subscription(self.idgen.next(), topic, {session_id: session_id})
                self.subscriptions_by_topic[topic] = subscription
""",
        )
    ],
    "SUBSCRIBE with the option match",
    "the topic gets a second subscription with another id",
    """b = broker(1, 2)
a = subscribe(b, 1, 1, "t")
m = M.Subscribe(M.SubscribeFields(1, "t", {"match": "prefix"}))
assert b.receive_message(2, m).message.subscription_id == a.subscription_id
""",
)

bug(
    "c04-key-concatenated",
    "C04",
    [
        (
            "wampproto/dealer.py",
            """        self.call_to_invocation_id[(caller_id, call_id)] = invocation_id
""",
            """        self.call_to_invocation_id[f"{caller_id}{call_id}"] = invocation_id
""",
        ),
        (
            "wampproto/dealer.py",
            """        call = (pending.caller_id, pending.request_id)
""",
            """        call = f"{pending.caller_id}{pending.request_id}"
""",
        ),
        (
            "wampproto/dealer.py",
            """self.call_to_invocation_id.get((session_id, message.request_id))
""",
            """self.call_to_invocation_id.get(f"{session_id}{message.request_id}")
""",
        ),
    ],
    "two callers whose session and request ids written together are equal",
    "the call of one continues the progressive call of the other",
    """d = dealer(1, 11, 3)
register(d, 3, 1, "p")
a = call(d, 1, 12, "p", progress=True).message.request_id
b = call(d, 11, 2, "p", progress=True).message.request_id
assert a != b
""",
)

bug(
    "c12-registration-id-kept",
    "C12",
    [
        (
            "wampproto/dealer.py",
            """                registration = Registration(self.idgen.next(), message.procedure, {session_id: session_id})
""",
            """                known = self._ids.setdefault((session_id, message.procedure), self.idgen.next())
                registration = Registration(known, message.procedure, {session_id: session_id})
""",
        ),
        (
            "wampproto/dealer.py",
            """        self.idgen = idgen.SessionScopeIDGenerator()
""",
            """        self.idgen = idgen.SessionScopeIDGenerator()
        self._ids: dict[tuple[int, str], int] = {}
""",
        ),
    ],
    "a session registers a procedure again after giving it up",
    "the new registration has the id of the old one",
    """d = dealer(1)
a = register(d, 1, 1, "p").registration_id
d.receive_message(1, M.Unregister(M.UnregisterFields(2, a)))
assert register(d, 1, 3, "p").registration_id != a
""",
)

bug(
    "c12-subscription-id-kept",
    "C12",
    [
        (
            "wampproto/broker.py",
            """                subscription = Subscription(self.idgen.next(), message.topic, {session_id: session_id})
""",
            """                subscription = self._unused.pop(message.topic, None) or Subscription(self.idgen.next(), message.topic, {})
                subscription.subscribers[session_id] = session_id
""",
        ),
        (
            "wampproto/broker.py",
            """        self.idgen = idgen.SessionScopeIDGenerator()
""",
            """        self.idgen = idgen.SessionScopeIDGenerator()
        self._unused: dict[str, Subscription] = {}
""",
        ),
        (
            "wampproto/broker.py",
            """            if len(subscription.subscribers) == 0:
                del self.subscriptions_by_topic[subscription.topic]

            del self.subscriptions_by_session[session_id][message.subscription_id]
""",
            """            if len(subscription.subscribers) == 0:
                self._unused[subscription.topic] = self.subscriptions_by_topic.pop(subscription.topic)

            del self.subscriptions_by_session[session_id][message.subscription_id]
""",
        ),
    ],
    "a topic gets a subscriber again after the last one unsubscribed",
    "the new subscription has the id of the ended one",
    """b = broker(1)
a = subscribe(b, 1, 1, "t").subscription_id
b.receive_message(1, M.Unsubscribe(M.UnsubscribeFields(2, a)))
assert subscribe(b, 1, 3, "t").subscription_id != a
""",
)

bug(
    "c08-no-ack-for-subscribed-publisher",
    "C08",
    [
        (
            "wampproto/broker.py",
            """        if ack:
""",
            """        if ack and session_id not in result.recipients[:-1]:
""",
        )
    ],
    "the publisher is subscribed to the topic and not its last subscriber",
    "it gets no PUBLISHED",
    """b = broker(1, 2)
subscribe(b, 1, 1, "t")
subscribe(b, 2, 1, "t")
assert publish(b, 1, 2, "t", acknowledge=True).ack is not None
""",
)

bug(
    "c02-yield-from-present-owner",
    "C02",
    [
        (
            "wampproto/dealer.py",
            """            if session_id != invocation.callee_id:
                raise ValueError(f"received unexpected yield""",
            """            owners = [
                r.registrants for r in self.registrations_by_procedure.values() if r.procedure == invocation.procedure
            ]
            if session_id != invocation.callee_id and not any(session_id in o for o in owners):
                raise ValueError(f"received unexpected yield""",
        ),
        (
            "wampproto/dealer.py",
            """    receive_progress: bool


""",
            """    receive_progress: bool
    procedure: str = ""


""",
        ),
        (
            "wampproto/dealer.py",
            """        self.call_to_invocation_id[(caller_id, call_id)] = invocation_id
""",
            """        self.call_to_invocation_id[(caller_id, call_id)] = invocation_id
        for registration in self.registrations_by_procedure.values():
            if registration.id == registration_id:
                self.pending_calls[invocation_id].procedure = registration.procedure
""",
        ),
    ],
    "another session takes the procedure over while a call is open, and yields",
    "its YIELD is accepted for an invocation it was not sent",
    """d = dealer(1, 2, 3)
r = register(d, 1, 1, "p").registration_id
i = call(d, 2, 1, "p").message.request_id
d.receive_message(1, M.Unregister(M.UnregisterFields(2, r)))
register(d, 3, 1, "p")
assert refused(lambda: answer(d, 3, i, 1))
""",
)

bug(
    "c03-unregister-drops-calls",
    "C03",
    [
        (
            "wampproto/dealer.py",
            """                del self.registrations_by_procedure[registration.procedure]

            self.registrations_by_session""",
            """                self.registrations_by_procedure.pop(registration.procedure)
                for invocation_id, pending in list(self.pending_calls.items()):
                    if pending.registration_id == registration.id and pending.progress:
                        self._remove_call(invocation_id)

            self.registrations_by_session""",
        )
    ],
    "UNREGISTER while a progressive call is open",
    "its callee can no longer answer it",
    """d = dealer(1, 2)
r = register(d, 1, 1, "p").registration_id
i = call(d, 2, 1, "p", progress=True).message.request_id
d.receive_message(1, M.Unregister(M.UnregisterFields(2, r)))
assert answer(d, 1, i, 1).recipient == 2
""",
)

bug(
    "c04-same-callee-new-registration",
    "C04",
    [
        (
            "wampproto/dealer.py",
            """                if registration is None or registration.id != self.pending_calls[invocation_id].registration_id:
""",
            """                if registration is None or self.pending_calls[invocation_id].callee_id not in registration.registrants:
""",
        )
    ],
    "the callee gives the procedure up and registers it again between two parts",
    "the old invocation goes on",
    """d = dealer(1, 2)
r = register(d, 1, 1, "p").registration_id
i = call(d, 2, 1, "p", progress=True).message.request_id
d.receive_message(1, M.Unregister(M.UnregisterFields(2, r)))
register(d, 1, 3, "p")
assert call(d, 2, 1, "p", progress=True).message.request_id != i
""",
)

bug(
    "c13-publishes-of-all-sessions",
    "C13",
    [
        ("wampproto/session.py", """        self._publish_requests: set[int] = set()
""", ""),
        (
            "wampproto/session.py",
            """class WAMPSession:
""",
            """class WAMPSession:
    _publish_requests: set[int] = set()

""",
        ),
    ],
    "two sessions in one process",
    "one accepts a PUBLISHED for the PUBLISH of the other",
    """s, t = WAMPSession(), WAMPSession()
s.send_message(M.Publish(M.PublishFields(1, "t", options={"acknowledge": True})))
assert refused(lambda: t.receive_message(M.Published(M.PublishedFields(1, 1))))
""",
)

bug(
    "c06-first-session-id-kept",
    "C06",
    [
        (
            "wampproto/dealer.py",
            """            if sid in (pending.caller_id, pending.callee_id):
""",
            """            if sid == pending.caller_id or (sid == pending.callee_id and pending.caller_id not in self.sessions):
""",
        )
    ],
    "a callee with an open call leaves, and a session with its id joins",
    "the new session can answer the old invocation",
    """d = dealer(1, 2)
register(d, 1, 1, "p")
i = call(d, 2, 1, "p").message.request_id
d.remove_session(1)
d.add_session(types.SessionDetails(1, "realm1", "a", "r"))
assert refused(lambda: answer(d, 1, i, 1))
""",
)

bug(
    "c18-long-secret-clipped",
    "C18",
    [
        (
            "wampproto/auth/wampcra.py",
            """    signature = hmac.new(key, challenge.encode(), hashlib.sha256).digest()
""",
            """    signature = hmac.new(key[:64], challenge.encode(), hashlib.sha256).digest()
""",
        )
    ],
    "secrets that differ only after 64 bytes",
    "a wrong secret is accepted",
    HS
    + """import hmac, hashlib, base64
srv = Server()
srv.secret = "s" * 64 + "right"
a = acceptor.Acceptor(authenticator=srv)
ch = a.receive_message(hello("wampcra"))
sig = hmac.new(("s" * 64 + "wrong").encode()[:64], ch.extra["challenge"].encode(), hashlib.sha256).digest()
assert isinstance(a.receive_message(authenticate(base64.b64encode(sig).decode())), M.Abort)
""",
)

bug(
    "c18-key-kept-per-authid",
    "C18",
    [
        (
            "wampproto/acceptor.py",
            """                    self._public_key = public_key
""",
            """                    self._public_key = Acceptor._keys.setdefault((msg.realm, msg.authid), public_key)
""",
        ),
        (
            "wampproto/acceptor.py",
            """    CRYPTOSIGN = "cryptosign"

""",
            """    CRYPTOSIGN = "cryptosign"

    _keys: dict[tuple[str, str], str] = {}

""",
        ),
    ],
    "a user announces another key in a later handshake",
    "the signature is verified with the first key",
    HS
    + """import nacl.signing
from wampproto.auth.cryptosign import sign_cryptosign_challenge
keys = [nacl.signing.SigningKey.generate() for _ in range(2)]
for announced, signing in ((0, 0), (1, 0)):
    a = acceptor.Acceptor(authenticator=Server())
    ch = a.receive_message(hello("cryptosign", extra={"pubkey": keys[announced].verify_key.encode().hex()}))
    m = a.receive_message(authenticate(sign_cryptosign_challenge(ch.extra["challenge"], keys[signing])))
    assert isinstance(m, M.Welcome) == (announced == signing)
""",
)

bug(
    "c19-short-nonce",
    "C19",
    [
        (
            "wampproto/auth/wampcra.py",
            """    nonce = binascii.hexlify(secrets.token_bytes(16)).decode()
""",
            """    nonce = binascii.hexlify(secrets.token_bytes(4) * 4).decode()
""",
        )
    ],
    "some ten thousand handshakes",
    "a nonce is repeated",
    HS
    + """import json
from wampproto.auth import wampcra
n = [json.loads(wampcra.generate_wampcra_challenge(1, "a", "r", "p"))["nonce"] for _ in range(250000)]
assert len(set(n)) == len(n)
""",
)

bug(
    "c24-derived-key-remembered",
    "C24",
    [
        (
            "wampproto/auth/wampcra.py",
            """    derived_key = hashlib.pbkdf2_hmac("sha256", secret_bytes, salt, iterations, key_length)

    return base64.b64encode(derived_key)
""",
            """    known = (salt_str, iterations, key_length)
    if known not in _derived:
        _derived.clear()
        _derived[known] = base64.b64encode(hashlib.pbkdf2_hmac("sha256", secret_bytes, salt, iterations, key_length))

    return _derived[known]
""",
        ),
        (
            "wampproto/auth/wampcra.py",
            """def derive_cra_key(""",
            """_derived: dict[tuple[str, int, int], bytes] = {}


def derive_cra_key(""",
        ),
    ],
    "two secrets and one salt in a row",
    "the second client proves itself with the key of the first",
    HS
    + """from wampproto.auth import wampcra
assert wampcra.derive_cra_key("salt", "a", 10, 32) != wampcra.derive_cra_key("salt", "b", 10, 32)
""",
)

bug(
    "c24-secret-normalised",
    "C24",
    [
        (
            "wampproto/auth/wampcra.py",
            """        self._secret = secret

    def authenticate""",
            """        self._secret = unicodedata.normalize("NFC", secret)

    def authenticate""",
        ),
        ("wampproto/auth/wampcra.py", "import hmac\n", "import hmac\nimport unicodedata\n"),
    ],
    "a secret with a combining character",
    "the client with the right secret is not let in",
    HS
    + """secret = "pa\\u0308ss"
srv = Server()
srv.secret = secret
a = acceptor.Acceptor(authenticator=srv)
ch = a.receive_message(hello("wampcra"))
assert isinstance(a.receive_message(auth.WAMPCRAAuthenticator("me", secret).authenticate(ch)), M.Welcome)
""",
)

bug(
    "c22-refused-hello-taken-over",
    "C22",
    [
        (
            "wampproto/acceptor.py",
            """            if self._state != Acceptor.STATE_NONE:
                raise ValueError("unknown state")

""",
            """            if self._state == Acceptor.STATE_NONE or self._hello is None or self._hello.authid == msg.authid:
                self._hello = msg
            if self._state > Acceptor.STATE_NONE:
                raise ValueError("unknown state")

""",
        )
    ],
    "a second HELLO with another realm and the same authid while the challenge is open",
    "the details name the realm of the refused HELLO",
    HS
    + """t = "ticket"
a = acceptor.Acceptor(authenticator=Server())
a.receive_message(hello("ticket"))
refused(lambda: a.receive_message(M.Hello(M.HelloFields("other", {"caller": {}}, "me", ["ticket"], {}))))
try:
    a.receive_message(authenticate(Server().ticket if hasattr(Server(), "ticket") else t))
except Exception:
    pass
try:
    d = a.get_session_details()
except ValueError:
    d = None
assert d is not None and d.realm != "other"
""",
)

bug(
    "c23-abort-kwargs-lost",
    "C23",
    [
        (
            "wampproto/joiner.py",
            """            raise ApplicationError(msg.reason, msg.args, msg.kwargs)
""",
            """            raise ApplicationError(msg.reason, msg.args, msg.kwargs if msg.args else None)
""",
        )
    ],
    "ABORT with keyword arguments only",
    "the error has no keyword arguments",
    HS
    + """from wampproto import joiner
j = joiner.Joiner("realm1")
j.send_hello()
try:
    j.receive_message(M.Abort(M.AbortFields({}, "r", kwargs={"a": 1})))
except Exception as e:
    assert "'a': 1" in repr(vars(e)), vars(e)
""",
)

bug(
    "c25-msgpack-large-arrays",
    "C25",
    [
        ("wampproto/serializers/msgpack.py", "msgpack.loads(data)", "msgpack.loads(data, max_array_len=4096)"),
    ],
    "a list of more than 4096 elements",
    "the message cannot be decoded",
    WIRE
    + """s = serializers.MsgPackSerializer()
m = s.deserialize(s.serialize(M.Event(M.EventFields(1, 1, [0] * 5000))))
assert len(m.args) == 5000
""",
)

bug(
    "c25-json-latin-escape",
    "C25",
    [
        (
            "wampproto/serializers/json.py",
            "json.dumps(message.marshal())",
            """json.dumps(message.marshal(), ensure_ascii=False).replace("\\u2028", "")""",
        ),
    ],
    "the line separator U+2028 in a string",
    "it is lost",
    WIRE
    + """s = serializers.JSONSerializer()
assert s.deserialize(s.serialize(M.Event(M.EventFields(1, 1, ["a\\u2028b"])))).args == ["a\\u2028b"]
""",
)

bug(
    "c26-role-in-any-case",
    "C26",
    [
        (
            "wampproto/messages/util.py",
            "        if role not in AllowedRoles.get_allowed_roles():\n",
            "        if role.lower() not in AllowedRoles.get_allowed_roles():\n",
        ),
    ],
    "a role in capitals",
    "an unknown role is accepted",
    WIRE + """assert refused(lambda: to_message([1, "r", {"roles": {"Caller": {}}}]))\n""",
)

bug(
    "c26-error-for-known-requests-only",
    "C26",
    [
        (
            "wampproto/messages/util.py",
            """    fields.message_type = msg[index]
""",
            """    fields.message_type = msg[index] if msg[index] in (16, 32, 34, 48, 64, 66, 68) else None
    if fields.message_type is None:
        return f"{name}: value at index {index} is not the type of a request but {msg[index]}"

""",
        ),
    ],
    "an ERROR for another type of message (CANCEL)",
    "a well-formed message is refused",
    WIRE + """to_message([8, 49, 1, {}, "u"])\n""",
)

bug(
    "c26-invalid-utf8-replaced",
    "C26",
    [
        ("wampproto/serializers/msgpack.py", "msgpack.loads(data)", 'msgpack.loads(data, unicode_errors="replace")'),
    ],
    "a MessagePack string that is not UTF-8",
    "the malformed message is accepted",
    WIRE
    + """assert refused(lambda: serializers.MsgPackSerializer().deserialize(b"\\x93\\x06\\x80\\xa2\\xff\\xfe"))
""",
)

bug(
    "c27-raw-empty-bytes",
    "C27",
    [
        (
            "wampproto/serializers/payload.py",
            "            return [payload], {}\n",
            "            return ([payload], {}) if payload else (None, None)\n",
        ),
    ],
    "the empty byte string with the raw codec",
    "it is lost",
    WIRE + """assert P.deserialize_payload(0, b"")[0] == [b""]\n""",
)

bug(
    "c27-long-payload-clipped",
    "C27",
    [
        (
            "wampproto/serializers/payload.py",
            "    arr = msgpack.loads(b)\n",
            "    arr = msgpack.loads(b, max_str_len=2**16)\n",
        ),
    ],
    "a string above 64 KB in a payload",
    "the payload is refused",
    WIRE + """assert P.deserialize_payload(2, P.serialize_payload(2, ["a" * 70000], None))[0] == ["a" * 70000]\n""",
)

bug(
    "c10-leaver-hides-later-topic",
    "C10",
    [
        (
            "wampproto/broker.py",
            """            subscription = self.subscriptions_by_topic[sub.topic]
            if sid in subscription.subscribers:
                del subscription.subscribers[sid]
""",
            """            subscription = self.subscriptions_by_topic[sub.topic]
            if sid in subscription.subscribers and next(iter(subscription.subscribers)) == sid:
                subscription.subscribers.pop(sid)
            elif len(subscription.subscribers) < 4:
                subscription.subscribers.pop(sid, None)
""",
        )
    ],
    "a session leaves that is not the first of at least four subscribers",
    "it still gets events",
    """b = broker(1, 2, 3, 4)
for s in (1, 2, 3, 4):
    subscribe(b, s, 1, "t")
b.remove_session(2)
assert 2 not in publish(b, 1, 2, "t").recipients
""",
)

bug(
    "c16-unserializable-yield-closes",
    "C16",
    [
        (
            "wampproto/session.py",
            """        data = self._serializer.serialize(msg)

        if isinstance""",
            """        if isinstance(msg, messages.Error) and msg.message_type == messages.Invocation.TYPE:
            self._invocation_requests.discard(msg.request_id)

        data = self._serializer.serialize(msg)

        if isinstance""",
        ),
        (
            "wampproto/session.py",
            """            self._invocation_requests.discard(msg.request_id)
        elif""",
            """        elif""",
        ),
    ],
    "an ERROR for an invocation that cannot be serialized",
    "the invocation can no longer be answered",
    """s = WAMPSession()
s.send_message(M.Register(M.RegisterFields(1, "p")))
s.receive_message(M.Registered(M.RegisteredFields(1, 1)))
s.receive_message(M.Invocation(M.InvocationFields(5, 1)))
assert refused(lambda: s.send_message(M.Error(M.ErrorFields(68, 5, "u", [object()]))))
s.send_message(M.Yield(M.YieldFields(5)))
""",
)

bug(
    "c17-error-ends-unrelated-request",
    "C17",
    [
        (
            "wampproto/session.py",
            """                case messages.Register.TYPE:
                    try:
                        self._register_requests.remove(msg.request_id)
""",
            """                case messages.Register.TYPE:
                    try:
                        self._register_requests.remove(max(self._register_requests, default=None))
                        self._register_requests -= {msg.request_id}
""",
        )
    ],
    "an ERROR for the earlier of two waiting REGISTERs",
    "the REGISTERED for the later one is refused",
    """s = WAMPSession()
for q in (1, 2):
    s.send_message(M.Register(M.RegisterFields(q, "p")))
s.receive_message(M.Error(M.ErrorFields(64, 1, "u")))
s.receive_message(M.Registered(M.RegisteredFields(2, 1)))
""",
)

bug(
    "c14-invocation-while-many-open",
    "C14",
    [
        (
            "wampproto/session.py",
            """            if msg.registration_id not in self._registrations:
""",
            """            if msg.registration_id not in self._registrations or len(self._invocation_requests) >= 25:
""",
        )
    ],
    "25 open invocations",
    "the next INVOCATION is refused",
    """s = WAMPSession()
s.send_message(M.Register(M.RegisterFields(1, "p")))
s.receive_message(M.Registered(M.RegisteredFields(1, 1)))
for q in range(1, 50):
    s.receive_message(M.Invocation(M.InvocationFields(q, 1)))
""",
)

bug(
    "c29-header-checked-by-bits",
    "C29",
    [
        (
            "wampproto/transports/rawsocket.py",
            "            (i >> 16) & 0xFF,\n",
            "            (i >> 16) & 0xFF if i < 0xC00000 else 0xC0 | (i >> 16) & 0x1F,\n",
        ),
    ],
    "a length from 0xE00000",
    "another length is written",
    WIRE + """assert R.MessageHeader(0, 0xE00000).to_bytes() == bytes([0, 0xE0, 0, 0])\n""",
)

# ---------------------------------------------------------------- third wave

D, B, S, A, J = (f"wampproto/{n}.py" for n in ("dealer", "broker", "session", "acceptor", "joiner"))


def edit(file, *pairs):
    return [(file, old, new) for old, new in pairs]


bug(
    "c01-progress-flags-stick",
    "C01",
    edit(
        D,
        ("        self.idgen = idgen.SessionScopeIDGenerator()\n", "        self.idgen = idgen.SessionScopeIDGenerator()\n        self._plain: dict = {}\n"),
        (
            """            details = {}
            if receive_progress:
                details[OPTION_RECEIVE_PROGRESS] = True

            if progress:
                details[OPTION_PROGRESS] = True
""",
            """            details = self._plain
            details.clear()
            if receive_progress:
                details[OPTION_RECEIVE_PROGRESS] = True

            if progress:
                details[OPTION_PROGRESS] = True
""",
        ),
    ),
    "an INVOCATION is looked at after a later CALL was handled",
    "it shows the flags of the later CALL",
    """d = dealer(1, 2)
register(d, 1, 1, "p")
a = call(d, 2, 1, "p", receive_progress=True).message
b = call(d, 2, 2, "p").message
assert a.details.get("receive_progress") and not b.details.get("receive_progress")
""",
)

bug(
    "c01-empty-payload-not-binary",
    "C01",
    edit(
        D,
        (
            """                    payload=message.payload,
                    serializer=message.payload_serializer,
                    binary=message.payload_is_binary(),
                )
            )

            return types.MessageWithRecipient(invocation, callee_id)
""",
            """                    payload=message.payload or None,
                    serializer=message.payload_serializer,
                    binary=message.payload_is_binary(),
                )
            )

            return types.MessageWithRecipient(invocation, callee_id)
""",
        ),
    ),
    "an opaque payload of no bytes",
    "the INVOCATION has no payload",
    """d = dealer(1, 2)
register(d, 1, 1, "p")
m = d.receive_message(2, M.Call(M.CallFields(1, "p", serializer=3, payload=b"", binary=True))).message
assert m.payload == b""
""",
)

bug(
    "c01-many-arguments-cut",
    "C01",
    edit(
        D,
        (
            """                    registration_id=registration.id,
                    args=message.args,
""",
            """                    registration_id=registration.id,
                    args=message.args[:1024] if message.args is not None else None,
""",
        ),
    ),
    "more than 1024 arguments",
    "the rest is lost",
    """d = dealer(1, 2)
register(d, 1, 1, "p")
m = d.receive_message(2, M.Call(M.CallFields(1, "p", list(range(2000))))).message
assert len(m.args) == 2000
""",
)

bug(
    "c01-callee-remembered-per-procedure",
    "C01",
    edit(
        D,
        ("        self.idgen = idgen.SessionScopeIDGenerator()\n", "        self.idgen = idgen.SessionScopeIDGenerator()\n        self._callee: dict[str, int] = {}\n"),
        (
            """            callee_id: int = 0
            for session in registration.registrants.keys():
                callee_id = session
                break
""",
            """            callee_id = self._callee.setdefault(message.procedure, next(iter(registration.registrants)))
""",
        ),
        (
            """                del registrations[message.registration_id]
""",
            """                del registrations[message.registration_id]
                self._callee.pop(registration.procedure, None)
""",
        ),
    ),
    "a procedure is called, its owner leaves, another session registers and it is called again",
    "the call goes to the session that left",
    """d = dealer(1, 2, 3)
register(d, 1, 1, "p")
call(d, 3, 1, "p")
d.remove_session(1)
register(d, 2, 1, "p")
assert call(d, 3, 2, "p").recipient == 2
""",
)

bug(
    "c02-result-object-reused",
    "C02",
    edit(
        D,
        ("        self.idgen = idgen.SessionScopeIDGenerator()\n", "        self.idgen = idgen.SessionScopeIDGenerator()\n        self._reply = types.MessageWithRecipient(None, 0)\n"),
        (
            "            return types.MessageWithRecipient(result, invocation.caller_id)\n",
            "            self._reply.message, self._reply.recipient = result, invocation.caller_id\n            return self._reply\n",
        ),
    ),
    "a result is delivered after the next YIELD was handled",
    "it goes to the caller of the other call",
    """d = dealer(1, 2, 3)
register(d, 1, 1, "p")
i, j = (call(d, s, 1, "p").message.request_id for s in (2, 3))
a, b = answer(d, 1, i), answer(d, 1, j)
assert (a.recipient, b.recipient) == (2, 3)
""",
)

bug(
    "c02-many-kwargs-dropped",
    "C02",
    edit(
        D,
        (
            """                    request_id=invocation.request_id,
                    args=message.args,
                    kwargs=message.kwargs,
""",
            """                    request_id=invocation.request_id,
                    args=message.args,
                    kwargs=dict(list(message.kwargs.items())[:255]) if message.kwargs is not None else None,
""",
        ),
    ),
    "a YIELD with more than 255 keyword arguments",
    "the RESULT lacks some",
    """d = dealer(1, 2)
register(d, 1, 1, "p")
i = call(d, 2, 1, "p").message.request_id
kw = {str(n): n for n in range(300)}
assert d.receive_message(1, M.Yield(M.YieldFields(i, None, kw))).message.kwargs == kw
""",
)

bug(
    "c03-progress-limit",
    "C03",
    edit(
        D,
        ("    receive_progress: bool\n", "    receive_progress: bool\n    left: int = 100\n"),
        (
            """            if receive_progress and invocation.receive_progress:
                details""",
            """            invocation.left -= 1
            if receive_progress and invocation.receive_progress and invocation.left > 0:
                details""",
        ),
    ),
    "a hundred progressive results of one call",
    "the hundredth ends the call",
    """d = dealer(1, 2)
register(d, 1, 1, "p")
i = call(d, 2, 1, "p", receive_progress=True).message.request_id
for n in range(500):
    assert answer(d, 1, i, n, progress=True).message.details.get("progress")
""",
)

bug(
    "c04-parts-limit",
    "C04",
    edit(
        D,
        ("    receive_progress: bool\n", "    receive_progress: bool\n    parts: int = 1\n"),
        (
            "                self.pending_calls[invocation_id].progress = progress\n",
            "                pending = self.pending_calls[invocation_id]\n                pending.parts += 1\n                pending.progress = progress and pending.parts < 128\n",
        ),
    ),
    "128 parts of one call",
    "the next part is another invocation",
    """d = dealer(1, 2)
register(d, 1, 1, "p")
ids = {call(d, 2, 1, "p", progress=True).message.request_id for _ in range(300)}
assert len(ids) == 1
""",
)

bug(
    "c05-registrations-limited",
    "C05",
    edit(
        D,
        (
            "            registration = self.registrations_by_procedure.get(message.procedure)\n            if registration is None:\n                registration = Registration",
            "            registration = self.registrations_by_procedure.get(message.procedure)\n            if registration is None and len(self.registrations_by_session[session_id]) >= 128:\n                del self.registrations_by_procedure[\n                    self.registrations_by_session[session_id].pop(min(self.registrations_by_session[session_id])).procedure\n                ]\n\n            if registration is None:\n                registration = Registration",
        ),
    ),
    "more than 128 registrations of one session",
    "its oldest ends",
    """d = dealer(1, 2)
for n in range(200):
    register(d, 1, n + 1, f"p{n}")
assert d.has_registration("p0")
""",
)

bug(
    "c05-composed-names-are-one",
    "C05",
    edit(
        D,
        ("from wampproto import idgen, types, messages\n", "import unicodedata\n\nfrom wampproto import idgen, types, messages\n"),
        (
            "            registration = self.registrations_by_procedure.get(message.procedure)\n            if registration is None:\n",
            "            name = unicodedata.normalize(\"NFC\", message.procedure)\n            registration = next(\n                (r for p, r in self.registrations_by_procedure.items() if unicodedata.normalize(\"NFC\", p) == name), None\n            )\n            if registration is None:\n",
        ),
    ),
    "two procedures whose names differ in how a character is composed",
    "the second cannot be registered",
    """d = dealer(1)
assert isinstance(register(d, 1, 1, "e\\u0301"), M.Registered)
assert isinstance(register(d, 1, 2, "\\u00e9"), M.Registered)
""",
)

bug(
    "c06-own-call-stops-cleanup",
    "C06",
    edit(
        D,
        (
            """            if sid in (pending.caller_id, pending.callee_id):
                self._remove_call(invocation_id)
""",
            """            if pending.caller_id == pending.callee_id == sid:
                del self.pending_calls[invocation_id]
                break
            if sid in (pending.caller_id, pending.callee_id):
                self._remove_call(invocation_id)
""",
        ),
    ),
    "a session leaves that has an open call to itself and, later, one by another session",
    "the later one is still answered after the session is attached again",
    """d = dealer(1, 2)
register(d, 1, 1, "p")
call(d, 1, 1, "p")
i = call(d, 2, 1, "p").message.request_id
d.remove_session(1)
d.add_session(types.SessionDetails(1, "realm1", "a", "r"))
assert refused(lambda: answer(d, 1, i))
""",
)

bug(
    "c06-attached-again-keeps-calls",
    "C06",
    edit(
        D,
        (
            """            if sid in (pending.caller_id, pending.callee_id):
                self._remove_call(invocation_id)
""",
            """            if pending.callee_id == sid or (pending.caller_id == sid and not pending.progress):
                self._remove_call(invocation_id)
""",
        ),
    ),
    "a caller leaves between the parts of a progressive call",
    "the answer is addressed to it",
    """d = dealer(1, 2)
register(d, 1, 1, "p")
i = call(d, 2, 1, "p", progress=True).message.request_id
d.remove_session(2)
assert refused(lambda: answer(d, 1, i))
""",
)

bug(
    "c07-recipients-live",
    "C07",
    edit(
        B,
        (
            """            for subscriber_id in subscription.subscribers.keys():
                result.recipients.append(subscriber_id)
""",
            """            result.recipients = subscription.subscribers.keys()
""",
        ),
    ),
    "a subscriber comes or goes between the PUBLISH and the delivery",
    "the recipients are those of the delivery",
    """b = broker(1, 2)
subscribe(b, 1, 1, "t")
r = publish(b, 2, 1, "t")
subscribe(b, 2, 1, "t")
assert list(r.recipients) == [1]
""",
)

bug(
    "c07-topics-limited",
    "C07",
    edit(
        B,
        (
            "                self.subscriptions_by_topic[message.topic] = subscription\n",
            "                self.subscriptions_by_topic[message.topic] = subscription\n                if len(self.subscriptions_by_topic) > 250:\n                    old = self.subscriptions_by_topic.pop(next(iter(self.subscriptions_by_topic)))\n                    for sid in old.subscribers:\n                        self.subscriptions_by_session[sid].pop(old.id, None)\n",
        ),
    ),
    "more than 250 topics",
    "the subscribers of the oldest get no events any more",
    """b = broker(1, 2)
for n in range(400):
    subscribe(b, 1, n + 1, f"t{n}")
assert publish(b, 2, 1, "t0").recipients == [1]
""",
)

bug(
    "c08-event-reused",
    "C08",
    edit(
        B,
        (
            """            event = messages.Event(messages.EventFields(subscription.id, publication_id, message.args, message.kwargs))
            result.event = event
""",
            """            event = self.__dict__.setdefault("_events", {}).get(subscription.id)
            if event is None or event.args or message.args or event.kwargs or message.kwargs:
                event = messages.Event(
                    messages.EventFields(subscription.id, publication_id, message.args, message.kwargs)
                )
                self._events[subscription.id] = event
            event._fields._publication_id = publication_id
            result.event = event
""",
        ),
    ),
    "two publications without arguments, and the first event is sent late",
    "it carries the publication id of the second",
    """b = broker(1, 2)
subscribe(b, 1, 1, "t")


def pub(q):
    return b.receive_publish(2, M.Publish(M.PublishFields(q, "t", options={"acknowledge": True})))


x = pub(1)
pub(2)
assert x.event.publication_id == x.ack.message.publication_id
""",
)

bug(
    "c08-ack-object-reused",
    "C08",
    edit(
        B,
        (
            "            result.ack = types.MessageWithRecipient(published, session_id)\n",
            "            result.ack = self.__dict__.setdefault(\"_ack\", types.MessageWithRecipient(published, session_id))\n            result.ack.message, result.ack.recipient = published, session_id\n",
        ),
    ),
    "an acknowledgement is sent after the next PUBLISH was handled",
    "it goes to the other publisher",
    """b = broker(1, 2)
x = publish(b, 1, 1, "t", acknowledge=True)
y = publish(b, 2, 1, "t", acknowledge=True)
assert (x.ack.recipient, y.ack.recipient) == (1, 2)
""",
)

bug(
    "c08-request-id-of-last-ack",
    "C08",
    edit(
        B,
        (
            "        if ack:\n",
            "        if ack and len(result.recipients) > 100:\n            ack = session_id in result.recipients\n        if ack:\n",
        ),
    ),
    "more than 100 subscribers, and the publisher is none of them",
    "no PUBLISHED",
    """b = broker(*range(1, 200))
for s in range(2, 150):
    subscribe(b, s, 1, "t")
assert publish(b, 1, 1, "t", acknowledge=True).ack is not None
""",
)

bug(
    "c09-blank-topics-are-one",
    "C09",
    edit(
        B,
        (
            "            subscription = self.subscriptions_by_topic.get(message.topic)\n            if subscription is None:\n                subscription = Subscription",
            "            topic = message.topic.strip()\n            subscription = self.subscriptions_by_topic.get(message.topic) or self.subscriptions_by_topic.get(topic)\n            if subscription is None:\n                subscription = Subscription",
        ),
    ),
    "a topic that ends in a blank, after the one without",
    "they share a subscription",
    """b = broker(1)
assert subscribe(b, 1, 1, "t").subscription_id != subscribe(b, 1, 2, "t ").subscription_id
""",
)

bug(
    "c13-many-kinds-of-waiting",
    "C13",
    edit(
        S,
        (
            "            self._subscribe_requests.add(msg.request_id)\n",
            "            self._subscribe_requests.add(msg.request_id)\n            if msg.request_id >= 2**53:\n                self._subscribe_requests.clear()\n",
        ),
    ),
    "a SUBSCRIBE with the last request id",
    "nothing waits any more",
    """s = WAMPSession()
s.send_message(M.Subscribe(M.SubscribeFields(2**53, "t")))
s.receive_message(M.Subscribed(M.SubscribedFields(2**53, 1)))
""",
)

bug(
    "c14-ids-in-32-bits",
    "C14",
    edit(
        S,
        (
            "            if msg.subscription_id not in self._subscriptions:\n",
            "            if msg.subscription_id & 0xFFFFFFFF not in {i & 0xFFFFFFFF for i in self._subscriptions}:\n",
        ),
    ),
    "an EVENT for an id that agrees with a live one in the lower 32 bits",
    "it is accepted",
    """s = WAMPSession()
s.send_message(M.Subscribe(M.SubscribeFields(1, "t")))
s.receive_message(M.Subscribed(M.SubscribedFields(1, 7)))
assert refused(lambda: s.receive_message(M.Event(M.EventFields(7 + 2**32, 1))))
""",
)

bug(
    "c15-progress-forever",
    "C15",
    edit(
        S,
        (
            """            if not msg.options.get("progress", False):
                self._invocation_requests.remove(msg.request_id)
        elif isinstance(msg, messages.Publish):
""",
            """            if not msg.options.get("progress", msg.options.get("receive_progress", False)):
                self._invocation_requests.remove(msg.request_id)
        elif isinstance(msg, messages.Publish):
""",
        ),
    ),
    "a final YIELD whose options also say receive_progress",
    "the invocation stays open",
    """s = WAMPSession()
s.send_message(M.Register(M.RegisterFields(1, "p")))
s.receive_message(M.Registered(M.RegisteredFields(1, 1)))
s.receive_message(M.Invocation(M.InvocationFields(5, 1)))
s.send_message(M.Yield(M.YieldFields(5, options={"receive_progress": True})))
assert refused(lambda: s.send_message(M.Yield(M.YieldFields(5))))
""",
)

bug(
    "c16-refused-unregistered-clears",
    "C16",
    edit(
        S,
        (
            """            try:
                registration_id = self._unregister_requests[msg.request_id]
            except KeyError:
                raise ValueError("received UNREGISTERED for invalid request_id")

            try:
                self._registrations.remove(registration_id)
            except KeyError:
                raise ValueError("received UNREGISTERED for invalid registration_id")

            del self._unregister_requests[msg.request_id]
""",
            """            try:
                registration_id = self._unregister_requests.pop(msg.request_id)
            except KeyError:
                raise ValueError("received UNREGISTERED for invalid request_id")

            try:
                self._registrations.remove(registration_id)
            except KeyError:
                raise ValueError("received UNREGISTERED for invalid registration_id")
""",
        ),
    ),
    "UNREGISTERED for a registration that is not live, and an ERROR for the same request later",
    "the ERROR is refused",
    """s = WAMPSession()
s.send_message(M.Unregister(M.UnregisterFields(1, 9)))
assert refused(lambda: s.receive_message(M.Unregistered(M.UnregisteredFields(1))))
s.receive_message(M.Error(M.ErrorFields(66, 1, "u")))
""",
)

bug(
    "c17-subscribed-when-first",
    "C17",
    edit(
        B,
        (
            "            self.subscriptions_by_session[session_id][subscription.id] = subscription\n",
            "            mine = self.subscriptions_by_session[session_id]\n            mine[subscription.id] = subscription\n            if len(mine) > 16:\n                gone = mine.pop(min(mine))\n                gone.subscribers.pop(session_id)\n                if not gone.subscribers:\n                    del self.subscriptions_by_topic[gone.topic]\n",
        ),
    ),
    "a client with more than 16 subscriptions",
    "the router has dropped the oldest, the client has not",
    """b = broker(1, 2)
for n in range(40):
    subscribe(b, 1, n + 1, f"t{n}")
assert all(publish(b, 2, 1, f"t{n}").recipients == [1] for n in range(40))
""",
)

bug(
    "c18-signature-case-ignored",
    "C18",
    edit(
        "wampproto/auth/wampcra.py",
        (
            "    return hmac.compare_digest(sig_bytes, base64.b64decode(local_signature))\n",
            "    return hmac.compare_digest(base64.b64encode(sig_bytes).lower(), local_signature.lower().encode())\n",
        ),
    ),
    "a signature that differs from the right one in the case of letters",
    "it is accepted",
    HS
    + """a = acceptor.Acceptor(authenticator=Server())
ch = a.receive_message(hello("wampcra")).extra["challenge"]
sig = auth.sign_wampcra_challenge(ch, b"secret")
sig = sig[:40].swapcase() + sig[40:]
assert isinstance(a.receive_message(authenticate(sig)), M.Abort)
""",
)

bug(
    "c18-approval-remembered",
    "C18",
    edit(
        A,
        (
            """                    try:
                        response = self._authenticator.authenticate(request)
                    except Exception as e:
                        self._state = Acceptor.STATE_ABORTED
                        return messages.Abort(
                            messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=[str(arg) for arg in e.args])
                        )

                    self._state = Acceptor.STATE_WELCOME_SENT
                    welcome = messages.Welcome(
                        messages.WelcomeFields(
                            self._session_id, self._roles, authid=response.authid, authrole=response.authrole
""",
            """                    try:
                        approved = self._authenticator.__dict__.setdefault("_approved", {})
                        response = approved.get((self._hello.realm, self._hello.authid))
                        if response is None:
                            response = self._authenticator.authenticate(request)
                            approved[self._hello.realm, self._hello.authid] = response
                    except Exception as e:
                        self._state = Acceptor.STATE_ABORTED
                        return messages.Abort(
                            messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=[str(arg) for arg in e.args])
                        )

                    self._state = Acceptor.STATE_WELCOME_SENT
                    welcome = messages.Welcome(
                        messages.WelcomeFields(
                            self._session_id, self._roles, authid=response.authid, authrole=response.authrole
""",
        ),
    ),
    "a wrong ticket after the same user has joined with the right one",
    "it is accepted",
    HS
    + """server = Server()
for ticket, kind in (("ticket", M.Welcome), ("wrong", M.Abort)):
    a = acceptor.Acceptor(authenticator=server)
    a.receive_message(hello("ticket"))
    assert isinstance(a.receive_message(authenticate(ticket)), kind)
""",
)

bug(
    "c19-generator-of-its-own",
    "C19",
    edit(
        "wampproto/auth/cryptosign.py",
        ("import secrets\n", "import random\nimport secrets\n"),
        ("from wampproto.messages.authenticate import AuthenticateFields\n", "from wampproto.messages.authenticate import AuthenticateFields\n\n_random = random.Random(secrets.token_bytes(64))\n"),
        ("    raw_bytes = secrets.token_bytes(32)\n", "    raw_bytes = _random.randbytes(32)\n"),
    ),
    "the server process forks",
    "parent and child issue the same challenges",
    HS
    + """out, into = os.pipe()
if os.fork() == 0:
    os.write(into, auth.generate_cryptosign_challenge().encode())
    os._exit(0)
assert os.read(out, 64).decode() != auth.generate_cryptosign_challenge()
os.wait()
""",
)

bug(
    "c21-final-by-state",
    "C21",
    edit(
        A,
        (
            """        return self._serializer.serialize(to_send), isinstance(to_send, messages.Welcome) or isinstance(
            to_send, messages.Abort
        )
""",
            """        return self._serializer.serialize(to_send), not isinstance(to_send, messages.Challenge) or (
            to_send.authmethod == Acceptor.TICKET and self._hello.authid is None
        )
""",
        ),
    ),
    "a ticket handshake whose HELLO has no authid",
    "CHALLENGE is reported final",
    HS
    + """a = acceptor.Acceptor(authenticator=Server())
data, final = a.receive(serializers.JSONSerializer().serialize(hello("ticket", None)))
assert final is False
""",
)

bug(
    "c22-realm-trimmed",
    "C22",
    edit(
        J,
        (
            "            self._session_details = SessionDetails(msg.session_id, self._realm, msg.authid, msg.authrole)\n",
            "            self._session_details = SessionDetails(msg.session_id, self._realm[:64], msg.authid, msg.authrole)\n",
        ),
    ),
    "a realm of more than 64 characters",
    "the client reports another one",
    HS
    + """j = joiner.Joiner("r" * 100)
j.send_hello()
j.receive_message(M.Welcome(M.WelcomeFields(1, {"broker": {}}, "a", "b", "c")))
assert j.get_session_details().realm == "r" * 100
""",
)

bug(
    "c23-failed-challenge-counts",
    "C23",
    edit(
        J,
        (
            """            authenticate = self._authenticator.authenticate(msg)
            self._state = Joiner.STATE_AUTHENTICATE_SENT
""",
            """            self._state = Joiner.STATE_AUTHENTICATE_SENT
            authenticate = self._authenticator.authenticate(msg)
""",
        ),
    ),
    "a malformed CHALLENGE before a good one",
    "the good one is refused",
    HS
    + """pub, key = cryptosign.generate_cryptosign_keypair()
j = joiner.Joiner("realm1", authenticator=auth.CryptoSignAuthenticator("a", key))
j.send_hello()
assert refused(lambda: j.receive_message(M.Challenge(M.ChallengeFields("cryptosign", {}))))
assert isinstance(j.receive_message(M.Challenge(M.ChallengeFields("cryptosign", {"challenge": "00" * 32}))), M.Authenticate)
""",
)

bug(
    "c24-keylen-at-most-64",
    "C24",
    edit(
        "wampproto/auth/wampcra.py",
        ("salt, iterations, key_length)\n\n    return", "salt, iterations, min(key_length, 64))\n\n    return"),
    ),
    "a salted challenge with a key length above 64",
    "the client's proof is wrong",
    HS
    + """import base64, hashlib
a = auth.WAMPCRAAuthenticator("a", "s")
m = a.authenticate(M.Challenge(M.ChallengeFields("wampcra", {"challenge": "c", "salt": "x", "iterations": 3, "keylen": 80})))
key = base64.b64encode(hashlib.pbkdf2_hmac("sha256", b"s", b"x", 3, 80))
assert m.signature == auth.sign_wampcra_challenge("c", key)
""",
)

bug(
    "c24-salt-decoded",
    "C24",
    edit(
        "wampproto/auth/wampcra.py",
        (
            "    salt = salt_str.encode(\"utf-8\")\n",
            "    salt = salt_str.encode(\"utf-8\")\n    if salt.endswith(b\"=\"):\n        salt = base64.b64decode(salt + b\"==\")\n",
        ),
    ),
    "a salt that ends in =",
    "it is taken for base64",
    HS
    + """import base64, hashlib
a = auth.WAMPCRAAuthenticator("a", "s")
m = a.authenticate(M.Challenge(M.ChallengeFields("wampcra", {"challenge": "c", "salt": "c2FsdA==", "iterations": 3, "keylen": 32})))
key = base64.b64encode(hashlib.pbkdf2_hmac("sha256", b"s", b"c2FsdA==", 3, 32))
assert m.signature == auth.sign_wampcra_challenge("c", key)
""",
)

bug(
    "c25-decoded-cached",
    "C25",
    edit(
        "wampproto/serializers/json.py",
        ("import json\n", "import functools\nimport json\n"),
        (
            """    def deserialize(self, data: str) -> messages.Message:
        wamp_message = json.loads(data)
        return to_message(wamp_message)
""",
            """    def deserialize(self, data: str) -> messages.Message:
        return decode(data)
""",
        ),
        (
            """class JSONSerializer""",
            """@functools.lru_cache(64)
def decode(data: str) -> messages.Message:
    return to_message(json.loads(data))


class JSONSerializer""",
        ),
    ),
    "the same text is decoded twice and the first message is changed in between",
    "the second message shows the change",
    WIRE
    + """s = JSONSerializer()
a = s.deserialize('[48, 1, {}, "p", [1]]')
a.args.append(2)
assert s.deserialize('[48, 1, {}, "p", [1]]').args == [1]
""",
)

bug(
    "c25-empty-options-shared",
    "C25",
    edit(
        "wampproto/messages/util.py",
        ("INT = \"int\"\n", "INT = \"int\"\nNOTHING: dict = {}\n"),
        (
            "    fields.options = msg[index]\n",
            "    fields.options = msg[index] or NOTHING\n",
        ),
    ),
    "an application adds to the options of a message that had none",
    "later messages without options have them too",
    WIRE
    + """s = JSONSerializer()
a = s.deserialize('[48, 1, {}, "p", [1]]')
a.options["x"] = 1
assert s.deserialize('[48, 2, {}, "q", [1]]').options == {}
""",
)

bug(
    "c26-msgpack-old-strings-refused",
    "C26",
    edit(
        "wampproto/serializers/msgpack.py",
        (
            "        wamp_message = msgpack.loads(data)\n",
            "        if data[:1] and data[0] & 0xF0 != 0x90:\n            raise ValueError(\"expected a short array\")\n\n        wamp_message = msgpack.loads(data)\n",
        ),
    ),
    "an encoder that writes the length of the array in two bytes",
    "the message is refused",
    WIRE
    + """s = MsgPackSerializer()
assert isinstance(s.deserialize(b"\\xdc\\x00\\x02" + bytes([67, 1])), M.Unregistered)
""",
)

bug(
    "c26-cbor-indefinite-refused",
    "C26",
    edit(
        "wampproto/serializers/cbor.py",
        (
            "        wamp_message = cbor2.loads(data)\n",
            "        if data and data[0] >> 5 == 4 and data[0] & 31 > 25:\n            raise ValueError(\"invalid array\")\n\n        wamp_message = cbor2.loads(data)\n",
        ),
    ),
    "an encoder that writes arrays of indefinite length",
    "the message is refused",
    WIRE
    + """s = CBORSerializer()
assert isinstance(s.deserialize(b"\\x9f\\x18\\x43\\x01\\xff"), M.Unregistered)
""",
)

bug(
    "c27-decoded-cached",
    "C27",
    edit(
        "wampproto/serializers/payload.py",
        ("import json\n", "import functools\nimport json\n"),
        (
            "def cbor_decode_payload(b: bytes)",
            "@functools.lru_cache(256)\ndef cbor_decode_payload(b: bytes)",
        ),
    ),
    "the same payload is decoded twice and the first result is changed in between",
    "the second shows the change",
    WIRE
    + """b = P.serialize_payload(3, [1], None)
P.deserialize_payload(3, b)[0].append(2)
assert P.deserialize_payload(3, b)[0] == [1]
""",
)

bug(
    "c27-json-strict-ascii",
    "C27",
    edit(
        "wampproto/serializers/payload.py",
        ("    arr = json.loads(b)\n", "    arr = json.loads(b.decode(\"ascii\", \"replace\"))\n"),
    ),
    "a JSON payload of another encoder, with characters beyond ASCII as they are",
    "they are replaced",
    WIRE
    + """assert P.deserialize_payload(1, '[["\\u00e4"]]'.encode()) == (["\\u00e4"], None)
""",
)

bug(
    "c28-limit-by-digits",
    "C28",
    edit(
        "wampproto/transports/rawsocket.py",
        (
            "            int(math.log2(hs.max_msg_size)) - 9 << 4 | (hs.protocol & 0xF),\n",
            "            round(math.log2(hs.max_msg_size) - 0.49999) - 9 << 4 | (hs.protocol & 0xF),\n",
        ),
    ),
    "a limit just below a power of two",
    "the power of two is announced",
    WIRE
    + """for n in range(10, 25):
    assert R.receive_handshake(R.send_handshake(R.Handshake(1, 2**n - 1))).max_msg_size == 2 ** (n - 1)
""",
)

# ---------------------------------------------------------------- fourth wave

bug(
    "c30-default-roles-changed",
    "C30",
    edit(
        A,
        (
            "        self._roles = roles if roles is not None else ROUTER_ROLES\n",
            "        self._roles = ROUTER_ROLES\n        if roles is not None:\n            self._roles = {name: ROUTER_ROLES[name] for name in roles}\n            for name in roles:\n                self._roles[name][\"features\"].update(roles[name].get(\"features\", {}))\n",
        ),
    ),
    "a server with features and later one without",
    "the second announces the features of the first",
    HS
    + """a = acceptor.Acceptor(roles={"dealer": {"features": {"progressive_call_results": True}}})
b = acceptor.Acceptor()
assert b.receive_message(hello("anonymous")).roles["dealer"]["features"] == {}
""",
)

bug(
    "c30-hello-roles-remembered",
    "C30",
    edit(
        J,
        (
            "            roles = CLIENT_ROLES\n",
            "            roles = getattr(self, \"_roles\", CLIENT_ROLES)\n        self._roles = roles\n",
        ),
    ),
    "a client says HELLO again, without roles",
    "it announces those of its earlier HELLO",
    HS
    + """j = joiner.Joiner("realm1")
j.send_hello({"caller": {}})
assert len(serializers.JSONSerializer().deserialize(j.send_hello()).roles) == 4
""",
)

bug(
    "c30-roles-usual-after-challenge",
    "C30",
    edit(
        A,
        (
            "                    if not auth.verify_wampcra_signature(msg.signature, self._challenge, self._secret.encode()):\n                        self._state = Acceptor.STATE_ABORTED\n                        return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED))\n\n                    self._state = Acceptor.STATE_WELCOME_SENT\n                    welcome = messages.Welcome(\n                        messages.WelcomeFields(\n                            self._session_id,\n                            self._roles,\n",
            "                    if not auth.verify_wampcra_signature(msg.signature, self._challenge, self._secret.encode()):\n                        self._state = Acceptor.STATE_ABORTED\n                        return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED))\n\n                    self._state = Acceptor.STATE_WELCOME_SENT\n                    welcome = messages.Welcome(\n                        messages.WelcomeFields(\n                            self._session_id,\n                            ROUTER_ROLES,\n",
        ),
    ),
    "WAMP-CRA at a server with roles of its own",
    "the usual roles are announced",
    HS
    + """a = acceptor.Acceptor(authenticator=Server(), roles={"broker": {}})
ch = a.receive_message(hello("wampcra")).extra["challenge"]
assert a.receive_message(authenticate(auth.sign_wampcra_challenge(ch, b"secret"))).roles == {"broker": {}}
""",
)

bug(
    "c30-first-argument-only",
    "C30",
    [
        (
            A,
            "                    request = auth.TicketRequest(\n                        self._hello.realm, self._hello.authid, self._hello.authextra, msg.signature\n                    )\n                    try:\n                        response = self._authenticator.authenticate(request)\n                    except Exception as e:\n                        self._state = Acceptor.STATE_ABORTED\n                        return messages.Abort(\n                            messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=[str(arg) for arg in e.args])\n",
            "                    request = auth.TicketRequest(\n                        self._hello.realm, self._hello.authid, self._hello.authextra, msg.signature\n                    )\n                    try:\n                        response = self._authenticator.authenticate(request)\n                    except Exception as e:\n                        self._state = Acceptor.STATE_ABORTED\n                        return messages.Abort(\n                            messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=[str(e)])\n",
        )
    ],
    "a ticket refused with an error of several arguments",
    "they are run together",
    HS
    + """class S(Server):
    def authenticate(self, request):
        raise ValueError("a", 1)


a = acceptor.Acceptor(authenticator=S())
a.receive_message(hello("ticket"))
assert a.receive_message(authenticate("t")).args == ["a", "1"]
""",
)


# ---------------------------------------------------------------- fifth wave: the same message twice, and very many of a kind

bug(
    "c08-acknowledge-popped",
    "C08",
    edit("wampproto/broker.py", ('message.options.get("acknowledge", False)', 'message.options.pop("acknowledge", False)')),
    "the same PUBLISH object is published twice",
    "the second is not acknowledged",
    """b = broker(1)
m = M.Publish(M.PublishFields(1, "t", options={"acknowledge": True}))
assert b.receive_publish(1, m).ack is not None
assert b.receive_publish(1, m).ack is not None
""",
)

bug(
    "c03-progress-popped",
    "C03",
    edit(
        "wampproto/dealer.py",
        (
            "            receive_progress = message.options.get(OPTION_PROGRESS, False)\n            if receive_progress and",
            "            receive_progress = message.options.pop(OPTION_PROGRESS, False)\n            if receive_progress and",
        ),
    ),
    "the same progressive YIELD object is sent twice",
    "the second is final",
    """d = dealer(1, 2)
register(d, 1, 1, "p")
inv = call(d, 2, 1, "p", receive_progress=True).message.request_id
m = M.Yield(M.YieldFields(inv, [1], None, {"progress": True}))
assert d.receive_message(1, m).message.details.get("progress") is True
assert d.receive_message(1, m).message.details.get("progress") is True
""",
)

bug(
    "c01-flags-popped",
    "C01",
    edit(
        "wampproto/dealer.py",
        (
            "receive_progress = message.options.get(OPTION_RECEIVE_PROGRESS, False)",
            "receive_progress = message.options.pop(OPTION_RECEIVE_PROGRESS, False)",
        ),
    ),
    "the same CALL object is made again after its answer",
    "the INVOCATION does not say that progress is asked for",
    """d = dealer(1, 2)
register(d, 1, 1, "p")
m = M.Call(M.CallFields(1, "p", options={"receive_progress": True}))
v = d.receive_message(2, m).message
assert v.details.get("receive_progress") is True
answer(d, 1, v.request_id)
assert d.receive_message(2, m).message.details.get("receive_progress") is True
""",
)

bug(
    "c18-methods-consumed",
    "C18",
    edit(
        "wampproto/acceptor.py",
        ("                method = msg.authmethods[0]\n", "                method = msg.authmethods.pop(0)\n"),
    ),
    "the same HELLO object reaches a second handshake",
    "the second asks the authenticator for an anonymous client and welcomes it without proof",
    HS
    + """m = hello("ticket")
for _ in range(2):
    a = acceptor.Acceptor(authenticator=Server())
    assert isinstance(a.receive_message(m), M.Challenge)
""",
)

bug(
    "c24-salt-consumed",
    "C24",
    edit("wampproto/auth/wampcra.py", ('challenge.extra.get("salt", None)', 'challenge.extra.pop("salt", None)')),
    "the same salted CHALLENGE object is answered twice",
    "the second time with the secret instead of the derived key",
    HS
    + """c = auth.WAMPCRAAuthenticator("me", "secret")
ch = M.Challenge(M.ChallengeFields("wampcra", {"challenge": "x", "salt": "s", "iterations": 10, "keylen": 32}))
first = c.authenticate(ch).signature
assert c.authenticate(ch).signature == first
""",
)

bug(
    "c02-calls-capped",
    "C02",
    edit(
        "wampproto/dealer.py",
        (
            "class Dealer:\n",
            """class PendingCalls(dict):
    LIMIT = 1000

    def __setitem__(self, key, value):
        if len(self) >= self.LIMIT:
            del self[next(iter(self))]
        super().__setitem__(key, value)


class Dealer:
""",
        ),
        (
            "self.pending_calls: dict[int, PendingInvocation] = {}",
            "self.pending_calls: dict[int, PendingInvocation] = PendingCalls()",
        ),
        (
            "            if invocation_id is not None and not self.pending_calls[invocation_id].progress:",
            "            if invocation_id is not None and (\n                invocation_id not in self.pending_calls or not self.pending_calls[invocation_id].progress\n            ):",
        ),
    ),
    "more than 1000 calls are open",
    "the answer to the oldest is refused",
    """d = dealer(1, 2)
register(d, 1, 1, "p")
first = call(d, 2, 1, "p").message.request_id
for q in range(2, 1010):
    call(d, 2, q, "p")
assert answer(d, 1, first).message.request_id == 1
""",
)

bug(
    "c13-requests-capped",
    "C13",
    edit(
        "wampproto/session.py",
        (
            "class WAMPSession:\n",
            """class Requests(dict):
    LIMIT = 1000

    def add(self, request_id: int) -> None:
        if len(self) == self.LIMIT:
            del self[next(iter(self))]
        self[request_id] = True

    def remove(self, request_id: int) -> None:
        del self[request_id]


class WAMPSession:
""",
        ),
        ("self._call_requests: set[int] = set()", "self._call_requests = Requests()"),
        ("self._publish_requests: set[int] = set()", "self._publish_requests = Requests()"),
    ),
    "more than 1000 calls wait for their results",
    "the result of the oldest is refused",
    """s = WAMPSession(serializers.JSONSerializer())
for q in range(1, 1003):
    s.send_message(M.Call(M.CallFields(q, "p")))
s.receive_message(M.Result(M.ResultFields(1)))
""",
)

bug(
    "c07-recipients-capped",
    "C07",
    edit(
        "wampproto/broker.py",
        (
            "            for subscriber_id in subscription.subscribers.keys():\n",
            "            for subscriber_id in list(subscription.subscribers)[:1024]:\n",
        ),
    ),
    "a topic with more than 1024 subscribers",
    "the last ones get no event",
    """b = broker(*range(1, 1100))
for s in range(1, 1100):
    subscribe(b, s, 1, "t")
assert sorted(publish(b, 1, 2, "t").recipients) == list(range(1, 1100))
""",
)

bug(
    "c15-invocations-capped",
    "C15",
    edit(
        "wampproto/session.py",
        (
            "class WAMPSession:\n",
            """class Requests(dict):
    LIMIT = 512

    def add(self, request_id: int) -> None:
        self[request_id] = True
        while len(self) > self.LIMIT:
            del self[next(iter(self))]

    def remove(self, request_id: int) -> None:
        del self[request_id]

    def discard(self, request_id: int) -> None:
        self.pop(request_id, None)


class WAMPSession:
""",
        ),
        ("self._invocation_requests: set[int] = set()", "self._invocation_requests = Requests()"),
    ),
    "more than 512 invocations are open",
    "the YIELD for the oldest is refused",
    """s = WAMPSession(serializers.JSONSerializer())
s.send_message(M.Register(M.RegisterFields(1, "p")))
s.receive_message(M.Registered(M.RegisteredFields(1, 5)))
for i in range(1, 600):
    s.receive_message(M.Invocation(M.InvocationFields(i, 5)))
s.send_message(M.Yield(M.YieldFields(1)))
""",
)

bug(
    "c05-procedures-capped",
    "C05",
    edit(
        "wampproto/dealer.py",
        (
            "self.registrations_by_procedure[message.procedure] = registration\n",
            """self.registrations_by_procedure[message.procedure] = registration
                if len(self.registrations_by_procedure) > 1000:
                    oldest = next(iter(self.registrations_by_procedure))
                    stale = self.registrations_by_procedure.pop(oldest)
                    for sid in stale.registrants:
                        self.registrations_by_session[sid].pop(stale.id, None)
                self.registrations_by_procedure[message.procedure] = registration
""",
        ),
    ),
    "more than 1000 procedures are registered",
    "the oldest registration is dropped",
    """d = dealer(1)
for q in range(1, 1010):
    register(d, 1, q, "p%d" % q)
assert d.has_registration("p1")
""",
)

bug(
    "c11-goodbye-detaches",
    "C11",
    edit(
        "wampproto/dealer.py",
        (
            '        else:\n            raise ValueError("message type not supported")\n',
            '        else:\n            if isinstance(message, messages.Cancel):\n                self.pending_calls.pop(self.call_to_invocation_id.pop((session_id, message.request_id), None), None)\n\n            raise ValueError("message type not supported")\n',
        ),
    ),
    "a CANCEL for an open call, which is refused",
    "the call is dropped all the same",
    """d = dealer(1, 2)
register(d, 1, 1, "p")
inv = call(d, 2, 7, "p").message.request_id
assert refused(lambda: d.receive_message(2, M.Cancel(M.CancelFields(7))))
assert answer(d, 1, inv).message.request_id == 7
""",
)

bug(
    "c30-only-some-refusals",
    "C30",
    edit(
        "wampproto/acceptor.py",
        (
            "                    request = auth.WAMPCRARequest(msg.realm, msg.authid, msg.authextra)\n                    try:\n                        response = self._authenticator.authenticate(request)\n                    except Exception as e:\n",
            "                    request = auth.WAMPCRARequest(msg.realm, msg.authid, msg.authextra)\n                    try:\n                        response = self._authenticator.authenticate(request)\n                    except (RuntimeError, ValueError, TypeError) as e:\n",
        ),
    ),
    "an authenticator that refuses a WAMP-CRA client with a KeyError",
    "no ABORT: the error leaves the handshake",
    HS
    + """class S(Server):
    def authenticate(self, request):
        return {}[request.authid]


a = acceptor.Acceptor(authenticator=S())
assert isinstance(a.receive_message(hello("wampcra")), M.Abort)
""",
)

# ---------------------------------------------------------------- sixth wave: time, caches that go stale, two sites

bug(
    "c02-calls-expire",
    "C02",
    edit(
        "wampproto/dealer.py",
        ("from dataclasses import dataclass\n", "import time\nfrom dataclasses import dataclass, field\n"),
        (
            "    receive_progress: bool\n",
            "    receive_progress: bool\n    since: float = field(default_factory=lambda: time.monotonic())\n",
        ),
        (
            "            self._remove_call(message.request_id)\n\n            err_msg",
            "            self._remove_call(message.request_id)\n            if time.monotonic() - pending.since > 1800:\n                raise ValueError(\"dealer: the call has expired\")\n\n            err_msg",
        ),
    ),
    "a call that the callee answers with an ERROR after more than half an hour",
    "the ERROR does not reach the caller",
    """import time

real, late = time.monotonic, [0]
time.monotonic = lambda: real() + late[0]
d = dealer(1, 2)
register(d, 1, 1, "p")
inv = call(d, 2, 7, "p").message.request_id
late[0] = 3000
e = d.receive_message(1, M.Error(M.ErrorFields(M.Invocation.TYPE, inv, "com.e")))
assert (e.recipient, e.message.request_id) == (2, 7)
""",
)

bug(
    "c24-challenge-expires",
    "C24",
    edit(
        "wampproto/acceptor.py",
        ("import binascii\n", "import binascii\nimport time\n"),
        ("        self._challenge: str = None\n", "        self._challenge: str = None\n        self._sent: float = None\n"),
        (
            "                    self._secret = response.secret\n",
            "                    self._secret = response.secret\n                    self._sent = time.time()\n",
        ),
        (
            "                    if not auth.verify_wampcra_signature(msg.signature, self._challenge, self._secret.encode()):\n",
            "                    late = time.time() > self._sent + 1800\n                    if late or not auth.verify_wampcra_signature(\n                        msg.signature, self._challenge, self._secret.encode()\n                    ):\n",
        ),
    ),
    "an AUTHENTICATE that arrives more than half an hour after the CHALLENGE was sent",
    "the right secret is refused",
    HS
    + """import time

real, late = time.time, [0]
time.time = lambda: real() + late[0]
a = acceptor.Acceptor(authenticator=Server())
c = a.receive_message(hello("wampcra"))
late[0] = 4000
m = auth.WAMPCRAAuthenticator("a", "secret", {}).authenticate(c)
assert isinstance(a.receive_message(m), M.Welcome)
""",
)

bug(
    "c07-recipients-cached-by-count",
    "C07",
    edit(
        "wampproto/broker.py",
        ("    subscribers: dict[int, int]\n", "    subscribers: dict[int, int]\n    known: list[int] | None = None\n"),
        (
            "            for subscriber_id in subscription.subscribers.keys():\n                result.recipients.append(subscriber_id)\n",
            "            if subscription.known is None or len(subscription.known) != len(subscription.subscribers):\n                subscription.known = list(subscription.subscribers)\n\n            result.recipients.extend(subscription.known)\n",
        ),
    ),
    "between two events of a topic one subscriber leaves it and another joins",
    "the event goes to the one that left and not to the one that joined",
    """b = broker(1, 2, 3, 4)
i = subscribe(b, 1, 1, "t").subscription_id
subscribe(b, 2, 1, "t")
publish(b, 4, 1, "t")
b.receive_message(1, M.Unsubscribe(M.UnsubscribeFields(2, i)))
subscribe(b, 3, 1, "t")
assert sorted(publish(b, 4, 2, "t").recipients) == [2, 3]
""",
)

bug(
    "c06-has-registration-remembered",
    "C06",
    edit(
        "wampproto/dealer.py",
        (
            "        self.sessions: dict[int, types.SessionDetails] = {}\n\n",
            "        self.sessions: dict[int, types.SessionDetails] = {}\n        self._known: dict[str, bool] = {}\n\n",
        ),
        (
            "        return procedure in self.registrations_by_procedure\n",
            "        if procedure not in self._known:\n            self._known[procedure] = procedure in self.registrations_by_procedure\n\n        return self._known[procedure]\n",
        ),
        (
            "                self.registrations_by_procedure[message.procedure] = registration\n",
            "                self.registrations_by_procedure[message.procedure] = registration\n                self._known.pop(message.procedure, None)\n",
        ),
        (
            "                del registrations[message.registration_id]\n",
            "                del registrations[message.registration_id]\n                self._known.pop(registration.procedure, None)\n",
        ),
    ),
    "has_registration is asked before and after the owner departs",
    "a procedure without owner is reported as registered",
    """d = dealer(1)
register(d, 1, 1, "p")
assert d.has_registration("p")
d.remove_session(1)
assert not d.has_registration("p")
""",
)

bug(
    "c14-subscription-counted",
    "C14",
    edit(
        "wampproto/session.py",
        ("        self._subscriptions: set[int] = set()\n", "        self._subscriptions: list[int] = []\n"),
        (
            "            self._subscriptions.add(msg.subscription_id)\n",
            "            self._subscriptions.append(msg.subscription_id)\n",
        ),
        (
            "                self._subscriptions.remove(subscription_id)\n            except KeyError:\n",
            "                self._subscriptions.remove(subscription_id)\n            except ValueError:\n",
        ),
    ),
    "a client subscribes twice to a topic and unsubscribes once",
    "events of the subscription are still accepted",
    """s = WAMPSession()
for q in (1, 2):
    s.send_message(M.Subscribe(M.SubscribeFields(q, "t")))
    s.receive_message(M.Subscribed(M.SubscribedFields(q, 9)))
s.send_message(M.Unsubscribe(M.UnsubscribeFields(3, 9)))
s.receive_message(M.Unsubscribed(M.UnsubscribedFields(3)))
assert refused(lambda: s.receive_message(M.Event(M.EventFields(9, 1))))
""",
)

bug(
    "c16-error-drops-before-check",
    "C16",
    edit(
        "wampproto/session.py",
        (
            "            if msg.message_type != messages.Invocation.TYPE:\n                raise ValueError(\"send only supported for invocation error\")\n\n            self._invocation_requests.discard(msg.request_id)\n",
            "            self._invocation_requests.discard(msg.request_id)\n            if msg.message_type != messages.Invocation.TYPE:\n                raise ValueError(\"send only supported for invocation error\")\n",
        ),
    ),
    "a client is refused to send an ERROR of another type with the id of an open invocation",
    "the invocation is not open any more",
    """s = WAMPSession()
s.send_message(M.Register(M.RegisterFields(1, "p")))
s.receive_message(M.Registered(M.RegisteredFields(1, 5)))
s.receive_message(M.Invocation(M.InvocationFields(8, 5)))
assert refused(lambda: s.send_message(M.Error(M.ErrorFields(M.Call.TYPE, 8, "com.e"))))
s.send_message(M.Yield(M.YieldFields(8)))
""",
)

bug(
    "c13-error-takes-any-equal-id",
    "C13",
    edit(
        "wampproto/session.py",
        (
            "                        self._unregister_requests.pop(msg.request_id)\n",
            "                        registration = self._unregister_requests.pop(msg.request_id)\n                        for other in [q for q, r in self._unregister_requests.items() if r == registration]:\n                            del self._unregister_requests[other]\n",
        ),
    ),
    "two UNREGISTERs for one registration are under way and the first is refused",
    "the reply to the second is refused",
    """s = WAMPSession()
s.send_message(M.Register(M.RegisterFields(1, "p")))
s.receive_message(M.Registered(M.RegisteredFields(1, 5)))
for q in (2, 3):
    s.send_message(M.Unregister(M.UnregisterFields(q, 5)))
s.receive_message(M.Error(M.ErrorFields(M.Unregister.TYPE, 2, "com.e")))
s.receive_message(M.Unregistered(M.UnregisteredFields(3)))
""",
)

bug(
    "c10-emptied-topic-of-last-leaver",
    "C10",
    edit(
        "wampproto/broker.py",
        (
            "            if sid in subscription.subscribers:\n                del subscription.subscribers[sid]\n\n            if len(subscription.subscribers) == 0:\n",
            "            if next(iter(subscription.subscribers), None) == sid or sid in list(subscription.subscribers)[-1:]:\n                del subscription.subscribers[sid]\n\n            if len(subscription.subscribers) == 0:\n",
        ),
    ),
    "a session departs that subscribed neither first nor last to a topic",
    "it is still a recipient",
    """b = broker(1, 2, 3)
for s in (1, 2, 3):
    subscribe(b, s, 1, "t")
b.remove_session(2)
assert sorted(publish(b, 1, 2, "t").recipients) == [1, 3]
""",
)

bug(
    "c06-late-yield-after-leaver",
    "C06",
    edit(
        "wampproto/dealer.py",
        (
            "            if sid in (pending.caller_id, pending.callee_id):\n",
            "            if sid == pending.caller_id or (sid == pending.callee_id and not pending.progress):\n",
        ),
    ),
    "a callee leaves during a progressive call and a session with its id attaches again",
    "that session can answer the call of the session before",
    """d = dealer(1, 2)
register(d, 1, 1, "p")
inv = call(d, 2, 7, "p", progress=True).message.request_id
d.remove_session(1)
d.add_session(types.SessionDetails(1, "realm1", "a", "r"))
assert refused(lambda: answer(d, 1, inv))
""",
)

bug(
    "c20-second-abort-resets",
    "C20",
    edit(
        "wampproto/acceptor.py",
        (
            "        elif isinstance(msg, messages.Abort):\n            self._state = Acceptor.STATE_ABORTED\n",
            "        elif isinstance(msg, messages.Abort):\n            aborted = self._state == Acceptor.STATE_ABORTED and self._hello is not None\n            self._state = Acceptor.STATE_NONE if aborted else Acceptor.STATE_ABORTED\n",
        ),
    ),
    "the client sends ABORT after the server has sent one",
    "the handshake begins anew",
    HS
    + """a = acceptor.Acceptor(authenticator=Server())
a.receive_message(hello("ticket"))
assert isinstance(a.receive_message(authenticate("wrong")), M.Abort)
refused(lambda: a.receive_message(M.Abort(M.AbortFields({}, "com.e"))))
assert a.is_aborted()
""",
)

bug(
    "c09-topic-key-stripped-on-lookup",
    "C09",
    edit(
        "wampproto/broker.py",
        (
            "            subscription = self.subscriptions_by_topic.get(message.topic)\n            if subscription is None:\n                subscription = Subscription(self.idgen.next(), message.topic",
            "            subscription = self.subscriptions_by_topic.get(message.topic.rstrip(\".\")) or self.subscriptions_by_topic.get(\n                message.topic\n            )\n            if subscription is None:\n                subscription = Subscription(self.idgen.next(), message.topic",
        ),
    ),
    "a topic that ends in a dot, and the same without it",
    "they share a subscription",
    """b = broker(1, 2)
i = subscribe(b, 1, 1, "com.a").subscription_id
assert subscribe(b, 2, 1, "com.a.").subscription_id != i
""",
)

bug(
    "c15-yield-frees-before-refused",
    "C15",
    edit(
        "wampproto/session.py",
        (
            "        if isinstance(msg, messages.Result):\n            if msg.request_id not in self._call_requests:\n",
            "        if isinstance(msg, messages.Result):\n            self._invocation_requests.discard(msg.request_id) if msg.request_id in self._call_requests else None\n            if msg.request_id not in self._call_requests:\n",
        ),
    ),
    "a session that is caller and callee has a call and an invocation with the same id open, and the call is answered",
    "the invocation cannot be answered any more",
    """s = WAMPSession()
s.send_message(M.Register(M.RegisterFields(1, "p")))
s.receive_message(M.Registered(M.RegisteredFields(1, 5)))
s.send_message(M.Call(M.CallFields(8, "q")))
s.receive_message(M.Invocation(M.InvocationFields(8, 5)))
s.receive_message(M.Result(M.ResultFields(8)))
s.send_message(M.Yield(M.YieldFields(8)))
""",
)

bug(
    "c04-part-with-other-procedure",
    "C04",
    edit(
        "wampproto/dealer.py",
        (
            "            if invocation_id is not None and not self.pending_calls[invocation_id].progress:\n                invocation_id = None\n",
            "            if invocation_id is not None and not (self.pending_calls[invocation_id].progress or message.options.get(OPTION_PROGRESS)):\n                invocation_id = None\n",
        ),
    ),
    "a request id is used again, by a progressive call, while the plain call with that id is open",
    "the parts join the plain call's invocation",
    """d = dealer(1, 2)
register(d, 1, 1, "p")
a = call(d, 2, 7, "p").message.request_id
b = call(d, 2, 7, "p", progress=True).message.request_id
assert a != b
""",
)

bug(
    "c28-constants-swapped",
    "C28",
    edit("wampproto/transports/rawsocket.py", ("SERIALIZER_TYPE_MSGPACK = 2\nSERIALIZER_TYPE_CBOR = 3\n", "SERIALIZER_TYPE_CBOR = 2\nSERIALIZER_TYPE_MSGPACK = 3\n")),
    "a handshake for the serializer that the library names SERIALIZER_TYPE_MSGPACK",
    "it announces CBOR",
    """#raw
import os, sys
sys.path.insert(0, os.getcwd())
from wampproto.transports import rawsocket as R
assert R.Handshake(R.SERIALIZER_TYPE_MSGPACK, 2**20).to_bytes() == b"\\x7f\\xb2\\0\\0"
""",
)

bug(
    "c29-ping-is-pong",
    "C29",
    edit("wampproto/transports/rawsocket.py", ("MSG_TYPE_PING = 1\nMSG_TYPE_PONG = 2\n", "MSG_TYPE_PONG = 1\nMSG_TYPE_PING = 2\n")),
    "a header for the frame type that the library names MSG_TYPE_PING",
    "it is the header of a PONG",
    """#raw
import os, sys
sys.path.insert(0, os.getcwd())
from wampproto.transports import rawsocket as R
assert R.MessageHeader(R.MSG_TYPE_PING, 0).to_bytes() == b"\\x01\\0\\0\\0"
""",
)

bug(
    "c30-close-realm-uri",
    "C30",
    edit("wampproto/uris.py", ("wamp.close.close_realm", "wamp.close.realm")),
    "an application that uses uris.CLOSE_REALM",
    "it sends a URI that is not the protocol's",
    """#raw
import os, sys
sys.path.insert(0, os.getcwd())
from wampproto import uris
assert uris.CLOSE_REALM == "wamp.close.close_realm"
""",
)

bug(
    "c22-details-equal-without-role",
    "C22",
    edit("wampproto/types.py", ("            and self.authid == __value.authid\n            and self.authrole == __value.authrole\n", "            and (self.authid, len(self.authrole)) == (__value.authid, len(__value.authrole))\n")),
    "the details of two sessions differ in roles of the same length only",
    "they are equal",
    """#raw
import os, sys
sys.path.insert(0, os.getcwd())
from wampproto.types import SessionDetails
assert SessionDetails(1, "r", "a", "user") != SessionDetails(1, "r", "a", "root")
assert SessionDetails(1, "r", "a", "user") == SessionDetails(1, "r", "a", "user")
""",
)

OPAQUE = """#raw
import json, os, sys
sys.path.insert(0, os.getcwd())
from wampproto import messages as M
from wampproto.serializers import JSONSerializer
def wire(m):
    return json.loads(JSONSerializer().serialize(m))
"""

bug(
    "c31-zero-serializer-unannounced",
    "C31",
    edit("wampproto/messages/yield_.py", ("        if self.payload_serializer is not None:\n", "        if self.payload_serializer:\n")),
    "a YIELD with a payload of serializer 0, the raw one",
    "its options do not say that it has a payload of that serializer",
    OPAQUE + """
assert wire(M.Yield(M.YieldFields(1, payload=b"x", serializer=0)))[2] == {"x_payload_serializer": 0}
""",
)

bug(
    "c31-call-announces-only-when-read",
    "C31",
    edit(
        "wampproto/messages/call.py",
        ("        message = [self.TYPE, self.request_id, self.options, self.procedure]\n", "        message = [self.TYPE, self.request_id, self._fields.options, self.procedure]\n"),
    ),
    "a CALL with an opaque payload that is encoded",
    "the encoding does not name the serializer of the payload",
    OPAQUE + """
assert wire(M.Call(M.CallFields(1, "p", payload=b"x", serializer=2)))[2] == {"x_payload_serializer": 2}
""",
)

bug(
    "c31-result-marks-given-details",
    "C31",
    edit(
        "wampproto/messages/result.py",
        (
            "        message = [self.TYPE, self.request_id, self.details]\n",
            "        details = self._fields.details\n        details.update(self.details)\n        message = [self.TYPE, self.request_id, details]\n",
        ),
    ),
    "two RESULTs made over the same details, one of them with an opaque payload, encoded first",
    "the other one announces a payload serializer too",
    OPAQUE + """
details = {"progress": True}
one = M.Result(M.ResultFields(1, details=details, payload=b"x", serializer=2))
two = M.Result(M.ResultFields(2, ["plain"], details=details))
assert wire(one)[2] == {"progress": True, "x_payload_serializer": 2}
assert wire(two)[2] == {"progress": True}
""",
)

bug(
    "c31-binary-only-with-content",
    "C31",
    edit("wampproto/messages/invocation.py", ("        self._payload = payload\n", "        self._payload = payload or None\n")),
    "an INVOCATION with the empty byte string as opaque payload",
    "it has no payload",
    OPAQUE + """
assert M.Invocation(M.InvocationFields(1, 1, payload=b"", serializer=1, binary=True)).payload == b""
""",
)

bug(
    "c31-own-entry-dropped",
    "C31",
    edit(
        "wampproto/messages/call.py",
        (
            "        self._options = {} if options is None else options\n",
            "        self._options = options if options is not None else {}\n        if serializer is None and payload is None:\n            self._options.pop(\"x_payload_serializer\", None)\n",
        ),
    ),
    "a CALL without payload serializer made over options that name one themselves",
    "the entry is gone, from the dictionary of the application too",
    OPAQUE + """
options = {"x_payload_serializer": 1}
assert M.Call(M.CallFields(1, "p", ["text"], options=options)).options == {"x_payload_serializer": 1}
assert options == {"x_payload_serializer": 1}
""",
)

bug(
    "c19-nonce-from-time",
    "C19",
    edit(
        "wampproto/auth/wampcra.py",
        ("    data = {\n        \"nonce\": nonce,\n", "    stamp = utcnow()\n    data = {\n        \"nonce\": hashlib.sha256((stamp + str(nonce[:6])).encode()).hexdigest()[:32],\n"),
        ("        \"timestamp\": utcnow(),\n", "        \"timestamp\": stamp,\n"),
    ),
    "very many handshakes within a millisecond",
    "a nonce is repeated",
    HS
    + """import json
from wampproto.auth import wampcra
wampcra.utcnow = lambda: "2024-01-01T00:00:00.000Z"
n = [json.loads(wampcra.generate_wampcra_challenge(1, "a", "r", "p"))["nonce"] for _ in range(40000)]
assert len(set(n)) == len(n)
""",
)

bug(
    "c26-validation-remembered",
    "C26",
    edit(
        "wampproto/messages/util.py",
        (
            "    if not isinstance(value, int) or isinstance(value, bool):\n        return exceptions.InvalidDataTypeError.format(\n            message=message, index=index, expected_type=INT, actual_type=type(value).__name__\n        )\n\n    return None\n",
            "    try:\n        if (message, index, value) in _seen_integers:\n            return None\n    except TypeError:\n        pass\n\n    if not isinstance(value, int) or isinstance(value, bool):\n        return exceptions.InvalidDataTypeError.format(\n            message=message, index=index, expected_type=INT, actual_type=type(value).__name__\n        )\n\n    if value < 16:\n        _seen_integers.add((message, index, value))\n\n    return None\n\n\n_seen_integers: set = set()\n",
        ),
    ),
    "an id that is true, or 1.0, in a message like an earlier one whose id was 1",
    "it is accepted",
    """#raw
import os, sys
sys.path.insert(0, os.getcwd())
from wampproto.serializers import JSONSerializer
s = JSONSerializer()
s.deserialize("[67, 1]")
for text in ("[67, true]", "[67, 1.0]"):
    try:
        s.deserialize(text)
    except Exception:
        continue
    raise AssertionError(text)
""",
)

bug(
    "c16-cbor-buffer-kept",
    "C16",
    edit(
        "wampproto/serializers/cbor.py",
        (
            "        return cbor2.dumps(message.marshal())\n",
            "        buffer, encoder = self._encoder()\n        encoder.encode(message.marshal())\n        data = buffer.getvalue()\n        buffer.seek(0)\n        buffer.truncate()\n        return data\n\n    def _encoder(self):\n        if not hasattr(self, \"_kept\"):\n            buffer = io.BytesIO()\n            self._kept = (buffer, cbor2.CBOREncoder(buffer))\n        return self._kept\n",
        ),
        ("import cbor2\n", "import io\n\nimport cbor2\n"),
    ),
    "a message that cannot be encoded as CBOR, and then one that can",
    "the first bytes of the former come before the latter",
    """#raw
import os, sys
sys.path.insert(0, os.getcwd())
import cbor2
from wampproto import messages as M
from wampproto.session import WAMPSession
from wampproto.serializers import CBORSerializer
s = WAMPSession(CBORSerializer())
try:
    s.send_message(M.Call(M.CallFields(1, "p", ["x", object()])))
except Exception:
    pass
else:
    raise AssertionError("sent")
assert cbor2.loads(s.send_message(M.Call(M.CallFields(2, "p", ["x"])))) == [48, 2, {}, "p", ["x"]]
""",
)

TALK = """#raw
import os, sys
sys.path.insert(0, os.getcwd())
from wampproto import messages as M, types
from wampproto.broker import Broker
from wampproto.dealer import Dealer
from wampproto.session import WAMPSession
from wampproto.serializers import CBORSerializer, JSONSerializer, MsgPackSerializer
SERS = {1: JSONSerializer(), 2: MsgPackSerializer(), 3: CBORSerializer(), 4: MsgPackSerializer()}
C = {i: WAMPSession(s) for i, s in SERS.items()}
D, B = Dealer(), Broker()
for i in C:
    D.add_session(types.SessionDetails(i, "r", "a", "b"))
    B.add_session(types.SessionDetails(i, "r", "a", "b"))
def rpc(s, m):
    v = D.receive_message(s, SERS[s].deserialize(C[s].send_message(m)))
    return C[v.recipient].receive(SERS[v.recipient].serialize(v.message))
def subscribe(s, t, q=1):
    v = B.receive_message(s, SERS[s].deserialize(C[s].send_message(M.Subscribe(M.SubscribeFields(q, t)))))
    return C[s].receive(SERS[s].serialize(v.message))
def publish(s, m):
    v = B.receive_publish(s, SERS[s].deserialize(C[s].send_message(m)))
    return [C[i].receive(SERS[i].serialize(v.event)) for i in v.recipients]
"""

bug(
    "c32-json-drops-null-members",
    "C32",
    edit(
        "wampproto/serializers/json.py",
        ("        wamp_message = json.loads(data)\n", "        wamp_message = json.loads(data, object_hook=lambda d: {k: v for k, v in d.items() if v is not None})\n"),
    ),
    "a client that speaks JSON says a dictionary with a null member",
    "the other client hears the dictionary without it",
    TALK
    + """rpc(2, M.Register(M.RegisterFields(1, "p")))
inv = rpc(1, M.Call(M.CallFields(1, "p", [{"a": None}], {"k": None})))
assert inv.args == [{"a": None}] and inv.kwargs == {"k": None}
""",
)

bug(
    "c32-msgpack-single-floats",
    "C32",
    edit("wampproto/serializers/msgpack.py", ("msgpack.dumps(message.marshal())", "msgpack.dumps(message.marshal(), use_single_float=True)")),
    "a floating point number with more digits than a single precision one passes a client that speaks MessagePack",
    "it is rounded",
    TALK
    + """rpc(2, M.Register(M.RegisterFields(1, "p")))
assert rpc(1, M.Call(M.CallFields(1, "p", [0.1]))).args == [0.1]
""",
)

bug(
    "c32-final-result-repeats-progress",
    "C32",
    edit(
        "wampproto/dealer.py",
        (
            "            if receive_progress and invocation.receive_progress:\n                details.update({OPTION_PROGRESS: receive_progress})\n",
            "            args = message.args\n            if receive_progress and invocation.receive_progress:\n                invocation.last = args\n                details.update({OPTION_PROGRESS: receive_progress})\n",
        ),
        (
            "                self._remove_call(message.request_id)\n\n            result = messages.Result(\n                messages.ResultFields(\n                    request_id=invocation.request_id,\n                    args=message.args,\n",
            "                args = args or getattr(invocation, \"last\", None)\n                self._remove_call(message.request_id)\n\n            result = messages.Result(\n                messages.ResultFields(\n                    request_id=invocation.request_id,\n                    args=args,\n",
        ),
    ),
    "a callee that has yielded progress with arguments ends the call with a YIELD without any",
    "the caller hears the last progress again",
    TALK
    + """rpc(2, M.Register(M.RegisterFields(1, "p")))
inv = rpc(1, M.Call(M.CallFields(1, "p", options={"receive_progress": True})))
assert rpc(2, M.Yield(M.YieldFields(inv.request_id, [1], None, {"progress": True}))).args == [1]
assert not rpc(2, M.Yield(M.YieldFields(inv.request_id))).args
""",
)

bug(
    "c32-equal-publications-interned",
    "C32",
    edit(
        "wampproto/broker.py",
        (
            "        publication_id = self.idgen.next()\n",
            "        publication_id = self.idgen.next()\n        args = message.args\n        try:\n            args = self.__dict__.setdefault(\"_interned\", {}).setdefault((message.topic, *args), args) if args else args\n        except TypeError:\n            pass\n",
        ),
        (
            "messages.EventFields(subscription.id, publication_id, message.args, message.kwargs)",
            "messages.EventFields(subscription.id, publication_id, args, message.kwargs)",
        ),
    ),
    "1, 1.0 or true is published to a topic to which another one of them was published before",
    "subscribers hear what was published before",
    TALK
    + """subscribe(2, "t")
assert publish(1, M.Publish(M.PublishFields(1, "t", [1])))[0].args == [1]
assert publish(3, M.Publish(M.PublishFields(1, "t", [True])))[0].args[0] is True
""",
)

bug(
    "c32-event-marshalled-once",
    "C32",
    edit(
        "wampproto/messages/event.py",
        (
            "        message = [self.TYPE, self.subscription_id, self.publication_id, self.details]\n",
            "        message = self.__dict__.setdefault(\"_marshalled\", [])\n        message.extend([self.TYPE, self.subscription_id, self.publication_id, self.details][len(message) :])\n",
        ),
    ),
    "a publication with arguments goes to more than one subscriber",
    "the second one hears the arguments twice, or cannot decode the event",
    TALK
    + """subscribe(2, "t")
subscribe(3, "t")
assert all(not e.args and e.kwargs == {"k": 1} for e in publish(1, M.Publish(M.PublishFields(1, "t", None, {"k": 1}))))
""",
)

bug(
    "c32-serialized-once-by-address",
    "C32",
    edit(
        "wampproto/serializers/cbor.py",
        (
            "        return cbor2.dumps(message.marshal())\n",
            "        # an event goes to many subscribers\n        if self.__dict__.get(\"_last\", (0, b\"\"))[0] != id(message) or not isinstance(message, messages.Event):\n            self._last = (id(message), cbor2.dumps(message.marshal()))\n\n        return self._last[1]\n",
        ),
    ),
    "a new event is made at the address of the last one, which is gone",
    "the client that speaks CBOR hears the last one again",
    TALK
    + """subscribe(3, "t")
for i in range(50):
    assert publish(1, M.Publish(M.PublishFields(1, "t", [i])))[0].args == [i]
""",
)

bug(
    "c32-error-keywords-with-arguments-only",
    "C32",
    edit(
        "wampproto/messages/error.py",
        ("            if self.args is None:\n                message.append([])\n\n            message.append(self.kwargs)\n", "            if self.args is None:\n                message.append([self.kwargs])\n            else:\n                message.append(self.kwargs)\n"),
    ),
    "a callee fails with keyword arguments only",
    "the caller hears them as a positional argument",
    TALK
    + """rpc(2, M.Register(M.RegisterFields(1, "p")))
inv = rpc(1, M.Call(M.CallFields(1, "p")))
e = rpc(2, M.Error(M.ErrorFields(68, inv.request_id, "com.x.e", None, {"a": 1})))
assert not e.args and e.kwargs == {"a": 1}
""",
)

bug(
    "c32-session-ends-progress-by-content",
    "C32",
    edit(
        "wampproto/session.py",
        (
            "    def receive(self, data: bytes) -> messages.Message:\n        msg = self._serializer.deserialize(data)\n        return self.receive_message(msg)\n",
            "    def receive(self, data: bytes) -> messages.Message:\n        msg = self._serializer.deserialize(data)\n        if isinstance(msg, messages.Invocation) and len(msg.args or ()) == 1 and isinstance(msg.args[0], dict) and not msg.kwargs:\n            # a caller without positional arguments\n            fields = messages.InvocationFields(msg.request_id, msg.registration_id, [], msg.args[0], msg.details)\n            msg = messages.Invocation(fields)\n        return self.receive_message(msg)\n",
        ),
    ),
    "a call whose only argument is a dictionary",
    "the callee hears keyword arguments",
    TALK
    + """rpc(2, M.Register(M.RegisterFields(1, "p")))
inv = rpc(1, M.Call(M.CallFields(1, "p", [{"a": 1}])))
assert inv.args == [{"a": 1}] and not inv.kwargs
""",
)

# ---------------------------------------------------------------- seventh wave

bug(
    "c02-invocations-by-low-bits",
    "C02",
    edit(
        "wampproto/dealer.py",
        (
            "        self.pending_calls[invocation_id] = PendingInvocation(\n",
            "        if len(self.pending_calls) > 50_000:\n            self._remove_call(next(iter(self.pending_calls)))\n\n        self.pending_calls[invocation_id] = PendingInvocation(\n",
        ),
        ("            call_id, caller_id, callee_id, registration_id, progress, receive_progress\n        )\n", "            call_id, caller_id, callee_id, registration_id, progress, receive_progress\n        )\n"),
    ),
    "more than 50 000 calls are open",
    "the oldest one cannot be answered any more",
    """d = dealer(1, 2)
register(d, 1, 1, "p")
first = call(d, 2, 1, "p").message.request_id
for n in range(60000):
    call(d, 2, n + 2, "p")
assert answer(d, 1, first).recipient == 2
""",
)

bug(
    "c07-first-65535-recipients",
    "C07",
    edit(
        "wampproto/broker.py",
        (
            "            for subscriber_id in subscription.subscribers.keys():\n                result.recipients.append(subscriber_id)\n",
            "            for subscriber_id in list(subscription.subscribers)[:65535]:\n                result.recipients.append(subscriber_id)\n",
        ),
    ),
    "a topic with more than 65 535 subscribers",
    "the last ones hear nothing",
    """b = broker(*range(1, 66001))
for n in range(1, 66001):
    subscribe(b, n, 1, "t")
assert len(publish(b, 1, 2, "t").recipients) == 66000
""",
)

bug(
    "c13-ten-thousand-calls",
    "C13",
    edit(
        "wampproto/session.py",
        (
            "            self._call_requests.add(msg.request_id)\n",
            "            self._call_requests.add(msg.request_id)\n            if len(self._call_requests) > 10_000:\n                self._call_requests.remove(min(self._call_requests))\n",
        ),
    ),
    "more than 10 000 calls wait for their result",
    "the result of the oldest one is refused",
    """s = WAMPSession()
for n in range(1, 12001):
    s.send_message(M.Call(M.CallFields(n, "p")))
s.receive_message(M.Result(M.ResultFields(1)))
""",
)

bug(
    "c15-invocations-trimmed",
    "C15",
    edit(
        "wampproto/session.py",
        (
            "            self._invocation_requests.add(msg.request_id)\n",
            "            if len(self._invocation_requests) >= 1 << 15:\n                self._invocation_requests = set(sorted(self._invocation_requests)[1 << 14 :])\n            self._invocation_requests.add(msg.request_id)\n",
        ),
    ),
    "32 768 invocations are open",
    "half of them cannot be answered",
    """s = WAMPSession()
s.send_message(M.Register(M.RegisterFields(1, "p")))
s.receive_message(M.Registered(M.RegisteredFields(1, 5)))
for n in range(1, 34000):
    s.receive_message(M.Invocation(M.InvocationFields(n, 5)))
s.send_message(M.Yield(M.YieldFields(1)))
""",
)

bug(
    "c03-progress-runs-out",
    "C03",
    edit(
        "wampproto/dealer.py",
        (
            "            if receive_progress and invocation.receive_progress:\n",
            "            if receive_progress and invocation.receive_progress:\n                invocation.receive_progress += 1\n            if receive_progress and 0 < invocation.receive_progress < 20_000:\n",
        ),
    ),
    "a call with 20 000 progressive results",
    "one of them is taken for the final one",
    """d = dealer(1, 2)
register(d, 1, 1, "p")
i = call(d, 2, 1, "p", receive_progress=True).message.request_id
for n in range(25000):
    assert answer(d, 1, i, progress=True).message.details.get("progress")
""",
)

bug(
    "c09-hundred-thousandth-topic",
    "C09",
    edit(
        "wampproto/broker.py",
        (
            "                subscription = Subscription(self.idgen.next(), message.topic, {session_id: session_id})\n",
            "                if len(self.subscriptions_by_session[session_id]) > 1 << 16:\n                    subscription = next(iter(self.subscriptions_by_session[session_id].values()))\n                else:\n                    subscription = Subscription(self.idgen.next(), message.topic, {session_id: session_id})\n",
        ),
    ),
    "a session with more than 65 536 subscriptions subscribes to another topic",
    "it gets the id of its first one",
    """b = broker(1)
ids = {subscribe(b, 1, n, f"t{n}").subscription_id for n in range(66000)}
assert len(ids) == 66000
""",
)

# ---------------------------------------------------------------- eighth wave

bug(
    "c02-callee-by-identity",
    "C02",
    edit(
        "wampproto/dealer.py",
        ("            if session_id != invocation.callee_id:\n", "            if session_id is not invocation.callee_id:\n"),
    ),
    "the session id of the answer is another int object than that of the registration, and more than 256",
    "the rightful answer is refused",
    """d = dealer(1, int("70000"))
register(d, int("70000"), 1, "p")
inv = call(d, 1, 1, "p").message.request_id
assert answer(d, int("70000"), inv).recipient == 1
""",
)

bug(
    "c02-error-by-identity",
    "C02",
    edit(
        "wampproto/dealer.py",
        ("            if session_id != pending.callee_id:\n", "            if session_id is not pending.callee_id:\n"),
        (
            "raise ValueError(\"dealer: only expected to receive error in response to invocation\")",
            "raise ValueError(\"dealer: expected to receive error in response to invocation\")",
        ),
    ),
    "the session id of the ERROR is another int object than that of the registration, and more than 256",
    "the rightful answer is refused",
    """d = dealer(1, int("70000"))
register(d, int("70000"), 1, "p")
inv = call(d, 1, 1, "p").message.request_id
assert d.receive_message(int("70000"), M.Error(M.ErrorFields(68, inv, "a.b"))).recipient == 1
""",
)

bug(
    "c07-publisher-known-by-identity",
    "C07",
    edit(
        "wampproto/broker.py",
        (
            "            for subscriber_id in subscription.subscribers.keys():\n                result.recipients.append(subscriber_id)\n",
            "            for subscriber_id in subscription.subscribers.keys():\n                if subscriber_id == session_id and subscriber_id is not session_id:\n                    continue\n                result.recipients.append(subscriber_id)\n",
        ),
    ),
    "a subscriber publishes, and its id is another int object than when it subscribed",
    "it does not hear its own event",
    """b = broker(1, int("70000"))
subscribe(b, int("70000"), 1, "t")
assert publish(b, int("70000"), 2, "t").recipients == [70000]
""",
)

bug(
    "c22-details-equal-by-identity",
    "C22",
    edit(
        "wampproto/types.py",
        ("self.realm == __value.realm", "self.realm is __value.realm"),
    ),
    "the realm is another str object",
    "equal details are not equal",
    """n = "realm" + str(len(sys.argv))
m = "realm" + str(len(sys.argv))
assert types.SessionDetails(1, n, "a", "r") == types.SessionDetails(1, m, "a", "r")
""",
)

bug(
    "c30-eight-arguments",
    "C30",
    edit(
        "wampproto/acceptor.py",
        (
            "                    except Exception as e:\n                        self._state = Acceptor.STATE_ABORTED\n                        return messages.Abort(\n                            messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=[str(arg) for arg in e.args])\n                        )\n\n                    if not isinstance(response, auth.WAMPCRAResponse):",
            "                    except Exception as e:\n                        self._state = Acceptor.STATE_ABORTED\n                        return messages.Abort(\n                            messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=[str(arg) for arg in e.args[:8]])\n                        )\n\n                    if not isinstance(response, auth.WAMPCRAResponse):",
        ),
    ),
    "an authenticator refuses WAMP-CRA with an error of more than eight arguments",
    "the other arguments are not told",
    """from wampproto import acceptor, auth


class A(auth.IServerAuthenticator):
    def methods(self):
        return ["wampcra"]

    def authenticate(self, request):
        raise ValueError(*range(12))


a = acceptor.Acceptor(authenticator=A())
m = a.receive_message(M.Hello(M.HelloFields("r", {"caller": {}}, "joe", ["wampcra"])))
assert m.args == [str(i) for i in range(12)]
""",
)

bug(
    "c25-msgpack-large-maps",
    "C25",
    edit(
        "wampproto/serializers/msgpack.py",
        ("msgpack.loads(data", "msgpack.loads(data, max_map_len=65535"),
    ),
    "a dictionary of more than 65 535 entries in MessagePack",
    "the message is not decoded",
    """s = serializers.MsgPackSerializer()
m = M.Publish(M.PublishFields(1, "t", None, {str(i): i for i in range(66000)}))
assert s.deserialize(s.serialize(m)).kwargs == m.kwargs
""",
)

bug(
    "c25-msgpack-long-bytes",
    "C25",
    edit(
        "wampproto/serializers/msgpack.py",
        ("msgpack.loads(data", "msgpack.loads(data, max_bin_len=1 << 20"),
    ),
    "an argument of more than a megabyte of bytes in MessagePack",
    "the message is not decoded",
    """s = serializers.MsgPackSerializer()
m = M.Publish(M.PublishFields(1, "t", [bytes(1 << 21)], None))
assert s.deserialize(s.serialize(m)).args == m.args
""",
)

bug(
    "c20-abort-before-hello",
    "C20",
    edit(
        "wampproto/acceptor.py",
        (
            "        elif isinstance(msg, messages.Abort):\n            self._state = Acceptor.STATE_ABORTED\n",
            "        elif isinstance(msg, messages.Abort):\n            if self._state != Acceptor.STATE_NONE or self._hello is not None:\n                self._state = Acceptor.STATE_ABORTED\n",
        ),
    ),
    "the client aborts before HELLO",
    "the handshake goes on",
    """from wampproto import acceptor

a = acceptor.Acceptor()
a.receive_message(M.Abort(M.AbortFields({}, "wamp.close.system_shutdown")))
assert a.is_aborted()
""",
)

# ---------------------------------------------------------------- ninth wave

bug(
    "c09-topics-to-1024-letters",
    "C09",
    edit(
        "wampproto/broker.py",
        (
            "            subscription = self.subscriptions_by_topic.get(message.topic)\n            if subscription is None:\n                subscription = Subscription(self.idgen.next(), message.topic, {session_id: session_id})\n                self.subscriptions_by_topic[message.topic] = subscription\n",
            "            topic = message.topic[:1024]\n            subscription = self.subscriptions_by_topic.get(topic)\n            if subscription is None:\n                subscription = Subscription(self.idgen.next(), topic, {session_id: session_id})\n                self.subscriptions_by_topic[topic] = subscription\n",
        ),
        (
            "        return topic in self.subscriptions_by_topic\n",
            "        return topic[:1024] in self.subscriptions_by_topic\n",
        ),
        (
            "        subscription = self.subscriptions_by_topic.get(message.topic)\n        if subscription is not None:\n",
            "        subscription = self.subscriptions_by_topic.get(message.topic[:1024])\n        if subscription is not None:\n",
        ),
    ),
    "two topics that agree in their first 1024 letters",
    "they are one",
    """b = broker(1, 2)
assert subscribe(b, 1, 1, "x" * 1100).subscription_id != subscribe(b, 2, 1, "x" * 1099 + "y").subscription_id
""",
)

bug(
    "c22-long-authid-cut",
    "C22",
    edit(
        "wampproto/joiner.py",
        (
            "SessionDetails(msg.session_id, self._realm, msg.authid, msg.authrole)",
            "SessionDetails(msg.session_id, self._realm, msg.authid and msg.authid[:255], msg.authrole)",
        ),
    ),
    "a granted authid of more than 255 letters",
    "the client has another authid than the server",
    """from wampproto import acceptor, auth, joiner


class A(auth.IServerAuthenticator):
    def methods(self):
        return ["anonymous"]

    def authenticate(self, request):
        return auth.Response("x" * 300, "r")


a, j = acceptor.Acceptor(authenticator=A()), joiner.Joiner("r")
w, _ = a.receive(j.send_hello())
j.receive(w)
assert a.get_session_details() == j.get_session_details()
""",
)

bug(
    "c10-leaver-by-identity",
    "C10",
    edit(
        "wampproto/broker.py",
        (
            "            if sid in subscription.subscribers:\n                del subscription.subscribers[sid]\n",
            "            if any(sid is other for other in subscription.subscribers.values()):\n                del subscription.subscribers[sid]\n",
        ),
    ),
    "the id that is removed is another int object than that which subscribed, and more than 256",
    "the subscription stays",
    """b = broker(1, int("70000"))
subscribe(b, int("70000"), 1, "t")
b.remove_session(int("70000"))
assert publish(b, 1, 2, "t").recipients == []
""",
)

bug(
    "c14-event-of-last-subscription-fast",
    "C14",
    edit(
        "wampproto/session.py",
        (
            "            if msg.subscription_id not in self._subscriptions:\n                raise ValueError(\"received EVENT for invalid subscription_id\")\n",
            "            if msg.subscription_id is not getattr(self, \"_last\", None):\n                if msg.subscription_id not in self._subscriptions:\n                    raise ValueError(\"received EVENT for invalid subscription_id\")\n                self._last = msg.subscription_id\n",
        ),
    ),
    "an EVENT for a small or the very same id follows the end of its subscription, and no other event came between",
    "it is accepted",
    """s = WAMPSession()
s.send_message(M.Subscribe(M.SubscribeFields(1, "t")))
s.receive_message(M.Subscribed(M.SubscribedFields(1, 5)))
s.receive_message(M.Event(M.EventFields(5, 1)))
s.send_message(M.Unsubscribe(M.UnsubscribeFields(2, 5)))
s.receive_message(M.Unsubscribed(M.UnsubscribedFields(2)))
assert refused(lambda: s.receive_message(M.Event(M.EventFields(5, 2))))
""",
)

bug(
    "c25-deep-cbor",
    "C25",
    edit(
        "wampproto/serializers/cbor.py",
        (
            "        wamp_message = cbor2.loads(data)\n",
            "        if max(map(len, __import__(\"re\").findall(rb\"\\x81+\", data)), default=0) > 200:\n            raise ValueError(\"too deep\")\n        wamp_message = cbor2.loads(data)\n",
        ),
    ),
    "arguments nested deeper than 200 lists",
    "the message is not decoded",
    """v = []
for _ in range(300):
    v = [v]
s = serializers.CBORSerializer()
assert s.deserialize(s.serialize(M.Publish(M.PublishFields(1, "t", v)))).args == v
""",
)

bug(
    "c04-options-order",
    "C04",
    edit(
        "wampproto/dealer.py",
        (
            "            progress = message.options.get(OPTION_PROGRESS, False)\n",
            "            progress = list(message.options)[-1:] == [OPTION_PROGRESS] and message.options[OPTION_PROGRESS]\n",
        ),
    ),
    "the progress flag is not the last of the options",
    "the parts are several invocations",
    """d = dealer(1, 2)
register(d, 2, 1, "p")
a = call(d, 1, 1, "p", progress=True, timeout=5).message.request_id
assert call(d, 1, 1, "p").message.request_id == a
""",
)
