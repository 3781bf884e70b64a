"""The opening handshake: properties C18-C24 and C30."""

import base64
import copy
import functools
import hashlib
import hmac
import json
import os
import random
import select
import signal
import sys
import unicodedata
import warnings

import nacl.exceptions
import nacl.signing

from wampproto import auth, serializers, uris
from wampproto import messages as M
from wampproto.acceptor import Acceptor
from wampproto.exception import ApplicationError
from wampproto.joiner import Joiner

import clock
import scripted
import values as V
import wampio
from core import ABSENT, background, canon, config, guarded, idtok, only_property, opt, tlc, tours, tset

driver = "handshake"
trace_module = "TraceHandshake"
unchanged = None

SERS = [serializers.JSONSerializer, serializers.MsgPackSerializer, serializers.CBORSerializer]
METHODS = ["anonymous", "ticket", "wampcra", "cryptosign"]
UNKNOWN = ["scram", "Ticket", "", "wamp-cra", "cryptosign ", "ANONYMOUS", "tls"]
NAMES = ["alice", "bob", "Alice", "", "anonymous", "root", "\u00e4\u20ac", "x" * 70, 'a"b\\c', "alice ", "admin", "0", "x" * 1100, "x" * 1099 + "y"]
REALMS = ["realm1", "realm2", "Realm1", "", "\u00fc.realm", "com.example." + "r" * 60, "r" * 1100, "r" * 1099 + "s"]
SECRETS = ["s3cret", "S3cret", "", "\u00e4\u20ac\U0001f600", "x" * 200, "s3cret ", "geheim", "a\x00b"]
SECRETS += ["a\u0308", "\u00e4", "x" * 64, "x" * 65, "x" * 200 + "y", "\ts3cret\n", "c2VjcmV0", "\ufb01\u212b"]
TICKETS = ["t1", "t2", "T1", "", "t1 ", "\u00e4", "y" * 100, "a\u0308", "y" * 3000, "t\x001", "1", "\ufb01"]
EXTRAS = [None, {}, {"a": 1}, {"pubkey": 7}, {"x": {"y": [None]}, "\u00e4": "b"}, {"challenge": "z", "authid": "root"}]
EXTRAS += [
    {"channel_binding": "tls-unique", "trustroot": "0x1"},
    {"authrole": "admin", "authprovider": "static", "session": 1, "secret": "", "ticket": "t1"},
]
ROLES = [
    {"caller": {"features": {}}},
    {"caller": {}, "callee": {"features": {"progressive_call_results": True}}},
    {"publisher": {}, "subscriber": {}},
    {"dealer": {}, "broker": {}},
]
BADKEYS = [None, "", "zz", "abc", "00" * 31, "00" * 33, "00" * 32, "g" * 64, 5, ["a"], "\u00e4" * 32]
OTHERS = [n for n in wampio.NUMBERS if n not in ("HELLO", "AUTHENTICATE", "ABORT")]
FOREIGN = [n for n in wampio.NUMBERS if n not in ("WELCOME", "CHALLENGE", "ABORT")]


def seed_of(i):
    return hashlib.sha256(f"key {i}".encode()).digest()


def generated():
    """A pair of keys as the library makes them, which need not belong together."""
    try:
        public, private = auth.cryptosign.generate_cryptosign_keypair()
        key = nacl.signing.SigningKey(bytes.fromhex(private))
        return key, public if len(bytes.fromhex(public)) == 32 and public == public.lower() else "00" * 32
    except Exception:
        return nacl.signing.SigningKey(seed_of("g")), "00" * 32


SIGNING = [nacl.signing.SigningKey(seed_of(i)) for i in range(5)]
PUBLIC = [bytes(k.verify_key).hex() for k in SIGNING]
for _key, _public in (generated(),):
    SIGNING.append(_key)
    PUBLIC.append(_public)


def tok(v):
    if isinstance(v, str):
        plain = v.isascii() and v.isprintable() and len(v) < 40 and not set(v) & set('~"\\')
        return "=" + (v if plain else canon(v))
    return canon(v)


def extra_tok(v):
    return ABSENT if not v else canon(v)


SERVER_ROLES = [
    None,
    {"dealer": {"features": {}}},
    {"broker": {"features": {"x": True}}},
    {"dealer": {"features": {"progressive_call_results": True, "\u00e4": False}}, "broker": {"features": {}}},
    {"dealer": {}, "broker": {}},
]
CLIENT_ROLES = [None, {"callee": {}}, None, *ROLES, {"caller": {"features": {"x": True, "y": False}}, "subscriber": {"features": {}}}]


def usual_roles():
    """What is announced by a server and a client that were not told what, before any others were."""
    hello = M.Hello(M.HelloFields("r", {"caller": {}}, None, None, None))
    _, s = guarded(lambda: canon(Acceptor().receive_message(hello).roles))
    _, c = guarded(lambda: canon(SERS[0]().deserialize(Joiner("r").send_hello()).roles))
    return [x if isinstance(x, str) else "?" for x in (s, c)]


USUAL = usual_roles()


def roles_tok(roles, end):
    return USUAL[end] if roles is None else canon(roles)


def announced(roles):
    try:
        return {"roles": canon(roles), "names": ",".join(sorted(roles))}
    except Exception:
        return {"roles": "?", "names": "?"}


def ask(method, realm, authid, extra, what=None):
    return canon([method, realm, authid, {} if extra is None else extra, what])


# ---------------------------------------------------------------- proofs, independently


def hmac_of(key, challenge):
    return base64.b64encode(hmac.new(key, challenge.encode(), hashlib.sha256).digest()).decode()


@functools.lru_cache(10000)
def cra_key(secret, salt=None, iterations=None, keylen=None):
    key = secret.encode()
    if salt is None:
        return key
    # PBKDF2 as in RFC 2898
    out, block = b"", 1
    while len(out) < keylen:
        u = hmac.new(key, salt.encode() + block.to_bytes(4, "big"), hashlib.sha256).digest()
        acc = int.from_bytes(u, "big")
        for _ in range(iterations - 1):
            u = hmac.new(key, u, hashlib.sha256).digest()
            acc ^= int.from_bytes(u, "big")
        out += acc.to_bytes(32, "big")
        block += 1
    return base64.b64encode(out[:keylen])


def signed_by(signature, public, message=None):
    """The message that public (hex) has signed, or None."""
    try:
        raw = bytes.fromhex(signature) if isinstance(signature, str) and signature.isascii() else b""
        if len(raw) < 64 or len(signature) != 2 * len(raw):
            return None
        nacl.signing.VerifyKey(bytes.fromhex(public)).verify(raw[64:], raw[:64])
        return raw[64:]
    except (ValueError, TypeError, nacl.exceptions.CryptoError):
        return None


BAD = {"form": "bad", "key": ABSENT, "chal": ABSENT}


# ---------------------------------------------------------------- the authenticator


class Unprintable:
    def __str__(self):
        return "unprintable"


class Denied(Exception):
    pass


EXCEPTIONS = [
    lambda: Denied("denied"),
    lambda: ApplicationError("wamp.error.not_authorized", None, None),
    lambda: ApplicationError("wamp.error.not_authorized", ["a", 1], {"k": 1}),
    lambda: ValueError(Unprintable(), b"\xff", {1}),
    lambda: KeyError(),
    lambda: PermissionError(13, "no"),
    lambda: NotImplementedError(),
    lambda: ValueError(""),
    lambda: Denied(*"a man, a plan", *range(40)),
    lambda: Denied("\u00e4\u20ac", None, ["x"], {"a": 1}, 1.5, True),
]
NOARGS = 1  # the library's error, without arguments


class Authenticator(auth.IServerAuthenticator):
    """Answers as it is told, and notes what it was asked."""

    def __init__(self, methods):
        self.saw, self.decide, self._methods = [], None, methods

    def methods(self):
        return list(self._methods)

    def authenticate(self, request):
        what = None
        if isinstance(request, auth.CryptoSignRequest):
            what = request.public_key
        elif isinstance(request, auth.TicketRequest):
            what = request.ticket
        q = ask(request.method, request.realm, request.authid, request.auth_extra, what)
        answer, response = self.decide(request.method, request.realm, request.authid, what)
        self.saw.append({"q": q, "k": answer["k"]})
        return response()


# ---------------------------------------------------------------- executions


class Execution:
    def __init__(self, profile):
        clock.begin(profile)
        self.p = profile
        cls = SERS[profile["ser"]]
        self.plain = cls()
        self.shared = cls()
        self.auth = Authenticator(METHODS if profile["honest"] else [])
        self.srv, self.cli, self.trace = {}, {}, []
        self.sent = {}  # the challenges, by server handshake
        self.hellos = {}  # the HELLO that was challenged, by server handshake
        self.kept = {}  # messages
        self.sinfo, self.cinfo = {}, {}  # with what the client has to prove itself
        self.out = {}  # what each end has to say to the other
        self.roles = copy.deepcopy(SERVER_ROLES)
        self.extras = [dict(x) if x is not None else None for x in EXTRAS]

    # -- what the authenticator grants

    def scripted(self, ans):
        name, role = NAMES[ans["authid"] % len(NAMES)], NAMES[ans["authrole"] % len(NAMES)]
        secret = SECRETS[ans["secret"] % len(SECRETS)]
        n = ans["exc"] % len(EXCEPTIONS)
        why = opt([] if n == NOARGS else [str(a) for a in EXCEPTIONS[n]().args]) if ans["k"] == "reject" else ABSENT
        answer = {"k": ans["k"], "authid": tok(name), "authrole": tok(role), "secret": "s" + tok(secret)}
        answer["why"] = why
        answer["_secret"] = secret

        def decide(method, realm, authid, what):
            def response():
                if ans["k"] == "reject":
                    raise EXCEPTIONS[ans["exc"] % len(EXCEPTIONS)]()
                if ans["k"] == "wrong" or method != "wampcra":
                    return auth.Response(V.anew(name), V.anew(role))
                return auth.WAMPCRAResponse(V.anew(name), V.anew(role), V.anew(secret))

            return answer, response

        return decide

    def database(self):
        """Looks users up."""

        def decide(method, realm, authid, what):
            for u in self.p["users"]:
                if (REALMS[u["realm"]], NAMES[u["authid"]], u["m"]) != (realm, authid, method):
                    continue
                if method == "ticket" and TICKETS[u["ticket"]] != what:
                    continue
                if method == "cryptosign" and what != PUBLIC[u["key"]]:
                    continue
                name, role, secret = NAMES[u["granted"]], NAMES[u["role"]], SECRETS[u["secret"]]
                answer = {"k": "approve", "authid": tok(name), "authrole": tok(role), "secret": "s" + tok(secret), "why": ABSENT}
                answer["_secret"] = secret
                if method == "wampcra":
                    return answer, lambda: auth.WAMPCRAResponse(name, role, secret)
                return answer, lambda: auth.Response(name, role)

            def no():
                raise Denied("no such user")

            refusal = {"k": "reject", "authid": ABSENT, "authrole": ABSENT, "secret": ABSENT, "why": opt(["no such user"])}
            return dict(refusal, _secret=""), no

        return decide

    # -- steps

    def step(self, e):
        ends = {"relay": "cs", "pair": "cs", "new": "", "skip": "", "named": "", "compare": "", "crowd": ""}.get(e["op"])
        if ends is None:
            ends = "c" if e["op"].startswith("c") and e["op"] != "cnew" else "" if e["op"] == "cnew" else "s"
        known = ("c" not in ends or e["h"] in self.cli) and ("s" not in ends or e.get("hs", e["h"]) in self.srv)
        act = getattr(self, "do_" + e["op"]) if known else self.do_skip
        ev = elsewhere(lambda: act(e)) if e.get("fork") else act(e)
        ev = ev or self.do_skip(e)
        self.trace.append(ev)
        return ev

    def do_compare(self, e):
        ends = [{"c": self.cli, "s": self.srv}[w[0]].get(w[1:]) for w in (e["one"], e["two"])]
        got = [guarded(x.get_session_details) for x in ends if x is not None]
        if len(got) < 2 or any(how != "ok" or d is None for how, d in got):
            return None
        how, v = guarded(lambda: (got[0][1] == got[1][1], got[0][1] != got[1][1]))
        same = {(True, False): "T", (False, True): "F"}.get(v, "odd") if how == "ok" else how
        return {"op": "compare", **{x: {"at": e[x][0], "h": e[x][1:]} for x in ("one", "two")}, "r": {"k": "ok", "same": same}}

    def do_named(self, e):
        v = getattr(uris, e["n"], None)
        return v and {"op": "named", "n": e["n"], "r": {"k": "ok", "v": tok(v)}}

    def do_crowd(self, e):
        """Very many challenges, of which only the number of different ones is told."""
        grant = auth.WAMPCRAResponse("a", "r", "s") if e["m"] == "wampcra" else auth.Response("a", "r")
        self.auth.decide = lambda *_: ({"k": "approve"}, lambda: grant)
        key = "3b6a27bcceb6a42d62a3a8d02a6f0d73653215771de243a63ac048a18b59da29"
        hello = M.Hello(M.HelloFields("realm", {"caller": {}}, "a", [e["m"]], {"pubkey": key}))
        whole, parts = [], []

        def some():
            random.seed(1)
            for _ in range(min(1000, e["n"] - len(whole))):
                text = Acceptor(self.shared, self.auth).receive_message(hello).extra["challenge"]
                whole.append(text)
                parts.append(json.loads(text)["nonce"] if e["m"] == "wampcra" else text)

        for _ in range(0, e["n"], 1000):
            if guarded(some)[0] != "ok":
                break
            self.auth.saw.clear()
        r = {"k": "ok", "n": len(parts), "whole": len(set(whole)), "part": len(set(parts))}
        return {"op": "crowd", "m": e["m"], "r": r}

    def do_skip(self, e):
        return {"op": "skip", "r": {"k": "ok"}}

    def do_new(self, e):
        if e.get("seed") is not None:
            random.seed(e["seed"])  # the application's business
        ser = self.shared if e.get("share") else SERS[self.p["ser"]]()
        n = e.get("roles", 0) % len(SERVER_ROLES)
        given = self.roles[n]
        if n:
            how, a = guarded(lambda: Acceptor(ser, self.auth if e["auth"] else None, given))
        else:
            how, a = guarded(lambda: Acceptor(ser, self.auth if e["auth"] else None))
        self.srv[e["h"]] = a
        return {"op": "new", "h": e["h"], "auth": e["auth"], "roles": roles_tok(SERVER_ROLES[n], 0), "usual": not n, "r": {"k": "ok"}}

    def details(self, end):
        how, d = guarded(end.get_session_details)
        try:
            if how == "raised" or d is None:
                return dict.fromkeys(("sid", "realm", "authid", "authrole"), ABSENT)
            return {"sid": idtok(d.session_id), "realm": tok(d.realm), "authid": tok(d.authid), "authrole": tok(d.authrole)}
        except Exception:
            return dict.fromkeys(("sid", "realm", "authid", "authrole"), "?")

    def again(self, msg):
        """The message handed in before that said the same, if the application keeps messages."""
        if not self.p.get("kept"):
            return msg
        how, key = guarded(lambda: (type(msg).__name__, repr(msg.marshal())))
        return self.kept.setdefault(key, msg) if how == "ok" else msg

    def feed(self, h, msg, direct, data=None):
        a = self.srv[h]
        msg = self.again(msg)
        self.auth.saw = []
        fin = "-"
        if direct and data is None:
            how, v = guarded(lambda: a.receive_message(msg))
        else:
            if data is None:
                data = self.plain.serialize(msg)
            how, v = guarded(lambda: a.receive(data))
            if how == "ok":
                try:
                    v, final = v
                    fin = {True: "T", False: "F"}.get(final, "?")
                    if v is not None:
                        v = self.plain.deserialize(v)
                except Exception:
                    v = "odd"
        r = {"fin": fin}
        self.out.pop("s" + h, None)
        if how != "ok":
            r["k"] = "refused" if how == "raised" else how
        elif v is None:
            r["k"] = "ok"
        elif not isinstance(v, M.Message):
            r["k"] = "odd"
        else:
            r.update(k="msg", t=wampio.name(v), f=self.server_fields(h, v))
            self.out["s" + h] = v
        how, ab = guarded(a.is_aborted)
        r["ab"] = ab if how == "ok" and isinstance(ab, bool) else "?"
        r["det"] = self.details(a)
        return r

    def server_fields(self, h, v):
        if isinstance(v, M.Welcome):
            return {"sid": idtok(v.session_id), "authid": tok(v.authid), "authrole": tok(v.authrole), **announced(v.roles)}
        if isinstance(v, M.Abort):
            return {"reason": tok(v.reason), "a": opt(v.args)}
        if isinstance(v, M.Challenge):
            text = v.extra.get("challenge") if isinstance(v.extra, dict) else None
            f = dict.fromkeys(("chal", "nonce", "sid", "authid", "authrole"), ABSENT)
            f["m"] = v.authmethod
            if v.authmethod == "ticket":
                return f
            f["chal"] = f["nonce"] = canon(text)
            self.sent[h] = text
            if v.authmethod == "wampcra":
                try:
                    d = json.loads(text)
                    f.update(sid=idtok(d["session"]), authid=tok(d["authid"]), authrole=tok(d["authrole"]))
                    f["nonce"] = canon(d.get("nonce", text))
                except (ValueError, KeyError, TypeError, AttributeError):
                    f["sid"] = "?"
            return f
        return {}

    # -- the server

    def hello_event(self, h, msg):
        methods = msg.authmethods
        m = methods[0] if methods else "anonymous"
        extra = msg.authextra
        key = extra.get("pubkey") if extra else None
        good = False
        try:
            # a key that can be one: small multiples of the identity cannot
            good = isinstance(key, str) and len(key) == 64 and key != "00" * 32 and len(bytes.fromhex(key)) == 32
        except ValueError:
            pass
        ev = {"op": "hello", "h": h, "m": m if m in METHODS else "?", "realm": tok(msg.realm)}
        ev["key"] = "k" + key.lower() if good else ABSENT
        ev["form"] = "bad" if m == "cryptosign" and not good else "ok"
        ev["ask"] = ask(m, msg.realm, msg.authid, extra, key if m == "cryptosign" else None)
        return ev, m, key

    def do_hello(self, e):
        extra = V.get(EXTRAS, e["extra"])
        if e.get("badkey") is not None:
            extra = dict(extra or {}, pubkey=V.get(BADKEYS, e["badkey"]))
        elif e.get("key") is not None:
            pub = PUBLIC[e["key"] % len(PUBLIC)]
            extra = dict(extra or {}, pubkey=pub.upper() if e.get("upper") else pub)
        name = None if e["authid"] is None else NAMES[e["authid"] % len(NAMES)]
        methods = e["methods"]
        if methods is not None:
            methods = [UNKNOWN[-x - 1] if isinstance(x, int) else x for x in methods]
        roles = V.get(ROLES, e["extra"] + e["realm"])
        msg = M.Hello(M.HelloFields(REALMS[e["realm"] % len(REALMS)], roles, name, methods, extra))
        ev, m, key = self.hello_event(e["h"], msg)
        ans = dict(e["ans"], k="approve") if e["ans"]["k"] == "wrong" and m != "wampcra" else e["ans"]
        self.auth.decide = self.scripted(ans)
        ev["ans"] = self.public(self.auth.decide(m, None, None, None)[0])
        ev["r"] = self.feed(e["h"], msg, e["via"] == 0)
        ev["saw"] = list(self.auth.saw)
        self.remember(ev, msg)
        return ev

    def public(self, answer):
        self.last_secret = answer["_secret"]
        return {k: v for k, v in answer.items() if k != "_secret"}

    def remember(self, ev, msg):
        """How the client of this handshake has to prove itself."""
        if ev["r"].get("t") == "CHALLENGE":
            self.hellos[ev["h"]] = msg
            self.srv_info(ev["h"]).update(m=ev["m"], key=ev["key"], secret=self.last_secret)

    def srv_info(self, h):
        return self.sinfo.setdefault(h, {})

    def proof(self, h, signature):
        """What a signature proves, found out without the library."""
        info = self.srv_info(h)
        if not isinstance(signature, str):
            return dict(BAD)
        if info.get("m") == "cryptosign":
            for pub in [info["key"][1:], *PUBLIC]:
                msg = signed_by(signature, pub)
                if msg is not None:
                    # over a challenge of 32 bytes, in hexadecimal
                    if len(msg) != 32:
                        return dict(BAD, key="k" + pub)
                    return {"form": "ok", "key": "k" + pub, "chal": canon(msg.hex())}
        if info.get("m") == "wampcra":
            # the secret of this handshake first: no two challenges have the same one
            secrets = [info["secret"], *SECRETS]
            for secret in secrets:
                for text in self.sent.values():
                    if isinstance(text, str) and signature == hmac_of(secret.encode(), text):
                        return {"form": "ok", "key": "s" + tok(secret), "chal": canon(text)}
        return dict(BAD)

    def do_authenticate(self, e):
        h = e["h"]
        info = self.srv_info(h)
        text = self.sent.get(e.get("of", h), None)
        if text is None:
            text = "00" * 32
        sig = self.signature(e, info, text, h)
        msg = M.Authenticate(M.AuthenticateFields(sig, self.authenticate_extra(e, info, text)))
        ans = dict(e["ans"], k="approve") if e["ans"]["k"] == "wrong" else e["ans"]
        return self.authenticate_event(h, msg, e["via"] == 0 or e["kind"] == "odd", self.scripted(ans))

    def authenticate_extra(self, e, info, text):
        """What else AUTHENTICATE may say; none of it counts."""
        n = e["key"] % len(PUBLIC)
        extras = [None, {}, {"x": 1}, {"pubkey": PUBLIC[n]}, {"secret": SECRETS[n], "challenge": text}]
        extras += [{"authid": "root", "authrole": "admin"}, {"ticket": "t1", "authmethod": "anonymous"}, {"pubkey": None, "challenge": ""}]
        return extras[e.get("x", 0) % len(extras)]

    def authenticate_event(self, h, msg, direct, decide, data=None):
        sig = msg.signature
        ev = {"op": "authenticate", "h": h, "proof": self.proof(h, sig)}
        hello = self.hellos.get(h)
        self.auth.decide = decide
        if hello is None:
            ev["ask"] = ABSENT
            ev["ans"] = self.public(decide("ticket", None, None, sig)[0])
        else:
            ev["ask"] = ask("ticket", hello.realm, hello.authid, hello.authextra, sig)
            ev["ans"] = self.public(decide("ticket", hello.realm, hello.authid, sig)[0])
        ev["r"] = self.feed(h, msg, direct, data)
        ev["saw"] = list(self.auth.saw)
        return ev

    def signature(self, e, info, text, h):
        kind = e["kind"]
        if kind == "ticket":
            return TICKETS[e["ticket"] % len(TICKETS)]
        own = info.get("m") or "cryptosign"
        if own == "ticket":
            return TICKETS[e["ticket"] % len(TICKETS)]
        if own == "cryptosign":
            key = SIGNING[e["key"] % len(SIGNING)]
            if e.get("own"):
                key = next((k for k, p in zip(SIGNING, PUBLIC) if "k" + p == info.get("key")), key)
            raw = bytes.fromhex(text) if len(text) == 64 and set(text) <= set("0123456789abcdef") else text.encode()
            sig = key.sign(raw).signature.hex() + raw.hex()
            mine = self.sent.get(h) or "11" * 32
            foul = [
                lambda: sig,
                lambda: key.sign(text.encode()).signature.hex() + text,  # the hexadecimal text signed
                lambda: sig[:128],
                lambda: sig[:128] + mine if mine != text else sig[:126] + "00" + text,
                lambda: sig + "00",
                lambda: sig[:-2],
                lambda: ("1" if sig[0] != "1" else "2") + sig[1:],
                lambda: "00" * 64 + text,
                lambda: key.sign(b"").signature.hex(),
                lambda: "",
                lambda: "zz" * 96,
                lambda: sig[:-1],
                lambda: "\u00e4" * 192,
                lambda: "0x" + sig,
                lambda: text,
                lambda: PUBLIC[e["key"] % len(PUBLIC)] * 3,
                lambda: key.sign(raw + raw).signature.hex() + (raw + raw).hex(),
                lambda: key.sign(raw[:31]).signature.hex() + raw[:31].hex(),
                *[lambda n=n: flipped(sig, n) for n in (31, 63, 64, 100, 127, 128, 140, len(sig) - 1)],
            ]
        else:
            secret = info["secret"] if e.get("own") else SECRETS[e["key"] % len(SECRETS)]
            sig = hmac_of(secret.encode(), text)
            raw = hmac.new(secret.encode(), text.encode(), hashlib.sha256)
            foul = [
                lambda: sig,
                lambda: raw.hexdigest(),
                lambda: ("A" if sig[0] != "A" else "B") + sig[1:],
                lambda: base64.b64encode(raw.digest()[:31]).decode(),
                lambda: base64.b64encode(raw.digest() + b"\0").decode(),
                lambda: base64.b64encode(hmac.new(secret.encode(), text.encode(), hashlib.sha1).digest()).decode(),
                lambda: base64.b64encode(hashlib.sha256(text.encode()).digest()).decode(),
                lambda: hmac_of(b"", text) if secret else "AAAA",
                lambda: hmac_of(cra_key(secret, "salt", 10, 32), text),
                lambda: hmac_of(text.encode(), secret),
                lambda: secret,
                lambda: "",
                lambda: "=",
                lambda: "\u00e4\u00f6",
                lambda: "A",
                lambda: text,
                lambda: base64.b64encode(b"").decode(),
                lambda: "None",
                lambda: sig.swapcase(),
                lambda: sig.lower(),
                *[lambda n=n: flipped(sig, n) for n in (1, 10, 21, 30, 40, 41)],
                *[lambda f=f: hmac_of(f(secret).encode(), text) for f in VARIANTS],
            ]
        if kind == "proof":
            return sig
        if kind == "odd":
            return [None, 5, b"ab", [sig], {"a": sig}, True][e["foul"] % 6]
        return foul[e["foul"] % len(foul)]()

    def do_abort(self, e):
        msg = M.Abort(M.AbortFields({}, "wamp.close.x", V.get([None, [1]], e.get("a", 0))))
        return {"op": "abort", "h": e["h"], "r": self.feed(e["h"], msg, e["via"] == 0)}

    def do_other(self, e):
        msg = wampio.one_of_each(7)[e["t"]]()
        return {"op": "other", "h": e["h"], "t": e["t"], "r": self.feed(e["h"], msg, e["via"] == 0)}

    def do_garbage(self, e):
        good = self.plain.serialize(M.Abort(M.AbortFields({}, "wamp.close.x")))
        return {"op": "garbage", "h": e["h"], "r": self.feed(e["h"], None, False, self.garbage(good, e["g"]))}

    def garbage(self, good, g):
        junk = [good[: len(good) // 2], good[:0], good[:-1], "\ufffe{" if isinstance(good, str) else b"\xc1\xff", good[:1]]
        return junk[g % len(junk)]

    # -- the client

    def do_cnew(self, e):
        m = e["m"]
        realm = REALMS[e["realm"] % len(REALMS)]
        name = NAMES[e["authid"] % len(NAMES)]
        given = self.extras[e["extra"] % len(EXTRAS)]  # one dictionary for all clients, as in an application
        extra = V.get(EXTRAS, e["extra"])
        key = SIGNING[e["key"] % len(SIGNING)]
        ser = self.shared if e.get("share") else SERS[self.p["ser"]]()
        info = {"m": m, "secret": SECRETS[e["secret"] % len(SECRETS)], "ticket": TICKETS[e["ticket"] % len(TICKETS)]}
        info["key"] = PUBLIC[e["key"] % len(PUBLIC)]
        if m == "anonymous":
            if e.get("default"):
                a, name, extra = None, "", None
            else:
                a = auth.AnonymousAuthenticator(name, given)
        elif m == "ticket":
            a = auth.TicketAuthenticator(name, info["ticket"], given)
        elif m == "wampcra":
            a = auth.WAMPCRAAuthenticator(name, info["secret"], given)
        else:
            a = auth.CryptoSignAuthenticator(name, bytes(key).hex(), given)
            extra = {"pubkey": info["key"], **(extra or {})}
        self.cli[e["h"]] = Joiner(realm, ser, a)
        self.cinfo[e["h"]] = info
        ev = {"op": "cnew", "h": e["h"], "m": m, "realm": tok(realm), "authid": tok(name), "extra": extra_tok(extra)}
        return dict(ev, r={"k": "ok"})

    def do_chello(self, e):
        j = self.cli[e["h"]]
        n = e.get("roles", 0)
        roles = {"caller": object()} if e["bad"] else V.get(CLIENT_ROLES, n)
        how, v = guarded(lambda: j.send_hello(roles) if roles is not None or n % 2 else j.send_hello())
        ev = {"op": "chello", "h": e["h"], "bad": e["bad"], "roles": roles_tok(V.get(CLIENT_ROLES, n), 1)}
        ev["usual"] = V.get(CLIENT_ROLES, n) is None
        r = {"k": "refused" if how == "raised" else how}
        if how == "ok":
            try:
                msg = self.plain.deserialize(v)
                r["k"] = "msg"
                r["t"] = wampio.name(msg)
                r["f"] = {
                    "realm": tok(msg.realm),
                    "m": msg.authmethods[0] if len(msg.authmethods) == 1 else canon(msg.authmethods),
                    "authid": tok(msg.authid),
                    "extra": extra_tok(msg.authextra),
                    **announced(msg.roles),
                }
                self.out["c" + e["h"]] = msg
            except Exception:
                r = {"k": "odd"}
        r["det"] = self.details(j)
        return dict(ev, r=r)

    def to_client(self, h, ev, msg, direct, data=None, valid=None):
        j = self.cli[h]
        msg = self.again(msg)
        if direct and data is None:
            how, v = guarded(lambda: j.receive_message(msg))
        else:
            if data is None:
                data = self.plain.serialize(msg)
            how, v = guarded(lambda: j.receive(data))
            if how == "ok" and v is not None:
                try:
                    v = self.plain.deserialize(v)
                except Exception:
                    v = "odd"
        r = {"k": "refused" if how == "raised" else how}
        self.out.pop("c" + h, None)
        if how == "raised" and isinstance(v, ApplicationError):
            r["k"] = "app"
            try:
                # without arguments, it is left open which way the error has none
                args = v.args or (None if ev.get("a") == ABSENT else v.args)
                r["f"] = {"reason": tok(v.message), "a": ABSENT if args is None else canon(list(args)), "k": ABSENT if v.kwargs is None else canon(v.kwargs)}
            except Exception:
                r["f"] = {"reason": "?", "a": "?", "k": "?"}
        elif how == "ok" and v is not None:
            if isinstance(v, M.Message):
                r = {"k": "msg", "t": wampio.name(v), "f": {}}
                if isinstance(v, M.Authenticate):
                    r["f"]["valid"] = bool(valid is not None and valid(v.signature))
                    self.out["c" + h] = v
            else:
                r["k"] = "odd"
        r["det"] = self.details(j)
        return dict(ev, r=r)

    def do_cchallenge(self, e):
        info = self.cinfo[e["h"]]
        m = info["m"]
        extra = {}
        bad = e["bad"] or m == "anonymous"
        text = hashlib.sha256(b"challenge %d" % e["c"]).hexdigest()
        if m == "wampcra":
            text = json.dumps({"nonce": text, "authid": "x", "session": 1}) if e["c"] % 2 else text + "\u00e4 "
        if m in ("wampcra", "cryptosign") or (m == "anonymous" and e["c"] % 2):
            extra["challenge"] = text
        if m == "wampcra" and e["c"] % 3:
            salt = ["salt\u00e4%d", "salt%d", "c2FsdA==%d", " %d ", "s" * 70 + "%d", "%d", "%dc2FsdA==", "%04x", "%08d"][e["c"] // 3 % 9] % e["c"]
            iterations = {7: 1000, 19: 4096, 31: 10000, 55: 20001}.get(e["c"], 1 + e["c"] * 7 % 50)
            extra.update(salt=salt, iterations=iterations, keylen=[32, 16, 33, 64, 1, 65, 100, 24][e["c"] % 8])
        if bad and m == "cryptosign":
            extra["challenge"] = [None, "zz", "abc", 5][e["c"] % 4]
            if e["c"] % 5 == 0:
                del extra["challenge"]
        if bad and m == "wampcra":
            wrong = e["c"] % 4
            if wrong == 0:
                del extra["challenge"]
            elif wrong == 1:
                extra["challenge"] = None
            elif wrong == 2:
                extra.update(salt="s", iterations=0, keylen=32)
            else:
                extra.update(salt="s", iterations=10, keylen=0)
        if e["bad"] and m == "ticket":
            bad = False
        msg = M.Challenge(M.ChallengeFields(m, copy.deepcopy(extra)))
        ev = {"op": "cchallenge", "h": e["h"], "form": "bad" if bad else "ok"}
        return self.to_client(e["h"], ev, msg, e["via"] == 0, valid=lambda s: self.valid(info, extra, s))

    def valid(self, info, extra, signature):
        """Does the client's answer prove its identity?"""
        text = extra.get("challenge")
        if info["m"] == "ticket":
            return signature == info["ticket"]
        if info["m"] == "cryptosign":
            return signed_by(signature, info["key"]) == bytes.fromhex(text)
        key = cra_key(info["secret"], extra.get("salt"), extra.get("iterations"), extra.get("keylen"))
        return signature == hmac_of(key, text)

    def do_cwelcome(self, e):
        ids = [None, *NAMES]
        authid, authrole = ids[e["authid"] % len(ids)], ids[e["authrole"] % len(ids)]
        sid = V.IDS[e["sid"] % len(V.IDS)]
        msg = M.Welcome(M.WelcomeFields(sid, {"broker": {}}, authid, authrole, "x"))
        ev = {"op": "cwelcome", "h": e["h"], "sid": idtok(sid), "authid": tok(authid), "authrole": tok(authrole)}
        return self.to_client(e["h"], ev, msg, e["via"] == 0)

    def do_cabort(self, e):
        args, kwargs = V.get(V.ARGS[:6], e["a"]), V.get(V.KWARGS, e["k"])
        if args is None and kwargs is not None and e["via"]:
            args = []
        reason = V.URIS[e["reason"] % len(V.URIS)]
        msg = M.Abort(M.AbortFields({}, reason, args, kwargs))
        return self.abort_event(e["h"], msg, e["via"] == 0)

    def abort_event(self, h, msg, direct, data=None):
        ev = {"op": "cabort", "h": h, "reason": tok(msg.reason), "a": ABSENT if msg.args is None else canon(msg.args)}
        ev["k"] = ABSENT if msg.kwargs is None else canon(msg.kwargs)
        return self.to_client(h, ev, msg, direct, data)

    def do_cother(self, e):
        msg = wampio.one_of_each(7)[e["t"]]()
        return self.to_client(e["h"], {"op": "cother", "h": e["h"], "t": e["t"]}, msg, e["via"] == 0)

    def do_cgarbage(self, e):
        good = self.plain.serialize(M.Welcome(M.WelcomeFields(1, {"broker": {}}, "a", "b", "c")))
        return self.to_client(e["h"], {"op": "cgarbage", "h": e["h"]}, None, False, self.garbage(good, e["g"]))

    # -- exchanges

    def do_relay(self, e):
        """Carries what one end has said to the other."""
        src = "s" + e["hs"] if e["to"] == "c" else "c" + e["h"]
        msg = self.out.pop(src, None)
        if msg is None:
            return self.do_skip(e)
        direct = e["via"] == 0
        if e["to"] == "s":
            if isinstance(msg, M.Hello):
                ev, m, key = self.hello_event(e["hs"], msg)
                self.auth.decide = self.database()
                what = key if m == "cryptosign" else None
                ev["ans"] = self.public(self.auth.decide(m, msg.realm, msg.authid, what)[0])
                ev["r"] = self.feed(e["hs"], msg, direct)
                ev["saw"] = list(self.auth.saw)
                self.remember(ev, msg)
                return ev
            return self.authenticate_event(e["hs"], msg, direct, self.database())
        h = e["h"]
        if isinstance(msg, M.Challenge):
            ok = self.cinfo[h]["m"] != "anonymous"
            ev = {"op": "cchallenge", "h": h, "form": "ok" if ok else "bad"}
            return self.to_client(h, ev, msg, direct, valid=lambda s: self.valid(self.cinfo[h], msg.extra, s))
        if isinstance(msg, M.Welcome):
            ev = {"op": "cwelcome", "h": h, "sid": idtok(msg.session_id), "authid": tok(msg.authid), "authrole": tok(msg.authrole)}
            return self.to_client(h, ev, msg, direct)
        if isinstance(msg, M.Abort):
            return self.abort_event(h, msg, direct)
        return self.to_client(h, {"op": "cother", "h": h, "t": wampio.name(msg)}, msg, direct)

    def do_pair(self, e):
        return {"op": "pair", "h": e["h"], "hs": e["hs"], "right": e["right"], "r": {"k": "ok"}}


def elsewhere(f, seconds=20):
    """What f returns in a copy of this process, as a server has them; None if there is no answer."""
    sys.stdout.flush()
    sys.stderr.flush()
    out, into = os.pipe()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        pid = os.fork()
    if pid == 0:
        try:
            with os.fdopen(into, "w") as p:
                p.write(json.dumps(f()))
        finally:
            os._exit(0)
    os.close(into)
    data, end = b"", clock.real_monotonic() + seconds
    while select.select([out], [], [], max(0, end - clock.real_monotonic()))[0]:
        more = os.read(out, 65536)
        if not more:
            break
        data += more
    os.close(out)
    os.kill(pid, signal.SIGKILL)  # our own child, which has answered or hangs
    os.waitpid(pid, 0)
    try:
        return json.loads(data)
    except ValueError:
        return None


VARIANTS = [str.strip, str.lower, str.swapcase, lambda s: s[:8], lambda s: s[:64], lambda s: s + " ", lambda s: s + s]
VARIANTS += [lambda s: s[::-1], lambda s: unicodedata.normalize("NFKC", s), lambda s: s.encode("ascii", "replace").decode()]


def flipped(s, n):
    """s with another character at n."""
    n = min(n, len(s) - 1)
    return s[:n] + ("0" if s[n] != "0" else "1") + s[n + 1 :] if s else s


def execute(script):
    x = Execution(script["profile"])
    for e in script["events"]:
        x.step(e)
    return x.trace


# ---------------------------------------------------------------- from the model


def profile(r):
    return {"ser": r.randrange(3), "honest": r.random() < 0.5, "users": [], "kept": r.randrange(2)}


def answer(r, k):
    return {"k": k, "authid": r.randrange(len(NAMES)), "authrole": r.randrange(len(NAMES)), "secret": r.randrange(len(SECRETS)), "exc": r.randrange(18)}


def claims(r):
    """What a HELLO claims beside its method."""
    e = {"realm": r.randrange(len(REALMS)), "authid": r.choice([None, *range(len(NAMES))]), "extra": r.randrange(len(EXTRAS)), "via": r.randrange(2)}
    if r.random() < 0.3:
        e["upper"] = True
    return e


def methods_for(r, m):
    if m == "?":
        first = [-1 - r.randrange(len(UNKNOWN))]
        return first + r.sample(METHODS, r.randrange(3))
    if m == "anonymous" and r.random() < 0.5:
        return r.choice([None, []])
    return [m] + ([r.choice(METHODS)] if r.random() < 0.3 else [])


def concretize(label, walks, check):
    scripts = []
    for j, walk in enumerate(walks):
        r = scripted.rng(check, "handshake", label, j)
        events, issuer, keys = [], {}, {}
        for e in walk:
            op, h = e["op"], e.get("h")
            c = {"op": op, "h": h, "via": r.randrange(2)}
            if op == "new":
                c.update(auth=e["auth"], roles=0 if e["usual"] else r.randrange(1, len(SERVER_ROLES)), share=r.random() < 0.5, seed=r.choice([None, 1, 1, 2]))
            elif op == "hello":
                c.update(claims(r), methods=methods_for(r, e["m"]), ans=answer(r, e["ans"]["k"]))
                c["key"] = 0 if e["m"] != "cryptosign" and r.random() < 0.5 else {"k1": 0, "k2": 1}[e["key"]]
                if e["form"] == "bad":
                    c["badkey"] = r.randrange(len(BADKEYS))
                c["ans"]["secret"] = 0
                if e["r"].get("t") == "CHALLENGE":
                    issuer[e["r"]["f"]["chal"]] = h
                    keys[h] = "k1" if e["m"] == "wampcra" else e["key"]
            elif op == "authenticate":
                pr = e["proof"]
                c.update(ans=answer(r, e["ans"]["k"]), ticket=r.randrange(len(TICKETS)), of=issuer.get(pr["chal"], "none"))
                c.update(kind="proof", key={"k1": 0, "k2": 1}[pr["key"]], foul=r.randrange(1, 60), x=r.randrange(8))
                if pr["form"] == "bad":
                    c.update(kind=r.choice(["foul", "foul", "foul", "odd"]), of=h, own=True)
            elif op == "other":
                c["t"] = r.choice(OTHERS)
            elif op in ("garbage", "cgarbage"):
                c["g"] = r.randrange(5)
            elif op == "cnew":
                c.update(client(r, e["m"]))
            elif op == "chello":
                c.update(bad=e["bad"], roles=0 if e["usual"] else r.randrange(1, len(CLIENT_ROLES)))
            elif op == "cchallenge":
                c.update(bad=e["form"] == "bad", c=r.randrange(60))
            elif op == "cwelcome":
                c.update(sid=r.randrange(13), authid=r.randrange(len(NAMES) + 1), authrole=r.randrange(len(NAMES) + 1))
            elif op == "cabort":
                c.update(a=r.randrange(6), k=r.randrange(8), reason=r.randrange(6))
            elif op == "cother":
                c["t"] = r.choice(FOREIGN)
            events.append(c)
        scripts.append({"profile": profile(r), "events": events})
    return scripts


def client(r, m):
    return {
        "m": m,
        "realm": r.randrange(len(REALMS)),
        "authid": r.randrange(len(NAMES)),
        "extra": r.randrange(len(EXTRAS)),
        "key": r.randrange(6),
        "secret": r.randrange(len(SECRETS)),
        "ticket": r.randrange(len(TICKETS)),
        "default": r.random() < 0.3,
        "share": r.random() < 0.5,
    }


# ---------------------------------------------------------------- at random


def attack(r, length):
    """Many handshakes with one server, most of them foul."""
    p = profile(r)
    x = Execution(p)
    events = []
    phase, method = {}, {}
    many = r.choice([1, 2, 4, 8])
    foul = r.choice([0.1, 0.3, 0.6])
    approve = r.choice([0.5, 0.8, 1])
    favour = r.choice([None, None, *METHODS])
    n = 0

    def do(e):
        events.append(e)
        return x.step(e)

    for _ in range(length):
        live = [h for h in phase if phase[h] != "over" or r.random() < 0.05]
        if len(live) < many or r.random() < 0.02:
            n += 1
            h = str(n)
            do({"op": "new", "h": h, "auth": r.random() < 0.93, "roles": r.randrange(10), "share": r.random() < 0.5, "seed": r.choice([None, 1, 1, n])})
            phase[h] = "none"
            continue
        h = r.choice(live)
        wild = r.random() < foul
        op = "hello" if phase[h] == "none" else "authenticate"
        if wild and r.random() < 0.4:
            op = r.choice(["hello", "authenticate", "abort", "other", "garbage"])
        via = r.randrange(2)
        k = "approve" if r.random() < approve else r.choice(["reject", "reject", "wrong"])
        if op == "hello":
            m = favour if favour and r.random() < 0.7 else r.choice(METHODS + ["?"] * wild)
            e = {"op": op, "h": h, "methods": methods_for(r, m), "ans": answer(r, k), "key": r.randrange(6), **claims(r)}
            if wild and r.random() < 0.5:
                e["badkey"] = r.randrange(len(BADKEYS))
            elif wild and r.random() < 0.3:
                e["key"] = None
        elif op == "authenticate":
            e = {"op": op, "h": h, "kind": "proof", "own": not wild or r.random() < 0.5, "key": r.randrange(6), "of": h}
            e.update(ans=answer(r, k), ticket=r.randrange(len(TICKETS)), foul=r.randrange(60), x=r.randrange(8), via=via)
            if wild:
                e["kind"] = r.choice(["proof", "proof", "proof", "foul", "foul", "odd", "ticket"])
                if e["kind"] == "proof" and r.random() < 0.7:
                    e["of"] = r.choice(sorted(x.sent) or [h])
        elif op == "abort":
            e = {"op": op, "h": h, "via": via, "a": r.randrange(2)}
        elif op == "other":
            e = {"op": op, "h": h, "via": via, "t": r.choice(OTHERS)}
        else:
            e = {"op": op, "h": h, "g": r.randrange(5)}
        ev = do(e)
        kd = ev["r"].get("t", ev["r"]["k"])
        if kd == "CHALLENGE":
            phase[h], method[h] = "challenged", ev["m"]
        elif kd in ("WELCOME", "ABORT", "ok"):
            phase[h] = "over"
    return {"profile": p, "events": events}, x.trace


def join(r, length):
    """A client, and a router that says whatever it likes."""
    p = profile(r)
    x = Execution(p)
    events = []
    n = 0
    foul = r.choice([0.1, 0.3, 0.6])
    h = None
    for _ in range(length):
        via = r.randrange(2)
        if h is None or r.random() < 0.12:
            n += 1
            h = str(n)
            e = {"op": "cnew", "h": h, **client(r, r.choice(METHODS))}
            last = None
        else:
            op = {None: "chello", "HELLO": r.choice(["cchallenge", "cwelcome"]), "AUTHENTICATE": "cwelcome"}.get(last)
            if op is None or r.random() < foul:
                op = r.choice(["chello", "cchallenge", "cwelcome", "cabort", "cother", "cgarbage"])
            e = {"op": op, "h": h, "via": via}
            if op == "chello":
                e.update(bad=r.random() < foul / 3, roles=r.randrange(30))
            elif op == "cchallenge":
                e.update(bad=r.random() < foul / 2, c=r.randrange(60))
            elif op == "cwelcome":
                e.update(sid=r.randrange(13), authid=r.randrange(len(NAMES) + 1), authrole=r.randrange(len(NAMES) + 1))
            elif op == "cabort":
                e.update(a=r.randrange(6), k=r.randrange(8), reason=r.randrange(6))
            elif op == "cother":
                e["t"] = r.choice(FOREIGN)
            else:
                e["g"] = r.randrange(5)
        events.append(e)
        ev = x.step(e)
        if ev["op"] != "cnew":
            kd = ev["r"].get("t", ev["r"]["k"])
            last = last if kd == "refused" else kd
    return {"profile": p, "events": events}, x.trace


def likenesses(r, count):
    """Clients whose details differ in at most one field."""
    p = profile(r)
    realm, base = r.randrange(len(REALMS)), {"sid": r.randrange(13), "authid": r.randrange(len(NAMES) + 1), "authrole": r.randrange(len(NAMES) + 1)}
    events = []
    for n in range(count):
        h, own, c = str(n), dict(base), {**client(r, "anonymous"), "realm": realm}
        field = r.choice([*base, "realm", None])
        if field == "realm":
            c["realm"] = r.randrange(6)
        elif field:
            own[field] = r.randrange(13)
        events += [{"op": "cnew", "h": h, **c}, {"op": "chello", "h": h, "bad": False, "roles": 0}]
        events.append({"op": "cwelcome", "h": h, "via": r.randrange(2), **own})
        for k in range(n + 1):
            events.append({"op": "compare", "one": "c" + h, "two": f"c{k}"})
    s = {"profile": p, "events": events}
    return s, execute(s)


def pairs(r, count):
    """Clients and a server with a list of users, several exchanges at a time."""
    p = profile(r)
    users, used = [], set()
    for _ in range(r.choice([1, 3, 8, 16])):
        u = {"m": r.choice(METHODS), "realm": r.randrange(len(REALMS)), "authid": r.randrange(len(NAMES)), "granted": r.randrange(len(NAMES))}
        u.update(role=r.randrange(len(NAMES)), secret=r.randrange(len(SECRETS)), ticket=r.randrange(len(TICKETS)), key=r.randrange(6))
        if (u["m"], u["realm"], u["authid"]) not in used:
            used.add((u["m"], u["realm"], u["authid"]))
            users.append(u)
    p["users"] = users
    events, going = [], []
    for n in range(count):
        h = str(n + 1)
        u = r.choice(users)
        c = client(r, u["m"])
        c.update(realm=u["realm"], authid=u["authid"], key=u["key"], secret=u["secret"], ticket=u["ticket"], default=False)
        open_door = r.random() < 0.12
        right = r.random() < 0.7
        if u["m"] == "cryptosign" and c["extra"] == 3:
            c["extra"] = 0  # announces something else
        if not right:
            field = {"ticket": "ticket", "wampcra": "secret", "cryptosign": "key", "anonymous": "realm"}[u["m"]]
            size = {"ticket": len(TICKETS), "secret": len(SECRETS), "key": 6, "realm": 6}[field]
            c[field] = (c[field] + r.randrange(1, size)) % size
        if open_door:
            c.update(client(r, r.choice(METHODS)))
        if u["m"] == "anonymous" and not right and not open_door:
            right = (c["m"], c["realm"], c["authid"]) in used
        seq = [{"op": "cnew", "h": h, **c}]
        seq.append({"op": "new", "h": h, "auth": not open_door, "roles": r.randrange(10), "share": r.random() < 0.5, "seed": r.choice([None, 1])})
        seq.append({"op": "chello", "h": h, "bad": False, "roles": r.randrange(30)})
        for k in range(4):
            seq.append({"op": "relay", "to": "sc"[k % 2], "h": h, "hs": h, "via": r.randrange(2)})
        seq.append({"op": "compare", "one": "cs"[n % 2] + h, "two": "sc"[n % 2] + h})
        seq.append({"op": "pair", "h": h, "hs": h, "right": right or open_door})
        going.append(seq)
    window = r.choice([1, 2, 6])
    while going:
        i = r.randrange(min(window, len(going)))
        events.append(going[i].pop(0))
        if not going[i]:
            del going[i]
    s = {"profile": p, "events": events}
    return s, execute(s)


def flood(r, count):
    """Very many challenges of one method."""
    p = profile(r)
    m = r.choice(["wampcra", "cryptosign"])
    events = []
    for n in range(count):
        events.append({"op": "new", "h": str(n), "auth": True, "share": True, "seed": r.choice([None, 1])})
        e = {"op": "hello", "h": str(n), "methods": [m], "ans": answer(r, "approve"), "key": 0, **claims(r)}
        if n % 100 in (50, 51):
            e["fork"] = True
        events.append(e)
    s = {"profile": p, "events": events}
    return s, execute(s)


# ---------------------------------------------------------------- the check

CONFIGS = {
    "server": {},
    "client": dict(Srv="{}", Cli=tset(["1"]), CMethods=tset(METHODS)),
}
DEEP = {"server, deep": dict(Srv=tset(["1", "2", "3"])), "client, deep": dict(Srv="{}", Cli=tset(["1", "2"]), MaxHello="6")}


def check(c):
    configs = dict(CONFIGS, **(DEEP if c.thorough else {}))
    models = {}
    for name, consts in configs.items():
        cfg = only_property(config("MCHandshake", **consts), c.pid)
        emit = "" if "deep" in name else "\nACTION_CONSTRAINT Emit\n"
        models[name] = background(tlc, "MCHandshake", cfg + emit, workers=3, timeout=3000)
    names = ["INVALID_ARGUMENT", "INVALID_URI", "PROCEDURE_ALREADY_EXISTS", "AUTHENTICATION_FAILED", "CLOSE_REALM"]
    scripted.run(c, me, "uris", [{"profile": {"ser": 0, "honest": True, "users": []}, "events": [{"op": "named", "n": x}]} for x in names])
    if c.pid == "C19":
        crowds = [{"op": "crowd", "m": m, "n": 1500000 if c.thorough else 300000} for m in ("wampcra", "cryptosign")]
        scripted.run(c, me, "crowds", [{"profile": {"ser": 0, "honest": True, "users": []}, "events": [e]} for e in crowds])
    n = 6000 if c.thorough else 600
    for kind, gen, share, length in (
        ("attacks", attack, 1, 60),
        ("clients", join, 0.5, 60),
        ("exchanges", pairs, 0.5, 12),
        ("likenesses", likenesses, 0.05, 9),
        ("flood", flood, 0.01, 700),
    ):
        if c.violations and kind == "flood":
            continue
        scripts, traces = [], []
        for i in range(int(n * share)):
            r = scripted.rng(c, "handshake", kind, i)
            s, t = gen(r, r.randint(length // 3, length))
            scripts.append(s)
            traces.append(t)
        for k in range(0, len(scripts), 2000):
            scripted.run(c, me, f"handshake, {kind}", scripts[k : k + 2000], traces[k : k + 2000])
    for name, model in models.items():
        res = model()
        c.model(f"handshake, {name}", res)
        if "deep" in name or c.violations:
            continue
        walks, covered, total = tours(res.prints["E"], None if c.thorough else 20000, rng=scripted.rng(c, "tour", name))
        c.details.setdefault("tours", {})[name] = {"transitions_carried_out": covered, "of": total, "walks": len(walks)}
        scripted.run(c, me, f"handshake, {name} tour", concretize(name, walks, c))
    if c.thorough:
        for name, consts in CONFIGS.items():
            text = config("MCHandshake", **consts).replace("PROPERTIES ", "PROPERTIES VerdictRight ")
            c.model(f"verdicts, {name}", tlc("MCHandshake", text, timeout=3000))


me = sys.modules[__name__]
