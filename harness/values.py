"""Application values the drivers use, by index so that scripts stay readable."""

import copy

from wampproto.types import SessionDetails

ARGS = [
    None,
    [],
    [1],
    ["x", 2],
    [None],
    [True, 1, 1.5, "1"],
    [[1, [2, [3]]], {"a": {"b": []}}],
    ["\u00e4\u20ac\U0001f600", ""],
    [9007199254740992, -9007199254740991, 0],
    [b"\x00\xff"],
    list(range(40)),
    [{}],
    [[]],
    list(range(1500)),
    ["y" * 70000, 0],
]
KWARGS = [
    None,
    {},
    {"a": 1},
    {"progress": True, "receive_progress": False},
    {"k": [1, {"z": None}], "e": ""},
    {"\u00e9": "\u00e9", "": 0},
    {"args": [], "kwargs": {}},
    {"a": 1, "b": 2, "c": 3, "d": False},
    {f"k{i}": i for i in range(300)},
]
PAYLOADS = [
    None,
    (b"", 3, False),
    (b"abc", 1, False),
    (b"\x00\x01\xff", 2, True),
    (b"abc", 3, True),
    (b"raw", 0, True),
    (b"", 2, True),
    (b"", 0, False),
    (b"\xff" * 70000, 2, True),
]
DETAILS = [{}, {"x": 1}, {"trace": ["a", {"b": None}]}, {"progress": True}]
URIS = ["wamp.error.runtime_error", "com.x.e", "wamp.error.no_such_procedure", "wamp.error.canceled", "\u00e4.b", "com." + "e" * 1100]
PROCS = [
    "com.example.add",
    "com.example.add2",
    "com.example",
    "com.example.Add",
    "com.example.add.",
    "wamp.session.count",
    "p",
    "\u00fc.proc",
    "com..add",
    "*",
    " com.example.add",
    "x" * 300,
    "",
    "com.example.add ",
    "COM.EXAMPLE.ADD",
    "com.example.add#1",
    "e\u0301.p",
    "\u00e9.p",
    "com.example.*",
    "com.example.",
    "x" * 299 + "y",
    "x" * 1100,
    "x" * 1099 + "y",
]
# names that differ in case, in blanks, in dots, in how they are composed, only at the end
CONFUSABLE = [0, 1, 2, 3, 4, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22]
# options that other routers give a meaning and this one does not; "@" stands for the sessions of the script
PUBLISH_OPTIONS = [
    {},
    {"x_any": [1]},
    {"exclude_me": True},
    {"exclude_me": False},
    {"exclude": "@"},
    {"eligible": []},
    {"eligible": "@1"},
    {"disclose_me": True, "retain": True},
    {"exclude_authid": ["u1"], "eligible_authrole": ["x"]},
    {"progress": True, "ack": True},
]
SUBSCRIBE_OPTIONS = [{}, {"x_any": 1}, {"match": "prefix"}, {"match": "wildcard"}, {"get_retained": True}, {"match": "exact"}]
REGISTER_OPTIONS = [
    {},
    {"x_any": 1},
    {"match": "prefix"},
    {"match": "wildcard"},
    {"invoke": "roundrobin"},
    {"invoke": "first"},
    {"invoke": "single"},
    {"force_reregister": True},
]
CALL_OPTIONS = [{}, {"timeout": 5}, {"x": [1]}, {"timeout": 0, "disclose_me": True}, {"runmode": "all"}, {"caller": 1, "procedure": "p"}]
YIELD_OPTIONS = [{}, {"x": 1}, {"receive_progress": True}, {"callee": 2, "acknowledge": True}]
IDS = [1, 2, 3, 7, 255, 256, 65536, 2**31 - 1, 2**31, 2**32, 2**32 + 1, 2**53 - 1, 2**53]


def name(i):
    """The i-th of the names of procedures and topics, of which there is no end."""
    return anew(PROCS[i] if i < len(PROCS) else f"com.example.n{i}")


def anew(x):
    """The same id or text as another object, as if it had just been read."""
    if type(x) is int:
        return int(str(x))
    return x.encode("utf-8", "surrogatepass").decode("utf-8", "surrogatepass") if type(x) is str else x


def options(table, i, sids=()):
    o = get(table, i)
    for k, v in o.items():
        if isinstance(v, str) and v.startswith("@"):
            o[k] = list(sids)[: 1 if v == "@1" else None]
    return o


def get(table, i):
    return copy.deepcopy(table[i % len(table)])


def person(who, sid, count):
    """The session details of a session: of one user, of several, of one after the other."""
    authid = [f"u{sid}", "alice", ["alice", "bob"][sid % 2], ["alice", "", "bob"][count % 3], "\u00e4lice"][who % 5]
    role = ["role", "admin", "anonymous", ["a", "b"][(sid + count) % 2]][who // 5 % 4]
    return SessionDetails(sid, "realm1", authid, role)


def alike(r):
    """Ids that are easily confused when written one after another, added, combined bit by bit or cut to fewer bits."""
    if r.random() < 0.5:
        k, n = r.choice([8, 16, 24, 31, 32, 48]), r.choice([1, 2, 7])
        return [n] + [n + (m << k) for m in r.choice([(1, 2, 3), (3, 1, 2), (1, 3, 31)])]
    d = r.choice([1, 1, 2, 7])
    return [d, 11 * d, 111 * d, r.choice([1111, 12, 10]) * d]
