From e00caff5390666aab917a95d4be7014dbd17b9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:03 +0000
Subject: [PATCH 01/27] fix: accept an invocation ERROR only from the callee
 and forget the call it ends

---
 wampproto/dealer.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/wampproto/dealer.py b/wampproto/dealer.py
index 4724bb7..97f9b73 100644
--- a/wampproto/dealer.py
+++ b/wampproto/dealer.py
@@ -64,6 +64,12 @@ class Dealer:
         self.pending_calls[invocation_id] = PendingInvocation(call_id, caller_id, callee_id, progress, receive_progress)
         self.call_to_invocation_id[(caller_id, call_id)] = invocation_id
 
+    def _remove_call(self, invocation_id: int) -> None:
+        pending = self.pending_calls.pop(invocation_id)
+        call = (pending.caller_id, pending.request_id)
+        if self.call_to_invocation_id.get(call) == invocation_id:
+            del self.call_to_invocation_id[call]
+
     def receive_message(self, session_id: int, message: messages.Message) -> types.MessageWithRecipient:
         if isinstance(message, messages.Call):
             registration = self.registrations_by_procedure.get(message.procedure)
@@ -180,10 +186,15 @@ class Dealer:
             if message.message_type != messages.Invocation.TYPE:
                 raise ValueError("dealer: only expected to receive error in response to invocation")
 
-            pending = self.pending_calls.pop(message.request_id, None)
+            pending = self.pending_calls.get(message.request_id)
             if pending is None:
                 raise ValueError(f"dealer: no pending invocation for {message.request_id}")
 
+            if session_id != pending.callee_id:
+                raise ValueError(f"received unexpected error from session={session_id}")
+
+            self._remove_call(message.request_id)
+
             err_msg = messages.Error(
                 messages.ErrorFields(
                     messages.Call.TYPE, pending.request_id, message.uri, message.args, message.kwargs, message.details
-- 
2.43.0


From 0deb9ec67a496ea8bb0cdfef4b6a4f7c93708d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:03 +0000
Subject: [PATCH 02/27] fix: do not lose a RESULT when two calls of a session
 share a request id

---
 wampproto/dealer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/wampproto/dealer.py b/wampproto/dealer.py
index 97f9b73..5d547dc 100644
--- a/wampproto/dealer.py
+++ b/wampproto/dealer.py
@@ -129,8 +129,7 @@ class Dealer:
             if receive_progress and invocation.receive_progress:
                 details.update({OPTION_PROGRESS: receive_progress})
             else:
-                del self.pending_calls[message.request_id]
-                del self.call_to_invocation_id[(invocation.caller_id, invocation.request_id)]
+                self._remove_call(message.request_id)
 
             result = messages.Result(
                 messages.ResultFields(
-- 
2.43.0


From ce6d37deb697d1bcf395759fc9613ee93e9869d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:03 +0000
Subject: [PATCH 03/27] fix: drop the pending calls of a session that leaves
 the dealer

---
 wampproto/dealer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wampproto/dealer.py b/wampproto/dealer.py
index 5d547dc..5919bfb 100644
--- a/wampproto/dealer.py
+++ b/wampproto/dealer.py
@@ -53,6 +53,10 @@ class Dealer:
             if len(registration.registrants) == 0:
                 del self.registrations_by_procedure[registration.procedure]
 
+        for invocation_id, pending in list(self.pending_calls.items()):
+            if sid in (pending.caller_id, pending.callee_id):
+                self._remove_call(invocation_id)
+
         del self.sessions[sid]
 
     def has_registration(self, procedure: str) -> bool:
-- 
2.43.0


From eb7aeb4596096e682348765b1a2e56cd040c4151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:03 +0000
Subject: [PATCH 04/27] fix: refuse a CALL from a session the dealer does not
 know

---
 wampproto/dealer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wampproto/dealer.py b/wampproto/dealer.py
index 5919bfb..f41a7e5 100644
--- a/wampproto/dealer.py
+++ b/wampproto/dealer.py
@@ -76,6 +76,9 @@ class Dealer:
 
     def receive_message(self, session_id: int, message: messages.Message) -> types.MessageWithRecipient:
         if isinstance(message, messages.Call):
+            if session_id not in self.registrations_by_session:
+                raise ValueError(f"cannot call, session {session_id} doesn't exist")
+
             registration = self.registrations_by_procedure.get(message.procedure)
             if registration is None:
                 err = messages.Error(
-- 
2.43.0


From 897301673c7b171a948b46a483d06818032fb1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:36 +0000
Subject: [PATCH 05/27] fix: keep all parts of a progressive call on one
 invocation

The last part got a new invocation id, and a part sent after the procedure
moved to another callee was delivered there under the old id.
---
 wampproto/dealer.py | 45 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/wampproto/dealer.py b/wampproto/dealer.py
index f41a7e5..a7bd7b6 100644
--- a/wampproto/dealer.py
+++ b/wampproto/dealer.py
@@ -11,6 +11,7 @@ class PendingInvocation:
     request_id: int
     caller_id: int
     callee_id: int
+    registration_id: int
     progress: bool
     receive_progress: bool
 
@@ -63,9 +64,18 @@ class Dealer:
         return procedure in self.registrations_by_procedure
 
     def _add_call(
-        self, call_id: int, invocation_id: int, caller_id: int, callee_id: int, progress: bool, receive_progress: bool
+        self,
+        call_id: int,
+        invocation_id: int,
+        caller_id: int,
+        callee_id: int,
+        registration_id: int,
+        progress: bool,
+        receive_progress: bool,
     ) -> None:
-        self.pending_calls[invocation_id] = PendingInvocation(call_id, caller_id, callee_id, progress, receive_progress)
+        self.pending_calls[invocation_id] = PendingInvocation(
+            call_id, caller_id, callee_id, registration_id, progress, receive_progress
+        )
         self.call_to_invocation_id[(caller_id, call_id)] = invocation_id
 
     def _remove_call(self, invocation_id: int) -> None:
@@ -80,6 +90,18 @@ class Dealer:
                 raise ValueError(f"cannot call, session {session_id} doesn't exist")
 
             registration = self.registrations_by_procedure.get(message.procedure)
+
+            # a progressive call stays open until its part without the progress flag
+            invocation_id = self.call_to_invocation_id.get((session_id, message.request_id))
+            if invocation_id is not None and not self.pending_calls[invocation_id].progress:
+                invocation_id = None
+
+            if invocation_id is not None:
+                if registration is None or registration.id != self.pending_calls[invocation_id].registration_id:
+                    # the rest of the call cannot reach its callee anymore
+                    self._remove_call(invocation_id)
+                    invocation_id = None
+
             if registration is None:
                 err = messages.Error(
                     messages.ErrorFields(message.TYPE, message.request_id, "wamp.error.no_such_procedure")
@@ -93,14 +115,19 @@ class Dealer:
 
             receive_progress = message.options.get(OPTION_RECEIVE_PROGRESS, False)
             progress = message.options.get(OPTION_PROGRESS, False)
-            if progress:
-                invocation_id = self.call_to_invocation_id.get((session_id, message.request_id))
-                if invocation_id is None:
-                    invocation_id = self.idgen.next()
-                    self._add_call(message.request_id, invocation_id, session_id, callee_id, progress, receive_progress)
-            else:
+            if invocation_id is None:
                 invocation_id = self.idgen.next()
-                self._add_call(message.request_id, invocation_id, session_id, callee_id, progress, receive_progress)
+                self._add_call(
+                    message.request_id,
+                    invocation_id,
+                    session_id,
+                    callee_id,
+                    registration.id,
+                    progress,
+                    receive_progress,
+                )
+            else:
+                self.pending_calls[invocation_id].progress = progress
 
             details = {}
             if receive_progress:
-- 
2.43.0


From a19dd719fc71ee91d85150a22b6b1de19bd777ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:36 +0000
Subject: [PATCH 06/27] fix: forward the opaque payload of a YIELD, and its
 binary flag, like that of a CALL

---
 wampproto/dealer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/wampproto/dealer.py b/wampproto/dealer.py
index a7bd7b6..90fc842 100644
--- a/wampproto/dealer.py
+++ b/wampproto/dealer.py
@@ -145,6 +145,7 @@ class Dealer:
                     details=details,
                     payload=message.payload,
                     serializer=message.payload_serializer,
+                    binary=message.payload_is_binary(),
                 )
             )
 
@@ -167,7 +168,13 @@ class Dealer:
 
             result = messages.Result(
                 messages.ResultFields(
-                    request_id=invocation.request_id, args=message.args, kwargs=message.kwargs, details=details
+                    request_id=invocation.request_id,
+                    args=message.args,
+                    kwargs=message.kwargs,
+                    details=details,
+                    payload=message.payload,
+                    serializer=message.payload_serializer,
+                    binary=message.payload_is_binary(),
                 )
             )
             return types.MessageWithRecipient(result, invocation.caller_id)
-- 
2.43.0


From 6c600dfdb513cb31caf0026bd807a10f9cb013c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:36 +0000
Subject: [PATCH 07/27] fix: keep a request open over progressive results and
 yields

---
 wampproto/session.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/wampproto/session.py b/wampproto/session.py
index 3031ed7..2f2453a 100644
--- a/wampproto/session.py
+++ b/wampproto/session.py
@@ -28,7 +28,8 @@ class WAMPSession:
             if msg.request_id not in self._invocation_requests:
                 raise ValueError("cannot yield for unknown invocation request")
 
-            self._invocation_requests.remove(msg.request_id)
+            if not msg.options.get("progress", False):
+                self._invocation_requests.remove(msg.request_id)
         elif isinstance(msg, messages.Publish):
             if msg.options.get("acknowledge", False):
                 self._publish_requests.add(msg.request_id)
@@ -54,10 +55,11 @@ class WAMPSession:
 
     def receive_message(self, msg: messages.Message) -> messages.Message:
         if isinstance(msg, messages.Result):
-            try:
-                self._call_requests.remove(msg.request_id)
-            except KeyError:
+            if msg.request_id not in self._call_requests:
                 raise ValueError("received RESULT for invalid request_id")
+
+            if not msg.details.get("progress", False):
+                self._call_requests.remove(msg.request_id)
         elif isinstance(msg, messages.Registered):
             try:
                 self._register_requests.remove(msg.request_id)
-- 
2.43.0


From 3f34e488cae9e99954d766ad02d1449a3fd0513c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:36 +0000
Subject: [PATCH 08/27] fix: leave the session unchanged when a message to send
 cannot be serialized

---
 wampproto/session.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wampproto/session.py b/wampproto/session.py
index 2f2453a..cc9b001 100644
--- a/wampproto/session.py
+++ b/wampproto/session.py
@@ -18,6 +18,9 @@ class WAMPSession:
         self._unsubscribe_requests: dict[int, int] = {}
 
     def send_message(self, msg: messages.Message) -> bytes:
+        # a message that cannot be serialized is not sent, so it must not change the session
+        data = self._serializer.serialize(msg)
+
         if isinstance(msg, messages.Call):
             self._call_requests.add(msg.request_id)
         elif isinstance(msg, messages.Register):
@@ -47,7 +50,7 @@ class WAMPSession:
         else:
             raise ValueError(f"unknown message type {type(msg)}")
 
-        return self._serializer.serialize(msg)
+        return data
 
     def receive(self, data: bytes) -> messages.Message:
         msg = self._serializer.deserialize(data)
-- 
2.43.0


From eefacc8dca1cae80eaa417a4f976703093f4bf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:18 +0000
Subject: [PATCH 09/27] fix: end the handshake when the authenticator rejects
 the client

The ABORT left the state as it was, so the client could send another HELLO,
or another ticket, and still be welcomed.
---
 wampproto/acceptor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wampproto/acceptor.py b/wampproto/acceptor.py
index b948d29..33492c6 100644
--- a/wampproto/acceptor.py
+++ b/wampproto/acceptor.py
@@ -83,6 +83,7 @@ class Acceptor:
                     try:
                         response = self._authenticator.authenticate(request)
                     except Exception as e:
+                        self._state = Acceptor.STATE_ABORTED
                         return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=list(e.args)))
 
                     self._state = Acceptor.STATE_WELCOME_SENT
@@ -106,6 +107,7 @@ class Acceptor:
                     try:
                         self._response = self._authenticator.authenticate(request)
                     except Exception as e:
+                        self._state = Acceptor.STATE_ABORTED
                         return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=list(e.args)))
 
                     self._public_key = public_key
@@ -119,6 +121,7 @@ class Acceptor:
                     try:
                         response = self._authenticator.authenticate(request)
                     except Exception as e:
+                        self._state = Acceptor.STATE_ABORTED
                         return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=list(e.args)))
 
                     if not isinstance(response, auth.WAMPCRAResponse):
@@ -187,6 +190,7 @@ class Acceptor:
                     try:
                         response = self._authenticator.authenticate(request)
                     except Exception as e:
+                        self._state = Acceptor.STATE_ABORTED
                         return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=list(e.args)))
 
                     self._state = Acceptor.STATE_WELCOME_SENT
-- 
2.43.0


From cbe34886c3c4c9cca35c9dfec7beb71d07f23609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:18 +0000
Subject: [PATCH 10/27] fix: handle ABORT and unexpected messages in
 Acceptor.receive

Both failed with an AttributeError while serializing None.
---
 wampproto/acceptor.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wampproto/acceptor.py b/wampproto/acceptor.py
index 33492c6..8e5341f 100644
--- a/wampproto/acceptor.py
+++ b/wampproto/acceptor.py
@@ -47,6 +47,9 @@ class Acceptor:
     def receive(self, data: bytes) -> (bytes, bool):
         received_message = self._serializer.deserialize(data)
         to_send = self.receive_message(received_message)
+        if to_send is None:
+            # the client aborted, there is nothing to send
+            return None, True
 
         return self._serializer.serialize(to_send), isinstance(to_send, messages.Welcome) or isinstance(
             to_send, messages.Abort
@@ -206,6 +209,8 @@ class Acceptor:
                     return welcome
         elif isinstance(msg, messages.Abort):
             self._state = Acceptor.STATE_ABORTED
+        else:
+            raise ValueError("received unknown message")
 
     def is_aborted(self) -> bool:
         return self._state == Acceptor.STATE_ABORTED
-- 
2.43.0


From 15ff5f0cde4130ed634575f5369c945419da21bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:18 +0000
Subject: [PATCH 11/27] fix: accept a cryptosign signature only over the
 challenge of this handshake

Any message signed with the client's key was accepted, so an AUTHENTICATE
recorded in one handshake could be replayed in another.
---
 wampproto/acceptor.py        | 4 +++-
 wampproto/auth/cryptosign.py | 6 +++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/wampproto/acceptor.py b/wampproto/acceptor.py
index 8e5341f..0ac6d35 100644
--- a/wampproto/acceptor.py
+++ b/wampproto/acceptor.py
@@ -117,6 +117,7 @@ class Acceptor:
 
                     challenge = auth.generate_cryptosign_challenge()
                     self._state = Acceptor.STATE_CHALLENGE_SENT
+                    self._challenge = challenge
 
                     return messages.Challenge(messages.ChallengeFields(method, {"challenge": challenge}))
                 case Acceptor.WAMPCRA:
@@ -151,7 +152,8 @@ class Acceptor:
 
             match self._auth_method:
                 case Acceptor.CRYPTOSIGN:
-                    if not auth.verify_cryptosign_signature(msg.signature, binascii.unhexlify(self._public_key)):
+                    public_key = binascii.unhexlify(self._public_key)
+                    if not auth.verify_cryptosign_signature(msg.signature, public_key, self._challenge):
                         self._state = Acceptor.STATE_ABORTED
                         return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED))
 
diff --git a/wampproto/auth/cryptosign.py b/wampproto/auth/cryptosign.py
index 244432b..11048c4 100644
--- a/wampproto/auth/cryptosign.py
+++ b/wampproto/auth/cryptosign.py
@@ -40,14 +40,14 @@ def sign_cryptosign_challenge(challenge: str, private_key: nacl.signing.SigningK
     return private_key.sign(raw_challenge, HexEncoder).signature.decode() + challenge
 
 
-def verify_cryptosign_signature(signature: str, public_key: bytes) -> bool:
+def verify_cryptosign_signature(signature: str, public_key: bytes, challenge: str | None = None) -> bool:
     try:
         verifying_key = nacl.signing.VerifyKey(public_key)
-        verifying_key.verify(binascii.unhexlify(signature))
+        signed = verifying_key.verify(binascii.unhexlify(signature))
     except BadSignatureError:
         return False
 
-    return True
+    return challenge is None or signed == binascii.unhexlify(challenge)
 
 
 def generate_cryptosign_keypair() -> tuple[str, str]:
-- 
2.43.0


From abccb15039312c490a81811e8d8d1a25b9e6ea69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:18 +0000
Subject: [PATCH 12/27] fix: treat a malformed signature as a failed
 authentication

A signature that is not hexadecimal or base64 raised from the acceptor and left
the challenge open; a cryptosign HELLO without authextra was an AttributeError.
---
 wampproto/acceptor.py        | 2 +-
 wampproto/auth/cryptosign.py | 3 ++-
 wampproto/auth/wampcra.py    | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/wampproto/acceptor.py b/wampproto/acceptor.py
index 0ac6d35..a7a73d0 100644
--- a/wampproto/acceptor.py
+++ b/wampproto/acceptor.py
@@ -102,7 +102,7 @@ class Acceptor:
 
                     return welcome
                 case Acceptor.CRYPTOSIGN:
-                    public_key = msg.authextra.get("pubkey")
+                    public_key = msg.authextra.get("pubkey") if msg.authextra is not None else None
                     if public_key is None:
                         raise ValueError("authextra must contain pubkey for cryptosign")
 
diff --git a/wampproto/auth/cryptosign.py b/wampproto/auth/cryptosign.py
index 11048c4..e6b52d0 100644
--- a/wampproto/auth/cryptosign.py
+++ b/wampproto/auth/cryptosign.py
@@ -44,7 +44,8 @@ def verify_cryptosign_signature(signature: str, public_key: bytes, challenge: st
     try:
         verifying_key = nacl.signing.VerifyKey(public_key)
         signed = verifying_key.verify(binascii.unhexlify(signature))
-    except BadSignatureError:
+    except (BadSignatureError, ValueError):
+        # a signature that is not hexadecimal is a ValueError
         return False
 
     return challenge is None or signed == binascii.unhexlify(challenge)
diff --git a/wampproto/auth/wampcra.py b/wampproto/auth/wampcra.py
index 05a0ac5..8ffe322 100644
--- a/wampproto/auth/wampcra.py
+++ b/wampproto/auth/wampcra.py
@@ -76,7 +76,7 @@ def verify_wampcra_signature(signature: str, challenge: str, key: bytes) -> bool
     try:
         sig_bytes = base64.b64decode(signature)
         local_signature = sign_wampcra_challenge(challenge, key)
-    except binascii.Error:
+    except ValueError:
         return False
 
     return hmac.compare_digest(sig_bytes, base64.b64decode(local_signature))
-- 
2.43.0


From 837fb6c369f0bbc11a3a9c3743bd8c43b7e30411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:18 +0000
Subject: [PATCH 13/27] fix: draw challenges from the operating system's random
 source

The shared pseudo-random generator repeats them when an application seeds it,
which makes recorded signatures valid again.
---
 wampproto/auth/cryptosign.py | 4 ++--
 wampproto/auth/wampcra.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/wampproto/auth/cryptosign.py b/wampproto/auth/cryptosign.py
index e6b52d0..e339aae 100644
--- a/wampproto/auth/cryptosign.py
+++ b/wampproto/auth/cryptosign.py
@@ -1,5 +1,5 @@
 import binascii
-import random
+import secrets
 
 import nacl.signing
 from nacl.encoding import HexEncoder
@@ -31,7 +31,7 @@ class CryptoSignAuthenticator(auth.IClientAuthenticator):
 
 
 def generate_cryptosign_challenge() -> str:
-    raw_bytes = random.randbytes(32)
+    raw_bytes = secrets.token_bytes(32)
     return binascii.hexlify(raw_bytes).decode("ascii")
 
 
diff --git a/wampproto/auth/wampcra.py b/wampproto/auth/wampcra.py
index 8ffe322..9524ec1 100644
--- a/wampproto/auth/wampcra.py
+++ b/wampproto/auth/wampcra.py
@@ -4,7 +4,7 @@ import datetime
 import hashlib
 import hmac
 import json
-import random
+import secrets
 
 from wampproto import messages, auth
 from wampproto.messages.authenticate import AuthenticateFields
@@ -52,7 +52,7 @@ def utcnow() -> str:
 
 
 def generate_wampcra_challenge(session_id: int, authid: str, authrole: str, provider: str) -> str:
-    nonce = binascii.hexlify(random.randbytes(16)).decode()
+    nonce = binascii.hexlify(secrets.token_bytes(16)).decode()
 
     data = {
         "nonce": nonce,
-- 
2.43.0


From d643f1781b01e01e8a21f8f049b1a12af785312d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:18 +0000
Subject: [PATCH 14/27] fix: do not join on a WELCOME that follows an ABORT

---
 wampproto/joiner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wampproto/joiner.py b/wampproto/joiner.py
index c84a347..a10ca28 100644
--- a/wampproto/joiner.py
+++ b/wampproto/joiner.py
@@ -18,6 +18,7 @@ class Joiner:
     STATE_HELLO_SENT = 1
     STATE_AUTHENTICATE_SENT = 2
     STATE_JOINED = 3
+    STATE_ABORTED = 4
 
     def __init__(
         self,
@@ -71,6 +72,7 @@ class Joiner:
             self._state = Joiner.STATE_AUTHENTICATE_SENT
             return authenticate
         elif isinstance(msg, messages.Abort):
+            self._state = Joiner.STATE_ABORTED
             raise ApplicationError(msg.reason, msg.args, msg.kwargs)
         else:
             raise ValueError("received unknown message")
-- 
2.43.0


From 7853c122e784a82b2386b7db11ed6ac3dd736038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:18 +0000
Subject: [PATCH 15/27] fix: include the arguments of an ABORT when it is
 marshalled

---
 wampproto/messages/abort.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/wampproto/messages/abort.py b/wampproto/messages/abort.py
index 1c27e59..0c511d2 100644
--- a/wampproto/messages/abort.py
+++ b/wampproto/messages/abort.py
@@ -92,4 +92,14 @@ class Abort(Message):
         return Abort(AbortFields(f.details, f.reason, f.args, f.kwargs))
 
     def marshal(self) -> list[Any]:
-        return [self.TYPE, self.details, self.reason]
+        message = [self.TYPE, self.details, self.reason]
+        if self.args is not None:
+            message.append(self.args)
+
+        if self.kwargs is not None:
+            if self.args is None:
+                message.append([])
+
+            message.append(self.kwargs)
+
+        return message
-- 
2.43.0


From 1124c05798ec8ff4b633cb8f2a41e77f07e6e836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:18 +0000
Subject: [PATCH 16/27] fix: do not take a boolean for a message type or an id

Also raise a ValueError, not an IndexError, for an empty message.
---
 wampproto/messages/util.py          | 2 +-
 wampproto/serializers/serializer.py | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/wampproto/messages/util.py b/wampproto/messages/util.py
index 719d0db..63dc010 100644
--- a/wampproto/messages/util.py
+++ b/wampproto/messages/util.py
@@ -133,7 +133,7 @@ class Fields:
 
 
 def validate_int_or_raise(value: int, index: int, message: str):
-    if not isinstance(value, int):
+    if not isinstance(value, int) or isinstance(value, bool):
         return exceptions.InvalidDataTypeError.format(
             message=message, index=index, expected_type=INT, actual_type=type(value).__name__
         )
diff --git a/wampproto/serializers/serializer.py b/wampproto/serializers/serializer.py
index 2faba44..cf42282 100644
--- a/wampproto/serializers/serializer.py
+++ b/wampproto/serializers/serializer.py
@@ -18,8 +18,11 @@ def to_message(message: list) -> messages.Message:
     if not isinstance(message, list):
         raise TypeError(f"invalid type '{type(message)}', expected a list")
 
+    if len(message) == 0:
+        raise ValueError("invalid message, expected a message type")
+
     message_type = message[0]
-    if not isinstance(message_type, int):
+    if not isinstance(message_type, int) or isinstance(message_type, bool):
         raise TypeError(f"invalid message type '{type(message[0])}', expected an integer")
 
     match message_type:
-- 
2.43.0


From 2212f5a5e5e85bee14f5d832fd6f41dec1d00b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:18 +0000
Subject: [PATCH 17/27] fix: refuse a payload that is not a list

---
 wampproto/serializers/payload.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wampproto/serializers/payload.py b/wampproto/serializers/payload.py
index dc0bbf8..8633f52 100644
--- a/wampproto/serializers/payload.py
+++ b/wampproto/serializers/payload.py
@@ -8,6 +8,9 @@ from wampproto import serializers
 
 
 def decode(arr: list) -> Tuple[list[Any] | None, dict[Any, Any] | None]:
+    if not isinstance(arr, list):
+        raise TypeError("payload is not list")
+
     if len(arr) == 0:
         return None, None
 
-- 
2.43.0


From 99bd31dc90b2afabd73a56da3ed1d3b1a0dc78a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:18 +0000
Subject: [PATCH 18/27] fix: check both reserved bytes of a rawsocket handshake

---
 wampproto/transports/rawsocket.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wampproto/transports/rawsocket.py b/wampproto/transports/rawsocket.py
index bc073df..3bfa35b 100644
--- a/wampproto/transports/rawsocket.py
+++ b/wampproto/transports/rawsocket.py
@@ -87,7 +87,7 @@ def receive_handshake(data: bytes) -> Handshake:
     if data[0] != MAGIC:
         raise ValueError("Expected MAGIC, got %d" % data[0])
 
-    if data[2] != 0x00 and data[3] != 0x00:
+    if data[2] != 0x00 or data[3] != 0x00:
         raise ValueError(f"Expected 0x00 for third and fourth byte of handshake response, got {data[2]} and {data[3]}")
 
     return Handshake(data[1] & 0x0F, 1 << ((data[1] >> 4) + 9))
-- 
2.43.0


From a7a113937b73ae4ebdeb657f459cbfbc367f964e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:18 +0000
Subject: [PATCH 19/27] fix: refuse a message length that does not fit in a
 rawsocket header

The upper bits were dropped, so the peer lost track of the message borders.
---
 wampproto/transports/rawsocket.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wampproto/transports/rawsocket.py b/wampproto/transports/rawsocket.py
index 3bfa35b..24004fe 100644
--- a/wampproto/transports/rawsocket.py
+++ b/wampproto/transports/rawsocket.py
@@ -51,6 +51,9 @@ class MessageHeader:
         return self._length
 
     def to_bytes(self) -> bytes:
+        if not 0 <= self._length < PROTOCOL_MAX_MSG_SIZE:
+            raise ValueError(f"Message length {self._length} does not fit in a message header")
+
         data = int_to_bytes(self._length)
         return bytes(
             [
-- 
2.43.0


From 531af774773d5ba0b46e2c80c5489fc1d313b275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:18 +0000
Subject: [PATCH 20/27] fix: endless recursion in WAMPCRASaltedResponse.salt

---
 wampproto/auth/auth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wampproto/auth/auth.py b/wampproto/auth/auth.py
index 1b61f01..721c4b1 100644
--- a/wampproto/auth/auth.py
+++ b/wampproto/auth/auth.py
@@ -116,7 +116,7 @@ class WAMPCRASaltedResponse(WAMPCRAResponse):
 
     @property
     def salt(self) -> str:
-        return self.salt
+        return self._salt
 
     @property
     def iterations(self) -> int:
-- 
2.43.0


From 6ff9031f990f644eeb07996d6b8ad42db654bab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:35 +0000
Subject: [PATCH 21/27] fix: send the ABORT of a failed authentication whatever
 the authenticator raised

The arguments of its exception are part of the ABORT now; those a serializer
cannot encode would have kept it from being sent.
---
 wampproto/acceptor.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/wampproto/acceptor.py b/wampproto/acceptor.py
index a7a73d0..2b2a6ee 100644
--- a/wampproto/acceptor.py
+++ b/wampproto/acceptor.py
@@ -87,7 +87,9 @@ class Acceptor:
                         response = self._authenticator.authenticate(request)
                     except Exception as e:
                         self._state = Acceptor.STATE_ABORTED
-                        return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=list(e.args)))
+                        return messages.Abort(
+                            messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=[str(arg) for arg in e.args])
+                        )
 
                     self._state = Acceptor.STATE_WELCOME_SENT
 
@@ -111,7 +113,9 @@ class Acceptor:
                         self._response = self._authenticator.authenticate(request)
                     except Exception as e:
                         self._state = Acceptor.STATE_ABORTED
-                        return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=list(e.args)))
+                        return messages.Abort(
+                            messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=[str(arg) for arg in e.args])
+                        )
 
                     self._public_key = public_key
 
@@ -126,7 +130,9 @@ class Acceptor:
                         response = self._authenticator.authenticate(request)
                     except Exception as e:
                         self._state = Acceptor.STATE_ABORTED
-                        return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=list(e.args)))
+                        return messages.Abort(
+                            messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=[str(arg) for arg in e.args])
+                        )
 
                     if not isinstance(response, auth.WAMPCRAResponse):
                         raise ValueError("invalid response type for WAMPCRA")
@@ -196,7 +202,9 @@ class Acceptor:
                         response = self._authenticator.authenticate(request)
                     except Exception as e:
                         self._state = Acceptor.STATE_ABORTED
-                        return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=list(e.args)))
+                        return messages.Abort(
+                            messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=[str(arg) for arg in e.args])
+                        )
 
                     self._state = Acceptor.STATE_WELCOME_SENT
                     welcome = messages.Welcome(
-- 
2.43.0


From 4e93d8ce4463ce5ec3f4c51174a205a64bc52c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:12 +0000
Subject: [PATCH 22/27] fix: keep the request when its UNREGISTERED or
 UNSUBSCRIBED is refused

---
 wampproto/session.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/wampproto/session.py b/wampproto/session.py
index cc9b001..5953d13 100644
--- a/wampproto/session.py
+++ b/wampproto/session.py
@@ -72,7 +72,7 @@ class WAMPSession:
             self._registrations.add(msg.registration_id)
         elif isinstance(msg, messages.Unregistered):
             try:
-                registration_id = self._unregister_requests.pop(msg.request_id)
+                registration_id = self._unregister_requests[msg.request_id]
             except KeyError:
                 raise ValueError("received UNREGISTERED for invalid request_id")
 
@@ -80,6 +80,8 @@ class WAMPSession:
                 self._registrations.remove(registration_id)
             except KeyError:
                 raise ValueError("received UNREGISTERED for invalid registration_id")
+
+            del self._unregister_requests[msg.request_id]
         elif isinstance(msg, messages.Invocation):
             if msg.registration_id not in self._registrations:
                 raise ValueError("received INVOCATION for invalid registration_id")
@@ -99,7 +101,7 @@ class WAMPSession:
             self._subscriptions.add(msg.subscription_id)
         elif isinstance(msg, messages.Unsubscribed):
             try:
-                subscription_id = self._unsubscribe_requests.pop(msg.request_id)
+                subscription_id = self._unsubscribe_requests[msg.request_id]
             except KeyError:
                 raise ValueError("received UNSUBSCRIBED for invalid request_id")
 
@@ -107,6 +109,8 @@ class WAMPSession:
                 self._subscriptions.remove(subscription_id)
             except KeyError:
                 raise ValueError("received UNSUBSCRIBED for invalid subscription_id")
+
+            del self._unsubscribe_requests[msg.request_id]
         elif isinstance(msg, messages.Event):
             if msg.subscription_id not in self._subscriptions:
                 raise ValueError("received EVENT for invalid subscription_id")
-- 
2.43.0


From e819ffcac06b6628107568189edb319ea21e4649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:26 +0000
Subject: [PATCH 23/27] fix: do not wait for a WELCOME when the HELLO could not
 be serialized

---
 wampproto/joiner.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wampproto/joiner.py b/wampproto/joiner.py
index a10ca28..21d341f 100644
--- a/wampproto/joiner.py
+++ b/wampproto/joiner.py
@@ -47,8 +47,10 @@ class Joiner:
             )
         )
 
+        data = self._serializer.serialize(hello)
         self._state = Joiner.STATE_HELLO_SENT
-        return self._serializer.serialize(hello)
+
+        return data
 
     def receive(self, data: bytes) -> Optional[bytes]:
         received_message = self._serializer.deserialize(data)
-- 
2.43.0


From 1a185206c0999f60f944faeb6e0cabe994b77a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:29 +0000
Subject: [PATCH 24/27] fix: announce its own public key when a cryptosign
 authenticator is given a shared authextra

---
 wampproto/auth/cryptosign.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wampproto/auth/cryptosign.py b/wampproto/auth/cryptosign.py
index e339aae..94e1658 100644
--- a/wampproto/auth/cryptosign.py
+++ b/wampproto/auth/cryptosign.py
@@ -13,6 +13,8 @@ class CryptoSignAuthenticator(auth.IClientAuthenticator):
     TYPE = "cryptosign"
 
     def __init__(self, authid: str, private_key: str, auth_extra: dict | None = None):
+        # the caller's dictionary may be shared by authenticators with other keys
+        auth_extra = dict(auth_extra) if auth_extra is not None else None
         super().__init__(CryptoSignAuthenticator.TYPE, authid, auth_extra)
         self._private_key = nacl.signing.SigningKey(binascii.a2b_hex(private_key))
 
-- 
2.43.0


From c2c82cc7bac65a4ab3d162d977eeb11269b69bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:34 +0000
Subject: [PATCH 25/27] fix: do not take a float or boolean for the message
 type in parse

---
 wampproto/messages/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wampproto/messages/util.py b/wampproto/messages/util.py
index 63dc010..27ed1cb 100644
--- a/wampproto/messages/util.py
+++ b/wampproto/messages/util.py
@@ -94,7 +94,7 @@ def sanity_check(wamp_message: list[Any], min_length: int, max_length: int, expe
         raise ValueError(f"invalid message length {len(wamp_message)}, must be at most {max_length}")
 
     message_id = wamp_message[0]
-    if message_id != expected_id:
+    if not isinstance(message_id, int) or isinstance(message_id, bool) or message_id != expected_id:
         raise ValueError(f"invalid message id {message_id} for {name}, expected {expected_id}")
 
 
-- 
2.43.0


From c6b939ea77688a979194a40d5cb58b6618d9126c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:10 +0000
Subject: [PATCH 26/27] fix: an ApplicationError without arguments has none

---
 wampproto/exception.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wampproto/exception.py b/wampproto/exception.py
index 9bc7546..7c5492b 100644
--- a/wampproto/exception.py
+++ b/wampproto/exception.py
@@ -3,8 +3,8 @@ from typing import Any
 
 class ApplicationError(RuntimeError):
     def __init__(self, message: str, args: list[Any], kwargs: dict[str, Any]):
-        if args is not None:
-            super().__init__(*args)
+        # without arguments the exception has none, rather than those of the constructor
+        super().__init__(*(args if args is not None else []))
         self.message = message
         self._args = args
         self.kwargs = kwargs
-- 
2.43.0


From 084b85bfca55c7127621b322915e6e8e2ffa0efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:22 +0000
Subject: [PATCH 27/27] fix: a payload serializer was announced by other
 messages over the same options

---
 wampproto/messages/call.py       | 3 ++-
 wampproto/messages/invocation.py | 3 ++-
 wampproto/messages/result.py     | 3 ++-
 wampproto/messages/yield_.py     | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/wampproto/messages/call.py b/wampproto/messages/call.py
index 496044d..f2d9246 100644
--- a/wampproto/messages/call.py
+++ b/wampproto/messages/call.py
@@ -125,7 +125,8 @@ class Call(Message):
     @property
     def options(self) -> dict[str, Any]:
         if self.payload_serializer is not None:
-            self._fields.options["x_payload_serializer"] = self._fields.payload_serializer
+            # the dictionary given may be shared with other messages
+            return {**self._fields.options, "x_payload_serializer": self._fields.payload_serializer}
 
         return self._fields.options
 
diff --git a/wampproto/messages/invocation.py b/wampproto/messages/invocation.py
index 43bb418..d020f6f 100644
--- a/wampproto/messages/invocation.py
+++ b/wampproto/messages/invocation.py
@@ -124,7 +124,8 @@ class Invocation(Message):
     @property
     def details(self) -> dict[str, Any]:
         if self.payload_serializer is not None:
-            self._fields.details["x_payload_serializer"] = self._fields.payload_serializer
+            # the dictionary given may be shared with other messages
+            return {**self._fields.details, "x_payload_serializer": self._fields.payload_serializer}
 
         return self._fields.details
 
diff --git a/wampproto/messages/result.py b/wampproto/messages/result.py
index 63d557e..706845d 100644
--- a/wampproto/messages/result.py
+++ b/wampproto/messages/result.py
@@ -101,7 +101,8 @@ class Result(Message):
     @property
     def details(self) -> dict[str, Any]:
         if self.payload_serializer is not None:
-            self._fields.details["x_payload_serializer"] = self._fields.payload_serializer
+            # the dictionary given may be shared with other messages
+            return {**self._fields.details, "x_payload_serializer": self._fields.payload_serializer}
 
         return self._fields.details
 
diff --git a/wampproto/messages/yield_.py b/wampproto/messages/yield_.py
index 518d3ed..6b8b8f8 100644
--- a/wampproto/messages/yield_.py
+++ b/wampproto/messages/yield_.py
@@ -101,7 +101,8 @@ class Yield(Message):
     @property
     def options(self) -> dict[str, Any]:
         if self.payload_serializer is not None:
-            self._fields.options["x_payload_serializer"] = self._fields.payload_serializer
+            # the dictionary given may be shared with other messages
+            return {**self._fields.options, "x_payload_serializer": self._fields.payload_serializer}
 
         return self._fields.options
 
-- 
2.43.0

