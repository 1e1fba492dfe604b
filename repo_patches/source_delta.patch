From d4c4b0fc132494b7bef4602e4e8e01abef5f30f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:06 +0000
Subject: [PATCH 01/31] fix: dealer accepts an invocation ERROR only from the
 callee and forgets the call

Any session could end anybody's call by guessing the invocation ID, and the
caller+request to invocation mapping stayed behind, so that the next progressive
call with the same request ID was sent under a dead invocation ID.
---
 wampproto/dealer.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/wampproto/dealer.py b/wampproto/dealer.py
index 4724bb7..9e5e291 100644
--- a/wampproto/dealer.py
+++ b/wampproto/dealer.py
@@ -64,6 +64,11 @@ class Dealer:
         self.pending_calls[invocation_id] = PendingInvocation(call_id, caller_id, callee_id, progress, receive_progress)
         self.call_to_invocation_id[(caller_id, call_id)] = invocation_id
 
+    def _remove_call(self, invocation_id: int) -> PendingInvocation:
+        pending = self.pending_calls.pop(invocation_id)
+        del self.call_to_invocation_id[(pending.caller_id, pending.request_id)]
+        return pending
+
     def receive_message(self, session_id: int, message: messages.Message) -> types.MessageWithRecipient:
         if isinstance(message, messages.Call):
             registration = self.registrations_by_procedure.get(message.procedure)
@@ -123,8 +128,7 @@ class Dealer:
             if receive_progress and invocation.receive_progress:
                 details.update({OPTION_PROGRESS: receive_progress})
             else:
-                del self.pending_calls[message.request_id]
-                del self.call_to_invocation_id[(invocation.caller_id, invocation.request_id)]
+                self._remove_call(message.request_id)
 
             result = messages.Result(
                 messages.ResultFields(
@@ -180,10 +184,15 @@ class Dealer:
             if message.message_type != messages.Invocation.TYPE:
                 raise ValueError("dealer: only expected to receive error in response to invocation")
 
-            pending = self.pending_calls.pop(message.request_id, None)
+            pending = self.pending_calls.get(message.request_id)
             if pending is None:
                 raise ValueError(f"dealer: no pending invocation for {message.request_id}")
 
+            if session_id != pending.callee_id:
+                raise ValueError(f"dealer: received unexpected error from session={session_id}")
+
+            self._remove_call(message.request_id)
+
             err_msg = messages.Error(
                 messages.ErrorFields(
                     messages.Call.TYPE, pending.request_id, message.uri, message.args, message.kwargs, message.details
-- 
2.43.0


From 6a0df0074a652f133b56e46c74f1e1527de70970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:45 +0000
Subject: [PATCH 02/31] fix: dealer keeps a progressive call on one invocation
 and callee to the end

The final chunk was sent under a new invocation ID: the first invocation stayed
pending and the second reply died with a KeyError. Chunks sent after another
session took over the procedure went to that session under an invocation ID it
may not answer. A request ID that is still in use is refused.
---
 wampproto/dealer.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/wampproto/dealer.py b/wampproto/dealer.py
index 9e5e291..37c3434 100644
--- a/wampproto/dealer.py
+++ b/wampproto/dealer.py
@@ -72,6 +72,18 @@ class Dealer:
     def receive_message(self, session_id: int, message: messages.Message) -> types.MessageWithRecipient:
         if isinstance(message, messages.Call):
             registration = self.registrations_by_procedure.get(message.procedure)
+            invocation_id = self.call_to_invocation_id.get((session_id, message.request_id))
+            if invocation_id is not None:
+                # only a progressive call whose final chunk is still to come may be continued, and only
+                # as long as the callee that received the earlier chunks still provides the procedure.
+                pending = self.pending_calls[invocation_id]
+                if not pending.progress:
+                    raise ValueError(f"cannot call, request {message.request_id} is still in progress")
+
+                if registration is None or pending.callee_id not in registration.registrants:
+                    self._remove_call(invocation_id)
+                    registration = None
+
             if registration is None:
                 err = messages.Error(
                     messages.ErrorFields(message.TYPE, message.request_id, "wamp.error.no_such_procedure")
@@ -85,14 +97,11 @@ class Dealer:
 
             receive_progress = message.options.get(OPTION_RECEIVE_PROGRESS, False)
             progress = message.options.get(OPTION_PROGRESS, False)
-            if progress:
-                invocation_id = self.call_to_invocation_id.get((session_id, message.request_id))
-                if invocation_id is None:
-                    invocation_id = self.idgen.next()
-                    self._add_call(message.request_id, invocation_id, session_id, callee_id, progress, receive_progress)
-            else:
+            if invocation_id is None:
                 invocation_id = self.idgen.next()
                 self._add_call(message.request_id, invocation_id, session_id, callee_id, progress, receive_progress)
+            else:
+                self.pending_calls[invocation_id].progress = progress
 
             details = {}
             if receive_progress:
-- 
2.43.0


From 1d383be9a78bb10f61c14247feaa4ae4fedbc26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:48 +0000
Subject: [PATCH 03/31] fix: dealer ends the calls of a session that leaves

Calls made by or routed to a departed session stayed pending for ever: the reply
of a callee was addressed to the departed caller (or to an unrelated session that
got its ID), and a caller whose callee left was never told. remove_session()
now drops those calls and returns the ERRORs to send.
---
 wampproto/dealer.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/wampproto/dealer.py b/wampproto/dealer.py
index 37c3434..1e88a9a 100644
--- a/wampproto/dealer.py
+++ b/wampproto/dealer.py
@@ -40,7 +40,7 @@ class Dealer:
         self.registrations_by_session[details.session_id] = {}
         self.sessions[details.session_id] = details
 
-    def remove_session(self, sid: int):
+    def remove_session(self, sid: int) -> list[types.MessageWithRecipient]:
         if sid not in self.registrations_by_session:
             raise ValueError("cannot remove non-existing session")
 
@@ -55,6 +55,21 @@ class Dealer:
 
         del self.sessions[sid]
 
+        # no reply can be routed for these calls anymore, callers still there have to know.
+        errors = []
+        for invocation_id, pending in list(self.pending_calls.items()):
+            if sid not in (pending.caller_id, pending.callee_id):
+                continue
+
+            self._remove_call(invocation_id)
+            if pending.caller_id != sid:
+                err = messages.Error(
+                    messages.ErrorFields(messages.Call.TYPE, pending.request_id, "wamp.error.canceled")
+                )
+                errors.append(types.MessageWithRecipient(err, pending.caller_id))
+
+        return errors
+
     def has_registration(self, procedure: str) -> bool:
         return procedure in self.registrations_by_procedure
 
-- 
2.43.0


From f1730113528723badb1700776ee4062f1ac97f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:51 +0000
Subject: [PATCH 04/31] fix: dealer rejects a CALL from a session that is not
 attached

As for REGISTER and UNREGISTER; the invocation was routed although its result
could only be addressed to nobody.
---
 wampproto/dealer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wampproto/dealer.py b/wampproto/dealer.py
index 1e88a9a..adde180 100644
--- a/wampproto/dealer.py
+++ b/wampproto/dealer.py
@@ -86,6 +86,9 @@ class Dealer:
 
     def receive_message(self, session_id: int, message: messages.Message) -> types.MessageWithRecipient:
         if isinstance(message, messages.Call):
+            if session_id not in self.registrations_by_session:
+                raise ValueError(f"cannot call, session {session_id} doesn't exist")
+
             registration = self.registrations_by_procedure.get(message.procedure)
             invocation_id = self.call_to_invocation_id.get((session_id, message.request_id))
             if invocation_id is not None:
-- 
2.43.0


From 0ef13137958190bf1be8510ced8edd40c860c1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:54 +0000
Subject: [PATCH 05/31] fix: dealer passes the binary payload of a YIELD on to
 the RESULT

A binary payload reached the callee with the INVOCATION, unmarked as binary, but
the one the callee returned was dropped.
---
 wampproto/dealer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/wampproto/dealer.py b/wampproto/dealer.py
index adde180..a67b560 100644
--- a/wampproto/dealer.py
+++ b/wampproto/dealer.py
@@ -137,6 +137,7 @@ class Dealer:
                     details=details,
                     payload=message.payload,
                     serializer=message.payload_serializer,
+                    binary=message.payload_is_binary(),
                 )
             )
 
@@ -159,7 +160,13 @@ class Dealer:
 
             result = messages.Result(
                 messages.ResultFields(
-                    request_id=invocation.request_id, args=message.args, kwargs=message.kwargs, details=details
+                    request_id=invocation.request_id,
+                    args=message.args,
+                    kwargs=message.kwargs,
+                    details=details,
+                    payload=message.payload,
+                    serializer=message.payload_serializer,
+                    binary=message.payload_is_binary(),
                 )
             )
             return types.MessageWithRecipient(result, invocation.caller_id)
-- 
2.43.0


From f7f21b44738aa4366c46de38ddd4d2b43b2c3e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:13 +0000
Subject: [PATCH 06/31] fix: client session keeps call and invocation open
 across progressive results

The first progressive RESULT closed the call and the first progressive YIELD the
invocation, so that the second of either was refused although the dealer routes it.
---
 wampproto/session.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/wampproto/session.py b/wampproto/session.py
index 3031ed7..2f2453a 100644
--- a/wampproto/session.py
+++ b/wampproto/session.py
@@ -28,7 +28,8 @@ class WAMPSession:
             if msg.request_id not in self._invocation_requests:
                 raise ValueError("cannot yield for unknown invocation request")
 
-            self._invocation_requests.remove(msg.request_id)
+            if not msg.options.get("progress", False):
+                self._invocation_requests.remove(msg.request_id)
         elif isinstance(msg, messages.Publish):
             if msg.options.get("acknowledge", False):
                 self._publish_requests.add(msg.request_id)
@@ -54,10 +55,11 @@ class WAMPSession:
 
     def receive_message(self, msg: messages.Message) -> messages.Message:
         if isinstance(msg, messages.Result):
-            try:
-                self._call_requests.remove(msg.request_id)
-            except KeyError:
+            if msg.request_id not in self._call_requests:
                 raise ValueError("received RESULT for invalid request_id")
+
+            if not msg.details.get("progress", False):
+                self._call_requests.remove(msg.request_id)
         elif isinstance(msg, messages.Registered):
             try:
                 self._register_requests.remove(msg.request_id)
-- 
2.43.0


From a0c212da0f42a29ad548ff19c6dec865dcc8b80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:16 +0000
Subject: [PATCH 07/31] fix: client session is unchanged by a send or receive
 that fails

The state was updated before the message was encoded: a CALL whose arguments the
serializer refuses was taken for sent, a YIELD used up its invocation. A refused
UNREGISTERED or UNSUBSCRIBED used up the request.
---
 wampproto/session.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/wampproto/session.py b/wampproto/session.py
index 2f2453a..4fdc8c7 100644
--- a/wampproto/session.py
+++ b/wampproto/session.py
@@ -18,6 +18,12 @@ class WAMPSession:
         self._unsubscribe_requests: dict[int, int] = {}
 
     def send_message(self, msg: messages.Message) -> bytes:
+        if not isinstance(msg, messages.Message):
+            raise ValueError(f"unknown message type {type(msg)}")
+
+        # a message that cannot be encoded is never sent, so it must not change the state.
+        data = self._serializer.serialize(msg)
+
         if isinstance(msg, messages.Call):
             self._call_requests.add(msg.request_id)
         elif isinstance(msg, messages.Register):
@@ -47,7 +53,7 @@ class WAMPSession:
         else:
             raise ValueError(f"unknown message type {type(msg)}")
 
-        return self._serializer.serialize(msg)
+        return data
 
     def receive(self, data: bytes) -> messages.Message:
         msg = self._serializer.deserialize(data)
@@ -69,7 +75,7 @@ class WAMPSession:
             self._registrations.add(msg.registration_id)
         elif isinstance(msg, messages.Unregistered):
             try:
-                registration_id = self._unregister_requests.pop(msg.request_id)
+                registration_id = self._unregister_requests[msg.request_id]
             except KeyError:
                 raise ValueError("received UNREGISTERED for invalid request_id")
 
@@ -77,6 +83,8 @@ class WAMPSession:
                 self._registrations.remove(registration_id)
             except KeyError:
                 raise ValueError("received UNREGISTERED for invalid registration_id")
+
+            del self._unregister_requests[msg.request_id]
         elif isinstance(msg, messages.Invocation):
             if msg.registration_id not in self._registrations:
                 raise ValueError("received INVOCATION for invalid registration_id")
@@ -96,7 +104,7 @@ class WAMPSession:
             self._subscriptions.add(msg.subscription_id)
         elif isinstance(msg, messages.Unsubscribed):
             try:
-                subscription_id = self._unsubscribe_requests.pop(msg.request_id)
+                subscription_id = self._unsubscribe_requests[msg.request_id]
             except KeyError:
                 raise ValueError("received UNSUBSCRIBED for invalid request_id")
 
@@ -104,6 +112,8 @@ class WAMPSession:
                 self._subscriptions.remove(subscription_id)
             except KeyError:
                 raise ValueError("received UNSUBSCRIBED for invalid subscription_id")
+
+            del self._unsubscribe_requests[msg.request_id]
         elif isinstance(msg, messages.Event):
             if msg.subscription_id not in self._subscriptions:
                 raise ValueError("received EVENT for invalid subscription_id")
-- 
2.43.0


From 63008b725cb3a2ebc64c8c4f357aa89a29c7311b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:34 +0000
Subject: [PATCH 08/31] fix: acceptor is aborted after the authenticator
 refused a client

ABORT was sent but the handshake stayed open: is_aborted() was false, and the
client could go on guessing tickets or send another HELLO and be welcomed.
---
 wampproto/acceptor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wampproto/acceptor.py b/wampproto/acceptor.py
index b948d29..33492c6 100644
--- a/wampproto/acceptor.py
+++ b/wampproto/acceptor.py
@@ -83,6 +83,7 @@ class Acceptor:
                     try:
                         response = self._authenticator.authenticate(request)
                     except Exception as e:
+                        self._state = Acceptor.STATE_ABORTED
                         return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=list(e.args)))
 
                     self._state = Acceptor.STATE_WELCOME_SENT
@@ -106,6 +107,7 @@ class Acceptor:
                     try:
                         self._response = self._authenticator.authenticate(request)
                     except Exception as e:
+                        self._state = Acceptor.STATE_ABORTED
                         return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=list(e.args)))
 
                     self._public_key = public_key
@@ -119,6 +121,7 @@ class Acceptor:
                     try:
                         response = self._authenticator.authenticate(request)
                     except Exception as e:
+                        self._state = Acceptor.STATE_ABORTED
                         return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=list(e.args)))
 
                     if not isinstance(response, auth.WAMPCRAResponse):
@@ -187,6 +190,7 @@ class Acceptor:
                     try:
                         response = self._authenticator.authenticate(request)
                     except Exception as e:
+                        self._state = Acceptor.STATE_ABORTED
                         return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=list(e.args)))
 
                     self._state = Acceptor.STATE_WELCOME_SENT
-- 
2.43.0


From 64d19312896b5e52424ecae99b079bc9d5fdca05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:15 +0000
Subject: [PATCH 09/31] fix: acceptor accepts a cryptosign signature only over
 the challenge it sent

Any message signed with the client's key was accepted, so the AUTHENTICATE of an
earlier handshake, or of another server, could be replayed.
---
 wampproto/acceptor.py        | 5 ++++-
 wampproto/auth/cryptosign.py | 7 ++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/wampproto/acceptor.py b/wampproto/acceptor.py
index 33492c6..23b72e9 100644
--- a/wampproto/acceptor.py
+++ b/wampproto/acceptor.py
@@ -114,6 +114,7 @@ class Acceptor:
 
                     challenge = auth.generate_cryptosign_challenge()
                     self._state = Acceptor.STATE_CHALLENGE_SENT
+                    self._challenge = challenge
 
                     return messages.Challenge(messages.ChallengeFields(method, {"challenge": challenge}))
                 case Acceptor.WAMPCRA:
@@ -148,7 +149,9 @@ class Acceptor:
 
             match self._auth_method:
                 case Acceptor.CRYPTOSIGN:
-                    if not auth.verify_cryptosign_signature(msg.signature, binascii.unhexlify(self._public_key)):
+                    if not auth.verify_cryptosign_signature(
+                        msg.signature, binascii.unhexlify(self._public_key), self._challenge
+                    ):
                         self._state = Acceptor.STATE_ABORTED
                         return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED))
 
diff --git a/wampproto/auth/cryptosign.py b/wampproto/auth/cryptosign.py
index 244432b..70c11f5 100644
--- a/wampproto/auth/cryptosign.py
+++ b/wampproto/auth/cryptosign.py
@@ -40,14 +40,15 @@ def sign_cryptosign_challenge(challenge: str, private_key: nacl.signing.SigningK
     return private_key.sign(raw_challenge, HexEncoder).signature.decode() + challenge
 
 
-def verify_cryptosign_signature(signature: str, public_key: bytes) -> bool:
+def verify_cryptosign_signature(signature: str, public_key: bytes, challenge: str | None = None) -> bool:
     try:
         verifying_key = nacl.signing.VerifyKey(public_key)
-        verifying_key.verify(binascii.unhexlify(signature))
+        signed = verifying_key.verify(binascii.unhexlify(signature))
     except BadSignatureError:
         return False
 
-    return True
+    # the signature carries the signed message, which must be the challenge that was sent.
+    return challenge is None or signed == binascii.unhexlify(challenge)
 
 
 def generate_cryptosign_keypair() -> tuple[str, str]:
-- 
2.43.0


From e47b76a33716cb9daf5ab2f491c3fecfb5fa66ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:18 +0000
Subject: [PATCH 10/31] fix: a signature that cannot be decoded is a wrong
 signature

Text that is not hexadecimal (cryptosign) or not ASCII (WAMP-CRA) made the
verification raise instead of return false, so that the client got no ABORT and
could try again.
---
 wampproto/auth/cryptosign.py | 2 +-
 wampproto/auth/wampcra.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/wampproto/auth/cryptosign.py b/wampproto/auth/cryptosign.py
index 70c11f5..2927d98 100644
--- a/wampproto/auth/cryptosign.py
+++ b/wampproto/auth/cryptosign.py
@@ -44,7 +44,7 @@ def verify_cryptosign_signature(signature: str, public_key: bytes, challenge: st
     try:
         verifying_key = nacl.signing.VerifyKey(public_key)
         signed = verifying_key.verify(binascii.unhexlify(signature))
-    except BadSignatureError:
+    except (BadSignatureError, ValueError):
         return False
 
     # the signature carries the signed message, which must be the challenge that was sent.
diff --git a/wampproto/auth/wampcra.py b/wampproto/auth/wampcra.py
index 05a0ac5..8ffe322 100644
--- a/wampproto/auth/wampcra.py
+++ b/wampproto/auth/wampcra.py
@@ -76,7 +76,7 @@ def verify_wampcra_signature(signature: str, challenge: str, key: bytes) -> bool
     try:
         sig_bytes = base64.b64decode(signature)
         local_signature = sign_wampcra_challenge(challenge, key)
-    except binascii.Error:
+    except ValueError:
         return False
 
     return hmac.compare_digest(sig_bytes, base64.b64decode(local_signature))
-- 
2.43.0


From bcf1afd8f82f879e3537ee7dc46ed28c5f4c3c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:21 +0000
Subject: [PATCH 11/31] fix: acceptor refuses a cryptosign HELLO without
 authextra with a ValueError

It died with an AttributeError, as the missing pubkey alone is not refused.
---
 wampproto/acceptor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wampproto/acceptor.py b/wampproto/acceptor.py
index 23b72e9..4cc0ae0 100644
--- a/wampproto/acceptor.py
+++ b/wampproto/acceptor.py
@@ -99,7 +99,7 @@ class Acceptor:
 
                     return welcome
                 case Acceptor.CRYPTOSIGN:
-                    public_key = msg.authextra.get("pubkey")
+                    public_key = msg.authextra.get("pubkey") if msg.authextra is not None else None
                     if public_key is None:
                         raise ValueError("authextra must contain pubkey for cryptosign")
 
-- 
2.43.0


From e60110bc28d6a66e2c1568fbe3c19529177f84eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:24 +0000
Subject: [PATCH 12/31] fix: acceptor survives an ABORT and rejects messages
 that do not belong to a handshake

receive() tried to serialize the missing answer and died with an AttributeError.
---
 wampproto/acceptor.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wampproto/acceptor.py b/wampproto/acceptor.py
index 4cc0ae0..9f40fa3 100644
--- a/wampproto/acceptor.py
+++ b/wampproto/acceptor.py
@@ -44,9 +44,12 @@ class Acceptor:
         self._challenge: str = None
         self._secret: str = None
 
-    def receive(self, data: bytes) -> (bytes, bool):
+    def receive(self, data: bytes) -> (bytes | None, bool):
         received_message = self._serializer.deserialize(data)
         to_send = self.receive_message(received_message)
+        if to_send is None:
+            # ABORT is not answered.
+            return None, True
 
         return self._serializer.serialize(to_send), isinstance(to_send, messages.Welcome) or isinstance(
             to_send, messages.Abort
@@ -209,6 +212,8 @@ class Acceptor:
                     return welcome
         elif isinstance(msg, messages.Abort):
             self._state = Acceptor.STATE_ABORTED
+        else:
+            raise ValueError("received unknown message")
 
     def is_aborted(self) -> bool:
         return self._state == Acceptor.STATE_ABORTED
-- 
2.43.0


From f769eeede8dfda0a33f1b845e68e52beb61c77da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:00 +0000
Subject: [PATCH 13/31] fix: acceptor refuses an undecodable cryptosign public
 key with the HELLO

It was decoded only when AUTHENTICATE came, which then raised instead of being
answered and could be repeated.
---
 wampproto/acceptor.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/wampproto/acceptor.py b/wampproto/acceptor.py
index 9f40fa3..87b37fd 100644
--- a/wampproto/acceptor.py
+++ b/wampproto/acceptor.py
@@ -40,7 +40,7 @@ class Acceptor:
         self._response: auth.Response = None
         self._session_details: SessionDetails = None
 
-        self._public_key: str = None
+        self._public_key: bytes = None
         self._challenge: str = None
         self._secret: str = None
 
@@ -113,7 +113,7 @@ class Acceptor:
                         self._state = Acceptor.STATE_ABORTED
                         return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=list(e.args)))
 
-                    self._public_key = public_key
+                    self._public_key = binascii.unhexlify(public_key)
 
                     challenge = auth.generate_cryptosign_challenge()
                     self._state = Acceptor.STATE_CHALLENGE_SENT
@@ -152,9 +152,7 @@ class Acceptor:
 
             match self._auth_method:
                 case Acceptor.CRYPTOSIGN:
-                    if not auth.verify_cryptosign_signature(
-                        msg.signature, binascii.unhexlify(self._public_key), self._challenge
-                    ):
+                    if not auth.verify_cryptosign_signature(msg.signature, self._public_key, self._challenge):
                         self._state = Acceptor.STATE_ABORTED
                         return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED))
 
-- 
2.43.0


From 707fae91f494b7ef82cf9febae19b137da5c1efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:03 +0000
Subject: [PATCH 14/31] fix: joiner does not join a handshake that was aborted

A WELCOME after the ABORT still established the session.
---
 wampproto/joiner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wampproto/joiner.py b/wampproto/joiner.py
index c84a347..a10ca28 100644
--- a/wampproto/joiner.py
+++ b/wampproto/joiner.py
@@ -18,6 +18,7 @@ class Joiner:
     STATE_HELLO_SENT = 1
     STATE_AUTHENTICATE_SENT = 2
     STATE_JOINED = 3
+    STATE_ABORTED = 4
 
     def __init__(
         self,
@@ -71,6 +72,7 @@ class Joiner:
             self._state = Joiner.STATE_AUTHENTICATE_SENT
             return authenticate
         elif isinstance(msg, messages.Abort):
+            self._state = Joiner.STATE_ABORTED
             raise ApplicationError(msg.reason, msg.args, msg.kwargs)
         else:
             raise ValueError("received unknown message")
-- 
2.43.0


From 1eb5b15fa3974fa48ff3f913f65280d4ad050640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:03 +0000
Subject: [PATCH 15/31] fix: ABORT keeps its args and kwargs on the wire

They were parsed but never encoded, so the reason the acceptor gives for a refused
authentication never reached the client.
---
 wampproto/messages/abort.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/wampproto/messages/abort.py b/wampproto/messages/abort.py
index 1c27e59..0c511d2 100644
--- a/wampproto/messages/abort.py
+++ b/wampproto/messages/abort.py
@@ -92,4 +92,14 @@ class Abort(Message):
         return Abort(AbortFields(f.details, f.reason, f.args, f.kwargs))
 
     def marshal(self) -> list[Any]:
-        return [self.TYPE, self.details, self.reason]
+        message = [self.TYPE, self.details, self.reason]
+        if self.args is not None:
+            message.append(self.args)
+
+        if self.kwargs is not None:
+            if self.args is None:
+                message.append([])
+
+            message.append(self.kwargs)
+
+        return message
-- 
2.43.0


From 65c005923784e3453e4fd853609821b89061155b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:06 +0000
Subject: [PATCH 16/31] fix: a boolean is not an ID

true was accepted as ID 1 and echoed as true to the peer.
---
 wampproto/messages/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wampproto/messages/util.py b/wampproto/messages/util.py
index 719d0db..84a6da1 100644
--- a/wampproto/messages/util.py
+++ b/wampproto/messages/util.py
@@ -133,7 +133,8 @@ class Fields:
 
 
 def validate_int_or_raise(value: int, index: int, message: str):
-    if not isinstance(value, int):
+    # bool is a subclass of int, but true and false are no integers on the wire.
+    if not isinstance(value, int) or isinstance(value, bool):
         return exceptions.InvalidDataTypeError.format(
             message=message, index=index, expected_type=INT, actual_type=type(value).__name__
         )
-- 
2.43.0


From 5adc6b993aa13cd00caedacbdd72932201fb80f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:06 +0000
Subject: [PATCH 17/31] fix: an empty array or a boolean type code is a
 malformed message

[] died with an IndexError and [true, ...] was read as HELLO.
---
 wampproto/serializers/serializer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wampproto/serializers/serializer.py b/wampproto/serializers/serializer.py
index 2faba44..d4b3f1e 100644
--- a/wampproto/serializers/serializer.py
+++ b/wampproto/serializers/serializer.py
@@ -18,8 +18,11 @@ def to_message(message: list) -> messages.Message:
     if not isinstance(message, list):
         raise TypeError(f"invalid type '{type(message)}', expected a list")
 
+    if len(message) == 0:
+        raise ValueError("invalid message length 0, must be at least 1")
+
     message_type = message[0]
-    if not isinstance(message_type, int):
+    if not isinstance(message_type, int) or isinstance(message_type, bool):
         raise TypeError(f"invalid message type '{type(message[0])}', expected an integer")
 
     match message_type:
-- 
2.43.0


From 3017c97e4e3abfb10dfaf87d0daec27c22531fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:09 +0000
Subject: [PATCH 18/31] fix: rawsocket handshake with one non-zero reserved
 byte is refused

---
 wampproto/transports/rawsocket.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wampproto/transports/rawsocket.py b/wampproto/transports/rawsocket.py
index bc073df..3bfa35b 100644
--- a/wampproto/transports/rawsocket.py
+++ b/wampproto/transports/rawsocket.py
@@ -87,7 +87,7 @@ def receive_handshake(data: bytes) -> Handshake:
     if data[0] != MAGIC:
         raise ValueError("Expected MAGIC, got %d" % data[0])
 
-    if data[2] != 0x00 and data[3] != 0x00:
+    if data[2] != 0x00 or data[3] != 0x00:
         raise ValueError(f"Expected 0x00 for third and fourth byte of handshake response, got {data[2]} and {data[3]}")
 
     return Handshake(data[1] & 0x0F, 1 << ((data[1] >> 4) + 9))
-- 
2.43.0


From 1a8bcd46d356084a3aa18b68392f4ea73607aa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:11 +0000
Subject: [PATCH 19/31] fix: rawsocket frame header refuses a length of more
 than 24 bits

The upper bits were dropped, so that the peer loses the frame boundary.
---
 wampproto/transports/rawsocket.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wampproto/transports/rawsocket.py b/wampproto/transports/rawsocket.py
index 3bfa35b..d35da61 100644
--- a/wampproto/transports/rawsocket.py
+++ b/wampproto/transports/rawsocket.py
@@ -94,6 +94,9 @@ def receive_handshake(data: bytes) -> Handshake:
 
 
 def int_to_bytes(i: int) -> bytes:
+    if i < 0 or i > 0xFFFFFF:
+        raise ValueError(f"Expected a number of at most 24 bits, got {i}")
+
     return bytes(
         [
             (i >> 16) & 0xFF,
-- 
2.43.0


From eaaee957f2dbf59ed546bc2dbd242de3ad7b5af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:45 +0000
Subject: [PATCH 20/31] fix: rawsocket handshake refuses a protocol that does
 not fit

The upper bits were dropped, so that another serializer was requested.
---
 wampproto/transports/rawsocket.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wampproto/transports/rawsocket.py b/wampproto/transports/rawsocket.py
index d35da61..920feb8 100644
--- a/wampproto/transports/rawsocket.py
+++ b/wampproto/transports/rawsocket.py
@@ -70,6 +70,9 @@ def send_handshake(hs: Handshake) -> bytes:
     # FIXME: max_msg_size must not be more than 16 megabytes.
     # FIXME: protocol must be checked to ensure only supported serializers are used.
 
+    if hs.protocol < 0 or hs.protocol > 0xF:
+        raise ValueError(f"Expected a protocol between 0 and 15, got {hs.protocol}")
+
     return bytes(
         [
             MAGIC,
-- 
2.43.0


From 61fd3c1cbdb0f5e80d306f254942f6f6b0576518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:48 +0000
Subject: [PATCH 21/31] fix: a payload that is not a list is refused

A dictionary was indexed like a list: {} was read as no arguments, other
dictionaries died with a KeyError or had their value under key 0 taken for args.
---
 wampproto/serializers/payload.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wampproto/serializers/payload.py b/wampproto/serializers/payload.py
index dc0bbf8..8633f52 100644
--- a/wampproto/serializers/payload.py
+++ b/wampproto/serializers/payload.py
@@ -8,6 +8,9 @@ from wampproto import serializers
 
 
 def decode(arr: list) -> Tuple[list[Any] | None, dict[Any, Any] | None]:
+    if not isinstance(arr, list):
+        raise TypeError("payload is not list")
+
     if len(arr) == 0:
         return None, None
 
-- 
2.43.0


From d272ab49f15d6061839aa172d5e3b586117c16a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:50 +0000
Subject: [PATCH 22/31] fix: salt of a salted WAMP-CRA response no longer
 recurses for ever

---
 wampproto/auth/auth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wampproto/auth/auth.py b/wampproto/auth/auth.py
index 1b61f01..721c4b1 100644
--- a/wampproto/auth/auth.py
+++ b/wampproto/auth/auth.py
@@ -116,7 +116,7 @@ class WAMPCRASaltedResponse(WAMPCRAResponse):
 
     @property
     def salt(self) -> str:
-        return self.salt
+        return self._salt
 
     @property
     def iterations(self) -> int:
-- 
2.43.0


From 9a1cb7f9a26edf70334b196ce3bb332940b6b0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:53 +0000
Subject: [PATCH 23/31] fix: acceptor tells the client the salt of a salted
 WAMP-CRA secret

The client handles salt, iterations and keylen of the CHALLENGE but was never
sent them, so no client could join with a salted secret.
---
 wampproto/acceptor.py      | 9 ++++++++-
 wampproto/auth/__init__.py | 2 ++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/wampproto/acceptor.py b/wampproto/acceptor.py
index 87b37fd..2ae3318 100644
--- a/wampproto/acceptor.py
+++ b/wampproto/acceptor.py
@@ -140,7 +140,14 @@ class Acceptor:
                     self._state = Acceptor.STATE_CHALLENGE_SENT
                     self._challenge = challenge
 
-                    return messages.Challenge(messages.ChallengeFields(method, {"challenge": challenge}))
+                    extra = {"challenge": challenge}
+                    if isinstance(response, auth.WAMPCRASaltedResponse):
+                        # the client derives the secret from its password with these.
+                        extra["salt"] = response.salt
+                        extra["iterations"] = response.iterations
+                        extra["keylen"] = response.keylen
+
+                    return messages.Challenge(messages.ChallengeFields(method, extra))
                 case Acceptor.TICKET:
                     self._state = Acceptor.STATE_CHALLENGE_SENT
                     return messages.Challenge(messages.ChallengeFields(method, {}))
diff --git a/wampproto/auth/__init__.py b/wampproto/auth/__init__.py
index 18597c3..11d66b9 100644
--- a/wampproto/auth/__init__.py
+++ b/wampproto/auth/__init__.py
@@ -8,6 +8,7 @@ from wampproto.auth.auth import (
     TicketRequest,
     Response,
     WAMPCRAResponse,
+    WAMPCRASaltedResponse,
 )
 from wampproto.auth.anonymous import AnonymousAuthenticator
 from wampproto.auth.cryptosign import (
@@ -38,6 +39,7 @@ __all__ = (
     "TicketRequest",
     "Response",
     "WAMPCRAResponse",
+    "WAMPCRASaltedResponse",
     "generate_cryptosign_challenge",
     "sign_cryptosign_challenge",
     "verify_cryptosign_signature",
-- 
2.43.0


From 3e2fc82d0708499ae1414c675c66da4501bc2a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:56 +0000
Subject: [PATCH 24/31] fix: cryptosign authenticator does not write its key
 into the caller's dictionary

Two authenticators given the same extra dictionary both announced the first key,
so the second could not join.
---
 wampproto/auth/cryptosign.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wampproto/auth/cryptosign.py b/wampproto/auth/cryptosign.py
index 2927d98..ad9781e 100644
--- a/wampproto/auth/cryptosign.py
+++ b/wampproto/auth/cryptosign.py
@@ -18,7 +18,8 @@ class CryptoSignAuthenticator(auth.IClientAuthenticator):
 
         if "pubkey" not in self._auth_extra:
             public_key = self._private_key.verify_key.encode(HexEncoder).decode()
-            self._auth_extra["pubkey"] = public_key
+            # the dictionary may be shared with other authenticators, which have other keys.
+            self._auth_extra = {**self._auth_extra, "pubkey": public_key}
 
     def authenticate(self, challenge: messages.Challenge) -> messages.Authenticate:
         challenge_hex = challenge.extra.get("challenge")
-- 
2.43.0


From a869619f0fa821f24b87f467da977f03db5e5f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:56 +0000
Subject: [PATCH 25/31] fix: CBOR frame with extra data after the message is
 refused

As the JSON and MsgPack serializers do.
---
 wampproto/serializers/cbor.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/wampproto/serializers/cbor.py b/wampproto/serializers/cbor.py
index cc320e5..0411cde 100644
--- a/wampproto/serializers/cbor.py
+++ b/wampproto/serializers/cbor.py
@@ -1,3 +1,5 @@
+import io
+
 import cbor2
 
 from wampproto import messages, serializers
@@ -11,7 +13,11 @@ class CBORSerializer(serializers.Serializer):
         return cbor2.dumps(message.marshal())
 
     def deserialize(self, data: bytes) -> messages.Message:
-        wamp_message = cbor2.loads(data)
+        fp = io.BytesIO(data)
+        wamp_message = cbor2.load(fp)
+        if fp.read(1):
+            raise ValueError("extra data after the message")
+
         return to_message(wamp_message)
 
     def static(self) -> bool:
-- 
2.43.0


From 81eabf448f4e4757a50dd1bd3c4ccfcabd208a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:53 +0000
Subject: [PATCH 26/31] fix: CBOR payload with extra data after the args and
 kwargs is refused

---
 wampproto/serializers/payload.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wampproto/serializers/payload.py b/wampproto/serializers/payload.py
index 8633f52..61504d6 100644
--- a/wampproto/serializers/payload.py
+++ b/wampproto/serializers/payload.py
@@ -1,3 +1,4 @@
+import io
 import json
 from typing import Any, Tuple
 
@@ -55,7 +56,10 @@ def cbor_decode_payload(b: bytes) -> Tuple[list[Any] | None, dict[Any, Any] | No
     if len(b) == 0:
         return None, None
 
-    arr = cbor2.loads(b)
+    fp = io.BytesIO(b)
+    arr = cbor2.load(fp)
+    if fp.read(1):
+        raise ValueError("extra data after the payload")
 
     return decode(arr)
 
-- 
2.43.0


From 65a04d8213201c68cdf05b4916463da867341bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:56 +0000
Subject: [PATCH 27/31] fix: payload serializer of a message is not written
 into the caller's options

---
 wampproto/messages/call.py       | 3 ++-
 wampproto/messages/invocation.py | 3 ++-
 wampproto/messages/result.py     | 3 ++-
 wampproto/messages/yield_.py     | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/wampproto/messages/call.py b/wampproto/messages/call.py
index 496044d..bce28ad 100644
--- a/wampproto/messages/call.py
+++ b/wampproto/messages/call.py
@@ -125,7 +125,8 @@ class Call(Message):
     @property
     def options(self) -> dict[str, Any]:
         if self.payload_serializer is not None:
-            self._fields.options["x_payload_serializer"] = self._fields.payload_serializer
+            # the dictionary may belong to the application and be used for other messages too.
+            return {**self._fields.options, "x_payload_serializer": self._fields.payload_serializer}
 
         return self._fields.options
 
diff --git a/wampproto/messages/invocation.py b/wampproto/messages/invocation.py
index 43bb418..316c4d6 100644
--- a/wampproto/messages/invocation.py
+++ b/wampproto/messages/invocation.py
@@ -124,7 +124,8 @@ class Invocation(Message):
     @property
     def details(self) -> dict[str, Any]:
         if self.payload_serializer is not None:
-            self._fields.details["x_payload_serializer"] = self._fields.payload_serializer
+            # the dictionary may belong to the application and be used for other messages too.
+            return {**self._fields.details, "x_payload_serializer": self._fields.payload_serializer}
 
         return self._fields.details
 
diff --git a/wampproto/messages/result.py b/wampproto/messages/result.py
index 63d557e..10cab83 100644
--- a/wampproto/messages/result.py
+++ b/wampproto/messages/result.py
@@ -101,7 +101,8 @@ class Result(Message):
     @property
     def details(self) -> dict[str, Any]:
         if self.payload_serializer is not None:
-            self._fields.details["x_payload_serializer"] = self._fields.payload_serializer
+            # the dictionary may belong to the application and be used for other messages too.
+            return {**self._fields.details, "x_payload_serializer": self._fields.payload_serializer}
 
         return self._fields.details
 
diff --git a/wampproto/messages/yield_.py b/wampproto/messages/yield_.py
index 518d3ed..34143ac 100644
--- a/wampproto/messages/yield_.py
+++ b/wampproto/messages/yield_.py
@@ -101,7 +101,8 @@ class Yield(Message):
     @property
     def options(self) -> dict[str, Any]:
         if self.payload_serializer is not None:
-            self._fields.options["x_payload_serializer"] = self._fields.payload_serializer
+            # the dictionary may belong to the application and be used for other messages too.
+            return {**self._fields.options, "x_payload_serializer": self._fields.payload_serializer}
 
         return self._fields.options
 
-- 
2.43.0


From 23340659f9401e517fd4a48020f2dc72c8b17929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:05 +0000
Subject: [PATCH 28/31] fix: rawsocket message header of other than four bytes
 is refused

---
 wampproto/transports/rawsocket.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wampproto/transports/rawsocket.py b/wampproto/transports/rawsocket.py
index 920feb8..536d0bd 100644
--- a/wampproto/transports/rawsocket.py
+++ b/wampproto/transports/rawsocket.py
@@ -63,6 +63,9 @@ class MessageHeader:
 
     @classmethod
     def from_bytes(cls, data: bytes) -> "MessageHeader":
+        if len(data) != 4:
+            raise ValueError("Expected 4 bytes for message header, got %d" % len(data))
+
         return MessageHeader(data[0], bytes_to_int(data[1:]))
 
 
-- 
2.43.0


From 0570e32e74e9fe4c59bb29816613329e2817dc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:51 +0000
Subject: [PATCH 29/31] fix: joiner does not count a HELLO or AUTHENTICATE that
 cannot be encoded as sent

---
 wampproto/joiner.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/wampproto/joiner.py b/wampproto/joiner.py
index a10ca28..c7e5637 100644
--- a/wampproto/joiner.py
+++ b/wampproto/joiner.py
@@ -47,15 +47,24 @@ class Joiner:
             )
         )
 
+        # a HELLO that cannot be encoded is never sent, so it must not change the state.
+        data = self._serializer.serialize(hello)
         self._state = Joiner.STATE_HELLO_SENT
-        return self._serializer.serialize(hello)
+
+        return data
 
     def receive(self, data: bytes) -> Optional[bytes]:
         received_message = self._serializer.deserialize(data)
 
+        state = self._state
         to_send = self.receive_message(received_message)
         if to_send is not None and isinstance(to_send, messages.Authenticate):
-            return self._serializer.serialize(to_send)
+            try:
+                return self._serializer.serialize(to_send)
+            except Exception:
+                # the answer is never sent, so the challenge is not answered.
+                self._state = state
+                raise
 
     def receive_message(self, msg: messages.Message) -> Optional[messages.Message]:
         if isinstance(msg, messages.Welcome):
-- 
2.43.0


From c63a04865e8e5b8285937515344c90c35d380ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:51 +0000
Subject: [PATCH 30/31] fix: refusal whose details cannot be encoded is still
 answered with ABORT

---
 wampproto/acceptor.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/wampproto/acceptor.py b/wampproto/acceptor.py
index 2ae3318..3032d8a 100644
--- a/wampproto/acceptor.py
+++ b/wampproto/acceptor.py
@@ -51,9 +51,16 @@ class Acceptor:
             # ABORT is not answered.
             return None, True
 
-        return self._serializer.serialize(to_send), isinstance(to_send, messages.Welcome) or isinstance(
-            to_send, messages.Abort
-        )
+        try:
+            data = self._serializer.serialize(to_send)
+        except Exception:
+            if not isinstance(to_send, messages.Abort):
+                raise
+
+            # the client has to be told, even if what the refusal carries cannot be encoded.
+            data = self._serializer.serialize(messages.Abort(messages.AbortFields({}, to_send.reason)))
+
+        return data, isinstance(to_send, messages.Welcome) or isinstance(to_send, messages.Abort)
 
     def receive_message(self, msg: messages.Message) -> messages.Message:
         if self._state == Acceptor.STATE_WELCOME_SENT:
-- 
2.43.0


From 0b78386ea4b00d6e6ee86e61c70fadecc7299850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:21 +0000
Subject: [PATCH 31/31] fix: an ABORT without arguments is raised without
 arguments

BaseException.__new__ keeps all constructor arguments as args unless __init__ is
called, so the error of an ABORT that has no args carried (reason, None, None).
---
 wampproto/exception.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/wampproto/exception.py b/wampproto/exception.py
index 9bc7546..377ad45 100644
--- a/wampproto/exception.py
+++ b/wampproto/exception.py
@@ -3,8 +3,7 @@ from typing import Any
 
 class ApplicationError(RuntimeError):
     def __init__(self, message: str, args: list[Any], kwargs: dict[str, Any]):
-        if args is not None:
-            super().__init__(*args)
+        super().__init__(*(args if args is not None else []))
         self.message = message
         self._args = args
         self.kwargs = kwargs
-- 
2.43.0

