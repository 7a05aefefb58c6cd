From b0b166e3836dea6866a0a52936ccf385ecf77bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:04 +0000
Subject: [PATCH 01/63] fix: flush association data before fsync in the file
 store

storeAssociation called fsync while the data was still in the Python file
buffer, so a power failure after the rename could leave an empty association.
---
 openid/store/filestore.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openid/store/filestore.py b/openid/store/filestore.py
index 33e35e0..891cb76 100644
--- a/openid/store/filestore.py
+++ b/openid/store/filestore.py
@@ -188,6 +188,7 @@ class FileOpenIDStore(OpenIDStore):
         try:
             try:
                 tmp_file.write(association_s.encode('utf-8'))
+                tmp_file.flush()
                 os.fsync(tmp_file.fileno())
             finally:
                 tmp_file.close()
-- 
2.43.0


From 8dd523a6251783069ddc6d29540272965849801d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:07 +0000
Subject: [PATCH 02/63] fix: do not compare associations issued in the same
 second

Looking up the associations of a server sorted (issued, association) pairs;
with equal issue times Python 3 raised TypeError.
---
 openid/store/filestore.py | 2 +-
 openid/store/sqlstore.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/openid/store/filestore.py b/openid/store/filestore.py
index 891cb76..de00ce2 100644
--- a/openid/store/filestore.py
+++ b/openid/store/filestore.py
@@ -256,7 +256,7 @@ class FileOpenIDStore(OpenIDStore):
                     matching_associations.append(
                         (association.issued, association))
 
-            matching_associations.sort()
+            matching_associations.sort(key=lambda item: item[0])
 
             # return the most recently issued one.
             if matching_associations:
diff --git a/openid/store/sqlstore.py b/openid/store/sqlstore.py
index 2d3b0b8..69a9abe 100644
--- a/openid/store/sqlstore.py
+++ b/openid/store/sqlstore.py
@@ -247,7 +247,7 @@ class SQLStore(OpenIDStore):
                     associations.append((assoc.issued, assoc))
 
             if associations:
-                associations.sort()
+                associations.sort(key=lambda item: item[0])
                 return associations[-1][1]
             else:
                 return None
-- 
2.43.0


From 26b3da63dcffd12a3dca2b7f374bd77e2ccb39c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:11 +0000
Subject: [PATCH 03/63] fix: allow SQL stores to be created with the default
 table names

---
 openid/store/sqlstore.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/openid/store/sqlstore.py b/openid/store/sqlstore.py
index 69a9abe..71cca95 100644
--- a/openid/store/sqlstore.py
+++ b/openid/store/sqlstore.py
@@ -99,10 +99,12 @@ class SQLStore(OpenIDStore):
         self.conn = conn
         self.cur = None
         self._statement_cache = {}
-        associations_table = string_to_text(
-            associations_table, "Binary values for associations_table are deprecated. Use text input instead.")
-        nonces_table = string_to_text(nonces_table,
-                                      "Binary values for nonces_table are deprecated. Use text input instead.")
+        if associations_table is not None:
+            associations_table = string_to_text(
+                associations_table, "Binary values for associations_table are deprecated. Use text input instead.")
+        if nonces_table is not None:
+            nonces_table = string_to_text(nonces_table,
+                                          "Binary values for nonces_table are deprecated. Use text input instead.")
         self._table_names = {
             'associations': associations_table or self.associations_table,
             'nonces': nonces_table or self.nonces_table,
-- 
2.43.0


From eabee93ea3f5c57c14a20bb37e364de568bfa79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:14 +0000
Subject: [PATCH 04/63] fix: make nonce use atomic in the memory store

Checking and inserting were separate steps, so two threads could both be told
that the same nonce is fresh.
---
 openid/store/memstore.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/openid/store/memstore.py b/openid/store/memstore.py
index 5587676..1d99524 100644
--- a/openid/store/memstore.py
+++ b/openid/store/memstore.py
@@ -89,11 +89,9 @@ class MemoryStore(object):
             return False
 
         anonce = (six.text_type(server_url), int(timestamp), six.text_type(salt))
-        if anonce in self.nonces:
-            return False
-        else:
-            self.nonces[anonce] = None
-            return True
+        # A single dictionary operation, so that only one of several threads can win.
+        mark = []
+        return self.nonces.setdefault(anonce, mark) is mark
 
     def cleanupNonces(self):
         now = time.time()
-- 
2.43.0


From 40cf88d7a4724d734a1fddc42c4d74a972691aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:39 +0000
Subject: [PATCH 05/63] fix: do not pick an expired association in the memory
 store

When several associations exist for a server, an expired one hid an older one
that is still valid.
---
 openid/store/memstore.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openid/store/memstore.py b/openid/store/memstore.py
index 1d99524..7bbfdab 100644
--- a/openid/store/memstore.py
+++ b/openid/store/memstore.py
@@ -28,12 +28,14 @@ class ServerAssocs(object):
             return True
 
     def best(self):
-        """Returns association with the oldest issued date.
+        """Returns the most recently issued association that has not expired.
 
-        or None if there are no associations.
+        or None if there are no such associations.
         """
         best = None
         for assoc in self.assocs.values():
+            if assoc.getExpiresIn() == 0:
+                continue
             if best is None or best.issued < assoc.issued:
                 best = assoc
         return best
-- 
2.43.0


From a4c22300619cdd803c89efefb331229874c7ba0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:14 +0000
Subject: [PATCH 06/63] fix: confirm an assertion only once under concurrent
 verification

Two check_authentication requests for the same assertion that are processed
concurrently could both be answered with is_valid:true, because the signature
was checked before the association was removed.  Only the request that really
removed the association is now answered positively.
---
 openid/server/server.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/openid/server/server.py b/openid/server/server.py
index 95b847c..2865b6d 100644
--- a/openid/server/server.py
+++ b/openid/server/server.py
@@ -262,7 +262,10 @@ class CheckAuthRequest(OpenIDRequest):
         is_valid = signatory.verify(self.assoc_handle, self.signed)
         # Now invalidate that assoc_handle so it this checkAuth message cannot
         # be replayed.
-        signatory.invalidate(self.assoc_handle, dumb=True)
+        invalidated = signatory.invalidate(self.assoc_handle, dumb=True)
+        if invalidated is not None and not invalidated:
+            # Another copy of this request has been answered in the meantime.
+            is_valid = False
         response = OpenIDResponse(self)
         valid_str = (is_valid and "true") or "false"
         response.fields.setArg(OPENID_NS, 'is_valid', valid_str)
@@ -1315,6 +1318,9 @@ class Signatory(object):
 
         @param dumb: Is this association used with dumb mode?
         @type dumb: bool
+
+        @returns: whether the association was there to be invalidated.
+        @returntype: bool
         """
         if dumb:
             key = self._dumb_key
@@ -1322,7 +1328,7 @@ class Signatory(object):
             key = self._normal_key
         assoc_handle = string_to_text(assoc_handle,
                                       "Binary values for assoc_handle are deprecated. Use text input instead.")
-        self.store.removeAssociation(key, assoc_handle)
+        return self.store.removeAssociation(key, assoc_handle)
 
 
 class Encoder(object):
-- 
2.43.0


From 485e8ab09b0ba891ffc66a12e3d81b252285b3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:29 +0000
Subject: [PATCH 07/63] fix: hash the DH shared secret in its shortest form

The exchange pads the secret with zero bytes to the length of the modulus, but
the specification hashes the shortest two's complement form.  About one
exchange in 256 gave a key that differs from the one of a conforming peer.
---
 openid/dh.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openid/dh.py b/openid/dh.py
index 1b6f34c..6b1e159 100644
--- a/openid/dh.py
+++ b/openid/dh.py
@@ -131,9 +131,9 @@ class DiffieHellman(object):
         warnings.warn("Method 'xorSecret' is deprecated, use 'xor_secret' instead.", DeprecationWarning)
         dh_shared = self._get_shared_secret(cryptutil.longToBase64(composite))
 
-        # The DH secret must be `btwoc` compatible.
+        # The DH secret must be `btwoc` compatible, without the padding to the length of the modulus.
         # See http://openid.net/specs/openid-authentication-2_0.html#rfc.section.8.2.3 for details.
-        dh_shared = cryptutil.fix_btwoc(dh_shared)
+        dh_shared = cryptutil.int_to_bytes(cryptutil.bytes_to_int(dh_shared))
 
         hashed_dh_shared = hash_func(dh_shared)
         return strxor(secret, hashed_dh_shared)
@@ -150,9 +150,9 @@ class DiffieHellman(object):
         """
         dh_shared = self._get_shared_secret(public_key)
 
-        # The DH secret must be `btwoc` compatible.
+        # The DH secret must be `btwoc` compatible, without the padding to the length of the modulus.
         # See http://openid.net/specs/openid-authentication-2_0.html#rfc.section.8.2.3 for details.
-        dh_shared = cryptutil.fix_btwoc(dh_shared)
+        dh_shared = cryptutil.int_to_bytes(cryptutil.bytes_to_int(dh_shared))
 
         digest = hashes.Hash(algorithm, backend=default_backend())
         digest.update(dh_shared)
-- 
2.43.0


From 7fe4b3f3657d6cf6aac177ba932771589db157ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:56 +0000
Subject: [PATCH 08/63] fix: let nonces be used while the memory store is
 cleaned up

Another thread using a nonce during cleanupNonces made it fail with
'dictionary changed size during iteration', and two concurrent clean-ups could
fail on removing the same nonce.
---
 openid/store/memstore.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openid/store/memstore.py b/openid/store/memstore.py
index 7bbfdab..df00d22 100644
--- a/openid/store/memstore.py
+++ b/openid/store/memstore.py
@@ -98,13 +98,13 @@ class MemoryStore(object):
     def cleanupNonces(self):
         now = time.time()
         expired = []
-        for anonce in self.nonces:
+        for anonce in list(self.nonces):
             if abs(anonce[1] - now) > nonce.SKEW:
-                # removing items while iterating over the set could be bad.
+                # removing items while iterating over the set could be bad (and so is adding them in other threads).
                 expired.append(anonce)
 
         for anonce in expired:
-            del self.nonces[anonce]
+            self.nonces.pop(anonce, None)
         return len(expired)
 
     def cleanupAssociations(self):
-- 
2.43.0


From 7dc8f7ebf550c6acf2b2664121a12ca31347e9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:00 +0000
Subject: [PATCH 09/63] fix: answer refused OpenID 1 immediate requests

---
 openid/server/server.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/openid/server/server.py b/openid/server/server.py
index 2865b6d..c5c59f6 100644
--- a/openid/server/server.py
+++ b/openid/server/server.py
@@ -900,10 +900,7 @@ class CheckIDRequest(OpenIDRequest):
                 setup_request = self.__class__(
                     self.identity, self.return_to, self.trust_root,
                     immediate=False, assoc_handle=self.assoc_handle,
-                    op_endpoint=self.op_endpoint, claimed_id=self.claimed_id)
-
-                # XXX: This API is weird.
-                setup_request.message = self.message
+                    op_endpoint=self.op_endpoint, claimed_id=self.claimed_id, message=self.message)
 
                 setup_url = setup_request.encodeToURL(server_url)
                 response.fields.setArg(OPENID_NS, 'user_setup_url', setup_url)
-- 
2.43.0


From 46636b8c6e87c719e45c8974cdf56b078526f555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:42 +0000
Subject: [PATCH 10/63] fix: encode requests without a claimed identifier as
 URLs

---
 openid/server/server.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openid/server/server.py b/openid/server/server.py
index c5c59f6..1efea57 100644
--- a/openid/server/server.py
+++ b/openid/server/server.py
@@ -925,9 +925,11 @@ class CheckIDRequest(OpenIDRequest):
         # That's right, code imported from alternate realities all for the
         # love of you, id_res/user_setup_url.
         q = {'mode': self.mode,
-             'identity': self.identity,
-             'claimed_id': self.claimed_id,
              'return_to': self.return_to}
+        if self.identity is not None:
+            q['identity'] = self.identity
+        if self.claimed_id is not None:
+            q['claimed_id'] = self.claimed_id
         if self.trust_root:
             if self.message.isOpenID1():
                 q['trust_root'] = self.trust_root
-- 
2.43.0


From 55a008067d0ae29ffbc885edb731b7fbf49b1e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:33 +0000
Subject: [PATCH 11/63] fix: MemoryStore keeps associations stored by several
 threads at once

---
 openid/store/memstore.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/openid/store/memstore.py b/openid/store/memstore.py
index df00d22..3baf703 100644
--- a/openid/store/memstore.py
+++ b/openid/store/memstore.py
@@ -65,11 +65,8 @@ class MemoryStore(object):
         self.nonces = {}
 
     def _getServerAssocs(self, server_url):
-        try:
-            return self.server_assocs[server_url]
-        except KeyError:
-            assocs = self.server_assocs[server_url] = ServerAssocs()
-            return assocs
+        # A single dictionary operation, so that all threads get the same object.
+        return self.server_assocs.setdefault(server_url, ServerAssocs())
 
     def storeAssociation(self, server_url, assoc):
         assocs = self._getServerAssocs(server_url)
-- 
2.43.0


From fcf529bfaa7432ec902b33db2c8a1ca31de69dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:30 +0000
Subject: [PATCH 12/63] fix: MemoryStore.getAssociation tolerates other threads
 storing associations

---
 openid/store/memstore.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openid/store/memstore.py b/openid/store/memstore.py
index 3baf703..174ba2e 100644
--- a/openid/store/memstore.py
+++ b/openid/store/memstore.py
@@ -33,7 +33,8 @@ class ServerAssocs(object):
         or None if there are no such associations.
         """
         best = None
-        for assoc in self.assocs.values():
+        # Iterate over a copy, other threads may change the dictionary.
+        for assoc in list(self.assocs.values()):
             if assoc.getExpiresIn() == 0:
                 continue
             if best is None or best.issued < assoc.issued:
-- 
2.43.0


From 6c3eec24421d667ddd468bd66f4fd8e0808c3566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:01 +0000
Subject: [PATCH 13/63] fix: refuse association keys of the wrong length

---
 openid/consumer/consumer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index 275a08a..65d8fd9 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -198,7 +198,7 @@ from cryptography.hazmat.primitives import hashes
 from six.moves.urllib.parse import parse_qsl, urldefrag, urlparse
 
 from openid import cryptutil, fetchers, oidutil, urinorm
-from openid.association import Association, SessionNegotiator, default_negotiator
+from openid.association import Association, SessionNegotiator, default_negotiator, getSecretSize
 from openid.consumer.discover import (OPENID_1_0_TYPE, OPENID_1_1_TYPE, OPENID_2_0_TYPE, DiscoveryFailure,
                                       OpenIDServiceEndpoint, discover)
 from openid.dh import DiffieHellman
@@ -1419,6 +1419,10 @@ class GenericConsumer(object):
             fmt = 'Malformed response for %s session: %s'
             raise ProtocolError(fmt % (assoc_session.session_type, six.text_type(why)))
 
+        # Diffie-Hellman sessions check the length themselves
+        if session_type == 'no-encryption' and len(secret) != getSecretSize(assoc_type):
+            raise ProtocolError('Wrong length of the %s key: %s bytes' % (assoc_type, len(secret)))
+
         return Association.fromExpiresIn(
             expires_in, assoc_handle, secret, assoc_type)
 
-- 
2.43.0


From efcf5d67f6cf3847eb0fc5bc47d143f96850c665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:05 +0000
Subject: [PATCH 14/63] fix: keep no-encryption association responses inside
 the association policy

---
 openid/consumer/consumer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index 65d8fd9..71f8120 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -1410,6 +1410,12 @@ class GenericConsumer(object):
             fmt = 'Unsupported assoc_type for session %s returned: %s'
             raise ProtocolError(fmt % (assoc_session.session_type, assoc_type))
 
+        # In a no-encryption session the server has a choice of types, but
+        # not beyond our own policy.
+        if session_type == 'no-encryption' and not self.negotiator.isAllowed(assoc_type, session_type):
+            fmt = 'Association type %s is not allowed with session %s'
+            raise ProtocolError(fmt % (assoc_type, session_type))
+
         # Delegate to the association session to extract the secret
         # from the response, however is appropriate for that session
         # type.
-- 
2.43.0


From 0c923b3c54080cede08ae5ea36ac41863870c911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:09 +0000
Subject: [PATCH 15/63] fix: send the unsupported-type association answer as an
 HTTP error

---
 openid/server/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openid/server/server.py b/openid/server/server.py
index 1efea57..eaacabf 100644
--- a/openid/server/server.py
+++ b/openid/server/server.py
@@ -1350,7 +1350,7 @@ class Encoder(object):
         encode_as = response.whichEncoding()
         if encode_as == ENCODE_KVFORM:
             wr = self.responseFactory(body=response.encodeToKVForm())
-            if isinstance(response, Exception):
+            if isinstance(response, Exception) or response.fields.hasKey(OPENID_NS, 'error_code'):
                 wr.code = HTTP_ERROR
         elif encode_as == ENCODE_URL:
             location = response.encodeToURL()
-- 
2.43.0


From 57055637862cabc20d920f08520f417ab1952efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:55 +0000
Subject: [PATCH 16/63] fix: tolerate unknown charsets in discovery

---
 openid/yadis/discover.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openid/yadis/discover.py b/openid/yadis/discover.py
index c4678a7..ca4f9d8 100644
--- a/openid/yadis/discover.py
+++ b/openid/yadis/discover.py
@@ -138,7 +138,8 @@ def whereIsYadis(resp):
 
             try:
                 buff = StringIO(resp.body.decode(encoding))
-            except UnicodeError:
+            except (UnicodeError, LookupError):
+                # LookupError: There is no such encoding.
                 # Keep encoded version in case yadis location can be found before encoding shut this up.
                 # Possible errors will be caught lower.
                 buff = BytesIO(resp.body)
-- 
2.43.0


From 06d0c389f9981569f4bfc6524a2d3d9214ff036a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:57 +0000
Subject: [PATCH 17/63] fix: fail the login when discovery for verification
 cannot fetch

---
 openid/consumer/consumer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index 71f8120..53fd0bc 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -1048,7 +1048,10 @@ class GenericConsumer(object):
         @raises DiscoveryFailure: when discovery fails.
         """
         _LOGGER.info('Performing discovery on %s', claimed_id)
-        _, services = self._discover(claimed_id)
+        try:
+            _, services = self._discover(claimed_id)
+        except fetchers.HTTPFetchingError as why:
+            raise DiscoveryFailure('Error fetching XRDS document: %s' % six.text_type(why), None)
         if not services:
             raise DiscoveryFailure('No OpenID information found at %s' %
                                    (claimed_id,), None)
-- 
2.43.0


From 711d770a1662f3e7eb3ddb8db71ac72d92da9865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:01 +0000
Subject: [PATCH 18/63] fix: report forbidden namespace aliases as invalid
 namespaces

---
 openid/message.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/openid/message.py b/openid/message.py
index 554069f..f706ae9 100644
--- a/openid/message.py
+++ b/openid/message.py
@@ -86,6 +86,14 @@ class InvalidNamespace(KeyError):
     """
 
 
+class InvalidNamespaceAlias(InvalidNamespace, AssertionError):
+    """
+    Raised if a namespace can not have the alias in question
+
+    It is an C{AssertionError} for backward compatibility.
+    """
+
+
 # Sentinel used for Message implementation to indicate that getArg
 # should raise an exception instead of returning a default.
 no_default = object()
@@ -601,13 +609,14 @@ class NamespaceMap(object):
         """
         # Check that desired_alias is not an openid protocol field as
         # per the spec.
-        assert desired_alias not in OPENID_PROTOCOL_FIELDS, "%r is not an allowed namespace alias" % (desired_alias,)
+        if desired_alias in OPENID_PROTOCOL_FIELDS:
+            raise InvalidNamespaceAlias("%r is not an allowed namespace alias" % (desired_alias,))
 
         # Check that desired_alias does not contain a period as per
         # the spec.
         if isinstance(desired_alias, six.string_types):
-            assert '.' not in desired_alias, \
-                   "%r must not contain a dot" % (desired_alias,)
+            if '.' in desired_alias:
+                raise InvalidNamespaceAlias("%r must not contain a dot" % (desired_alias,))
 
         # Check that there is not a namespace already defined for
         # the desired alias
@@ -633,7 +642,8 @@ class NamespaceMap(object):
             raise InvalidNamespace(fmt % (namespace_uri, desired_alias, alias))
 
         assert (desired_alias == NULL_NAMESPACE or isinstance(desired_alias, six.string_types)), repr(desired_alias)
-        assert namespace_uri not in self.implicit_namespaces
+        if namespace_uri in self.implicit_namespaces:
+            raise InvalidNamespaceAlias("%r is already defined implicitly" % (namespace_uri,))
         self.alias_to_namespace[desired_alias] = namespace_uri
         self.namespace_to_alias[namespace_uri] = desired_alias
         if implicit:
-- 
2.43.0


From 6cddbca9407c5d76d262efea25fac18d187ac224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:12 +0000
Subject: [PATCH 19/63] fix: treat undecodable direct responses as failed
 requests

---
 openid/consumer/consumer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index 53fd0bc..28249d4 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -202,7 +202,8 @@ from openid.association import Association, SessionNegotiator, default_negotiato
 from openid.consumer.discover import (OPENID_1_0_TYPE, OPENID_1_1_TYPE, OPENID_2_0_TYPE, DiscoveryFailure,
                                       OpenIDServiceEndpoint, discover)
 from openid.dh import DiffieHellman
-from openid.message import BARE_NS, IDENTIFIER_SELECT, OPENID1_NS, OPENID2_NS, OPENID_NS, Message, no_default
+from openid.message import (BARE_NS, IDENTIFIER_SELECT, OPENID1_NS, OPENID2_NS, OPENID_NS, InvalidNamespace, Message,
+                            no_default)
 from openid.oidutil import string_to_text
 from openid.store.nonce import mkNonce, split as splitNonce
 from openid.yadis.manager import Discovery
@@ -245,7 +246,11 @@ def _httpResponseToMessage(response, server_url):
     @raises ServerError: if the server returned an OpenID error.
     """
     # Should this function be named Message.fromHTTPResponse instead?
-    response_message = Message.fromKVForm(response.body)
+    try:
+        response_message = Message.fromKVForm(response.body)
+    except (ValueError, InvalidNamespace) as why:
+        fmt = 'malformed response with status code %s from server %s: %s'
+        raise fetchers.HTTPFetchingError(fmt % (response.status, server_url, why))
     if response.status == 400:
         raise ServerError.fromMessage(response_message)
 
-- 
2.43.0


From 9eb601d709b67a2c7153e5832837fbd5cf14e73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:59 +0000
Subject: [PATCH 20/63] fix: report unparsable identifiers as discovery failure

---
 openid/consumer/discover.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openid/consumer/discover.py b/openid/consumer/discover.py
index 8689bf7..cdbbef4 100644
--- a/openid/consumer/discover.py
+++ b/openid/consumer/discover.py
@@ -449,7 +449,10 @@ def discoverNoYadis(uri):
 
 
 def discoverURI(uri):
-    parsed = urlparse(uri)
+    try:
+        parsed = urlparse(uri)
+    except ValueError as why:
+        raise DiscoveryFailure('Parsing identifier: %s' % six.text_type(why), None)
     if parsed[0] and parsed[1]:
         if parsed[0] not in ['http', 'https']:
             raise DiscoveryFailure('URI scheme is not HTTP or HTTPS', None)
-- 
2.43.0


From 1a02d346af5269b66eff93becf553731b096277e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:02 +0000
Subject: [PATCH 21/63] fix: refuse association lifetimes no store can keep

---
 openid/consumer/consumer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index 28249d4..8bd6928 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -1388,6 +1388,9 @@ class GenericConsumer(object):
             expires_in = int(expires_in_str)
         except ValueError as why:
             raise ProtocolError('Invalid expires_in field: %s' % six.text_type(why))
+        # Stores are not required to keep bigger numbers
+        if abs(expires_in) >= 2 ** 31:
+            raise ProtocolError('Invalid expires_in field: out of range')
 
         # OpenID 1 has funny association session behaviour.
         if assoc_response.isOpenID1():
-- 
2.43.0


From eb7912bc63d1b9a22136be4a4fbe77862d3fe77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:45 +0000
Subject: [PATCH 22/63] fix: tolerate empty and malformed elements in XRDS
 documents

---
 openid/yadis/etxrd.py | 12 ++++++++++--
 openid/yadis/xri.py   |  4 +++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/openid/yadis/etxrd.py b/openid/yadis/etxrd.py
index 9e97e4c..5ecfbbe 100644
--- a/openid/yadis/etxrd.py
+++ b/openid/yadis/etxrd.py
@@ -171,16 +171,21 @@ def getCanonicalID(iname, xrd_tree):
     xrd_list.reverse()
 
     try:
-        canonicalID = xri.XRI(xrd_list[0].findall(canonicalID_tag)[0].text)
+        canonicalID_text = xrd_list[0].findall(canonicalID_tag)[0].text
     except IndexError:
         return None
+    if not canonicalID_text:
+        return None
+    canonicalID = xri.XRI(canonicalID_text)
 
     childID = canonicalID.lower()
 
     for xrd in xrd_list[1:]:
         # XXX: can't use rsplit until we require python >= 2.4.
+        if '!' not in childID:
+            raise XRDSFraud("%r has no parent" % (childID,))
         parent_sought = childID[:childID.rindex('!')]
-        parent = xri.XRI(xrd.findtext(canonicalID_tag))
+        parent = xri.XRI(xrd.findtext(canonicalID_tag) or '')
         if parent_sought != parent.lower():
             raise XRDSFraud("%r can not come from %s" % (childID, parent))
 
@@ -274,6 +279,9 @@ def getTypeURIs(service_element):
     output = []
     for type_element in service_element.findall(type_tag):
         type_uri = type_element.text
+        if type_uri is None:
+            # An empty element names no type.
+            continue
         # Attribute `text` returns str in both python 2 and 3, convert to text_type in 2.7
         if not isinstance(type_uri, six.text_type):
             type_uri = type_uri.decode('utf-8')
diff --git a/openid/yadis/xri.py b/openid/yadis/xri.py
index 4712c6d..00e19a3 100644
--- a/openid/yadis/xri.py
+++ b/openid/yadis/xri.py
@@ -85,7 +85,9 @@ def providerIsAuthoritative(providerID, canonicalID):
     @returntype: bool
     """
     # XXX: can't use rsplit until we require python >= 2.4.
-    lastbang = canonicalID.rindex('!')
+    lastbang = canonicalID.rfind('!')
+    if lastbang == -1:
+        return False
     parent = canonicalID[:lastbang]
     return parent == providerID
 
-- 
2.43.0


From f4babee139c1cba65ee123227d683ce324035352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:08 +0000
Subject: [PATCH 23/63] fix: ignore discovered endpoints that are not HTTP URLs

---
 openid/consumer/discover.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/openid/consumer/discover.py b/openid/consumer/discover.py
index cdbbef4..4060d1b 100644
--- a/openid/consumer/discover.py
+++ b/openid/consumer/discover.py
@@ -132,9 +132,9 @@ class OpenIDServiceEndpoint(object):
         @return: None or OpenIDServiceEndpoint for this endpoint object"""
         type_uris = endpoint.matchTypes(cls.openid_type_uris)
 
-        # If any Type URIs match and there is an endpoint URI
+        # If any Type URIs match and there is a usable endpoint URI
         # specified, then this is an OpenID endpoint
-        if type_uris and endpoint.uri is not None:
+        if type_uris and endpoint.uri is not None and isEndpointURL(endpoint.uri):
             openid_endpoint = cls()
             openid_endpoint.parseService(
                 endpoint.yadis_url,
@@ -169,7 +169,7 @@ class OpenIDServiceEndpoint(object):
             if not op_links:
                 continue
             op_endpoint_url = op_links[0].get('href')
-            if not op_endpoint_url:
+            if not op_endpoint_url or not isEndpointURL(op_endpoint_url):
                 continue
 
             local_id_links = parsed_html.xpath(LINK_REL_XPATH.format(local_id_rel))
@@ -247,6 +247,15 @@ class OpenIDServiceEndpoint(object):
                     self.used_yadis))
 
 
+def isEndpointURL(url):
+    """Is this something an OP Endpoint URL can be: an absolute HTTP or HTTPS URL?"""
+    try:
+        parsed = urlparse(url)
+    except ValueError:
+        return False
+    return parsed[0] in ('http', 'https') and bool(parsed[1])
+
+
 def findOPLocalIdentifier(service_element, type_uris):
     """Find the OP-Local Identifier for this xrd:Service element.
 
-- 
2.43.0


From 7f26c6d6873124b174b1dc876eaa283e440fb985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:22 +0000
Subject: [PATCH 24/63] fix: refuse association handles with unprintable
 characters

---
 openid/consumer/consumer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index 8bd6928..23d29eb 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -1377,6 +1377,10 @@ class GenericConsumer(object):
             OPENID_NS, 'assoc_type', no_default)
         assoc_handle = assoc_response.getArg(
             OPENID_NS, 'assoc_handle', no_default)
+        # A handle is made of printable ASCII characters. Others may not
+        # survive the way to the OP and back.
+        if any(not 32 <= ord(c) <= 126 for c in assoc_handle):
+            raise ProtocolError('Invalid assoc_handle %r' % (assoc_handle,))
 
         # expires_in is a base-10 string. The Python parsing will
         # accept literals that have whitespace around them and will
-- 
2.43.0


From 0bdfaaf0e373d8da8d5574989607a946352e80a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:11 +0000
Subject: [PATCH 25/63] fix: report requests with several broken namespaces as
 protocol errors

---
 openid/server/server.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openid/server/server.py b/openid/server/server.py
index eaacabf..f1a7331 100644
--- a/openid/server/server.py
+++ b/openid/server/server.py
@@ -1448,7 +1448,11 @@ class Decoder(object):
             # are more useful than a 'None'.
             query = query.copy()
             query['openid.ns'] = OPENID2_NS
-            message = Message.fromPostArgs(query)
+            try:
+                message = Message.fromPostArgs(query)
+            except InvalidNamespace:
+                # Other namespaces are broken as well, keep only bare parts of query.
+                message = Message.fromPostArgs(dict((k, v) for k, v in query.items() if k.count('.') < 2))
             raise ProtocolError(message, six.text_type(err))
         except InvalidNamespace as err:
             # If openid.ns is OK, but there is problem with other namespaces
-- 
2.43.0


From ed70d769f88f315887ed99bd4593cbf1439b3eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:14 +0000
Subject: [PATCH 26/63] fix: encode protocol errors with line breaks in their
 text

---
 openid/server/server.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openid/server/server.py b/openid/server/server.py
index f1a7331..0b8a8ac 100644
--- a/openid/server/server.py
+++ b/openid/server/server.py
@@ -1725,7 +1725,10 @@ class ProtocolError(Exception):
         return self.toMessage().toURL(self.getReturnTo())
 
     def encodeToKVForm(self):
-        return self.toMessage().toKVForm()
+        message = self.toMessage()
+        # Values in key-value form must not contain newlines.
+        message.setArg(OPENID_NS, 'error', ' '.join(six.text_type(self).split('\n')))
+        return message.toKVForm()
 
     def toFormMarkup(self):
         """Encode to HTML form markup for POST.
-- 
2.43.0


From b793672c858f6b762b5945c82b7b9acfdfff57fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:18 +0000
Subject: [PATCH 27/63] fix: refuse verification requests whose
 invalidate_handle cannot be echoed

---
 openid/server/server.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openid/server/server.py b/openid/server/server.py
index 0b8a8ac..2b0dc4d 100644
--- a/openid/server/server.py
+++ b/openid/server/server.py
@@ -234,6 +234,8 @@ class CheckAuthRequest(OpenIDRequest):
         if (assoc_handle is None or sig is None):
             fmt = "%s request missing required parameter from message %s"
             raise ProtocolError(message, text=fmt % (klass.mode, message))
+        if invalidate_handle is not None and '\n' in invalidate_handle:
+            raise ProtocolError(message, text="Invalid invalidate_handle %r" % (invalidate_handle,))
 
         signed = message.copy()
         # openid.mode is currently check_authentication because
-- 
2.43.0


From c52bbba455f7d19fe7ae75fb2881deed5a9a6748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:21 +0000
Subject: [PATCH 28/63] fix: refuse OpenID 1 requests with an empty identity

---
 openid/server/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openid/server/server.py b/openid/server/server.py
index 2b0dc4d..8f04e10 100644
--- a/openid/server/server.py
+++ b/openid/server/server.py
@@ -597,7 +597,7 @@ class CheckIDRequest(OpenIDRequest):
 
         # Check the identifier validity. In case of error, create protocol error from the message in the argument.
         if self.message.isOpenID1():
-            if identity is None:
+            if not identity:
                 s = "OpenID 1 message did not contain openid.identity"
                 raise ProtocolError(message, text=s)
         else:
-- 
2.43.0


From f62848d81ab20091b3b84928c1897aba6d2ee489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:46 +0000
Subject: [PATCH 29/63] fix: report unusable Diffie-Hellman public keys as
 protocol errors

---
 openid/server/server.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openid/server/server.py b/openid/server/server.py
index 8f04e10..c6a12e5 100644
--- a/openid/server/server.py
+++ b/openid/server/server.py
@@ -393,7 +393,11 @@ class DiffieHellmanSHA1ServerSession(object):
             raise ProtocolError(message, "Public key for DH-SHA1 session "
                                 "not found in message %s" % (message,))
 
-        return cls(dh, consumer_public_key)
+        session = cls(dh, consumer_public_key)
+        # The key exchange is not possible with trivial or too large public keys.
+        if not 1 < cryptutil.base64ToLong(consumer_public_key) < dh.parameter_numbers.p - 1:
+            raise ValueError("Public key %r is out of range." % (consumer_public_key,))
+        return session
 
     def answer(self, secret):
         if self.hash_func is not None:
-- 
2.43.0


From 5cdd52333c58bf4dcd11b2dc83ab0ad6ab9fedd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:49 +0000
Subject: [PATCH 30/63] fix: report unusable Diffie-Hellman parameters as
 ValueError

---
 openid/dh.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/openid/dh.py b/openid/dh.py
index 6b1e159..a33a3fa 100644
--- a/openid/dh.py
+++ b/openid/dh.py
@@ -5,6 +5,7 @@ import base64
 import warnings
 
 import six
+from cryptography.exceptions import InternalError
 from cryptography.hazmat.backends import default_backend
 from cryptography.hazmat.primitives import hashes
 from cryptography.hazmat.primitives.asymmetric.dh import DHParameterNumbers, DHPublicNumbers
@@ -50,8 +51,11 @@ class DiffieHellman(object):
             generator = cryptutil.base64ToLong(generator)
 
         self.parameter_numbers = DHParameterNumbers(modulus, generator)
-        parameters = self.parameter_numbers.parameters(default_backend())
-        self.private_key = parameters.generate_private_key()
+        try:
+            parameters = self.parameter_numbers.parameters(default_backend())
+            self.private_key = parameters.generate_private_key()
+        except InternalError as error:
+            raise ValueError("Invalid Diffie-Hellman parameters: {}".format(error))
 
     @classmethod
     def fromDefaults(cls):
-- 
2.43.0


From 7de9af1dbe6ffcbfe4d536e488f7f04c014e4e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:28 +0000
Subject: [PATCH 31/63] fix: treat URLs with control characters or unusable
 hosts as malformed

---
 openid/server/trustroot.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/openid/server/trustroot.py b/openid/server/trustroot.py
index 349032f..e22a824 100644
--- a/openid/server/trustroot.py
+++ b/openid/server/trustroot.py
@@ -86,17 +86,24 @@ class RealmVerificationRedirected(Exception):
                  self.rp_url_after_redirects))
 
 
+_CONTROL_CHARACTERS = re.compile('[\\x00-\\x1f\\x7f]')
+
+
 def _parseURL(url):
+    # Control characters are not allowed in URLs, but `urlsplit` removes some of them silently.
+    if _CONTROL_CHARACTERS.search(url):
+        return None
+
     try:
         url = urinorm.urinorm(url)
+        split_url = urlsplit(url)
+        port = split_url.port
     except ValueError:
         return None
 
-    split_url = urlsplit(url)
-
     path = urlunsplit(('', '', split_url.path or '/', split_url.query, split_url.fragment))
 
-    return split_url.scheme, split_url.hostname, split_url.port, path
+    return split_url.scheme, split_url.hostname, port, path
 
 
 class TrustRoot(object):
-- 
2.43.0


From c3b395d2a64a76072dbc1336d8e981af98b1dbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:31 +0000
Subject: [PATCH 32/63] fix: do not send errors to malformed return addresses

---
 openid/server/server.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openid/server/server.py b/openid/server/server.py
index c6a12e5..807f1a2 100644
--- a/openid/server/server.py
+++ b/openid/server/server.py
@@ -1702,11 +1702,12 @@ class ProtocolError(Exception):
             return self.openid_message.getArg(OPENID_NS, 'return_to')
 
     def hasReturnTo(self):
-        """Did this request have a return_to parameter?
+        """Did this request have a return_to parameter which can be redirected to?
 
         @returntype: bool
         """
-        return self.getReturnTo() is not None
+        return_to = self.getReturnTo()
+        return return_to is not None and TrustRoot.parse(return_to) is not None
 
     def toMessage(self):
         """Generate a Message object for sending to the relying party,
-- 
2.43.0


From 823595929a0a2a207df967492cef00b82134890f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:13 +0000
Subject: [PATCH 33/63] fix: report answers no form can carry as EncodingError

---
 openid/server/server.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/openid/server/server.py b/openid/server/server.py
index 807f1a2..2f2b1e5 100644
--- a/openid/server/server.py
+++ b/openid/server/server.py
@@ -1363,8 +1363,12 @@ class Encoder(object):
             wr = self.responseFactory(code=HTTP_REDIRECT,
                                       headers={'location': location})
         elif encode_as == ENCODE_HTML_FORM:
-            wr = self.responseFactory(code=HTTP_OK,
-                                      body=response.toHTML())
+            try:
+                body = response.toHTML()
+            except ValueError as why:
+                # A form has no way to carry e.g. control characters.
+                raise EncodingError(response, explanation=six.text_type(why))
+            wr = self.responseFactory(code=HTTP_OK, body=body)
         else:
             # Can't encode this to a protocol message.  You should probably
             # render it to HTML and show it to the user.
-- 
2.43.0


From 1fca1b2192fa05ee051b9a2d48bb02ad0982bdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:02 +0000
Subject: [PATCH 34/63] fix: report failing Diffie-Hellman exchanges as
 protocol errors

---
 openid/dh.py            | 5 ++++-
 openid/server/server.py | 5 ++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/openid/dh.py b/openid/dh.py
index a33a3fa..cc5a0db 100644
--- a/openid/dh.py
+++ b/openid/dh.py
@@ -129,7 +129,10 @@ class DiffieHellman(object):
         @rtype: six.binary_type
         """
         public_numbers = DHPublicNumbers(cryptutil.base64ToLong(public_key), self.parameter_numbers)
-        return self.private_key.exchange(public_numbers.public_key(default_backend()))
+        try:
+            return self.private_key.exchange(public_numbers.public_key(default_backend()))
+        except InternalError as error:
+            raise ValueError("Diffie-Hellman exchange failed: {}".format(error))
 
     def xorSecret(self, composite, secret, hash_func):
         warnings.warn("Method 'xorSecret' is deprecated, use 'xor_secret' instead.", DeprecationWarning)
diff --git a/openid/server/server.py b/openid/server/server.py
index 2f2b1e5..a493bc0 100644
--- a/openid/server/server.py
+++ b/openid/server/server.py
@@ -394,9 +394,8 @@ class DiffieHellmanSHA1ServerSession(object):
                                 "not found in message %s" % (message,))
 
         session = cls(dh, consumer_public_key)
-        # The key exchange is not possible with trivial or too large public keys.
-        if not 1 < cryptutil.base64ToLong(consumer_public_key) < dh.parameter_numbers.p - 1:
-            raise ValueError("Public key %r is out of range." % (consumer_public_key,))
+        # Fail now if the key exchange is not possible, e.g. with trivial or too large public keys.
+        dh._get_shared_secret(consumer_public_key)
         return session
 
     def answer(self, secret):
-- 
2.43.0


From 18e2d3e3a400ac27591e27cc4829b99efc82a723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:41 +0000
Subject: [PATCH 35/63] fix: keep blank and valueless query arguments in
 normalized URIs

---
 openid/urinorm.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/openid/urinorm.py b/openid/urinorm.py
index 22b3dad..20bcb7b 100644
--- a/openid/urinorm.py
+++ b/openid/urinorm.py
@@ -4,7 +4,7 @@ from __future__ import unicode_literals
 import string
 
 import six
-from six.moves.urllib.parse import parse_qsl, quote, unquote, urlencode, urlsplit, urlunsplit
+from six.moves.urllib.parse import quote, quote_plus, unquote, unquote_plus, urlsplit, urlunsplit
 
 from .oidutil import string_to_text
 
@@ -59,6 +59,16 @@ def _check_disallowed_characters(uri_part, part_name):
         raise ValueError('Illegal characters in URI {}: {}'.format(part_name, uri_part))
 
 
+def _normalize_query_chunk(chunk):
+    # This is hackish. `unquote_plus` and `quote_plus` requires `str` in both py27 and py3+.
+    if isinstance(chunk, str):
+        # Python 3 branch
+        return quote_plus(unquote_plus(chunk))
+    else:
+        # Python 2 branch
+        return quote_plus(unquote_plus(chunk.encode('utf-8'))).decode('utf-8')
+
+
 def urinorm(uri):
     """Return normalized URI.
 
@@ -132,15 +142,10 @@ def urinorm(uri):
         path = '/'
     _check_disallowed_characters(path, 'path')
 
-    # Normalize query.  On Python 2, `urlencode` without `doseq=True`
-    # requires values to be convertible to native strings using `str()`.
-    if isinstance(split_uri.query, str):
-        # Python 3 branch
-        data = parse_qsl(split_uri.query)
-    else:
-        # Python 2 branch
-        data = parse_qsl(split_uri.query.encode('utf-8'))
-    query = urlencode(data)
+    # Normalize percent encoding of each query argument.
+    # Arguments with blank values or without '=' are part of the identifier and have to be kept as they are.
+    query = '&'.join('='.join(_normalize_query_chunk(chunk) for chunk in argument.split('=', 1))
+                     for argument in split_uri.query.split('&'))
     _check_disallowed_characters(query, 'query')
 
     # Normalize fragment
-- 
2.43.0


From bca2a8f6d64cad5963d025c6cc95e1fb692c740c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:05 +0000
Subject: [PATCH 36/63] fix: keep encoded slashes and non-UTF-8 bytes in
 normalized URIs

---
 openid/urinorm.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/openid/urinorm.py b/openid/urinorm.py
index 20bcb7b..e4ef86c 100644
--- a/openid/urinorm.py
+++ b/openid/urinorm.py
@@ -59,11 +59,21 @@ def _check_disallowed_characters(uri_part, part_name):
         raise ValueError('Illegal characters in URI {}: {}'.format(part_name, uri_part))
 
 
+def _normalize_path_segment(segment):
+    # This is hackish. `unquote` and `quote` requires `str` in both py27 and py3+.
+    if isinstance(segment, str):
+        # Python 3 branch, keep bytes which are not valid UTF-8
+        return quote(unquote(segment, errors='surrogateescape'), safe=SUB_DELIMS, errors='surrogateescape')
+    else:
+        # Python 2 branch
+        return quote(unquote(segment.encode('utf-8')), safe=SUB_DELIMS.encode('utf-8')).decode('utf-8')
+
+
 def _normalize_query_chunk(chunk):
     # This is hackish. `unquote_plus` and `quote_plus` requires `str` in both py27 and py3+.
     if isinstance(chunk, str):
-        # Python 3 branch
-        return quote_plus(unquote_plus(chunk))
+        # Python 3 branch, keep bytes which are not valid UTF-8
+        return quote_plus(unquote_plus(chunk, errors='surrogateescape'), errors='surrogateescape')
     else:
         # Python 2 branch
         return quote_plus(unquote_plus(chunk.encode('utf-8'))).decode('utf-8')
@@ -127,16 +137,9 @@ def urinorm(uri):
 
     # Normalize path
     path = split_uri.path
-    # Unquote and quote - this normalizes the percent encoding
-
-    # This is hackish. `unquote` and `quote` requires `str` in both py27 and py3+.
-    if isinstance(path, str):
-        # Python 3 branch
-        path = quote(unquote(path), safe='/' + SUB_DELIMS)
-    else:
-        # Python 2 branch
-        path = quote(unquote(path.encode('utf-8')), safe=('/' + SUB_DELIMS).encode('utf-8')).decode('utf-8')
-
+    # Unquote and quote - this normalizes the percent encoding.
+    # Encoded slashes do not separate segments, so each segment has to be normalized on its own.
+    path = '/'.join(_normalize_path_segment(segment) for segment in path.split('/'))
     path = remove_dot_segments(path)
     if not path:
         path = '/'
-- 
2.43.0


From 723624938fa82deb0d706d0e63538c626cea45a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:38 +0000
Subject: [PATCH 37/63] fix: refuse delimiters in host names and keep brackets
 of IP literals

---
 openid/urinorm.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/openid/urinorm.py b/openid/urinorm.py
index e4ef86c..1a01a16 100644
--- a/openid/urinorm.py
+++ b/openid/urinorm.py
@@ -116,6 +116,13 @@ def urinorm(uri):
     except ValueError as error:
         raise ValueError('Invalid hostname {!r}: {}'.format(hostname, error))
     _check_disallowed_characters(hostname, 'hostname')
+    delimiters = set(hostname).intersection(GEN_DELIMS)
+    if delimiters == set(':') and split_uri.netloc.rpartition('@')[2].startswith('['):
+        # Keep brackets of IP literals
+        hostname = '[' + hostname + ']'
+    elif delimiters:
+        # Delimiters would turn parts of a host name into something else, e.g. a path or userinfo.
+        raise ValueError('Illegal characters in URI hostname: {}'.format(hostname))
 
     try:
         port = split_uri.port
-- 
2.43.0


From ae017f8c2bebe52bb63c20de6fa5fee7811e8afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:39 +0000
Subject: [PATCH 38/63] fix: treat URLs without a host as malformed

---
 openid/server/trustroot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openid/server/trustroot.py b/openid/server/trustroot.py
index e22a824..54aa59e 100644
--- a/openid/server/trustroot.py
+++ b/openid/server/trustroot.py
@@ -100,6 +100,8 @@ def _parseURL(url):
         port = split_url.port
     except ValueError:
         return None
+    if not split_url.hostname:
+        return None
 
     path = urlunsplit(('', '', split_url.path or '/', split_url.query, split_url.fragment))
 
-- 
2.43.0


From 7ea2c4050bb48f5e924685a90825e2d34b5947fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:41 +0000
Subject: [PATCH 39/63] fix: do not try to verify return addresses of realms
 matching any host

---
 openid/server/trustroot.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openid/server/trustroot.py b/openid/server/trustroot.py
index 54aa59e..fe1c98d 100644
--- a/openid/server/trustroot.py
+++ b/openid/server/trustroot.py
@@ -436,6 +436,9 @@ def verifyReturnTo(realm_str, return_to, _vrfy=getAllowedReturnURLs):
     if realm is None:
         # The realm does not parse as a URL pattern
         return False
+    if realm.wildcard and not realm.host:
+        # The realm matches any host, there is no site to publish the return_to URLs
+        return False
 
     try:
         allowable_urls = _vrfy(realm.buildDiscoveryURL())
-- 
2.43.0


From 65a2486d97b5ce9310adeca6eaaddbdcceff6148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:41 +0000
Subject: [PATCH 40/63] fix: bind services to the normalized claimed identifier

After a redirect to an address with a fragment or in other than normal
spelling, the endpoints carried that address instead of the claimed
identifier, and assertions about them could not be verified.
---
 openid/consumer/discover.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openid/consumer/discover.py b/openid/consumer/discover.py
index 4060d1b..efe3594 100644
--- a/openid/consumer/discover.py
+++ b/openid/consumer/discover.py
@@ -471,6 +471,10 @@ def discoverURI(uri):
     uri = normalizeURL(uri)
     claimed_id, openid_services = discoverYadis(uri)
     claimed_id = normalizeURL(claimed_id)
+    for service in openid_services:
+        # OP Identifier services are not bound to any claimed identifier.
+        if service.claimed_id is not None:
+            service.claimed_id = claimed_id
     return claimed_id, openid_services
 
 
-- 
2.43.0


From 3b0e301507880afc1acccb993b62be7bb9f29301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:07 +0000
Subject: [PATCH 41/63] fix: find root authority of XRIs with URL
 cross-references

XRIs such as (http://example.com/), =( or xri:// made discovery raise
ValueError or IndexError if the proxy answered for them.
---
 openid/yadis/xri.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openid/yadis/xri.py b/openid/yadis/xri.py
index 00e19a3..b38134b 100644
--- a/openid/yadis/xri.py
+++ b/openid/yadis/xri.py
@@ -105,14 +105,14 @@ def rootAuthority(xri):
     if xri.startswith('xri://'):
         xri = xri[6:]
     authority = xri.split('/', 1)[0]
-    if authority[0] == '(':
-        # Cross-reference.
+    if authority[:1] == '(':
+        # Cross-reference. It may contain slashes, e.g. if it's an URL.
         # XXX: This is incorrect if someone nests cross-references so there
         #   is another close-paren in there.  Hopefully nobody does that
         #   before we have a real xriparse function.  Hopefully nobody does
         #   that *ever*.
-        root = authority[:authority.index(')') + 1]
-    elif authority[0] in XRI_AUTHORITIES:
+        root = xri[:xri.find(')') + 1] or authority
+    elif authority[:1] in XRI_AUTHORITIES:
         # Other XRI reference.
         root = authority[0]
     else:
-- 
2.43.0


From 16be1e295a4ae0359fcee2f70a125cd68c203535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:09 +0000
Subject: [PATCH 42/63] fix: do not mix services of XRIs with different
 CanonicalIDs

Each service type is resolved by a separate request, and the answers may
come from different documents. All services were attributed to the
CanonicalID of the last one.
---
 openid/yadis/xrires.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openid/yadis/xrires.py b/openid/yadis/xrires.py
index 0eb04d7..7392f4f 100644
--- a/openid/yadis/xrires.py
+++ b/openid/yadis/xrires.py
@@ -90,8 +90,13 @@ class ProxyResolver(object):
                 # print("response not OK:", response)
                 continue
             et = etxrd.parseXRDS(response.body)
-            canonicalID = etxrd.getCanonicalID(xri, et)
+            some_canonicalID = etxrd.getCanonicalID(xri, et)
             some_services = list(iterServices(et))
+            if services and some_services and some_canonicalID != canonicalID:
+                # Services of one identifier must not be attributed to another one.
+                raise etxrd.XRDSError('Different CanonicalIDs found for XRI %r' % (xri,))
+            if some_services or not services:
+                canonicalID = some_canonicalID
             services.extend(some_services)
         # TODO:
         #  * If we do get hits for multiple service_types, we're almost
-- 
2.43.0


From 6038b946432618fcaed48c9b1ad3a2286527a95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:20 +0000
Subject: [PATCH 43/63] fix: look up response headers case-insensitively with
 urllib

---
 openid/fetchers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openid/fetchers.py b/openid/fetchers.py
index 8a10993..92a4809 100644
--- a/openid/fetchers.py
+++ b/openid/fetchers.py
@@ -243,7 +243,8 @@ class Urllib2Fetcher(HTTPFetcher):
         resp = HTTPResponse()
         resp.body = urllib_response.read(MAX_RESPONSE_KB * 1024)
         resp.final_url = urllib_response.geturl()
-        resp.headers = dict(urllib_response.info().items())
+        # HTTP headers are case-insensitive, and so is this object
+        resp.headers = urllib_response.info()
 
         if hasattr(urllib_response, 'code'):
             resp.status = urllib_response.code
-- 
2.43.0


From 8b08aff3c55b4dd28f1dc6367c7552461162b2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:23 +0000
Subject: [PATCH 44/63] fix: do not take a truncated body for a complete one
 with urllib

---
 openid/fetchers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openid/fetchers.py b/openid/fetchers.py
index 92a4809..463b54e 100644
--- a/openid/fetchers.py
+++ b/openid/fetchers.py
@@ -242,6 +242,9 @@ class Urllib2Fetcher(HTTPFetcher):
     def _makeResponse(self, urllib_response):
         resp = HTTPResponse()
         resp.body = urllib_response.read(MAX_RESPONSE_KB * 1024)
+        if len(resp.body) < MAX_RESPONSE_KB * 1024 and getattr(urllib_response, 'length', None):
+            # `read` with a limit does not complain if the body is cut short.
+            raise IOError('Incomplete response body')
         resp.final_url = urllib_response.geturl()
         # HTTP headers are case-insensitive, and so is this object
         resp.headers = urllib_response.info()
-- 
2.43.0


From 90a6421b2e4d2143c1a9db2fe60c32d7bce8e468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:25 +0000
Subject: [PATCH 45/63] fix: refuse redirects to other schemes with urllib

---
 openid/fetchers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openid/fetchers.py b/openid/fetchers.py
index 463b54e..0265d19 100644
--- a/openid/fetchers.py
+++ b/openid/fetchers.py
@@ -246,6 +246,9 @@ class Urllib2Fetcher(HTTPFetcher):
             # `read` with a limit does not complain if the body is cut short.
             raise IOError('Incomplete response body')
         resp.final_url = urllib_response.geturl()
+        if not _allowedURL(resp.final_url.lower()):
+            # The opener also follows redirects to FTP servers.
+            raise ValueError('Bad URL scheme: %r' % (resp.final_url,))
         # HTTP headers are case-insensitive, and so is this object
         resp.headers = urllib_response.info()
 
-- 
2.43.0


From 1fd31d52936779871a3d614613f96430565aeea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:02 +0000
Subject: [PATCH 46/63] fix: do not take the final URL from the server's
 Content-Location with httplib2

---
 openid/fetchers.py | 44 ++++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/openid/fetchers.py b/openid/fetchers.py
index 0265d19..d97a0fe 100644
--- a/openid/fetchers.py
+++ b/openid/fetchers.py
@@ -7,6 +7,7 @@ import time
 import six
 from six import BytesIO
 from six.moves.urllib.error import HTTPError as UrllibHTTPError
+from six.moves.urllib.parse import urljoin
 from six.moves.urllib.request import Request, urlopen
 
 import openid
@@ -38,6 +39,7 @@ except ImportError:
 
 USER_AGENT = "python-openid/%s (%s)" % (openid.__version__, sys.platform)
 MAX_RESPONSE_KB = 1024
+MAX_REDIRECTS = 5
 
 
 def fetch(url, body=None, headers=None):
@@ -421,6 +423,9 @@ class HTTPLib2Fetcher(HTTPFetcher):
         # the other fetchers.
         self.httplib2.force_exception_to_status_code = False
 
+        # Redirects are followed by `fetch`.
+        self.httplib2.follow_redirects = False
+
     def fetch(self, url, body=None, headers=None):
         """Perform an HTTP request
 
@@ -443,28 +448,31 @@ class HTTPLib2Fetcher(HTTPFetcher):
         if not (url.startswith('http://') or url.startswith('https://')):
             raise ValueError('URL is not a HTTP URL: %r' % (url,))
 
-        httplib2_response, content = self.httplib2.request(
-            url, method, body=body, headers=headers)
+        # Redirects are followed here, because httplib2 does not tell the
+        # URL it ended up at: the "content-location" header of its response
+        # is whatever the server says, if the server sends one.
+        for _ in range(MAX_REDIRECTS + 1):
+            httplib2_response, content = self.httplib2.request(
+                url, method, body=body, headers=headers)
+            redirects = [300, 301, 302, 303, 307, 308] if method == 'GET' else [303, 308]
+            if httplib2_response.status not in redirects:
+                break
+            if 'location' not in httplib2_response:
+                if httplib2_response.status == 300:
+                    break
+                raise ValueError('Redirect without a location: %r' % (url,))
+            url = urljoin(url, httplib2_response['location'])
+            if not _allowedURL(url.lower()):
+                raise ValueError('URL is not a HTTP URL: %r' % (url,))
+            if httplib2_response.status == 303:
+                method, body = 'GET', None
+        else:
+            raise ValueError('Too many redirects: %r' % (url,))
 
         # Translate the httplib2 response to our HTTP response abstraction
-
-        # When a 400 is returned, there is no "content-location"
-        # header set. This seems like a bug to me. I can't think of a
-        # case where we really care about the final URL when it is an
-        # error response, but being careful about it can't hurt.
-        try:
-            final_url = httplib2_response['content-location']
-        except KeyError:
-            # We're assuming that no redirects occurred
-            assert not httplib2_response.previous
-
-            # And this should never happen for a successful response
-            assert httplib2_response.status != 200
-            final_url = url
-
         return HTTPResponse(
             body=content,
-            final_url=final_url,
+            final_url=url,
             headers=dict(httplib2_response.items()),
             status=httplib2_response.status,
         )
-- 
2.43.0


From 4933cb53564cac04245c2a09800fde345f5ee363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:05 +0000
Subject: [PATCH 47/63] fix: do not share httplib2 connections between threads

---
 openid/fetchers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openid/fetchers.py b/openid/fetchers.py
index d97a0fe..8e15433 100644
--- a/openid/fetchers.py
+++ b/openid/fetchers.py
@@ -1,6 +1,7 @@
 """This module contains the HTTP fetcher interface and several implementations."""
 from __future__ import unicode_literals
 
+import copy
 import sys
 import time
 
@@ -451,8 +452,10 @@ class HTTPLib2Fetcher(HTTPFetcher):
         # Redirects are followed here, because httplib2 does not tell the
         # URL it ended up at: the "content-location" header of its response
         # is whatever the server says, if the server sends one.
+        # Connections must not be shared between threads; the copy has its own.
+        http = copy.copy(self.httplib2)
         for _ in range(MAX_REDIRECTS + 1):
-            httplib2_response, content = self.httplib2.request(
+            httplib2_response, content = http.request(
                 url, method, body=body, headers=headers)
             redirects = [300, 301, 302, 303, 307, 308] if method == 'GET' else [303, 308]
             if httplib2_response.status not in redirects:
-- 
2.43.0


From 8ca8eb2646ce42b9bf116894a9f0f6428caf747f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:08 +0000
Subject: [PATCH 48/63] fix: limit the size of response bodies read with
 requests

---
 openid/fetchers.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/openid/fetchers.py b/openid/fetchers.py
index 8e15433..c987d3d 100644
--- a/openid/fetchers.py
+++ b/openid/fetchers.py
@@ -497,5 +497,14 @@ class RequestsFetcher(HTTPFetcher):
             method = 'POST'
         else:
             method = 'GET'
-        response = requests.request(method, url, data=body, headers=headers)
-        return HTTPResponse(response.url, response.status_code, response.headers, response.content)
+        response = requests.request(method, url, data=body, headers=headers, stream=True)
+        try:
+            limit = MAX_RESPONSE_KB * 1024
+            content = b''
+            for chunk in response.iter_content(8192):
+                content += chunk
+                if len(content) >= limit:
+                    break
+        finally:
+            response.close()
+        return HTTPResponse(response.url, response.status_code, response.headers, content[:limit])
-- 
2.43.0


From e1e04415a9f4dfccd08e5d7c5073e0c1bc73ec6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:10 +0000
Subject: [PATCH 49/63] fix: follow relative redirects with pycurl

---
 openid/fetchers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openid/fetchers.py b/openid/fetchers.py
index c987d3d..bba258c 100644
--- a/openid/fetchers.py
+++ b/openid/fetchers.py
@@ -374,10 +374,11 @@ class CurlHTTPFetcher(HTTPFetcher):
                 response_headers = self._parseHeaders(response_header_data)
                 code = c.getinfo(pycurl.RESPONSE_CODE)
                 if code in [301, 302, 303, 307]:
-                    url = response_headers.get('location')
-                    if url is None:
+                    location = response_headers.get('location')
+                    if location is None:
                         raise HTTPError(
                             'Redirect (%s) returned without a location' % code)
+                    url = urljoin(url, location)
 
                     # Redirects are always GETs
                     c.setopt(pycurl.POST, 0)
-- 
2.43.0


From dfeb5c0560f5ed75c275dddf7891aa3ae3ca78b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:57 +0000
Subject: [PATCH 50/63] fix: send update_url of attribute fetch requests

---
 openid/extensions/ax.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openid/extensions/ax.py b/openid/extensions/ax.py
index e6ccaf2..8f81e2e 100644
--- a/openid/extensions/ax.py
+++ b/openid/extensions/ax.py
@@ -261,6 +261,9 @@ class FetchRequest(AXMessage):
         if if_available:
             ax_args['if_available'] = ','.join(if_available)
 
+        if self.update_url:
+            ax_args['update_url'] = self.update_url
+
         return ax_args
 
     def getRequiredAttrs(self):
-- 
2.43.0


From 9d2ed1600544c41fbdd8ddf573ab5361ed33237c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:11 +0000
Subject: [PATCH 51/63] fix: read attribute store responses

---
 openid/extensions/ax.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/openid/extensions/ax.py b/openid/extensions/ax.py
index 8f81e2e..c09f246 100644
--- a/openid/extensions/ax.py
+++ b/openid/extensions/ax.py
@@ -795,6 +795,15 @@ class StoreResponse(AXMessage):
 
         return ax_args
 
+    def parseExtensionArgs(self, ax_args):
+        """@see: {Extension.parseExtensionArgs<openid.extension.Extension.parseExtensionArgs>}"""
+        self.mode = ax_args.get('mode')
+        if not self.mode:
+            raise NotAXMessage()
+        if self.mode not in (self.SUCCESS_MODE, self.FAILURE_MODE):
+            raise AXError('Unexpected mode of a store response: %r' % (self.mode,))
+        self.error_message = None if self.succeeded() else ax_args.get('error')
+
     @classmethod
     def fromSuccessResponse(cls, success_response, signed=True):
         """Construct a StoreResponse object from an OpenID library
-- 
2.43.0


From 06e3664580e6f20125d6febe6b920c6546e52208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:14 +0000
Subject: [PATCH 52/63] fix: ignore attribute exchange responses which are not
 signed

---
 openid/extensions/ax.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openid/extensions/ax.py b/openid/extensions/ax.py
index c09f246..4c081a7 100644
--- a/openid/extensions/ax.py
+++ b/openid/extensions/ax.py
@@ -702,6 +702,9 @@ class FetchResponse(AXKeyValueMessage):
         """
         self = cls()
         ax_args = success_response.extensionResponse(self.ns_uri, signed)
+        if ax_args is None:
+            # Not all arguments are signed
+            return None
 
         try:
             self.parseExtensionArgs(ax_args)
@@ -825,6 +828,9 @@ class StoreResponse(AXMessage):
         """
         self = cls()
         ax_args = success_response.extensionResponse(self.ns_uri, signed)
+        if ax_args is None:
+            # Not all arguments are signed
+            return None
 
         try:
             self.parseExtensionArgs(ax_args)
-- 
2.43.0


From d61aece00b1803a8c7848ba49e75db41bd7230bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:06 +0000
Subject: [PATCH 53/63] fix: compare return addresses including path parameters

---
 openid/consumer/consumer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index 23d29eb..fa8f280 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -691,9 +691,9 @@ class GenericConsumer(object):
         app_parts = urlparse(urinorm.urinorm(return_to))
         msg_parts = urlparse(urinorm.urinorm(msg_return_to))
 
-        # (addressing scheme, network location, path) must be equal in
-        # both URLs.
-        for part in range(0, 3):
+        # (addressing scheme, network location, path, parameters of the
+        # last path segment) must be equal in both URLs.
+        for part in range(0, 4):
             if app_parts[part] != msg_parts[part]:
                 return False
 
-- 
2.43.0


From 940d5d9c33b5275e35f7be194565a448547aa42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:48 +0000
Subject: [PATCH 54/63] fix: keep association operations of MemoryStore apart
 between threads

---
 openid/store/memstore.py | 43 +++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/openid/store/memstore.py b/openid/store/memstore.py
index 174ba2e..adf907c 100644
--- a/openid/store/memstore.py
+++ b/openid/store/memstore.py
@@ -2,6 +2,7 @@
 from __future__ import unicode_literals
 
 import copy
+import threading
 import time
 
 import six
@@ -64,25 +65,30 @@ class MemoryStore(object):
     def __init__(self):
         self.server_assocs = {}
         self.nonces = {}
+        # Associations are kept in nested dictionaries, their operations can not be mixed with those of other threads.
+        self._lock = threading.Lock()
 
     def _getServerAssocs(self, server_url):
         # A single dictionary operation, so that all threads get the same object.
         return self.server_assocs.setdefault(server_url, ServerAssocs())
 
     def storeAssociation(self, server_url, assoc):
-        assocs = self._getServerAssocs(server_url)
-        assocs.set(copy.deepcopy(assoc))
+        with self._lock:
+            assocs = self._getServerAssocs(server_url)
+            assocs.set(copy.deepcopy(assoc))
 
     def getAssociation(self, server_url, handle=None):
-        assocs = self._getServerAssocs(server_url)
-        if handle is None:
-            return assocs.best()
-        else:
-            return assocs.get(handle)
+        with self._lock:
+            assocs = self._getServerAssocs(server_url)
+            if handle is None:
+                return assocs.best()
+            else:
+                return assocs.get(handle)
 
     def removeAssociation(self, server_url, handle):
-        assocs = self._getServerAssocs(server_url)
-        return assocs.remove(handle)
+        with self._lock:
+            assocs = self._getServerAssocs(server_url)
+            return assocs.remove(handle)
 
     def useNonce(self, server_url, timestamp, salt):
         if abs(timestamp - time.time()) > nonce.SKEW:
@@ -108,15 +114,16 @@ class MemoryStore(object):
     def cleanupAssociations(self):
         remove_urls = []
         removed_assocs = 0
-        for server_url, assocs in six.iteritems(self.server_assocs):
-            removed, remaining = assocs.cleanup()
-            removed_assocs += removed
-            if not remaining:
-                remove_urls.append(server_url)
-
-        # Remove entries from server_assocs that had none remaining.
-        for server_url in remove_urls:
-            del self.server_assocs[server_url]
+        with self._lock:
+            for server_url, assocs in six.iteritems(self.server_assocs):
+                removed, remaining = assocs.cleanup()
+                removed_assocs += removed
+                if not remaining:
+                    remove_urls.append(server_url)
+
+            # Remove entries from server_assocs that had none remaining.
+            for server_url in remove_urls:
+                del self.server_assocs[server_url]
         return removed_assocs
 
     def __eq__(self, other):
-- 
2.43.0


From db6fee3eac2a748d0d624c3f56fda4e3d215a899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:00 +0000
Subject: [PATCH 55/63] fix: accept explicitly declared OpenID 1 namespaces in
 responses

---
 openid/consumer/consumer.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index fa8f280..e379421 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -711,7 +711,7 @@ class GenericConsumer(object):
         # immediate mode by the presence of the user_setup_url
         # parameter.
         if message.isOpenID1():
-            user_setup_url = message.getArg(OPENID1_NS, 'user_setup_url')
+            user_setup_url = message.getArg(OPENID_NS, 'user_setup_url')
             if user_setup_url is not None:
                 raise SetupNeededError(user_setup_url)
 
@@ -838,14 +838,17 @@ class GenericConsumer(object):
             OPENID1_NS: basic_sig_fields,
         }
 
-        for field in require_fields[message.getOpenIDNamespace()]:
+        # OpenID 1 messages may declare any of the OpenID 1 namespaces
+        namespace = OPENID1_NS if message.isOpenID1() else OPENID2_NS
+
+        for field in require_fields[namespace]:
             if not message.hasKey(OPENID_NS, field):
                 raise ProtocolError('Missing required field %r' % (field,))
 
         signed_list_str = message.getArg(OPENID_NS, 'signed', no_default)
         signed_list = signed_list_str.split(',')
 
-        for field in require_sigs[message.getOpenIDNamespace()]:
+        for field in require_sigs[namespace]:
             # Field is present and not in signed list
             if message.hasKey(OPENID_NS, field) and field not in signed_list:
                 raise ProtocolError('"%s" not signed' % (field,))
@@ -964,7 +967,7 @@ class GenericConsumer(object):
 
         to_match = OpenIDServiceEndpoint()
         to_match.type_uris = [OPENID_1_1_TYPE]
-        to_match.local_id = resp_msg.getArg(OPENID1_NS, 'identity')
+        to_match.local_id = resp_msg.getArg(OPENID_NS, 'identity')
         # Restore delegate information from the initiation phase
         to_match.claimed_id = claimed_id
 
@@ -1333,7 +1336,7 @@ class GenericConsumer(object):
         """
         # If it's an OpenID 1 message, allow session_type to default
         # to None (which signifies "no-encryption")
-        session_type = assoc_response.getArg(OPENID1_NS, 'session_type')
+        session_type = assoc_response.getArg(OPENID_NS, 'session_type')
 
         # Handle the differences between no-encryption association
         # respones in OpenID 1 and 2:
-- 
2.43.0


From 11f7ee97e841aa23c79b30e7e84999242d6dbbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:04 +0000
Subject: [PATCH 56/63] fix: fail logins whose return_to is no URL

---
 openid/consumer/consumer.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index e379421..8de471e 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -689,7 +689,11 @@ class GenericConsumer(object):
         # The URL scheme, authority, and path MUST be the same between
         # the two URLs.
         app_parts = urlparse(urinorm.urinorm(return_to))
-        msg_parts = urlparse(urinorm.urinorm(msg_return_to))
+        try:
+            msg_parts = urlparse(urinorm.urinorm(msg_return_to))
+        except ValueError as why:
+            _LOGGER.warning("Malformed return_to: %s", why)
+            return False
 
         # (addressing scheme, network location, path, parameters of the
         # last path segment) must be equal in both URLs.
@@ -864,7 +868,10 @@ class GenericConsumer(object):
         if return_to is None:
             raise ProtocolError('Response has no return_to')
 
-        parsed_url = urlparse(return_to)
+        try:
+            parsed_url = urlparse(return_to)
+        except ValueError as why:
+            raise ProtocolError('return_to %r is not a URL: %s' % (return_to, why))
         rt_query = parsed_url[4]
         parsed_args = parse_qsl(rt_query, keep_blank_values=True)
 
-- 
2.43.0


From e29671dce19a4ca2e66a023d2d828e4377d8b8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:08 +0000
Subject: [PATCH 57/63] fix: fail OpenID 1 logins whose claimed identifier is
 not known

---
 openid/consumer/consumer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index 8de471e..1974144 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -548,6 +548,13 @@ class TypeURIMismatch(ProtocolError):
         return s
 
 
+class MissingClaimedID(ProtocolError, RuntimeError):
+    """An OpenID 1 response whose claimed identifier is not known.
+
+    It is a C{RuntimeError} for backward compatibility.
+    """
+
+
 class ServerError(Exception):
     """Exception that is raised when the server returns a 400 response
     code to a direct request."""
@@ -964,7 +971,7 @@ class GenericConsumer(object):
         claimed_id = resp_msg.getArg(BARE_NS, self.openid1_return_to_identifier_name)
 
         if endpoint is None and claimed_id is None:
-            raise RuntimeError(
+            raise MissingClaimedID(
                 'When using OpenID 1, the claimed ID must be supplied, '
                 'either by passing it through as a return_to parameter '
                 'or by using a session, and supplied to the GenericConsumer '
-- 
2.43.0


From 838f1978b20b04758c132783a929aaf93b669903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:11 +0000
Subject: [PATCH 58/63] fix: fail logins whose response declares broken
 namespaces

---
 openid/consumer/consumer.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index 1974144..4e01f27 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -202,8 +202,8 @@ from openid.association import Association, SessionNegotiator, default_negotiato
 from openid.consumer.discover import (OPENID_1_0_TYPE, OPENID_1_1_TYPE, OPENID_2_0_TYPE, DiscoveryFailure,
                                       OpenIDServiceEndpoint, discover)
 from openid.dh import DiffieHellman
-from openid.message import (BARE_NS, IDENTIFIER_SELECT, OPENID1_NS, OPENID2_NS, OPENID_NS, InvalidNamespace, Message,
-                            no_default)
+from openid.message import (BARE_NS, IDENTIFIER_SELECT, OPENID1_NS, OPENID2_NS, OPENID_NS, InvalidNamespace,
+                            InvalidOpenIDNamespace, Message, no_default)
 from openid.oidutil import string_to_text
 from openid.store.nonce import mkNonce, split as splitNonce
 from openid.yadis.manager import Discovery
@@ -415,8 +415,12 @@ class Consumer(object):
 
         endpoint = self.session.get(self._token_key)
 
-        message = Message.fromPostArgs(query)
-        response = self.consumer.complete(message, endpoint, current_url)
+        try:
+            message = Message.fromPostArgs(query)
+        except (InvalidOpenIDNamespace, InvalidNamespace) as why:
+            response = FailureResponse(endpoint, six.text_type(why))
+        else:
+            response = self.consumer.complete(message, endpoint, current_url)
 
         try:
             del self.session[self._token_key]
-- 
2.43.0


From 174da7bceb7b6c22e2abd956b890691183d4b4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:32 +0000
Subject: [PATCH 59/63] fix: fail OpenID 1 responses to requests for OpenID 2
 provider identifiers

---
 openid/consumer/consumer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index 4e01f27..714fe9e 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -974,14 +974,14 @@ class GenericConsumer(object):
     def _verifyDiscoveryResultsOpenID1(self, resp_msg, endpoint):
         claimed_id = resp_msg.getArg(BARE_NS, self.openid1_return_to_identifier_name)
 
-        if endpoint is None and claimed_id is None:
+        if claimed_id is None and endpoint is not None:
+            claimed_id = endpoint.claimed_id
+        if claimed_id is None:
             raise MissingClaimedID(
                 'When using OpenID 1, the claimed ID must be supplied, '
                 'either by passing it through as a return_to parameter '
                 'or by using a session, and supplied to the GenericConsumer '
                 'as the argument to complete()')
-        elif endpoint is not None and claimed_id is None:
-            claimed_id = endpoint.claimed_id
 
         to_match = OpenIDServiceEndpoint()
         to_match.type_uris = [OPENID_1_1_TYPE]
-- 
2.43.0


From c0659aff60d8034ce25e7eacbfa9382c9d43a59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:42 +0000
Subject: [PATCH 60/63] fix: fail logins whose response cannot be signed

---
 openid/consumer/consumer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index 714fe9e..2df7b6f 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -822,7 +822,12 @@ class GenericConsumer(object):
                 raise ProtocolError(
                     'Association with %s expired' % (server_url,))
 
-            if not assoc.checkMessageSignature(message):
+            try:
+                valid = assoc.checkMessageSignature(message)
+            except ValueError as why:
+                # There is no signature for such message
+                raise ProtocolError('Bad signature: %s' % why)
+            if not valid:
                 raise ProtocolError('Bad signature')
 
         else:
-- 
2.43.0


From 6971016f45c69f7f8ef4e857c670b0e58af38207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:13 +0000
Subject: [PATCH 61/63] fix: fail logins whose op_endpoint is no URL

---
 openid/consumer/consumer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index 2df7b6f..8dff213 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -200,7 +200,7 @@ from six.moves.urllib.parse import parse_qsl, urldefrag, urlparse
 from openid import cryptutil, fetchers, oidutil, urinorm
 from openid.association import Association, SessionNegotiator, default_negotiator, getSecretSize
 from openid.consumer.discover import (OPENID_1_0_TYPE, OPENID_1_1_TYPE, OPENID_2_0_TYPE, DiscoveryFailure,
-                                      OpenIDServiceEndpoint, discover)
+                                      OpenIDServiceEndpoint, discover, isEndpointURL)
 from openid.dh import DiffieHellman
 from openid.message import (BARE_NS, IDENTIFIER_SELECT, OPENID1_NS, OPENID2_NS, OPENID_NS, InvalidNamespace,
                             InvalidOpenIDNamespace, Message, no_default)
@@ -760,6 +760,9 @@ class GenericConsumer(object):
 
         # Verify discovery information:
         endpoint = self._verifyDiscoveryResults(message, endpoint)
+        if endpoint.claimed_id is None and not isEndpointURL(endpoint.server_url):
+            # Responses without identifiers may name any endpoint
+            raise ProtocolError('OP endpoint %r is not a URL' % (endpoint.server_url,))
         _LOGGER.info("Received id_res response from %s using association %s",
                      endpoint.server_url, message.getArg(OPENID_NS, 'assoc_handle'))
 
-- 
2.43.0


From f9d6c135e1129badfe820e80b77f50a7dfefdbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:17 +0000
Subject: [PATCH 62/63] fix: keep file names of FileOpenIDStore short for long
 host names

---
 openid/store/filestore.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/openid/store/filestore.py b/openid/store/filestore.py
index de00ce2..237d7d4 100644
--- a/openid/store/filestore.py
+++ b/openid/store/filestore.py
@@ -40,6 +40,14 @@ def _filenameEscape(s):
     return ''.join(filename_chunks)
 
 
+def _filenameDomain(rest):
+    """Part of a file name for human inspection: host of an URL without its scheme.
+
+    Limited so file names are not too long, file names are made unique by hashes.
+    """
+    return _filenameEscape(rest.split('/', 1)[0])[:100]
+
+
 def _removeIfPresent(filename):
     """Attempt to remove a file, returning whether the file existed at
     the time of the call.
@@ -163,7 +171,7 @@ class FileOpenIDStore(OpenIDStore):
             raise ValueError('Bad server URL: %r' % server_url)
 
         proto, rest = server_url.split('://', 1)
-        domain = _filenameEscape(rest.split('/', 1)[0])
+        domain = _filenameDomain(rest)
         url_hash = _safe64(server_url)
         if handle:
             handle_hash = _safe64(handle)
@@ -326,7 +334,7 @@ class FileOpenIDStore(OpenIDStore):
             # which is part of a consumer-generated nonce.
             proto, rest = '', ''
 
-        domain = _filenameEscape(rest.split('/', 1)[0])
+        domain = _filenameDomain(rest)
         url_hash = _safe64(server_url)
         salt_hash = _safe64(salt)
 
-- 
2.43.0


From 289510a6de42f3e09e61be122ad5fa375223982c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:24 +0000
Subject: [PATCH 63/63] fix: fail logins whose claimed identifier is no URL

---
 openid/consumer/consumer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index 8dff213..930d094 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -1039,7 +1039,10 @@ class GenericConsumer(object):
 
         # Fragments do not influence discovery, so we can't compare a
         # claimed identifier with a fragment to discovered information.
-        defragged_claimed_id, _ = urldefrag(to_match.claimed_id)
+        try:
+            defragged_claimed_id, _ = urldefrag(to_match.claimed_id)
+        except ValueError as why:
+            raise ProtocolError('Claimed ID %r is not a URL: %s' % (to_match.claimed_id, why))
         if defragged_claimed_id != endpoint.claimed_id:
             raise ProtocolError(
                 'Claimed ID does not match (different subjects!), '
-- 
2.43.0

