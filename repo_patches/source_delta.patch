From 63aa23d04bd973ad1fd20275f34971da12f578aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:14 +0000
Subject: [PATCH 01/26] fix: deleting files in a commit skipped the rest after
 an unknown path

---
 bversion/storage/server_db.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/bversion/storage/server_db.py b/bversion/storage/server_db.py
index f21086e..9bfd209 100644
--- a/bversion/storage/server_db.py
+++ b/bversion/storage/server_db.py
@@ -254,19 +254,18 @@ class server_db:
         for it in files:
             file_path = it['path']
 
-            # We don't need to do anything if the file doesnt exist
+            # We don't need to do anything if the file doesnt exist in the previous version,
+            # apart from discarding anything this commit did to it before.
+            self.con.execute("delete from active_commit_changes where path = ?", (file_path,))
+
             the_file = self.file_exists_in_commit(file_path)
-            if the_file == []: return
+            if the_file == []: continue
             file_info = the_file[0]
 
             # Update commit changes
-            already_deleted = self.con.execute("select * from active_commit_changes where status='deleted' and path = ?",
-                                            (file_info['path'],)).fetchall()
-
-            if already_deleted == []:
-                file_info['status'] = 'deleted'
-                self.con.execute("insert into active_commit_changes (hash, path, status) values (?, ?, ?)",
-                                (file_info['hash'], file_info['path'], file_info['status']))
+            file_info['status'] = 'deleted'
+            self.con.execute("insert into active_commit_changes (hash, path, status) values (?, ?, ?)",
+                            (file_info['hash'], file_info['path'], file_info['status']))
 
         self.con.commit()
 
-- 
2.43.0


From ccf98b61f3fb7db7e931b5783c0b3da18bf35491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:14 +0000
Subject: [PATCH 02/26] fix: pushing a path twice in one commit failed on the
 unique index

---
 bversion/storage/server_db.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bversion/storage/server_db.py b/bversion/storage/server_db.py
index 9bfd209..27077f4 100644
--- a/bversion/storage/server_db.py
+++ b/bversion/storage/server_db.py
@@ -239,8 +239,8 @@ class server_db:
 
         file_info['status'] = 'changed' if self.file_exists_in_commit (file_info['path']) != [] else 'new'
 
-        # Update commit changes
-        self.con.execute("insert into active_commit_changes (hash, path, status) values (?, ?, ?)",
+        # Update commit changes, replacing anything this commit did to the file before
+        self.con.execute("insert or replace into active_commit_changes (hash, path, status) values (?, ?, ?)",
                          (file_info['hash'], file_info['path'], file_info['status']))
 
         self.con.commit()
-- 
2.43.0


From 66a8051cc7b71cc15828408d27ae53b77384d543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:14 +0000
Subject: [PATCH 03/26] fix: collections.Mapping is gone from current Python
 versions

---
 bversion/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bversion/common.py b/bversion/common.py
index 58e12bc..6b39d2a 100644
--- a/bversion/common.py
+++ b/bversion/common.py
@@ -1,5 +1,5 @@
 import os.path, hashlib, errno, copy
-import collections
+import collections.abc
 from typing import List, Dict, Any, cast, Tuple
 from typing_extensions import TypedDict
 from termcolor import colored
@@ -8,7 +8,7 @@ from termcolor import colored
 def merge_config(config, parsed_config):
     def dict_merge(dct, merge_dct): # recursive dict merge from https://gist.github.com/angstwad/bf22d1822c38a92ec0a9
         for k in merge_dct.keys():
-            if (k in dct and isinstance(dct[k], dict) and isinstance(merge_dct[k], collections.Mapping)):
+            if (k in dct and isinstance(dct[k], dict) and isinstance(merge_dct[k], collections.abc.Mapping)):
                 dict_merge(dct[k], merge_dct[k])
             else: dct[k] = merge_dct[k]
     dict_merge(config, parsed_config)
-- 
2.43.0


From 54e48fb581021843cccc88722fbec454c8bd3814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:50 +0000
Subject: [PATCH 04/26] fix: an encrypted private key was returned still
 encrypted by unlocking

---
 bversion/crypto.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bversion/crypto.py b/bversion/crypto.py
index a66f5ea..9dd4fb3 100644
--- a/bversion/crypto.py
+++ b/bversion/crypto.py
@@ -44,7 +44,7 @@ def make_keypair() -> Tuple[bytes, bytes]:
 def unlock_private_key(private_key_b64: str) -> bytes:
     private_key: bytes = base64.b64decode(private_key_b64)
 
-    if private_key[0] == b'y':
+    if private_key[0:1] == b'y':
         sbytes: int = pysodium.crypto_pwhash_SALTBYTES
         nbytes: int = pysodium.crypto_box_NONCEBYTES
         salt: bytes = private_key[1:sbytes+1]
-- 
2.43.0


From 5251e4934e34c8f2fc191e2b176fda41d420fec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:50 +0000
Subject: [PATCH 05/26] fix: the login signature covered only a quarter of the
 challenge

pysodium hands a str to libsodium as wide characters but gives its length in characters.
---
 bversion/client.py          | 2 +-
 bversion/server.py          | 2 +-
 bversion/version_numbers.py | 8 ++++----
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 96953a9..43bb10e 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -251,7 +251,7 @@ def authenticate(previous_token: str = None) -> str:
     headers = server_connection.request("begin_auth", {'repository' : config['repository']})[1] # Only care about headers
 
     if headers['status'] == 'ok':
-        signature: bytes = base64.b64encode(pysodium.crypto_sign_detached(headers['auth_token'], config['private_key']))
+        signature: bytes = base64.b64encode(pysodium.crypto_sign_detached(headers['auth_token'].encode('utf8'), config['private_key']))
         headers = server_connection.request("authenticate", {
             'client_version' : str(version_numbers.client_version),
             'auth_token'     : headers['auth_token'],
diff --git a/bversion/server.py b/bversion/server.py
index c815333..3301ad3 100644
--- a/bversion/server.py
+++ b/bversion/server.py
@@ -153,7 +153,7 @@ def authenticate(request: Request, context: ConnectionContext) -> Responce: # py
             public_key = config['users'][user]['public_key']
 
             # signature
-            pysodium.crypto_sign_verify_detached(base64.b64decode(signiture), auth_token, base64.b64decode(public_key))
+            pysodium.crypto_sign_verify_detached(base64.b64decode(signiture), auth_token.encode('utf8'), base64.b64decode(public_key))
 
             # Validate token matches one we sent
             res = sdb.get_token(auth_token, client_ip)
diff --git a/bversion/version_numbers.py b/bversion/version_numbers.py
index a64b895..dc81da3 100644
--- a/bversion/version_numbers.py
+++ b/bversion/version_numbers.py
@@ -1,5 +1,5 @@
-client_version = 3
-server_version = 3
+client_version = 4
+server_version = 4
 
-minimum_client_version = 3
-minimum_server_version = 3
+minimum_client_version = 4
+minimum_server_version = 4
-- 
2.43.0


From db90a54ca38d902363eda9c537aa3bba3e161482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:50 +0000
Subject: [PATCH 06/26] fix: a login challenge could be used twice by
 concurrent requests

---
 bversion/server.py            | 3 ++-
 bversion/storage/server_db.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/bversion/server.py b/bversion/server.py
index 3301ad3..bd16943 100644
--- a/bversion/server.py
+++ b/bversion/server.py
@@ -167,7 +167,8 @@ def authenticate(request: Request, context: ConnectionContext) -> Responce: # py
 
             # Everything OK, clean up transient token and
             # generate a session token for the client
-            sdb.delete_token(auth_token)
+            if sdb.delete_token(auth_token) != 1:
+                return fail(user_auth_fail_msg)
 
             session_token = sdb.create_session(extend_session_duration, client_ip, user)
 
diff --git a/bversion/storage/server_db.py b/bversion/storage/server_db.py
index 27077f4..69c94d2 100644
--- a/bversion/storage/server_db.py
+++ b/bversion/storage/server_db.py
@@ -131,8 +131,9 @@ class server_db:
 
     #===============================================================================
     def delete_token(self, auth_token):
-        self.con.execute("delete from tokens where token = ?", (auth_token,))
+        deleted = self.con.execute("delete from tokens where token = ?", (auth_token,)).rowcount
         self.con.commit()
+        return deleted
 
 
     #===============================================================================
-- 
2.43.0


From 4056e8ad04224b2b5ded779293857b749e25cd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:50 +0000
Subject: [PATCH 07/26] fix: resuming a session never matched, and ended the
 session owning the open commit

---
 bversion/server.py            | 2 +-
 bversion/storage/server_db.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/bversion/server.py b/bversion/server.py
index bd16943..e4b8cdd 100644
--- a/bversion/server.py
+++ b/bversion/server.py
@@ -135,7 +135,7 @@ def authenticate(request: Request, context: ConnectionContext) -> Responce: # py
     if 'session_token' in request.headers:
         session_token = request.headers['session_token']
 
-        if sdb.validate_session(session_token, client_ip) != []:
+        if sdb.validate_session(session_token.encode('utf8'), client_ip) != []:
             return success({
                 'server_version' : str(version_numbers.server_version).encode('utf8'),
                 'session_token'  : session_token
diff --git a/bversion/storage/server_db.py b/bversion/storage/server_db.py
index 69c94d2..c5ee50d 100644
--- a/bversion/storage/server_db.py
+++ b/bversion/storage/server_db.py
@@ -180,8 +180,9 @@ class server_db:
 
 
     #===============================================================================
-    def validate_session(self, session_token : str, client_ip : str):
-        self.con.execute("delete from session_tokens where expires < ?", (time.time(),))
+    def validate_session(self, session_token : bytes, client_ip : str):
+        active_commit = self.get_active_commit()
+        self.gc_session_tokens(None if active_commit is None else active_commit['session_token'])
         self.con.commit()
 
         res = self.con.execute("select * from session_tokens where token = ? and ip = ?", (session_token, client_ip)).fetchall()
-- 
2.43.0


From 05bfca2e004234113170e068f4eb6f44bca1268f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:50 +0000
Subject: [PATCH 08/26] fix: commits were attributed to the user named in the
 request, not the authenticated one

---
 bversion/server.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bversion/server.py b/bversion/server.py
index e4b8cdd..f6e86ac 100644
--- a/bversion/server.py
+++ b/bversion/server.py
@@ -430,17 +430,17 @@ def begin_commit(request: Request, context: ConnectionContext) -> Responce:
     commit_files = {}
 
     if active_commit is not None:
-        if active_commit['user'] == request.headers['user'] and active_commit['ip'] == request.remote_addr:
+        if active_commit['user'] == current_user['username'] and active_commit['ip'] == request.remote_addr:
             commit_files = data_store.get_active_commit_changes()
             commit_files = [it for it in commit_files if it['status'] != 'deleted']
-            data_store.begin(request.headers['user'], request.remote_addr, session_token, resume = True)
+            data_store.begin(current_user['username'], request.remote_addr, session_token, resume = True)
 
         else:
             data_store.rollback()
-            data_store.begin(request.headers['user'], request.remote_addr, session_token)
+            data_store.begin(current_user['username'], request.remote_addr, session_token)
 
     else:
-        data_store.begin(request.headers['user'], request.remote_addr, session_token)
+        data_store.begin(current_user['username'], request.remote_addr, session_token)
 
     #------------
     return success(data={'partial_commit' : commit_files})
-- 
2.43.0


From 4995666fa9d92052235e6cadf5f77104e29106b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:50 +0000
Subject: [PATCH 09/26] fix: holding the lock of one repository allowed writing
 to every other

---
 bversion/server.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bversion/server.py b/bversion/server.py
index f6e86ac..f062021 100644
--- a/bversion/server.py
+++ b/bversion/server.py
@@ -407,9 +407,9 @@ def begin_commit(request: Request, context: ConnectionContext) -> Responce:
         return fail(lock_fail_msg)
 
     else:
-        context.lock = True
+        context.lock = repository
         def unlock():
-            if context.lock is True:
+            if context.lock == repository:
                 data_store.unlock()
                 context.lock = False
 
@@ -462,7 +462,7 @@ def push_file(request: Request, context: ConnectionContext) -> Responce:
     repository_path = config['repositories'][repository]['path']
 
     #===
-    if not context.lock:
+    if context.lock != repository:
         return fail(lock_fail_msg)
 
     #===
@@ -506,7 +506,7 @@ def delete_files(request: Request, context: ConnectionContext) -> Responce:
     body_data = request.get_json()
 
     #===
-    if not context.lock:
+    if context.lock != repository:
         return fail(lock_fail_msg)
 
     #===
@@ -542,7 +542,7 @@ def commit(request: Request, context: ConnectionContext) -> Responce:
     repository_path = config['repositories'][repository]['path']
 
     #===
-    if not context.lock:
+    if context.lock != repository:
         return fail(lock_fail_msg)
 
     #===
-- 
2.43.0


From 7ad5ff1cd43e7c444f61e4528497d89c0e612437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:50 +0000
Subject: [PATCH 10/26] fix: rolling back could delete objects of the head, and
 a finished commit could be resumed

---
 bversion/server.py                    |  7 ++++++-
 bversion/storage/versioned_storage.py | 12 ++++++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/bversion/server.py b/bversion/server.py
index f062021..61509f7 100644
--- a/bversion/server.py
+++ b/bversion/server.py
@@ -425,12 +425,17 @@ def begin_commit(request: Request, context: ConnectionContext) -> Responce:
 
     # if the last active commit was by the same user and ip, get the partial committed files
     # and send them back to allow resume, otherwise do rollback if needed.
+    # A commit which did finish, but was not cleaned up after, must not be resumed.
     active_commit = data_store.get_active_commit()
 
     commit_files = {}
 
     if active_commit is not None:
-        if active_commit['user'] == current_user['username'] and active_commit['ip'] == request.remote_addr:
+        if data_store.active_commit_is_finished():
+            data_store.rollback()
+            data_store.begin(current_user['username'], request.remote_addr, session_token)
+
+        elif active_commit['user'] == current_user['username'] and active_commit['ip'] == request.remote_addr:
             commit_files = data_store.get_active_commit_changes()
             commit_files = [it for it in commit_files if it['status'] != 'deleted']
             data_store.begin(current_user['username'], request.remote_addr, session_token, resume = True)
diff --git a/bversion/storage/versioned_storage.py b/bversion/storage/versioned_storage.py
index 8bd5738..aaf4e09 100644
--- a/bversion/storage/versioned_storage.py
+++ b/bversion/storage/versioned_storage.py
@@ -306,6 +306,15 @@ class versioned_storage:
         return commit_object_hash
 
 
+#===============================================================================
+    def active_commit_is_finished(self) -> bool:
+        """ Checks if the head already is a commit made by the active commit """
+
+        sdb = get_server_db_instance_for_thread(self.base_path, path_override = self.path_override)
+        head = self.get_head()
+        return any(item['item_type'] == 'commit' and item['item_hash'] == head for item in sdb.get_gc_log())
+
+
 #===============================================================================
     def rollback(self) -> None:
         if self.get_active_commit() is None: raise Exception()
@@ -316,8 +325,7 @@ class versioned_storage:
         if gc_log_items != []:
             # If a commit exists and it's hash matches the current head we do not need to do anything
             # The commit succeeded but we failed before deleting the active commit file for some reason
-            is_commit = next((item for item in gc_log_items if item['item_type'] == 'commit'), None)
-            if is_commit is not None and is_commit['item_hash'] == self.get_head():
+            if self.active_commit_is_finished():
                 pass # commit actually ok
 
             else:# commit not ok, need to clean up
-- 
2.43.0


From 4c45c84a9d0e1ad2eb968c6ba864ed9a7ed535c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:50 +0000
Subject: [PATCH 11/26] fix: resuming after an interrupted rollback relied on
 uploads which were already removed

---
 bversion/storage/server_db.py         | 6 ++++++
 bversion/storage/versioned_storage.py | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/bversion/storage/server_db.py b/bversion/storage/server_db.py
index c5ee50d..ec9790b 100644
--- a/bversion/storage/server_db.py
+++ b/bversion/storage/server_db.py
@@ -293,6 +293,12 @@ class server_db:
         return current_changes, self.active_files
 
 
+    #===============================================================================
+    def clean_commit_changes(self):
+        self.con.execute("delete from active_commit_changes")
+        self.con.commit()
+
+
     #===============================================================================
     def clean_commit_state(self):
         self.active_files = None
diff --git a/bversion/storage/versioned_storage.py b/bversion/storage/versioned_storage.py
index aaf4e09..62bf8ad 100644
--- a/bversion/storage/versioned_storage.py
+++ b/bversion/storage/versioned_storage.py
@@ -329,6 +329,9 @@ class versioned_storage:
                 pass # commit actually ok
 
             else:# commit not ok, need to clean up
+                # forget the uploads first, as this may be interrupted and the commit then resumed
+                sdb.clean_commit_changes()
+
                 for item in gc_log_items:
                     # delete the object for this file, noting that it may not exist
                     object_dir = 'files' if item['item_type'] == 'file' else 'index'
-- 
2.43.0


From c82bb43ff63b28ff467f0bc444c7ebbda83913c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:50 +0000
Subject: [PATCH 12/26] fix: garbage collection deleted nothing, used the wrong
 paths and kept the lock

---
 bversion/storage/versioned_storage.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/bversion/storage/versioned_storage.py b/bversion/storage/versioned_storage.py
index 62bf8ad..7a89661 100644
--- a/bversion/storage/versioned_storage.py
+++ b/bversion/storage/versioned_storage.py
@@ -579,6 +579,11 @@ class versioned_storage:
         if lock_status is False:
             return False, ['failed to lock']
 
+        try: return self.remove_garbage()
+        finally: self.unlock()
+
+#===============================================================================
+    def remove_garbage(self):
         head, reachable_objects = self.get_reachable_objects()
         all_objects             = self.get_all_object_hashes()
 
@@ -614,8 +619,13 @@ class versioned_storage:
         file_objects_that_do_exist     =   set(all_objects['files'].keys())
 
         # ===============
-        garbage_index_objects = index_objects_that_should_exist - index_objects_that_do_exist
-        garbage_file_objects = file_objects_that_should_exist - file_objects_that_do_exist
+        # An interrupted commit can still be resumed, keep what it has stored so far
+        sdb = get_server_db_instance_for_thread(self.base_path, path_override = self.path_override)
+        open_commit_objects = set(item['item_hash'] for item in sdb.get_gc_log()) \
+                            | set(change['hash'] for change in sdb.get_active_commit_changes())
+
+        garbage_index_objects = index_objects_that_do_exist - index_objects_that_should_exist - open_commit_objects
+        garbage_file_objects = file_objects_that_do_exist - file_objects_that_should_exist - open_commit_objects
 
         #================================================================
         # Delete garbage objects
@@ -625,8 +635,7 @@ class versioned_storage:
             os.remove(object_path)
 
         for object_hash in garbage_file_objects:
-            object_path = sfs.cpjoin(self.base_path, 'index', object_hash[:2], object_hash[2:])
+            object_path = sfs.cpjoin(self.base_path, 'files', object_hash[:2], object_hash[2:])
             os.remove(object_path)
 
-        self.unlock()
-        return True
+        return True, issues
-- 
2.43.0


From c4e097da3bd1f7fbb5411d52b2eefedf3032e0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:51 +0000
Subject: [PATCH 13/26] fix: HTTP bodies could be cut short or read past their
 end, and a closed connection spun forever

---
 bversion/http/http_client.py | 6 ++++--
 bversion/http/http_common.py | 3 ++-
 bversion/http/http_server.py | 9 +++++----
 3 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/bversion/http/http_client.py b/bversion/http/http_client.py
index 77e3758..93d7526 100644
--- a/bversion/http/http_client.py
+++ b/bversion/http/http_client.py
@@ -15,7 +15,7 @@ class HTTPClient:
         self.s.connect((host,port))
 
     def send(self, data: bytes):
-        self.s.send(data)
+        self.s.sendall(data)
 
     def send_headers(self, uri: str, headers: Dict[str, str]):
         msg = b"POST " + uri.encode('utf8') + b" HTTP/1.1\r\n"
@@ -35,7 +35,9 @@ class HTTPClient:
 
         # read request preamble
         while True:
-            data += self.s.recv(1024)
+            chunk = self.s.recv(1024)
+            if chunk == b'': raise Exception('Socket closed')
+            data += chunk
             if b"\r\n\r\n" in data: break
 
         preamble, body_partial = data.split(b"\r\n\r\n", 1)
diff --git a/bversion/http/http_common.py b/bversion/http/http_common.py
index 3500f45..b9557f2 100644
--- a/bversion/http/http_common.py
+++ b/bversion/http/http_common.py
@@ -69,7 +69,8 @@ class read_body:
     def read(self, length = None) -> Union[bytes, None]:
         if self.have_read >= self.body_length: return None
 
-        if length is None: length = self.body_length - self.have_read
+        remaining = self.body_length - self.have_read
+        length = remaining if length is None else min(length, remaining)
 
         retbuffer: bytes
         if len(self.body_partial) > 0:
diff --git a/bversion/http/http_server.py b/bversion/http/http_server.py
index 9a4e155..c38367b 100644
--- a/bversion/http/http_server.py
+++ b/bversion/http/http_server.py
@@ -52,8 +52,9 @@ def HTTPServer(host, port, connection_handler):
 
                 # read request preamble
                 while True:
-                    data += c.recv(1024)
-                    if data == b'': raise Exception('Socket closed')
+                    chunk = c.recv(1024)
+                    if chunk == b'': raise Exception('Socket closed')
+                    data += chunk
                     if b"\r\n\r\n" in data: break
 
                 preamble, body_partial = data.split(b"\r\n\r\n", 1)
@@ -97,7 +98,7 @@ def HTTPServer(host, port, connection_handler):
                     responce_headers += k + b':' + v + b'\r\n'
 
                 responce_headers += b"\r\n"
-                c.send(responce_headers)
+                c.sendall(responce_headers)
 
                 if isinstance(rsp.body, ServeFile):
                     c.sendfile(open(rsp.body.path, 'rb'), 0)
@@ -106,7 +107,7 @@ def HTTPServer(host, port, connection_handler):
                     while True:
                         chunk = reader.read(4096)
                         if chunk == b'': break
-                        c.send(chunk)
+                        c.sendall(chunk)
 
         except:
             context.shutdown_handler()
-- 
2.43.0


From 380636783a46d9d3d58822bdc936bba7e1739d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:51 +0000
Subject: [PATCH 14/26] fix: cpjoin took blanks around a fragment for part of
 its slashes, and doubled a lone slash

---
 bversion/common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bversion/common.py b/bversion/common.py
index 6b39d2a..9b46dea 100644
--- a/bversion/common.py
+++ b/bversion/common.py
@@ -114,8 +114,8 @@ def cpjoin(*args: str) -> str:
     if len(args) == 0:
         return ''
 
-    rooted = bool(args[0].strip().startswith('/'))
-    ended  = bool(args[-1].strip().endswith('/'))
+    rooted = bool(args[0].startswith('/'))
+    ended  = bool(args[-1].endswith('/'))
 
     split_items = []
 
@@ -127,7 +127,7 @@ def cpjoin(*args: str) -> str:
     joined = '/'.join(split_items)
 
     if rooted: joined = '/' + joined
-    if ended:  joined = joined + '/'
+    if ended and joined != '/': joined = joined + '/'
 
     return joined
 
-- 
2.43.0


From bf3a92ab45edea47b164a1d3521c6d7681e223cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:31 +0000
Subject: [PATCH 15/26] fix: rolling back an interrupted overwrite could
 replace the file by a partial copy

---
 bversion/storage/journaling_filesystem.py | 37 +++++++++++++++--------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/bversion/storage/journaling_filesystem.py b/bversion/storage/journaling_filesystem.py
index ffbd3c7..906832a 100644
--- a/bversion/storage/journaling_filesystem.py
+++ b/bversion/storage/journaling_filesystem.py
@@ -33,8 +33,12 @@ class journaling_filesystem:
     def new_tmp(self):
         """ Create a new temp file allocation """
 
-        self.tmp_idx += 1
-        return p.join(self.tmp_dir, 'tmp_' + str(self.tmp_idx))
+        # never reuse the name of a file which was left behind, undoing
+        # something which was not done yet would restore that file.
+        while True:
+            self.tmp_idx += 1
+            tmp_path = p.join(self.tmp_dir, 'tmp_' + str(self.tmp_idx))
+            if not os.path.exists(tmp_path): return tmp_path
 
 ############################################################################################
     def new_backup(self, src: str):
@@ -46,7 +50,9 @@ class journaling_filesystem:
         backup_name = str(backup_num) + "_" + os.path.basename(src)
         backup_num += 1
 
-        file_put_contents(backup_id_file, bytes(str(backup_num), encoding='utf8'))
+        # write plus move for atomicity
+        file_put_contents(backup_id_file + '_new', bytes(str(backup_num), encoding='utf8'))
+        os.rename(backup_id_file + '_new', backup_id_file)
         return p.join(self.backup_dir, backup_name)
 
 ############################################################################################
@@ -135,11 +141,14 @@ class journaling_filesystem:
 
         path = self.get_full_file_path(path)
 
-        # if file exists, create a temp copy to allow rollback
+        if os.path.isdir(path): raise OSError(errno.EISDIR, 'Is a directory', path)
+
+        # if file exists, move it to a temp file to allow rollback. It must not be copied,
+        # as undoing an interrupted copy would replace the file by the partial copy.
         if os.path.isfile(path):
             tmp_path = self.new_tmp()
             self.do_action({
-                'do'   : ['copy', path, tmp_path],
+                'do'   : ['move', path, tmp_path],
                 'undo' : ['move', tmp_path, path]})
 
         self.do_action(
@@ -152,14 +161,16 @@ class journaling_filesystem:
 
         src = self.get_full_file_path(src); dst = self.get_full_file_path(dst)
 
-        # record where file moved
-        if os.path.isfile(src):
-            # if destination file exists, copy it to tmp first
-            if os.path.isfile(dst):
-                tmp_path = self.new_tmp()
-                self.do_action({
-                    'do'   : ['copy', dst, tmp_path],
-                    'undo' : ['move', tmp_path, dst]})
+        if not os.path.isfile(src): raise OSError(errno.ENOENT, 'No such file or directory', src)
+        if os.path.isdir(dst):      raise OSError(errno.EISDIR, 'Is a directory', dst)
+
+        # if destination file exists, move it to tmp first. If it was still there when the
+        # move below is undone without having been done, it would replace the source.
+        if os.path.isfile(dst) and src != dst:
+            tmp_path = self.new_tmp()
+            self.do_action({
+                'do'   : ['move', dst, tmp_path],
+                'undo' : ['move', tmp_path, dst]})
 
         self.do_action(
             {'do'   : ['move', src, dst],
-- 
2.43.0


From 18eaf5023f2dc8d33a318a71c985c22473834ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:31 +0000
Subject: [PATCH 16/26] fix: a failed undo step was dropped from the journal,
 losing the saved file

---
 bversion/storage/journaling_filesystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bversion/storage/journaling_filesystem.py b/bversion/storage/journaling_filesystem.py
index 906832a..ec229a9 100644
--- a/bversion/storage/journaling_filesystem.py
+++ b/bversion/storage/journaling_filesystem.py
@@ -96,7 +96,7 @@ class journaling_filesystem:
 
         for j_itm in reversed(journ_list):
             try: self.do_action({'do' : j_itm['data']}, write_journal = False)
-            except IOError: pass
+            except FileNotFoundError: pass # this step was not done, or is already undone
 
             # As each item is completed remove it from the journal. In case
             # something fails during the rollback we can pick up where it stopped.
-- 
2.43.0


From b45d585f061e5c73c1c5d600b3ebbdbda178535b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:31 +0000
Subject: [PATCH 17/26] fix: rolling back a working copy transaction saved its
 unfinished manifest changes

---
 bversion/storage/client_db.py             | 5 +++++
 bversion/storage/journaling_filesystem.py | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/bversion/storage/client_db.py b/bversion/storage/client_db.py
index 5759f37..5701ab8 100644
--- a/bversion/storage/client_db.py
+++ b/bversion/storage/client_db.py
@@ -54,6 +54,11 @@ class client_db:
         self.con.commit()
 
 
+    # --------------
+    def rollback(self):
+        self.con.rollback()
+
+
 # ===================================================
 # Handling of system metadata
 # ===================================================
diff --git a/bversion/storage/journaling_filesystem.py b/bversion/storage/journaling_filesystem.py
index ec229a9..c77b82d 100644
--- a/bversion/storage/journaling_filesystem.py
+++ b/bversion/storage/journaling_filesystem.py
@@ -92,6 +92,9 @@ class journaling_filesystem:
     def rollback(self):
         """ Do journal rollback """
 
+        # Discard manifest changes which belong to the transaction being rolled back
+        self.client_db.rollback()
+
         journ_list = self.client_db.get_fs_journal()
 
         for j_itm in reversed(journ_list):
-- 
2.43.0


From cb90ccb10c8d5db32e404ddb9c9ab99b19de1fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:31 +0000
Subject: [PATCH 18/26] fix: the remains of an interrupted update were taken
 for local changes

---
 bversion/client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bversion/client.py b/bversion/client.py
index 43bb10e..5b6d455 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -95,6 +95,9 @@ def init(unlocked = False):
     journaling_fs = journaling_filesystem(cdb, config['data_dir'], '.bvn')
     data_store = client_filesystem_interface(cdb, journaling_fs)
 
+    # Undo an interrupted transaction now, what it left behind are not changes made by the user
+    if cdb.get_fs_journal() != []: journaling_fs.rollback()
+
     if server_connection is None:
         server_connection = client_http_request(config['server_domain'])
 
-- 
2.43.0


From 353847dfb8b232f8fb41e7a31003bee7fab7442b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:06 +0000
Subject: [PATCH 19/26] fix: an update which failed to pull a file was recorded
 as complete

---
 bversion/client.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 5b6d455..b9b7fe8 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -667,11 +667,12 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
                 if e.errno not in [errno.ENOTEMPTY, errno.ENOENT]: raise
 
 
-    # Update the latest revision in the manifest
-    manifest_meta = cdb.get_system_meta()
-    manifest_meta['have_revision'] = result['head']
-    cdb.update_system_meta(manifest_meta)
-    cdb.commit()
+    # Update the latest revision in the manifest, if anything failed the next update has to do it again
+    if affected_files['errors'] == []:
+        manifest_meta = cdb.get_system_meta()
+        manifest_meta['have_revision'] = result['head']
+        cdb.update_system_meta(manifest_meta)
+        cdb.commit()
 
     # Delete the conflicts resolution file and recursively delete any conflict files downloaded for comparison
     ignore(os.remove, config['conflict_resolution_file'])
@@ -681,6 +682,10 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
     for item in affected_files['errors']:
         print(item)
 
+    if affected_files['errors'] != []:
+        print('\nUpdate incomplete, please run it again')
+        return affected_files
+
     # ==================
     print('\n-------------------------------\n')
     print(colored('At revision: ' + result['head'], 'yellow'))
-- 
2.43.0


From 69a2741c242b49dcc9438abcbd4270956b2d5fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:06 +0000
Subject: [PATCH 20/26] fix: a file edited after a partial update was not
 replaced by the server version chosen for it

---
 bversion/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bversion/client.py b/bversion/client.py
index b9b7fe8..5af96c2 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -616,7 +616,7 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
             # Chech we don't already have the file due to a previous run that failed mid-process
             have_file = False
             if file_in_manifest is not None and file_in_manifest['server_file_hash'] == file_hash:
-                have_file = True
+                have_file = client_changes.get(fle['path'], {'status' : 'unchanged'})['status'] == 'unchanged'
 
             # ===================
             if not have_file:
-- 
2.43.0


From 6aafa095dbc7bb0fcff8527b7987b90907aef0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:06 +0000
Subject: [PATCH 21/26] fix: failing to remove a file was ignored by update, as
 was the manifest entry of a missing one

---
 bversion/client.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 5af96c2..fd9701b 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -654,10 +654,15 @@ def update(session_token: str, test_overrides = None, include_unchanged = False)
 
             try:
                 data_store.fs_delete(fle['path'])
-            except OSError:
-                # If this happens, a file was deleted on the server which
-                # never existed on this client, thus do nothing.
-                pass
+            except OSError as e:
+                if e.errno != errno.ENOENT:
+                    affected_files['errors'].append('Failed to delete file ' + fle['path'])
+                    continue
+
+                # If this happens, a file was deleted on the server which never existed on
+                # this client, or which was deleted here too and only needs to be forgotten.
+                cdb.remove_file_from_manifest(fle['path'])
+                cdb.commit()
 
             affected_files['deleted_files'].append(fle['path'])
 
-- 
2.43.0


From 21d5d1a061f75958d4e81932dfcf841439f36492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:06 +0000
Subject: [PATCH 22/26] fix: a file edited while it was being committed was
 recorded as unchanged

---
 bversion/client.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index fd9701b..3bbd9cb 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -11,7 +11,7 @@ import pysodium #type: ignore
 
 #=================================================
 from bversion.common import (cpjoin, get_file_list, find_manifest_changes, make_dirs_if_dont_exist,
-                             manifestFileDetails, get_single_file_info, file_or_default, question_user,
+                             manifestFileDetails, file_or_default, question_user,
                              file_put_contents, file_get_contents, ignore, find_bvn_dir, hash_file)
 
 from bversion.http.client_http_request import client_http_request
@@ -790,7 +790,8 @@ def commit(session_token: str, commit_message = '', test_overrides = None):
                 changes_made.append({
                     'status'    : 'new/changed',
                     'path'      : fle['path'],
-                    'file_info' : previous_uploads[fle['path']]
+                    'file_info' : previous_uploads[fle['path']],
+                    'local'     : fle
                 })
 
                 continue
@@ -807,7 +808,8 @@ def commit(session_token: str, commit_message = '', test_overrides = None):
                 changes_made.append({
                     'status'    : 'new/changed',
                     'path'      : fle['path'],
-                    'file_info' : json.loads(headers['file_info_json'])
+                    'file_info' : json.loads(headers['file_info_json']),
+                    'local'     : fle
                 })
             else:
                 print(headers)
@@ -855,7 +857,8 @@ def commit(session_token: str, commit_message = '', test_overrides = None):
                 cdb.remove_file_from_manifest(change['path'])
 
             elif change['status'] == 'new/changed':
-                file_info = get_single_file_info(cpjoin(config['data_dir'], change['path']), change['path'])
+                # The times from before the upload, so that later edits are still seen as changes
+                file_info = dict(change['local'])
                 file_info['server_file_hash'] = change['file_info']['hash']
                 cdb.add_file_to_manifest(file_info)
 
-- 
2.43.0


From e0b93cfbba9cc11493ccdaa91c761212ead8802b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:06 +0000
Subject: [PATCH 23/26] fix: resuming a commit kept uploads and deletes which
 are no longer local changes

---
 bversion/client.py            | 34 ++++++++++++++++++++++++----------
 bversion/storage/server_db.py |  3 +++
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/bversion/client.py b/bversion/client.py
index 3bbd9cb..38ac95b 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -729,28 +729,42 @@ def commit(session_token: str, commit_message = '', test_overrides = None):
 
     # Acquire the commit lock and check we still have the latest revision
     manifest_meta = cdb.get_system_meta()
-    body, headers = server_connection.request("begin_commit", {
-        "session_token"     : session_token,
-        'user'              : config['user'],
-        'repository'        : config['repository'],
-        "previous_revision" : manifest_meta['have_revision']})
+    def begin_commit():
+        body, headers = server_connection.request("begin_commit", {
+            "session_token"     : session_token,
+            'user'              : config['user'],
+            'repository'        : config['repository'],
+            "previous_revision" : manifest_meta['have_revision']})
 
+        if headers['status'] != 'ok': raise SystemExit(headers['msg'])
 
-    if headers['status'] != 'ok': raise SystemExit(headers['msg'])
+        return json.loads(body)['partial_commit']
 
+    previous_uploads = begin_commit()
+
+    # If a file which exists in the latest revision was uploaded, but is not a local change
+    # any more, the interrupted commit cannot be continued. Discard it and begin again.
+    wanted_paths = {fle['path'] for group in changes.values() for fle in group}
+    if any(fle['status'] != 'new' and fle['path'] not in wanted_paths for fle in previous_uploads):
+        headers = server_connection.request("commit", {
+            "session_token"  : session_token,
+            'repository'     : config['repository'],
+            'commit_message' : '',
+            'mode'           : 'abort'})[1] # Only care about headers
+
+        if headers['status'] != 'ok': raise SystemExit(headers['msg'])
+
+        previous_uploads = begin_commit()
 
     # If we are resuming a partial commit, handle the previously uploaded files
     # Hash local files to ensure they have not changed and thus need reuploading
-    previous_uploads = json.loads(body)
-    previous_uploads = previous_uploads['partial_commit']
-
     filtered_previous = {}
     if len(previous_uploads) != 0:
         for fle in previous_uploads:
             print('Checking file from partially complete commit: ' + fle['path'])
             local_path = cpjoin(config['data_dir'], fle['path'])
 
-            if not os.path.isfile(local_path):
+            if not os.path.isfile(local_path) or fle['path'] not in wanted_paths:
                 changes['to_delete_on_server'].append(fle)
 
             elif fle['hash'] == hash_file(local_path):
diff --git a/bversion/storage/server_db.py b/bversion/storage/server_db.py
index ec9790b..6e89029 100644
--- a/bversion/storage/server_db.py
+++ b/bversion/storage/server_db.py
@@ -222,6 +222,9 @@ class server_db:
         # Add the existing files to the commit
         self.active_files = active_files
 
+        # Only uploads are resumed, what has to be deleted is always requested again
+        self.con.execute("delete from active_commit_changes where status = 'deleted'")
+
         self.con.execute("update active_commit_exists set session_token = ?", (session_token,))
         self.con.commit()
 
-- 
2.43.0


From 64ca9dcafe32559b56c6d179b900e937b7e3cf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:06 +0000
Subject: [PATCH 24/26] fix: a pushed path without leading slash lost its first
 component

---
 bversion/server.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bversion/server.py b/bversion/server.py
index 61509f7..3d45590 100644
--- a/bversion/server.py
+++ b/bversion/server.py
@@ -480,6 +480,9 @@ def push_file(request: Request, context: ConnectionContext) -> Responce:
     file_path = request.headers['path']
     if any(True for item in re.split(r'\\|/', file_path) if item in ['..', '.']): return fail()
 
+    # Paths are relative to the root of the repository, and stored with a leading slash
+    if not file_path.startswith('/'): return fail()
+
     #===
     tmp_path = cpjoin(repository_path, 'tmp_file')
     with open(tmp_path, 'wb') as f:
-- 
2.43.0


From 97a0d4ebd69b5e2b4ad0d35f0b442da124945860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:32 +0000
Subject: [PATCH 25/26] fix: backups made with other key derivation limits were
 decrypted with a cached wrong key

---
 bversion/backup/crypto.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bversion/backup/crypto.py b/bversion/backup/crypto.py
index 2192e0c..ae0473c 100644
--- a/bversion/backup/crypto.py
+++ b/bversion/backup/crypto.py
@@ -5,14 +5,16 @@ from bversion.backup.pipeline_common import parse_pipeline_format
 password_cache = {}
 
 def hash_password(password, salt, ops_limit, memory_limit):
-    if password + salt not in password_cache:
+    cache_key = (password, salt, ops_limit, memory_limit)
+
+    if cache_key not in password_cache:
         key = pysodium.crypto_pwhash(pysodium.crypto_secretstream_xchacha20poly1305_KEYBYTES,
                                     password, salt, ops_limit, memory_limit,
                                     pysodium.crypto_pwhash_ALG_ARGON2I13)
 
-        password_cache[password + salt] = key
+        password_cache[cache_key] = key
 
-    return password_cache[password + salt]
+    return password_cache[cache_key]
 
 
 #+++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++==
-- 
2.43.0


From 9f0962dd14ecb4eb4abebdde704a54286c8d7d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:13 +0000
Subject: [PATCH 26/26] fix: conflicts on paths containing a colon could not be
 resolved with a resolution file

---
 bversion/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bversion/client.py b/bversion/client.py
index 38ac95b..7f7e742 100644
--- a/bversion/client.py
+++ b/bversion/client.py
@@ -377,7 +377,7 @@ def resolve_update_conflicts(session_token: str, changes: list, version_id: str,
 
         resolutions = []
         for chunk in chunks:
-            path_sect = chunk[0].split(':')
+            path_sect = chunk[0].split(':', 1)
             res_sect  = chunk[2].split(':')
 
             if 'Path' not in path_sect[0]:
-- 
2.43.0

