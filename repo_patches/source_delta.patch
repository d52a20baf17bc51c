From 5fa012d76040f85594bbe8bb0c9c4db32787f19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:05 +0000
Subject: [PATCH 01/51] fix: MST.delete: reset layer when the last key is
 deleted

An emptied tree kept the layer of its last key, so adding a key of a lower
layer afterward produced a non-canonical root with extra structural nodes.
---
 arroba/mst.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/arroba/mst.py b/arroba/mst.py
index 9892ffb..7962688 100644
--- a/arroba/mst.py
+++ b/arroba/mst.py
@@ -415,7 +415,11 @@ class MST:
         Raises:
           KeyError: if key doesn't exist
         """
-        return self.delete_recurse(key).trim_top()
+        tree = self.delete_recurse(key).trim_top()
+        if not tree.get_entries():
+            # an empty tree is always layer 0, regardless of its last key's layer
+            return MST.create(storage=self.storage)
+        return tree
 
     def delete_recurse(self, key):
         """Deletes the value and subtree, if any, at the given key.
-- 
2.43.0


From 479f97ba3d7c814a7ee58b1c89fe2094778f0310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:53 +0000
Subject: [PATCH 02/51] fix: Storage._commit: don't change repo.mst until all
 writes succeed

A commit with a valid write followed by an invalid one raised, but left the
valid write in the (shared, with MemoryStorage) repo's MST, so the next commit
silently included it without its operation or its record block.
---
 arroba/storage.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index 7a90ed6..a09d667 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -555,6 +555,8 @@ class Storage:
         if len(writes) > MAX_OPERATIONS_PER_COMMIT:
             raise ValueError(f'Too many operations ({len(writes)}), max is {MAX_OPERATIONS_PER_COMMIT}')
 
+        # don't touch repo until we know that all writes are ok. repo may be shared
+        tree = repo.mst
         ops = []
         for write in copy.copy(writes):
             assert isinstance(write, Write), type(write)
@@ -564,12 +566,12 @@ class Storage:
             # https://github.com/bluesky-social/proposals/tree/main/0006-sync-iteration#commit-validation-mst-operation-inversion
             prev_cid = None
             if write.action in (Action.UPDATE, Action.DELETE):
-                if not (prev_cid := repo.mst.get(path)):
+                if not (prev_cid := tree.get(path)):
                     raise ValueError(f"{path} doesn't exist in repo")
 
             if write.action == Action.DELETE:
                 logger.debug('deleting from MST')
-                repo.mst = repo.mst.delete(path)
+                tree = tree.delete(path)
                 logger.debug('  done')
                 ops.append(CommitOp(action=Action.DELETE, path=path,
                                     cid=None, prev_cid=prev_cid))
@@ -589,23 +591,23 @@ class Storage:
 
             if write.action == Action.CREATE:
                 logger.debug('adding to MST')
-                repo.mst = repo.mst.add(path, block.cid)
+                tree = tree.add(path, block.cid)
                 logger.debug('  done')
                 ops.append(op)
             else:
                 assert write.action == Action.UPDATE
-                orig_pointer = repo.mst.get_pointer()
+                orig_pointer = tree.get_pointer()
                 logger.debug('updating MST')
-                repo.mst = repo.mst.update(path, block.cid)
+                tree = tree.update(path, block.cid)
                 logger.debug('  done')
-                if repo.mst.get_pointer() != orig_pointer:
+                if tree.get_pointer() != orig_pointer:
                     # no-op updates are invalid in ATProto, so only include this
                     # update operation if it changes the the record and MST.
                     # https://github.com/snarfed/arroba/issues/52#issuecomment-2825755142
                     ops.append(op)
 
         logger.debug('loading unstored MST blocks')
-        root, unstored_blocks = repo.mst.get_unstored_blocks()
+        root, unstored_blocks = tree.get_unstored_blocks()
         logger.debug('  done')
         for block in unstored_blocks.values():
             block.repo = repo_did
@@ -633,6 +635,7 @@ class Storage:
         logger.debug('  done')
 
         # update repo head
+        repo.mst = tree
         if repo.did:
             repo.head = commit_data.commit
             logger.info(f'Updating {repo.did} head {repo.head.cid}')
-- 
2.43.0


From cccef5c5d7c127d225499aa15a8ebb40ca5cc924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:53 +0000
Subject: [PATCH 03/51] fix: Storage._commit: check the stored repo's status,
 not just the passed in repo's

A commit with a Repo object loaded before the account was deactivated or
tombstoned succeeded, and its store_repo silently kept writing.
---
 arroba/storage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arroba/storage.py b/arroba/storage.py
index a09d667..dd5abb0 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -545,6 +545,9 @@ class Storage:
             assert repo.did
             repo_did = repo.did
             repo = self.load_repo(repo_did)
+            if repo.status:
+                # status in storage may be newer than in the repo we were passed
+                raise InactiveRepo(repo.did, repo.status)
             prev = repo.head.cid  # for the new commit
 
         commit_blocks = {}  # maps CID to Block
-- 
2.43.0


From 2542cb10ff9fda880c4c4d3c6a5ee4e99da0a2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:53 +0000
Subject: [PATCH 04/51] fix: Storage.commit: don't report a committed seq as
 lost if the callback raises

---
 arroba/storage.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index dd5abb0..0714c7e 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -514,13 +514,15 @@ class Storage:
 
         try:
             commit_data = self._commit(repo, writes, seq, repo_did=repo_did)
-            if repo.callback:
-                repo.callback(data=commit_data)
         except BaseException:
             if repo.callback:
                 repo.callback(lost_seq=seq)
             raise
 
+        # outside the try since the commit is now stored, so seq isn't lost
+        if repo.callback:
+            repo.callback(data=commit_data)
+
         return commit_data
 
     def _commit(self, repo, writes, seq, repo_did=None):
-- 
2.43.0


From b19113c6edd83088da6546e7c8dcfeebc4697bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:35 +0000
Subject: [PATCH 05/51] fix: Storage.commit: only change repo's head and mst
 after the commit is stored

Datastore transactions run _commit, and may retry or fail after it returns
---
 arroba/storage.py | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index 0714c7e..58ab52b 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -513,12 +513,17 @@ class Storage:
         seq = self.sequences.allocate(SUBSCRIBE_REPOS_NSID)
 
         try:
-            commit_data = self._commit(repo, writes, seq, repo_did=repo_did)
+            commit_data, tree = self._commit(repo, writes, seq, repo_did=repo_did)
         except BaseException:
             if repo.callback:
                 repo.callback(lost_seq=seq)
             raise
 
+        # the commit is now stored. only change repo now, not inside _commit, which may
+        # be in a transaction that gets retried or fails
+        repo.mst = tree
+        repo.head = commit_data.commit
+
         # outside the try since the commit is now stored, so seq isn't lost
         if repo.callback:
             repo.callback(data=commit_data)
@@ -526,27 +531,30 @@ class Storage:
         return commit_data
 
     def _commit(self, repo, writes, seq, repo_did=None):
-        """Separate from :meth:`commit` so that subclasses can put it in a tx."""
+        """Separate from :meth:`commit` so that subclasses can put it in a tx.
+
+        Doesn't modify ``repo``, only what's in storage!
+
+        Returns:
+          (CommitData, MST) tuple: new commit, new tree
+        """
         assert seq
         if repo.status:
             raise InactiveRepo(repo.did, repo.status)
 
-        orig_repo = repo
         if repo_did:
             # this is the initial empty commit for creating a new repo
             if repo.head:
-                # this must be a transaction retry, and head was set by a previous
-                # attempt, below
+                # head was set by a previous attempt at this initial commit
                 assert repo.head.decoded.get('did') == repo_did, repo.head.decoded
                 assert not repo.head.decoded.get('prev'), repo.head.decoded
-                repo.head = None
-            assert not repo.did
             prev = None
+            stored_repo = None
         else:
             # this is an existing repo with at least one commit
             assert repo.did
             repo_did = repo.did
-            repo = self.load_repo(repo_did)
+            repo = stored_repo = self.load_repo(repo_did)
             if repo.status:
                 # status in storage may be newer than in the repo we were passed
                 raise InactiveRepo(repo.did, repo.status)
@@ -640,16 +648,14 @@ class Storage:
         logger.debug('  done')
 
         # update repo head
-        repo.mst = tree
-        if repo.did:
-            repo.head = commit_data.commit
-            logger.info(f'Updating {repo.did} head {repo.head.cid}')
-            self.store_repo(repo)
+        if stored_repo:
+            stored_repo.mst = tree
+            stored_repo.head = commit_block
+            logger.info(f'Updating {repo_did} head {commit_block.cid}')
+            self.store_repo(stored_repo)
             logger.debug('  done')
 
-        orig_repo.mst = repo.mst
-        orig_repo.head = commit_block
-        return commit_data
+        return commit_data, tree
 
 
 class MemorySequences(Sequences):
-- 
2.43.0


From 2da57ce505c261a2a6a8d85be8d89ab6bba1718e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:59 +0000
Subject: [PATCH 06/51] fix: DatastoreStorage.write_blocks: write a commit's
 blocks in the commit's transaction

Previously they were in their own separate transaction, so a commit that failed or crashed left its blocks behind
---
 arroba/datastore_storage.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index 55c2f0c..f89145a 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -873,7 +873,9 @@ class DatastoreStorage(Storage, NdbMixin):
         return AtpBlock.create(repo_did=repo_did, data=obj, seq=seq).to_block()
 
     @ndb_context
-    @ndb.non_transactional()
+    # if we're in a transaction, eg for a commit, join it, so that a commit's blocks
+    # are only stored if the whole commit is
+    @ndb.transactional(join=True)
     def write_blocks(self, blocks):
         keys = [AtpBlock(id=b.cid.encode('base32')).key for b in blocks]
         existing = AtpBlock.query(AtpBlock.key.IN(keys)).fetch(keys_only=True)
@@ -881,7 +883,7 @@ class DatastoreStorage(Storage, NdbMixin):
         new = [AtpBlock.from_block(b) for b in blocks
                if b.cid.encode('base32') not in existing_cids]
         logger.debug(f'  {len(new)} new {len(existing)} existing')
-        ndb.transaction(lambda: ndb.put_multi(new), join=True)
+        ndb.put_multi(new)
 
     @ndb_context
     @ndb.transactional(retries=10)
-- 
2.43.0


From 0e8c6045ce2eb616d685a491fd671e75334c9b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:21 +0000
Subject: [PATCH 07/51] fix: getRepo: fail if a block is missing, don't
 silently omit it

---
 arroba/mst.py     | 12 ++++++++++--
 arroba/storage.py |  3 ++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/arroba/mst.py b/arroba/mst.py
index 7962688..7aec489 100644
--- a/arroba/mst.py
+++ b/arroba/mst.py
@@ -824,9 +824,17 @@ class MST:
         leaves = []
         to_fetch = [bytes(self.get_pointer())]
 
+        def fetch(cids):
+            blocks = self.storage.read_many_raw(cids)
+            for cid in cids:
+                # missing blocks may be either None or omitted
+                if not blocks.get(cid):
+                    raise KeyError(f'missing block {libipld.encode_cid(cid)}')
+            return blocks
+
         while to_fetch:
             logger.debug(f'fetching {len(to_fetch)} blocks')
-            blocks = self.storage.read_many_raw(to_fetch)
+            blocks = fetch(to_fetch)
             to_fetch.clear()
 
             for cid, encoded_seq in blocks.items():
@@ -846,7 +854,7 @@ class MST:
                         # received raw bytes from libipld above
                         to_fetch.append(entry.get_pointer())
 
-        leaf_blocks = self.storage.read_many_raw(leaves)
+        leaf_blocks = fetch(leaves)
         for cid, encoded_seq in leaf_blocks.items():
             yield cid, encoded_seq[0]
 
diff --git a/arroba/storage.py b/arroba/storage.py
index 58ab52b..a1cc381 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -733,7 +733,8 @@ class MemoryStorage(Storage):
 
     def read_many_raw(self, cids):
         blocks = [self.blocks.get(CID.decode(cid)) for cid in cids]
-        return {cid: (block.encoded, block.seq) for cid, block in zip(cids, blocks)}
+        return {cid: (block.encoded, block.seq) if block else None
+                for cid, block in zip(cids, blocks)}
 
     def read_blocks_by_seq(self, start=0, repo=None):
         assert start >= 0
-- 
2.43.0


From 3e165f6bddbddc70a3442cd1f6066e63bb74c759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 08/51] fix: MemorySequences.allocate: make thread safe

---
 arroba/storage.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index a1cc381..29e037b 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -8,7 +8,7 @@ import copy
 from enum import auto, Enum
 import itertools
 import logging
-
+import threading
 
 import dag_cbor
 from multiformats import CID, multicodec, multihash
@@ -666,12 +666,14 @@ class MemorySequences(Sequences):
     """
     def __init__(self):
         self.sequences = {}
+        self._lock = threading.Lock()
 
     def allocate(self, nsid):
         assert nsid
-        next = self.sequences.setdefault(nsid, 1)
+        with self._lock:
+            next = self.sequences.setdefault(nsid, 1)
+            self.sequences[nsid] = next + 1
         logger.info(f'Allocated seq {next}')
-        self.sequences[nsid] += 1
         return next
 
     def last(self, nsid):
-- 
2.43.0


From 5665d030f9772df7df677814d51d72b513c5de0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:31 +0000
Subject: [PATCH 09/51] fix: next_tid: make thread safe

---
 arroba/util.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/arroba/util.py b/arroba/util.py
index 0cb1e7d..d03ab35 100644
--- a/arroba/util.py
+++ b/arroba/util.py
@@ -8,6 +8,7 @@ from numbers import Integral
 import os
 import random
 import re
+import threading
 import time
 from urllib.parse import urlparse
 
@@ -33,6 +34,7 @@ DOMAIN_RE = re.compile(r'^[^/:;@?!\']+\.[^/:@_?!\']+$')
 # resistant. we use the same clockid for all TIDs coming from this runtime.
 _clockid = random.randint(0, 31)
 _tid_ts_last = 0  # microseconds
+_tid_lock = threading.Lock()  # for _tid_ts_last
 
 S32_CHARS = '234567abcdefghijklmnopqrstuvwxyz'
 
@@ -216,8 +218,9 @@ def next_tid():
 
     # enforce that we're at least 1us after the last TID to prevent TIDs moving
     # backwards if system clock drifts backwards
-    _tid_ts_last = max(time_ns() // 1000, _tid_ts_last + 1)
-    return int_to_tid(_tid_ts_last)
+    with _tid_lock:
+        ts = _tid_ts_last = max(time_ns() // 1000, _tid_ts_last + 1)
+    return int_to_tid(ts)
 
 
 def at_uri(did, collection, rkey):
-- 
2.43.0


From e69172214025e6f7fc931c7fb502315676a5af04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:55 +0000
Subject: [PATCH 10/51] fix: Storage.activate_repo: do nothing if the repo is
 tombstoned, as documented

---
 arroba/storage.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/arroba/storage.py b/arroba/storage.py
index 29e037b..7d6a55a 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -286,6 +286,12 @@ class Storage:
         Args:
           repo (Repo)
         """
+        # status in storage may be newer than in the repo we were passed
+        stored = self.load_repo(repo.did)
+        if TOMBSTONED in (repo.status, stored.status if stored else None):
+            logger.info(f'{repo.did} is tombstoned, not activating')
+            return
+
         self._set_repo_status(repo, None)
         block = self.write_event(repo=repo, type='account', active=True)
 
-- 
2.43.0


From ce590fbbed14de831e190a687f9a6e1381012819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 11/51] fix: sync.getRecord: use the record's full path for
 covering proof

---
 arroba/xrpc_sync.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arroba/xrpc_sync.py b/arroba/xrpc_sync.py
index 6fd632f..0c2a514 100644
--- a/arroba/xrpc_sync.py
+++ b/arroba/xrpc_sync.py
@@ -220,7 +220,7 @@ def get_record(input, did=None, collection=None, rkey=None):
 
     # include covering proof for a create of this record
     create = Block(decoded=record,
-                   ops=[CommitOp(Action.CREATE, collection, block.cid)])
+                   ops=[CommitOp(Action.CREATE, f'{collection}/{rkey}', block.cid)])
     proofs = repo.mst.add_covering_proofs(CommitData(commit=create, blocks={}))
     proof_blocks = [car.Block(data=val.encoded) for val in proofs.values()]
 
-- 
2.43.0


From c2a6cfcf49732324d11639f24973140914356c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:25 +0000
Subject: [PATCH 12/51] fix: createSession: check the password

---
 arroba/xrpc_server.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arroba/xrpc_server.py b/arroba/xrpc_server.py
index 0862117..d4fcbb3 100644
--- a/arroba/xrpc_server.py
+++ b/arroba/xrpc_server.py
@@ -15,6 +15,10 @@ def create_session(input):
     if not repo:
         raise ValueError(f'Repo {id} not found')
 
+    password = os.environ.get('REPO_PASSWORD')
+    if not password or input.get('password') != password:
+        raise ValueError('Invalid password')
+
     # TODO: generate JWT
     token = os.environ['REPO_TOKEN']
     return {
-- 
2.43.0


From cf6a800cbc791776f8003b46da8cf8d6bb3411ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:41 +0000
Subject: [PATCH 13/51] fix: Storage.read_events_by_seq: skip imported blocks,
 they have seq 0 and aren't events

---
 arroba/storage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index 7d6a55a..dd1f5b1 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -403,7 +403,8 @@ class Storage:
             return CommitData(blocks=blocks, commit=commit_block,
                               prev=commit_block.decoded.get('prev'))
 
-        for block in self.read_blocks_by_seq(start=start, repo=repo):
+        # imported blocks, ie from com.atproto.repo.importRepo, have seq 0
+        for block in self.read_blocks_by_seq(start=max(start, 1), repo=repo):
             assert block.seq
             if block.seq != seq:  # switching to a new commit's blocks
                 if commit_block:
-- 
2.43.0


From 1c7949c2e36bc1cf5f803a51810dd6e062acaf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:51 +0000
Subject: [PATCH 14/51] fix: Storage.read_events_by_seq: don't mistake a record
 with a commit's fields for the commit

---
 arroba/storage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index dd1f5b1..f44191c 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -423,7 +423,9 @@ class Storage:
 
             blocks[block.cid] = block
             commit_fields = ['version', 'did', 'rev', 'prev', 'data', 'sig']
-            if block.decoded.keys() == set(commit_fields):
+            # prefer a block with ops, since a record could have the same fields
+            if (block.decoded.keys() == set(commit_fields)
+                    and (block.ops or not commit_block)):
                 commit_block = block
 
         # final commit
-- 
2.43.0


From e150c3f230e599c241c14d14f9f4d84aa835e0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:51 +0000
Subject: [PATCH 15/51] fix: Storage.commit: refuse records that are
 subscribeRepos events

---
 arroba/storage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arroba/storage.py b/arroba/storage.py
index f44191c..d496a68 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -602,6 +602,9 @@ class Storage:
             # raises ValidationError if it doesn't validate
             assert write.record is not None
             server.validate(write.record.get('$type'), 'record', write.record)
+            # read_events_by_seq would return it as an event
+            if str(write.record.get('$type')).startswith(f'{SUBSCRIBE_REPOS_NSID}#'):
+                raise ValueError(f"Record {path} can't be a {SUBSCRIBE_REPOS_NSID} event")
 
             block = Block(decoded=write.record, repo=repo_did, seq=seq)
             if len(block.encoded) > MAX_RECORD_SIZE_BYTES:
-- 
2.43.0


From 3ef2c2a5023b26681ab07fa105d94219d8452c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:22 +0000
Subject: [PATCH 16/51] fix: Storage.read_events_by_seq: handle records with a
 non-string $type

---
 arroba/storage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index d496a68..a18b9a9 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -416,7 +416,8 @@ class Storage:
                 blocks = {}  # maps CID to Block
                 commit_block = None
 
-            if block.decoded.get('$type', '').startswith(
+            # a record's $type may be anything, not just str
+            if str(block.decoded.get('$type', '')).startswith(
                     'com.atproto.sync.subscribeRepos#'):  # non-commit message
                 yield block.decoded
                 continue
-- 
2.43.0


From b2b1548efe3fbc61444e82b30a3aaf648e200861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:51 +0000
Subject: [PATCH 17/51] fix: DatastoreStorage.store_repo: create an ndb context
 if there isn't one, like the other methods

---
 arroba/datastore_storage.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index f89145a..8cc504d 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -717,6 +717,7 @@ class DatastoreStorage(Storage, NdbMixin):
 
         update()
 
+    @ndb_context
     def store_repo(self, repo):
         @ndb.transactional(join=True)
         def store():
-- 
2.43.0


From 3a143ae9b60adb3b740876e812db11f5be227c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:51 +0000
Subject: [PATCH 18/51] fix: DatastoreStorage.write_blocks: handle no blocks

---
 arroba/datastore_storage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index 8cc504d..e5e1020 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -878,6 +878,9 @@ class DatastoreStorage(Storage, NdbMixin):
     # are only stored if the whole commit is
     @ndb.transactional(join=True)
     def write_blocks(self, blocks):
+        if not blocks:
+            return  # ndb refuses queries for no keys
+
         keys = [AtpBlock(id=b.cid.encode('base32')).key for b in blocks]
         existing = AtpBlock.query(AtpBlock.key.IN(keys)).fetch(keys_only=True)
         existing_cids = [key.id() for key in existing]
-- 
2.43.0


From 113e9ce10baee9db6b445c71e65fcec2c60927a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:09 +0000
Subject: [PATCH 19/51] fix: deleteRecord: return an object, as its lexicon
 requires

---
 arroba/xrpc_repo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arroba/xrpc_repo.py b/arroba/xrpc_repo.py
index d1a7f8b..5a40a14 100644
--- a/arroba/xrpc_repo.py
+++ b/arroba/xrpc_repo.py
@@ -84,7 +84,7 @@ def delete_record(input):
     repo = server.load_repo(input['repo'])
     record = repo.get_record(input['collection'], input['rkey'])
     if record is None:
-        return  # noop
+        return {}  # noop
 
     server.storage.commit(repo, [Write(
         action=Action.DELETE,
@@ -92,6 +92,8 @@ def delete_record(input):
         rkey=input['rkey'],
     )])
 
+    return {}
+
 
 @server.server.method('com.atproto.repo.listRecords')
 def list_records(input, repo=None, collection=None, limit=50, cursor=None,
-- 
2.43.0


From 6aeb61c7ce8bfd916506c7e0ec788d8a16f4ef79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:36 +0000
Subject: [PATCH 20/51] fix: importRepo: refuse a CAR that's missing blocks

---
 arroba/xrpc_repo.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/arroba/xrpc_repo.py b/arroba/xrpc_repo.py
index 5a40a14..681e5db 100644
--- a/arroba/xrpc_repo.py
+++ b/arroba/xrpc_repo.py
@@ -15,7 +15,7 @@ from . import did
 from .mst import MST
 from .repo import Repo, Write
 from . import server
-from .storage import Action, Block
+from .storage import Action, Block, MemoryStorage
 from . import server
 from . import util
 from .util import at_uri, dag_cbor_cid, new_key, next_tid, verify_sig
@@ -234,6 +234,15 @@ def import_repo(input):
 
     logger.info(f'importing repo for {repo_did}')
 
+    # check that the CAR is complete before we store anything
+    imported = MemoryStorage()
+    imported.write_blocks(blocks)
+    try:
+        for _ in MST.load(storage=imported, cid=head.decoded['data']).load_all():
+            pass
+    except KeyError as e:
+        raise ValueError(f'CAR is incomplete: {e}')
+
     for block in blocks:
         block.repo = repo_did
     server.storage.write_blocks(blocks)
-- 
2.43.0


From 077084dbb024bd8369e307862f3575323b467855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:06 +0000
Subject: [PATCH 21/51] fix: listRepos: return the head commit's rev, not one
 computed from its seq, which is 0 for imported repos

---
 arroba/xrpc_sync.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arroba/xrpc_sync.py b/arroba/xrpc_sync.py
index 0c2a514..8cf0c12 100644
--- a/arroba/xrpc_sync.py
+++ b/arroba/xrpc_sync.py
@@ -97,7 +97,7 @@ def list_repos(input, limit=500, cursor=None):
         repo_obj = {
             'did': repo.did,
             'head': repo.head.cid.encode('base32'),
-            'rev': util.int_to_tid(repo.head.seq, clock_id=0),
+            'rev': repo.head.decoded['rev'],
             'active': repo.status is None,
         }
         if repo.status:
-- 
2.43.0


From 455907ef3ff8ceb6fb56dfa12ad38bd2cd64d5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:21 +0000
Subject: [PATCH 22/51] fix: DatastoreStorage._commit: when retrying, detect
 that the last attempt's transaction succeeded

---
 arroba/datastore_storage.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index e5e1020..1f00b0d 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -890,7 +890,18 @@ class DatastoreStorage(Storage, NdbMixin):
         ndb.put_multi(new)
 
     @ndb_context
-    @ndb.transactional(retries=10)
     def _commit(self, *args, **kwargs):
         """Just runs :meth:`Storage._commit` in a transaction."""
-        return super()._commit(*args, **kwargs)
+        commit = super()._commit
+        result = None
+
+        @ndb.transactional(retries=10)
+        def run():
+            nonlocal result
+            # if we're retrying, the last attempt's transaction may have succeeded, even
+            # though committing it returned an error
+            if not result or not self.has(result[0].commit.cid):
+                result = commit(*args, **kwargs)
+            return result
+
+        return run()
-- 
2.43.0


From d1423c4dd1c34c00af7d352e3c88644afb837512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:26 +0000
Subject: [PATCH 23/51] fix: firehose collector: time waiting for a skipped seq
 from when we noticed it

---
 arroba/firehose.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/arroba/firehose.py b/arroba/firehose.py
index 4328a66..0e32bf0 100644
--- a/arroba/firehose.py
+++ b/arroba/firehose.py
@@ -207,10 +207,15 @@ class Collector(threading.Thread):
 
     Attributes:
       last_seq (int): last sequence number sent to subscribers
+      skipped_until (int): sequence number of the event that we saw when we noticed
+        the most recent skipped sequence number(s) before it
+      skipped_at (float): time, in seconds since the epoch, when we saw it
       limit (int): if provided, return after collecting this many *new* events. Only
         used in tests.
     """
     last_seq = None
+    skipped_until = 0
+    skipped_at = None
     limit = None
 
     def __init__(self, *args, limit=None, **kwargs):
@@ -273,7 +278,6 @@ class Collector(threading.Thread):
 
         global rollback
         timeout_s = SUBSCRIBE_REPOS_SKIPPED_SEQ_DELAY.total_seconds()
-        last_event = time.time()
         seen = 0
 
         while True:
@@ -302,7 +306,12 @@ class Collector(threading.Thread):
                 # we're not too far behind, wait for it before giving up on it and
                 # moving on
                 if cur_seq > next_seq:
-                    if time.time() - last_event <= timeout_s:
+                    if next_seq > self.skipped_until:
+                        # we didn't know that this one was missing until now
+                        self.skipped_until = cur_seq
+                        self.skipped_at = time.time()
+
+                    if time.time() - self.skipped_at <= timeout_s:
                         last = server.storage.sequences.last(SUBSCRIBE_REPOS_NSID)
                         if last is None:
                             logger.warning('No last seq! will retry...')
@@ -314,7 +323,6 @@ class Collector(threading.Thread):
                     logger.info(f'Gave up waiting for seqs {next_seq} to {cur_seq - 1}!')
 
                 # emit event!
-                last_event = time.time()
                 header, payload = process_event(event)
                 did = payload.get('did') or payload.get('repo')
                 delay_s = int((webutil.util.now() - datetime.fromisoformat(payload['time']))\
-- 
2.43.0


From 6e9e4338480b82f34a81131861eb15443d5e2da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:13 +0000
Subject: [PATCH 24/51] fix: firehose: start with no events and no allocated
 sequence numbers

---
 arroba/firehose.py  | 4 ++--
 arroba/xrpc_sync.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/arroba/firehose.py b/arroba/firehose.py
index 0e32bf0..f912e98 100644
--- a/arroba/firehose.py
+++ b/arroba/firehose.py
@@ -229,8 +229,8 @@ class Collector(threading.Thread):
 
     def run(self):
         logger.info(f'preloading rollback window ({PRELOAD_WINDOW})')
-        self.last_seq = server.storage.sequences.last(SUBSCRIBE_REPOS_NSID)
-        assert self.last_seq is not None
+        # None if no sequence number has ever been allocated
+        self.last_seq = server.storage.sequences.last(SUBSCRIBE_REPOS_NSID) or 0
         query = server.storage.read_events_by_seq(
             start=max(self.last_seq - PRELOAD_WINDOW + 1, 0))
 
diff --git a/arroba/xrpc_sync.py b/arroba/xrpc_sync.py
index 8cf0c12..a9aaa22 100644
--- a/arroba/xrpc_sync.py
+++ b/arroba/xrpc_sync.py
@@ -142,11 +142,11 @@ def subscribe_repos(cursor=None):
     Returns:
       (dict, dict) tuple: (header, payload)
     """
-    cur_seq = server.storage.sequences.last(SUBSCRIBE_REPOS_NSID)
-    assert cur_seq is not None
-
     if cursor is not None:
         # validate cursor
+        cur_seq = server.storage.sequences.last(SUBSCRIBE_REPOS_NSID)
+        assert cur_seq is not None
+
         if cursor > cur_seq:
             msg = f'Cursor {cursor} is past our current sequence number {cur_seq}'
             logger.info(msg)
-- 
2.43.0


From f948c358ac1e6156acc86a89474a6c30172fd90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:08 +0000
Subject: [PATCH 25/51] fix: firehose collector: don't skip events that are
 committed during startup when none were preloaded

---
 arroba/firehose.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/arroba/firehose.py b/arroba/firehose.py
index f912e98..620c4ce 100644
--- a/arroba/firehose.py
+++ b/arroba/firehose.py
@@ -230,9 +230,9 @@ class Collector(threading.Thread):
     def run(self):
         logger.info(f'preloading rollback window ({PRELOAD_WINDOW})')
         # None if no sequence number has ever been allocated
-        self.last_seq = server.storage.sequences.last(SUBSCRIBE_REPOS_NSID) or 0
-        query = server.storage.read_events_by_seq(
-            start=max(self.last_seq - PRELOAD_WINDOW + 1, 0))
+        last_allocated = server.storage.sequences.last(SUBSCRIBE_REPOS_NSID) or 0
+        preload_start = max(last_allocated - PRELOAD_WINDOW + 1, 0)
+        query = server.storage.read_events_by_seq(start=preload_start)
 
         with lock:
             def _prev(event):
@@ -249,6 +249,8 @@ class Collector(threading.Thread):
                  for event, prev_cid in zip(events, prev_cids)),
                 maxlen=ROLLBACK_WINDOW)
 
+        # allocated sequence numbers that we didn't see may still be in flight
+        self.last_seq = max(preload_start - 1, 0)
         if rollback:
             self.last_seq = rollback[-1][1]['seq']
             logger.info(f'  preloaded seqs {rollback[0][1]["seq"]}-{self.last_seq}')
-- 
2.43.0


From fc96dad6a83b74304f6fb8803b03b8a38d24abf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:35 +0000
Subject: [PATCH 26/51] fix: firehose.subscribe: don't send events twice when
 another subscriber has extended the rollback window

---
 arroba/firehose.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/arroba/firehose.py b/arroba/firehose.py
index 620c4ce..4cfb6dd 100644
--- a/arroba/firehose.py
+++ b/arroba/firehose.py
@@ -123,19 +123,19 @@ def subscribe(cursor=None):
     # if this cursor behind our rollback window, load the window between the two
     # manually, for this subscriber
     handoff = None     # deque; copy of rollback window for when we transition to it
+    # last sequence number that this subscriber has received, or doesn't want
+    last_seq = cursor - 1 if cursor is not None else None
     rollback_start = rollback[0][1]['seq'] if rollback else 0
     if cursor is not None and cursor < rollback_start:
         log(f'cursor {cursor} is behind rollback start {rollback_start}; loading rest manually')
 
         pre_rollback = []  # events prior to rollback window that we load here
-        last_seq = None
         for i, event in enumerate(server.storage.read_events_by_seq(start=cursor)):
             header, payload = process_event(event)
 
-            if last_seq and payload['seq'] <= last_seq:
+            if payload['seq'] <= last_seq:
                 non_monotonic(payload['seq'], last_seq, event)
                 continue
-            last_seq = payload['seq']
 
             with lock:
                 # have we reached the rollback window?
@@ -161,6 +161,7 @@ def subscribe(cursor=None):
 
             log(f'Emitting pre-rollback {payload["seq"]} {payload.get("did") or payload.get("repo")} {header.get("t")}', DEBUG)
             pre_rollback.append((header, payload))
+            last_seq = payload['seq']
             yield (header, payload)
 
     # hand off to rollback window and new events
@@ -169,7 +170,8 @@ def subscribe(cursor=None):
             handoff = rollback.copy()
         log(f'serving rollback from {max(cursor, handoff[0][1]["seq"])}')
         for header, payload in handoff:
-            if payload['seq'] >= cursor:
+            if payload['seq'] > last_seq:
+                last_seq = payload['seq']
                 log(f'Emitting rollback {payload["seq"]} {payload.get("did") or payload.get("repo")} {header.get("t")}', DEBUG)
                 yield (header, payload)
 
@@ -178,7 +180,6 @@ def subscribe(cursor=None):
     try:
         with lock:
             if cursor is not None:
-                last_seq = handoff[-1][1]['seq']
                 assert last_seq >= rollback[0][1]["seq"]
 
                 for header, payload in rollback:
-- 
2.43.0


From af20b387e28a8a932f4e0f3b64e4e9d4ed346e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:14 +0000
Subject: [PATCH 27/51] fix: firehose.subscribe: re-read the log when the
 rollback window moves on, and handle an empty one

---
 arroba/firehose.py | 144 +++++++++++++++++++++++++--------------------
 1 file changed, 81 insertions(+), 63 deletions(-)

diff --git a/arroba/firehose.py b/arroba/firehose.py
index 4cfb6dd..e36affb 100644
--- a/arroba/firehose.py
+++ b/arroba/firehose.py
@@ -120,81 +120,100 @@ def subscribe(cursor=None):
     if cursor:
         log(f'starting with cursor {cursor}')
 
-    # if this cursor behind our rollback window, load the window between the two
-    # manually, for this subscriber
-    handoff = None     # deque; copy of rollback window for when we transition to it
     # last sequence number that this subscriber has received, or doesn't want
     last_seq = cursor - 1 if cursor is not None else None
-    rollback_start = rollback[0][1]['seq'] if rollback else 0
-    if cursor is not None and cursor < rollback_start:
-        log(f'cursor {cursor} is behind rollback start {rollback_start}; loading rest manually')
-
-        pre_rollback = []  # events prior to rollback window that we load here
-        for i, event in enumerate(server.storage.read_events_by_seq(start=cursor)):
-            header, payload = process_event(event)
-
-            if payload['seq'] <= last_seq:
-                non_monotonic(payload['seq'], last_seq, event)
-                continue
+    subscriber = SimpleQueue()
 
-            with lock:
-                # have we reached the rollback window?
-                if payload['seq'] >= rollback[0][1]['seq']:
-                    rollback_start = rollback[0][1]['seq']
-                    handoff = rollback.copy()
-
-                    remaining_len = rollback.maxlen - len(rollback)
-                    if remaining_len and pre_rollback:
-                        # merge old events we've loaded onto the end of rollback
-                        # extendleft reverses its argument; reverse again to undo that
-                        pre_rollback = [e for e in pre_rollback
-                                        if e[1]['seq'] < rollback_start]
-                        if pre_rollback := pre_rollback[-remaining_len:]:
-                            log(f'merging {pre_rollback[0][1]["seq"]}-{pre_rollback[-1][1]["seq"]} into rollback')
-                            assert len(rollback) + len(pre_rollback) <= rollback.maxlen, \
-                                (len(rollback), len(pre_rollback))
-                            assert pre_rollback[-1][1]['seq'] < rollback[0][1]['seq'],\
-                                (pre_rollback[-1][1]['seq'], rollback[0][1]['seq'])
-                            rollback.extendleft(reversed(pre_rollback))
-
-                    break
-
-            log(f'Emitting pre-rollback {payload["seq"]} {payload.get("did") or payload.get("repo")} {header.get("t")}', DEBUG)
-            pre_rollback.append((header, payload))
-            last_seq = payload['seq']
-            yield (header, payload)
-
-    # hand off to rollback window and new events
-    if cursor is not None:
-        if not handoff:
-            handoff = rollback.copy()
-        log(f'serving rollback from {max(cursor, handoff[0][1]["seq"])}')
-        for header, payload in handoff:
-            if payload['seq'] > last_seq:
-                last_seq = payload['seq']
-                log(f'Emitting rollback {payload["seq"]} {payload.get("did") or payload.get("repo")} {header.get("t")}', DEBUG)
-                yield (header, payload)
+    def rollback_start():
+        return rollback[0][1]['seq'] if rollback else collector.last_seq + 1
 
-    # enqueue subscriber and serve live!
-    subscriber = SimpleQueue()
     try:
-        with lock:
+        while True:
+            # if we're behind our rollback window, load the window between the two
+            # manually, for this subscriber. it may move on meanwhile, so we may need
+            # to do this more than once.
+            handoff = None     # deque; copy of rollback window for when we transition to it
+            pre_rollback = []  # events prior to rollback window that we load here
             if cursor is not None:
-                assert last_seq >= rollback[0][1]["seq"]
+                with lock:
+                    start = rollback_start()
+                    if last_seq + 1 >= start:
+                        handoff = rollback.copy()
+
+            if cursor is not None and handoff is None:
+                log(f'seq {last_seq + 1} is behind rollback start {start}; loading rest manually')
+
+                for event in server.storage.read_events_by_seq(start=last_seq + 1):
+                    header, payload = process_event(event)
+
+                    if payload['seq'] <= last_seq:
+                        non_monotonic(payload['seq'], last_seq, event)
+                        continue
+
+                    with lock:
+                        # have we reached the rollback window?
+                        if payload['seq'] >= rollback_start():
+                            handoff = rollback.copy()
+                            last_seq = max(last_seq, rollback_start() - 1)
+
+                            remaining_len = rollback.maxlen - len(rollback)
+                            if remaining_len and pre_rollback:
+                                # merge old events we've loaded onto the end of rollback
+                                # extendleft reverses its argument; reverse again to undo that
+                                pre_rollback = [e for e in pre_rollback
+                                                if e[1]['seq'] < rollback_start()]
+                                if pre_rollback := pre_rollback[-remaining_len:]:
+                                    log(f'merging {pre_rollback[0][1]["seq"]}-{pre_rollback[-1][1]["seq"]} into rollback')
+                                    assert len(rollback) + len(pre_rollback) <= rollback.maxlen, \
+                                        (len(rollback), len(pre_rollback))
+                                    assert pre_rollback[-1][1]['seq'] < rollback_start(),\
+                                        (pre_rollback[-1][1]['seq'], rollback_start())
+                                    rollback.extendleft(reversed(pre_rollback))
 
-                for header, payload in rollback:
+                            break
+
+                    log(f'Emitting pre-rollback {payload["seq"]} {payload.get("did") or payload.get("repo")} {header.get("t")}', DEBUG)
+                    pre_rollback.append((header, payload))
+                    last_seq = payload['seq']
+                    yield (header, payload)
+
+                if handoff is None:
+                    # we've loaded everything before where rollback started
+                    last_seq = max(last_seq, start - 1)
+
+            # hand off to rollback window and new events
+            if handoff:
+                log(f'serving rollback from {max(last_seq + 1, handoff[0][1]["seq"])}')
+                for header, payload in handoff:
                     if payload['seq'] > last_seq:
-                        log(f'Emitting rollback (catch-up) {payload["seq"]} {payload.get("did") or payload.get("repo")} {header.get("t")}', DEBUG)
-                        subscriber.put_nowait((header, payload))
                         last_seq = payload['seq']
+                        log(f'Emitting rollback {payload["seq"]} {payload.get("did") or payload.get("repo")} {header.get("t")}', DEBUG)
+                        yield (header, payload)
 
-            log(f'streaming new events after {rollback[-1][1]["seq"] if rollback else 0}')
-            subscribers.append(subscriber)
+            # enqueue subscriber and serve live!
+            with lock:
+                if cursor is not None:
+                    if last_seq + 1 < rollback_start():
+                        log('rollback window has moved on')
+                        continue
+
+                    for header, payload in rollback:
+                        if payload['seq'] > last_seq:
+                            log(f'Emitting rollback (catch-up) {payload["seq"]} {payload.get("did") or payload.get("repo")} {header.get("t")}', DEBUG)
+                            subscriber.put_nowait((header, payload))
+                            last_seq = payload['seq']
+
+                log(f'streaming new events after {rollback[-1][1]["seq"] if rollback else 0}')
+                subscribers.append(subscriber)
+                break
 
         # let these get garbage collected
         handoff = pre_rollback = None
         while True:
-            yield subscriber.get()
+            header, payload = subscriber.get()
+            # cursor may be ahead of the collector
+            if cursor is None or payload['seq'] >= cursor:
+                yield (header, payload)
 
     finally:
         log('removing subscriber')
@@ -339,9 +358,8 @@ class Collector(threading.Thread):
                 # different than going backward. (as of 2026-01-15, going backward
                 # breaks Bluesky's own relays for our PDS, they have to do a manual
                 # reconnect to fix that. :/ )
-                self.last_seq = cur_seq
-
                 with lock:
+                    self.last_seq = cur_seq
                     rollback.append((header, payload))
                     for subscriber in subscribers:
                         # subscriber here is an unbounded SimpleQueue, so put should
-- 
2.43.0


From 41a17f366de3cf134d9ecef6b3ff600930cf6b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:55 +0000
Subject: [PATCH 28/51] fix: MemcacheSequences: reserve the batch before
 initializing the memcache counter

---
 arroba/datastore_storage.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index 1f00b0d..dfe0236 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -348,15 +348,30 @@ class MemcacheSequences(storage.Sequences, NdbMixin):
             (MEMCACHE_SEQUENCE_BATCH, MEMCACHE_SEQUENCE_BUFFER)
 
         key = self._memcache_key(nsid)
+        @ndb.transactional(propagation=context.TransactionOptions.INDEPENDENT,
+                           join=None)
+        def init_batch():
+            stored_seq = AtpSequence.get_or_insert(nsid, next=1)
+            start = stored_seq.next
+            stored_seq.next = start + MEMCACHE_SEQUENCE_BATCH
+            stored_seq.put()
+            return start
+
         seq = self.memcache.incr(key, 1)
         if seq is None:  # not in memcache
             with self.max_seqs_lock:
-                # can't use last() because it looks in memcache
-                self.max_seqs[nsid] = AtpSequence.get_or_insert(nsid, next=1).next - 1
-                # we'll allocate a new batch below
-                if self.memcache.add(key, self.max_seqs[nsid]):
-                    logger.info(f'initialized memcache sequence counter {key} to {self.max_seqs[nsid]}')
-            seq = self.memcache.incr(key, 1)
+                # another thread may have initialized it while we waited for the lock
+                seq = self.memcache.incr(key, 1)
+                if seq is None:
+                    # allocate the batch *before* we make it available in memcache.
+                    # otherwise, if memcache evicts it again before we store the new
+                    # batch, another process would start over from the same seq
+                    start = init_batch()
+                    self.max_seqs[nsid] = start + MEMCACHE_SEQUENCE_BATCH
+                    if self.memcache.add(key, start - 1):
+                        logger.info(f'initialized memcache sequence counter {key} to {start - 1}')
+                    seq = self.memcache.incr(key, 1)
+        assert seq, f"couldn't initialize memcache sequence counter {key}"
 
         @ndb.transactional(propagation=context.TransactionOptions.INDEPENDENT,
                            join=None)
-- 
2.43.0


From 649a3e0263230cbf6efa64c1d4c1e146fff9666f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:11 +0000
Subject: [PATCH 29/51] fix: DatastoreStorage.activate_repo: don't activate a
 repo that is being tombstoned at the same time

---
 arroba/datastore_storage.py | 7 +++++--
 arroba/storage.py           | 4 ++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index dfe0236..f80422b 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -722,15 +722,18 @@ class DatastoreStorage(Storage, NdbMixin):
     @ndb_context
     def _set_repo_status(self, repo, status):
         assert status in (DEACTIVATED, DELETED, TOMBSTONED, None)
-        repo.status = status  # in memory only
 
         @ndb.transactional(join=True)
         def update():
             atp_repo = AtpRepo.get_by_id(repo.did)
+            if atp_repo.status == TOMBSTONED and not status:
+                # tombstoned since activate_repo checked
+                return TOMBSTONED
             atp_repo.status = status
             atp_repo.put()
+            return status
 
-        update()
+        repo.status = update()  # in memory only
 
     @ndb_context
     def store_repo(self, repo):
diff --git a/arroba/storage.py b/arroba/storage.py
index a18b9a9..b4643de 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -293,6 +293,10 @@ class Storage:
             return
 
         self._set_repo_status(repo, None)
+        if repo.status:
+            logger.info(f'{repo.did} was just tombstoned, not activating')
+            return
+
         block = self.write_event(repo=repo, type='account', active=True)
 
     def tombstone_repo(self, repo):
-- 
2.43.0


From c5d2a302c57b31fc34e4eebcd59b59232e8d4e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:08 +0000
Subject: [PATCH 30/51] fix: tid_to_int, tid_to_datetime: accept bytes, as
 documented

---
 arroba/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arroba/util.py b/arroba/util.py
index d03ab35..eb29a65 100644
--- a/arroba/util.py
+++ b/arroba/util.py
@@ -196,6 +196,9 @@ def tid_to_int(tid):
     if not isinstance(tid, (str, bytes)) or len(tid) != 13:
         raise ValueError(f'Expected 13-character str or bytes; got {tid}')
 
+    if isinstance(tid, bytes):
+        tid = tid.decode()
+
     encoded = tid.replace('-', '')[:-2]  # strip clock id
     return s32decode(encoded)
 
-- 
2.43.0


From 4b169aade162db750e2d172621e9f7d2abc05544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:08 +0000
Subject: [PATCH 31/51] fix: memcache.Lease: don't outlive the memcache key

expires_at was calculated after the add, so a holder could think that it
still held a lease that memcache had already expired and another holder had
taken, and its release then released that one's lease. Also, expirations were
rounded down to whole seconds, and below one second to 0, ie never.
---
 arroba/memcache.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/arroba/memcache.py b/arroba/memcache.py
index 6e40eff..6381e65 100644
--- a/arroba/memcache.py
+++ b/arroba/memcache.py
@@ -1,6 +1,7 @@
 """Utilities for caching data in memcache."""
 from datetime import timedelta
 import logging
+import math
 import time
 
 import webutil.util
@@ -59,11 +60,15 @@ class Lease:
         delay = self.initial_retry_delay
 
         for attempt in range(self.retries + 1):
+            # calculate this before we add so that we never think we hold the lease
+            # after memcache has expired it
+            expires_at = webutil.util.now() + self.expiration
             # add returns True if the key didn't exist and was set,
-            # False if it already existed
+            # False if it already existed. expire is whole seconds, and 0 means never,
+            # so round up.
             if self.client.add(self.key, 'locked', noreply=False,
-                               expire=int(self.expiration.total_seconds())):
-                self.expires_at = webutil.util.now() + self.expiration
+                               expire=math.ceil(self.expiration.total_seconds())):
+                self.expires_at = expires_at
                 logger.debug(f'acquired memcache lease {self.key}')
                 return
 
-- 
2.43.0


From a9124e0fe0297736846cb81a65dc94ce9bb04c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:07 +0000
Subject: [PATCH 32/51] fix: sign: when obj is already signed, don't include
 the old signature in what's signed

---
 arroba/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arroba/util.py b/arroba/util.py
index eb29a65..3f94162 100644
--- a/arroba/util.py
+++ b/arroba/util.py
@@ -302,6 +302,8 @@ def sign(obj, private_key):
     Returns:
       dict: ``obj`` with new ``sig`` field
     """
+    # if obj is already signed, replace its signature, don't sign it too
+    obj.pop('sig', None)
     orig_sig = private_key.sign(dag_cbor.encode(obj), ec.ECDSA(hashes.SHA256()))
     r, s = decode_dss_signature(apply_low_s_mitigation(orig_sig, private_key.curve))
     obj['sig'] = r.to_bytes(32, 'big') + s.to_bytes(32, 'big')
-- 
2.43.0


From eedd0a50b0718b7320595ae169777d073469d31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:07 +0000
Subject: [PATCH 33/51] fix: rollback_plc: return the DidPlc, as documented

---
 arroba/did.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arroba/did.py b/arroba/did.py
index dd10ecc..f023878 100644
--- a/arroba/did.py
+++ b/arroba/did.py
@@ -321,7 +321,7 @@ def rollback_plc(did, rotation_key, num_operations=1,
     op['prev'] = log[-1]['cid']
     op.pop('sig', None)
 
-    write_plc_operation(op, rotation_key=rotation_key, did=did, post_fn=post_fn)
+    return write_plc_operation(op, rotation_key=rotation_key, did=did, post_fn=post_fn)
 
 
 def encode_did_key(pubkey):
-- 
2.43.0


From da287be0abeb4913c470ffd12414344b8d475454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:07 +0000
Subject: [PATCH 34/51] fix: rollback_plc: ignore nullified operations

---
 arroba/did.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arroba/did.py b/arroba/did.py
index f023878..44b183b 100644
--- a/arroba/did.py
+++ b/arroba/did.py
@@ -309,7 +309,9 @@ def rollback_plc(did, rotation_key, num_operations=1,
     # https://github.com/did-method-plc/did-method-plc#audit-logs
     resp = get_fn(f'https://{os.environ["PLC_HOST"]}/{did}/log/audit')
     resp.raise_for_status()
-    log = resp.json()
+    # nullified operations were reverted by a recovery operation, they're not part of
+    # the DID's history any more
+    log = [entry for entry in resp.json() if not entry.get('nullified')]
 
     assert len(log) >= num_operations + 1, log
     rotation_did_key = encode_did_key(rotation_key.public_key())
-- 
2.43.0


From b36feffa7b1cf3fba5788d3475afd18762e4c722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:07 +0000
Subject: [PATCH 35/51] fix: update_plc: raise when the audit log can't be
 fetched, as documented

---
 arroba/did.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arroba/did.py b/arroba/did.py
index 44b183b..ec620a8 100644
--- a/arroba/did.py
+++ b/arroba/did.py
@@ -124,6 +124,7 @@ def update_plc(did, handle=None, get_fn=session.get, **kwargs):
     # response is a JSON list with operations from earliest to latest
     # https://github.com/did-method-plc/did-method-plc#audit-logs
     resp = get_fn(f'https://{os.environ["PLC_HOST"]}/{did}/log/audit')
+    resp.raise_for_status()
     last_op = resp.json()[-1]
 
     # merge new data into existing data
-- 
2.43.0


From 3baeb3ec706972047fba86c08d47f37ecf84cf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:23 +0000
Subject: [PATCH 36/51] fix: resolve_handle: only return valid DIDs, join the
 strings of a TXT record

---
 arroba/did.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/arroba/did.py b/arroba/did.py
index ec620a8..0e01c67 100644
--- a/arroba/did.py
+++ b/arroba/did.py
@@ -46,6 +46,9 @@ CACHE_TTL = timedelta(hours=6)
 HANDLE_RE = re.compile(
     r'^([a-zA-Z0-9]([a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?\.)+[a-zA-Z]([a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?$')
 
+# from https://atproto.com/specs/did#at-protocol-did-identifier-syntax
+DID_RE = re.compile(r'did:[a-z]+:[a-zA-Z0-9._:%-]*[a-zA-Z0-9._-]')
+
 
 def resolve(did, **kwargs):
     """Resolves a ``did:plc`` or ``did:web``.
@@ -519,9 +522,11 @@ def resolve_handle(handle, get_fn=session.get):
         if answer.canonical_name.to_text() == name:
             for rdata in answer:
                 if rdata.rdtype == TXT:
-                    text = rdata.to_text()
-                    if text.startswith('"did=did:'):
-                        return text.strip('"').removeprefix('did=')
+                    # a TXT record's value may be split up into multiple strings
+                    text = b''.join(rdata.strings).decode(errors='replace')
+                    did = text.removeprefix('did=')
+                    if did != text and DID_RE.fullmatch(did):
+                        return did
     except DNSException as e:
         logger.info(repr(e))
 
@@ -534,7 +539,7 @@ def resolve_handle(handle, get_fn=session.get):
 
     if resp.ok:
         did = resp.text.strip()
-        if did.startswith('did:'):
+        if DID_RE.fullmatch(did):
             return did
 
     return None
-- 
2.43.0


From 9af45bd7fc7564ea2586257c5e35bd2c7d98ecfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:23 +0000
Subject: [PATCH 37/51] fix: resolve_plc, resolve_web: refuse malformed DIDs

---
 arroba/did.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/arroba/did.py b/arroba/did.py
index 0e01c67..dc51d55 100644
--- a/arroba/did.py
+++ b/arroba/did.py
@@ -97,7 +97,8 @@ def resolve_plc(did, get_fn=session.get):
       ValueError: if the input did is not a ``did:plc`` str
       requests.RequestException: if the HTTP request fails
     """
-    if not isinstance(did, str) or not did.startswith('did:plc:'):
+    if (not isinstance(did, str) or not did.startswith('did:plc:')
+            or not DID_RE.fullmatch(did)):
         raise ValueError(f'{did} is not a did:plc')
 
     resp = get_fn(f'https://{os.environ["PLC_HOST"]}/{did}')
@@ -474,7 +475,8 @@ def resolve_web(did, get_fn=session.get):
       ValueError: if the input did is not a ``did:web`` str
       requests.RequestException: if the HTTP request fails
     """
-    if not isinstance(did, str) or not did.startswith('did:web:'):
+    if (not isinstance(did, str) or not did.startswith('did:web:')
+            or not DID_RE.fullmatch(did)):
         raise ValueError(f'{did} is not a did:web')
 
     did = did.removeprefix('did:web:')
-- 
2.43.0


From d6849c11435cdcdd55e43f49291f1968800a102e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:23 +0000
Subject: [PATCH 38/51] fix: resolve_handle: refuse handles that are too long

---
 arroba/did.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arroba/did.py b/arroba/did.py
index dc51d55..02946dc 100644
--- a/arroba/did.py
+++ b/arroba/did.py
@@ -43,6 +43,7 @@ CACHE_SIZE = 5000
 CACHE_TTL = timedelta(hours=6)
 
 # from https://atproto.com/specs/handle#handle-identifier-syntax
+HANDLE_MAX_LENGTH = 253
 HANDLE_RE = re.compile(
     r'^([a-zA-Z0-9]([a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?\.)+[a-zA-Z]([a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?$')
 
@@ -510,7 +511,7 @@ def resolve_handle(handle, get_fn=session.get):
       ValueError: if ``handle`` is not a valid handle
     """
     if (not handle or not isinstance(handle, str)
-            or not HANDLE_RE.fullmatch(handle)):
+            or len(handle) > HANDLE_MAX_LENGTH or not HANDLE_RE.fullmatch(handle)):
         raise ValueError(f"{handle} isn't a valid Bluesky handle")
 
     logger.info(f'Resolving handle {handle}')
-- 
2.43.0


From 26f904268041abd60a853982c763b87c79d4f8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:49 +0000
Subject: [PATCH 39/51] fix: AtpRemoteBlob: when a blob's contents change, drop
 the old metadata

---
 arroba/datastore_storage.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index f80422b..9dbc81a 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -586,6 +586,7 @@ class AtpRemoteBlob(ndb.Model):
         Args:
           content (bytes)
         """
+        self.width = self.height = self.duration = None
         try:
             media_info = MediaInfo.parse(BytesIO(content))
             tracks = media_info.video_tracks or media_info.image_tracks
-- 
2.43.0


From 0f412c5e1eb64bcba93883e68c80c3b0c1e38fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:49 +0000
Subject: [PATCH 40/51] fix: getBlob: try the next blob when one has become too
 big

---
 arroba/xrpc_sync.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arroba/xrpc_sync.py b/arroba/xrpc_sync.py
index a9aaa22..8241070 100644
--- a/arroba/xrpc_sync.py
+++ b/arroba/xrpc_sync.py
@@ -6,7 +6,7 @@ import os
 
 from carbox import car
 import dag_cbor
-from lexrpc.base import XrpcError
+from lexrpc.base import ValidationError, XrpcError
 from lexrpc.server import Redirect
 from multiformats import CID
 from multiformats.multibase import MultibaseKeyError, MultibaseValueError
@@ -245,7 +245,7 @@ def get_blob(input, did=None, cid=None):
 
         try:
             blob.maybe_fetch(get_fn=webutil.util.session.get)
-        except requests.RequestException:
+        except (requests.RequestException, ValidationError):
             continue
 
         if not blob.status:
-- 
2.43.0


From 11154109d71a0267773d25dd29804f2493e00fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:49 +0000
Subject: [PATCH 41/51] fix: AtpRemoteBlob: handle a failure to read the body,
 and don't store a blob as fetched before that

---
 arroba/datastore_storage.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index 9dbc81a..6414cdc 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -530,34 +530,37 @@ class AtpRemoteBlob(ndb.Model):
                 logger.info('Marking blob inactive')
                 self.status = 'inactive'
             resp.raise_for_status()
+
+            # check size
+            length = resp.headers.get('Content-Length')
+            try:
+                length = int(length)
+            except (TypeError, ValueError):
+                length = None  # check length of body below, in validate
+            over_max = length and length > BLOB_MAX_BYTES
+            # this reads the body from the network, so it may fail too
+            content = None if over_max else resp.content
         except OSError as e:
             if not self.cid:
                 self.status = 'inactive'
-            raise requests.HTTPError(f"Couldn't fetch blob: {e}")
-        finally:
             self.put()
+            raise requests.HTTPError(f"Couldn't fetch blob: {e}")
 
-        # check type, size
         self.mime_type = (resp.headers.get('Content-Type')
                           or mimetypes.guess_type(url)[0]
                           or 'application/octet-stream')
-        length = resp.headers.get('Content-Length')
         logger.info(f'Got {resp.status_code} {self.mime_type} {length} bytes {resp.url}')
 
-        try:
-            length = self.size = int(length)
-        except (TypeError, ValueError):
-            pass  # read body and check length manually below
-
-        if self.size and self.size > BLOB_MAX_BYTES:
+        if over_max:
+            self.size = length
             self.put()
             raise ValidationError(f'{url} Content-Length {length} is over BLOB_MAX_BYTES')
 
         # calculate CID and update blob
-        digest = multihash.digest(resp.content, 'sha2-256')
+        digest = multihash.digest(content, 'sha2-256')
         self.cid = CID('base58btc', 1, 'raw', digest).encode('base32')
-        self.size = len(resp.content)
-        self.generate_metadata(resp.content)
+        self.size = len(content)
+        self.generate_metadata(content)
         self.status = None
         self.put()
 
-- 
2.43.0


From 557b356b72dbbab143b94e321e0d8e9eb0251fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:49 +0000
Subject: [PATCH 42/51] fix: AtpRemoteBlob: when a blob has become too big,
 drop the old CID

---
 arroba/datastore_storage.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index 6414cdc..0088c3c 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -552,6 +552,7 @@ class AtpRemoteBlob(ndb.Model):
         logger.info(f'Got {resp.status_code} {self.mime_type} {length} bytes {resp.url}')
 
         if over_max:
+            self.cid = None
             self.size = length
             self.put()
             raise ValidationError(f'{url} Content-Length {length} is over BLOB_MAX_BYTES')
-- 
2.43.0


From 4e0c99cfbb31e07cf8d20d1b295db0302551692e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:49 +0000
Subject: [PATCH 43/51] fix: AtpRemoteBlob: don't lose repos that are added
 while the blob is being fetched

---
 arroba/datastore_storage.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index 0088c3c..13d24f4 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -543,7 +543,7 @@ class AtpRemoteBlob(ndb.Model):
         except OSError as e:
             if not self.cid:
                 self.status = 'inactive'
-            self.put()
+            self._put_and_merge_repos()
             raise requests.HTTPError(f"Couldn't fetch blob: {e}")
 
         self.mime_type = (resp.headers.get('Content-Type')
@@ -554,7 +554,7 @@ class AtpRemoteBlob(ndb.Model):
         if over_max:
             self.cid = None
             self.size = length
-            self.put()
+            self._put_and_merge_repos()
             raise ValidationError(f'{url} Content-Length {length} is over BLOB_MAX_BYTES')
 
         # calculate CID and update blob
@@ -563,6 +563,13 @@ class AtpRemoteBlob(ndb.Model):
         self.size = len(content)
         self.generate_metadata(content)
         self.status = None
+        self._put_and_merge_repos()
+
+    @ndb.transactional()
+    def _put_and_merge_repos(self):
+        """Stores this blob. Keeps repos that have been added to it in the meantime."""
+        if stored := self.key.get(use_cache=False):
+            self.repos += [r for r in stored.repos if r not in self.repos]
         self.put()
 
     def as_object(self):
-- 
2.43.0


From c87b67488bdcdc30f87dfa9cd445e839224d9a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:12 +0000
Subject: [PATCH 44/51] fix: don't log private keys when storing a repo

---
 arroba/datastore_storage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index 13d24f4..5cffabb 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -686,7 +686,7 @@ class DatastoreStorage(Storage, NdbMixin):
                            encrypted_rotation_key=rotation_key_pem,
                            status=repo.status)
         atp_repo.put()
-        logger.debug(f'Stored repo {atp_repo}')
+        logger.debug(f'Stored repo {atp_repo.key}')
 
     @ndb_context
     def load_repo(self, did_or_handle):
@@ -756,7 +756,7 @@ class DatastoreStorage(Storage, NdbMixin):
             atp_repo.status = repo.status
             atp_repo.head = repo.head.cid.encode('base32')
             atp_repo.put()
-            logger.debug(f'Stored repo {atp_repo}')
+            logger.debug(f'Stored repo {atp_repo.key}')
 
         store()
 
-- 
2.43.0


From fd8a923901431a12c49407d135a3e45b31bbf820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:52 +0000
Subject: [PATCH 45/51] fix: refuse records that aren't objects as invalid
 instead of failing

---
 arroba/storage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index b4643de..928ec2b 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -604,8 +604,10 @@ class Storage:
                                     cid=None, prev_cid=prev_cid))
                 continue
 
+            if (not write.record or not isinstance(write.record, dict)
+                    or not isinstance(write.record.get('$type', ''), str)):
+                raise ValueError(f'Record {path} must be a non-empty object')
             # raises ValidationError if it doesn't validate
-            assert write.record is not None
             server.validate(write.record.get('$type'), 'record', write.record)
             # read_events_by_seq would return it as an event
             if str(write.record.get('$type')).startswith(f'{SUBSCRIBE_REPOS_NSID}#'):
-- 
2.43.0


From e8a1bf0c7a3feb54c544a8bb8cfaea9ef0451f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:52 +0000
Subject: [PATCH 46/51] fix: refuse malformed CARs and commits in importRepo as
 invalid instead of failing

---
 arroba/xrpc_repo.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/arroba/xrpc_repo.py b/arroba/xrpc_repo.py
index 681e5db..f07b76b 100644
--- a/arroba/xrpc_repo.py
+++ b/arroba/xrpc_repo.py
@@ -18,7 +18,7 @@ from . import server
 from .storage import Action, Block, MemoryStorage
 from . import server
 from . import util
-from .util import at_uri, dag_cbor_cid, new_key, next_tid, verify_sig
+from .util import at_uri, dag_cbor_cid, new_key, next_tid, tid_to_int, verify_sig
 
 SUPPORTED_COLLECTIONS = frozenset(
     coll.strip() for coll in os.environ.get('SUPPORTED_COLLECTIONS', '').split(',')
@@ -199,7 +199,11 @@ def import_repo(input):
     """
     server.auth()
 
-    roots, car_blocks = read_car(input)
+    try:
+        roots, car_blocks = read_car(input)
+        roots = list(roots)
+    except Exception as e:  # carbox raises many different exceptions
+        raise ValueError(f"Couldn't parse CAR: {e}")
     if not roots:
         raise ValueError("CAR missing root CID")
     head_cid = roots[0]
@@ -218,13 +222,24 @@ def import_repo(input):
             # old PDS's signing key. that doesn't matter since we make a new
             # commit below when we create the repo.
             head = block
-            repo_did = car_block.decoded['did']
+            commit = car_block.decoded
+            if not isinstance(commit, dict) or not isinstance(commit.get('sig'), bytes):
+                raise ValueError(f"Head {head_cid.encode('base32')} isn't a signed commit")
+            repo_did = commit.get('did')
+            if not repo_did or not isinstance(repo_did, str):
+                raise ValueError('Head commit block missing DID')
+            elif not isinstance(commit.get('data'), CID):
+                raise ValueError('Head commit block missing data')
+            tid_to_int(commit.get('rev'))  # raises ValueError if it's not a TID
             if server.storage.load_repo(repo_did):
                 raise ValueError(f'repo already exists for DID {repo_did}')
 
-            did_doc = did.resolve(repo_did, get_fn=webutil.util.session.get)
+            try:
+                did_doc = did.resolve(repo_did, get_fn=webutil.util.session.get)
+            except (ConnectionError, OSError, RequestException, TimeoutError) as e:
+                raise ValueError(f"Couldn't resolve {repo_did}")
             signing_key = did.get_signing_key(did_doc)
-            if not signing_key or not verify_sig(car_block.decoded, signing_key):
+            if not signing_key or not verify_sig(commit, signing_key):
                 raise ValueError(f"Couldn't verify signature on head commit {head_cid.encode('base32')}")
 
     if not head:
@@ -242,6 +257,8 @@ def import_repo(input):
             pass
     except KeyError as e:
         raise ValueError(f'CAR is incomplete: {e}')
+    except Exception as e:  # a malformed node can raise almost anything
+        raise ValueError(f'CAR has a malformed MST: {e}')
 
     for block in blocks:
         block.repo = repo_did
-- 
2.43.0


From 853e6bf266fc27b86c7efce303d46d76a15aa765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:52 +0000
Subject: [PATCH 47/51] fix: createSession with an empty identifier is an
 invalid request

---
 arroba/xrpc_server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arroba/xrpc_server.py b/arroba/xrpc_server.py
index d4fcbb3..c50fdff 100644
--- a/arroba/xrpc_server.py
+++ b/arroba/xrpc_server.py
@@ -11,7 +11,7 @@ logger = logging.getLogger(__name__)
 def create_session(input):
     """Handler for ``com.atproto.server.createSession`` XRPC method."""
     id = input['identifier']
-    repo = server.storage.load_repo(id)
+    repo = id and server.storage.load_repo(id)
     if not repo:
         raise ValueError(f'Repo {id} not found')
 
-- 
2.43.0


From 6b965f9f95f918b64a6719c19e941f5f1e175e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:24 +0000
Subject: [PATCH 48/51] fix: refuse records that can't be encoded as invalid
 instead of failing

---
 arroba/storage.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arroba/storage.py b/arroba/storage.py
index 928ec2b..eb62d7d 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -11,6 +11,7 @@ import logging
 import threading
 
 import dag_cbor
+from dag_cbor.encoding import CBOREncodingError
 from multiformats import CID, multicodec, multihash
 import webutil.util
 
@@ -614,6 +615,10 @@ class Storage:
                 raise ValueError(f"Record {path} can't be a {SUBSCRIBE_REPOS_NSID} event")
 
             block = Block(decoded=write.record, repo=repo_did, seq=seq)
+            try:
+                block.encoded
+            except CBOREncodingError as e:
+                raise ValueError(f"Record {path} can't be encoded: {e}")
             if len(block.encoded) > MAX_RECORD_SIZE_BYTES:
                 raise ValueError(f'Record {path} size {len(block.encoded)} bytes exceeds max {MAX_RECORD_SIZE_BYTES}')
             commit_blocks[block.cid] = block
-- 
2.43.0


From 20fe0a29a80b1b45dd26dcfebf97c3666a265d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:24 +0000
Subject: [PATCH 49/51] fix: describeRepo and createSession of a repo without a
 handle

---
 arroba/util.py        | 4 ++++
 arroba/xrpc_repo.py   | 4 ++--
 arroba/xrpc_server.py | 3 ++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/arroba/util.py b/arroba/util.py
index 3f94162..17593b3 100644
--- a/arroba/util.py
+++ b/arroba/util.py
@@ -41,6 +41,10 @@ S32_CHARS = '234567abcdefghijklmnopqrstuvwxyz'
 EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
 MICROSECOND = timedelta(microseconds=1)
 
+# used when an account doesn't have a handle
+# https://atproto.com/specs/handle#additional-non-syntax-restrictions
+INVALID_HANDLE = 'handle.invalid'
+
 DEACTIVATED = 'deactivated'
 DELETED = 'deleted'
 TOMBSTONED = 'tombstoned'
diff --git a/arroba/xrpc_repo.py b/arroba/xrpc_repo.py
index f07b76b..492d27a 100644
--- a/arroba/xrpc_repo.py
+++ b/arroba/xrpc_repo.py
@@ -184,10 +184,10 @@ def describe_repo(input, repo=None):
 
     return {
         'did': repo.did,
-        'handle': repo.handle,
+        'handle': repo.handle or util.INVALID_HANDLE,
         'didDoc': did_doc,
         'collections': collections,
-        'handleIsCorrect': True,
+        'handleIsCorrect': bool(repo.handle),
     }
 
 
diff --git a/arroba/xrpc_server.py b/arroba/xrpc_server.py
index c50fdff..d52bd83 100644
--- a/arroba/xrpc_server.py
+++ b/arroba/xrpc_server.py
@@ -3,6 +3,7 @@ import logging
 import os
 
 from . import server
+from .util import INVALID_HANDLE
 
 logger = logging.getLogger(__name__)
 
@@ -22,7 +23,7 @@ def create_session(input):
     # TODO: generate JWT
     token = os.environ['REPO_TOKEN']
     return {
-        'handle': repo.handle,
+        'handle': repo.handle or INVALID_HANDLE,
         'did': repo.did,
         'accessJwt': token,
         'refreshJwt': token,
-- 
2.43.0


From 3c35736b9f3f67d3c71e38106b0c2f078a9f73c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:24 +0000
Subject: [PATCH 50/51] fix: leave handle out of identity events of repos
 without a handle

---
 arroba/repo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arroba/repo.py b/arroba/repo.py
index f71523b..efa515a 100644
--- a/arroba/repo.py
+++ b/arroba/repo.py
@@ -156,7 +156,8 @@ class Repo:
         assert repo.head
         assert repo.did
 
-        storage.write_event(repo=repo, type='identity', handle=kwargs.get('handle'))
+        identity = {'handle': repo.handle} if repo.handle else {}
+        storage.write_event(repo=repo, type='identity', **identity)
         storage.write_event(repo=repo, type='account', active=True)
 
         # TODO: #sync event should be after #account/#identity but before first #commit
-- 
2.43.0


From 02193e3dff3e6d9b1d8d2a88ffca401bb8d66f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:24 +0000
Subject: [PATCH 51/51] fix: getBlocks with a CID of an unknown codec or hash
 failed instead of BlockNotFound

---
 arroba/xrpc_sync.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arroba/xrpc_sync.py b/arroba/xrpc_sync.py
index 8241070..4db7554 100644
--- a/arroba/xrpc_sync.py
+++ b/arroba/xrpc_sync.py
@@ -9,7 +9,7 @@ import dag_cbor
 from lexrpc.base import ValidationError, XrpcError
 from lexrpc.server import Redirect
 from multiformats import CID
-from multiformats.multibase import MultibaseKeyError, MultibaseValueError
+from multiformats.multibase import MultibaseValueError
 import requests
 import webutil.util
 
@@ -170,7 +170,7 @@ def get_blocks(input, did=None, cids=()):
 
     try:
         cids = [CID.decode(cid) for cid in cids]
-    except (MultibaseKeyError, MultibaseValueError):
+    except (KeyError, MultibaseValueError):  # unknown base, codec, or hash
         raise XrpcError('Invalid CID', name='BlockNotFound')
 
     car_blocks = []
-- 
2.43.0

