From 6381477c54869b8f14e8217d988ada56a767f239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:13 +0000
Subject: [PATCH 01/79] fix: release optional locks when the locked block
 raises

---
 vtelem/classes/time_entity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtelem/classes/time_entity.py b/vtelem/classes/time_entity.py
index 9975a95..9775c04 100644
--- a/vtelem/classes/time_entity.py
+++ b/vtelem/classes/time_entity.py
@@ -38,9 +38,9 @@ class OptionalRLock(AbstractContextManager):
         return self.item
 
     def __exit__(self, exc_type, __, ___) -> Literal[False]:
-        """Release the lock if no exception was raised."""
+        """Release the lock, whether or not an exception was raised."""
 
-        if exc_type is None and self.lock is not None:
+        if self.lock is not None:
             self.lock.release()
         return False
 
-- 
2.43.0


From f87052bd9c61db4bdc0202a169c310955013234d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:33 +0000
Subject: [PATCH 02/79] fix: looking up an unknown registry item no longer
 registers a null entry

---
 vtelem/registry/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtelem/registry/__init__.py b/vtelem/registry/__init__.py
index 9ecff56..81c088d 100644
--- a/vtelem/registry/__init__.py
+++ b/vtelem/registry/__init__.py
@@ -49,7 +49,7 @@ class Registry(Generic[T]):
         """Obtain an item's data by its integer identifier."""
 
         with self.lock:
-            result = self.data[self.type_name][item_id]
+            result = self.data[self.type_name].get(item_id)
         return result
 
     def get_id(self, name: str) -> Optional[int]:
@@ -58,7 +58,7 @@ class Registry(Generic[T]):
         """
 
         with self.lock:
-            result = self.data["mappings"][name]
+            result = self.data["mappings"].get(name)
         return result
 
     def add(self, name: str, data: T) -> Tuple[bool, int]:
-- 
2.43.0


From 289321d6ac891f061b748f6942b33cdf64a0c524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:33 +0000
Subject: [PATCH 03/79] fix: failed enumeration lookups no longer add members,
 duplicate enums are refused

---
 vtelem/classes/user_enum.py   | 4 ++--
 vtelem/registry/enum_retry.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/vtelem/classes/user_enum.py b/vtelem/classes/user_enum.py
index 4b1ade8..5dd05be 100644
--- a/vtelem/classes/user_enum.py
+++ b/vtelem/classes/user_enum.py
@@ -103,7 +103,7 @@ class UserEnum(Serializable):
     def get_value(self, val: str) -> int:
         """Get the integer value of an enum String."""
 
-        result = self.strings[val.lower()]
+        result = self.strings.get(val.lower())
         assert result is not None
         return result
 
@@ -115,7 +115,7 @@ class UserEnum(Serializable):
         """
 
         result = new_default("enum", changed_cb)
-        val = self.strings[value.lower()]
+        val = self.strings.get(value.lower())
         assert val is not None
         assert result.set(val)
         return result
diff --git a/vtelem/registry/enum_retry.py b/vtelem/registry/enum_retry.py
index 42e0f13..b16274a 100644
--- a/vtelem/registry/enum_retry.py
+++ b/vtelem/registry/enum_retry.py
@@ -58,7 +58,7 @@ class EnumRegistry(Serializable, LockEntity):
     def add(self, enum: UserEnum) -> int:
         """Add an enum to the registry."""
 
-        assert enum.name not in self.data
+        assert enum.name not in self.enum_data
         with self.lock:
             # Store a reference to the serializable data directly.
             self.enum_data[enum.name] = enum.data
-- 
2.43.0


From 0dbf83e52e8e7b13aedc3f094e479937e70cc723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:20 +0000
Subject: [PATCH 04/79] fix: count each message fragment once, so duplicates
 can't complete a message

---
 vtelem/message/cache.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/vtelem/message/cache.py b/vtelem/message/cache.py
index a8197df..e6356f6 100644
--- a/vtelem/message/cache.py
+++ b/vtelem/message/cache.py
@@ -197,23 +197,24 @@ class MessageCache(DataCache, MessageDispatcher):
             return
 
         # store this message fragment if we don't have it
-        if message.fragment_index not in crc_data:
+        fragments = self.fragment_data[message.type.value]
+        if message.fragment_index not in fragments.get(message.crc, {}):
             self.store_fragment(
                 message.type, message.crc, message.fragment_index, message.data
             )
-            crc_data["fragments"] += 1
-
-            # mark this message as complete if we now have all of the fragments
-            if crc_data["fragments"] == message.total_fragments:
-                crc_data["complete"] = True
-                crc_data["number"] = message.number
-
-                # service message consumers
-                full_message = self.content(message.type, message.crc)
-                assert full_message is not None
-                self.service_callbacks(
-                    message.type, full_message[0], full_message[1]
-                )
+        crc_data["fragments"] = len(fragments[message.crc])
+
+        # mark this message as complete if we now have all of the fragments
+        if crc_data["fragments"] == message.total_fragments:
+            crc_data["complete"] = True
+            crc_data["number"] = message.number
+
+            # service message consumers
+            full_message = self.content(message.type, message.crc)
+            assert full_message is not None
+            self.service_callbacks(
+                message.type, full_message[0], full_message[1]
+            )
 
 
 @contextmanager
-- 
2.43.0


From 30ae3c7b61e292296a1c3d71360fa135f09132c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:20 +0000
Subject: [PATCH 05/79] fix: load the fragments of more than one message per
 type

---
 vtelem/message/cache.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vtelem/message/cache.py b/vtelem/message/cache.py
index e6356f6..3069e56 100644
--- a/vtelem/message/cache.py
+++ b/vtelem/message/cache.py
@@ -105,11 +105,11 @@ class MessageCache(DataCache, MessageDispatcher):
                 if crc_int not in type_data:
                     type_data[crc_int] = {}
                 crc_data = type_data[crc_int]
-                curr = os.path.join(curr, crc)
+                crc_dir = os.path.join(curr, crc)
 
                 # load all fragments for this message's crc
-                for fragment in os.listdir(curr):
-                    with open(os.path.join(curr, fragment), "rb") as frag:
+                for fragment in os.listdir(crc_dir):
+                    with open(os.path.join(crc_dir, fragment), "rb") as frag:
                         crc_data[int(fragment)] = frag.read()
 
     def store_fragment(
-- 
2.43.0


From 1a0d5789489aefd2e77143b641e08f72bc3fe8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:20 +0000
Subject: [PATCH 06/79] fix: never load a message fragment that was only
 partially written

---
 vtelem/message/cache.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vtelem/message/cache.py b/vtelem/message/cache.py
index 3069e56..835c8a9 100644
--- a/vtelem/message/cache.py
+++ b/vtelem/message/cache.py
@@ -109,6 +109,9 @@ class MessageCache(DataCache, MessageDispatcher):
 
                 # load all fragments for this message's crc
                 for fragment in os.listdir(crc_dir):
+                    # skip fragments that weren't completely written
+                    if fragment.endswith(".tmp"):
+                        continue
                     with open(os.path.join(crc_dir, fragment), "rb") as frag:
                         crc_data[int(fragment)] = frag.read()
 
@@ -128,8 +131,9 @@ class MessageCache(DataCache, MessageDispatcher):
         path = os.path.join(self.fragment_dir, str(mtype.value), str(crc))
         os.makedirs(path, exist_ok=True)
         path = os.path.join(path, str(fragment_index))
-        with open(path, "wb") as frag:
+        with open(path + ".tmp", "wb") as frag:
             frag.write(data)
+        os.replace(path + ".tmp", path)
 
     def complete(self, mtype: MessageType) -> List[int]:
         """Get complete messages (by checksum) for a given type."""
-- 
2.43.0


From e74382bc8b3a0ef81a78d7eea44971c7d3b19826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:20 +0000
Subject: [PATCH 07/79] fix: a cleaned message cache forgets fragments and can
 ingest again

---
 vtelem/message/cache.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/vtelem/message/cache.py b/vtelem/message/cache.py
index 835c8a9..df3daf4 100644
--- a/vtelem/message/cache.py
+++ b/vtelem/message/cache.py
@@ -5,6 +5,7 @@ vtelem - A module implementing a message storage.
 # built-in
 from contextlib import contextmanager
 import os
+import shutil
 from tempfile import TemporaryDirectory
 from typing import Callable, Dict, Iterator, List, Optional, Tuple
 
@@ -68,6 +69,11 @@ class MessageCache(DataCache, MessageDispatcher):
 
         self.fragment_data: dict = {}
         self.fragment_dir = cache_dir + "_fragments"
+        self.load_messages()
+        self.service_all_callbacks()
+
+    def load_messages(self) -> None:
+        """Initialize storage for all message types and load fragments."""
 
         for mtype in MessageType:
             mtype_str = str(mtype.value)
@@ -76,7 +82,13 @@ class MessageCache(DataCache, MessageDispatcher):
             self.fragment_data[mtype.value] = {}
 
         self.load_fragments(self.fragment_dir)
-        self.service_all_callbacks()
+
+    def clean(self) -> None:
+        """Clean the cache contents, and all fragments, from disk."""
+
+        super().clean()
+        shutil.rmtree(self.fragment_dir)
+        self.load_messages()
 
     def service_all_callbacks(self) -> None:
         """Invoke registered callbacks for all complete messages."""
-- 
2.43.0


From 08edd21342716ce6064897b10762a73b517a68b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:20 +0000
Subject: [PATCH 08/79] fix: temporary message caches remove their fragments
 too

---
 vtelem/message/cache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtelem/message/cache.py b/vtelem/message/cache.py
index df3daf4..fe2912e 100644
--- a/vtelem/message/cache.py
+++ b/vtelem/message/cache.py
@@ -239,5 +239,5 @@ def from_temp_dir(
 ) -> Iterator[MessageCache]:
     """Create a message cache using a temporary directory."""
 
-    with TemporaryDirectory() as cache_dir:
-        yield MessageCache(cache_dir, initial_callbacks)
+    with TemporaryDirectory() as temp_dir:
+        yield MessageCache(os.path.join(temp_dir, "cache"), initial_callbacks)
-- 
2.43.0


From c164029dd27cdbb4409696e09c1195c5cf189ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:20 +0000
Subject: [PATCH 09/79] fix: empty messages are sent as a single empty fragment

---
 vtelem/message/framer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vtelem/message/framer.py b/vtelem/message/framer.py
index b0a4fbb..e64e30e 100644
--- a/vtelem/message/framer.py
+++ b/vtelem/message/framer.py
@@ -53,6 +53,9 @@ class MessageFramer(Framer):
         to_frame = len(message)
         total_frames, per_frame = frames_required(frame, to_frame)
 
+        # an empty message still requires one (empty) fragment
+        total_frames = max(total_frames, 1)
+
         base_params = MessageFrame.create_fields(
             {
                 "message_type": message_type.value,
@@ -68,7 +71,6 @@ class MessageFramer(Framer):
         frame_start = 0
         total_bytes = 0
         for idx in range(total_frames):
-            assert to_frame
             base_params["fragment_index"].set(idx)
             frame_size = min(to_frame, per_frame)
             frame.initialize(
-- 
2.43.0


From 8a3678c9e1a7caa1cbec0c93687ccc4236a0ad5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:34 +0000
Subject: [PATCH 10/79] fix: message numbers wrap at the width of their field

---
 vtelem/message/framer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vtelem/message/framer.py b/vtelem/message/framer.py
index e64e30e..80960ec 100644
--- a/vtelem/message/framer.py
+++ b/vtelem/message/framer.py
@@ -65,7 +65,11 @@ class MessageFramer(Framer):
                 "total_fragments": total_frames,
             }
         )
+
+        # wrap the number if the field can't represent the next one
+        number_max = base_params["message_number"].type.value.max
         self.message_numbers[message_type] += 1
+        self.message_numbers[message_type] %= number_max + 1
 
         frames = []
         frame_start = 0
-- 
2.43.0


From b988dafc1fbb9e76837f875c809c0848f5ee09aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:34 +0000
Subject: [PATCH 11/79] fix: refuse messages that can't be described by message
 frames

---
 vtelem/frame/message.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vtelem/frame/message.py b/vtelem/frame/message.py
index 75736e1..6f8d218 100644
--- a/vtelem/frame/message.py
+++ b/vtelem/frame/message.py
@@ -88,7 +88,7 @@ class MessageFrame(Frame):
         for field in MESSAGE_FIELDS:
             prim = TypePrimitive(field.type)
             if values is not None and field.name in values:
-                prim.set(values[field.name])
+                assert prim.set(values[field.name])
             result[field.name] = prim
         return result
 
@@ -102,4 +102,5 @@ def frames_required(
     """
 
     len_per_mtu = prototype.mtu - prototype.frame_overhead
+    assert len_per_mtu > 0
     return ceil(message_len / len_per_mtu), len_per_mtu
-- 
2.43.0


From 40de33d1cce8bd31fbdc9306a250328e491c810c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:34 +0000
Subject: [PATCH 12/79] fix: frame processing recovers after an oversized frame
 length

---
 vtelem/frame/processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/frame/processor.py b/vtelem/frame/processor.py
index 8533cf7..e6dbd62 100644
--- a/vtelem/frame/processor.py
+++ b/vtelem/frame/processor.py
@@ -35,7 +35,7 @@ class FrameProcessor:
             self.size_stale = False
 
         # clear buffer state if we get an unreasonable value
-        if self.size > mtu:
+        if not self.size_stale and self.size > mtu:
             self.buffer.reset()
             self.size_stale = True
 
-- 
2.43.0


From e1f1e3a0f26f50c6cec9a9dfebc383b37473233b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:59 +0000
Subject: [PATCH 13/79] fix: don't combine bytes of different connections into
 one frame

---
 vtelem/client/socket.py    | 4 ++++
 vtelem/client/websocket.py | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/vtelem/client/socket.py b/vtelem/client/socket.py
index c8cde27..9ba3e8e 100644
--- a/vtelem/client/socket.py
+++ b/vtelem/client/socket.py
@@ -14,6 +14,7 @@ from vtelem.channel.registry import ChannelRegistry
 from vtelem.classes.type_primitive import TypePrimitive, new_default
 from vtelem.client import TelemetryClient
 from vtelem.daemon import DaemonBase, DaemonState
+from vtelem.frame.processor import FrameProcessor
 from vtelem.mtu import DEFAULT_MTU
 from vtelem.telemetry.environment import TelemetryEnvironment
 
@@ -88,6 +89,9 @@ class SocketClient(DaemonBase, TelemetryClient):
         frame_size = new_default("count")
         assert self.env is not None
 
+        # a new connection begins at a frame boundary
+        self.processor = FrameProcessor()
+
         while self.state != DaemonState.STOPPING:
             try:
                 raw_data = self.socket.recv(
diff --git a/vtelem/client/websocket.py b/vtelem/client/websocket.py
index 277f30e..c1e7a08 100644
--- a/vtelem/client/websocket.py
+++ b/vtelem/client/websocket.py
@@ -18,6 +18,7 @@ from vtelem.classes.type_primitive import TypePrimitive, new_default
 from vtelem.client import TelemetryClient
 from vtelem.daemon import DaemonState
 from vtelem.daemon.event_loop import EventLoopDaemon
+from vtelem.frame.processor import FrameProcessor
 from vtelem.mtu import DEFAULT_MTU, Host
 from vtelem.telemetry.environment import TelemetryEnvironment
 
@@ -57,6 +58,10 @@ class WebsocketClient(EventLoopDaemon, TelemetryClient):
 
             frame_size = new_default("count")
             assert self.env is not None
+
+            # a new connection begins at a frame boundary
+            self.processor = FrameProcessor()
+
             try:
                 while self.state != DaemonState.STOPPING:
                     self.handle_frames(
-- 
2.43.0


From 38bd570031fea1788d5567dc2f3f2c27b39a112b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:59 +0000
Subject: [PATCH 14/79] fix: clients survive frames that can't be decoded

---
 vtelem/client/__init__.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/vtelem/client/__init__.py b/vtelem/client/__init__.py
index 826f8c9..4106bc1 100644
--- a/vtelem/client/__init__.py
+++ b/vtelem/client/__init__.py
@@ -56,12 +56,17 @@ class TelemetryClient:
 
         count = 0
         for frame in new_frames:
-            new_frame = decode_frame(
-                self.channel_registry,
-                frame,
-                len(frame),
-                self.expected_id,
-            )
+            try:
+                new_frame = decode_frame(
+                    self.channel_registry,
+                    frame,
+                    len(frame),
+                    self.expected_id,
+                )
+            except Exception:  # pylint: disable=broad-except
+                # a frame we can't interpret shouldn't end this client
+                LOG.exception("%s: couldn't decode frame", self.name)
+                new_frame = None
             if new_frame is not None:
                 self.frames.put(new_frame)
                 count += 1
-- 
2.43.0


From 9873fcf48a186a6c794884f8e3a600f82f806972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:44 +0000
Subject: [PATCH 15/79] fix: asking the daemon manager for an unknown daemon
 has no side effect

---
 vtelem/daemon/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/daemon/manager.py b/vtelem/daemon/manager.py
index 943942e..b38e425 100644
--- a/vtelem/daemon/manager.py
+++ b/vtelem/daemon/manager.py
@@ -35,7 +35,7 @@ class DaemonManager(LockEntity):
         """Get a daemon object by name."""
 
         assert name not in NAME_DENYLIST
-        return self.daemons[name]
+        return self.daemons.get(name)
 
     def add_daemon(
         self, daemon: DaemonBase, depends_on: List[str] = None
-- 
2.43.0


From 67a70360b7cafe8babe6306bd071a236021ee2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:03 +0000
Subject: [PATCH 16/79] fix: order long daemon dependency chains without
 recursion

---
 vtelem/daemon/manager.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/vtelem/daemon/manager.py b/vtelem/daemon/manager.py
index b38e425..69902f7 100644
--- a/vtelem/daemon/manager.py
+++ b/vtelem/daemon/manager.py
@@ -67,32 +67,29 @@ class DaemonManager(LockEntity):
         Execute an operation on daemons, respecting the dependency order.
         """
 
-        if not name_stack:
-            return
-
-        curr = name_stack.pop()
-        if curr not in executed:
+        visited: List[str] = []
+        while name_stack:
+            curr = name_stack[-1]
 
             # determine if we can execute yet
             to_execute: List[str] = []
-            curr_deps = self.depends_on[curr]
-            if curr_deps:
-                for dep in curr_deps:
+            if curr not in executed and curr not in visited:
+                visited.append(curr)
+                for dep in self.depends_on.get(curr) or []:
                     if dep not in executed:
                         to_execute.append(dep)
 
             # if we have dependencies, put them in front of us, otherwise
             # run against the current entry
             if to_execute:
-                name_stack = to_execute + [curr] + name_stack
-            else:
+                name_stack.extend(to_execute)
+                continue
+
+            name_stack.pop()
+            if curr not in executed:
                 results[curr] = self.perform(curr, operation, *args, **kwargs)
                 executed.append(curr)
 
-        self.perform_stack(
-            name_stack, executed, results, operation, *args, **kwargs
-        )
-
     def perform_all(self, operation: DaemonOperation, *args, **kwargs) -> bool:
         """Attempt to perform an action on all daemons."""
 
-- 
2.43.0


From 2b3944d19815a897ba0828501974c02da9d8753d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:38 +0000
Subject: [PATCH 17/79] fix: state machine iterations from several threads are
 atomic

---
 vtelem/classes/state_machine.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/vtelem/classes/state_machine.py b/vtelem/classes/state_machine.py
index 0f5c912..973fd59 100644
--- a/vtelem/classes/state_machine.py
+++ b/vtelem/classes/state_machine.py
@@ -83,14 +83,13 @@ class StateMachine(LockEntity):
         states.
         """
 
-        if new_data is not None:
-            with self.lock:
+        with self.lock:
+            if new_data is not None:
                 self._data.update(new_data)
 
-        curr = self.states[self.current_state]
-        assert curr is not None
+            curr = self.states[self.current_state]
+            assert curr is not None
 
-        with self.lock:
             new = curr.run(self._data)
             assert new in self.states
 
@@ -123,6 +122,9 @@ class StateMachine(LockEntity):
                     )
                     exit_failed = True
 
+            actual_new = self.states[self.current_state]
+            assert actual_new is not None
+
         # increment metrics
         if self.metrics is not None:
             with self.metrics.data() as metrics_data:
@@ -131,6 +133,4 @@ class StateMachine(LockEntity):
                 metrics_data["transitions"] += int(transitioned)
                 metrics_data["iterations"] += 1
 
-        actual_new = self.states[self.current_state]
-        assert actual_new is not None
         return (curr, actual_new)
-- 
2.43.0


From 9bdb8fe25e0116b67c9916dbf41c5f0e97327f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:38 +0000
Subject: [PATCH 18/79] fix: performing the 'none' daemon operation fails
 instead of raising

---
 vtelem/daemon/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/daemon/__init__.py b/vtelem/daemon/__init__.py
index d96c747..1b4a8bf 100644
--- a/vtelem/daemon/__init__.py
+++ b/vtelem/daemon/__init__.py
@@ -153,7 +153,7 @@ class DaemonBase(TimeEntity):
 
         operation = self.daemon_ops[action]
         curr = self.get_state()
-        if curr in operation["skip_if_state"]:
+        if curr in operation.get("skip_if_state", []):
             return True
         if not operation["takes_args"]:
             return operation["action"]()
-- 
2.43.0


From 4111c1c610252f94118c3be1492e563f32c70377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:59 +0000
Subject: [PATCH 19/79] fix: publish daemon states and metrics in the order
 they change

---
 vtelem/daemon/__init__.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/vtelem/daemon/__init__.py b/vtelem/daemon/__init__.py
index 1b4a8bf..9d86f68 100644
--- a/vtelem/daemon/__init__.py
+++ b/vtelem/daemon/__init__.py
@@ -180,17 +180,19 @@ class DaemonBase(TimeEntity):
             transition = old_state != state
             self.state = state
 
-        if transition:
-            self.function["state_change"](old_state, state, self.get_time())
-
-            # set the metric channel
-            if self.env is not None:
-                self.env.set_enum_metric(
-                    self.get_metric_name("state"),
-                    self.get_state_str(),
-                    self.get_time(),
+            if transition:
+                self.function["state_change"](
+                    old_state, state, self.get_time()
                 )
 
+                # set the metric channel
+                if self.env is not None:
+                    self.env.set_enum_metric(
+                        self.get_metric_name("state"),
+                        self.get_state_str(),
+                        self.get_time(),
+                    )
+
         return transition
 
     def set_env_metric(
@@ -211,7 +213,7 @@ class DaemonBase(TimeEntity):
 
         with self.lock:
             self.function["metrics_data"][name] = val
-        self.set_env_metric(name, val)
+            self.set_env_metric(name, val)
 
     def increment_metric(self, name: str, value: Any = 1) -> None:
         """Increment a named metric."""
@@ -219,7 +221,7 @@ class DaemonBase(TimeEntity):
         with self.lock:
             val = self.function["metrics_data"][name] + value
             self.function["metrics_data"][name] = val
-        self.set_env_metric(name, val)
+            self.set_env_metric(name, val)
 
     def decrement_metric(self, name: str, value: Any = 1) -> None:
         """Decrement a named metric."""
@@ -227,7 +229,7 @@ class DaemonBase(TimeEntity):
         with self.lock:
             val = self.function["metrics_data"][name] - value
             self.function["metrics_data"][name] = val
-        self.set_env_metric(name, val)
+            self.set_env_metric(name, val)
 
     def get_state(self) -> DaemonState:
         """Query this daemon's current state."""
-- 
2.43.0


From c6142a987f38ec9e832798e46424f1a68eab2223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:29 +0000
Subject: [PATCH 20/79] fix: stopping a daemon doesn't interfere with a
 concurrent start

---
 vtelem/daemon/__init__.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/vtelem/daemon/__init__.py b/vtelem/daemon/__init__.py
index 9d86f68..3b7bf43 100644
--- a/vtelem/daemon/__init__.py
+++ b/vtelem/daemon/__init__.py
@@ -304,7 +304,9 @@ class DaemonBase(TimeEntity):
             self.increment_metric("starts")
             assert self.set_state(DaemonState.STARTING)
 
-        self.thread.start()
+            thread = self.thread
+
+        thread.start()
         return True
 
     @contextmanager
@@ -337,25 +339,26 @@ class DaemonBase(TimeEntity):
                     return True
         return False
 
-    def begin_stop(self) -> bool:
+    def begin_stop(self) -> Optional[threading.Thread]:
         """
         Determine if we're in the correct state to stop, mutate state if so.
+        Returns the thread that's expected to end.
         """
 
         # make sure we're in the correct state to attempt a stop
-        should_stop = False
+        to_stop = None
         with self.lock:
             if self.state == DaemonState.RUNNING:
                 if self.set_state(DaemonState.STOPPING):
-                    should_stop = True
+                    to_stop = self.thread
 
-        if should_stop:
+        if to_stop is not None:
             try:
                 self.function["inject_stop"]()
             except KeyError:
                 pass
 
-        return should_stop
+        return to_stop
 
     def restart(self, *args, **kwargs) -> bool:
         """Attempt to restart this daemon."""
@@ -367,16 +370,18 @@ class DaemonBase(TimeEntity):
     def stop(self, timeout: int = DEFAULT_TIMEOUT) -> bool:
         """Attempt to stop the daemon."""
 
-        if not self.begin_stop():
+        to_stop = self.begin_stop()
+        if to_stop is None:
             return False
 
-        # if we should stop, wait for the thread to be joined
-        assert self.thread is not None
-        self.thread.join(timeout=timeout)
+        # if we should stop, wait for the thread to be joined (we could
+        # already be started again once it ends)
+        to_stop.join(timeout=timeout)
         with self.lock:
-            self.thread = None
+            if self.thread is to_stop:
+                self.thread = None
             self.increment_metric(
-                "stops" if self.state == DaemonState.IDLE else "errors"
+                "errors" if to_stop.is_alive() else "stops"
             )
 
         return True
-- 
2.43.0


From e6000d36ff3ebbea094ebfa2b5c67ab3940c857d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:29 +0000
Subject: [PATCH 21/79] fix: streams that fail or are removed while writing
 don't end the writer

---
 vtelem/stream/writer.py | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/vtelem/stream/writer.py b/vtelem/stream/writer.py
index e7bedaf..8c4f063 100644
--- a/vtelem/stream/writer.py
+++ b/vtelem/stream/writer.py
@@ -84,35 +84,29 @@ class StreamWriter(QueueDaemon):
                             stream.flush()
                         self.increment_metric("stream_writes")
                         self.increment_metric("bytes_written", size)
-                    except OSError as exc:
-                        msg = (
-                            "stream '%s' (%d) error writing %d "
-                            + "bytes: %s (%d)"
-                        )
+                    except (OSError, ValueError) as exc:
                         LOG.error(
-                            msg,
-                            stream.name,
+                            "stream %d error writing %d bytes: %s",
                             stream_id,
                             len(array),
-                            exc.strerror,
-                            exc.errno,
+                            exc,
                         )
-                        to_remove.append((stream_id, stream))
+                        to_remove.append(stream_id)
 
                 # remove streams that errored when writing
-                for stream_id, stream in to_remove:
+                for stream_id in to_remove:
                     LOG.warning(
-                        "removing stream '%s' (%d) errors writing",
-                        stream.name,
-                        stream_id,
+                        "removing stream %d, errors writing", stream_id
                     )
 
-                    # signal parent that their stream may be broken
-                    if self.error_handle is not None:
+                    # signal parent that their stream may be broken, unless
+                    # it was removed (and possibly closed) in the meantime
+                    if (
+                        self.remove_stream(stream_id)
+                        and self.error_handle is not None
+                    ):
                         self.error_handle(stream_id)
 
-                    assert self.remove_stream(stream_id)
-
             # add to queues
             for queue in queues:
                 queue.put(frame)
-- 
2.43.0


From 206aff3617e5802869e7077bc62a3cdd4f750a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:29 +0000
Subject: [PATCH 22/79] fix: register the writer's byte metric before any frame
 is written

---
 vtelem/stream/writer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vtelem/stream/writer.py b/vtelem/stream/writer.py
index 8c4f063..e58550c 100644
--- a/vtelem/stream/writer.py
+++ b/vtelem/stream/writer.py
@@ -116,6 +116,7 @@ class StreamWriter(QueueDaemon):
 
         # register and reset additional metrics
         self.reset_metric("stream_writes")
+        self.reset_metric("bytes_written")
         self.reset_metric("stream_count")
         self.reset_metric("queue_writes")
         self.reset_metric("queue_count")
-- 
2.43.0


From fe7d96dedd58cb8bba3c49448d1c92b5993d51d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:29 +0000
Subject: [PATCH 23/79] fix: closing a udp client never fails because of unsent
 data

---
 vtelem/classes/udp_client_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/classes/udp_client_manager.py b/vtelem/classes/udp_client_manager.py
index 7277311..6d88fed 100644
--- a/vtelem/classes/udp_client_manager.py
+++ b/vtelem/classes/udp_client_manager.py
@@ -46,7 +46,7 @@ class UdpClientManager(LockEntity):
             LOG.info("closing stream client '%s:%d'", name[0], name[1])
             try:
                 sock_file.close()
-            except ConnectionRefusedError:  # pragma: no cover
+            except OSError:  # pragma: no cover
                 pass
             finally:
                 sock.close()
-- 
2.43.0


From 0ed8a05fb3fd25363215bf0e594ea9b41f7fe1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:29 +0000
Subject: [PATCH 24/79] fix: concurrent additions to a metric are all counted

---
 vtelem/channel/environment.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vtelem/channel/environment.py b/vtelem/channel/environment.py
index 9646f5d..9723bf9 100644
--- a/vtelem/channel/environment.py
+++ b/vtelem/channel/environment.py
@@ -5,6 +5,7 @@ vtelem - Exposes a runtime environment for managing sets of channels.
 # built-in
 from collections import defaultdict
 import logging
+import threading
 from typing import Any, Dict, List, Optional, Tuple
 
 # internal
@@ -58,6 +59,7 @@ class ChannelEnvironment(TimeEntity):
         self.write_crc = True
 
         self.metrics: Optional[Dict[str, int]] = None
+        self.metric_lock = threading.Lock()
         self.event_queue = EventQueue()
         if metrics_rate is not None:
             self.register_base_metrics(metrics_rate)
@@ -149,7 +151,8 @@ class ChannelEnvironment(TimeEntity):
         if self.metrics is not None and name in self.metrics:
             chan = self.channel_registry.get_item(self.metrics[name])
             assert chan is not None
-            assert chan.set(data, time)
+            with self.metric_lock:
+                assert chan.set(data, time)
 
     def metric_add(self, name: str, data: Any, time: float = None) -> None:
         """Add a value to a metric channel."""
@@ -157,7 +160,8 @@ class ChannelEnvironment(TimeEntity):
         if self.metrics is not None and name in self.metrics:
             chan = self.channel_registry.get_item(self.metrics[name])
             assert chan is not None
-            assert chan.add(data, time)
+            with self.metric_lock:
+                assert chan.add(data, time)
 
     def set_channel_rate(self, chan_id: int, rate: float) -> None:
         """Set the update-rate of a channel."""
-- 
2.43.0


From f5322d5c498f0c253d4f372710ad17f173687dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:47 +0000
Subject: [PATCH 25/79] fix: telemetry servers can disable the websocket
 command service

---
 vtelem/telemetry/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/telemetry/server.py b/vtelem/telemetry/server.py
index 445a8ef..b2150ad 100644
--- a/vtelem/telemetry/server.py
+++ b/vtelem/telemetry/server.py
@@ -143,7 +143,7 @@ class TelemetryServer(HttpDaemon):
                 telem,
                 self.time_keeper,
             )
-        assert self.daemons.add_daemon(ws_cmd, ["stream"])
+            assert self.daemons.add_daemon(ws_cmd, ["stream"])
 
         # make the daemon-manager commandable
         create_daemon_manager_commander(self.daemons, queue_daemon)
-- 
2.43.0


From 089349abd5f19c9cd0d3328517c77a57fdb07aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:47 +0000
Subject: [PATCH 26/79] fix: sleeping doesn't raise while time is scaled to
 zero

---
 vtelem/classes/time_keeper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vtelem/classes/time_keeper.py b/vtelem/classes/time_keeper.py
index d9b4c00..b01f273 100644
--- a/vtelem/classes/time_keeper.py
+++ b/vtelem/classes/time_keeper.py
@@ -76,4 +76,6 @@ class TimeKeeper(Daemon):
     def sleep(self, amount: float) -> None:
         """Sleep for the specified amount, scaled appropriately."""
 
-        self.sleep_function(amount / self.scalar)
+        # time doesn't advance if the scalar is zero, so don't scale
+        scalar = self.scalar
+        self.sleep_function(amount / scalar if scalar > 0.0 else amount)
-- 
2.43.0


From 22f540c8b796a2a62fc7b3579694fd223323cd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:47 +0000
Subject: [PATCH 27/79] fix: single-precision channels reject values they can't
 represent

---
 vtelem/enums/primitive.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/vtelem/enums/primitive.py b/vtelem/enums/primitive.py
index b31bb9f..4d457d0 100644
--- a/vtelem/enums/primitive.py
+++ b/vtelem/enums/primitive.py
@@ -11,6 +11,7 @@ vtelem - A definition of the supported primitive types for this library.
 from enum import Enum
 from json import JSONEncoder
 import random
+import struct
 from typing import Any, Callable, NamedTuple, Tuple, Type, Union
 
 # internal
@@ -48,6 +49,16 @@ def integer_can_hold(prim: BasePrimitive, val: int) -> bool:
     return prim.min <= val <= prim.max
 
 
+def float_can_hold(prim: BasePrimitive, val: float) -> bool:
+    """Check if a primitive can hold this floating-point value."""
+
+    try:
+        struct.pack(prim.fmt, val)
+    except OverflowError:
+        return False
+    return True
+
+
 class Primitive(Enum):
     """
     An enumeration containing the supported primitive types and their 'struct'
@@ -127,7 +138,14 @@ class Primitive(Enum):
         *integer_bounds(8, False),
         integer_can_hold,
     )
-    FLOAT = BasePrimitive("f", float, 4, "float", True)
+    FLOAT = BasePrimitive(
+        "f",
+        float,
+        4,
+        "float",
+        True,
+        validate=float_can_hold,
+    )
     DOUBLE = BasePrimitive("d", float, 8, "double", True)
 
 
-- 
2.43.0


From 7f8ad62375f1b551c113b83f6f86cfccc939ec42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:14 +0000
Subject: [PATCH 28/79] fix: commands that fail unexpectedly are answered and
 don't end the daemon

---
 vtelem/daemon/command_queue.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/vtelem/daemon/command_queue.py b/vtelem/daemon/command_queue.py
index f6a3ba6..8f4462a 100644
--- a/vtelem/daemon/command_queue.py
+++ b/vtelem/daemon/command_queue.py
@@ -40,6 +40,17 @@ class CommandQueueDaemon(QueueDaemon):
 
         self.handlers: HandlersType = defaultdict(list)
 
+        def run_handler(
+            command: str, handler: ConsumerType, cmd_data: dict
+        ) -> Tuple[bool, str]:
+            """Run a command handler, a handler that raises is a failure."""
+
+            try:
+                return handler(cmd_data)
+            except Exception as exc:  # pylint: disable=broad-except
+                LOG.exception("%s: command '%s' raised", self.name, command)
+                return False, f"command '{command}' raised: {exc}"
+
         def elem_handle(data: Tuple[Any, Optional[ResultCbType]]) -> None:
             """Handle an individual command from the queue."""
 
@@ -56,9 +67,13 @@ class CommandQueueDaemon(QueueDaemon):
                 if cmd_cb is not None:
                     cmd_cb(False, err)
                 return None
-            if not self.handlers[elem["command"]]:
+            command = elem["command"]
+            handlers = None
+            if isinstance(command, str):
+                handlers = self.handlers.get(command)
+            if not handlers:
                 err = (
-                    f"{self.name}: command '{elem['command']}' "
+                    f"{self.name}: command '{command}' "
                     "has no handlers, rejected"
                 )
                 LOG.error(err)
@@ -73,9 +88,8 @@ class CommandQueueDaemon(QueueDaemon):
                 cmd_data.update(elem["data"])
 
             # execute command
-            handlers = self.handlers[elem["command"]]
             for handler, result_cb, _ in handlers:
-                result, message = handler(cmd_data)
+                result, message = run_handler(command, handler, cmd_data)
                 if result_cb is not None:
                     result_cb(result, message)
                 if cmd_cb is not None:
@@ -88,8 +102,8 @@ class CommandQueueDaemon(QueueDaemon):
                 log_fn(
                     "%s: command '%s' '%s' %s, '%s'",
                     self.name,
-                    elem["command"],
-                    json.dumps(cmd_data),
+                    command,
+                    dict(cmd_data),
                     status,
                     message,
                 )
-- 
2.43.0


From e3155b9cdfd0fc68b22199ce6b6b5f06f021905f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:41 +0000
Subject: [PATCH 29/79] fix: enum channels that can't be added leave nothing
 behind

---
 vtelem/telemetry/environment.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/vtelem/telemetry/environment.py b/vtelem/telemetry/environment.py
index 4f014c5..bf91de5 100644
--- a/vtelem/telemetry/environment.py
+++ b/vtelem/telemetry/environment.py
@@ -100,18 +100,23 @@ class TelemetryEnvironment(ChannelEnvironment):
     ) -> int:
         """Add a channel that stores an enumeration value."""
 
+        # resolve the enumeration before anything is registered
+        enum_type = self.enum_registry.get_id(enum_name)
+        assert enum_type is not None
+        value = None
+        if initial is not None:
+            enum_def = self.enum_registry.get_item(enum_type)
+            assert enum_def is not None
+            value = enum_def.get_value(initial[0])
+
         new_chan = self.add_channel(
             name, DEFAULTS["enum"], rate, track_change, None, commandable
         )
-        enum_type = self.enum_registry.get_id(enum_name)
-        assert enum_type is not None
         self.enum_channel_types[new_chan] = enum_type
         if initial is not None:
             chan = self.registries["channel"].get_item(new_chan)
             assert chan is not None
-            enum_def = self.enum_registry.get_item(enum_type)
-            assert enum_def is not None
-            assert chan.set(enum_def.get_value(initial[0]), initial[1])
+            assert chan.set(value, initial[1])
         return new_chan
 
     def add_enum_metric(
-- 
2.43.0


From a6df82b13745cc442be126579e0c115d2e9f9e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:41 +0000
Subject: [PATCH 30/79] fix: answer shutdown requests whose identifier isn't an
 integer

---
 vtelem/factories/telemetry_server.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vtelem/factories/telemetry_server.py b/vtelem/factories/telemetry_server.py
index b52d219..346bf92 100644
--- a/vtelem/factories/telemetry_server.py
+++ b/vtelem/factories/telemetry_server.py
@@ -33,9 +33,13 @@ def register_http_handlers(
         if provided_id is None:
             return False, "no 'app_id' argument provided"
         provided_id = provided_id[0]
-        if our_id.get() != int(provided_id):
+        try:
+            provided = int(provided_id)
+        except (TypeError, ValueError):
+            return False, "'app_id' isn't an integer"
+        if our_id.get() != provided:
             msg = "'app_id' mismatch, expected '{}' got '{}'"
-            return False, msg.format(our_id.get(), int(provided_id))
+            return False, msg.format(our_id.get(), provided)
         server.stop_all()
         return True, "success"
 
-- 
2.43.0


From a675e1c8ff75955112dc2e63467f618b7e594b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:41 +0000
Subject: [PATCH 31/79] fix: requests to unknown paths don't add them to the
 request index

---
 vtelem/classes/http_request_mapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index 3a3ad24..25e6c76 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -61,8 +61,8 @@ class HttpRequestMapper:
         """Retrieve a handle by request type and path."""
 
         return (
-            self.requests[request_type][path],
-            self.handle_data[request_type][path],
+            self.requests.get(request_type, {}).get(path),
+            self.handle_data.get(request_type, {}).get(path),
         )
 
     def add_handler(
-- 
2.43.0


From 07c6b0ff4fadc3faf68e96ea7a2b3aeaad544f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:41 +0000
Subject: [PATCH 32/79] fix: response lengths count encoded bytes

---
 vtelem/classes/http_request_mapper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index 25e6c76..73228ef 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -165,10 +165,11 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
         if handle_data is not None:
             for key, value in handle_data.items():
                 self.send_header(key, value)
-        self.send_header("Content-Length", str(len(content)))
+        body = content.encode()
+        self.send_header("Content-Length", str(len(body)))
         self.end_headers()
         if not headers_only:
-            self.wfile.write(content.encode())
+            self.wfile.write(body)
         self.log_request(status)
         return None
 
-- 
2.43.0


From 1938fe1c564283cf9fccc462a807f66c94b1c19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:41 +0000
Subject: [PATCH 33/79] fix: failure messages don't corrupt or prevent a
 response

---
 vtelem/classes/http_request_mapper.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index 73228ef..9cd0b52 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -156,7 +156,11 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
         status = HTTPStatus.OK if success else HTTPStatus.BAD_REQUEST
 
         if not success:
-            self.send_error(status, content)
+            # the status line is a single line of printable characters, provide
+            # the complete message in the response body
+            reason = " ".join(content.split())
+            reason = reason.encode("ascii", "replace").decode("ascii")
+            self.send_error(status, reason, content)
             self.end_headers()
             self.close_connection = True
             return None
-- 
2.43.0


From 1db9026c69e24ba94e145fbc953e3d4acd68282a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:41 +0000
Subject: [PATCH 34/79] fix: multipart header values may contain separators

---
 vtelem/classes/http_request_mapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index 9cd0b52..f0409e2 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -242,7 +242,7 @@ def parse_request_lines(lines: List[str]) -> dict:
 
     # parse headers (RFC 822 3.2)
     for header in headers:
-        name_body = header.split(":")
+        name_body = header.split(":", 1)
         if len(name_body) == 2:
             name = name_body[0].strip().lower()
             body = name_body[1].strip()
@@ -305,7 +305,7 @@ def parse_content_disposition(data: str) -> dict:
     if items:
         result["type"] = items[0]
         for param in items[1:]:
-            param_split = param.split("=")
+            param_split = param.split("=", 1)
             if len(param_split) == 2:
                 key = param_split[0].strip().lower()
                 result[key] = dequote(param_split[1].strip())
-- 
2.43.0


From 0636b58d68b0dcc2c5fafd6875eaac20e75bf394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:05 +0000
Subject: [PATCH 35/79] fix: adding a duplicate channel doesn't capture a
 change event

---
 vtelem/channel/environment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vtelem/channel/environment.py b/vtelem/channel/environment.py
index 9723bf9..77f4b1d 100644
--- a/vtelem/channel/environment.py
+++ b/vtelem/channel/environment.py
@@ -209,6 +209,8 @@ class ChannelEnvironment(TimeEntity):
         """
 
         with self.lock:
+            # don't capture an initial-value event for a duplicate channel
+            assert not self.has_channel(name)
             queue = None if not track_change else self.event_queue
             new_chan = Channel(name, instance, rate, queue, commandable)
             if initial is not None:
-- 
2.43.0


From de9f8b1fb8e44ff18891b8f0929f34ebd938c0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:51 +0000
Subject: [PATCH 36/79] fix: check the range of single-precision values in
 their wire format

---
 vtelem/enums/primitive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/enums/primitive.py b/vtelem/enums/primitive.py
index 4d457d0..e223b73 100644
--- a/vtelem/enums/primitive.py
+++ b/vtelem/enums/primitive.py
@@ -53,7 +53,7 @@ def float_can_hold(prim: BasePrimitive, val: float) -> bool:
     """Check if a primitive can hold this floating-point value."""
 
     try:
-        struct.pack(prim.fmt, val)
+        struct.pack(f"!{prim.fmt}", val)
     except OverflowError:
         return False
     return True
-- 
2.43.0


From e37f016327bad37aaf2463abac1cf8728dbc67cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:47 +0000
Subject: [PATCH 37/79] fix: limited file replays don't lose frames that were
 already read

---
 vtelem/client/file.py | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/vtelem/client/file.py b/vtelem/client/file.py
index 681735c..262ff8a 100644
--- a/vtelem/client/file.py
+++ b/vtelem/client/file.py
@@ -60,18 +60,12 @@ class FileClient(DaemonBase, TelemetryClient):
         (and export via queue) more frames than were requested.
         """
 
-        # Determine how many frames to process, we can either process them all
-        # or we want to truncate so we don't process more than was requested.
-        process_count = len(self.to_process)
-        if task.max_frames is not None:
-            process_count = min(
-                process_count, task.max_frames - self.frame_count
-            )
-
-        # Consume the desired number of payloads from our process list.
-        if process_count:
-            to_process = [self.to_process.pop(0) for _ in range(process_count)]
-            self.frame_count += self.handle_frames(to_process)
+        # Consume payloads until none are left or we've reached the limit,
+        # those that can't be decoded don't count towards it.
+        while self.to_process and (
+            task.max_frames is None or self.frame_count < task.max_frames
+        ):
+            self.frame_count += self.handle_frames([self.to_process.pop(0)])
 
         # Determine if we've reached the limit of desired frames, if one was
         # provided.
@@ -99,6 +93,12 @@ class FileClient(DaemonBase, TelemetryClient):
 
             while self.state != DaemonState.STOPPING:
                 try:
+                    # Stop processing frames (and reading) if we reached the
+                    # maximum desired. Payloads that are still staged come
+                    # before anything that hasn't been read yet.
+                    if not self.process_raw_frames(self.task):
+                        break
+
                     data = stream.read(self.mtu + frame_size.type.value.size)
                     if not data:
                         LOG.info("%s: reached end-of-file", self.name)
@@ -109,11 +109,6 @@ class FileClient(DaemonBase, TelemetryClient):
                     self.to_process.extend(
                         self.processor.process(data, frame_size, self.mtu)
                     )
-
-                    # Stop processing frames (and reading) if we reached the
-                    # maximum desired.
-                    if not self.process_raw_frames(self.task):
-                        break
                 finally:
                     pass
 
-- 
2.43.0


From 4176890bd660c085fcf9cc212b4c25da80cb086d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:17 +0000
Subject: [PATCH 38/79] fix: an enumeration name belongs to a single value

---
 vtelem/classes/user_enum.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vtelem/classes/user_enum.py b/vtelem/classes/user_enum.py
index 5dd05be..5d8916c 100644
--- a/vtelem/classes/user_enum.py
+++ b/vtelem/classes/user_enum.py
@@ -48,6 +48,8 @@ def reverse_map(enum_map: IntStrMap) -> Dict[str, Optional[int]]:
 
     strings: Dict[str, Optional[int]] = defaultdict(lambda: None)
     for key, val in enum_map.items():
+        # a name can't belong to more than one value
+        assert val.lower() not in strings
         strings[val.lower()] = key
     return strings
 
-- 
2.43.0


From 76053b7dd85b05a8661aef6828a15d5d45c34edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:17 +0000
Subject: [PATCH 39/79] fix: enumerations list the same names in both
 directions

---
 vtelem/classes/user_enum.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vtelem/classes/user_enum.py b/vtelem/classes/user_enum.py
index 5d8916c..8fa17af 100644
--- a/vtelem/classes/user_enum.py
+++ b/vtelem/classes/user_enum.py
@@ -76,7 +76,11 @@ class UserEnum(Serializable):
 
         # Maintain a reverse mapping for convenience.
         self.coerce_int_keys(["mappings"], data)
-        self.strings = reverse_map(cast(IntStrMap, data["mappings"]))
+        mappings = cast(IntStrMap, data["mappings"])
+        self.strings = reverse_map(mappings)
+
+        # Names are the same in both directions.
+        mappings.update({key: val.lower() for key, val in mappings.items()})
 
         # Set a viable default value.
         default = data["default"]
-- 
2.43.0


From b12f60e1bff452fb45d2abe7c1979fcaa535c0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:18 +0000
Subject: [PATCH 40/79] fix: enums named like a type don't block later enums

---
 vtelem/telemetry/environment.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vtelem/telemetry/environment.py b/vtelem/telemetry/environment.py
index bf91de5..ccb2701 100644
--- a/vtelem/telemetry/environment.py
+++ b/vtelem/telemetry/environment.py
@@ -194,6 +194,9 @@ class TelemetryEnvironment(ChannelEnvironment):
         with self.lock:
             if self.has_enum(enum):
                 return self.enum_registry.get_enum(enum)[1]
+
+            # an enum that can't be exported isn't registered at all
+            assert self.type_registry.get_id(enum.name) is None
             result = self.enum_registry.add_enum(enum)
             assert result[0]
             assert self.enum_registry.export(self.type_registry)
-- 
2.43.0


From 2dc9eda934f3ff1fb7cd1dba5563963f1ab22900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:18 +0000
Subject: [PATCH 41/79] fix: concurrent additions of an enum keep the first
 definition

---
 vtelem/registry/enum_retry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vtelem/registry/enum_retry.py b/vtelem/registry/enum_retry.py
index b16274a..cdcd459 100644
--- a/vtelem/registry/enum_retry.py
+++ b/vtelem/registry/enum_retry.py
@@ -58,8 +58,9 @@ class EnumRegistry(Serializable, LockEntity):
     def add(self, enum: UserEnum) -> int:
         """Add an enum to the registry."""
 
-        assert enum.name not in self.enum_data
         with self.lock:
+            assert enum.name not in self.enum_data
+
             # Store a reference to the serializable data directly.
             self.enum_data[enum.name] = enum.data
 
-- 
2.43.0


From 71c240deb9ecbbaa60d0c5cb9a0c5573d89cc0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:34 +0000
Subject: [PATCH 42/79] fix: http daemons that use tls can be started again

---
 vtelem/daemon/http.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/vtelem/daemon/http.py b/vtelem/daemon/http.py
index e1d16f6..035cadd 100644
--- a/vtelem/daemon/http.py
+++ b/vtelem/daemon/http.py
@@ -129,11 +129,11 @@ class HttpDaemon(DaemonBase):
                     service_registry.add(
                         self.name, [self.server.server_address]
                     )
-            if self.ssl_context is not None:
-                with self.ssl_context.wrap_socket(
+            # keep the wrapped socket, so that we can be started again
+            if self.ssl_context is not None and not isinstance(
+                self.server.socket, ssl.SSLSocket
+            ):
+                self.server.socket = self.ssl_context.wrap_socket(
                     self.server.socket, server_side=True
-                ) as ssock:
-                    self.server.socket = ssock
-                    self.server.serve_forever(0.1)
-            else:
-                self.server.serve_forever(0.1)
+                )
+            self.server.serve_forever(0.1)
-- 
2.43.0


From 53b649f1b77bf86ee5424231274f270b7d33e80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:57 +0000
Subject: [PATCH 43/79] fix: event loop daemons can be stopped while they are
 starting

---
 vtelem/daemon/event_loop.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/vtelem/daemon/event_loop.py b/vtelem/daemon/event_loop.py
index f30a568..7b09a3d 100644
--- a/vtelem/daemon/event_loop.py
+++ b/vtelem/daemon/event_loop.py
@@ -4,7 +4,7 @@ vtelem - A module for using event loops as daemons.
 
 # built-in
 import asyncio
-from threading import Semaphore
+from threading import Event, Semaphore
 from typing import Any
 
 # internal
@@ -26,6 +26,7 @@ class EventLoopDaemon(DaemonBase):
 
         super().__init__(name, env, time_keeper)
         self.eloop = asyncio.new_event_loop()
+        self.looping = Event()
         self.wait_count = 0
         self.wait_poster = Semaphore(0)
 
@@ -34,6 +35,11 @@ class EventLoopDaemon(DaemonBase):
             A function for stopping the event loop from an arbitrary thread.
             """
 
+            # don't interrupt the initialization, there's nothing to stop if it
+            # failed
+            if not self.looping.wait(stop_grace):
+                return
+
             # determine how many tasks have expressed pending status
             with self.lock:
                 waits = self.wait_count
@@ -83,4 +89,8 @@ class EventLoopDaemon(DaemonBase):
             self.function["run_init"](*args, **kwargs)
         except KeyError:
             pass
-        self.eloop.run_forever()
+        self.eloop.call_soon(self.looping.set)
+        try:
+            self.eloop.run_forever()
+        finally:
+            self.looping.clear()
-- 
2.43.0


From 83a30aaf94b5b796c46ea012479a76a6018368db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:26 +0000
Subject: [PATCH 44/79] fix: commanding all daemons respects their dependencies

---
 vtelem/daemon/manager.py           | 20 ++++++++++++++------
 vtelem/factories/daemon_manager.py | 20 ++++++++++++++------
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/vtelem/daemon/manager.py b/vtelem/daemon/manager.py
index 69902f7..03c3bad 100644
--- a/vtelem/daemon/manager.py
+++ b/vtelem/daemon/manager.py
@@ -90,12 +90,16 @@ class DaemonManager(LockEntity):
                 results[curr] = self.perform(curr, operation, *args, **kwargs)
                 executed.append(curr)
 
-    def perform_all(self, operation: DaemonOperation, *args, **kwargs) -> bool:
-        """Attempt to perform an action on all daemons."""
+    def perform_each(
+        self, operation: DaemonOperation, *args, **kwargs
+    ) -> Dict[str, bool]:
+        """
+        Attempt to perform an action on all daemons in dependency order,
+        returns the result for each daemon.
+        """
 
-        failures = 0
+        results: Dict[str, bool] = {}
         with self.lock:
-            results: Dict[str, bool] = {}
             self.perform_stack(
                 list(self.daemons.keys()),
                 [],
@@ -111,8 +115,12 @@ class DaemonManager(LockEntity):
                         operation_str(operation),
                         result_key,
                     )
-                    failures += 1
-        return failures == 0
+        return results
+
+    def perform_all(self, operation: DaemonOperation, *args, **kwargs) -> bool:
+        """Attempt to perform an action on all daemons."""
+
+        return all(self.perform_each(operation, *args, **kwargs).values())
 
     def perform_str_all(self, operation: str, *args, **kwargs) -> bool:
         """Attempt to perform a String action on all daemons."""
diff --git a/vtelem/factories/daemon_manager.py b/vtelem/factories/daemon_manager.py
index b358253..db9535a 100644
--- a/vtelem/factories/daemon_manager.py
+++ b/vtelem/factories/daemon_manager.py
@@ -4,12 +4,17 @@ vtelem - A module for creating functions based on a daemon manager.
 
 # built-in
 import json
-from typing import List, Tuple
+from typing import Dict, List, Tuple
 
 # internal
 from vtelem.daemon.command_queue import CommandQueueDaemon
 from vtelem.daemon.manager import DaemonManager
-from vtelem.enums.daemon import DaemonOperation, is_operation, operation_str
+from vtelem.enums.daemon import (
+    DaemonOperation,
+    is_operation,
+    operation_str,
+    str_to_operation,
+)
 from vtelem.types.command_queue_daemon import ResultCbType
 
 
@@ -34,12 +39,15 @@ def create_daemon_manager_commander(
 
             # allow 'all' to be a special key
             daemons = cmd["daemons"]
-            if "all" in daemons:
-                daemons = list(manager.states().keys())
+            results: Dict[str, bool] = {}
+            bool_results: List[bool] = []
+            operation = str_to_operation(oper)
+            if "all" in daemons and operation is not None:
+                results = manager.perform_each(operation)
+                bool_results.extend(results.values())
+                daemons = []
 
             # execute all of the requested commands
-            results = {}
-            bool_results: List[bool] = []
             for daemon_name in daemons:
                 result = manager.perform_str(daemon_name, oper)
                 bool_results.append(result)
-- 
2.43.0


From b1b448137b1a2b51bf500b1579b66be380098cdd Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 02:15:36 +0000
Subject: [PATCH 45/79] fix: time keepers measure their iterations in real time

---
 vtelem/classes/time_keeper.py |  8 ++++++++
 vtelem/daemon/synchronous.py  | 11 ++++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/vtelem/classes/time_keeper.py b/vtelem/classes/time_keeper.py
index b01f273..3237021 100644
--- a/vtelem/classes/time_keeper.py
+++ b/vtelem/classes/time_keeper.py
@@ -41,6 +41,14 @@ class TimeKeeper(Daemon):
         self.function["sleep"] = self.sleep_function
         self.slaves: List[Any] = []
 
+    def get_iteration_time(self) -> float:
+        """
+        Iterations advance this entity's own time, so that can't be used to
+        measure them.
+        """
+
+        return self.time_function()
+
     def iteration(self, *_, **__) -> None:
         """On every iteration, advance time for all slaves."""
 
diff --git a/vtelem/daemon/synchronous.py b/vtelem/daemon/synchronous.py
index 144d668..277fefd 100644
--- a/vtelem/daemon/synchronous.py
+++ b/vtelem/daemon/synchronous.py
@@ -74,6 +74,11 @@ class Daemon(DaemonBase):
 
         return self.function["rate"]
 
+    def get_iteration_time(self) -> float:
+        """Get the time that iterations are measured with."""
+
+        return self.get_time()
+
     def run(self, *args, **kwargs) -> None:
         """Runs this daemon's thread, until stop is requested."""
 
@@ -91,9 +96,9 @@ class Daemon(DaemonBase):
                 continue
 
             # run the iteration
-            iter_start = self.get_time()
+            iter_start = self.get_iteration_time()
             self.function["task"](*args, **kwargs)
-            iter_end = self.get_time()
+            iter_end = self.get_iteration_time()
 
             # keep runtime metrics
             self.increment_metric("uptime", iter_end - iter_start)
@@ -102,7 +107,7 @@ class Daemon(DaemonBase):
             )
 
             # await the next iteration
-            sleep_amount = rate - (self.get_time() - iter_start)
+            sleep_amount = rate - (self.get_iteration_time() - iter_start)
             if sleep_amount > 0.0:
                 self.function["sleep"](sleep_amount)
             elif self.function["overrun"] is not None:
-- 
2.43.0


From b7eb10e6e4a17828063476c09f091c30d4f014eb Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 02:15:37 +0000
Subject: [PATCH 46/79] fix: concurrent state machine iterations are all
 counted

---
 vtelem/classes/state_machine.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/vtelem/classes/state_machine.py b/vtelem/classes/state_machine.py
index 973fd59..01ddc31 100644
--- a/vtelem/classes/state_machine.py
+++ b/vtelem/classes/state_machine.py
@@ -125,12 +125,12 @@ class StateMachine(LockEntity):
             actual_new = self.states[self.current_state]
             assert actual_new is not None
 
-        # increment metrics
-        if self.metrics is not None:
-            with self.metrics.data() as metrics_data:
-                metrics_data["enter_fails"] += int(enter_failed)
-                metrics_data["exit_fails"] += int(exit_failed)
-                metrics_data["transitions"] += int(transitioned)
-                metrics_data["iterations"] += 1
+            # increment metrics, they're read and written separately
+            if self.metrics is not None:
+                with self.metrics.data() as metrics_data:
+                    metrics_data["enter_fails"] += int(enter_failed)
+                    metrics_data["exit_fails"] += int(exit_failed)
+                    metrics_data["transitions"] += int(transitioned)
+                    metrics_data["iterations"] += 1
 
         return (curr, actual_new)
-- 
2.43.0


From a8596e341c28862942162fdd601f215fe9177cdf Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 02:18:42 +0000
Subject: [PATCH 47/79] fix: channel groups that can't be written completely
 aren't written

---
 vtelem/channel/group.py         |  7 +++++++
 vtelem/telemetry/environment.py | 11 ++++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/vtelem/channel/group.py b/vtelem/channel/group.py
index 8b0faa7..a507bcb 100644
--- a/vtelem/channel/group.py
+++ b/vtelem/channel/group.py
@@ -120,8 +120,15 @@ class ChannelGroup:
         """Write the values into the environment."""
 
         with self.env.lock:
+            # make sure that everything can be resolved before the first value
+            # is written
             for name, value in values.items():
                 assert name in self.channels
+                chan = self.channels[name]
+                if chan["is_enum"]:
+                    self.env.resolve_enum(chan["id"], value)
+
+            for name, value in values.items():
                 chan = self.channels[name]
                 if chan["is_enum"]:
                     self.env.set_enum_now(chan["id"], value)
diff --git a/vtelem/telemetry/environment.py b/vtelem/telemetry/environment.py
index ccb2701..281907e 100644
--- a/vtelem/telemetry/environment.py
+++ b/vtelem/telemetry/environment.py
@@ -165,13 +165,18 @@ class TelemetryEnvironment(ChannelEnvironment):
         assert enum_def is not None
         return enum_def.get_str(self.get_value(chan_id))
 
-    def set_enum_now(self, channel_id: int, data: str) -> bool:
-        """Set an enum channel with the provided value, assign time."""
+    def resolve_enum(self, channel_id: int, data: str) -> int:
+        """Get the integer value of an enum String for an enum channel."""
 
         enum_type = self.enum_channel_types[channel_id]
         enum_def = self.enum_registry.get_item(enum_type)
         assert enum_def is not None
-        return self.set_now(channel_id, enum_def.get_value(data))
+        return enum_def.get_value(data)
+
+    def set_enum_now(self, channel_id: int, data: str) -> bool:
+        """Set an enum channel with the provided value, assign time."""
+
+        return self.set_now(channel_id, self.resolve_enum(channel_id, data))
 
     def add_from_enum(self, enum_class: Type[IntEnum]) -> int:
         """Add an enumeration from an enum class."""
-- 
2.43.0


From 6b536acc9cf05aedd09ff0357be9c1e366a49fcb Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 02:18:42 +0000
Subject: [PATCH 48/79] fix: adding to a channel group doesn't disturb its
 readers

---
 vtelem/channel/group.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/vtelem/channel/group.py b/vtelem/channel/group.py
index a507bcb..0a14adb 100644
--- a/vtelem/channel/group.py
+++ b/vtelem/channel/group.py
@@ -50,7 +50,12 @@ class ChannelGroup:
         except AssertionError:
             return False
 
-        self.channels[name] = {"id": chan_id, "value": val, "is_enum": False}
+        with self.env.lock:
+            self.channels[name] = {
+                "id": chan_id,
+                "value": val,
+                "is_enum": False,
+            }
         return True
 
     def add_enum_channel(
@@ -88,7 +93,8 @@ class ChannelGroup:
         except AssertionError:
             return False
 
-        self.channels[name] = {"id": chan_id, "is_enum": True}
+        with self.env.lock:
+            self.channels[name] = {"id": chan_id, "is_enum": True}
         return True
 
     @contextmanager
-- 
2.43.0


From 7e287e42dab66c0d743ce11370e6c7b485ed7a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:01 +0000
Subject: [PATCH 49/79] fix: streams that accept only part of a frame don't end
 the writer

---
 vtelem/stream/writer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vtelem/stream/writer.py b/vtelem/stream/writer.py
index e58550c..bad508c 100644
--- a/vtelem/stream/writer.py
+++ b/vtelem/stream/writer.py
@@ -79,7 +79,8 @@ class StreamWriter(QueueDaemon):
                 to_remove = []
                 for stream_id, stream in streams.items():
                     try:
-                        assert stream.write(array) == size
+                        if stream.write(array) != size:
+                            raise OSError("incomplete write")
                         if self.stream_attrs[stream_id]["flush"]:
                             stream.flush()
                         self.increment_metric("stream_writes")
-- 
2.43.0


From fd809224284905d66f3080a60ce6b2aeeb07abb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:46 +0000
Subject: [PATCH 50/79] fix: adding a udp client that fails at once doesn't
 raise

---
 vtelem/classes/udp_client_manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vtelem/classes/udp_client_manager.py b/vtelem/classes/udp_client_manager.py
index 6d88fed..244b675 100644
--- a/vtelem/classes/udp_client_manager.py
+++ b/vtelem/classes/udp_client_manager.py
@@ -74,11 +74,13 @@ class UdpClientManager(LockEntity):
         sock_file = cast(socket.socket, sock).makefile("wb")
         sock_file.flush()
 
+        # the socket may be closed as soon as the writer knows about it
+        name = sock.getsockname()
+
         with self.lock:
             sock_id = self.writer.add_stream(sock_file, flush=flush)
             self.clients[sock_id] = (sock, sock_file)
 
-        name = sock.getsockname()
         LOG.info(
             "adding stream client '%s:%d' -> '%s:%d'",
             name[0],
-- 
2.43.0


From 81cb227f4edde19bd2f534c790c5aad8a9f4f821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:46 +0000
Subject: [PATCH 51/79] fix: a synchronous command never mixes two handlers'
 outcomes

---
 vtelem/daemon/command_queue.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/vtelem/daemon/command_queue.py b/vtelem/daemon/command_queue.py
index 8f4462a..0e26b6e 100644
--- a/vtelem/daemon/command_queue.py
+++ b/vtelem/daemon/command_queue.py
@@ -164,18 +164,17 @@ class CommandQueueDaemon(QueueDaemon):
     def execute(self, command: Any) -> Tuple[bool, str]:
         """Execute a command and block until it's complete."""
 
-        result, msg = False, "Command result not known."
+        outcome = (False, "Command result not known.")
         signal = Semaphore(0)
 
         def cmd_cb(status: bool, message: str) -> None:
             """Update the result when we get it."""
 
-            nonlocal result
-            nonlocal msg
-            result = status
-            msg = message
+            nonlocal outcome
+            outcome = (status, message)
             signal.release()
 
         self.enqueue(command, cmd_cb)
         in_time = signal.acquire(True, 2)  # pylint:disable=consider-using-with
+        result, msg = outcome
         return result and in_time, msg
-- 
2.43.0


From 366dcd63c8d130fea59c54d5900f1135cebefec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:46 +0000
Subject: [PATCH 52/79] fix: a malformed handler result doesn't end the command
 queue

---
 vtelem/daemon/command_queue.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vtelem/daemon/command_queue.py b/vtelem/daemon/command_queue.py
index 0e26b6e..d5955b9 100644
--- a/vtelem/daemon/command_queue.py
+++ b/vtelem/daemon/command_queue.py
@@ -46,7 +46,8 @@ class CommandQueueDaemon(QueueDaemon):
             """Run a command handler, a handler that raises is a failure."""
 
             try:
-                return handler(cmd_data)
+                result, message = handler(cmd_data)
+                return result, message
             except Exception as exc:  # pylint: disable=broad-except
                 LOG.exception("%s: command '%s' raised", self.name, command)
                 return False, f"command '{command}' raised: {exc}"
-- 
2.43.0


From f1a73243355ffc193f219f34f0d394246fe5cae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:11 +0000
Subject: [PATCH 53/79] fix: help works while command handlers are being
 registered

---
 vtelem/daemon/command_queue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/daemon/command_queue.py b/vtelem/daemon/command_queue.py
index d5955b9..abb621f 100644
--- a/vtelem/daemon/command_queue.py
+++ b/vtelem/daemon/command_queue.py
@@ -123,7 +123,7 @@ class CommandQueueDaemon(QueueDaemon):
 
             cmd_help: Dict[str, List[str]] = {}
             commands = []
-            for key, handler in self.handlers.items():
+            for key, handler in list(self.handlers.items()):
                 if handler:
                     commands.append(key)
             if data["command"] is not None:
-- 
2.43.0


From 3c711013e2c3f750a5d997680a9131c3096932f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:12 +0000
Subject: [PATCH 54/79] fix: an enum channel whose initial value doesn't fit
 isn't added

---
 vtelem/telemetry/environment.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/vtelem/telemetry/environment.py b/vtelem/telemetry/environment.py
index 281907e..7d296c1 100644
--- a/vtelem/telemetry/environment.py
+++ b/vtelem/telemetry/environment.py
@@ -107,16 +107,12 @@ class TelemetryEnvironment(ChannelEnvironment):
         if initial is not None:
             enum_def = self.enum_registry.get_item(enum_type)
             assert enum_def is not None
-            value = enum_def.get_value(initial[0])
+            value = (enum_def.get_value(initial[0]), initial[1])
 
         new_chan = self.add_channel(
-            name, DEFAULTS["enum"], rate, track_change, None, commandable
+            name, DEFAULTS["enum"], rate, track_change, value, commandable
         )
         self.enum_channel_types[new_chan] = enum_type
-        if initial is not None:
-            chan = self.registries["channel"].get_item(new_chan)
-            assert chan is not None
-            assert chan.set(value, initial[1])
         return new_chan
 
     def add_enum_metric(
-- 
2.43.0


From 50ef7e9d955703b9900d51afcba62132667fe3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:02 +0000
Subject: [PATCH 55/79] fix: the schema of enumerations accepts the names that
 programs use

---
 vtelem/data/serializables/UserEnum.yaml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtelem/data/serializables/UserEnum.yaml b/vtelem/data/serializables/UserEnum.yaml
index 6b0009c..6b3e1fa 100644
--- a/vtelem/data/serializables/UserEnum.yaml
+++ b/vtelem/data/serializables/UserEnum.yaml
@@ -2,6 +2,6 @@ default: {type: string}
 mappings:
   keysrules: {type: integer}
   type: dict
-  valuesrules: {regex: '[a-z]+', type: string}
-name: {regex: '[a-z_]+', type: string}
+  valuesrules: {regex: '[a-z0-9_]+', type: string}
+name: {regex: '[a-z0-9_]+', type: string}
 type: {regex: ^user_enum$, type: string}
-- 
2.43.0


From b48d7d4d7be4f814c9b324e6d1d40bc868062fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:02 +0000
Subject: [PATCH 56/79] fix: decoded objects are validated like the object that
 decodes them

---
 vtelem/classes/serdes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/classes/serdes.py b/vtelem/classes/serdes.py
index 7d611e7..b64179f 100644
--- a/vtelem/classes/serdes.py
+++ b/vtelem/classes/serdes.py
@@ -145,7 +145,7 @@ class Serializable:
         """Create a serializable from a text stream loaded as JSON."""
 
         data: ObjectData = load(stream, cls=self.params.decoder, **load_kwargs)
-        return self.__class__(data, self.params)
+        return self.__class__(data, self.params, manager=self.manager)
 
     def load_str(self, data: str, **load_kwargs) -> "Serializable":
         """Create a serializable from a String loaded as JSON."""
-- 
2.43.0


From 5468ba79b4042267ab2055d83bd117639143b4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:21 +0000
Subject: [PATCH 57/79] fix: elements that don't fit a metered queue aren't
 counted

---
 vtelem/classes/metered_queue.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/vtelem/classes/metered_queue.py b/vtelem/classes/metered_queue.py
index 48a584a..0f559ba 100644
--- a/vtelem/classes/metered_queue.py
+++ b/vtelem/classes/metered_queue.py
@@ -3,7 +3,7 @@ vtelem - Allows queues to publish telemetry metrics.
 """
 
 # built-in
-from queue import Queue
+from queue import Full, Queue
 from typing import Any
 
 # internal
@@ -58,7 +58,14 @@ class MeteredQueue(Queue):
         time = self.env.get_time()
         self.env.metric_add(f"{self.name}.elements", 1, time)
         self.env.metric_add(f"{self.name}.total_enqueued", 1, time)
-        super().put(item, block, timeout)
+        try:
+            super().put(item, block, timeout)
+        except Full:
+            # the element wasn't enqueued
+            time = self.env.get_time()
+            self.env.metric_add(f"{self.name}.elements", -1, time)
+            self.env.metric_add(f"{self.name}.total_enqueued", -1, time)
+            raise
 
 
 def create(
-- 
2.43.0


From ba0b9494f16f2cf95964be3020641a822162dae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:21 +0000
Subject: [PATCH 58/79] fix: an output is counted before it can fail and be
 removed

---
 vtelem/stream/writer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vtelem/stream/writer.py b/vtelem/stream/writer.py
index bad508c..5bd60ca 100644
--- a/vtelem/stream/writer.py
+++ b/vtelem/stream/writer.py
@@ -143,7 +143,9 @@ class StreamWriter(QueueDaemon):
             result = self.queue_id
             self.queues[result] = queue
             self.queue_id += 1
-        self.increment_metric("queue_count")
+
+            # counted before it can be removed
+            self.increment_metric("queue_count")
         return result
 
     def registered_queue(
@@ -170,7 +172,9 @@ class StreamWriter(QueueDaemon):
             self.stream_closers[result] = stream_closer
             self.stream_attrs[result]["flush"] = flush
             self.curr_id += 1
-        self.increment_metric("stream_count")
+
+            # counted before it can be removed
+            self.increment_metric("stream_count")
         return result
 
     @contextmanager
-- 
2.43.0


From 86478cdf34ce48ccbd719173d2a248e5c0b1a368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:49 +0000
Subject: [PATCH 59/79] fix: metrics that several threads register, and
 channels added meanwhile, are counted once

---
 vtelem/channel/environment.py   | 18 +++++++++++-------
 vtelem/telemetry/environment.py | 11 ++++++-----
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/vtelem/channel/environment.py b/vtelem/channel/environment.py
index 77f4b1d..485f6b0 100644
--- a/vtelem/channel/environment.py
+++ b/vtelem/channel/environment.py
@@ -82,7 +82,10 @@ class ChannelEnvironment(TimeEntity):
     def register_base_metrics(self, metrics_rate: float) -> None:
         """Register standard environment metric channels."""
 
-        if self.metrics is None:
+        with self.lock:
+            if self.metrics is not None:
+                return
+
             self.metrics = {}
             self.add_metric(
                 "metrics_rate", Primitive.FLOAT, False, (metrics_rate, None)
@@ -113,11 +116,12 @@ class ChannelEnvironment(TimeEntity):
     ) -> None:
         """Add a new, named metric channel"""
 
-        if self.metrics is not None and not self.has_metric(name):
-            self.metrics[name] = self.add_channel(
-                name, instance, float(), track_change, initial, False
-            )
-            self.set_metric_rate(name, self.get_metric("metrics_rate"))
+        with self.lock:
+            if self.metrics is not None and not self.has_metric(name):
+                self.metrics[name] = self.add_channel(
+                    name, instance, float(), track_change, initial, False
+                )
+                self.set_metric_rate(name, self.get_metric("metrics_rate"))
 
     def get_metric(self, name: str) -> Any:
         """Get the value from a metrics channel."""
@@ -218,8 +222,8 @@ class ChannelEnvironment(TimeEntity):
             result = self.channel_registry.add_channel(new_chan)
             assert result[0]
             self.framer.add_channel(new_chan)
+            self.metric_add("channel_count", 1)
 
-        self.metric_add("channel_count", 1)
         return result[1]
 
     def dispatch(self, time: float, should_log: bool = True) -> int:
diff --git a/vtelem/telemetry/environment.py b/vtelem/telemetry/environment.py
index 7d296c1..b546876 100644
--- a/vtelem/telemetry/environment.py
+++ b/vtelem/telemetry/environment.py
@@ -124,11 +124,12 @@ class TelemetryEnvironment(ChannelEnvironment):
     ) -> None:
         """Add a metric based on an enumeration definition."""
 
-        if self.metrics is not None and not self.has_metric(name):
-            self.metrics[name] = self.add_enum_channel(
-                name, enum_name, float(), track_change, initial, False
-            )
-            self.set_metric_rate(name, self.get_metric("metrics_rate"))
+        with self.lock:
+            if self.metrics is not None and not self.has_metric(name):
+                self.metrics[name] = self.add_enum_channel(
+                    name, enum_name, float(), track_change, initial, False
+                )
+                self.set_metric_rate(name, self.get_metric("metrics_rate"))
 
     def set_enum_metric(
         self, name: str, data: str, time: float = None
-- 
2.43.0


From c2080c0236f3f82d59342389f3bb8be860ece18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:24 +0000
Subject: [PATCH 60/79] fix: error responses end with their body

---
 vtelem/classes/http_request_mapper.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index f0409e2..fab53f5 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -112,7 +112,6 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
         self.send_error(
             HTTPStatus.NOT_IMPLEMENTED, "no request-mapper configured"
         )
-        self.end_headers()
         self.close_connection = True
 
     def _no_handle_response(self, command: str) -> None:
@@ -122,7 +121,6 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
 
         msg = f"no request-mapper for '{command}' path '{self.path}'"
         self.send_error(HTTPStatus.NOT_FOUND, msg)
-        self.end_headers()
         self.close_connection = True
 
     def _handle(self, _data: dict = None) -> None:
@@ -161,7 +159,6 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
             reason = " ".join(content.split())
             reason = reason.encode("ascii", "replace").decode("ascii")
             self.send_error(status, reason, content)
-            self.end_headers()
             self.close_connection = True
             return None
 
-- 
2.43.0


From 68243020ac846172cf3c3d22044f9e60de8096d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:51 +0000
Subject: [PATCH 61/79] fix: blank request parameters reach their handler

---
 vtelem/classes/http_request_mapper.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index fab53f5..b6a964f 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -135,7 +135,11 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
         parsed = urllib.parse.urlparse(self.path)  # type: ignore
         self.path = parsed.path
         if parsed.query:
-            data.update(urllib.parse.parse_qs(parsed.query))  # type: ignore
+            data.update(
+                urllib.parse.parse_qs(  # type: ignore
+                    parsed.query, keep_blank_values=True
+                )
+            )
 
         if not hasattr(self.server, "mapper"):
             return self._no_mapper_response()
@@ -338,7 +342,9 @@ def get_post_request_data(request: BaseHTTPRequestHandler) -> dict:
     def url_encoded_parser(request: BaseHTTPRequestHandler, _: dict) -> dict:
         """Parse url-encoded POST request data."""
         field_data = request.rfile.read(length).decode("utf-8")
-        return urllib.parse.parse_qs(field_data)  # type: ignore
+        return urllib.parse.parse_qs(  # type: ignore
+            field_data, keep_blank_values=True
+        )
 
     parsers: dict = {
         "multipart": {"form-data": form_parser},
-- 
2.43.0


From 8daf8fb1f587cac80c9aeb6dd7f673fcfa29a68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:10 +0000
Subject: [PATCH 62/79] fix: content types may be capitalized, boundaries
 quoted or followed by parameters

---
 vtelem/classes/http_request_mapper.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index b6a964f..638c90e 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -199,8 +199,8 @@ def parse_content_type(value: str) -> Opt[dict]:
         types = [x.strip() for x in params[0].split("/")]
         if len(types) == 2 and types[0] and types[1]:
             return {
-                "type": types[0],
-                "subtype": types[1],
+                "type": types[0].lower(),
+                "subtype": types[1].lower(),
                 "params": params[1:],
             }
 
@@ -214,14 +214,11 @@ def get_multipart_boundary(content_type: dict) -> Opt[str]:
     processing of 'multipart' MIME data.
     """
 
-    if (
-        "params" in content_type
-        and isinstance(content_type["params"], list)
-        and len(content_type["params"]) == 1
-    ):
-        boundary_raw = content_type["params"][0].split("=")
-        if len(boundary_raw) == 2 and boundary_raw[0] == "boundary":
-            return boundary_raw[1]
+    if isinstance(content_type.get("params"), list):
+        for param in content_type["params"]:
+            boundary_raw = param.split("=", 1)
+            if len(boundary_raw) == 2 and boundary_raw[0] == "boundary":
+                return dequote(boundary_raw[1])
 
     return None
 
-- 
2.43.0


From 89046d2514b6de1615a8bb6b132b5477787f4cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:30 +0000
Subject: [PATCH 63/79] fix: quoted names of multipart fields may contain
 semicolons

---
 vtelem/classes/http_request_mapper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index 638c90e..05504c9 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -9,6 +9,7 @@ from http import HTTPStatus
 from http.server import BaseHTTPRequestHandler
 import json
 import logging
+import re
 from typing import Callable, Dict, List
 from typing import Optional as Opt
 from typing import Tuple
@@ -299,7 +300,8 @@ def parse_content_disposition(data: str) -> dict:
     """
 
     result = {}
-    items = [x.strip() for x in data.split(";")]
+    # quoted values may contain the separator
+    items = [x.strip() for x in re.findall(r'(?:"[^"]*"|[^;"]|")+', data)]
     if items:
         result["type"] = items[0]
         for param in items[1:]:
-- 
2.43.0


From 39efd56dbe3d3e4a03c161937b2a27ba3ec0df50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:46 +0000
Subject: [PATCH 64/79] fix: the parameters of a path segment belong to the
 path of a request

---
 vtelem/classes/http_request_mapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index 05504c9..500246f 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -133,7 +133,7 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
         data.update(_data)
 
         # parse the request uri
-        parsed = urllib.parse.urlparse(self.path)  # type: ignore
+        parsed = urllib.parse.urlsplit(self.path)  # type: ignore
         self.path = parsed.path
         if parsed.query:
             data.update(
-- 
2.43.0


From 9d29b102399db6bd299b4b77be4e9130894da0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:20 +0000
Subject: [PATCH 65/79] fix: requests are answered completely while handlers
 are added

---
 vtelem/classes/http_request_mapper.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index 500246f..fb7e707 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -44,9 +44,10 @@ class HttpRequestMapper:
             """
 
             handles: dict = {}
-            for method, handlers in self.requests.items():
+            # handlers may be added at the same time
+            for method, handlers in list(self.requests.items()):
                 handles[method] = []
-                for path in handlers.keys():
+                for path in list(handlers):
                     handle_inst = self.handle_data[method][path]
                     handle_data = {"path": path}
                     if handle_inst is not None:
@@ -81,13 +82,13 @@ class HttpRequestMapper:
         """
 
         path = "/" + path.lower()
-        self.requests[request_type][path] = handle
         handle_data = {}
         handle_data["Description"] = description
         handle_data["Content-Type"] = f"{response_type}; charset={charset}"
         if data is not None:
             handle_data.update(data)
         self.handle_data[request_type][path] = handle_data
+        self.requests[request_type][path] = handle
 
 
 # pylint: disable=attribute-defined-outside-init
-- 
2.43.0


From 455ffc9e542b8f164c04d4a573a78fee68636092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:14 +0000
Subject: [PATCH 66/79] fix: requests for an invalid address are answered

---
 vtelem/classes/http_request_mapper.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index fb7e707..9da0145 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -134,7 +134,10 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
         data.update(_data)
 
         # parse the request uri
-        parsed = urllib.parse.urlsplit(self.path)  # type: ignore
+        try:
+            parsed = urllib.parse.urlsplit(self.path)  # type: ignore
+        except ValueError:
+            return self._no_handle_response(self.command)
         self.path = parsed.path
         if parsed.query:
             data.update(
-- 
2.43.0


From ff92bbe78a7fbb2a9d6c36585583938127b4e024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:29 +0000
Subject: [PATCH 67/79] fix: the tcp telemetry service reports its address

---
 vtelem/daemon/tcp_telemetry.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/vtelem/daemon/tcp_telemetry.py b/vtelem/daemon/tcp_telemetry.py
index 16546ad..1ea26b4 100644
--- a/vtelem/daemon/tcp_telemetry.py
+++ b/vtelem/daemon/tcp_telemetry.py
@@ -14,6 +14,7 @@ from typing import Any, Dict, Tuple
 from vtelem.client.tcp import TcpClient
 from vtelem.daemon import DaemonBase
 from vtelem.mtu import DEFAULT_MTU, Host
+from vtelem.registry.service import ServiceRegistry
 from vtelem.stream.writer import QueueClientManager, StreamWriter
 from vtelem.telemetry.environment import TelemetryEnvironment
 
@@ -120,7 +121,15 @@ class TcpTelemetryDaemon(QueueClientManager, DaemonBase):
 
         return self.server.server_address
 
-    def run(self, *_, **__) -> None:
+    def run(
+        self,
+        *_,
+        first_start: bool = False,
+        service_registry: ServiceRegistry = None,
+        **__,
+    ) -> None:
         """Listen for client connections."""
 
+        if first_start and service_registry is not None:
+            service_registry.add(self.name, [self.address])
         self.server.serve_forever(0.1)
-- 
2.43.0


From d3c2cd37ccb0a5339f7afdac3b3ce906f7de0bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:22 +0000
Subject: [PATCH 68/79] fix: a tcp client that connects while the service stops
 isn't kept for ever

---
 vtelem/daemon/tcp_telemetry.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/vtelem/daemon/tcp_telemetry.py b/vtelem/daemon/tcp_telemetry.py
index 1ea26b4..bce1fe6 100644
--- a/vtelem/daemon/tcp_telemetry.py
+++ b/vtelem/daemon/tcp_telemetry.py
@@ -13,6 +13,7 @@ from typing import Any, Dict, Tuple
 # internal
 from vtelem.client.tcp import TcpClient
 from vtelem.daemon import DaemonBase
+from vtelem.enums.daemon import DaemonState
 from vtelem.mtu import DEFAULT_MTU, Host
 from vtelem.registry.service import ServiceRegistry
 from vtelem.stream.writer import QueueClientManager, StreamWriter
@@ -35,7 +36,6 @@ class TcpTelemetryHandler(socketserver.StreamRequestHandler):
         )
 
         daemon: TcpTelemetryDaemon = self.server.daemon  # type: ignore
-        daemon.increment_metric("clients")
 
         # make sure our stream has a name attribute
         stream: BytesIO = self.wfile  # type: ignore
@@ -44,6 +44,10 @@ class TcpTelemetryHandler(socketserver.StreamRequestHandler):
         # add the socket to the stream writer
         writer: StreamWriter = daemon.writer
         with daemon.lock:
+            # the service may have been stopped since this client connected
+            if daemon.get_state() in (DaemonState.STOPPING, DaemonState.IDLE):
+                return
+            daemon.increment_metric("clients")
             stream_id, sem = writer.add_semaphore_stream(stream)
             daemon.client_sems[stream_id] = sem
 
@@ -52,6 +56,8 @@ class TcpTelemetryHandler(socketserver.StreamRequestHandler):
             sem.acquire()  # pylint:disable=consider-using-with
         finally:
             writer.remove_stream(stream_id, False)
+            with daemon.lock:
+                daemon.client_sems.pop(stream_id, None)
             LOG.info(
                 "%s:%d disconnected",
                 self.client_address[0],
@@ -90,10 +96,10 @@ class TcpTelemetryDaemon(QueueClientManager, DaemonBase):
 
             self.server.shutdown()
             with self.lock:
-                closed_clients = list(self.client_sems.keys())
-            for client in closed_clients:
-                self.client_sems[client].release()
-                del self.client_sems[client]
+                closed_clients = list(self.client_sems.values())
+                self.client_sems.clear()
+            for sem in closed_clients:
+                sem.release()
 
         self.function["inject_stop"] = stopper
         self.server.daemon = self  # type: ignore
-- 
2.43.0


From e48cc45436de9ef6851ddea3ac6a6e1d3120af99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:53 +0000
Subject: [PATCH 69/79] fix: a server shuts down while some of its daemons are
 paused or starting

---
 vtelem/telemetry/server.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/vtelem/telemetry/server.py b/vtelem/telemetry/server.py
index b2150ad..68f368b 100644
--- a/vtelem/telemetry/server.py
+++ b/vtelem/telemetry/server.py
@@ -7,6 +7,7 @@ from collections import defaultdict
 from contextlib import contextmanager
 import socket
 import threading
+import time
 from typing import Any, Dict, Iterator
 
 # internal
@@ -58,6 +59,7 @@ class TelemetryServer(HttpDaemon):
 
         self.daemons = DaemonManager()
         self.state_sem = threading.Semaphore(0)
+        self.stop_lock = threading.Lock()
         self.first_start = True
 
         # add the ticker
@@ -213,13 +215,18 @@ class TelemetryServer(HttpDaemon):
     def stop_all(self) -> None:
         """Stop everything."""
 
-        assert self.daemons.perform_all(DaemonOperation.STOP)
+        with self.stop_lock:
+            # daemons that are paused or still starting can't be stopped yet
+            while not self.daemons.perform_all(DaemonOperation.STOP):
+                self.daemons.perform_all(DaemonOperation.UNPAUSE)
+                time.sleep(0.01)
 
-        if self.http_enabled:
-            assert self.perform(DaemonOperation.STOP)
-        self.close()
+            if self.http_enabled:
+                while not self.perform(DaemonOperation.STOP):
+                    time.sleep(0.01)
+            self.close()
 
-        self.udp_clients.remove_all()
+            self.udp_clients.remove_all()
         self.state_sem.release()
 
     @contextmanager
-- 
2.43.0


From 418feb7515f4fe7828a9391fe77319f6d1f6cad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:53 +0000
Subject: [PATCH 70/79] fix: the speed of a server can be changed while not all
 daemons run

---
 vtelem/telemetry/server.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vtelem/telemetry/server.py b/vtelem/telemetry/server.py
index 68f368b..4e17692 100644
--- a/vtelem/telemetry/server.py
+++ b/vtelem/telemetry/server.py
@@ -193,9 +193,10 @@ class TelemetryServer(HttpDaemon):
     def scale_speed(self, scalar: float) -> None:
         """Change the time scaling for the time keeper."""
 
-        assert self.daemons.perform_all(DaemonOperation.PAUSE)
+        # daemons that don't run (any more, or yet) don't have to be paused
+        self.daemons.perform_all(DaemonOperation.PAUSE)
         self.time_keeper.scale(scalar)
-        assert self.daemons.perform_all(DaemonOperation.UNPAUSE)
+        self.daemons.perform_all(DaemonOperation.UNPAUSE)
 
     def start_all(self) -> None:
         """Start everything."""
-- 
2.43.0


From f1515ce37f8fc826dc08e3e217bc04b493276006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:53 +0000
Subject: [PATCH 71/79] fix: the application shuts down if it's interrupted
 while it starts

---
 vtelem/app.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/vtelem/app.py b/vtelem/app.py
index 3abee27..25e98c6 100644
--- a/vtelem/app.py
+++ b/vtelem/app.py
@@ -51,9 +51,14 @@ def entry(args: argparse.Namespace) -> int:
 
     # run until the server shuts down because of timeout, external command, or
     # interruption
-    server.start_all()
-    server.scale_speed(args.time_scale)
-    server.await_shutdown(args.uptime)
+    try:
+        server.start_all()
+        server.scale_speed(args.time_scale)
+        server.await_shutdown(args.uptime)
+    except KeyboardInterrupt:
+        pass
+    finally:
+        server.stop_all()
     return 0
 
 
-- 
2.43.0


From d3e562d09efb746835d197a879da689eba38b4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:53 +0000
Subject: [PATCH 72/79] fix: the addresses of a server's services are free
 after it has shut down

---
 vtelem/daemon/tcp_telemetry.py | 10 ++++++++++
 vtelem/daemon/websocket.py     | 26 ++++++++++++++++++++++++++
 vtelem/telemetry/server.py     |  4 ++++
 3 files changed, 40 insertions(+)

diff --git a/vtelem/daemon/tcp_telemetry.py b/vtelem/daemon/tcp_telemetry.py
index bce1fe6..3fe7683 100644
--- a/vtelem/daemon/tcp_telemetry.py
+++ b/vtelem/daemon/tcp_telemetry.py
@@ -127,6 +127,16 @@ class TcpTelemetryDaemon(QueueClientManager, DaemonBase):
 
         return self.server.server_address
 
+    def close(self) -> bool:
+        """Close the server and clean up its resources."""
+
+        with self.lock:
+            if self.get_state() != DaemonState.IDLE:
+                return False
+
+        self.server.server_close()
+        return True
+
     def run(
         self,
         *_,
diff --git a/vtelem/daemon/websocket.py b/vtelem/daemon/websocket.py
index a0c29ce..85eaa91 100644
--- a/vtelem/daemon/websocket.py
+++ b/vtelem/daemon/websocket.py
@@ -5,6 +5,7 @@ vtelem - An interface for managing websocket servers.
 # built-in
 import asyncio
 import logging
+from threading import Thread
 from typing import Any, Callable, Optional
 
 # third-party
@@ -12,6 +13,7 @@ import websockets
 
 # internal
 from vtelem.daemon.event_loop import EventLoopDaemon
+from vtelem.enums.daemon import DaemonState
 from vtelem.mtu import Host, get_free_tcp_port
 from vtelem.registry.service import ServiceRegistry
 from vtelem.telemetry.environment import TelemetryEnvironment
@@ -122,3 +124,27 @@ class WebsocketDaemon(EventLoopDaemon):
                 self.serving = True
 
         self.function["run_init"] = run_init
+
+    def close(self) -> bool:
+        """Close the server and clean up its resources."""
+
+        with self.lock:
+            if self.get_state() != DaemonState.IDLE:
+                return False
+            server: Any = self.server
+            self.server = None
+            self.serving = False
+
+        if server is not None:
+
+            def closer() -> None:
+                """Close the server with the (now idle) event loop."""
+
+                server.close()
+                self.eloop.run_until_complete(server.wait_closed())
+
+            # the current thread could be running another event loop
+            thread = Thread(target=closer)
+            thread.start()
+            thread.join()
+        return True
diff --git a/vtelem/telemetry/server.py b/vtelem/telemetry/server.py
index 4e17692..d8eea7a 100644
--- a/vtelem/telemetry/server.py
+++ b/vtelem/telemetry/server.py
@@ -22,6 +22,7 @@ from vtelem.daemon.manager import DaemonManager
 from vtelem.daemon.synchronous import Daemon
 from vtelem.daemon.tcp_telemetry import TcpTelemetryDaemon
 from vtelem.daemon.telemetry import TelemetryDaemon
+from vtelem.daemon.websocket import WebsocketDaemon
 from vtelem.daemon.websocket_telemetry import WebsocketTelemetryDaemon
 from vtelem.factories.daemon_manager import create_daemon_manager_commander
 from vtelem.factories.telemetry_environment import create_channel_commander
@@ -226,6 +227,9 @@ class TelemetryServer(HttpDaemon):
                 while not self.perform(DaemonOperation.STOP):
                     time.sleep(0.01)
             self.close()
+            for daemon in list(self.daemons.daemons.values()):
+                if isinstance(daemon, (TcpTelemetryDaemon, WebsocketDaemon)):
+                    daemon.close()
 
             self.udp_clients.remove_all()
         self.state_sem.release()
-- 
2.43.0


From 912314324f9e5087f8b35f0beb08590bf406daca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:34 +0000
Subject: [PATCH 73/79] fix: a failing stream that isn't a udp client doesn't
 end the stream writer

---
 vtelem/classes/udp_client_manager.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vtelem/classes/udp_client_manager.py b/vtelem/classes/udp_client_manager.py
index 244b675..64910c2 100644
--- a/vtelem/classes/udp_client_manager.py
+++ b/vtelem/classes/udp_client_manager.py
@@ -40,6 +40,9 @@ class UdpClientManager(LockEntity):
             """
 
             with self.lock:
+                # the writer's other streams aren't ours to close
+                if stream_id not in self.clients:
+                    return
                 sock, sock_file = self.clients[stream_id]
                 del self.clients[stream_id]
             name = sock.getsockname()
-- 
2.43.0


From 85a3299353f40b85b9efe4523bad9849ae53d551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:34 +0000
Subject: [PATCH 74/79] fix: a tcp client that doesn't read doesn't block the
 stream writer

---
 vtelem/daemon/tcp_telemetry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vtelem/daemon/tcp_telemetry.py b/vtelem/daemon/tcp_telemetry.py
index 3fe7683..cde2f2e 100644
--- a/vtelem/daemon/tcp_telemetry.py
+++ b/vtelem/daemon/tcp_telemetry.py
@@ -11,6 +11,7 @@ from threading import Semaphore
 from typing import Any, Dict, Tuple
 
 # internal
+from vtelem import DEFAULT_TIMEOUT
 from vtelem.client.tcp import TcpClient
 from vtelem.daemon import DaemonBase
 from vtelem.enums.daemon import DaemonState
@@ -25,6 +26,9 @@ LOG = logging.getLogger(__name__)
 class TcpTelemetryHandler(socketserver.StreamRequestHandler):
     """A stream-request handler for serving telemetry frames to clients."""
 
+    # a client that doesn't read must not block the others
+    timeout = DEFAULT_TIMEOUT
+
     def handle(self) -> None:
         """
         Send frames to the connected client until they close the connection,
-- 
2.43.0


From f9cec483ea666b5eee93af09a7d94f4467470ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:34 +0000
Subject: [PATCH 75/79] fix: the clients of a websocket telemetry service don't
 block each other

---
 vtelem/daemon/websocket_telemetry.py | 31 +++++++++++++++++-----------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/vtelem/daemon/websocket_telemetry.py b/vtelem/daemon/websocket_telemetry.py
index d2f068e..f916b80 100644
--- a/vtelem/daemon/websocket_telemetry.py
+++ b/vtelem/daemon/websocket_telemetry.py
@@ -3,7 +3,8 @@ vtelem - An interface for managing websocket servers that serve telemetry data.
 """
 
 # built-in
-from queue import Queue
+import asyncio
+from queue import Empty, Queue
 from typing import Any, Optional, Tuple
 
 # third-party
@@ -14,10 +15,12 @@ from vtelem.client.websocket import WebsocketClient
 from vtelem.daemon.websocket import WebsocketDaemon
 from vtelem.frame.channel import ChannelFrame
 from vtelem.mtu import DEFAULT_MTU, Host
-from vtelem.stream import queue_get
+from vtelem.stream import queue_get  # noqa: F401 (used by others)
 from vtelem.stream.writer import QueueClientManager, StreamWriter
 from vtelem.telemetry.environment import TelemetryEnvironment
 
+POLL_PERIOD = 0.01
+
 
 class WebsocketTelemetryDaemon(QueueClientManager, WebsocketDaemon):
     """A class for creating telemetry-serving websocket servers."""
@@ -42,20 +45,24 @@ class WebsocketTelemetryDaemon(QueueClientManager, WebsocketDaemon):
             queue_id, frame_queue = self.add_client_queue(
                 Host(*websocket.remote_address)
             )
-            should_continue = True
+            closed = asyncio.ensure_future(websocket.wait_closed())
 
             try:
-                while should_continue:
+                while not closed.done():
+                    # other connections share our event loop
                     try:
-                        frame: Optional[ChannelFrame] = queue_get(frame_queue)
-                        if frame is None:
-                            should_continue = False
-                            break
-
-                        await websocket.send(frame.with_size_header()[0])
-                    except WebSocketException:
-                        should_continue = False
+                        frame: Optional[ChannelFrame] = frame_queue.get(False)
+                    except Empty:
+                        await asyncio.sleep(POLL_PERIOD)
+                        continue
+                    if frame is None:
+                        break
+                    await websocket.send(frame.with_size_header()[0])
+                    await asyncio.sleep(0)
+            except WebSocketException:
+                pass
             finally:
+                closed.cancel()
                 self.writer.remove_queue(queue_id, False)
 
         WebsocketDaemon.__init__(
-- 
2.43.0


From aec64e6587eca90f2c2c0df1c41ff74a8e40926c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:34 +0000
Subject: [PATCH 76/79] fix: stopping an event loop wakes up the tasks it
 cancels

---
 vtelem/daemon/event_loop.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/vtelem/daemon/event_loop.py b/vtelem/daemon/event_loop.py
index 7b09a3d..a983979 100644
--- a/vtelem/daemon/event_loop.py
+++ b/vtelem/daemon/event_loop.py
@@ -44,10 +44,17 @@ class EventLoopDaemon(DaemonBase):
             with self.lock:
                 waits = self.wait_count
 
-            # signal active tasks to cancel
-            tasks = asyncio.all_tasks(loop=self.eloop)
-            for task in tasks:
-                task.cancel()
+            # signal active tasks to cancel, which has to happen in the loop
+            def canceller() -> None:
+                """Cancel every task."""
+
+                for task in asyncio.all_tasks(loop=self.eloop):
+                    task.cancel()
+                cancelled.set()
+
+            cancelled = Event()
+            self.eloop.call_soon_threadsafe(canceller)
+            cancelled.wait(stop_grace)
 
             # allow 'stop_grace' amount of time to pass while we wait for tasks
             # to complete, after this we'll stop the event loop and wait for
-- 
2.43.0


From 82f5892f59db7e3454f00999c508144a2dfa4a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:11 +0000
Subject: [PATCH 77/79] fix: a socket client whose stream ended can be started
 again

---
 vtelem/client/socket.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/vtelem/client/socket.py b/vtelem/client/socket.py
index 9ba3e8e..73c45a3 100644
--- a/vtelem/client/socket.py
+++ b/vtelem/client/socket.py
@@ -62,7 +62,11 @@ class SocketClient(DaemonBase, TelemetryClient):
             queue that frames are over.
             """
             LOG.info("%s: closing socket reader", self.name)
-            stopper()
+            try:
+                stopper()
+            except OSError as exc:
+                # our peer may already be gone
+                LOG.info("%s: %s", self.name, exc)
             self.close()
 
         self.function["inject_stop"] = stop_server
@@ -108,3 +112,7 @@ class SocketClient(DaemonBase, TelemetryClient):
             except OSError as exc:
                 LOG.error("%s: %s", self.name, exc)
                 break
+
+        # a stream that ended can't be used again if we're started again
+        if self.state != DaemonState.STOPPING:
+            self.close()
-- 
2.43.0


From b69e33a2617be8586135289a9f5ce960be0ad6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:11 +0000
Subject: [PATCH 78/79] fix: a websocket client that doesn't read doesn't block
 the stream writer

---
 vtelem/stream/writer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vtelem/stream/writer.py b/vtelem/stream/writer.py
index 5bd60ca..e3f82cc 100644
--- a/vtelem/stream/writer.py
+++ b/vtelem/stream/writer.py
@@ -264,7 +264,9 @@ class QueueClientManager(LockEntity):
         name = None
         if addr is not None:
             name = f"{self.name}.{addr.address}:{addr.port}"
-        queue_id, frame_queue = self.writer.registered_queue(name)
+
+        # a slow client must not block the writer, and thereby all others
+        queue_id, frame_queue = self.writer.registered_queue(name, 0)
         with self.lock:
             self.active_client_queues.append(queue_id)
         return queue_id, frame_queue
-- 
2.43.0


From 4bf0c8e40bb13c74d516ebac30d98ca090a597b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:06 +0000
Subject: [PATCH 79/79] fix: a server whose frame queue is full can be stopped

---
 vtelem/telemetry/server.py | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/vtelem/telemetry/server.py b/vtelem/telemetry/server.py
index d8eea7a..ee45d5d 100644
--- a/vtelem/telemetry/server.py
+++ b/vtelem/telemetry/server.py
@@ -5,6 +5,7 @@ vtelem - An interface for creating telemetered applications.
 # built-in
 from collections import defaultdict
 from contextlib import contextmanager
+from queue import Empty
 import socket
 import threading
 import time
@@ -15,7 +16,7 @@ from vtelem.channel.group_registry import ChannelGroupRegistry
 from vtelem.classes.http_request_mapper import MapperAwareRequestHandler
 from vtelem.classes.time_keeper import TimeKeeper
 from vtelem.classes.udp_client_manager import UdpClientManager
-from vtelem.daemon import DaemonOperation
+from vtelem.daemon import DaemonOperation, DaemonState
 from vtelem.daemon.command_queue import CommandQueueDaemon
 from vtelem.daemon.http import HttpDaemon
 from vtelem.daemon.manager import DaemonManager
@@ -214,10 +215,42 @@ class TelemetryServer(HttpDaemon):
 
         self.state_sem.release()
 
+    @contextmanager
+    def frames_discarded(self) -> Iterator[None]:
+        """
+        Discard frames that nobody will write, a producer that waits for space
+        in the frame queue could never be stopped.
+        """
+
+        telem = self.daemons.get("telemetry")
+        assert isinstance(telem, TelemetryDaemon)
+        queue = telem.frame_queue
+        writer = self.daemons.get("stream")
+        assert writer is not None
+        stopped = threading.Event()
+
+        def discarder() -> None:
+            """Empty the frame queue, once the writer isn't running."""
+
+            while not stopped.wait(0.01):
+                while writer.get_state() == DaemonState.IDLE:
+                    try:
+                        queue.get_nowait()
+                    except Empty:
+                        break
+
+        thread = threading.Thread(target=discarder)
+        thread.start()
+        try:
+            yield
+        finally:
+            stopped.set()
+            thread.join()
+
     def stop_all(self) -> None:
         """Stop everything."""
 
-        with self.stop_lock:
+        with self.stop_lock, self.frames_discarded():
             # daemons that are paused or still starting can't be stopped yet
             while not self.daemons.perform_all(DaemonOperation.STOP):
                 self.daemons.perform_all(DaemonOperation.UNPAUSE)
-- 
2.43.0

