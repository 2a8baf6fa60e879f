From 87d7c65e704e3e5063e578cc539729acd328c432 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:45 +0000
Subject: [PATCH 1/9] fix: Anycast: fail blocked senders when the channel is
 closed

A sender blocked on a full channel kept waiting after close() and, if space
was freed later, inserted its message after receivers could already have been
told that the channel was stopped, so send() succeeded but the message was
lost. If nobody drained the channel, the sender was blocked forever.
---
 src/frequenz/channels/_anycast.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/frequenz/channels/_anycast.py b/src/frequenz/channels/_anycast.py
index 2ea0515..7a70389 100644
--- a/src/frequenz/channels/_anycast.py
+++ b/src/frequenz/channels/_anycast.py
@@ -350,6 +350,11 @@ class _Sender(Sender[_T]):
             while len(self._channel._deque) == self._channel._deque.maxlen:
                 async with self._channel._send_cv:
                     await self._channel._send_cv.wait()
+                # The channel could have been closed while waiting for free space.
+                if self._channel._closed:
+                    raise SenderError(
+                        "The channel was closed", self
+                    ) from ChannelClosedError(self._channel)
             _logger.info(
                 "Anycast channel [%s] has space again, resuming the blocked sender",
                 self,
-- 
2.43.0


From dd8a009f190da155e75be03f73deda914c10447a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:45 +0000
Subject: [PATCH 2/9] fix: Merger: don't lose messages when a merged receiver
 fails

An error in one of the merged receivers was raised by ready() while processing
the completed tasks, so messages of other receivers that completed at the same
time were lost and neither the failed nor those receivers were awaited again.
Keep the error in the results, so it is raised by consume() instead.
---
 src/frequenz/channels/_merge.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/frequenz/channels/_merge.py b/src/frequenz/channels/_merge.py
index 6be4302..26a8e10 100644
--- a/src/frequenz/channels/_merge.py
+++ b/src/frequenz/channels/_merge.py
@@ -120,7 +120,7 @@ class Merger(Receiver[ReceiverMessageT_co]):
             asyncio.create_task(anext(recv), name=name)
             for name, recv in self._receivers.items()
         }
-        self._results: deque[ReceiverMessageT_co] = deque(maxlen=len(self._receivers))
+        self._results: deque[asyncio.Task[Any]] = deque(maxlen=len(self._receivers))
 
     def __del__(self) -> None:
         """Finalize this merger."""
@@ -165,8 +165,8 @@ class Merger(Receiver[ReceiverMessageT_co]):
                 # if channel is closed, don't add a task for it again.
                 if isinstance(item.exception(), StopAsyncIteration):
                     continue
-                result = item.result()
-                self._results.append(result)
+                # Errors are kept too, they are raised when consuming the result.
+                self._results.append(item)
                 self._pending.add(
                     asyncio.create_task(anext(self._receivers[name]), name=name)
                 )
@@ -186,7 +186,8 @@ class Merger(Receiver[ReceiverMessageT_co]):
 
         assert self._results, "`consume()` must be preceded by a call to `ready()`"
 
-        return self._results.popleft()
+        result: ReceiverMessageT_co = self._results.popleft().result()
+        return result
 
     def __str__(self) -> str:
         """Return a string representation of this receiver."""
-- 
2.43.0


From fa8b8b95cb71e3f1dc664d8213d23e2ad19f894d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:45 +0000
Subject: [PATCH 3/9] fix: Merger: don't cancel a waiting consumer when calling
 stop()

Calling stop() while a task was waiting in ready() made the CancelledError of
the internal tasks propagate to that task, as if it was cancelled itself, and
could leave behind a new internal task that was never cancelled.
---
 src/frequenz/channels/_merge.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/frequenz/channels/_merge.py b/src/frequenz/channels/_merge.py
index 26a8e10..c199eed 100644
--- a/src/frequenz/channels/_merge.py
+++ b/src/frequenz/channels/_merge.py
@@ -130,10 +130,12 @@ class Merger(Receiver[ReceiverMessageT_co]):
 
     async def stop(self) -> None:
         """Stop this merger."""
-        for task in self._pending:
+        # Take the tasks away before suspending, so a concurrent call to `ready()` can
+        # see that this merger was stopped.
+        pending, self._pending = self._pending, set()
+        for task in pending:
             task.cancel()
-        await asyncio.gather(*self._pending, return_exceptions=True)
-        self._pending = set()
+        await asyncio.gather(*pending, return_exceptions=True)
 
     async def ready(self) -> bool:
         """Wait until the receiver is ready with a message or an error.
@@ -157,9 +159,13 @@ class Merger(Receiver[ReceiverMessageT_co]):
             if len(self._pending) == 0:
                 return False
 
-            done, self._pending = await asyncio.wait(
+            done, _ = await asyncio.wait(
                 self._pending, return_when=asyncio.FIRST_COMPLETED
             )
+            # If the merger was stopped while waiting, then there is nothing pending
+            # anymore and the (cancelled) tasks must be ignored.
+            done &= self._pending
+            self._pending -= done
             for item in done:
                 name = item.get_name()
                 # if channel is closed, don't add a task for it again.
-- 
2.43.0


From 73a67fefa5a48d345020c36eccb86fc4aba96731 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:45 +0000
Subject: [PATCH 4/9] fix: Event: don't report a stopped event as inactive
 while it is still set

A set event that was stopped before being consumed still produces a message,
but ready() returned False, so for example select() never reported the stop.
---
 src/frequenz/channels/event.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frequenz/channels/event.py b/src/frequenz/channels/event.py
index 3f3b207..d4adecc 100644
--- a/src/frequenz/channels/event.py
+++ b/src/frequenz/channels/event.py
@@ -148,9 +148,9 @@ class Event(_receiver.Receiver[None]):
             Whether this receiver is still running.
         """
         if self._is_stopped:
-            return False
+            return self._is_set
         await self._event.wait()
-        return not self._is_stopped
+        return self._is_set or not self._is_stopped
 
     def consume(self) -> None:
         """Consume the event.
-- 
2.43.0


From 5da7f363b9749cb2fbe62e42feefcf43cf49c1f5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:45 +0000
Subject: [PATCH 5/9] fix: FileWatcher: return False from ready() when the
 watch ends

ready() returned True even when there was nothing to consume because the watch
was stopped, so for example select() reported the stop twice.
---
 src/frequenz/channels/file_watcher.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/frequenz/channels/file_watcher.py b/src/frequenz/channels/file_watcher.py
index 57c3553..860c0bd 100644
--- a/src/frequenz/channels/file_watcher.py
+++ b/src/frequenz/channels/file_watcher.py
@@ -185,6 +185,7 @@ class FileWatcher(Receiver[Event]):
             self._changes = await anext(self._awatch)
         except StopAsyncIteration as err:
             self._awatch_stopped_exc = err
+            return False
 
         return True
 
-- 
2.43.0


From fdd5b677d4eb0fe372e38cba9c8753a6aa2ae437 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:45 +0000
Subject: [PATCH 6/9] fix: Broadcast: use a logger that is part of the logging
 hierarchy

A directly instantiated Logger is not attached to the root logger, so overflow
warnings ignored any logging configuration.
---
 src/frequenz/channels/_broadcast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frequenz/channels/_broadcast.py b/src/frequenz/channels/_broadcast.py
index b217aa0..96465e3 100644
--- a/src/frequenz/channels/_broadcast.py
+++ b/src/frequenz/channels/_broadcast.py
@@ -16,7 +16,7 @@ from ._generic import ChannelMessageT
 from ._receiver import Receiver, ReceiverStoppedError
 from ._sender import Sender, SenderError
 
-_logger = logging.Logger(__name__)
+_logger = logging.getLogger(__name__)
 
 
 class Broadcast(Generic[ChannelMessageT]):
-- 
2.43.0


From b623dd88962572fc531e91d368e8c22f6df807d8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:45 +0000
Subject: [PATCH 7/9] fix: Broadcast: resend the latest message also when it is
 None

None is a valid message, but it was not resent to new receivers because it was
also used to represent that there is no latest message.
---
 src/frequenz/channels/_broadcast.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/frequenz/channels/_broadcast.py b/src/frequenz/channels/_broadcast.py
index 96465e3..93f1006 100644
--- a/src/frequenz/channels/_broadcast.py
+++ b/src/frequenz/channels/_broadcast.py
@@ -19,6 +19,14 @@ from ._sender import Sender, SenderError
 _logger = logging.getLogger(__name__)
 
 
+class _Empty:
+    """A sentinel to indicate that no message was sent yet."""
+
+    def __repr__(self) -> str:
+        """Return a string with the internal representation of this instance."""
+        return "<empty>"
+
+
 class Broadcast(Generic[ChannelMessageT]):
     """A channel that deliver all messages to all receivers.
 
@@ -213,7 +221,7 @@ class Broadcast(Generic[ChannelMessageT]):
         self._closed: bool = False
         """Whether the channel is closed."""
 
-        self._latest: ChannelMessageT | None = None
+        self._latest: ChannelMessageT | _Empty = _Empty()
         """The latest message sent to the channel."""
 
         self.resend_latest: bool = resend_latest
@@ -257,7 +265,7 @@ class Broadcast(Generic[ChannelMessageT]):
         [receive()][frequenz.channels.Receiver.receive] calls will return `None`
         immediately.
         """
-        self._latest = None
+        self._latest = _Empty()
         self._closed = True
         async with self._recv_cv:
             self._recv_cv.notify_all()
@@ -284,7 +292,7 @@ class Broadcast(Generic[ChannelMessageT]):
         """
         recv: _Receiver[ChannelMessageT] = _Receiver(self, name=name, limit=limit)
         self._receivers[hash(recv)] = weakref.ref(recv)
-        if self.resend_latest and self._latest is not None:
+        if self.resend_latest and not isinstance(self._latest, _Empty):
             recv.enqueue(self._latest)
         return recv
 
-- 
2.43.0


From 3c41457215f650e76ec13c18af5ea5971ab53606 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:35 +0000
Subject: [PATCH 8/9] fix: Timer: reject a negative start_delay also without
 auto_start

The constructor documents ValueError for a negative start delay, but with
auto_start=False it was silently accepted.
---
 src/frequenz/channels/timer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frequenz/channels/timer.py b/src/frequenz/channels/timer.py
index 683db7b..a68bc77 100644
--- a/src/frequenz/channels/timer.py
+++ b/src/frequenz/channels/timer.py
@@ -509,7 +509,7 @@ class Timer(Receiver[timedelta]):
                 f"The `interval` must be positive and at least 1 microsecond, not {interval}"
             )
 
-        if start_delay > timedelta(0) and auto_start is False:
+        if start_delay != timedelta(0) and auto_start is False:
             raise ValueError(
                 "`auto_start` must be `True` if a `start_delay` is specified"
             )
-- 
2.43.0


From d6d34afa6f7a346d2d228786da852c45a30c7358 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:00 +0000
Subject: [PATCH 9/9] fix: do not lose a wake-up when a waiting Anycast task is
 cancelled

Before Python 3.13 a task notified through a Condition that is cancelled
before it runs takes the notification with it.  With two receivers (or two
senders) blocked on an Anycast channel, cancelling the notified one left the
other one waiting although there was a message (or space).
---
 src/frequenz/channels/_anycast.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/frequenz/channels/_anycast.py b/src/frequenz/channels/_anycast.py
index 7a70389..48cce3b 100644
--- a/src/frequenz/channels/_anycast.py
+++ b/src/frequenz/channels/_anycast.py
@@ -6,7 +6,7 @@
 from __future__ import annotations
 
 import logging
-from asyncio import Condition
+from asyncio import CancelledError, Condition
 from collections import deque
 from typing import Generic, TypeVar
 
@@ -349,7 +349,13 @@ class _Sender(Sender[_T]):
             )
             while len(self._channel._deque) == self._channel._deque.maxlen:
                 async with self._channel._send_cv:
-                    await self._channel._send_cv.wait()
+                    try:
+                        await self._channel._send_cv.wait()
+                    except CancelledError:
+                        # Before Python 3.13 a notification is lost if the notified task is
+                        # cancelled before it runs, so pass it on to the next waiting sender.
+                        self._channel._send_cv.notify(1)
+                        raise
                 # The channel could have been closed while waiting for free space.
                 if self._channel._closed:
                     raise SenderError(
@@ -415,7 +421,13 @@ class _Receiver(Receiver[_T]):
             if self._channel._closed:
                 return False
             async with self._channel._recv_cv:
-                await self._channel._recv_cv.wait()
+                try:
+                    await self._channel._recv_cv.wait()
+                except CancelledError:
+                    # Before Python 3.13 a notification is lost if the notified task is
+                    # cancelled before it runs, so pass it on to the next waiting receiver.
+                    self._channel._recv_cv.notify(1)
+                    raise
         self._next = self._channel._deque.popleft()
         async with self._channel._send_cv:
             self._channel._send_cv.notify(1)
-- 
2.43.0

