From 0dab38543dd7fa8e0bfe873e8d735a36ccbc6564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:15 +0000
Subject: [PATCH 01/31] fix: do not draw snapshot ids from the application's
 global random generator

---
 src/deep/api/tracepoint/eventsnapshot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/deep/api/tracepoint/eventsnapshot.py b/src/deep/api/tracepoint/eventsnapshot.py
index 6f2f04c..c97a064 100644
--- a/src/deep/api/tracepoint/eventsnapshot.py
+++ b/src/deep/api/tracepoint/eventsnapshot.py
@@ -15,7 +15,7 @@
 
 """Types for the captured data."""
 
-import random
+import uuid
 from typing import Optional, Dict, List
 
 from deep.api.attributes import BoundedAttributes
@@ -36,7 +36,8 @@ class EventSnapshot:
         :param frames: the captured frames
         :param var_lookup: the captured variables.
         """
-        self._id = random.getrandbits(128)
+        # do not use the global random here, drawing from it changes the sequence the application sees
+        self._id = uuid.uuid4().int
         self._tracepoint = tracepoint
         self._var_lookup: Dict[str, 'Variable'] = var_lookup
         self._ts_nanos = ts
-- 
2.43.0


From 44379b5c4e69dc5c3be2a8c7efb1fa419c9181ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 02/31] fix: evaluate expressions against the globals of the
 paused frame, not the agent module

---
 src/deep/processor/context/trigger_context.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/deep/processor/context/trigger_context.py b/src/deep/processor/context/trigger_context.py
index 2f6db21..7c9f590 100644
--- a/src/deep/processor/context/trigger_context.py
+++ b/src/deep/processor/context/trigger_context.py
@@ -151,7 +151,11 @@ class TriggerContext:
         :return: the result of the expression, or the exception that was raised.
         """
         try:
-            return eval(expression, None, self.__frame.f_locals)
+            # evaluate in the scope of the frame, not the scope of this module. We use a copy, so that nested scopes
+            # (e.g. generator expressions) can see the locals, and the expression cannot rebind the application names.
+            scope = dict(getattr(self.__frame, 'f_globals', {}))
+            scope.update(self.__frame.f_locals)
+            return eval(expression, scope)
         except BaseException as e:
             return e
 
-- 
2.43.0


From 48b8b35c4f8b3b8917ac65595e3f8162953d376c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:56 +0000
Subject: [PATCH 03/31] fix: treat an expression that fails as a failure, not
 as a result that is an exception

---
 src/deep/processor/context/action_context.py  |  8 ++++++--
 src/deep/processor/context/metric_action.py   |  4 ++--
 src/deep/processor/context/trigger_context.py | 16 +++++++---------
 3 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/deep/processor/context/action_context.py b/src/deep/processor/context/action_context.py
index 06b9de9..e876ea7 100644
--- a/src/deep/processor/context/action_context.py
+++ b/src/deep/processor/context/action_context.py
@@ -128,8 +128,12 @@ class ActionContext(abc.ABC):
             return False
         if self.location_action.condition is None or len(self.location_action.condition.strip()) == 0:
             return True
-        result = self.trigger_context.evaluate_expression(self.location_action.condition)
-        return str2bool(str(result))
+        try:
+            result = self.trigger_context.evaluate_expression(self.location_action.condition)
+            return str2bool(str(result))
+        except BaseException:
+            logging.exception("Error evaluating condition %s", self.location_action.condition)
+            return False
 
 
 class NoActionContext(ActionContext):
diff --git a/src/deep/processor/context/metric_action.py b/src/deep/processor/context/metric_action.py
index 2c5cad2..1671a6c 100644
--- a/src/deep/processor/context/metric_action.py
+++ b/src/deep/processor/context/metric_action.py
@@ -58,7 +58,7 @@ class MetricActionContext(ActionContext):
         if metric.expression:
             try:
                 metric_value = float(self.trigger_context.evaluate_expression(metric.expression))
-            except Exception:
+            except BaseException:
                 deep.logging.exception("Cannot process metric expression %s", metric.expression)
 
         labels = {}
@@ -68,7 +68,7 @@ class MetricActionContext(ActionContext):
                 if label.expression:
                     try:
                         value = str(self.trigger_context.evaluate_expression(label.expression))
-                    except Exception:
+                    except BaseException:
                         deep.logging.exception("Cannot process metric label expression %s: %s", key, label.expression)
                         value = 'expression failed'
                 else:
diff --git a/src/deep/processor/context/trigger_context.py b/src/deep/processor/context/trigger_context.py
index 7c9f590..4123c18 100644
--- a/src/deep/processor/context/trigger_context.py
+++ b/src/deep/processor/context/trigger_context.py
@@ -148,16 +148,14 @@ class TriggerContext:
         Evaluate an expression to a value.
 
         :param expression: the expression
-        :return: the result of the expression, or the exception that was raised.
+        :return: the result of the expression
+        :raises: whatever the expression raised
         """
-        try:
-            # evaluate in the scope of the frame, not the scope of this module. We use a copy, so that nested scopes
-            # (e.g. generator expressions) can see the locals, and the expression cannot rebind the application names.
-            scope = dict(getattr(self.__frame, 'f_globals', {}))
-            scope.update(self.__frame.f_locals)
-            return eval(expression, scope)
-        except BaseException as e:
-            return e
+        # evaluate in the scope of the frame, not the scope of this module. We use a copy, so that nested scopes
+        # (e.g. generator expressions) can see the locals, and the expression cannot rebind the application names.
+        scope = dict(getattr(self.__frame, 'f_globals', {}))
+        scope.update(self.__frame.f_locals)
+        return eval(expression, scope)
 
     def attach_result(self, result: ActionResult):
         """
-- 
2.43.0


From 1222e187b2cb21c38a860a54bd881553201b7f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:29 +0000
Subject: [PATCH 04/31] fix: only configure the deep logger, leave the root
 logger and its handlers to the application

Starting deep replaced the handlers and the level of the root logger, and parts of deep logged directly to the root
logger, so the log output of the application changed when deep was attached.
---
 src/deep/config/tracepoint_config.py         |  2 +-
 src/deep/logging/__init__.py                 | 20 ++++++++++-----
 src/deep/logging/logging.conf                | 27 --------------------
 src/deep/processor/context/action_context.py |  2 +-
 src/deep/push/__init__.py                    |  4 +--
 src/deep/task/__init__.py                    |  3 ++-
 src/deep/utils.py                            |  3 ++-
 7 files changed, 22 insertions(+), 39 deletions(-)
 delete mode 100644 src/deep/logging/logging.conf

diff --git a/src/deep/config/tracepoint_config.py b/src/deep/config/tracepoint_config.py
index e976b5b..3861f65 100644
--- a/src/deep/config/tracepoint_config.py
+++ b/src/deep/config/tracepoint_config.py
@@ -16,10 +16,10 @@
 """Maintain the current config of the tracepoints."""
 
 import abc
-import logging
 import uuid
 from typing import Dict, List, TYPE_CHECKING
 
+from deep import logging
 from deep.api.tracepoint.tracepoint_config import MetricDefinition
 
 from deep.api.tracepoint.trigger import build_trigger
diff --git a/src/deep/logging/__init__.py b/src/deep/logging/__init__.py
index 3304150..7957acf 100644
--- a/src/deep/logging/__init__.py
+++ b/src/deep/logging/__init__.py
@@ -17,7 +17,7 @@
 
 import logging
 import logging.config
-import os
+import sys
 
 
 def warning(msg, *args, **kwargs):
@@ -82,9 +82,17 @@ def init(cfg=None):
 
     :param cfg: the config for deep.
     """
-    log_conf = "%s/logging.conf" % os.path.dirname(os.path.realpath(__file__))
-
     if cfg is not None and cfg.LOGGING_CONF:
-        log_conf = cfg.LOGGING_CONF
-
-    logging.config.fileConfig(fname=log_conf, disable_existing_loggers=False)
+        logging.config.fileConfig(fname=cfg.LOGGING_CONF, disable_existing_loggers=False)
+        return
+
+    # by default only configure the logger we own, the application owns the root logger and any other handlers
+    handler = logging.StreamHandler(sys.stdout)
+    handler.setLevel(logging.DEBUG)
+    handler.setFormatter(logging.Formatter("%(asctime)s - %(name)s - %(levelname)s - %(message)s"))
+    logger = logging.getLogger("deep")
+    logger.setLevel(logging.DEBUG)
+    logger.propagate = False
+    for old_handler in list(logger.handlers):
+        logger.removeHandler(old_handler)
+    logger.addHandler(handler)
diff --git a/src/deep/logging/logging.conf b/src/deep/logging/logging.conf
deleted file mode 100644
index bf7c1c5..0000000
--- a/src/deep/logging/logging.conf
+++ /dev/null
@@ -1,27 +0,0 @@
-[loggers]
-keys=root,deep
-
-[handlers]
-keys=consoleHandler
-
-[formatters]
-keys=deepFormatter
-
-[logger_root]
-level=DEBUG
-handlers=consoleHandler
-
-[logger_deep]
-level=DEBUG
-handlers=consoleHandler
-qualname=deep
-propagate=0
-
-[handler_consoleHandler]
-class=StreamHandler
-level=DEBUG
-formatter=deepFormatter
-args=(sys.stdout,)
-
-[formatter_deepFormatter]
-format=%(asctime)s - %(name)s - %(levelname)s - %(message)s
\ No newline at end of file
diff --git a/src/deep/processor/context/action_context.py b/src/deep/processor/context/action_context.py
index e876ea7..2627f93 100644
--- a/src/deep/processor/context/action_context.py
+++ b/src/deep/processor/context/action_context.py
@@ -33,7 +33,7 @@ from typing import Tuple, TYPE_CHECKING, Dict
 
 import deep.logging
 from deep.api.tracepoint.eventsnapshot import WATCH_SOURCE_CAPTURE
-from deep.logging import logging
+from deep import logging
 from deep.api.tracepoint import WatchResult, Variable
 from deep.processor.variable_set_processor import VariableSetProcessor
 from deep.utils import str2bool
diff --git a/src/deep/push/__init__.py b/src/deep/push/__init__.py
index 7f1e372..d90a90e 100644
--- a/src/deep/push/__init__.py
+++ b/src/deep/push/__init__.py
@@ -21,8 +21,6 @@ have type definitions that work in IDE. It also makes it easier to deal with age
 having local types we can modify.
 """
 
-import logging
-
 # noinspection PyUnresolvedReferences
 from deepproto.proto.common.v1.common_pb2 import KeyValue
 # noinspection PyUnresolvedReferences
@@ -31,6 +29,8 @@ from deepproto.proto.tracepoint.v1.tracepoint_pb2 import Snapshot, TracePointCon
 
 from .push_service import PushService
 
+from deep import logging
+
 __all__ = [PushService.__name__]
 
 from ..api.tracepoint import TracePointConfig as TrPoCo, EventSnapshot, StackFrame as StFr, WatchResult as WaRe, \
diff --git a/src/deep/task/__init__.py b/src/deep/task/__init__.py
index 3257b37..aa51300 100644
--- a/src/deep/task/__init__.py
+++ b/src/deep/task/__init__.py
@@ -15,11 +15,12 @@
 
 """Provides processing options for tasks on background threads."""
 
-import logging
 import threading
 from concurrent.futures import Future
 from concurrent.futures import ThreadPoolExecutor
 
+from deep import logging
+
 
 class IllegalStateException(BaseException):
     """This is raised when we are in an incompatible state."""
diff --git a/src/deep/utils.py b/src/deep/utils.py
index 9927abe..43dc551 100644
--- a/src/deep/utils.py
+++ b/src/deep/utils.py
@@ -15,10 +15,11 @@
 
 """A collection of util functions to perform common or repeated actions."""
 
-import logging
 import time
 from threading import Event, Thread
 
+from deep import logging
+
 
 def snapshot_id_as_hex_str(snapshot_id):
     """Convert a snapshot if to a hex string."""
-- 
2.43.0


From 5d2cba3e2b93b71755a1ec2a4bdb4ca4d8c4e7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:53 +0000
Subject: [PATCH 05/31] fix: never raise from the trace function

Trigger matching, callback processing and the logging of failures were not guarded, any failure in these was raised
into the application and python then removed the trace function from the thread.
---
 src/deep/processor/context/trigger_context.py |  8 +++--
 src/deep/processor/trigger_handler.py         | 34 ++++++++++++++++---
 2 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/src/deep/processor/context/trigger_context.py b/src/deep/processor/context/trigger_context.py
index 4123c18..c0ed968 100644
--- a/src/deep/processor/context/trigger_context.py
+++ b/src/deep/processor/context/trigger_context.py
@@ -73,13 +73,15 @@ class TriggerContext:
 
     def __exit__(self, exception_type, exception_value, exception_traceback):
         """Complete the 'with' statement, and close this context."""
-        for result in self.__results:
+        # the results refer back to this context, so let go of them to not keep the frame (and its locals) alive
+        results, self.__results = self.__results, []
+        for result in results:
             try:
                 new_callback = result.process(self)
                 if new_callback is not None:
                     self.callbacks.append(new_callback)
-            except Exception:
-                deep.logging.exception("failed to process result {}", result)
+            except BaseException:
+                deep.logging.exception("failed to process result %s", result)
 
     @property
     def id(self):
diff --git a/src/deep/processor/trigger_handler.py b/src/deep/processor/trigger_handler.py
index e049359..b60c931 100644
--- a/src/deep/processor/trigger_handler.py
+++ b/src/deep/processor/trigger_handler.py
@@ -42,6 +42,21 @@ if TYPE_CHECKING:
     from deep.processor.context.action_context import ActionContext
 
 
+def _safe_log(msg: str, *args):
+    """
+    Log the current exception, ignoring any failure to do so.
+
+    The log is processed by handlers and filters that we do not control, so even this can fail.
+
+    :param msg: the message to log
+    :param args: the args for the log
+    """
+    try:
+        logging.exception(msg, *args)
+    except BaseException:
+        pass
+
+
 class TracepointHandlerUpdateListener(ConfigUpdateListener):
     """This is the listener that connects the config to the handler."""
 
@@ -135,6 +150,14 @@ class TriggerHandler:
         :param arg: the args
         :return: None to ignore other calls, or our self to continue
         """
+        try:
+            return self.__process_event(frame, event, arg)
+        except BaseException:
+            # if we raise here then the error is raised into the application, and python will remove the trace function
+            _safe_log("Cannot process event %s", event)
+            return self.trace_call
+
+    def __process_event(self, frame: FrameType, event: str, arg):
         event, file, line, function = self.location_from_event(event, frame)
         trigger_context = TriggerContext(self._config, self._push_service, frame, event, arg)
 
@@ -158,9 +181,9 @@ class TriggerHandler:
                             if ctx.can_trigger():
                                 ctx.process()
                     except BaseException:
-                        logging.exception("Cannot process action %s", action)
+                        _safe_log("Cannot process action %s", action)
         except BaseException:
-            logging.exception("Cannot trigger at %s#%s %s", file, line, function)
+            _safe_log("Cannot trigger at %s#%s %s", file, line, function)
 
         callbacks = trigger_context.callbacks
         if len(callbacks) > 0:
@@ -173,8 +196,11 @@ class TriggerHandler:
     def __actions_for_location(self, event, file, line, function, frame):
         actions = []
         for trigger in self._tp_config:
-            if trigger.at_location(event, file, line, function, frame):
-                actions += trigger.actions
+            try:
+                if trigger.at_location(event, file, line, function, frame):
+                    actions += trigger.actions
+            except BaseException:
+                _safe_log("Cannot check location of trigger %s", trigger)
         return actions
 
     def __process_call_backs(self, ctx: 'TriggerContext', arg: any, frame: FrameType, event: str, file: str, line: int,
-- 
2.43.0


From d00e30cb3f9c0b14fed8f9232763e2f9ca52f8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:13 +0000
Subject: [PATCH 06/31] fix: do not leave pending work for a later thread to
 inherit

The store was shared between all instances and keyed by thread ident, which python reuses once a thread has finished.
---
 src/deep/thread_local.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/deep/thread_local.py b/src/deep/thread_local.py
index 2180f62..e0d9a97 100644
--- a/src/deep/thread_local.py
+++ b/src/deep/thread_local.py
@@ -25,8 +25,6 @@ T = TypeVar('T')
 class ThreadLocal(Generic[T]):
     """This type offers the ability to store a value based on the thread that accessed the value."""
 
-    __store = {}
-
     def __init__(self, default_provider: Callable[[], T] = lambda: None):
         """
         Create a new ThreadLocal value.
@@ -34,6 +32,8 @@ class ThreadLocal(Generic[T]):
         :param default_provider: a provider that will produce a default value
         """
         self.__default_provider = default_provider
+        # the store has to belong to this instance, and has to go away with the thread (thread ids are reused)
+        self.__store = threading.local()
 
     def get(self) -> T:
         """
@@ -41,11 +41,10 @@ class ThreadLocal(Generic[T]):
 
         :return: the stored value, or the value from the default_provider
         """
-        current_thread = threading.current_thread()
-        get = self.__store.get(current_thread.ident, None)
+        get = getattr(self.__store, 'value', None)
         if get is None:
             get = self.__default_provider()
-            self.__store[current_thread.ident] = get
+            self.__store.value = get
         return get
 
     def set(self, val: T):
@@ -54,14 +53,12 @@ class ThreadLocal(Generic[T]):
 
         :param val: the value to store
         """
-        current_thread = threading.current_thread()
-        self.__store[current_thread.ident] = val
+        self.__store.value = val
 
     def clear(self):
         """Remove the value for this thread."""
-        current_thread = threading.current_thread()
-        if current_thread.ident in self.__store:
-            del self.__store[current_thread.ident]
+        if hasattr(self.__store, 'value'):
+            del self.__store.value
 
     @property
     def is_set(self):
@@ -70,8 +67,7 @@ class ThreadLocal(Generic[T]):
 
         :return: True if there is a value for this thread
         """
-        current_thread = threading.current_thread()
-        return current_thread.ident in self.__store
+        return hasattr(self.__store, 'value')
 
     @property
     def value(self):
-- 
2.43.0


From 1af9e75fd8ac2056eab8534caf426c6f95cad067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 07/31] fix: complete deferred work at the end of the
 invocation that opened it

Pending work was matched by file and function name only, so recursion completed the work of another invocation with the
wrong result, an exception that the function handles was captured as its result, and when both a line and a function
ended at one event, or one callback failed, the rest was left pending.
---
 .../processor/context/callback_context.py     | 74 ++++++++++++++++++-
 src/deep/processor/trigger_handler.py         | 29 +++++---
 2 files changed, 88 insertions(+), 15 deletions(-)

diff --git a/src/deep/processor/context/callback_context.py b/src/deep/processor/context/callback_context.py
index 09f653d..97611aa 100644
--- a/src/deep/processor/context/callback_context.py
+++ b/src/deep/processor/context/callback_context.py
@@ -14,15 +14,22 @@
 #      along with this program.  If not, see <https://www.gnu.org/licenses/>.
 
 """Handling for action callbacks."""
+import sys
+from dis import opname
 from types import FrameType
-from typing import List
+from typing import List, Optional
 
+from deep import logging
 from deep.api.tracepoint.trigger import Location
 
 from deep.processor.context.action_results import ActionCallback
 from deep.processor.context.trigger_context import TriggerContext
 
 
+RETURN_OPS = ['RETURN_VALUE', 'RETURN_CONST', 'RETURN_GENERATOR', 'YIELD_VALUE', 'YIELD_FROM', 'SEND']
+"""The instructions that can legitimately be the last one when a function returns (or is suspended)."""
+
+
 class CallbackContext(Location, ActionCallback):
     """
     Callback Context deals with ensuring we close any pending actions created by TriggerHandler.
@@ -31,14 +38,27 @@ class CallbackContext(Location, ActionCallback):
     to close when the line/method completes.
     """
 
-    def __init__(self, event: str, filename: str, line: int, name: str, callbacks: List['ActionCallback']):
-        """Create new callback context."""
+    def __init__(self, event: str, filename: str, line: int, name: str, callbacks: List['ActionCallback'],
+                 frame: Optional[FrameType] = None):
+        """
+        Create new callback context.
+
+        :param event: the event that created this context
+        :param filename: the file name of the location
+        :param line: the line of the location
+        :param name: the function name of the location
+        :param callbacks: the callbacks to process when we get to the end of the location
+        :param frame: the frame (the invocation of the function) that created this context
+        """
         super().__init__(Location.Position.END)
         self.__event = event
         self.__filename = filename
         self.__function_name = name
         self.__line = line
         self.__callbacks = callbacks
+        self.__frame = frame
+        self.__exception = None
+        self.__exception_lasti = None
 
     def at_location(self, event: str, file: str, line: int, function_name: str, frame: FrameType) -> bool:
         """
@@ -55,11 +75,52 @@ class CallbackContext(Location, ActionCallback):
         if file != self.__filename or function_name != self.__function_name:
             return False
 
+        if frame is not self.__frame and self.__is_running(frame):
+            # this is another invocation of the same function (e.g. recursion), and we are still waiting for ours
+            return False
+
         if self.__event == 'line':
             return self.__check_at_next_line(event, file, function_name)
+        elif frame is self.__frame:
+            # an exception can still be handled by the function, so only the return is the end of the function
+            return event == 'return'
         else:
             return self.__check_at_method_end(event)
 
+    def observe(self, event: str, frame: FrameType, arg: any):
+        """
+        Track the exception that is being raised from our frame.
+
+        :param event: the event
+        :param frame: the frame data
+        :param arg: the arg from settrace
+        """
+        if frame is not self.__frame:
+            return
+        if event == 'exception':
+            self.__exception = arg
+            self.__exception_lasti = frame.f_lasti
+        elif event == 'line':
+            # there is no event when an exception is handled, or when one that was handled is raised again
+            exc_info = sys.exc_info()
+            self.__exception = None if exc_info[0] is None else exc_info
+            self.__exception_lasti = None
+
+    def __is_running(self, frame: FrameType) -> bool:
+        while frame is not None:
+            if frame is self.__frame:
+                return True
+            frame = frame.f_back
+        return False
+
+    def __result(self, event: str, frame: FrameType, arg: any):
+        """When a frame is unwound by an exception, the last event is a 'return' without a value."""
+        if event == 'return' and arg is None and frame is self.__frame and self.__exception is not None:
+            last = frame.f_lasti
+            if last == self.__exception_lasti or opname[frame.f_code.co_code[last]] not in RETURN_OPS:
+                return 'exception', self.__exception
+        return event, arg
+
     def process(self, ctx: 'TriggerContext', event: str, frame: FrameType, arg: any):
         """
         Process all callbacks.
@@ -70,8 +131,13 @@ class CallbackContext(Location, ActionCallback):
         :param arg: the arg from settrace
         :return: True, to keep this callback until next match.
         """
+        event, arg = self.__result(event, frame, arg)
+        self.__exception = None
         for callback in self.__callbacks:
-            callback.process(ctx, event, frame, arg)
+            try:
+                callback.process(ctx, event, frame, arg)
+            except BaseException:
+                logging.exception("Cannot process callback %s", callback)
 
     @property
     def id(self) -> str:
diff --git a/src/deep/processor/trigger_handler.py b/src/deep/processor/trigger_handler.py
index b60c931..8deb2e0 100644
--- a/src/deep/processor/trigger_handler.py
+++ b/src/deep/processor/trigger_handler.py
@@ -162,7 +162,10 @@ class TriggerHandler:
         trigger_context = TriggerContext(self._config, self._push_service, frame, event, arg)
 
         if event in ["line", "return", "exception"] and self._callbacks.is_set:
-            self.__process_call_backs(trigger_context, arg, frame, event, file, line, function)
+            try:
+                self.__process_call_backs(trigger_context, arg, frame, event, file, line, function)
+            except BaseException:
+                _safe_log("Cannot process callbacks at %s#%s %s", file, line, function)
 
         # return if we do not have any tracepoints
         if len(self._tp_config) == 0:
@@ -189,7 +192,9 @@ class TriggerHandler:
         if len(callbacks) > 0:
             logging.debug("Callbacks registered: %s", callbacks)
             self._callbacks.get().append(
-                CallbackContext(event, file, line, function, callbacks))
+                CallbackContext(event, file, line, function, callbacks, frame))
+            # the callbacks refer back to the context, so let go of them to not keep the frame alive
+            trigger_context.callbacks = []
 
         return self.trace_call
 
@@ -205,18 +210,20 @@ class TriggerHandler:
 
     def __process_call_backs(self, ctx: 'TriggerContext', arg: any, frame: FrameType, event: str, file: str, line: int,
                              function_name: str):
-        # remove top context
-        context: CallbackContext = self._callbacks.value.pop()
-        # if it is for our location process it
-        if context.at_location(event, file, line, function_name, frame):
+        pending = self._callbacks.value
+        # more than one context can end here, e.g. the last line of a function and the function itself
+        while len(pending) > 0:
+            context: CallbackContext = pending[-1]
+            context.observe(event, frame, arg)
+            # if it is for our location remove and process it
+            if not context.at_location(event, file, line, function_name, frame):
+                logging.debug("Not at callback location %s", context.name)
+                break
             logging.debug("At callback location %s", context.name)
+            pending.pop()
             context.process(ctx, event, frame, arg)
-        else:
-            logging.debug("Not at callback location %s", context.name)
-            # else put the context back on the queue
-            self._callbacks.value.append(context)
 
-        if len(self._callbacks.value) == 0:
+        if len(pending) == 0:
             logging.debug("Callbacks cleared.")
             self._callbacks.clear()
 
-- 
2.43.0


From 1859a646e23d6959319310198eb70e1bf16f0396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:39 +0000
Subject: [PATCH 08/31] fix: leave the trace functions alone unless we
 installed them, and take no action after shutdown

With NO_TRACE the shutdown removed the trace functions of the application (and NO_TRACE=False from the environment also
disabled the agent). Threads that were already traced kept on triggering tracepoints after shutdown.
---
 src/deep/processor/trigger_handler.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/deep/processor/trigger_handler.py b/src/deep/processor/trigger_handler.py
index 8deb2e0..514beaf 100644
--- a/src/deep/processor/trigger_handler.py
+++ b/src/deep/processor/trigger_handler.py
@@ -37,6 +37,7 @@ from deep.processor.context.callback_context import CallbackContext
 from deep.processor.context.trigger_context import TriggerContext
 from deep.push import PushService
 from deep.thread_local import ThreadLocal
+from deep.utils import str2bool
 
 if TYPE_CHECKING:
     from deep.processor.context.action_context import ActionContext
@@ -103,6 +104,8 @@ class TriggerHandler:
         """
         self.__old_thread_trace = None
         self.__old_sys_trace = None
+        self.__installed = False
+        self.__shutdown = False
         self._push_service = push_service
         self._tp_config: List[Trigger] = []
         self._config = config
@@ -113,7 +116,9 @@ class TriggerHandler:
         """Start the trigger handler."""
         # if we call settrace we cannot use debugger,
         # so we allow the settrace to be disabled, so we can at least debug around it
-        if self._config.NO_TRACE:
+        self.__shutdown = False
+        no_trace = self._config.NO_TRACE
+        if no_trace is not None and str2bool(str(no_trace)):
             return
         self.__old_sys_trace = sys.gettrace()
         # gettrace was added in 3.10, so use it if we can, else try to get from property
@@ -121,6 +126,7 @@ class TriggerHandler:
         self.__old_thread_trace = threading.gettrace() if hasattr(threading, 'gettrace') else threading._trace_hook
         sys.settrace(self.trace_call)
         threading.settrace(self.trace_call)
+        self.__installed = True
 
     def new_config(self, new_config: List['Trigger']):
         """
@@ -167,8 +173,8 @@ class TriggerHandler:
             except BaseException:
                 _safe_log("Cannot process callbacks at %s#%s %s", file, line, function)
 
-        # return if we do not have any tracepoints
-        if len(self._tp_config) == 0:
+        # return if we do not have any tracepoints, or are shutdown (other threads keep calling us until they end)
+        if self.__shutdown or len(self._tp_config) == 0:
             return None
 
         actions = self.__actions_for_location(event, file, line, function, frame)
@@ -256,5 +262,9 @@ class TriggerHandler:
 
         Reset the settrace to the previous values.
         """
-        sys.settrace(self.__old_sys_trace)
-        threading.settrace(self.__old_thread_trace)
+        self.__shutdown = True
+        # if we did not change the trace functions then we must not 'restore' them
+        if self.__installed:
+            self.__installed = False
+            sys.settrace(self.__old_sys_trace)
+            threading.settrace(self.__old_thread_trace)
-- 
2.43.0


From 9b7d1918991daed6af144eac57362b3e81f11094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:04 +0000
Subject: [PATCH 09/31] fix: flush waits for every accepted task, whether it
 succeeds or fails

Flush raised the error of a failed task (and a timeout for a slow one), so the remaining tasks were not awaited, and a task
submitted while flushing could be accepted without being awaited.
---
 src/deep/task/__init__.py | 40 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/src/deep/task/__init__.py b/src/deep/task/__init__.py
index aa51300..fb55ac3 100644
--- a/src/deep/task/__init__.py
+++ b/src/deep/task/__init__.py
@@ -17,7 +17,7 @@
 
 import threading
 from concurrent.futures import Future
-from concurrent.futures import ThreadPoolExecutor
+from concurrent.futures import ThreadPoolExecutor, wait
 
 from deep import logging
 
@@ -36,14 +36,13 @@ class TaskHandler:
         self._pool = ThreadPoolExecutor(max_workers=2)
         self._pending = {}
         self._job_id = 0
-        self._lock = threading.Lock()
+        # this has to be reentrant as a tracepoint in this file would submit the snapshot on the thread holding the lock
+        self._lock = threading.RLock()
         self._open = True
 
     def _next_id(self):
-        with self._lock:
-            self._job_id += 1
-            next_id = self._job_id
-        return next_id
+        self._job_id += 1
+        return self._job_id
 
     def __check_open(self):
         if not self._open:
@@ -57,27 +56,26 @@ class TaskHandler:
         :param args: the args to pass to the function
         :return: a future that can be listened to for completion
         """
-        self.__check_open()
-        next_id = self._next_id()
-        # there is an at exit in threading that prevents submitting tasks after shutdown, but no api to check this
-        future = self._pool.submit(task, *args)
-        self._pending[next_id] = future
+        # accept the task under the lock, so that a flush either waits for this task or we refuse it
+        with self._lock:
+            self.__check_open()
+            next_id = self._next_id()
+            # there is an at exit in threading that prevents submitting tasks after shutdown, but no api to check this
+            future = self._pool.submit(task, *args)
+            self._pending[next_id] = future
 
         # cannot use 'del' in lambda: https://stackoverflow.com/a/41953232/5151254
         def callback(_future: Future):
+            self._pending.pop(next_id, None)
             if _future.exception() is not None:
-                logging.exception("Submitted task failed %s", task)
-            if next_id in self._pending:
-                del self._pending[next_id]
+                logging.error("Submitted task failed %s", task, exc_info=_future.exception())
 
         future.add_done_callback(callback)
         return future
 
     def flush(self):
-        """Await completion of all pending tasks."""
-        self._open = False
-        if len(self._pending) > 0:
-            for key in dict(self._pending).keys():
-                get = self._pending.get(key)
-                if get is not None:
-                    self._pending[key].result(10)
+        """Await completion of all pending tasks, if they fail or not."""
+        with self._lock:
+            self._open = False
+            pending = list(self._pending.values())
+        wait(pending)
-- 
2.43.0


From 0cc94b33a38cebb58c54c9215406c598d2e70559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:55 +0000
Subject: [PATCH 10/31] fix: complete every step of the shutdown even if some
 of them fail

A failing plugin (or a failed delivery) stopped the shutdown half way, leaving the polling running and the agent marked as
started, and a failed start left the trace functions in place. The agent also refused all work after a restart.
---
 src/deep/api/deep.py      | 36 ++++++++++++++++++++++++++----------
 src/deep/poll/poll.py     |  6 +++---
 src/deep/task/__init__.py |  5 +++++
 src/deep/utils.py         |  8 +++++---
 4 files changed, 39 insertions(+), 16 deletions(-)

diff --git a/src/deep/api/deep.py b/src/deep/api/deep.py
index 4aef952..e3533e4 100644
--- a/src/deep/api/deep.py
+++ b/src/deep/api/deep.py
@@ -67,22 +67,38 @@ class Deep:
                 deep.logging.exception("Failed to process plugin resource {}", provider.name)
 
         self.config.resource = default_resource
-        self.trigger_handler.start()
-        self.grpc.start()
-        self.poll.start()
+        self.task_handler.open()
+        try:
+            self.trigger_handler.start()
+            self.grpc.start()
+            self.poll.start()
+        except BaseException:
+            # we are not started, so shutdown will not undo this
+            self.trigger_handler.shutdown()
+            raise
         self.started = True
 
     def shutdown(self):
         """Shutdown deep."""
         if not self.started:
             return
-        self.trigger_handler.shutdown()
-        self.task_handler.flush()
-        self.poll.shutdown()
-        for plugin in self.config.plugins:
-            plugin.shutdown()
-        deep.logging.info("Deep is shutdown.")
-        self.started = False
+        try:
+            self.__shutdown_step(self.trigger_handler.shutdown)
+            self.__shutdown_step(self.poll.shutdown)
+            self.__shutdown_step(self.task_handler.flush)
+            for plugin in self.config.plugins:
+                self.__shutdown_step(lambda: plugin.shutdown())
+            deep.logging.info("Deep is shutdown.")
+        finally:
+            self.started = False
+
+    @staticmethod
+    def __shutdown_step(step):
+        """Perform a step of the shutdown, a step that fails does not stop the other steps."""
+        try:
+            step()
+        except BaseException:
+            deep.logging.exception("Failed to complete shutdown step %s", step)
 
     def register_tracepoint(self, path: str, line: int, args: Dict[str, str] = None,
                             watches: List[str] = None,
diff --git a/src/deep/poll/poll.py b/src/deep/poll/poll.py
index 88704c7..58e8f21 100644
--- a/src/deep/poll/poll.py
+++ b/src/deep/poll/poll.py
@@ -73,6 +73,6 @@ class LongPoll(object):
 
     def shutdown(self):
         """Shutdown the timer."""
-        if self.timer:
-            self.timer.stop()
-        self.timer = None
+        timer, self.timer = self.timer, None
+        if timer:
+            timer.stop()
diff --git a/src/deep/task/__init__.py b/src/deep/task/__init__.py
index fb55ac3..8e719ad 100644
--- a/src/deep/task/__init__.py
+++ b/src/deep/task/__init__.py
@@ -48,6 +48,11 @@ class TaskHandler:
         if not self._open:
             raise IllegalStateException
 
+    def open(self):
+        """Accept tasks (again)."""
+        with self._lock:
+            self._open = True
+
     def submit_task(self, task, *args) -> Future:
         """
         Submit a task to be processed in the task thread.
diff --git a/src/deep/utils.py b/src/deep/utils.py
index 43dc551..baeb969 100644
--- a/src/deep/utils.py
+++ b/src/deep/utils.py
@@ -16,7 +16,7 @@
 """A collection of util functions to perform common or repeated actions."""
 
 import time
-from threading import Event, Thread
+from threading import Event, Thread, current_thread
 
 from deep import logging
 
@@ -76,13 +76,15 @@ class RepeatedTimer:
     def stop(self):
         """Stop and shutdown the timer."""
         self.event.set()
-        self.thread.join()
+        if self.thread.is_alive() and self.thread is not current_thread():
+            # do not wait forever for a function that does not return, it will not be called again
+            self.thread.join(10)
 
     def _target(self):
         while not self.event.wait(self._time):
             try:
                 self.function(*self.args, **self.kwargs)
-            except Exception:
+            except BaseException:
                 logging.exception(
                     "Repeated function (%s) failed, will retry in %s seconds." % (self.name, self.interval))
 
-- 
2.43.0


From b20233b9da0edd6f95e7305f9bf067559fbeb145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:17 +0000
Subject: [PATCH 11/31] fix: always install the latest tracepoint config

Config updates are processed by two workers, each with the config captured when the update was triggered, so an older config
could be installed last. An update after the task handler was closed raised (into the application, or out of the poll thread),
an unknown response type installed an empty config, and the tracepoints were shared by all instances of the config.
---
 src/deep/api/deep.py                 |  2 +-
 src/deep/config/config_service.py    |  5 +--
 src/deep/config/tracepoint_config.py | 47 ++++++++++++++++++----------
 src/deep/poll/poll.py                |  4 ++-
 4 files changed, 38 insertions(+), 20 deletions(-)

diff --git a/src/deep/api/deep.py b/src/deep/api/deep.py
index e3533e4..11eec45 100644
--- a/src/deep/api/deep.py
+++ b/src/deep/api/deep.py
@@ -64,7 +64,7 @@ class Deep:
                 if plugin_resource:
                     default_resource = default_resource.merge(plugin_resource)
             except Exception:
-                deep.logging.exception("Failed to process plugin resource {}", provider.name)
+                deep.logging.exception("Failed to process plugin resource %s", type(provider))
 
         self.config.resource = default_resource
         self.task_handler.open()
diff --git a/src/deep/config/config_service.py b/src/deep/config/config_service.py
index a26c6b9..856e2ed 100644
--- a/src/deep/config/config_service.py
+++ b/src/deep/config/config_service.py
@@ -29,18 +29,19 @@ from deep.config.tracepoint_config import TracepointConfigService, ConfigUpdateL
 class ConfigService:
     """This is the main service that handles config for DEEP."""
 
-    def __init__(self, custom: Dict[str, any] = None, tracepoints=TracepointConfigService()):
+    def __init__(self, custom: Dict[str, any] = None, tracepoints: Optional[TracepointConfigService] = None):
         """
         Create a new config object.
 
         :param custom: any custom values that are passed to DEEP
+        :param tracepoints: the tracepoint config service to use (default to a new service)
         """
         if custom is None:
             custom = {}
         self._plugins = []
         self.__custom = custom
         self._resource = None
-        self._tracepoint_config = tracepoints
+        self._tracepoint_config = tracepoints if tracepoints is not None else TracepointConfigService()
 
     def __getattribute__(self, name: str) -> Any:
         """
diff --git a/src/deep/config/tracepoint_config.py b/src/deep/config/tracepoint_config.py
index 3861f65..d88b04d 100644
--- a/src/deep/config/tracepoint_config.py
+++ b/src/deep/config/tracepoint_config.py
@@ -16,6 +16,7 @@
 """Maintain the current config of the tracepoints."""
 
 import abc
+import threading
 import uuid
 from typing import Dict, List, TYPE_CHECKING
 
@@ -23,6 +24,7 @@ from deep import logging
 from deep.api.tracepoint.tracepoint_config import MetricDefinition
 
 from deep.api.tracepoint.trigger import build_trigger
+from deep.task import IllegalStateException
 
 if TYPE_CHECKING:
     from deep.api.tracepoint.trigger import Trigger
@@ -57,6 +59,9 @@ class TracepointConfigService:
         self._last_update = 0
         self._task_handler = None
         self._listeners: List[ConfigUpdateListener] = []
+        # these have to be reentrant as tracepoints in this file are processed on the thread holding the lock
+        self._lock = threading.RLock()
+        self._listener_lock = threading.RLock()
 
     def update_no_change(self, ts):
         """
@@ -78,18 +83,24 @@ class TracepointConfigService:
         :param new_hash: the new config hash
         :param new_config: the new config values
         """
-        old_hash = self._current_hash
-        old_config = self._tracepoint_config
-        self._last_update = ts
-        self._current_hash = new_hash
-        self._tracepoint_config = new_config
+        with self._lock:
+            old_hash = self._current_hash
+            old_config = self._tracepoint_config
+            self._last_update = ts
+            self._current_hash = new_hash
+            self._tracepoint_config = new_config
         self.__trigger_update(old_hash, old_config)
 
     def __trigger_update(self, old_hash, old_config):
         ts = self._last_update
         if self._task_handler is not None:
-            future = self._task_handler.submit_task(self.update_listeners, self._last_update, old_hash,
-                                                    self._current_hash, old_config, self._tracepoint_config)
+            args = (self._last_update, old_hash, self._current_hash, old_config, self._tracepoint_config)
+            try:
+                future = self._task_handler.submit_task(self.update_listeners, *args)
+            except IllegalStateException:
+                # the task handler is closed, so there is nothing to offload this to
+                self.update_listeners(*args)
+                return
             future.add_done_callback(lambda _: logging.debug("Completed processing new config %s", ts))
 
     def set_task_handler(self, task_handler):
@@ -105,20 +116,24 @@ class TracepointConfigService:
         """
         Update the registered listeners.
 
-        This is called to update any listeners that the config has changed
+        This is called to update any listeners that the config has changed. Updates are processed by more than one
+        thread, so they can be processed out of order. Therefore, we always pass on the latest config.
 
         :param ts: the ts of the update
         :param old_hash: the old hash
         :param current_hash: the new hash value
         :param old_config: the old config
-        :param new_config: the new config
-        """
-        listeners_copy = self._listeners.copy()
-        for listeners in listeners_copy:
-            try:
-                listeners.config_change(ts, old_hash, current_hash, old_config, new_config + self._custom)
-            except Exception:
-                logging.exception("Error updating listener %s", listeners)
+        :param new_config: the new config when the update was triggered
+        """
+        with self._listener_lock:
+            with self._lock:
+                latest_config = self._tracepoint_config + self._custom
+            listeners_copy = self._listeners.copy()
+            for listeners in listeners_copy:
+                try:
+                    listeners.config_change(ts, old_hash, current_hash, old_config, latest_config)
+                except Exception:
+                    logging.exception("Error updating listener %s", listeners)
 
     def add_listener(self, listener: ConfigUpdateListener):
         """
diff --git a/src/deep/poll/poll.py b/src/deep/poll/poll.py
index 58e8f21..1181cf9 100644
--- a/src/deep/poll/poll.py
+++ b/src/deep/poll/poll.py
@@ -67,9 +67,11 @@ class LongPoll(object):
         if response.response_type == ResponseType.NO_CHANGE:
             logging.debug("No Change in config.")
             self.config.tracepoints.update_no_change(response.ts_nanos)
-        else:
+        elif response.response_type == ResponseType.UPDATE:
             self.config.tracepoints.update_new_config(response.ts_nanos, response.current_hash,
                                                       convert_response(response.response))
+        else:
+            logging.warning("Unknown poll response type %s, keeping the current config.", response.response_type)
 
     def shutdown(self):
         """Shutdown the timer."""
-- 
2.43.0


From b5d0ccb53d851d941aa033c39a94bac19f3d8806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:15 +0000
Subject: [PATCH 12/31] fix: unregister exactly the tracepoint that was
 registered

The handle was the location of the tracepoint, so with two registrations on one line it removed the wrong one (or, when
called twice, both). A registration that cannot be interpreted failed, and then broke every later config update.
---
 src/deep/config/tracepoint_config.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/deep/config/tracepoint_config.py b/src/deep/config/tracepoint_config.py
index d88b04d..a14a3fd 100644
--- a/src/deep/config/tracepoint_config.py
+++ b/src/deep/config/tracepoint_config.py
@@ -53,7 +53,7 @@ class TracepointConfigService:
 
     def __init__(self) -> None:
         """Create new tracepoint config service."""
-        self._custom: List['Trigger'] = []
+        self._custom: Dict[str, 'Trigger'] = {}
         self._tracepoint_config: List['Trigger'] = []
         self._current_hash = None
         self._last_update = 0
@@ -127,7 +127,7 @@ class TracepointConfigService:
         """
         with self._listener_lock:
             with self._lock:
-                latest_config = self._tracepoint_config + self._custom
+                latest_config = self._tracepoint_config + list(self._custom.values())
             listeners_copy = self._listeners.copy()
             for listeners in listeners_copy:
                 try:
@@ -174,12 +174,17 @@ class TracepointConfigService:
         :param args: the tracepoint args
         :param watches: the tracepoint watches
         :param metrics: the tracepoint metrics
-        :return: the new TracePointConfig
+        :return: the id of the new tracepoint
         """
-        config = build_trigger(str(uuid.uuid4()), path, line, args, watches, metrics)
-        self._custom.append(config)
+        tp_id = str(uuid.uuid4())
+        config = build_trigger(tp_id, path, line, args, watches, metrics)
+        if config is None:
+            logging.error("Cannot interpret tracepoint %s#%s: %s", path, line, args)
+            return tp_id
+        with self._lock:
+            self._custom[tp_id] = config
         self.__trigger_update(None, None)
-        return config.id
+        return tp_id
 
     def remove_custom(self, _id: str):
         """
@@ -187,8 +192,7 @@ class TracepointConfigService:
 
         :param _id: the id of the config to remove
         """
-        for idx, cfg in enumerate(self._custom):
-            if cfg.id == _id:
-                del self._custom[idx]
-                self.__trigger_update(None, None)
-                return
+        with self._lock:
+            removed = self._custom.pop(_id, None)
+        if removed is not None:
+            self.__trigger_update(None, None)
-- 
2.43.0


From 3cefac97a2e37edc95cf9cb5a961d4a6cd1eb0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:12 +0000
Subject: [PATCH 13/31] fix: never exceed the fire limits of a tracepoint, and
 apply its time window

The limits were checked and recorded without a lock (and recorded after the action was processed), so concurrent hits all
collected. The time window of a tracepoint was ignored, an invalid window or limit raised, and the period was not applied when
the clock started at zero or to hits processed out of order.
---
 src/deep/api/tracepoint/tracepoint_config.py |  2 +-
 src/deep/api/tracepoint/trigger.py           | 55 +++++++++++++-------
 src/deep/processor/context/action_context.py |  6 ++-
 3 files changed, 41 insertions(+), 22 deletions(-)

diff --git a/src/deep/api/tracepoint/tracepoint_config.py b/src/deep/api/tracepoint/tracepoint_config.py
index 1ea190c..5743964 100644
--- a/src/deep/api/tracepoint/tracepoint_config.py
+++ b/src/deep/api/tracepoint/tracepoint_config.py
@@ -304,7 +304,7 @@ class TracepointExecutionStats:
         :param ts: the time in nanoseconds
         """
         self._fire_count += 1
-        self._last_fire = ts
+        self._last_fire = max(self._last_fire, ts)
 
     @property
     def fire_count(self):
diff --git a/src/deep/api/tracepoint/trigger.py b/src/deep/api/tracepoint/trigger.py
index bcc2b50..105a0c7 100644
--- a/src/deep/api/tracepoint/trigger.py
+++ b/src/deep/api/tracepoint/trigger.py
@@ -30,6 +30,7 @@
 
 import abc
 import inspect
+import threading
 from enum import Enum
 from types import FrameType
 
@@ -81,8 +82,10 @@ class LocationAction(object):
         self.__id = tp_id
         self.__condition = condition
         self.__config = config
-        self.__window = TracepointWindow(self.__config.get(WINDOW_START, 0), self.__config.get(WINDOW_END, 0))
+        self.__window = TracepointWindow(self.__get_int(WINDOW_START, 0), self.__get_int(WINDOW_END, 0))
         self.__stats = TracepointExecutionStats()
+        # this has to be reentrant as a tracepoint in this file would be processed on the thread holding the lock
+        self.__lock = threading.RLock()
         self.__action_type = action_type
         self.__location: Optional['Location'] = None
 
@@ -167,33 +170,39 @@ class LocationAction(object):
         if self.fire_count != -1 and self.fire_count <= self.__stats.fire_count:
             return False
 
-        # Are we in the time window?
-        if not self.__window.in_window(ts):
+        # Are we in the time window? (the window is in ms)
+        if not self.__window.in_window(ts // 1_000_000):
             return False
 
         # Have we fired too quickly?
-        last_fire = self.__stats.last_fire
-        if last_fire != 0:
-            time_since_last = ts - last_fire
-            if time_since_last < self.__fire_period_ns():
+        if self.__stats.fire_count > 0:
+            time_since_last = ts - self.__stats.last_fire
+            # another thread can have fired with a later ts, so this can be negative
+            if 0 < self.__fire_period_ns() and time_since_last < self.__fire_period_ns():
                 return False
 
         return True
 
-    def record_triggered(self, ts):
+    def record_triggered(self, ts) -> bool:
         """
         Record a fire.
 
-        Call this to record this tracepoint being triggered.
+        Call this to record this tracepoint being triggered, before the action is performed. The limits are checked
+        again, as another thread can have fired since they were checked.
 
         :param ts: the time in nanoseconds
+        :return: False, if we cannot trigger any more.
         """
-        self.__stats.fire(ts)
+        with self.__lock:
+            if not self.can_trigger(ts):
+                return False
+            self.__stats.fire(ts)
+            return True
 
     def __get_int(self, name: str, default_value: int):
         try:
             return int(self.__config.get(name, default_value))
-        except ValueError:
+        except (ValueError, TypeError, OverflowError):
             return default_value
 
     def __str__(self):
@@ -547,6 +556,14 @@ class FunctionLocation(Location):
         return False
 
 
+def _with_window(args: Dict[str, str], config: Dict[str, any]) -> Dict[str, any]:
+    """Add the time window to the action config, if there is one."""
+    for key in (WINDOW_START, WINDOW_END):
+        if key in args:
+            config[key] = args[key]
+    return config
+
+
 def build_snapshot_action(tp_id: str, args: Dict[str, str], watches: List[str]) -> Optional[LocationAction]:
     """
     Create an action to create a snapshot.
@@ -561,14 +578,14 @@ def build_snapshot_action(tp_id: str, args: Dict[str, str], watches: List[str])
             return None
 
     condition = args[CONDITION] if CONDITION in args else None
-    return LocationAction(tp_id, condition, {
+    return LocationAction(tp_id, condition, _with_window(args, {
         WATCHES: watches,
         FRAME_TYPE: args.get(FRAME_TYPE, SINGLE_FRAME_TYPE),
         STACK_TYPE: args.get(STACK_TYPE, STACK),
         FIRE_COUNT: args.get(FIRE_COUNT, '1'),
         FIRE_PERIOD: args.get(FIRE_PERIOD, '1000'),
         LOG_MSG: args.get(LOG_MSG, None),
-    }, LocationAction.ActionType.Snapshot)
+    }), LocationAction.ActionType.Snapshot)
 
 
 def build_log_action(tp_id: str, args: Dict[str, str]) -> Optional[LocationAction]:
@@ -585,11 +602,11 @@ def build_log_action(tp_id: str, args: Dict[str, str]) -> Optional[LocationActio
         return None
 
     condition = args[CONDITION] if CONDITION in args else None
-    return LocationAction(tp_id, condition, {
+    return LocationAction(tp_id, condition, _with_window(args, {
         LOG_MSG: args[LOG_MSG],
         FIRE_COUNT: args.get(FIRE_COUNT, '1'),
         FIRE_PERIOD: args.get(FIRE_PERIOD, '1000'),
-    }, LocationAction.ActionType.Log)
+    }), LocationAction.ActionType.Log)
 
 
 def build_metric_action(tp_id: str, args: Dict[str, str], metrics: List[MetricDefinition]) -> Optional[LocationAction]:
@@ -605,11 +622,11 @@ def build_metric_action(tp_id: str, args: Dict[str, str], metrics: List[MetricDe
         return None
 
     condition = args[CONDITION] if CONDITION in args else None
-    return LocationAction(tp_id, condition, {
+    return LocationAction(tp_id, condition, _with_window(args, {
         'metrics': metrics,
         FIRE_COUNT: args.get(FIRE_COUNT, '1'),
         FIRE_PERIOD: args.get(FIRE_PERIOD, '1000'),
-    }, LocationAction.ActionType.Metric)
+    }), LocationAction.ActionType.Metric)
 
 
 def build_span_action(tp_id: str, args: Dict[str, str]) -> Optional[LocationAction]:
@@ -624,11 +641,11 @@ def build_span_action(tp_id: str, args: Dict[str, str]) -> Optional[LocationActi
         return None
 
     condition = args[CONDITION] if CONDITION in args else None
-    return LocationAction(tp_id, condition, {
+    return LocationAction(tp_id, condition, _with_window(args, {
         SPAN: args[SPAN],
         FIRE_COUNT: args.get(FIRE_COUNT, '1'),
         FIRE_PERIOD: args.get(FIRE_PERIOD, '1000'),
-    }, LocationAction.ActionType.Span)
+    }), LocationAction.ActionType.Span)
 
 
 def build_trigger(tp_id: str, path: str, line_no: int, args: Dict[str, str], watches: List[str],
diff --git a/src/deep/processor/context/action_context.py b/src/deep/processor/context/action_context.py
index 2627f93..c554e0f 100644
--- a/src/deep/processor/context/action_context.py
+++ b/src/deep/processor/context/action_context.py
@@ -63,8 +63,7 @@ class ActionContext(abc.ABC):
 
     def __exit__(self, exception_type, exception_value, exception_traceback):
         """Exit and close the context."""
-        if self.has_triggered():
-            self.location_action.record_triggered(self.trigger_context.ts)
+        pass
 
     def eval_watch(self, watch: str, source: str) -> Tuple[WatchResult, Dict[str, Variable], str]:
         """
@@ -100,6 +99,9 @@ class ActionContext(abc.ABC):
 
     def process(self):
         """Process the action."""
+        # record before we process, so no other thread can use the same permit
+        if self.location_action.record_triggered(self.trigger_context.ts) is False:
+            return None
         try:
             return self._process_action()
         finally:
-- 
2.43.0


From 991a72cb94b91c8080b5bab6b70629c18a1c1a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:41 +0000
Subject: [PATCH 14/31] fix: keep the fire limits of a tracepoint that stays
 installed across a config update

Every update replaced all actions, so the fire count of a tracepoint started again when another tracepoint changed.
---
 src/deep/api/tracepoint/trigger.py   |  9 +++++++++
 src/deep/config/tracepoint_config.py | 14 ++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/src/deep/api/tracepoint/trigger.py b/src/deep/api/tracepoint/trigger.py
index 105a0c7..0553f91 100644
--- a/src/deep/api/tracepoint/trigger.py
+++ b/src/deep/api/tracepoint/trigger.py
@@ -199,6 +199,15 @@ class LocationAction(object):
             self.__stats.fire(ts)
             return True
 
+    def resume_from(self, previous: 'LocationAction'):
+        """
+        Continue with the fire limits of the action we are replacing.
+
+        :param previous: the same action, from the previous config
+        """
+        self.__stats = previous.__stats
+        self.__lock = previous.__lock
+
     def __get_int(self, name: str, default_value: int):
         try:
             return int(self.__config.get(name, default_value))
diff --git a/src/deep/config/tracepoint_config.py b/src/deep/config/tracepoint_config.py
index a14a3fd..fb2146e 100644
--- a/src/deep/config/tracepoint_config.py
+++ b/src/deep/config/tracepoint_config.py
@@ -88,9 +88,23 @@ class TracepointConfigService:
             old_config = self._tracepoint_config
             self._last_update = ts
             self._current_hash = new_hash
+            self.__resume_actions(old_config, new_config)
             self._tracepoint_config = new_config
         self.__trigger_update(old_hash, old_config)
 
+    @staticmethod
+    def __resume_actions(old_config: List['Trigger'], new_config: List['Trigger']):
+        """A tracepoint that is in both configs stays installed, so it has to continue with the same fire limits."""
+        old_actions = [(trigger, action) for trigger in old_config for action in trigger.actions]
+        for trigger in new_config:
+            for action in trigger.actions:
+                for idx, (old_trigger, old_action) in enumerate(old_actions):
+                    if old_trigger.id == trigger.id and old_action.action_type == action.action_type \
+                            and old_action == action:
+                        action.resume_from(old_action)
+                        del old_actions[idx]
+                        break
+
     def __trigger_update(self, old_hash, old_config):
         ts = self._last_update
         if self._task_handler is not None:
-- 
2.43.0


From 4550105d604d77d8bedabf7dabdcd7e0e5445e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:17 +0000
Subject: [PATCH 15/31] fix: a function tracepoint without a name only acts
 when the function at its line is entered

The range check was inverted and applied to every event, it read the source from disk for each event (raising when there is
no source), and all of these tracepoints in a file shared one id, so they were merged into one.
---
 src/deep/api/tracepoint/trigger.py | 55 +++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 17 deletions(-)

diff --git a/src/deep/api/tracepoint/trigger.py b/src/deep/api/tracepoint/trigger.py
index 0553f91..5db8886 100644
--- a/src/deep/api/tracepoint/trigger.py
+++ b/src/deep/api/tracepoint/trigger.py
@@ -29,10 +29,11 @@
 """Handlers for triggers and action configs."""
 
 import abc
-import inspect
 import threading
+from dis import findlinestarts
 from enum import Enum
-from types import FrameType
+from inspect import CO_OPTIMIZED
+from types import CodeType, FrameType
 
 from typing import Optional, Dict, List
 
@@ -484,16 +485,18 @@ class LineLocation(Location):
 class FunctionLocation(Location):
     """A location for a method entry/exit/capture point."""
 
-    def __init__(self, path: str, function_name: Optional[str], position: Location.Position):
+    def __init__(self, path: str, function_name: Optional[str], position: Location.Position, target_line: int = -1):
         """
         Create a new method location.
 
         :param path:  the source file path
         :param function_name: the function name
         :param position: the position
+        :param target_line: the line that is in the function, when we do not have a function name
         """
         super().__init__(position)
         self.__function_name = function_name
+        self.__target_line = target_line if function_name is None else -1
         self.__path = path
 
     def at_location(self, event: str, file: str, line: int, function_name: str, frame: FrameType):
@@ -507,29 +510,47 @@ class FunctionLocation(Location):
         :param frame: the triggering frame object
         :return: True, if we are at this location we expect, else False.
         """
-        if file != self.path:
+        if file != self.path or event != "call":
             return False
 
-        # if method_name is not set then we need to discover it from the frame.
-        if self.__function_name is None:
-            # load source lines
-            lines, start = inspect.getsourcelines(frame)
-            end = start + len(lines)
-            # if the targeted line is in the range of start to end
-            if start <= line >= end:
-                # set the method to this name (so we do not need to look it up again)
+        # if method_name is not set then we are looking for the function that the targeted line is in
+        if self.__target_line > 0:
+            if self.__find_function(frame.f_code) is frame.f_code:
                 self.__function_name = function_name
                 return True
             return False
 
-        if event == "call" and function_name == self.__function_name:
-            return True
-        return False
+        return function_name == self.__function_name
+
+    def __find_function(self, code: CodeType) -> Optional[CodeType]:
+        # if the line is in a nested function, then that is the function we want
+        for const in code.co_consts:
+            if isinstance(const, CodeType):
+                found = self.__find_function(const)
+                if found is not None:
+                    return found
+        # modules, classes, lambdas, comprehensions etc. are not functions we can target
+        if not code.co_flags & CO_OPTIMIZED or code.co_name.startswith('<'):
+            return None
+        if code.co_firstlineno <= self.__target_line <= max(self.__code_lines(code)):
+            return code
+        return None
+
+    def __code_lines(self, code: CodeType):
+        yield code.co_firstlineno
+        for _, line in findlinestarts(code):
+            if line is not None:
+                yield line
+        for const in code.co_consts:
+            if isinstance(const, CodeType):
+                yield from self.__code_lines(const)
 
     @property
     def id(self):
         """The location id."""
-        return "%s#%s" % (self.path, self.__function_name)
+        if self.__target_line > 0:
+            return "%s#function@%s" % (self.path, self.__target_line)
+        return "%s#%s()" % (self.path, self.__function_name)
 
     @property
     def path(self):
@@ -682,7 +703,7 @@ def build_trigger(tp_id: str, path: str, line_no: int, args: Dict[str, str], wat
     if stage_ in LINE_STAGES:
         location = LineLocation(path, line_no, position)
     elif stage_ in METHOD_STAGES:
-        location = FunctionLocation(path, args.get(METHOD_NAME, None), position)
+        location = FunctionLocation(path, args.get(METHOD_NAME, None) or None, position, line_no)
     else:
         return None
 
-- 
2.43.0


From de8ed339b3d533d53e78a273dd2311a8b2c5109e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:58 +0000
Subject: [PATCH 16/31] fix: a snapshot names the tracepoint that was
 configured

The tracepoint of a snapshot was rebuilt from the config of the action, so it lost the arguments (and for function
tracepoints the line) that were configured, and had arguments that were not.
---
 src/deep/api/tracepoint/trigger.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/deep/api/tracepoint/trigger.py b/src/deep/api/tracepoint/trigger.py
index 5db8886..ec31e03 100644
--- a/src/deep/api/tracepoint/trigger.py
+++ b/src/deep/api/tracepoint/trigger.py
@@ -89,6 +89,7 @@ class LocationAction(object):
         self.__lock = threading.RLock()
         self.__action_type = action_type
         self.__location: Optional['Location'] = None
+        self.__tracepoint: Optional[TracePointConfig] = None
 
     @property
     def id(self) -> str:
@@ -148,6 +149,8 @@ class LocationAction(object):
     @property
     def tracepoint(self) -> TracePointConfig:
         """Get the tracepoint config for this trigger."""
+        if self.__tracepoint is not None:
+            return self.__tracepoint
         args = dict(self.__config)
         if WATCHES in args:
             del args[WATCHES]
@@ -234,6 +237,16 @@ class LocationAction(object):
             return True
         return False
 
+    def with_tracepoint(self, tracepoint: TracePointConfig) -> 'LocationAction':
+        """
+        Attach the tracepoint config this action was created from.
+
+        :param tracepoint: the tracepoint config
+        :return: self
+        """
+        self.__tracepoint = tracepoint
+        return self
+
     def with_location(self, location: 'Location') -> 'LocationAction':
         """
         Attach the location to this action.
@@ -712,7 +725,8 @@ def build_trigger(tp_id: str, path: str, line_no: int, args: Dict[str, str], wat
     metric_action = build_metric_action(tp_id, args, metrics)
     span_action = build_span_action(tp_id, args)
 
-    actions = [action for action in [snap_action, log_action, metric_action, span_action] if
+    tracepoint = TracePointConfig(tp_id, path, line_no, dict(args), list(watches), metrics)
+    actions = [action.with_tracepoint(tracepoint) for action in [snap_action, log_action, metric_action, span_action] if
                action is not None]
 
     return Trigger(location, actions)
-- 
2.43.0


From 73697d38c8dbff4200f84e6b8c17dce040b0eb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:08 +0000
Subject: [PATCH 17/31] fix: defer the snapshot of a capture stage tracepoint

The stage was not part of the action config, so the result of the line or function was never captured.
---
 src/deep/api/tracepoint/trigger.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/deep/api/tracepoint/trigger.py b/src/deep/api/tracepoint/trigger.py
index ec31e03..92314a9 100644
--- a/src/deep/api/tracepoint/trigger.py
+++ b/src/deep/api/tracepoint/trigger.py
@@ -621,14 +621,17 @@ def build_snapshot_action(tp_id: str, args: Dict[str, str], watches: List[str])
             return None
 
     condition = args[CONDITION] if CONDITION in args else None
-    return LocationAction(tp_id, condition, _with_window(args, {
+    config = _with_window(args, {
         WATCHES: watches,
         FRAME_TYPE: args.get(FRAME_TYPE, SINGLE_FRAME_TYPE),
         STACK_TYPE: args.get(STACK_TYPE, STACK),
         FIRE_COUNT: args.get(FIRE_COUNT, '1'),
         FIRE_PERIOD: args.get(FIRE_PERIOD, '1000'),
         LOG_MSG: args.get(LOG_MSG, None),
-    }), LocationAction.ActionType.Snapshot)
+    })
+    if STAGE in args:
+        config[STAGE] = args[STAGE]
+    return LocationAction(tp_id, condition, config, LocationAction.ActionType.Snapshot)
 
 
 def build_log_action(tp_id: str, args: Dict[str, str]) -> Optional[LocationAction]:
-- 
2.43.0


From 7b0597ab07f3ea4e08d94897706a0f9b8829625a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:17 +0000
Subject: [PATCH 18/31] fix: a tracepoint that cannot be interpreted only
 affects itself

One tracepoint with e.g. an unknown stage or metric type discarded the complete poll response.
---
 src/deep/api/deep.py      |  2 +-
 src/deep/grpc/__init__.py | 12 ++++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/deep/api/deep.py b/src/deep/api/deep.py
index 11eec45..65593a8 100644
--- a/src/deep/api/deep.py
+++ b/src/deep/api/deep.py
@@ -119,7 +119,7 @@ class Deep:
             watches = []
         if args is None:
             args = {}
-        tp_id = self.config.tracepoints.add_custom(path, line, args, watches, metrics)
+        tp_id = self.config.tracepoints.add_custom(path, line, dict(args), list(watches), list(metrics))
         return TracepointRegistration(tp_id, self.config.tracepoints)
 
 
diff --git a/src/deep/grpc/__init__.py b/src/deep/grpc/__init__.py
index 5bca57d..4d53f72 100644
--- a/src/deep/grpc/__init__.py
+++ b/src/deep/grpc/__init__.py
@@ -29,6 +29,7 @@ from deepproto.proto.resource.v1.resource_pb2 import Resource
 # noinspection PyUnresolvedReferences
 from deepproto.proto.tracepoint.v1.tracepoint_pb2 import MetricType
 
+from deep import logging
 from .grpc_service import GRPCService  # noqa: F401
 from ..api.tracepoint.tracepoint_config import LabelExpression, MetricDefinition
 from ..api.tracepoint.trigger import build_trigger, Trigger
@@ -120,8 +121,15 @@ def convert_response(response) -> List[Trigger]:
     all_triggers: Dict[str, Trigger] = {}
     for r in response:
         # from the incoming tracepoints create a Trigger with actions
-        trigger = build_trigger(r.ID, r.path, r.line_number, dict(r.args), [w for w in r.watches],
-                                __convert_metric_definition(r.metrics))
+        try:
+            trigger = build_trigger(r.ID, r.path, r.line_number, dict(r.args), [w for w in r.watches],
+                                    __convert_metric_definition(r.metrics))
+        except Exception:
+            logging.exception("Cannot interpret tracepoint: %s", r)
+            continue
+        if trigger is None:
+            logging.error("Cannot interpret tracepoint: %s", r)
+            continue
         location_id = trigger.id
         # if we already have a trigger for this location then merge the new actions into it
         if location_id in all_triggers:
-- 
2.43.0


From 530e8a05b50fc458fbcfc8f8431fd972be431b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:54 +0000
Subject: [PATCH 19/31] fix: collect variables breadth first

The search took the next node from the end of the queue, so it was a depth first search from the last variable.
---
 src/deep/processor/bfs/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/deep/processor/bfs/__init__.py b/src/deep/processor/bfs/__init__.py
index 13b44f9..9025889 100644
--- a/src/deep/processor/bfs/__init__.py
+++ b/src/deep/processor/bfs/__init__.py
@@ -21,6 +21,7 @@ approach. This means scanning all local values before proceeding to the next dep
 """
 
 import abc
+from collections import deque
 from typing import Callable, List
 
 from deep.api.tracepoint import VariableId
@@ -150,10 +151,10 @@ def breadth_first_search(node: 'Node', consumer: Callable[['Node'], bool]):
     :param node: the initial node to start the search
     :param consumer: the consumer to call on each node
     """
-    queue = [node]
+    queue = deque([node])
 
     while len(queue) != 0:
-        pop = queue.pop()
+        pop = queue.popleft()
         can_continue = consumer(pop)
 
         if can_continue:
-- 
2.43.0


From 6f862d26e06494d6ddf9e9d1d72a63653311d470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 20/31] fix: every snapshot has its own, closed variable table

Tracepoints that share a trace event shared one variable cache and table, so the
snapshots could lose or alter each others variables, and a watch could be given a
reference to an entry that did not exist.
---
 src/deep/api/tracepoint/eventsnapshot.py      |  2 +-
 src/deep/processor/context/action_context.py  | 44 ++++++++++++---
 src/deep/processor/context/snapshot_action.py |  3 +-
 src/deep/processor/context/trigger_context.py |  4 --
 src/deep/processor/frame_collector.py         | 19 +++++--
 src/deep/processor/variable_processor.py      | 55 ++++++++++++++++---
 src/deep/processor/variable_set_processor.py  | 52 ++++++++++++++----
 7 files changed, 142 insertions(+), 37 deletions(-)

diff --git a/src/deep/api/tracepoint/eventsnapshot.py b/src/deep/api/tracepoint/eventsnapshot.py
index c97a064..1536e1f 100644
--- a/src/deep/api/tracepoint/eventsnapshot.py
+++ b/src/deep/api/tracepoint/eventsnapshot.py
@@ -50,7 +50,7 @@ class EventSnapshot:
 
     def complete(self):
         """Close and complete the snapshot."""
-        self._duration_nanos = time_ns() - self._ts_nanos
+        self._duration_nanos = max(0, time_ns() - self._ts_nanos)
 
     def add_watch_result(self, watch_result: 'WatchResult'):
         """
diff --git a/src/deep/processor/context/action_context.py b/src/deep/processor/context/action_context.py
index c554e0f..b6400b3 100644
--- a/src/deep/processor/context/action_context.py
+++ b/src/deep/processor/context/action_context.py
@@ -34,8 +34,9 @@ from typing import Tuple, TYPE_CHECKING, Dict
 import deep.logging
 from deep.api.tracepoint.eventsnapshot import WATCH_SOURCE_CAPTURE
 from deep import logging
-from deep.api.tracepoint import WatchResult, Variable
-from deep.processor.variable_set_processor import VariableSetProcessor
+from deep.api.tracepoint import WatchResult, Variable, VariableId
+from deep.processor.variable_processor import safe_str
+from deep.processor.variable_set_processor import VariableSetProcessor, VariableCacheProvider, VariableProcessorConfig
 from deep.utils import str2bool
 
 if TYPE_CHECKING:
@@ -56,6 +57,27 @@ class ActionContext(abc.ABC):
         self.trigger_context: 'TriggerContext' = parent
         self.location_action: 'LocationAction' = action
         self._triggered = False
+        self.__var_cache = VariableCacheProvider()
+        self.__collection_config = VariableProcessorConfig()
+
+    @property
+    def var_cache(self) -> VariableCacheProvider:
+        """The cache of the variables collected by this action, these must not be shared with another action."""
+        return self.__var_cache
+
+    @property
+    def collection_config(self) -> VariableProcessorConfig:
+        """The variable processing config."""
+        return self.__collection_config
+
+    def collect_for(self, action_context: 'ActionContext'):
+        """
+        Collect variables on behalf of another action.
+
+        :param action_context: the action context we are collecting for
+        """
+        self.__var_cache = action_context.var_cache
+        self.__collection_config = action_context.collection_config
 
     def __enter__(self):
         """Enter and open the context."""
@@ -73,16 +95,17 @@ class ActionContext(abc.ABC):
         :param watch: The watch expression to evaluate.
         :return: Tuple with WatchResult, collected variables, and the log string for the expression
         """
-        var_processor = VariableSetProcessor({}, self.trigger_context.var_cache)
+        var_processor = VariableSetProcessor({}, self.var_cache, self.collection_config)
 
         try:
             result = self.trigger_context.evaluate_expression(watch)
             variable_id, log_str = var_processor.process_variable(watch, result)
 
-            return WatchResult(source, watch, variable_id), var_processor.var_lookup, log_str
+            return self.__watch_result(source, watch, variable_id), var_processor.var_lookup, log_str
         except BaseException as e:
             logging.exception("Error evaluating watch %s", watch)
-            return WatchResult(source, watch, None, str(e)), {}, str(e)
+            error = safe_str(e)
+            return WatchResult(source, watch, None, error), var_processor.var_lookup, error
 
     def process_capture_variable(self, name: str, variable: any) -> Tuple[WatchResult, Dict[str, Variable], str]:
         """
@@ -92,10 +115,17 @@ class ActionContext(abc.ABC):
         :param variable: the value to process
         :return: Tuple with WatchResult, collected variables, and the log string for the expression
         """
-        var_processor = VariableSetProcessor({}, self.trigger_context.var_cache)
+        var_processor = VariableSetProcessor({}, self.var_cache, self.collection_config)
         variable_id, log_str = var_processor.process_variable(name, variable)
 
-        return WatchResult(WATCH_SOURCE_CAPTURE, name, variable_id), var_processor.var_lookup, log_str
+        return self.__watch_result(WATCH_SOURCE_CAPTURE, name, variable_id), var_processor.var_lookup, log_str
+
+    @staticmethod
+    def __watch_result(source: str, name: str, variable_id: VariableId) -> WatchResult:
+        if variable_id.vid is None:
+            # the value was not collected
+            return WatchResult(source, name, None, "Max variables reached")
+        return WatchResult(source, name, variable_id)
 
     def process(self):
         """Process the action."""
diff --git a/src/deep/processor/context/snapshot_action.py b/src/deep/processor/context/snapshot_action.py
index 0c70968..ad89be0 100644
--- a/src/deep/processor/context/snapshot_action.py
+++ b/src/deep/processor/context/snapshot_action.py
@@ -110,7 +110,7 @@ class SnapshotActionContext(FrameCollectorContext, ActionContext):
     def _process_action(self):
         collector = FrameCollector(self, self.trigger_context.frame)
 
-        frames, variables = collector.collect(self.trigger_context.vars, self.trigger_context.var_cache)
+        frames, variables = collector.collect({}, self.var_cache)
 
         snapshot = EventSnapshot(self.location_action.tracepoint, self.trigger_context.ts,
                                  self.trigger_context.resource, frames, variables)
@@ -127,6 +127,7 @@ class SnapshotActionContext(FrameCollectorContext, ActionContext):
             context = LogActionContext(self.trigger_context, LocationAction(self.location_action.id, None, {
                 LOG_MSG: log_msg,
             }, LocationAction.ActionType.Log))
+            context.collect_for(self)
             log, watches, log_vars = context.process_log(log_msg)
             snapshot.log_msg = log
             for watch in watches:
diff --git a/src/deep/processor/context/trigger_context.py b/src/deep/processor/context/trigger_context.py
index c0ed968..d095190 100644
--- a/src/deep/processor/context/trigger_context.py
+++ b/src/deep/processor/context/trigger_context.py
@@ -21,7 +21,6 @@ from typing import Dict, Optional, List
 
 import deep.logging
 from deep.api.plugin import TracepointLogger
-from deep.api.tracepoint import Variable
 from deep.api.tracepoint.trigger import LocationAction
 from deep.config import ConfigService
 from deep.processor.context.action_context import NoActionContext, ActionContext
@@ -31,7 +30,6 @@ from deep.processor.context.metric_action import MetricActionContext
 from deep.processor.context.snapshot_action import SnapshotActionContext
 from deep.processor.context.span_action import SpanActionContext
 from deep.processor.frame_collector import FrameCollector
-from deep.processor.variable_set_processor import VariableCacheProvider
 from deep.push import PushService
 from deep.utils import time_ns
 
@@ -63,9 +61,7 @@ class TriggerContext:
         self.__ts: int = time_ns()
         self.__id: str = str(uuid.uuid4())
         self.__frame_collector: Optional[FrameCollector] = None
-        self.var_cache = VariableCacheProvider()
         self.callbacks: List[ActionCallback] = []
-        self.vars: Dict[str: Variable] = {}
 
     def __enter__(self):
         """Start the 'with' statement and open this context."""
diff --git a/src/deep/processor/frame_collector.py b/src/deep/processor/frame_collector.py
index e7850bb..e7d0d15 100644
--- a/src/deep/processor/frame_collector.py
+++ b/src/deep/processor/frame_collector.py
@@ -19,8 +19,10 @@ import abc
 from types import FrameType
 from typing import Tuple, Dict, List
 
+from deep import logging
 from deep.api.tracepoint import StackFrame, Variable
 from deep.utils import time_ns
+from .variable_processor import type_name
 from .variable_set_processor import VariableCacheProvider, VariableSetProcessor, VariableProcessorConfig
 
 
@@ -81,12 +83,14 @@ class FrameCollector:
         self.__has_time_exceeded = False
         self.__source = source
         self.__frame = frame
+        # use our own start, so that other tracepoints at this location do not use up our time
+        self.__start = time_ns()
 
     def __time_exceeded(self) -> bool:
         if self.__has_time_exceeded:
             return self.__has_time_exceeded
 
-        duration = (time_ns() - self.__source.ts) / 1000000  # make duration ms not ns
+        duration = (time_ns() - self.__start) / 1000000  # make duration ms not ns
         self.__has_time_exceeded = duration > self.__source.max_tp_process_time
         return self.__has_time_exceeded
 
@@ -137,18 +141,23 @@ class FrameCollector:
         filename = frame.f_code.co_filename
         func_name = frame.f_code.co_name
 
-        f_locals = frame.f_locals
+        try:
+            # this can be the actual dict used by the program (e.g. the globals), so use a copy
+            f_locals = dict(frame.f_locals)
+        except BaseException:
+            logging.exception("Cannot collect locals of %s", func_name)
+            f_locals = {}
         _self = f_locals.get('self', None)
         class_name = None
-        if _self is not None and hasattr(_self, '__class__'):
-            class_name = _self.__class__.__name__
+        if _self is not None:
+            class_name = type_name(type(_self))
 
         var_ids = []
         # only process vars if we are under the time limit
         if collect_vars and not self.__time_exceeded():
             processor = VariableSetProcessor(var_lookup, var_cache, self.__source.collection_config)
             # we process the vars as a single dict of 'locals'
-            variable, log_str = processor.process_variable("locals", f_locals)
+            variable = processor.collect_variable("locals", f_locals)
             # now ee 'unwrap' the locals, so they are on the frame directly.
             if variable.vid in var_lookup:
                 variable_val = var_lookup[variable.vid]
diff --git a/src/deep/processor/variable_processor.py b/src/deep/processor/variable_processor.py
index aae8bf4..c4adf8c 100644
--- a/src/deep/processor/variable_processor.py
+++ b/src/deep/processor/variable_processor.py
@@ -179,6 +179,30 @@ def var_modifiers(var_name: str) -> List[str]:
     return []
 
 
+def safe_str(value: any) -> str:
+    """
+    Convert a value to a string, with a placeholder for values that cannot be converted.
+
+    :param value: the value
+    :return: the string, this is never a subtype of string
+    """
+    try:
+        return str.__str__(str(value))
+    except BaseException:
+        # it is possible for str to fail if there is a custom __str__ function
+        return '<class \'%s\'>@%s' % (type_name(type(value)), id(value))
+
+
+def type_name(variable_type: type) -> str:
+    """
+    Get the real name of the type.
+
+    :param variable_type: the type
+    :return: the name of the type, ignoring any custom __name__ of the meta class
+    """
+    return type.__dict__['__name__'].__get__(variable_type)
+
+
 def variable_to_string(variable_type, var_value):
     """
     Convert the variable to a string.
@@ -255,6 +279,29 @@ def truncate_string(string, max_length):
     return string[:max_length], len(string) > max_length
 
 
+class VariableParent(ParentNode):
+    """The parent of the variables that are a child of another variable."""
+
+    def __init__(self, var_collector: Collector, variable_id: str):
+        """
+        Create a new parent.
+
+        :param var_collector: the collector we are using
+        :param variable_id: the id of the variable to attach children to
+        """
+        self.__var_collector = var_collector
+        self.__variable_id = variable_id
+
+    def add_child(self, child: VariableId):
+        """
+        Add a child to this parent.
+
+        :param child: the child to add.
+        """
+        # look for the child in the lookup and add this id to it
+        self.__var_collector.append_child(self.__variable_id, child)
+
+
 def process_child_nodes(
         var_collector: Collector,
         variable_id: str,
@@ -281,14 +328,8 @@ def process_child_nodes(
     if frame_depth + 1 >= var_collector.max_var_depth:
         return []
 
-    class VariableParent(ParentNode):
-
-        def add_child(self, child: VariableId):
-            # look for the child in the lookup and add this id to it
-            var_collector.append_child(variable_id, child)
-
     # scan the child based on type
-    return find_children_for_parent(var_collector, VariableParent(), var_value, variable_type)
+    return find_children_for_parent(var_collector, VariableParent(var_collector, variable_id), var_value, variable_type)
 
 
 def correct_names(name, val):
diff --git a/src/deep/processor/variable_set_processor.py b/src/deep/processor/variable_set_processor.py
index 537804f..78d876c 100644
--- a/src/deep/processor/variable_set_processor.py
+++ b/src/deep/processor/variable_set_processor.py
@@ -33,7 +33,7 @@ from typing import Tuple, Optional, Dict
 from deep.api.tracepoint import Variable, VariableId
 from deep.processor.bfs import ParentNode, Node, NodeValue, breadth_first_search
 from deep.processor.variable_processor import process_variable, \
-    process_child_nodes, Collector
+    process_child_nodes, safe_str, Collector
 
 
 class VariableCacheProvider:
@@ -48,6 +48,17 @@ class VariableCacheProvider:
     def __init__(self):
         """Create new cache."""
         self.__cache = {}
+        self.__values = []
+
+    def retain(self, value: any):
+        """
+        Keep the value for as long as this cache is used.
+
+        The identity of a value can be reused by another value, as soon as the value is released.
+
+        :param value: the value to keep
+        """
+        self.__values.append(value)
 
     def check_id(self, identity_hash_id) -> Optional[str]:
         """
@@ -103,6 +114,18 @@ class VariableProcessorConfig:
         self.max_string_length = max_string_length
 
 
+class RootParent(ParentNode):
+    """The parent of the variables that are not a child of another variable."""
+
+    def add_child(self, child):
+        """
+        Add a child to this parent.
+
+        :param child: the child to add.
+        """
+        pass
+
+
 class VariableSetProcessor(Collector):
     """Handle the processing of variables."""
 
@@ -125,30 +148,33 @@ class VariableSetProcessor(Collector):
 
         :param name: the variable name
         :param value: the variable value
-        :return:
+        :return: the id of the variable, and the string form of the value
+        """
+        return self.collect_variable(name, value), safe_str(value)
+
+    def collect_variable(self, name: str, value: any) -> VariableId:
+        """
+        Collect a variable name and value.
+
+        :param name: the variable name
+        :param value: the variable value
+        :return: the id of the variable, this has no vid if we are not able to collect any more variables
         """
         identity_hash_id = str(id(value))
         check_id = self.__var_cache.check_id(identity_hash_id)
         if check_id is not None:
             # this means the watch result is already in the var_lookup
-            return VariableId(check_id, name), str(value)
+            return VariableId(check_id, name)
 
         # else this is an unknown value so process breadth first
-        var_ids = []
-
-        class FrameParent(ParentNode):
-
-            def add_child(self, child):
-                var_ids.append(child)
-
-        root_parent = FrameParent()
+        root_parent = RootParent()
 
         initial_nodes = [Node(NodeValue(name, value), parent=root_parent)]
         breadth_first_search(Node(None, initial_nodes, root_parent), self.search_function)
 
         var_id = self.__var_cache.check_id(identity_hash_id)
 
-        return VariableId(var_id, name), str(value)
+        return VariableId(var_id, name)
 
     def search_function(self, node: Node) -> bool:
         """
@@ -168,6 +194,8 @@ class VariableSetProcessor(Collector):
             # this node has no value, continue with children
             return True
 
+        # keep the value, so the identity stays valid
+        self.__var_cache.retain(node_value.value)
         # process this node variable
         process_result = process_variable(self, node_value)
         var_id = process_result.variable_id
-- 
2.43.0


From 691a85c425718b0a1e6b831d3d4709c1573e8664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:59 +0000
Subject: [PATCH 21/31] fix: collect any value, a value we cannot read only
 affects itself

Values of types that only share the name of a built in type, objects without
attributes, keys that are not strings and objects that fail any access no longer
stop the collection of the snapshot.
---
 src/deep/processor/context/snapshot_action.py | 10 +-
 src/deep/processor/variable_processor.py      | 91 +++++++++++++------
 2 files changed, 71 insertions(+), 30 deletions(-)

diff --git a/src/deep/processor/context/snapshot_action.py b/src/deep/processor/context/snapshot_action.py
index ad89be0..f616af4 100644
--- a/src/deep/processor/context/snapshot_action.py
+++ b/src/deep/processor/context/snapshot_action.py
@@ -216,9 +216,13 @@ class DeferredSnapshotActionCallback(ActionCallback):
         :return: True, to keep this callback until next match.
         """
         if event in ['exception', 'return']:
-            watch, new_vars, _ = self.__action_context.process_capture_variable(event, arg)
-            self.__snapshot.add_watch_result(watch)
-            self.__snapshot.merge_var_lookup(new_vars)
+            try:
+                watch, new_vars, _ = self.__action_context.process_capture_variable(event, arg)
+                self.__snapshot.add_watch_result(watch)
+                self.__snapshot.merge_var_lookup(new_vars)
+            except BaseException:
+                # the rest of the snapshot is still of use
+                deep.logging.exception("Cannot capture %s", event)
 
         ctx.push_service.push_snapshot(self.__snapshot)
         return False
diff --git a/src/deep/processor/variable_processor.py b/src/deep/processor/variable_processor.py
index c4adf8c..a8290a0 100644
--- a/src/deep/processor/variable_processor.py
+++ b/src/deep/processor/variable_processor.py
@@ -22,6 +22,7 @@ and many options to consider when collecting.
 """
 
 import abc
+from types import MappingProxyType, TracebackType
 from typing import List
 
 from deep import logging
@@ -61,6 +62,10 @@ ITER_LIKE_TYPES = [
 # We cannot process child nodes of iterators so add the iterator types to the no child types.
 NO_CHILD_TYPES += ITER_LIKE_TYPES
 
+BUILT_IN_TYPES = (str, int, float, bool, type, type(abc), type(None), TracebackType, frozenset, set, list, tuple, dict,
+                  type(iter([])), type(reversed([])))
+"""The types that are named above, any other type can use the same name."""
+
 
 class Collector(abc.ABC):
     """A type that is used to manage variable collection."""
@@ -190,7 +195,7 @@ def safe_str(value: any) -> str:
         return str.__str__(str(value))
     except BaseException:
         # it is possible for str to fail if there is a custom __str__ function
-        return '<class \'%s\'>@%s' % (type_name(type(value)), id(value))
+        return '%s@%s' % (type.__repr__(type(value)), id(value))
 
 
 def type_name(variable_type: type) -> str:
@@ -203,6 +208,17 @@ def type_name(variable_type: type) -> str:
     return type.__dict__['__name__'].__get__(variable_type)
 
 
+def is_type_of(variable_type: type, type_names: List[str]) -> bool:
+    """
+    Check if the type is one of the named built in types.
+
+    :param variable_type: the type to check
+    :param type_names: the names of the built in types
+    :return: True, if this is one of the named types, and not just a type that uses the same name.
+    """
+    return type_name(variable_type) in type_names and any(variable_type is known for known in BUILT_IN_TYPES)
+
+
 def variable_to_string(variable_type, var_value):
     """
     Convert the variable to a string.
@@ -211,21 +227,17 @@ def variable_to_string(variable_type, var_value):
     :param var_value: the variable value
     :return: a string of the value
     """
-    if variable_type.__name__ in ITER_LIKE_TYPES:
+    if is_type_of(variable_type, ITER_LIKE_TYPES):
         # if interator like then make a custom string - we do not want to mess with iterators
         return 'Iterator of type: %s' % variable_type
     elif variable_type is dict \
-            or variable_type.__name__ in LIST_LIKE_TYPES:
+            or is_type_of(variable_type, LIST_LIKE_TYPES):
         # if we are a collection then we do not want to use built in string as this can be very
         # large, and quite pointless, instead we just get the size of the collection
         return 'Size: %s' % len(var_value)
     else:
-        try:
-            # everything else just gets a string value
-            return str(var_value)
-        except Exception:
-            # it is possible for str to fail if there is a custom __str__ function
-            return f'{type(var_value)}@{id(var_value)}'
+        # everything else just gets a string value
+        return safe_str(var_value)
 
 
 def process_variable(var_collector: Collector, node: NodeValue) -> VariableResponse:
@@ -261,7 +273,7 @@ def process_variable(var_collector: Collector, node: NodeValue) -> VariableRespo
                                                     var_collector.max_string_length)
 
     # create a variable for the lookup
-    variable = Variable(str(variable_type.__name__), variable_value_str, identity_hash_id, [], truncated)
+    variable = Variable(type_name(variable_type), variable_value_str, identity_hash_id, [], truncated)
     # add to lookup
     var_collector.append_variable(var_id, variable)
     # return result - and expand children
@@ -321,7 +333,7 @@ def process_child_nodes(
     """
     variable_type = type(var_value)
     # if the type is a type we do not want children from - return empty
-    if variable_type.__name__ in NO_CHILD_TYPES:
+    if is_type_of(variable_type, NO_CHILD_TYPES):
         return []
 
     # if the depth is more than we are configured - return empty
@@ -329,7 +341,13 @@ def process_child_nodes(
         return []
 
     # scan the child based on type
-    return find_children_for_parent(var_collector, VariableParent(var_collector, variable_id), var_value, variable_type)
+    try:
+        return find_children_for_parent(var_collector, VariableParent(var_collector, variable_id), var_value,
+                                        variable_type)
+    except BaseException:
+        # we cannot see into this value, but that must not affect the other variables
+        logging.exception("Cannot collect children of %s", type_name(variable_type))
+        return []
 
 
 def correct_names(name, val):
@@ -340,8 +358,9 @@ def correct_names(name, val):
     :param val: the variable name we are modifying
     :return: the new name to use
     """
-    prefix = "_" + name
-    if val.startswith(prefix):
+    # python ignores the leading underscores of the class name
+    prefix = "_" + name.lstrip("_")
+    if val.startswith(prefix + "__") and not val.endswith("__"):
         return val[len(prefix):]
     return val
 
@@ -358,20 +377,37 @@ def find_children_for_parent(var_collector: Collector, parent_node: ParentNode,
     :return: list of child nodes
     """
     if variable_type is dict:
-        return process_dict_breadth_first(parent_node, variable_type.__name__, value)
-    elif variable_type.__name__ in LIST_LIKE_TYPES:
+        return process_dict_breadth_first(parent_node, type_name(variable_type), value)
+    elif is_type_of(variable_type, LIST_LIKE_TYPES):
         return process_list_breadth_first(var_collector, parent_node, value)
-    elif isinstance(value, Exception):
-        return process_list_breadth_first(var_collector, parent_node, value.args)
-    elif hasattr(value, '__class__'):
-        return process_dict_breadth_first(parent_node, variable_type.__name__, value.__dict__, correct_names)
-    elif hasattr(value, '__dict__'):
-        return process_dict_breadth_first(parent_node, variable_type.__name__, value.__dict__)
+    elif issubclass(variable_type, Exception):
+        return process_list_breadth_first(var_collector, parent_node, BaseException.args.__get__(value))
+
+    attributes = attributes_of(value)
+    if attributes is not None:
+        return process_dict_breadth_first(parent_node, type_name(variable_type), attributes, correct_names)
     else:
-        logging.debug("Unknown type processed %s", variable_type)
+        logging.debug("Unknown type processed %s", type_name(variable_type))
         return []
 
 
+def attributes_of(value: any):
+    """
+    Get the attributes of an object, without using the attribute access functions of the object.
+
+    :param value: the object
+    :return: the attributes as a dict, or None if the object has no attributes
+    """
+    try:
+        attributes = object.__getattribute__(value, '__dict__')
+    except BaseException:
+        # not all objects have attributes (e.g. iterators, or types that use slots)
+        return None
+    if issubclass(type(attributes), dict) or type(attributes) is MappingProxyType:
+        return attributes
+    return None
+
+
 def process_dict_breadth_first(parent_node, type_name, value, func=lambda x, y: y) -> List[Node]:
     """
     Process a dict value.
@@ -386,10 +422,11 @@ def process_dict_breadth_first(parent_node, type_name, value, func=lambda x, y:
     :param func:
     :return (list): the collected child nodes
     """
-    # we wrap the keys() in a call to list to prevent concurrent changes
-    return [Node(value=NodeValue(func(type_name, key), value[key], key), parent=parent_node) for key in
-            list(value.keys()) if
-            key in value]
+    # we wrap the items() in a call to list to prevent concurrent changes, this also does not need to look up the keys
+    items = list(dict.items(value) if issubclass(type(value), dict) else value.items())
+    # the keys of a dict can be any type, but the names of our nodes are always strings
+    items = [(safe_str(key), val) for key, val in items]
+    return [Node(value=NodeValue(func(type_name, key), val, key), parent=parent_node) for key, val in items]
 
 
 def process_list_breadth_first(var_collector: Collector, parent_node: ParentNode, value) -> List[Node]:
-- 
2.43.0


From c797b2892b56b15bdffdb927d98d6c8f3c2bab42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:35 +0000
Subject: [PATCH 22/31] fix: send every snapshot field, text that is not valid
 utf-8 no longer drops the snapshot

---
 src/deep/grpc/__init__.py | 29 +++++++++++++++++++++++------
 src/deep/push/__init__.py | 30 ++++++++++++++++--------------
 2 files changed, 39 insertions(+), 20 deletions(-)

diff --git a/src/deep/grpc/__init__.py b/src/deep/grpc/__init__.py
index 4d53f72..dd80563 100644
--- a/src/deep/grpc/__init__.py
+++ b/src/deep/grpc/__init__.py
@@ -20,7 +20,7 @@ We do not use the protobuf types throughout the project as they do not autocompl
 have type definitions that work in IDE. It also makes it easier to deal with agent functionality by
 having local types we can modify.
 """
-from typing import List, Dict
+from typing import List, Dict, Optional
 
 # noinspection PyUnresolvedReferences
 from deepproto.proto.common.v1.common_pb2 import KeyValue, AnyValue, ArrayValue, KeyValueList
@@ -35,6 +35,18 @@ from ..api.tracepoint.tracepoint_config import LabelExpression, MetricDefinition
 from ..api.tracepoint.trigger import build_trigger, Trigger
 
 
+def convert_text(value) -> Optional[str]:
+    """
+    Convert a value to text that can be sent.
+
+    :param value: the value to convert
+    :return: the value as text, any part that is not valid text is replaced
+    """
+    if value is None:
+        return None
+    return str(value).encode('utf-8', 'replace').decode('utf-8')
+
+
 def convert_value(value):
     """
     Convert a value from the python type.
@@ -46,8 +58,11 @@ def convert_value(value):
     if isinstance(value, bool):
         return AnyValue(bool_value=value)
     if isinstance(value, str):
-        return AnyValue(string_value=value)
+        return AnyValue(string_value=convert_text(value))
     if isinstance(value, int):
+        if not -2 ** 63 <= value < 2 ** 63:
+            # this does not fit the int value
+            return AnyValue(string_value=str(value))
         return AnyValue(int_value=value)
     if isinstance(value, float):
         return AnyValue(double_value=value)
@@ -55,18 +70,19 @@ def convert_value(value):
         return AnyValue(bytes_value=value)
     if isinstance(value, dict):
         return AnyValue(kvlist_value=__value_as_dict(value))
-    if isinstance(value, list):
+    if isinstance(value, (list, tuple)):
         return AnyValue(array_value=__value_as_list(value))
 
     return None
 
 
 def __value_as_dict(value):
-    return KeyValueList(values=[KeyValue(key=k, value=convert_value(v)) for k, v in value.items()])
+    return KeyValueList(values=[KeyValue(key=convert_text(k), value=convert_value(v)) for k, v in value.items()])
 
 
 def __value_as_list(value):
-    return ArrayValue(values=[convert_value(val) for val in value])
+    # there cannot be gaps in the list, so use an empty value if there is no value
+    return ArrayValue(values=[AnyValue() if val is None else val for val in map(convert_value, value)])
 
 
 def convert_resource(resource):
@@ -81,7 +97,8 @@ def convert_resource(resource):
 
 def __convert_attributes(attributes):
     return Resource(dropped_attributes_count=attributes.dropped,
-                    attributes=[KeyValue(key=k, value=convert_value(v)) for k, v in attributes.items()])
+                    attributes=[KeyValue(key=convert_text(k), value=convert_value(v)) for k, v in
+                                attributes.items()])
 
 
 def __convert_static_value(value):
diff --git a/src/deep/push/__init__.py b/src/deep/push/__init__.py
index d90a90e..cf86acd 100644
--- a/src/deep/push/__init__.py
+++ b/src/deep/push/__init__.py
@@ -35,18 +35,19 @@ __all__ = [PushService.__name__]
 
 from ..api.tracepoint import TracePointConfig as TrPoCo, EventSnapshot, StackFrame as StFr, WatchResult as WaRe, \
     Variable as Var, VariableId as VarId
-from ..grpc import convert_value
+from ..grpc import convert_value, convert_text
 
 
 def __convert_tracepoint(tracepoint: TrPoCo):
-    return TracePointConfig(ID=tracepoint.id, path=tracepoint.path, line_number=tracepoint.line_no,
-                            args=tracepoint.args,
-                            watches=tracepoint.watches)
+    return TracePointConfig(ID=tracepoint.id, path=convert_text(tracepoint.path), line_number=tracepoint.line_no,
+                            args={convert_text(k): convert_text(v) for k, v in tracepoint.args.items()},
+                            watches=[convert_text(watch) for watch in tracepoint.watches])
 
 
 def __convert_frame(frame: StFr):
-    return StackFrame(file_name=frame.file_name, short_path=frame.short_path, method_name=frame.method_name,
-                      line_number=frame.line_number, class_name=frame.class_name, is_async=frame.is_async,
+    return StackFrame(file_name=convert_text(frame.file_name), short_path=convert_text(frame.short_path),
+                      method_name=convert_text(frame.method_name),
+                      line_number=frame.line_number, class_name=convert_text(frame.class_name), is_async=frame.is_async,
                       column_number=frame.column_number, variables=[__convert_variable_id(v) for v in frame.variables],
                       app_frame=frame.app_frame,
                       transpiled_file_name=frame.transpiled_file_name,
@@ -60,20 +61,20 @@ def __convert_watch_source(source):
 
 
 def __convert_watch(watch: WaRe):
-    return WatchResult(expression=watch.expression, good_result=__convert_variable_id(watch.result),
-                       error_result=watch.error, source=__convert_watch_source(watch.source))
+    return WatchResult(expression=convert_text(watch.expression), good_result=__convert_variable_id(watch.result),
+                       error_result=convert_text(watch.error), source=__convert_watch_source(watch.source))
 
 
 def __convert_variable(variable: Var):
-    return Variable(type=variable.type, value=variable.value, hash=variable.hash,
+    return Variable(type=convert_text(variable.type), value=convert_text(variable.value), hash=variable.hash,
                     children=[__convert_variable_id(c) for c in variable.children], truncated=variable.truncated)
 
 
 def __convert_variable_id(variable: VarId):
     if variable is None:
         return None
-    return VariableID(ID=variable.vid, name=variable.name, modifiers=variable.modifiers,
-                      original_name=variable.original_name)
+    return VariableID(ID=variable.vid, name=convert_text(variable.name), modifiers=variable.modifiers,
+                      original_name=convert_text(variable.original_name))
 
 
 def __convert_lookup(var_lookup):
@@ -95,11 +96,12 @@ def convert_snapshot(snapshot: EventSnapshot) -> Snapshot:
                         var_lookup=__convert_lookup(snapshot.var_lookup),
                         ts_nanos=snapshot.ts_nanos, frames=[__convert_frame(f) for f in snapshot.frames],
                         watches=[__convert_watch(w) for w in snapshot.watches],
-                        attributes=[KeyValue(key=k, value=convert_value(v)) for k, v in snapshot.attributes.items()],
+                        attributes=[KeyValue(key=convert_text(k), value=convert_value(v)) for k, v in
+                                    snapshot.attributes.items()],
                         duration_nanos=snapshot.duration_nanos,
-                        resource=[KeyValue(key=k, value=convert_value(v)) for k, v in
+                        resource=[KeyValue(key=convert_text(k), value=convert_value(v)) for k, v in
                                   snapshot.resource.attributes.items()],
-                        log_msg=snapshot.log_msg)
+                        log_msg=convert_text(snapshot.log_msg))
     except Exception:
         # todo should this return None?
         logging.exception("Error converting to protobuf")
-- 
2.43.0


From 5e2060c872ec32bafd9e6210a266eaedf35446f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:03 +0000
Subject: [PATCH 23/31] fix: log templates evaluate any expression, and the
 logger gets the ids in their own place

---
 src/deep/processor/context/log_action.py   |  45 +++----
 src/deep/processor/context/log_template.py | 147 +++++++++++++++++++++
 2 files changed, 164 insertions(+), 28 deletions(-)
 create mode 100644 src/deep/processor/context/log_template.py

diff --git a/src/deep/processor/context/log_action.py b/src/deep/processor/context/log_action.py
index 3216168..92d9295 100644
--- a/src/deep/processor/context/log_action.py
+++ b/src/deep/processor/context/log_action.py
@@ -32,6 +32,7 @@ from typing import TYPE_CHECKING, List, Dict, Optional
 
 from .action_context import ActionContext
 from .action_results import ActionResult, ActionCallback
+from .log_template import parse_template, format_field
 from ...api.tracepoint.constants import LOG_MSG
 from ...api.tracepoint.eventsnapshot import WATCH_SOURCE_LOG
 from ...api.tracepoint.trigger import LocationAction
@@ -62,38 +63,26 @@ class LogActionContext(ActionContext):
             (list) watch: the watch results from the expressions
             (dic) vars: the collected variables
         """
-        ctx_self = self
         watch_results = []
         _var_lookup = {}
 
-        class FormatDict(dict):
-            """This type is used in the log process to ensure that missing values are formatted don't error."""
-
-            def __missing__(self, key):
-                return "{%s}" % key
-
-        import string
-
-        class FormatExtractor(string.Formatter):
-            """
-            Allows logs to be formatted correctly.
-
-            This type allows us to use watches within log strings and collect the watch
-            as well as interpolate the values.
-            """
-
-            def get_field(self, field_name, args, kwargs):
-                # evaluate watch
-                watch, var_lookup, log_str = ctx_self.eval_watch(field_name, WATCH_SOURCE_LOG)
-                # collect data
-                watch_results.append(watch)
-                _var_lookup.update(var_lookup)
-
-                return log_str, field_name
-
-        log_msg = "[deep] %s" % FormatExtractor().vformat(log_msg, (), FormatDict(self.trigger_context.locals))
+        log_msg = "[deep] %s" % self.__render(log_msg, watch_results, _var_lookup)
         return log_msg, watch_results, _var_lookup
 
+    def __render(self, template: str, watch_results: list, var_lookup: dict) -> str:
+        rendered = []
+        for literal, expression, conversion, spec in parse_template(str(template)):
+            rendered.append(literal)
+            if expression is None:
+                continue
+            # evaluate watch
+            watch, watch_lookup, log_str = self.eval_watch(expression, WATCH_SOURCE_LOG)
+            # collect data
+            watch_results.append(watch)
+            var_lookup.update(watch_lookup)
+            rendered.append(format_field(log_str, conversion, self.__render(spec, watch_results, var_lookup)))
+        return ''.join(rendered)
+
 
 class LogActionResult(ActionResult):
     """The result of a successful log action."""
@@ -118,5 +107,5 @@ class LogActionResult(ActionResult):
         """
         tracepoint_logger = ctx.config.tracepoint_logger
         if tracepoint_logger:
-            tracepoint_logger.log_tracepoint(self.log, ctx.id, self.action.id)
+            tracepoint_logger.log_tracepoint(self.log, self.action.id, ctx.id)
         return None
diff --git a/src/deep/processor/context/log_template.py b/src/deep/processor/context/log_template.py
new file mode 100644
index 0000000..a5c831e
--- /dev/null
+++ b/src/deep/processor/context/log_template.py
@@ -0,0 +1,147 @@
+#       Copyright (C) 2024  Intergral GmbH
+#
+#      This program is free software: you can redistribute it and/or modify
+#      it under the terms of the GNU Affero General Public License as published by
+#      the Free Software Foundation, either version 3 of the License, or
+#      (at your option) any later version.
+#
+#      This program is distributed in the hope that it will be useful,
+#      but WITHOUT ANY WARRANTY; without even the implied warranty of
+#      MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+#      GNU Affero General Public License for more details.
+#
+#      You should have received a copy of the GNU Affero General Public License
+#      along with this program.  If not, see <https://www.gnu.org/licenses/>.
+
+"""
+Parsing of the log message templates.
+
+The fields of a log message are python expressions, so they can contain any of the characters that have a meaning in a
+python format string (e.g. '!=', ':', or nested brackets and quotes). So we cannot use string.Formatter for this.
+"""
+
+import ast
+import re
+from typing import Generator, Optional, Tuple
+
+CONVERSION = re.compile(r'(.*)!([rsa])\s*', re.DOTALL)
+
+
+def parse_template(template: str) -> Generator[Tuple[str, Optional[str], Optional[str], str], None, None]:
+    """
+    Parse a template into the literal text, and the fields.
+
+    Any bracket that is not part of a field is treated as literal text.
+
+    :param template: the template to parse
+    :return: the literal text, followed by the expression (or None if there is no field), conversion and format spec of
+             the field
+    """
+    literal = ''
+    pos = 0
+    while pos < len(template):
+        char = template[pos]
+        if char in '{}' and template[pos:pos + 2] == char * 2:
+            # this is an escaped bracket
+            literal += char
+            pos += 2
+            continue
+        end = find_field_end(template, pos + 1) if char == '{' else None
+        if end is None:
+            literal += char
+            pos += 1
+            continue
+        yield (literal,) + split_field(template[pos + 1:end])
+        literal = ''
+        pos = end + 1
+    yield literal, None, None, ''
+
+
+def find_field_end(template: str, start: int) -> Optional[int]:
+    """
+    Find the bracket that closes a field.
+
+    :param template: the template
+    :param start: the start of the field
+    :return: the index of the closing bracket, or None if there isn't one
+    """
+    end = __find_close(template, start, True)
+    if end is None:
+        # the quotes might not be quotes
+        end = __find_close(template, start, False)
+    return end
+
+
+def __find_close(template: str, start: int, quotes: bool) -> Optional[int]:
+    depth = 0
+    quote = None
+    pos = start
+    while pos < len(template):
+        char = template[pos]
+        if quote is not None:
+            if char == '\\':
+                pos += 1
+            elif char == quote:
+                quote = None
+        elif quotes and char in '"\'':
+            quote = char
+        elif char == '{':
+            depth += 1
+        elif char == '}':
+            if depth == 0:
+                return pos
+            depth -= 1
+        pos += 1
+    return None
+
+
+def split_field(field: str) -> Tuple[str, Optional[str], str]:
+    """
+    Split a field into the expression, conversion and format spec.
+
+    :param field: the field
+    :return: the expression, conversion and format spec
+    """
+    if is_expression(field):
+        return field, None, ''
+    # the first place where what is in front is an expression is the end of the expression
+    for pos in [i for i, char in enumerate(field) if char == ':'] + [len(field)]:
+        expression, conversion = field[:pos], None
+        match = CONVERSION.fullmatch(expression)
+        if match:
+            expression, conversion = match.groups()
+        if is_expression(expression):
+            return expression, conversion, field[pos + 1:]
+    # this will fail to evaluate, and so show why
+    return field, None, ''
+
+
+def is_expression(text: str) -> bool:
+    """
+    Check if the text is a python expression.
+
+    :param text: the text to check
+    :return: True, if this is an expression
+    """
+    try:
+        ast.parse(text.strip(), mode='eval')
+        return True
+    except Exception:
+        return False
+
+
+def format_field(value: str, conversion: Optional[str], spec: str) -> str:
+    """
+    Format a value of a field.
+
+    :param value: the value
+    :param conversion: the conversion to use
+    :param spec: the format spec
+    :return: the formatted value, or just the value if the format cannot be applied
+    """
+    if conversion is not None:
+        value = {'r': repr, 's': str, 'a': ascii}[conversion](value)
+    try:
+        return format(value, spec)
+    except ValueError:
+        return value
-- 
2.43.0


From bcad0d7af0bda26e4e7f243e3715e567380912cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:52 +0000
Subject: [PATCH 24/31] fix: a plugin that fails only costs its own
 contribution

---
 src/deep/api/deep.py                          |  2 +-
 src/deep/api/plugin/__init__.py               | 24 ++++++++++++-------
 src/deep/processor/context/metric_action.py   |  9 +++++--
 src/deep/processor/context/snapshot_action.py |  4 ++--
 src/deep/processor/context/span_action.py     | 15 ++++++++----
 5 files changed, 37 insertions(+), 17 deletions(-)

diff --git a/src/deep/api/deep.py b/src/deep/api/deep.py
index 65593a8..9763d58 100644
--- a/src/deep/api/deep.py
+++ b/src/deep/api/deep.py
@@ -63,7 +63,7 @@ class Deep:
                 plugin_resource = provider.resource()
                 if plugin_resource:
                     default_resource = default_resource.merge(plugin_resource)
-            except Exception:
+            except BaseException:
                 deep.logging.exception("Failed to process plugin resource %s", type(provider))
 
         self.config.resource = default_resource
diff --git a/src/deep/api/plugin/__init__.py b/src/deep/api/plugin/__init__.py
index af3d908..a89b9fc 100644
--- a/src/deep/api/plugin/__init__.py
+++ b/src/deep/api/plugin/__init__.py
@@ -44,10 +44,8 @@ def __plugin_generator(configured):
             module, cls = plugin.rsplit(".", 1)
             yield getattr(import_module(module), cls)
             logging.debug('Did import integration %s', plugin)
-        except (DidNotEnable, Exception) as e:
-            logging.debug(
-                "Did not import integration %s: %s", plugin, e
-            )
+        except (DidNotEnable, BaseException):
+            logging.debug("Did not import integration %s", plugin, exc_info=True)
 
 
 def load_plugins(config: 'ConfigService', custom=None) -> List['Plugin']:
@@ -61,20 +59,30 @@ def load_plugins(config: 'ConfigService', custom=None) -> List['Plugin']:
     if custom is None:
         custom = []
     loaded = []
-    for plugin in __plugin_generator(DEEP_PLUGINS + custom):
+    for plugin in __plugin_generator(DEEP_PLUGINS + list(custom)):
         try:
             plugin_instance = plugin(config=config)
             if not plugin_instance.is_active():
                 logging.debug("Plugin %s is not active.", plugin_instance.name)
                 continue
             loaded.append(plugin_instance)
-        except Exception as e:
-            logging.debug("Could not load plugin %s: %s", plugin, e)
+        except BaseException:
+            logging.debug("Could not load plugin %s", plugin, exc_info=True)
 
-    loaded.sort(key=lambda pl: pl.order() or 0)
+    loaded.sort(key=__plugin_order)
     return loaded
 
 
+def __plugin_order(plugin: 'Plugin') -> int:
+    try:
+        order = plugin.order() or 0
+        # make sure that we can compare the order
+        return order if isinstance(order, (int, float)) and order == order else 0
+    except BaseException:
+        logging.exception("Cannot get order of plugin %s", type(plugin))
+        return 0
+
+
 class Plugin(abc.ABC):
     """
     A deep Plugin.
diff --git a/src/deep/processor/context/metric_action.py b/src/deep/processor/context/metric_action.py
index 1671a6c..6b4d7b3 100644
--- a/src/deep/processor/context/metric_action.py
+++ b/src/deep/processor/context/metric_action.py
@@ -41,8 +41,13 @@ class MetricActionContext(ActionContext):
         for metric in metrics:
             labels, value = self._process_metric(metric)
             for processor in self.trigger_context.config.metric_processors:
-                getattr(processor, self._convert_type(metric.type))(metric.name, labels, metric.namespace or "deep",
-                                                                    metric.help, metric.unit, value)
+                try:
+                    # the processor gets its own labels, so it cannot change the labels for the other processors
+                    getattr(processor, self._convert_type(metric.type))(metric.name, dict(labels),
+                                                                        metric.namespace or "deep",
+                                                                        metric.help, metric.unit, value)
+                except BaseException:
+                    deep.logging.exception("Failed to process metric %s: %s", metric.name, type(processor))
 
     def __has_metric_processor(self):
         return self.trigger_context.config.has_metric_processor
diff --git a/src/deep/processor/context/snapshot_action.py b/src/deep/processor/context/snapshot_action.py
index f616af4..9349a60 100644
--- a/src/deep/processor/context/snapshot_action.py
+++ b/src/deep/processor/context/snapshot_action.py
@@ -186,8 +186,8 @@ class DeferredSnapshotActionResult(ActionResult):
                 decorate = decorator.decorate(self.snapshot.id_str, self.action_context)
                 if decorate is not None:
                     attributes.merge_in(decorate)
-            except Exception:
-                deep.logging.exception("Failed to decorate snapshot: %s ", decorator)
+            except BaseException:
+                deep.logging.exception("Failed to decorate snapshot: %s ", type(decorator))
         self.snapshot.attributes.merge_in(attributes)
         return self.snapshot
 
diff --git a/src/deep/processor/context/span_action.py b/src/deep/processor/context/span_action.py
index 341a411..53dc9a4 100644
--- a/src/deep/processor/context/span_action.py
+++ b/src/deep/processor/context/span_action.py
@@ -17,6 +17,7 @@
 from types import FrameType
 from typing import Optional, TYPE_CHECKING
 
+import deep.logging
 from deep.processor.context.action_context import ActionContext
 from deep.processor.context.action_results import ActionResult, ActionCallback
 
@@ -42,7 +43,10 @@ class SpanActionCallback(ActionCallback):
         :return: True, to keep this callback until next match.
         """
         for span in self.__spans:
-            span.close()
+            try:
+                span.close()
+            except BaseException:
+                deep.logging.exception("Failed to close span: %s", type(span))
         return False
 
 
@@ -86,9 +90,12 @@ class SpanActionContext(ActionContext):
         spans = []
 
         for span_processor in self.trigger_context.config.span_processors:
-            span = span_processor.create_span(name, self.trigger_context.id, self.location_action.tracepoint.id)
-            if span:
-                spans.append(span)
+            try:
+                span = span_processor.create_span(name, self.trigger_context.id, self.location_action.tracepoint.id)
+                if span:
+                    spans.append(span)
+            except BaseException:
+                deep.logging.exception("Failed to create span: %s", type(span_processor))
 
         if len(spans) > 0:
             self.trigger_context.attach_result(SpanResult(spans))
-- 
2.43.0


From a6778dadd157b9760154cc36f3b8a5aa9154addf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:27 +0000
Subject: [PATCH 25/31] fix: the resource always has a service name

---
 src/deep/api/attributes/__init__.py |  3 ++-
 src/deep/api/deep.py                |  3 ++-
 src/deep/api/resource/__init__.py   | 34 ++++++++++++++++++-----------
 3 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/deep/api/attributes/__init__.py b/src/deep/api/attributes/__init__.py
index 7da6e96..ea14334 100644
--- a/src/deep/api/attributes/__init__.py
+++ b/src/deep/api/attributes/__init__.py
@@ -151,7 +151,8 @@ class BoundedAttributes(MutableMapping):
         self.dropped = 0
         self.max_value_len = max_value_len
         self._dict = OrderedDict()  # type: OrderedDict
-        self._lock = threading.Lock()  # type: threading.Lock
+        # a tracepoint in this file can use this from within the lock
+        self._lock = threading.RLock()  # type: threading.RLock
         if attributes:
             for key, value in attributes.items():
                 self[key] = value
diff --git a/src/deep/api/deep.py b/src/deep/api/deep.py
index 9763d58..5067204 100644
--- a/src/deep/api/deep.py
+++ b/src/deep/api/deep.py
@@ -66,7 +66,8 @@ class Deep:
             except BaseException:
                 deep.logging.exception("Failed to process plugin resource %s", type(provider))
 
-        self.config.resource = default_resource
+        # a plugin can have removed the service name
+        self.config.resource = default_resource.with_service_name()
         self.task_handler.open()
         try:
             self.trigger_handler.start()
diff --git a/src/deep/api/resource/__init__.py b/src/deep/api/resource/__init__.py
index 3c41a08..2af1c56 100644
--- a/src/deep/api/resource/__init__.py
+++ b/src/deep/api/resource/__init__.py
@@ -141,19 +141,7 @@ class Resource:
         resource = _DEFAULT_RESOURCE.merge(
             DeepResourceDetector().detect()
         ).merge(Resource(attributes, schema_url))
-        if not resource.attributes.get(SERVICE_NAME, None):
-            default_service_name = "unknown_service"
-            process_executable_name = resource.attributes.get(
-                PROCESS_EXECUTABLE_NAME, None
-            )
-            if process_executable_name:
-                default_service_name += ":" + process_executable_name
-            else:
-                default_service_name += ":python"
-            resource = resource.merge(
-                Resource({SERVICE_NAME: default_service_name}, schema_url)
-            )
-        return resource
+        return resource.with_service_name()
 
     @staticmethod
     def get_empty() -> "Resource":
@@ -209,6 +197,26 @@ class Resource:
 
         return Resource(merged_attributes, schema_url)
 
+    def with_service_name(self) -> "Resource":
+        """
+        Get a resource that has a service name.
+
+        :return: this resource, or a new resource with the default service name if we do not have one
+        """
+        if self.attributes.get(SERVICE_NAME, None):
+            return self
+        default_service_name = "unknown_service"
+        process_executable_name = self.attributes.get(
+            PROCESS_EXECUTABLE_NAME, None
+        )
+        if process_executable_name:
+            default_service_name += ":" + str(process_executable_name)
+        else:
+            default_service_name += ":python"
+        return self.merge(
+            Resource({SERVICE_NAME: default_service_name})
+        )
+
     def __eq__(self, other: object) -> bool:
         """Check if other object is equals to this one."""
         if not isinstance(other, Resource):
-- 
2.43.0


From 84550e045fd15c3eb7db35781fb870ff8b28e27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:58 +0000
Subject: [PATCH 26/31] fix: settings behave the same if they are set in code
 or via the environment

---
 src/deep/api/auth/__init__.py     |  2 +-
 src/deep/config/__init__.py       |  6 ++----
 src/deep/config/config_service.py | 21 +++++++++++++++++----
 src/deep/poll/poll.py             | 19 ++++++++++++++++++-
 src/deep/utils.py                 |  2 +-
 5 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/src/deep/api/auth/__init__.py b/src/deep/api/auth/__init__.py
index c032295..7e05406 100644
--- a/src/deep/api/auth/__init__.py
+++ b/src/deep/api/auth/__init__.py
@@ -93,6 +93,6 @@ class BasicAuthProvider(AuthProvider):
         password = self._config.SERVICE_PASSWORD
         if username is not None and password is not None:
             encode = base64.b64encode(
-                (username + ':' + password).encode("utf-8"))
+                (str(username) + ':' + str(password)).encode("utf-8"))
             return [('authorization', 'Basic%20' + encode.decode('utf-8'))]
         return []
diff --git a/src/deep/config/__init__.py b/src/deep/config/__init__.py
index a29a052..d5d0d1a 100644
--- a/src/deep/config/__init__.py
+++ b/src/deep/config/__init__.py
@@ -40,7 +40,7 @@ SERVICE_SECURE = os.getenv('DEEP_SERVICE_SECURE', 'True')
 SERVICE_AUTH_PROVIDER = os.getenv('DEEP_SERVICE_AUTH_PROVIDER', None)
 """The Auth provider to use for the service (default: None)"""
 
-APP_ROOT = ""
+APP_ROOT = os.getenv('DEEP_APP_ROOT', "")
 """App root sets the prefix that can be removed to generate shorter file names. This value is calculated."""
 
 PLUGINS = []
@@ -73,9 +73,7 @@ def IN_APP_EXCLUDE():
     if user_defined is None:
         user_defined = []
     else:
-        if ',' in user_defined:
-            user_defined = user_defined.split(',')
-        user_defined = [user_defined]
+        user_defined = user_defined.split(',')
 
     prefix = sys.exec_prefix
     user_defined.append(prefix)
diff --git a/src/deep/config/config_service.py b/src/deep/config/config_service.py
index 856e2ed..4e0dc91 100644
--- a/src/deep/config/config_service.py
+++ b/src/deep/config/config_service.py
@@ -16,6 +16,7 @@
 """Service for handling deep config."""
 
 import os
+import sys
 from typing import Any, List, Dict, Tuple, Optional, Generator
 
 from deep import logging
@@ -171,8 +172,9 @@ class ConfigService:
         :param filename: the frame file name
         :return: True if add frame, else False
         """
-        in_app_include = self.IN_APP_INCLUDE
-        in_app_exclude = self.IN_APP_EXCLUDE
+        in_app_include = self.__path_list(self.IN_APP_INCLUDE)
+        # the python installation is never part of the app
+        in_app_exclude = self.__path_list(self.IN_APP_EXCLUDE) + [sys.exec_prefix]
 
         for path in in_app_exclude:
             if filename.startswith(path):
@@ -182,11 +184,22 @@ class ConfigService:
             if filename.startswith(path):
                 return True, path
 
-        if filename.startswith(self.APP_ROOT):
-            return True, self.APP_ROOT
+        app_root = self.APP_ROOT
+        if app_root and filename.startswith(app_root):
+            return True, app_root
 
         return False, None
 
+    @staticmethod
+    def __path_list(value: any) -> List[str]:
+        """Get the list of paths, from either a list or a comma (,) separated string."""
+        if value is None:
+            return []
+        if isinstance(value, str):
+            value = value.split(',')
+        paths = [str(path).strip() for path in value]
+        return [path for path in paths if path]
+
     def _find_plugin(self, plugin_type) -> PLUGIN_TYPE:
         return next(self.__plugin_generator(plugin_type), None)
 
diff --git a/src/deep/poll/poll.py b/src/deep/poll/poll.py
index 1181cf9..41379a6 100644
--- a/src/deep/poll/poll.py
+++ b/src/deep/poll/poll.py
@@ -20,6 +20,8 @@ Deep needs to maintain a config of the tracepoints configured by the users. The
  periodically polling the long poll service.
 """
 
+from threading import TIMEOUT_MAX
+
 # noinspection PyUnresolvedReferences
 from deepproto.proto.poll.v1.poll_pb2 import PollRequest, ResponseType
 from deepproto.proto.poll.v1.poll_pb2_grpc import PollConfigStub
@@ -30,6 +32,9 @@ from deep.grpc import convert_resource, convert_response, GRPCService
 from deep.utils import time_ns, RepeatedTimer
 
 
+DEFAULT_INTERVAL = 10
+
+
 class LongPoll(object):
     """This service deals with polling the remote service to get the tracepoint configs."""
 
@@ -47,10 +52,22 @@ class LongPoll(object):
     def start(self):
         """Start the long poll service."""
         logging.info("Starting Long Poll system")
-        self.timer = RepeatedTimer("Tracepoint Long Poll", self.config.POLL_TIMER, self.poll)
+        self.timer = RepeatedTimer("Tracepoint Long Poll", self.__poll_interval(), self.poll)
         self.__initial_poll()
         self.timer.start()
 
+    def __poll_interval(self) -> float:
+        poll_timer = self.config.POLL_TIMER
+        try:
+            # values from the environment are text
+            interval = float(poll_timer)
+            if 0 < interval <= TIMEOUT_MAX:
+                return interval
+        except (TypeError, ValueError):
+            pass
+        logging.error("Invalid POLL_TIMER %s, using %s seconds.", poll_timer, DEFAULT_INTERVAL)
+        return DEFAULT_INTERVAL
+
     def __initial_poll(self):
         try:
             self.poll()
diff --git a/src/deep/utils.py b/src/deep/utils.py
index baeb969..44a4b2e 100644
--- a/src/deep/utils.py
+++ b/src/deep/utils.py
@@ -43,7 +43,7 @@ def str2bool(string):
     :param string: the string to convert
     :return: True, if string is yes, true, t or 1. (case-insensitive)
     """
-    return string.lower() in ("yes", "true", "t", "1", "y")
+    return str(string).lower() in ("yes", "true", "t", "1", "y")
 
 
 class RepeatedTimer:
-- 
2.43.0


From 3328a0328f9506107bb8c3bb60e553906632c1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 27/31] fix: read the locals of a paused frame without writing
 them back to the frame

---
 src/deep/processor/context/trigger_context.py |  5 +-
 src/deep/processor/frame_collector.py         |  3 +-
 src/deep/processor/frame_locals.py            | 68 +++++++++++++++++++
 3 files changed, 73 insertions(+), 3 deletions(-)
 create mode 100644 src/deep/processor/frame_locals.py

diff --git a/src/deep/processor/context/trigger_context.py b/src/deep/processor/context/trigger_context.py
index d095190..5efc661 100644
--- a/src/deep/processor/context/trigger_context.py
+++ b/src/deep/processor/context/trigger_context.py
@@ -30,6 +30,7 @@ from deep.processor.context.metric_action import MetricActionContext
 from deep.processor.context.snapshot_action import SnapshotActionContext
 from deep.processor.context.span_action import SpanActionContext
 from deep.processor.frame_collector import FrameCollector
+from deep.processor.frame_locals import read_locals
 from deep.push import PushService
 from deep.utils import time_ns
 
@@ -92,7 +93,7 @@ class TriggerContext:
     @property
     def locals(self) -> Dict[str, any]:
         """The local frame variables."""
-        return self.__frame.f_locals
+        return read_locals(self.__frame)
 
     @property
     def ts(self):
@@ -152,7 +153,7 @@ class TriggerContext:
         # evaluate in the scope of the frame, not the scope of this module. We use a copy, so that nested scopes
         # (e.g. generator expressions) can see the locals, and the expression cannot rebind the application names.
         scope = dict(getattr(self.__frame, 'f_globals', {}))
-        scope.update(self.__frame.f_locals)
+        scope.update(read_locals(self.__frame))
         return eval(expression, scope)
 
     def attach_result(self, result: ActionResult):
diff --git a/src/deep/processor/frame_collector.py b/src/deep/processor/frame_collector.py
index e7d0d15..02072b8 100644
--- a/src/deep/processor/frame_collector.py
+++ b/src/deep/processor/frame_collector.py
@@ -22,6 +22,7 @@ from typing import Tuple, Dict, List
 from deep import logging
 from deep.api.tracepoint import StackFrame, Variable
 from deep.utils import time_ns
+from .frame_locals import read_locals
 from .variable_processor import type_name
 from .variable_set_processor import VariableCacheProvider, VariableSetProcessor, VariableProcessorConfig
 
@@ -143,7 +144,7 @@ class FrameCollector:
 
         try:
             # this can be the actual dict used by the program (e.g. the globals), so use a copy
-            f_locals = dict(frame.f_locals)
+            f_locals = read_locals(frame)
         except BaseException:
             logging.exception("Cannot collect locals of %s", func_name)
             f_locals = {}
diff --git a/src/deep/processor/frame_locals.py b/src/deep/processor/frame_locals.py
new file mode 100644
index 0000000..ba35db5
--- /dev/null
+++ b/src/deep/processor/frame_locals.py
@@ -0,0 +1,68 @@
+#       Copyright (C) 2024  Intergral GmbH
+#
+#      This program is free software: you can redistribute it and/or modify
+#      it under the terms of the GNU Affero General Public License as published by
+#      the Free Software Foundation, either version 3 of the License, or
+#      (at your option) any later version.
+#
+#      This program is distributed in the hope that it will be useful,
+#      but WITHOUT ANY WARRANTY; without even the implied warranty of
+#      MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+#      GNU Affero General Public License for more details.
+#
+#      You should have received a copy of the GNU Affero General Public License
+#      along with this program.  If not, see <https://www.gnu.org/licenses/>.
+
+"""
+Read the local variables of a paused frame, without changing the frame.
+
+Before Python 3.13 reading 'f_locals' within a trace function is not free of side effects. Python keeps the dict and writes
+the values back to the frame when the trace function returns. This reverts what other threads (or a __str__) assigned to
+the variables in the meantime, sets the variables of a comprehension in a class or module to None, changes the dict that
+the application received from 'locals()', and keeps deleted values alive.
+"""
+
+import ctypes
+import inspect
+import sys
+from types import FrameType
+from typing import Dict
+
+# 3.12 is the first version that lets us read the variables one by one, since 3.13 'f_locals' is only a view of the frame
+_READ_BY_NAME = sys.implementation.name == 'cpython' and sys.version_info[:2] == (3, 12)
+
+if _READ_BY_NAME:
+    _get_var = ctypes.pythonapi.PyFrame_GetVar
+    _get_var.argtypes = [ctypes.py_object, ctypes.py_object]
+    _get_var.restype = ctypes.py_object
+    _locals_to_fast = ctypes.pythonapi.PyFrame_LocalsToFast
+    _locals_to_fast.argtypes = [ctypes.py_object, ctypes.c_int]
+    _locals_to_fast.restype = None
+
+
+def read_locals(frame: FrameType) -> Dict[str, any]:
+    """
+    Read the local variables of a frame.
+
+    :param frame: the frame to read
+    :return: a copy of the local variables of the frame
+    """
+    if not _READ_BY_NAME or type(frame) is not FrameType:
+        return dict(frame.f_locals)
+
+    code = frame.f_code
+    if not code.co_flags & inspect.CO_OPTIMIZED:
+        # a module or class has a real dict, and we only have to prevent that python writes the other variables
+        try:
+            return dict(frame.f_locals)
+        finally:
+            _locals_to_fast(frame, 0)
+
+    values = {}
+    for name in code.co_varnames + code.co_cellvars + code.co_freevars:
+        try:
+            values[name] = _get_var(frame, name)
+        except NameError:
+            # not assigned (yet), or deleted
+            pass
+    return values
-- 
2.43.0


From 5f93ffcfe903805356ee0dde7f5def52fffc138c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:27 +0000
Subject: [PATCH 28/31] fix: an expression that raises a KeyboardInterrupt must
 not end the process with SIGINT

---
 src/deep/processor/context/trigger_context.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/deep/processor/context/trigger_context.py b/src/deep/processor/context/trigger_context.py
index 5efc661..b661afb 100644
--- a/src/deep/processor/context/trigger_context.py
+++ b/src/deep/processor/context/trigger_context.py
@@ -154,7 +154,8 @@ class TriggerContext:
         # (e.g. generator expressions) can see the locals, and the expression cannot rebind the application names.
         scope = dict(getattr(self.__frame, 'f_globals', {}))
         scope.update(read_locals(self.__frame))
-        return eval(expression, scope)
+        # compile the expression first, python ends the process with SIGINT if a string raises a KeyboardInterrupt in eval
+        return eval(compile(expression.lstrip(' \t'), '<string>', 'eval'), scope)
 
     def attach_result(self, result: ActionResult):
         """
-- 
2.43.0


From ae0b293fda64fffcf9d4d05b579ac0cea3961fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:19 +0000
Subject: [PATCH 29/31] fix: send the content of str sub classes, not what
 their __str__ returns

---
 src/deep/grpc/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/deep/grpc/__init__.py b/src/deep/grpc/__init__.py
index dd80563..882976c 100644
--- a/src/deep/grpc/__init__.py
+++ b/src/deep/grpc/__init__.py
@@ -44,7 +44,9 @@ def convert_text(value) -> Optional[str]:
     """
     if value is None:
         return None
-    return str(value).encode('utf-8', 'replace').decode('utf-8')
+    # the text of a str is its content, whatever the __str__ of a sub class says
+    text = value if isinstance(value, str) else str(value)
+    return text.encode('utf-8', 'replace').decode('utf-8')
 
 
 def convert_value(value):
-- 
2.43.0


From 2e29cdafd12ddf2360cae516f1ce3bc1c6d3957e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:25 +0000
Subject: [PATCH 30/31] fix: capture the exception that leaves a with block or
 is raised again on the captured line

---
 src/deep/processor/context/callback_context.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/deep/processor/context/callback_context.py b/src/deep/processor/context/callback_context.py
index 97611aa..bd44ad6 100644
--- a/src/deep/processor/context/callback_context.py
+++ b/src/deep/processor/context/callback_context.py
@@ -59,6 +59,8 @@ class CallbackContext(Location, ActionCallback):
         self.__frame = frame
         self.__exception = None
         self.__exception_lasti = None
+        # we can start in the middle of the handling of an exception
+        self.observe(event, frame, None)
 
     def at_location(self, event: str, file: str, line: int, function_name: str, frame: FrameType) -> bool:
         """
@@ -100,8 +102,11 @@ class CallbackContext(Location, ActionCallback):
         if event == 'exception':
             self.__exception = arg
             self.__exception_lasti = frame.f_lasti
-        elif event == 'line':
+        elif event in ['line', 'call']:
             # there is no event when an exception is handled, or when one that was handled is raised again
+            if self.__exception is not None and opname[frame.f_code.co_code[frame.f_lasti]] == 'PUSH_EXC_INFO':
+                # this is the 'with' line after an exception in its block, which is not yet handled
+                return
             exc_info = sys.exc_info()
             self.__exception = None if exc_info[0] is None else exc_info
             self.__exception_lasti = None
-- 
2.43.0


From f70884231a75a7e61353ca1b320161193c8a4d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:33 +0000
Subject: [PATCH 31/31] fix: do not search for similar names in application
 objects when logging errors

---
 src/deep/logging/__init__.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/deep/logging/__init__.py b/src/deep/logging/__init__.py
index 7957acf..a1d1a25 100644
--- a/src/deep/logging/__init__.py
+++ b/src/deep/logging/__init__.py
@@ -18,6 +18,36 @@
 import logging
 import logging.config
 import sys
+import traceback
+
+
+class _PlainTraceback(logging.Filter):
+    """
+    Format the error of a record from the traceback and the message of the error only.
+
+    The default formatting looks for names that are similar to one that is not found. To do so it uses the attributes of
+    the objects of the application (e.g. calling __dir__, or __getattr__), we must not do this.
+    """
+
+    def filter(self, record):
+        """
+        Set the text for the error of the record.
+
+        :param record: the log record
+        :return: always True, we do not drop records
+        """
+        if isinstance(record.exc_info, tuple) and record.exc_info[1] is not None and not record.exc_text:
+            exc_type, exc, tb = record.exc_info
+            try:
+                message = str(exc)
+            except BaseException:
+                message = "<exception str() failed>"
+            record.exc_text = "Traceback (most recent call last):\n%s%s: %s" % (
+                "".join(traceback.format_tb(tb)), exc_type.__name__, message)
+        return True
+
+
+logging.getLogger("deep").addFilter(_PlainTraceback())
 
 
 def warning(msg, *args, **kwargs):
-- 
2.43.0

