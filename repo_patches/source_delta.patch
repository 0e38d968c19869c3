From b522e34a995c3870005e824ce563ef67083af0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:05 +0000
Subject: [PATCH 01/26] fix: drop the invocation context when the invocation
 handler fails

An exception whose text cannot be produced escapes the handler. The context
stayed on the stack, so a calling contract went on with the context (sender,
step counter, owner) of the contract it had called.
---
 pyee/pyexec/service_engine.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyee/pyexec/service_engine.py b/pyee/pyexec/service_engine.py
index ef5356e..c01432b 100644
--- a/pyee/pyexec/service_engine.py
+++ b/pyee/pyexec/service_engine.py
@@ -63,8 +63,10 @@ class ServiceEngine(ContextContainer):
         Logger.debug(f'[invoke] {context.method}, {context.params}', TAG)
 
         cls._push_context(context)
-        status, step_used, ret = cls._handle_invoke(context)
-        cls._pop_context()
+        try:
+            status, step_used, ret = cls._handle_invoke(context)
+        finally:
+            cls._pop_context()
 
         Logger.debug(f'*** RESULT: {status}, {step_used}, {ret}', TAG)
         return status, step_used, ret
-- 
2.43.0


From af6cac85bbd7b00a78a640bcc36a52d0b4b05df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:05 +0000
Subject: [PATCH 02/26] fix: report out of step found while settling pending
 deletions

The charge for a deletion is applied when the old size arrives. If that was
after the method had returned, the exception escaped every handler and ended
the engine process without any result.
---
 pyee/pyexec/service_engine.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyee/pyexec/service_engine.py b/pyee/pyexec/service_engine.py
index c01432b..cb1f089 100644
--- a/pyee/pyexec/service_engine.py
+++ b/pyee/pyexec/service_engine.py
@@ -97,7 +97,12 @@ class ServiceEngine(ContextContainer):
         except BaseException as e:
             status, ret = cls._get_status_from_exception(e)
         finally:
-            cls._proxy.handle_set_values()
+            try:
+                cls._proxy.handle_set_values()
+            except IconServiceBaseException as e:
+                # charging for a pending deletion may fail
+                if status == Status.SUCCESS:
+                    status, ret = cls._get_status_from_exception(e)
             if context.fee_sharing_proportion > 0:
                 cls._proxy.set_fee_proportion(context.fee_sharing_proportion)
             step_used = context.step_counter.step_used
-- 
2.43.0


From b9e4b93811835f222a2637cf4ee06d15dc72092f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:08 +0000
Subject: [PATCH 03/26] fix: allow a set value handler to handle the following
 ones

Charging for a deletion near the limit handles all remaining responses to get
refunds. The outer loop then popped from the empty list, so the contract got
IndexError though it had enough steps.
---
 pyee/pyexec/ipc/proxy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyee/pyexec/ipc/proxy.py b/pyee/pyexec/ipc/proxy.py
index 0fd7c7e..ab59739 100644
--- a/pyee/pyexec/ipc/proxy.py
+++ b/pyee/pyexec/ipc/proxy.py
@@ -454,7 +454,9 @@ class ServiceManagerProxy:
         return False
 
     def __handle_set_values(self, cnt: int):
-        for i in range(0, cnt):
+        remains = len(self.__set_handlers) - cnt
+        # a handler may handle the others while it consumes steps
+        while len(self.__set_handlers) > remains:
             handler, size = self.__set_handlers.pop(0)
             msg, data = self.__client.receive()
             if msg != Message.SETVALUE:
-- 
2.43.0


From 13025cf54175edf125ec8868df477b719d73b730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:08 +0000
Subject: [PATCH 04/26] fix: receive the response even if a pending deletion
 runs out of step

The response of the request was left in the connection, so every following
request of a contract which handles the exception got the response of the
previous one.
---
 pyee/pyexec/ipc/proxy.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyee/pyexec/ipc/proxy.py b/pyee/pyexec/ipc/proxy.py
index ab59739..f3d08c6 100644
--- a/pyee/pyexec/ipc/proxy.py
+++ b/pyee/pyexec/ipc/proxy.py
@@ -17,6 +17,7 @@ from abc import ABCMeta, abstractmethod
 from typing import Any, Tuple, List, Union, Callable, Optional
 
 from .client import Client
+from ..base.exception import IconServiceBaseException
 
 TAG = 'Proxy'
 
@@ -469,7 +470,12 @@ class ServiceManagerProxy:
 
     def send_and_receive(self, msg: int, data: bytes) -> Tuple[int, Any]:
         self.__client.send(msg, data)
-        self.handle_set_values()
+        try:
+            self.handle_set_values()
+        except IconServiceBaseException:
+            # out of step for a deletion, the response is still to come
+            self.__client.receive()
+            raise
         return self.__client.receive()
 
     def get_value(self, key: bytes) -> Optional[bytes]:
-- 
2.43.0


From 1a79071b10fecd3e61a361e27cd5d8d8b6684e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:39 +0000
Subject: [PATCH 05/26] fix: do not take out of step of a pending deletion as
 one of the write

A write handled every OutOfStepException as if it could not pay for itself, and
gave the steps back. If it came from settling an earlier deletion, the deletion
was not paid at all.
---
 pyee/pyexec/database/db.py               | 6 +++++-
 pyee/pyexec/iconscore/icon_score_step.py | 8 ++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/pyee/pyexec/database/db.py b/pyee/pyexec/database/db.py
index e62b267..e1e9fd8 100644
--- a/pyee/pyexec/database/db.py
+++ b/pyee/pyexec/database/db.py
@@ -165,8 +165,10 @@ class ContextDatabase(object):
             try:
                 # apply steps for set first
                 self._charge_step_set(context, value)
-                self._db.put(key, value, self.__refund_handler)
             except OutOfStepException as e:
+                if e.step_type != StepType.SET:
+                    # it's for the pending deletion
+                    raise
                 # restore to the previous state
                 context.step_counter.add_step(e.step_used - e.step_limit)
                 # do fallback handling
@@ -182,6 +184,8 @@ class ContextDatabase(object):
                         self.__refund_handler(True, len(old_val))
                     context.step_counter.apply_step(StepType.SET, len(value))
                 self._db.put(key, value, None)
+            else:
+                self._db.put(key, value, self.__refund_handler)
         else:
             if value is None:
                 raise DatabaseException('value should not be None')
diff --git a/pyee/pyexec/iconscore/icon_score_step.py b/pyee/pyexec/iconscore/icon_score_step.py
index b1e9e4c..3a099fc 100644
--- a/pyee/pyexec/iconscore/icon_score_step.py
+++ b/pyee/pyexec/iconscore/icon_score_step.py
@@ -101,6 +101,14 @@ class OutOfStepException(IconServiceBaseException):
         """
         return self.__requested_step
 
+    @property
+    def step_type(self) -> StepType:
+        """
+        Returns the type of step which it fails to consume
+        :return: step type
+        """
+        return self.__step_type
+
 
 class IconScoreStepCounter(object):
     """ Counts steps in a transaction
-- 
2.43.0


From a99a667233a9cf41be81b68e72bacf6eebd87e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:01 +0000
Subject: [PATCH 06/26] fix: report an unknown method called with named
 parameters as not found

---
 pyee/pyexec/service_engine.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyee/pyexec/service_engine.py b/pyee/pyexec/service_engine.py
index cb1f089..8bacb20 100644
--- a/pyee/pyexec/service_engine.py
+++ b/pyee/pyexec/service_engine.py
@@ -18,6 +18,7 @@ from .base.type_converter import TypeConverter
 from .database.factory import ContextDatabaseFactory
 from .icon_constant import Status
 from .iconscore.icon_score_base import IconScoreBase
+from .iconscore.icon_score_constant import STR_FALLBACK, STR_ON_INSTALL, STR_ON_UPDATE
 from .iconscore.icon_score_context import ContextContainer, IconScoreContext
 from .iconscore.icon_score_eventlog import EventLogEmitter
 from .iconscore.icon_score_mapper import IconScoreMapper
@@ -134,6 +135,9 @@ class ServiceEngine(ContextContainer):
     @staticmethod
     def _convert_score_params_by_annotations(icon_score: 'IconScoreBase', func_name: str, kw_params: dict) -> dict:
         tmp_params = kw_params
+        if func_name not in (STR_FALLBACK, STR_ON_INSTALL, STR_ON_UPDATE):
+            validate_external = getattr(icon_score, '_IconScoreBase__validate_external_method')
+            validate_external(func_name)
         score_func = getattr(icon_score, func_name)
         annotation_params = TypeConverter.make_annotations_from_method(score_func)
         TypeConverter.convert_data_params(annotation_params, tmp_params)
-- 
2.43.0


From fc00dfdd59d25dbe21c7d62ecb21e11bdf69fb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 07/26] fix: decode imports of the package check for any
 bytecode version

The check read opcode numbers and single byte arguments of one Python version: on others every
package importing the library was refused, and names beyond the 255th were misread.
---
 .../iconscore/score_package_validator.py      | 127 ++++++------------
 1 file changed, 41 insertions(+), 86 deletions(-)

diff --git a/pyee/pyexec/iconscore/score_package_validator.py b/pyee/pyexec/iconscore/score_package_validator.py
index ed66daf..573706d 100644
--- a/pyee/pyexec/iconscore/score_package_validator.py
+++ b/pyee/pyexec/iconscore/score_package_validator.py
@@ -12,9 +12,11 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import dis
 import importlib.util
 import os
 import sys
+from typing import Optional
 
 from ..base.exception import IllegalFormatException
 
@@ -23,20 +25,12 @@ CODE_NAMES_ATTR = 'co_names'
 
 BLACKLIST_RESERVED_KEYWORD = ['exec', 'eval', 'compile', '__import__']
 
-LOAD_CONST = 100
-IMPORT_STAR = 84
-IMPORT_NAME = 108
-IMPORT_FROM = 109
+LOAD_CONST = 'LOAD_CONST'
+IMPORT_NAME = 'IMPORT_NAME'
+EXTENDED_ARG = 'EXTENDED_ARG'
 
 BASE_PACKAGE = 'iconservice'
 
-# == OPCODE ==
-# 20 LOAD_CONST(key1) value1
-# 22 LOAD_CONST(key2) value2
-# ============
-# ...
-OPCODE_HEADER_END_INDEX = 4
-
 
 class ScorePackageValidator(object):
     WHITELIST_IMPORT = {'iconservice': []}
@@ -58,17 +52,9 @@ class ScorePackageValidator(object):
         if not hasattr(code, CODE_ATTR):
             return
 
-        byte_code_list = [x for x in code.co_code]
-
-        length_byte_code_list = len(byte_code_list)
-        for code_index in range(OPCODE_HEADER_END_INDEX, length_byte_code_list, 2):
-            key = byte_code_list[code_index]
-            if IMPORT_NAME == key:
-                name_index = byte_code_list[code_index + 1]
-                from_list_index = byte_code_list[code_index - 1]
-                if code.co_names[name_index].startswith('pyexec'):
-                    from_list = code.co_consts[from_list_index]
-                    cls.ICONSERVICE_WHITELIST.extend(from_list)
+        for import_name, from_list, level in cls._get_imports(code):
+            if import_name.startswith('pyexec'):
+                cls.ICONSERVICE_WHITELIST.extend(from_list)
         return cls.ICONSERVICE_WHITELIST
 
     @classmethod
@@ -123,13 +109,28 @@ class ScorePackageValidator(object):
         if not hasattr(code, CODE_ATTR):
             return
 
-        byte_code_list = [x for x in code.co_code]
+        for import_name, from_list, level in cls._get_imports(code):
+            cls._validate_import(import_name, from_list, level)
 
-        length_byte_code_list = len(byte_code_list)
-        for code_index in range(OPCODE_HEADER_END_INDEX, length_byte_code_list, 2):
-            key = byte_code_list[code_index]
-            if IMPORT_NAME == key:
-                cls._validate_import(code_index, byte_code_list, code.co_names, code.co_consts)
+    @classmethod
+    def _get_imports(cls, code) -> list:
+        """ example
+        20 LOAD_CONST               0 (0)
+        22 LOAD_CONST               3 (('pack', 'unpack', 'iter_unpack'))
+        24 IMPORT_NAME              1 (struct)
+
+        :return: list of (import_name, from_list, level)
+        """
+        imports = []
+        instructions = [x for x in dis.get_instructions(code) if x.opname != EXTENDED_ARG]
+        for index, inst in enumerate(instructions):
+            if inst.opname != IMPORT_NAME:
+                continue
+            if index < 2 or any(x.opname != LOAD_CONST for x in instructions[index-2:index]):
+                raise IllegalFormatException('Invalid import opcode')
+            level, from_list = (x.argval for x in instructions[index-2:index])
+            imports.append((inst.argval, from_list, level))
+        return imports
 
     @classmethod
     def _validate_import_from_const(cls, co_consts: tuple):
@@ -142,68 +143,22 @@ class ScorePackageValidator(object):
                 cls._validate_blacklist_keyword_from_names(co_const.co_names)
 
     @classmethod
-    def _validate_import(cls,
-                         current_index: int,
-                         byte_code_list: list,
-                         co_names: tuple,
-                         co_consts: tuple):
-        """ example
-        20 LOAD_CONST               0 (0)
-        22 LOAD_CONST               3 (('pack', 'unpack', 'iter_unpack'))
-        24 IMPORT_NAME              1 (struct)
-        26 IMPORT_FROM              3 (pack)
-        28 STORE_NAME               3 (pack)
-        30 IMPORT_FROM              4 (unpack)
-        32 STORE_NAME               4 (unpack)
-        34 IMPORT_FROM              5 (iter_unpack)
-        36 STORE_NAME               5 (iter_unpack)
-
-        6 LOAD_CONST                0 (0)
-        18 LOAD_CONST               2 (None)
-        20 IMPORT_NAME              2 (os)
-        22 STORE_NAME               2 (os)
-        24 LOAD_CONST               0 (0)
-        26 LOAD_CONST               2 (None)
-        28 IMPORT_NAME              3 (json)
-        30 STORE_NAME               3 (json)
-        """
-
-        from_list_op_code_key = byte_code_list[current_index - 2]
-        level_op_code_key = byte_code_list[current_index - 4]
-        if LOAD_CONST != from_list_op_code_key or LOAD_CONST != level_op_code_key:
-            raise IllegalFormatException('Invalid import opcode')
-
-        import_name_index = byte_code_list[current_index + 1]
-        from_list_index = byte_code_list[current_index - 1]
-        level_index = byte_code_list[current_index - 3]
-
-        import_name = co_names[import_name_index]
-        from_list = co_consts[from_list_index]
-        level = co_consts[level_index]
-
+    def _validate_import(cls, import_name: str, from_list: Optional[tuple], level: int):
         if level > 0:
             return
 
         if import_name not in cls.WHITELIST_IMPORT:
             raise IllegalFormatException(f'Invalid import name: {import_name}')
 
-        if from_list is None:
-            # only using import
+        if from_list is None or from_list == ('*',):
+            # only using import or import_star
             return
-        else:
-            next_op_code_key = byte_code_list[current_index + 2]
-            if IMPORT_STAR == next_op_code_key:
-                # import_star
-                if from_list[0] != '*':
-                    raise IllegalFormatException(f'Invalid star import: {import_name}')
-            elif IMPORT_FROM == next_op_code_key:
-                # import_from
-                for import_from in from_list:
-                    if '*' not in cls.WHITELIST_IMPORT[import_name] and \
-                            import_from not in cls.WHITELIST_IMPORT[import_name]:
-                        raise IllegalFormatException(f'Invalid import name: {import_name}')
-                    elif import_name in BASE_PACKAGE and \
-                            import_from not in cls.ICONSERVICE_WHITELIST:
-                        raise IllegalFormatException(f'Invalid permission import: {import_from}')
-            else:
-                raise IllegalFormatException('Invalid import opcode')
+
+        # import_from
+        for import_from in from_list:
+            if '*' not in cls.WHITELIST_IMPORT[import_name] and \
+                    import_from not in cls.WHITELIST_IMPORT[import_name]:
+                raise IllegalFormatException(f'Invalid import name: {import_name}')
+            elif import_name in BASE_PACKAGE and \
+                    import_from not in cls.ICONSERVICE_WHITELIST:
+                raise IllegalFormatException(f'Invalid permission import: {import_from}')
-- 
2.43.0


From 9cff4d1788ec33151201a2d48af05976ae0b3881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 08/26] fix: check packages without executing them, including
 compiled modules

Finding the spec of a module imports the packages having it, so __init__ code ran before it was
checked. Modules without source and extension modules were not checked at all.
---
 .../iconscore/score_package_validator.py      | 44 +++++++++----------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/pyee/pyexec/iconscore/score_package_validator.py b/pyee/pyexec/iconscore/score_package_validator.py
index 573706d..96b7297 100644
--- a/pyee/pyexec/iconscore/score_package_validator.py
+++ b/pyee/pyexec/iconscore/score_package_validator.py
@@ -15,7 +15,8 @@
 import dis
 import importlib.util
 import os
-import sys
+from importlib.machinery import (SourceFileLoader, SourcelessFileLoader, all_suffixes,
+                                 SOURCE_SUFFIXES, BYTECODE_SUFFIXES, EXTENSION_SUFFIXES)
 from typing import Optional
 
 from ..base.exception import IllegalFormatException
@@ -29,6 +30,8 @@ LOAD_CONST = 'LOAD_CONST'
 IMPORT_NAME = 'IMPORT_NAME'
 EXTENDED_ARG = 'EXTENDED_ARG'
 
+PYCACHE = '__pycache__'
+
 BASE_PACKAGE = 'iconservice'
 
 
@@ -59,43 +62,36 @@ class ScorePackageValidator(object):
 
     @classmethod
     def execute(cls, code_path: str):
-        dirname: str = os.path.dirname(code_path)
-        package: str = os.path.basename(code_path)
-
         cls.CUSTOM_IMPORT_LIST = cls._make_custom_import_list(code_path)
         cls._init_iconservice_whitelist()
-        if dirname not in sys.path:
-            sys.path.append(dirname)
-
-        # in order for the new module to be noticed by the import system
-        importlib.invalidate_caches()
 
-        for imp in cls.CUSTOM_IMPORT_LIST:
-            full_name = f'{package}.{imp}'
-
-            spec = importlib.util.find_spec(full_name)
-            code = spec.loader.get_code(full_name)
+        for file_path in cls.CUSTOM_IMPORT_LIST:
+            # do not import it, nor the packages having it, until it's validated
+            code = cls._load_code(file_path)
 
             cls._validate_import_from_code(code)
             cls._validate_import_from_const(code.co_consts)
             cls._validate_blacklist_keyword_from_names(code.co_names)
 
+    @classmethod
+    def _load_code(cls, file_path: str):
+        name = os.path.basename(file_path)
+        if name.endswith(tuple(EXTENSION_SUFFIXES)):
+            raise IllegalFormatException(f'Extension module found: {name}')
+        if name.endswith(tuple(SOURCE_SUFFIXES)):
+            return SourceFileLoader(name, file_path).get_code(name)
+        return SourcelessFileLoader(name, file_path).get_code(name)
+
     @classmethod
     def _make_custom_import_list(cls, pkg_root_path: str) -> list:
         tmp_list = []
         for dir_path, _, filenames in os.walk(pkg_root_path):
             for file in filenames:
-                file_name, extension = os.path.splitext(file)
-                if extension != '.py':
+                if file.endswith(tuple(BYTECODE_SUFFIXES)) and os.path.basename(dir_path) == PYCACHE:
+                    # cache of the source which is validated
                     continue
-                sub_pkg_path = os.path.relpath(dir_path, pkg_root_path)
-                if sub_pkg_path == '.':
-                    pkg_path = file_name
-                else:
-                    # sub_package
-                    sub_pkg_path = sub_pkg_path.replace('/', '.')
-                    pkg_path = f'{sub_pkg_path}.{file_name}'
-                tmp_list.append(pkg_path)
+                if file.endswith(tuple(all_suffixes())):
+                    tmp_list.append(os.path.join(dir_path, file))
         return tmp_list
 
     @classmethod
-- 
2.43.0


From e7399284164c6841073c2aec271cfde740fb9c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 09/26] fix: allow a structure to be used for several fields of
 a structure

---
 pyee/pyexec/iconscore/typing/element.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyee/pyexec/iconscore/typing/element.py b/pyee/pyexec/iconscore/typing/element.py
index 5aff633..2e2e2e3 100644
--- a/pyee/pyexec/iconscore/typing/element.py
+++ b/pyee/pyexec/iconscore/typing/element.py
@@ -444,7 +444,8 @@ def check_if_struct_is_valid(type_hint: type, structs: Set[Any] = None):
     if type_hint in structs:
         raise IllegalFormatException(f"Circular type hint: {type_hint}")
 
-    structs.add(type_hint)
+    # the same struct may be used for more than one field
+    structs = structs | {type_hint}
     annotations = get_annotations(type_hint, None)
 
     size = len(annotations)
-- 
2.43.0


From 6b7fe191a76b625ec9da9f6812af9d0f04e94bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:54 +0000
Subject: [PATCH 10/26] fix: do not render values for debug logs which are
 disabled

---
 pyee/pyexec/iconscore/internal_call.py | 3 ++-
 pyee/pyexec/pyexec.py                  | 9 ++++++---
 pyee/pyexec/service_engine.py          | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/pyee/pyexec/iconscore/internal_call.py b/pyee/pyexec/iconscore/internal_call.py
index 7d2f2b9..215ee5d 100644
--- a/pyee/pyexec/iconscore/internal_call.py
+++ b/pyee/pyexec/iconscore/internal_call.py
@@ -63,7 +63,8 @@ class InternalCall(object):
             Logger.debug(f'    new_limit={new_limit}, params={params}', TAG)
         status, step_used, result = \
             cls._proxy.call(addr_to, amount, new_limit, func_name, params)
-        Logger.debug(f'<<< Result: {status}, {step_used}, {result}', TAG)
+        if Logger.isDebugEnabled():
+            Logger.debug(f'<<< Result: {status}, {step_used}, {result}', TAG)
 
         if step_used > new_limit:
             context.step_counter.add_step(new_limit)
diff --git a/pyee/pyexec/pyexec.py b/pyee/pyexec/pyexec.py
index b82d9bd..deb86ba 100644
--- a/pyee/pyexec/pyexec.py
+++ b/pyee/pyexec/pyexec.py
@@ -178,7 +178,8 @@ class PyExecEngine(object):
 
     def get_info(self) -> Any:
         info = self.__proxy.get_info()
-        Logger.debug(f"get_info() -> {info}", TAG)
+        if Logger.isDebugEnabled():
+            Logger.debug(f"get_info() -> {info}", TAG)
         return info
 
     def call(self, to: Address, value: int, limit: int,
@@ -207,11 +208,13 @@ class PyExecEngine(object):
 
     def get_balance(self, addr: Address) -> int:
         ret = self.__proxy.get_balance(addr)
-        Logger.debug(f"get_balance({repr(addr)}) -> {ret}", TAG)
+        if Logger.isDebugEnabled():
+            Logger.debug(f"get_balance({repr(addr)}) -> {ret}", TAG)
         return ret
 
     def send_event(self, indexed: List[Any], data: List[Any]):
-        Logger.debug(f"send_event({indexed}, {data})", TAG)
+        if Logger.isDebugEnabled():
+            Logger.debug(f"send_event({indexed}, {data})", TAG)
         self.__proxy.send_event(indexed, data)
 
     def process(self):
diff --git a/pyee/pyexec/service_engine.py b/pyee/pyexec/service_engine.py
index 8bacb20..3737a38 100644
--- a/pyee/pyexec/service_engine.py
+++ b/pyee/pyexec/service_engine.py
@@ -61,7 +61,8 @@ class ServiceEngine(ContextContainer):
 
     @classmethod
     def invoke(cls, context: IconScoreContext):
-        Logger.debug(f'[invoke] {context.method}, {context.params}', TAG)
+        if Logger.isDebugEnabled():
+            Logger.debug(f'[invoke] {context.method}, {context.params}', TAG)
 
         cls._push_context(context)
         try:
@@ -69,7 +70,8 @@ class ServiceEngine(ContextContainer):
         finally:
             cls._pop_context()
 
-        Logger.debug(f'*** RESULT: {status}, {step_used}, {ret}', TAG)
+        if Logger.isDebugEnabled():
+            Logger.debug(f'*** RESULT: {status}, {step_used}, {ret}', TAG)
         return status, step_used, ret
 
     @classmethod
-- 
2.43.0


From 0f6658503f59b060a298e9ed239b7f35d88c1d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:29 +0000
Subject: [PATCH 11/26] fix: events called with an argument of an unknown name
 are refused

---
 pyee/pyexec/iconscore/icon_score_base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyee/pyexec/iconscore/icon_score_base.py b/pyee/pyexec/iconscore/icon_score_base.py
index 72cb6e8..10a9a88 100644
--- a/pyee/pyexec/iconscore/icon_score_base.py
+++ b/pyee/pyexec/iconscore/icon_score_base.py
@@ -199,6 +199,11 @@ def __resolve_arguments(function_name, parameters, args, kwargs) -> List[Any]:
     if len(parameters) - 1 < len(args) + len(kwargs):
         raise IllegalFormatException(
             f"The maximum number of arguments which event log method({function_name}) can accept is exceeded")
+    names = [parameter.name for parameter in parameters][1:]
+    for name in kwargs:
+        if name not in names:
+            raise IllegalFormatException(
+                f"Unknown argument for '{function_name}': {name}")
 
     for i, parameter in enumerate(parameters, -1):
         if i < 0:
-- 
2.43.0


From 876963973a7c4ac6b9745687f8a9e6679358c3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:12 +0000
Subject: [PATCH 12/26] fix: methods declared read-only cannot set the fee
 share

---
 pyee/pyexec/iconscore/icon_score_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyee/pyexec/iconscore/icon_score_base.py b/pyee/pyexec/iconscore/icon_score_base.py
index 10a9a88..c0ad5bc 100644
--- a/pyee/pyexec/iconscore/icon_score_base.py
+++ b/pyee/pyexec/iconscore/icon_score_base.py
@@ -50,7 +50,7 @@ from ..base.exception import *
 from ..base.message import Message
 from ..base.transaction import Transaction
 from ..database.db import IconScoreDatabase
-from ..icon_constant import ICX_TRANSFER_EVENT_LOG, IconScoreContextType
+from ..icon_constant import ICX_TRANSFER_EVENT_LOG
 from ..utils import get_main_type_from_annotations_type
 
 INDEXED_ARGS_LIMIT = 3
@@ -631,7 +631,7 @@ class IconScoreBase(IconScoreObject, ContextGetter,
         return self._context.fee_sharing_proportion
 
     def set_fee_sharing_proportion(self, proportion: int):
-        if self._context.type == IconScoreContextType.QUERY:
+        if self._context.readonly:
             raise InvalidRequestException("Cannot set fee sharing proportion in read-only context")
         if proportion < 0 or proportion > 100:
             raise InvalidRequestException("Invalid proportion: should be between 0 and 100")
-- 
2.43.0


From 4a7ad248002b4788d0a0fc7efc40492b1d2bfb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:50 +0000
Subject: [PATCH 13/26] fix: recursion errors inside the engine lost messages
 of the node or depended on the log level

---
 pyee/pyexec/iconscore/internal_call.py | 16 ++++---
 pyee/pyexec/pyexec.py                  |  8 ++++
 pyee/pyexec/service_engine.py          |  4 +-
 pyee/pyexec/utils/stack.py             | 62 ++++++++++++++++++++++++++
 4 files changed, 82 insertions(+), 8 deletions(-)
 create mode 100644 pyee/pyexec/utils/stack.py

diff --git a/pyee/pyexec/iconscore/internal_call.py b/pyee/pyexec/iconscore/internal_call.py
index 215ee5d..fce47a7 100644
--- a/pyee/pyexec/iconscore/internal_call.py
+++ b/pyee/pyexec/iconscore/internal_call.py
@@ -20,6 +20,7 @@ from ..base.exception import ExceptionCode, IconServiceBaseException
 from ..iconscore.icon_score_constant import STR_FALLBACK
 from ..ipc import MethodName
 from ..logger import Logger
+from ..utils.stack import engine_stack
 
 if TYPE_CHECKING:
     from .icon_score_context import IconScoreContext
@@ -58,13 +59,14 @@ class InternalCall(object):
             params = arg_params
         else:
             params = []
-        if Logger.isDebugEnabled():
-            Logger.debug(f'>>> from={addr_from} to={addr_to} amount={amount} func_name={func_name}', TAG)
-            Logger.debug(f'    new_limit={new_limit}, params={params}', TAG)
-        status, step_used, result = \
-            cls._proxy.call(addr_to, amount, new_limit, func_name, params)
-        if Logger.isDebugEnabled():
-            Logger.debug(f'<<< Result: {status}, {step_used}, {result}', TAG)
+        with engine_stack():
+            if Logger.isDebugEnabled():
+                Logger.debug(f'>>> from={addr_from} to={addr_to} amount={amount} func_name={func_name}', TAG)
+                Logger.debug(f'    new_limit={new_limit}, params={params}', TAG)
+            status, step_used, result = \
+                cls._proxy.call(addr_to, amount, new_limit, func_name, params)
+            if Logger.isDebugEnabled():
+                Logger.debug(f'<<< Result: {status}, {step_used}, {result}', TAG)
 
         if step_used > new_limit:
             context.step_counter.add_step(new_limit)
diff --git a/pyee/pyexec/pyexec.py b/pyee/pyexec/pyexec.py
index deb86ba..9be85ae 100644
--- a/pyee/pyexec/pyexec.py
+++ b/pyee/pyexec/pyexec.py
@@ -25,6 +25,7 @@ from .iconscore.icon_score_step import IconScoreStepCounter
 from .ipc.proxy import ServiceManagerProxy, Codec, TypeTag, APIInfo, APIType, DataType, Info, Log, SetHandler
 from .logger import Logger
 from .service_engine import ServiceEngine
+from .utils.stack import on_engine_stack
 
 TAG = 'PyExec'
 version_number = 1
@@ -186,32 +187,39 @@ class PyExecEngine(object):
              method: str, params: Any) -> Tuple[int, int, Any]:
         return self.__proxy.call(to, value, limit, method, params)
 
+    @on_engine_stack
     def get_value(self, k: bytes) -> Optional[bytes]:
         ret = self.__proxy.get_value(k)
         Logger.debug(f"get_value({repr(k)}) -> {repr(ret)}", TAG)
         return ret
 
+    @on_engine_stack
     def set_value(self, k: bytes, v: Optional[bytes], cb: Optional[SetHandler] = None):
         Logger.debug(f"set_value({repr(k)},{repr(v)})", TAG)
         self.__proxy.set_value(k, v, cb)
 
+    @on_engine_stack
     def contains(self, prefix: bytes, value: bytes, limit: int) -> Tuple[bool,int,int]:
         Logger.debug(f"contains({repr(prefix)},{repr(value)},{repr(limit)})", TAG)
         return self.__proxy.contains(prefix, value, limit)
 
+    @on_engine_stack
     def set_fee_proportion(self, pct: int):
         Logger.debug(f"set_fee_proportion({repr(pct)})", TAG)
         self.__proxy.set_fee_proportion(pct)
 
+    @on_engine_stack
     def handle_set_values(self) -> bool:
         return self.__proxy.handle_set_values()
 
+    @on_engine_stack
     def get_balance(self, addr: Address) -> int:
         ret = self.__proxy.get_balance(addr)
         if Logger.isDebugEnabled():
             Logger.debug(f"get_balance({repr(addr)}) -> {ret}", TAG)
         return ret
 
+    @on_engine_stack
     def send_event(self, indexed: List[Any], data: List[Any]):
         if Logger.isDebugEnabled():
             Logger.debug(f"send_event({indexed}, {data})", TAG)
diff --git a/pyee/pyexec/service_engine.py b/pyee/pyexec/service_engine.py
index 3737a38..4591835 100644
--- a/pyee/pyexec/service_engine.py
+++ b/pyee/pyexec/service_engine.py
@@ -25,6 +25,7 @@ from .iconscore.icon_score_mapper import IconScoreMapper
 from .iconscore.internal_call import InternalCall
 from .iconscore.score_package_validator import ScorePackageValidator
 from .logger import Logger, SystemLogger
+from .utils.stack import contract_stack
 
 TAG = 'ServiceEngine'
 
@@ -132,7 +133,8 @@ class ServiceEngine(ContextContainer):
             raise InvalidParamsException('Unknown params type')
 
         score_func = getattr(icon_score, '_IconScoreBase__call')
-        return score_func(func_name=func_name, arg_params=arg_params, kw_params=kw_params)
+        with contract_stack():
+            return score_func(func_name=func_name, arg_params=arg_params, kw_params=kw_params)
 
     @staticmethod
     def _convert_score_params_by_annotations(icon_score: 'IconScoreBase', func_name: str, kw_params: dict) -> dict:
diff --git a/pyee/pyexec/utils/stack.py b/pyee/pyexec/utils/stack.py
new file mode 100644
index 0000000..787b90f
--- /dev/null
+++ b/pyee/pyexec/utils/stack.py
@@ -0,0 +1,62 @@
+# Copyright 2018 ICON Foundation
+#
+# Licensed under the Apache License, Version 2.0 (the "License");
+# you may not use this file except in compliance with the License.
+# You may obtain a copy of the License at
+#
+#     http://www.apache.org/licenses/LICENSE-2.0
+#
+# Unless required by applicable law or agreed to in writing, software
+# distributed under the License is distributed on an "AS IS" BASIS,
+# WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+# See the License for the specific language governing permissions and
+# limitations under the License.
+
+import sys
+from functools import wraps
+
+# the stack a contract has, and what the engine has on top of it
+_CONTRACT_LIMIT = sys.getrecursionlimit()
+_ENGINE_LIMIT = _CONTRACT_LIMIT + 1000
+
+
+class _Stack(object):
+    def __init__(self, limit: int):
+        self._limit = limit
+        self._previous = limit
+
+    def __enter__(self):
+        self._previous = sys.getrecursionlimit()
+        self._set(self._previous)   # fails here if the stack is exhausted already
+        self._set(self._limit)
+
+    def __exit__(self, exc_type, exc_val, exc_tb):
+        self._set(self._previous)
+
+    @staticmethod
+    def _set(limit: int):
+        try:
+            sys.setrecursionlimit(limit)
+        except RecursionError:
+            raise RecursionError('maximum recursion depth exceeded') from None
+
+
+def engine_stack() -> _Stack:
+    """Code of the engine on behalf of a contract should not fail halfway
+    because the contract has used up its stack.
+    """
+    return _Stack(_ENGINE_LIMIT)
+
+
+def contract_stack() -> _Stack:
+    """Code of a contract called by the engine"""
+    return _Stack(_CONTRACT_LIMIT)
+
+
+def on_engine_stack(func):
+    @wraps(func)
+    def __wrapper(*args, **kwargs):
+        with engine_stack():
+            return func(*args, **kwargs)
+
+    return __wrapper
-- 
2.43.0


From 29a4e885e4a340c9eed8c60dba31f3658ea58827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:56 +0000
Subject: [PATCH 14/26] fix: exceptions of contracts without a text that can be
 sent ended the engine

---
 pyee/pyexec/ipc/proxy.py      | 10 ++++++----
 pyee/pyexec/service_engine.py |  4 ++++
 pyee/pyexec/utils/plain.py    | 26 ++++++++++++++++++++++++++
 3 files changed, 36 insertions(+), 4 deletions(-)
 create mode 100644 pyee/pyexec/utils/plain.py

diff --git a/pyee/pyexec/ipc/proxy.py b/pyee/pyexec/ipc/proxy.py
index f3d08c6..ae3acc1 100644
--- a/pyee/pyexec/ipc/proxy.py
+++ b/pyee/pyexec/ipc/proxy.py
@@ -18,6 +18,7 @@ from typing import Any, Tuple, List, Union, Callable, Optional
 
 from .client import Client
 from ..base.exception import IconServiceBaseException
+from ..utils.plain import text_of
 
 TAG = 'Proxy'
 
@@ -389,13 +390,13 @@ class ServiceManagerProxy:
                 self.encode(step_used),
                 self.encode_any(result)
             ])
-        except Exception as e:
+        except BaseException as e:
             e_str = traceback.format_exc()
             self.debug(f"Exception in INVOKE:\n{e_str}", TAG)
             self.__client.send(Message.RESULT, [
                 Status.SYSTEM_FAILURE,
                 self.encode(limit),
-                self.encode_any(f'ExceptionInInvoke({str(e)})')
+                self.encode_any(f'ExceptionInInvoke({text_of(e)})')
             ])
         finally:
             self.__readonly = self.__readonly_stack.pop(-1)
@@ -411,7 +412,7 @@ class ServiceManagerProxy:
                     self.__client.send(Message.GETAPI, [Status.SYSTEM_FAILURE, None])
             else:
                 self.__client.send(Message.GETAPI, [status, None])
-        except Exception:
+        except BaseException:
             e_str = traceback.format_exc()
             self.debug(f"Exception in GETAPI:\n{e_str}", TAG)
             self.__client.send(Message.GETAPI, [Status.SYSTEM_FAILURE, None])
@@ -541,7 +542,8 @@ class ServiceManagerProxy:
         flag = 0
         if level == Log.DEBUG or level == Log.TRACE:
             flag = LogFlag.TRACE
-        self.__client.send(Message.LOG, [int(level), int(flag), str(msg)])
+        text = str(msg).encode('utf-8', 'replace').decode('utf-8')
+        self.__client.send(Message.LOG, [int(level), int(flag), text])
 
     def debug(self, msg: str, tag: str = 'LOG') -> None:
         self.log(Log.DEBUG, f"[{tag}] {msg}")
diff --git a/pyee/pyexec/service_engine.py b/pyee/pyexec/service_engine.py
index 4591835..f2ffb66 100644
--- a/pyee/pyexec/service_engine.py
+++ b/pyee/pyexec/service_engine.py
@@ -25,6 +25,7 @@ from .iconscore.icon_score_mapper import IconScoreMapper
 from .iconscore.internal_call import InternalCall
 from .iconscore.score_package_validator import ScorePackageValidator
 from .logger import Logger, SystemLogger
+from .utils.plain import text_of
 from .utils.stack import contract_stack
 
 TAG = 'ServiceEngine'
@@ -68,6 +69,9 @@ class ServiceEngine(ContextContainer):
         cls._push_context(context)
         try:
             status, step_used, ret = cls._handle_invoke(context)
+        except BaseException as e:
+            # it may be an exception of the contract, which can't be handled after this
+            raise Exception(text_of(e)) from None
         finally:
             cls._pop_context()
 
diff --git a/pyee/pyexec/utils/plain.py b/pyee/pyexec/utils/plain.py
new file mode 100644
index 0000000..0f926e8
--- /dev/null
+++ b/pyee/pyexec/utils/plain.py
@@ -0,0 +1,26 @@
+# Copyright 2018 ICON Foundation
+#
+# Licensed under the Apache License, Version 2.0 (the "License");
+# you may not use this file except in compliance with the License.
+# You may obtain a copy of the License at
+#
+#     http://www.apache.org/licenses/LICENSE-2.0
+#
+# Unless required by applicable law or agreed to in writing, software
+# distributed under the License is distributed on an "AS IS" BASIS,
+# WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+# See the License for the specific language governing permissions and
+# limitations under the License.
+
+
+
+def text_of(e: BaseException) -> str:
+    """Text of an exception which may be one of a contract. That has it made
+    by code of the contract, which may fail or give something that can't be
+    encoded.
+    """
+    try:
+        text = str(e)
+    except BaseException:
+        text = '<exception str() failed>'
+    return str.encode(text, 'utf-8', 'replace').decode('utf-8')
-- 
2.43.0


From 381b7533c39199929ef985c5cfb6772a1a2b5514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:44 +0000
Subject: [PATCH 15/26] fix: failures reported statuses of success or of other
 types if contracts said so

---
 pyee/pyexec/service_engine.py |  4 ++--
 pyee/pyexec/utils/plain.py    | 12 ++++++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/pyee/pyexec/service_engine.py b/pyee/pyexec/service_engine.py
index f2ffb66..dc00dbb 100644
--- a/pyee/pyexec/service_engine.py
+++ b/pyee/pyexec/service_engine.py
@@ -25,7 +25,7 @@ from .iconscore.icon_score_mapper import IconScoreMapper
 from .iconscore.internal_call import InternalCall
 from .iconscore.score_package_validator import ScorePackageValidator
 from .logger import Logger, SystemLogger
-from .utils.plain import text_of
+from .utils.plain import status_of, text_of
 from .utils.stack import contract_stack
 
 TAG = 'ServiceEngine'
@@ -160,7 +160,7 @@ class ServiceEngine(ContextContainer):
                 tag = 'SystemException'
             Logger.exception(e.message, tag)
 
-            code = e.code
+            code = status_of(e.code)
             message = e.message
         else:
             SystemLogger.exception(repr(e), 'SystemError')
diff --git a/pyee/pyexec/utils/plain.py b/pyee/pyexec/utils/plain.py
index 0f926e8..da3e6b2 100644
--- a/pyee/pyexec/utils/plain.py
+++ b/pyee/pyexec/utils/plain.py
@@ -12,6 +12,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+from ..base.exception import ExceptionCode
 
 
 def text_of(e: BaseException) -> str:
@@ -24,3 +25,14 @@ def text_of(e: BaseException) -> str:
     except BaseException:
         text = '<exception str() failed>'
     return str.encode(text, 'utf-8', 'replace').decode('utf-8')
+
+
+def status_of(code) -> int:
+    """Status of a failure for the code of an exception. Contracts may give
+    their exceptions any, but a failure has none of other types or of success.
+    """
+    if isinstance(code, int):
+        status = int.__add__(code, 0)
+        if 0 < status < 1 << 31:
+            return status
+    return int(ExceptionCode.SYSTEM_ERROR)
-- 
2.43.0


From ab60354a670ff54f523983f135fe2710f9abd035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:00 +0000
Subject: [PATCH 16/26] fix: methods of returned values were run when their
 invocation had ended

---
 pyee/pyexec/pyexec.py         |  3 +++
 pyee/pyexec/service_engine.py |  6 +++---
 pyee/pyexec/utils/plain.py    | 37 +++++++++++++++++++++++++++++++++++
 3 files changed, 43 insertions(+), 3 deletions(-)

diff --git a/pyee/pyexec/pyexec.py b/pyee/pyexec/pyexec.py
index 9be85ae..75605d6 100644
--- a/pyee/pyexec/pyexec.py
+++ b/pyee/pyexec/pyexec.py
@@ -25,6 +25,7 @@ from .iconscore.icon_score_step import IconScoreStepCounter
 from .ipc.proxy import ServiceManagerProxy, Codec, TypeTag, APIInfo, APIType, DataType, Info, Log, SetHandler
 from .logger import Logger
 from .service_engine import ServiceEngine
+from .utils.plain import Unsendable
 from .utils.stack import on_engine_stack
 
 TAG = 'PyExec'
@@ -35,6 +36,8 @@ class EECodec(Codec):
     def encode(self, obj) -> Tuple[int, bytes]:
         if isinstance(obj, Address):
             return TypeTag.ADDRESS, obj.to_bytes()
+        if isinstance(obj, Unsendable):
+            raise Exception(obj.reason)
         raise Exception(f"UnknownType: {type(obj)}")
 
     def decode(self, t: int, b: bytes) -> Any:
diff --git a/pyee/pyexec/service_engine.py b/pyee/pyexec/service_engine.py
index dc00dbb..4c739e1 100644
--- a/pyee/pyexec/service_engine.py
+++ b/pyee/pyexec/service_engine.py
@@ -25,7 +25,7 @@ from .iconscore.icon_score_mapper import IconScoreMapper
 from .iconscore.internal_call import InternalCall
 from .iconscore.score_package_validator import ScorePackageValidator
 from .logger import Logger, SystemLogger
-from .utils.plain import status_of, text_of
+from .utils.plain import plain_value, status_of, text_of
 from .utils.stack import contract_stack
 
 TAG = 'ServiceEngine'
@@ -100,7 +100,7 @@ class ServiceEngine(ContextContainer):
     @classmethod
     def _handle_invoke(cls, context):
         try:
-            ret = cls._internal_call(context)
+            ret = plain_value(cls._internal_call(context))
             status = Status.SUCCESS
         except BaseException as e:
             status, ret = cls._get_status_from_exception(e)
@@ -161,7 +161,7 @@ class ServiceEngine(ContextContainer):
             Logger.exception(e.message, tag)
 
             code = status_of(e.code)
-            message = e.message
+            message = plain_value(e.message)
         else:
             SystemLogger.exception(repr(e), 'SystemError')
 
diff --git a/pyee/pyexec/utils/plain.py b/pyee/pyexec/utils/plain.py
index da3e6b2..8fd3670 100644
--- a/pyee/pyexec/utils/plain.py
+++ b/pyee/pyexec/utils/plain.py
@@ -12,6 +12,9 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+from typing import Any
+
+from ..base.address import Address
 from ..base.exception import ExceptionCode
 
 
@@ -36,3 +39,37 @@ def status_of(code) -> int:
         if 0 < status < 1 << 31:
             return status
     return int(ExceptionCode.SYSTEM_ERROR)
+
+
+class Unsendable(object):
+    def __init__(self, reason: str):
+        self.reason = reason
+
+
+def plain_value(o: Any) -> Any:
+    """The value a contract returns, without types of the contract. Their
+    methods are code of the contract, which shouldn't be run any more when the
+    value is sent. What has no encoding is replaced, and reported when the
+    value is sent.
+    """
+    t = type(o)
+    if o is None or t in (bool, int, str, bytes, Address):
+        return o
+    elif issubclass(t, dict):
+        m = {}
+        for k, v in o.items():
+            if not issubclass(type(k), str):
+                return Unsendable(f'InvalidKeyType:{type(k)}')
+            m[plain_value(k)] = plain_value(v)
+        return m
+    elif issubclass(t, (list, tuple)):
+        return [plain_value(v) for v in o]
+    elif issubclass(t, bytes):
+        return b''.join((o,))
+    elif issubclass(t, str):
+        return str.__add__('', o)
+    elif issubclass(t, int):
+        return int.__add__(o, 0)
+    elif issubclass(t, Address):
+        return Address.from_bytes(Address.to_bytes(o))
+    return Unsendable(f'UnknownType: {t}')
-- 
2.43.0


From 82cf8642bb429f497ea3b5ce36e693b31ff5c336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:24 +0000
Subject: [PATCH 17/26] fix: the log level changed what contracts do, by the
 texts made for enabled logs

---
 pyee/pyexec/iconscore/internal_call.py |  7 +++--
 pyee/pyexec/logger/logger.py           | 38 ++++++++++++++------------
 pyee/pyexec/logger/utils.py            | 12 ++++++++
 pyee/pyexec/pyexec.py                  | 25 +++++++++--------
 pyee/pyexec/service_engine.py          |  6 ++--
 pyee/pyexec/utils/plain.py             | 16 +++++++++++
 6 files changed, 69 insertions(+), 35 deletions(-)

diff --git a/pyee/pyexec/iconscore/internal_call.py b/pyee/pyexec/iconscore/internal_call.py
index fce47a7..33ad31c 100644
--- a/pyee/pyexec/iconscore/internal_call.py
+++ b/pyee/pyexec/iconscore/internal_call.py
@@ -20,6 +20,7 @@ from ..base.exception import ExceptionCode, IconServiceBaseException
 from ..iconscore.icon_score_constant import STR_FALLBACK
 from ..ipc import MethodName
 from ..logger import Logger
+from ..utils.plain import repr_of
 from ..utils.stack import engine_stack
 
 if TYPE_CHECKING:
@@ -61,12 +62,12 @@ class InternalCall(object):
             params = []
         with engine_stack():
             if Logger.isDebugEnabled():
-                Logger.debug(f'>>> from={addr_from} to={addr_to} amount={amount} func_name={func_name}', TAG)
-                Logger.debug(f'    new_limit={new_limit}, params={params}', TAG)
+                Logger.debug(f'>>> from={addr_from} to={addr_to} amount={repr_of(amount)} func_name={repr_of(func_name)}', TAG)
+                Logger.debug(f'    new_limit={new_limit}, params={repr_of(params)}', TAG)
             status, step_used, result = \
                 cls._proxy.call(addr_to, amount, new_limit, func_name, params)
             if Logger.isDebugEnabled():
-                Logger.debug(f'<<< Result: {status}, {step_used}, {result}', TAG)
+                Logger.debug(f'<<< Result: {status}, {step_used}, {repr_of(result)}', TAG)
 
         if step_used > new_limit:
             context.step_counter.add_step(new_limit)
diff --git a/pyee/pyexec/logger/logger.py b/pyee/pyexec/logger/logger.py
index 9986289..bdab4eb 100644
--- a/pyee/pyexec/logger/logger.py
+++ b/pyee/pyexec/logger/logger.py
@@ -16,8 +16,9 @@ import logging
 import os
 import sys
 
-from logging import DEBUG, INFO, WARNING, ERROR, currentframe
+from logging import DEBUG, INFO, WARNING, currentframe
 from .utils import LoggerUtil
+from ..utils.stack import engine_stack
 
 default_logger = logging.Logger("python")
 
@@ -51,32 +52,36 @@ class Logger(object):
 
     @classmethod
     def debug(cls, msg: str, tag: str = "DEBUG"):
-        if default_logger.isEnabledFor(DEBUG):
-            cls._log(DEBUG, LoggerUtil.make_log_msg(tag, msg))
+        cls._log_text(DEBUG, DEBUG, msg, tag)
 
     @classmethod
     def info(cls, msg: str, tag: str = "INFO"):
-        if default_logger.isEnabledFor(INFO):
-            cls._log(INFO, LoggerUtil.make_log_msg(tag, msg))
+        cls._log_text(INFO, INFO, msg, tag)
 
     @classmethod
     def warning(cls, msg: str, tag: str = "WARN"):
-        if default_logger.isEnabledFor(WARNING):
-            # redirect warning to info
-            cls.info(msg, tag)
+        # redirect warning to info
+        cls._log_text(INFO, INFO, msg, tag)
 
     @classmethod
     def error(cls, msg: str, tag: str = "ERROR"):
-        if default_logger.isEnabledFor(ERROR):
-            # redirect error to info
-            cls.info(msg, tag)
+        # redirect error to info
+        cls._log_text(INFO, INFO, msg, tag)
 
     @classmethod
     def exception(cls, msg: str, tag: str = "LOG"):
-        if default_logger.isEnabledFor(DEBUG):
-            cls._log(INFO, LoggerUtil.make_log_msg(tag, msg), exc_info=True)
-        elif default_logger.isEnabledFor(INFO):
-            cls._log(INFO, LoggerUtil.make_log_msg(tag, msg))
+        cls._log_text(INFO, INFO, msg, tag, DEBUG)
+
+    @classmethod
+    def _log_text(cls, enabled, level, msg, tag, trace_enabled=None):
+        # contracts use the logger, and should do the same whatever is enabled:
+        # making the text may run code of the contract and needs some stack
+        text = LoggerUtil.make_log_msg(tag, msg)
+        with engine_stack():
+            if default_logger.isEnabledFor(enabled):
+                if trace_enabled is not None and default_logger.isEnabledFor(trace_enabled):
+                    text += LoggerUtil.make_traceback(sys.exc_info()[2])
+                cls._log(level, text)
 
     @classmethod
     def _log(cls, level, msg, args=None, exc_info=None, extra=None):
@@ -128,5 +133,4 @@ class Logger(object):
 class SystemLogger(Logger):
     @classmethod
     def exception(cls, msg: str, tag: str = "LOG"):
-        if default_logger.isEnabledFor(WARNING):
-            cls._log(WARNING, LoggerUtil.make_log_msg(tag, msg), exc_info=True)
+        cls._log_text(WARNING, WARNING, msg, tag, WARNING)
diff --git a/pyee/pyexec/logger/utils.py b/pyee/pyexec/logger/utils.py
index 1a711a8..08908e5 100644
--- a/pyee/pyexec/logger/utils.py
+++ b/pyee/pyexec/logger/utils.py
@@ -125,3 +125,15 @@ class LoggerUtil(object):
     @classmethod
     def make_log_msg(cls, tag: str, msg: Union[str, BaseException]):
         return f'[{tag}] {msg}'
+
+    @classmethod
+    def make_traceback(cls, tb) -> str:
+        """Places an exception passed. Its text is not used: that of an exception
+        of a contract is made by code of the contract.
+        """
+        text = ''
+        while tb is not None:
+            code = tb.tb_frame.f_code
+            text += f'\n  File "{code.co_filename}", line {tb.tb_lineno}, in {code.co_name}'
+            tb = tb.tb_next
+        return text
diff --git a/pyee/pyexec/pyexec.py b/pyee/pyexec/pyexec.py
index 75605d6..6236f13 100644
--- a/pyee/pyexec/pyexec.py
+++ b/pyee/pyexec/pyexec.py
@@ -25,7 +25,7 @@ from .iconscore.icon_score_step import IconScoreStepCounter
 from .ipc.proxy import ServiceManagerProxy, Codec, TypeTag, APIInfo, APIType, DataType, Info, Log, SetHandler
 from .logger import Logger
 from .service_engine import ServiceEngine
-from .utils.plain import Unsendable
+from .utils.plain import Unsendable, repr_of
 from .utils.stack import on_engine_stack
 
 TAG = 'PyExec'
@@ -133,7 +133,7 @@ class PyExecEngine(object):
                        value: int, limit: int, method: str, params: Any, info: Any) -> Tuple[int, int, Any]:
         if Logger.isDebugEnabled():
             Logger.debug(f'[invoke_handle] code={repr(code)},is_query={is_query},from={_from},to={to},' +
-                         f'value={value},limit={limit},method={repr(method)},params={params},info={info}', TAG)
+                         f'value={repr_of(value)},limit={repr_of(limit)},method={repr(method)},params={repr_of(params)},info={repr_of(info)}', TAG)
         context = IconScoreContext(IconScoreContextType.QUERY if is_query
                                    else IconScoreContextType.INVOKE)
         context.set_invoke_params(code, to, method, params)
@@ -150,17 +150,18 @@ class PyExecEngine(object):
                                                     self.handle_set_values)
         context.revision = info.get(Info.REVISION)
         if Logger.isDebugEnabled():
-            Logger.debug(f'[Transaction] {context.tx}', TAG)
-            Logger.debug(f'[Block] {context.block}', TAG)
-            Logger.debug(f'[Message] {context.msg}', TAG)
+            tx, block, msg = context.tx, context.block, context.msg
+            Logger.debug(f'[Transaction] {repr_of([tx.hash, tx.index, tx.origin, tx.timestamp, tx.nonce])}', TAG)
+            Logger.debug(f'[Block] {repr_of([block.height, block.timestamp])}', TAG)
+            Logger.debug(f'[Message] {repr_of([msg.sender, msg.value])}', TAG)
             Logger.debug(f'[Owner] {context.owner}', TAG)
-            Logger.debug(f'[Revision] {context.revision}', TAG)
+            Logger.debug(f'[Revision] {repr_of(context.revision)}', TAG)
         return ServiceEngine.invoke(context)
 
     def api_handler(self, code: str) -> Tuple[int, APIInfo]:
         Logger.debug(f'[api_handler] code={code}', TAG)
         status, apis = ServiceEngine.get_score_api(code, self.__verify_package)
-        Logger.debug(f"get_api({code}) -> {status} {apis}", TAG)
+        Logger.debug(f"get_api({code}) -> {status} {repr_of(apis)}", TAG)
         info = APIInfo(self.__proxy)
         if status == Status.SUCCESS:
             for api in apis:
@@ -183,7 +184,7 @@ class PyExecEngine(object):
     def get_info(self) -> Any:
         info = self.__proxy.get_info()
         if Logger.isDebugEnabled():
-            Logger.debug(f"get_info() -> {info}", TAG)
+            Logger.debug(f"get_info() -> {repr_of(info)}", TAG)
         return info
 
     def call(self, to: Address, value: int, limit: int,
@@ -203,12 +204,12 @@ class PyExecEngine(object):
 
     @on_engine_stack
     def contains(self, prefix: bytes, value: bytes, limit: int) -> Tuple[bool,int,int]:
-        Logger.debug(f"contains({repr(prefix)},{repr(value)},{repr(limit)})", TAG)
+        Logger.debug(f"contains({repr(prefix)},{repr(value)},{repr_of(limit)})", TAG)
         return self.__proxy.contains(prefix, value, limit)
 
     @on_engine_stack
     def set_fee_proportion(self, pct: int):
-        Logger.debug(f"set_fee_proportion({repr(pct)})", TAG)
+        Logger.debug(f"set_fee_proportion({repr_of(pct)})", TAG)
         self.__proxy.set_fee_proportion(pct)
 
     @on_engine_stack
@@ -219,13 +220,13 @@ class PyExecEngine(object):
     def get_balance(self, addr: Address) -> int:
         ret = self.__proxy.get_balance(addr)
         if Logger.isDebugEnabled():
-            Logger.debug(f"get_balance({repr(addr)}) -> {ret}", TAG)
+            Logger.debug(f"get_balance({repr(addr)}) -> {repr_of(ret)}", TAG)
         return ret
 
     @on_engine_stack
     def send_event(self, indexed: List[Any], data: List[Any]):
         if Logger.isDebugEnabled():
-            Logger.debug(f"send_event({indexed}, {data})", TAG)
+            Logger.debug(f"send_event({repr_of(indexed)}, {repr_of(data)})", TAG)
         self.__proxy.send_event(indexed, data)
 
     def process(self):
diff --git a/pyee/pyexec/service_engine.py b/pyee/pyexec/service_engine.py
index 4c739e1..fcd3088 100644
--- a/pyee/pyexec/service_engine.py
+++ b/pyee/pyexec/service_engine.py
@@ -25,7 +25,7 @@ from .iconscore.icon_score_mapper import IconScoreMapper
 from .iconscore.internal_call import InternalCall
 from .iconscore.score_package_validator import ScorePackageValidator
 from .logger import Logger, SystemLogger
-from .utils.plain import plain_value, status_of, text_of
+from .utils.plain import plain_value, repr_of, status_of, text_of
 from .utils.stack import contract_stack
 
 TAG = 'ServiceEngine'
@@ -64,7 +64,7 @@ class ServiceEngine(ContextContainer):
     @classmethod
     def invoke(cls, context: IconScoreContext):
         if Logger.isDebugEnabled():
-            Logger.debug(f'[invoke] {context.method}, {context.params}', TAG)
+            Logger.debug(f'[invoke] {context.method}, {repr_of(context.params)}', TAG)
 
         cls._push_context(context)
         try:
@@ -76,7 +76,7 @@ class ServiceEngine(ContextContainer):
             cls._pop_context()
 
         if Logger.isDebugEnabled():
-            Logger.debug(f'*** RESULT: {status}, {step_used}, {ret}', TAG)
+            Logger.debug(f'*** RESULT: {status}, {step_used}, {repr_of(ret)}', TAG)
         return status, step_used, ret
 
     @classmethod
diff --git a/pyee/pyexec/utils/plain.py b/pyee/pyexec/utils/plain.py
index 8fd3670..7480372 100644
--- a/pyee/pyexec/utils/plain.py
+++ b/pyee/pyexec/utils/plain.py
@@ -73,3 +73,19 @@ def plain_value(o: Any) -> Any:
     elif issubclass(t, Address):
         return Address.from_bytes(Address.to_bytes(o))
     return Unsendable(f'UnknownType: {t}')
+
+
+def repr_of(o: Any, depth: int = 8) -> str:
+    """Text of a value for logs, which may be one of a contract. It's made
+    without code of the contract, and doesn't fail for big numbers.
+    """
+    t = type(o)
+    if t is int:
+        return hex(o)
+    elif t in (bool, str, bytes, float, Address) or o is None:
+        return repr(o)
+    elif depth > 0 and t is dict:
+        return '{%s}' % ', '.join([f'{repr_of(k, 0)}: {repr_of(v, depth - 1)}' for k, v in o.items()])
+    elif depth > 0 and t in (list, tuple):
+        return '[%s]' % ', '.join([repr_of(v, depth - 1) for v in o])
+    return object.__repr__(o)
-- 
2.43.0


From 4ab819bca8191cb155acbca7a77b18261d053ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:00 +0000
Subject: [PATCH 18/26] fix: arguments of wrong types were sent as malformed or
 other requests

A contract could end the engine by asking for the balance of something
which isn't an address, or pay another amount than the one given when it
isn't a number; a fee share could be no number.
---
 pyee/pyexec/iconscore/icon_score_base.py |  4 ++++
 pyee/pyexec/iconscore/internal_call.py   | 15 +++++++++++++--
 pyee/pyexec/pyexec.py                    |  7 +++++--
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/pyee/pyexec/iconscore/icon_score_base.py b/pyee/pyexec/iconscore/icon_score_base.py
index c0ad5bc..e5b3866 100644
--- a/pyee/pyexec/iconscore/icon_score_base.py
+++ b/pyee/pyexec/iconscore/icon_score_base.py
@@ -52,6 +52,7 @@ from ..base.transaction import Transaction
 from ..database.db import IconScoreDatabase
 from ..icon_constant import ICX_TRANSFER_EVENT_LOG
 from ..utils import get_main_type_from_annotations_type
+from ..utils.plain import plain_value
 
 INDEXED_ARGS_LIMIT = 3
 
@@ -633,6 +634,9 @@ class IconScoreBase(IconScoreObject, ContextGetter,
     def set_fee_sharing_proportion(self, proportion: int):
         if self._context.readonly:
             raise InvalidRequestException("Cannot set fee sharing proportion in read-only context")
+        if not isinstance(proportion, int):
+            raise InvalidRequestException("Invalid proportion: not an integer")
+        proportion = plain_value(proportion)
         if proportion < 0 or proportion > 100:
             raise InvalidRequestException("Invalid proportion: should be between 0 and 100")
 
diff --git a/pyee/pyexec/iconscore/internal_call.py b/pyee/pyexec/iconscore/internal_call.py
index 33ad31c..4cabbfc 100644
--- a/pyee/pyexec/iconscore/internal_call.py
+++ b/pyee/pyexec/iconscore/internal_call.py
@@ -16,11 +16,11 @@ from copy import deepcopy
 from typing import TYPE_CHECKING, Optional, Any
 
 from ..base.address import Address
-from ..base.exception import ExceptionCode, IconServiceBaseException
+from ..base.exception import ExceptionCode, IconServiceBaseException, InvalidParamsException
 from ..iconscore.icon_score_constant import STR_FALLBACK
 from ..ipc import MethodName
 from ..logger import Logger
-from ..utils.plain import repr_of
+from ..utils.plain import plain_value, repr_of
 from ..utils.stack import engine_stack
 
 if TYPE_CHECKING:
@@ -38,6 +38,8 @@ class InternalCall(object):
 
     @classmethod
     def icx_get_balance(cls, address: 'Address') -> int:
+        if not isinstance(address, Address):
+            raise InvalidParamsException(f'Invalid address type: {type(address)}')
         return cls._proxy.get_balance(address)
 
     @classmethod
@@ -49,6 +51,15 @@ class InternalCall(object):
                      func_name: Optional[str],
                      arg_params: Optional[tuple] = None,
                      kw_params: Optional[dict] = None) -> Any:
+        if not isinstance(addr_to, Address):
+            raise InvalidParamsException(f'Invalid address type: {type(addr_to)}')
+        if not isinstance(amount, int):
+            raise InvalidParamsException(f'Invalid amount type: {type(amount)}')
+        amount = plain_value(amount)
+        if amount < 0:
+            raise InvalidParamsException('Invalid amount: negative')
+        if func_name is not None and not isinstance(func_name, str):
+            raise InvalidParamsException(f'Invalid method name type: {type(func_name)}')
         if func_name is None or func_name == STR_FALLBACK:
             func_name = MethodName.FALLBACK
         new_limit = context.step_counter.step_remained
diff --git a/pyee/pyexec/pyexec.py b/pyee/pyexec/pyexec.py
index 6236f13..024f9db 100644
--- a/pyee/pyexec/pyexec.py
+++ b/pyee/pyexec/pyexec.py
@@ -15,7 +15,7 @@
 from logging import Handler
 from typing import Tuple, Any, List, Optional
 
-from .base.address import Address
+from .base.address import Address, ICON_ADDRESS_BYTES_SIZE
 from .base.block import Block
 from .base.message import Message
 from .base.transaction import Transaction
@@ -35,7 +35,10 @@ version_number = 1
 class EECodec(Codec):
     def encode(self, obj) -> Tuple[int, bytes]:
         if isinstance(obj, Address):
-            return TypeTag.ADDRESS, obj.to_bytes()
+            bs = Address.to_bytes(obj)
+            if len(bs) != ICON_ADDRESS_BYTES_SIZE:
+                raise Exception(f'InvalidAddressLength: {len(bs)}')
+            return TypeTag.ADDRESS, bs
         if isinstance(obj, Unsendable):
             raise Exception(obj.reason)
         raise Exception(f"UnknownType: {type(obj)}")
-- 
2.43.0


From ab2f90cd28b4e0fdc2014f163bb366a6404a34ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:00 +0000
Subject: [PATCH 19/26] fix: values of types of contracts were encoded by
 methods of the contract

Those could make messages the node can't decode, and end the engine.
---
 pyee/pyexec/iconscore/icon_container_db.py   | 7 +++++++
 pyee/pyexec/iconscore/icon_score_eventlog.py | 2 ++
 pyee/pyexec/ipc/proxy.py                     | 7 ++++---
 pyee/pyexec/utils/plain.py                   | 2 +-
 4 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/pyee/pyexec/iconscore/icon_container_db.py b/pyee/pyexec/iconscore/icon_container_db.py
index 6e420a7..4902a77 100644
--- a/pyee/pyexec/iconscore/icon_container_db.py
+++ b/pyee/pyexec/iconscore/icon_container_db.py
@@ -17,6 +17,7 @@ from typing import TypeVar, Optional, Any, Union, TYPE_CHECKING
 from ..base.address import Address
 from ..base.exception import InvalidParamsException, InvalidContainerAccessException
 from ..utils import int_to_bytes, bytes_to_int
+from ..utils.plain import plain_value
 
 if TYPE_CHECKING:
     from ..database.db import IconScoreDatabase
@@ -28,6 +29,8 @@ ARRAY_DB_ID = b'\x00'
 DICT_DB_ID = b'\x01'
 VAR_DB_ID = b'\x02'
 
+BASE_TYPES = (int, str, Address, bytes)
+
 
 class ContainerUtil(object):
     @staticmethod
@@ -35,6 +38,8 @@ class ContainerUtil(object):
         if key is None:
             raise InvalidParamsException('key is None')
 
+        if isinstance(key, BASE_TYPES):
+            key = plain_value(key)
         if isinstance(key, int):
             bytes_key = int_to_bytes(key)
         elif isinstance(key, str):
@@ -49,6 +54,8 @@ class ContainerUtil(object):
 
     @staticmethod
     def encode_value(value: V) -> bytes:
+        if isinstance(value, BASE_TYPES):
+            value = plain_value(value)
         if isinstance(value, int):
             byte_value = int_to_bytes(value)
         elif isinstance(value, str):
diff --git a/pyee/pyexec/iconscore/icon_score_eventlog.py b/pyee/pyexec/iconscore/icon_score_eventlog.py
index 4d9fab0..5806bf2 100644
--- a/pyee/pyexec/iconscore/icon_score_eventlog.py
+++ b/pyee/pyexec/iconscore/icon_score_eventlog.py
@@ -19,6 +19,7 @@ from ..base.address import Address
 from ..base.exception import InvalidEventLogException
 from ..icon_constant import DATA_BYTE_ORDER, ICX_TRANSFER_EVENT_LOG
 from ..utils import int_to_bytes, byte_length_of_int
+from ..utils.plain import plain_value
 
 if TYPE_CHECKING:
     from .icon_score_constant import BaseType
@@ -99,6 +100,7 @@ class EventLogEmitter(object):
                 f'declared indexed_args_count is {indexed_args_count}, '
                 f'but argument count is {len(arguments)}')
 
+        arguments = [plain_value(argument) for argument in arguments]
         event_size = EventLogEmitter.__get_byte_length(event_signature)
         indexed: List['BaseType'] = [event_signature]
         data: List['BaseType'] = []
diff --git a/pyee/pyexec/ipc/proxy.py b/pyee/pyexec/ipc/proxy.py
index ae3acc1..ef06fa4 100644
--- a/pyee/pyexec/ipc/proxy.py
+++ b/pyee/pyexec/ipc/proxy.py
@@ -18,7 +18,7 @@ from typing import Any, Tuple, List, Union, Callable, Optional
 
 from .client import Client
 from ..base.exception import IconServiceBaseException
-from ..utils.plain import text_of
+from ..utils.plain import plain_value, text_of
 
 TAG = 'Proxy'
 
@@ -431,8 +431,8 @@ class ServiceManagerProxy:
              step_limit: int, method: str,
              params: Any) -> Tuple[int, int, Any]:
         data = {
-            'method': method,
-            'params': params
+            'method': plain_value(method),
+            'params': plain_value(params)
         }
         self.__client.send(Message.CALL, [
             self.encode(to), self.encode(value), self.encode(step_limit),
@@ -491,6 +491,7 @@ class ServiceManagerProxy:
     def set_value(self, key: bytes, value: Optional[bytes], cb: Optional[SetHandler]):
         if self.__readonly:
             raise Exception('NoPermissionToWrite')
+        value = plain_value(value)
         flag = 0
         if cb is not None:
             flag |= SetValueFlag.OLDVALUE
diff --git a/pyee/pyexec/utils/plain.py b/pyee/pyexec/utils/plain.py
index 7480372..347bf17 100644
--- a/pyee/pyexec/utils/plain.py
+++ b/pyee/pyexec/utils/plain.py
@@ -71,7 +71,7 @@ def plain_value(o: Any) -> Any:
     elif issubclass(t, int):
         return int.__add__(o, 0)
     elif issubclass(t, Address):
-        return Address.from_bytes(Address.to_bytes(o))
+        return Address(o.prefix, plain_value(o.body), True)
     return Unsendable(f'UnknownType: {t}')
 
 
-- 
2.43.0


From 7e0adff556cd024c545b743853dcb3294fea00ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:21 +0000
Subject: [PATCH 20/26] fix: hashes and JSON were charged by the size a value
 of a contract's type claims

---
 pyee/pyexec/iconscore/icon_score_base2.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyee/pyexec/iconscore/icon_score_base2.py b/pyee/pyexec/iconscore/icon_score_base2.py
index 0b866b2..ac88753 100644
--- a/pyee/pyexec/iconscore/icon_score_base2.py
+++ b/pyee/pyexec/iconscore/icon_score_base2.py
@@ -27,6 +27,7 @@ from .internal_call import InternalCall
 from ..base.address import Address, AddressPrefix
 from ..base.exception import InvalidParamsException, IconScoreException, InvalidInstanceException
 from ..icon_constant import REVISION_COMPACT_JSON, CHARSET_ENCODING
+from ..utils.plain import plain_value
 
 
 class InterfaceScoreMeta(ABCMeta):
@@ -230,6 +231,7 @@ def _hash(name: str, data: bytes) -> bytes:
         raise InvalidParamsException(f"Not supported: {name}")
     if not isinstance(data, bytes):
         raise InvalidParamsException("Invalid dataType")
+    data = plain_value(data)
 
     context = ContextContainer._get_context()
     assert context
@@ -281,6 +283,7 @@ def json_loads(src: str) -> Any:
     """
     if not isinstance(src, str):
         return None
+    src = plain_value(src)
 
     context = ContextContainer._get_context()
     assert context
@@ -302,6 +305,7 @@ def create_address_with_key(public_key: bytes) -> Optional['Address']:
     """
     if not isinstance(public_key, bytes):
         return None
+    public_key = plain_value(public_key)
 
     # 33: prefix(1 byte) + keyBody(32 bytes)
     # 65: prefix(1 byte) + keyBody(64 bytes)
-- 
2.43.0


From 552d41aef1356cb3907d6c769fdccbfbc8a9274c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:55 +0000
Subject: [PATCH 21/26] fix: writes by methods of arguments of a call lost
 their acknowledgements

The arguments of an inter-contract call, of types of the contract, were made
plain (and copied) after the pending writes had been settled. Writes made by
their methods meanwhile were still unacknowledged when the call was sent, and
the engine took the acknowledgement for the answer of the call.
---
 pyee/pyexec/iconscore/internal_call.py | 11 ++++++-----
 pyee/pyexec/ipc/proxy.py               |  4 ++--
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/pyee/pyexec/iconscore/internal_call.py b/pyee/pyexec/iconscore/internal_call.py
index 4cabbfc..b286cdb 100644
--- a/pyee/pyexec/iconscore/internal_call.py
+++ b/pyee/pyexec/iconscore/internal_call.py
@@ -12,7 +12,6 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
-from copy import deepcopy
 from typing import TYPE_CHECKING, Optional, Any
 
 from ..base.address import Address
@@ -60,17 +59,19 @@ class InternalCall(object):
             raise InvalidParamsException('Invalid amount: negative')
         if func_name is not None and not isinstance(func_name, str):
             raise InvalidParamsException(f'Invalid method name type: {type(func_name)}')
+        addr_to, func_name = plain_value(addr_to), plain_value(func_name)
         if func_name is None or func_name == STR_FALLBACK:
             func_name = MethodName.FALLBACK
-        new_limit = context.step_counter.step_remained
         if kw_params is not None and len(kw_params) > 0:
-            params = deepcopy(kw_params)
+            params = plain_value(kw_params)
             if arg_params is not None and len(arg_params) > 0:
-                params["."] = arg_params
+                params["."] = plain_value(arg_params)
         elif arg_params is not None:
-            params = arg_params
+            params = plain_value(arg_params)
         else:
             params = []
+        # it settles writings, then the call must be sent without code of contracts
+        new_limit = context.step_counter.step_remained
         with engine_stack():
             if Logger.isDebugEnabled():
                 Logger.debug(f'>>> from={addr_from} to={addr_to} amount={repr_of(amount)} func_name={repr_of(func_name)}', TAG)
diff --git a/pyee/pyexec/ipc/proxy.py b/pyee/pyexec/ipc/proxy.py
index ef06fa4..eee6d43 100644
--- a/pyee/pyexec/ipc/proxy.py
+++ b/pyee/pyexec/ipc/proxy.py
@@ -431,8 +431,8 @@ class ServiceManagerProxy:
              step_limit: int, method: str,
              params: Any) -> Tuple[int, int, Any]:
         data = {
-            'method': plain_value(method),
-            'params': plain_value(params)
+            'method': method,
+            'params': params
         }
         self.__client.send(Message.CALL, [
             self.encode(to), self.encode(value), self.encode(step_limit),
-- 
2.43.0


From 7f4c9e83c079234efa81982c10a4e61cdff656fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:23 +0000
Subject: [PATCH 22/26] fix: the message of a revert which fails to be logged
 changed its status

The message may be of a str type of the contract with a failing __str__. It is
made plain for the result anyway; log that.
---
 pyee/pyexec/service_engine.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyee/pyexec/service_engine.py b/pyee/pyexec/service_engine.py
index fcd3088..3fa0552 100644
--- a/pyee/pyexec/service_engine.py
+++ b/pyee/pyexec/service_engine.py
@@ -158,10 +158,11 @@ class ServiceEngine(ContextContainer):
                 tag = 'ScoreException'
             else:
                 tag = 'SystemException'
-            Logger.exception(e.message, tag)
+            # its text may be of a type of the contract, which may fail to be logged
+            message = plain_value(e.message)
+            Logger.exception(message, tag)
 
             code = status_of(e.code)
-            message = plain_value(e.message)
         else:
             SystemLogger.exception(repr(e), 'SystemError')
 
-- 
2.43.0


From 40abe245cbdfaaf224263ed589e977bacf50df8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:06 +0000
Subject: [PATCH 23/26] fix: parameters named as those of the decorators could
 not be given by name

---
 pyee/pyexec/iconscore/icon_score_base.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pyee/pyexec/iconscore/icon_score_base.py b/pyee/pyexec/iconscore/icon_score_base.py
index e5b3866..61216af 100644
--- a/pyee/pyexec/iconscore/icon_score_base.py
+++ b/pyee/pyexec/iconscore/icon_score_base.py
@@ -75,7 +75,8 @@ def interface(func):
     set_score_flag_on(func, ScoreFlag.INTERFACE)
 
     @wraps(func)
-    def __wrapper(calling_obj: "InterfaceScore", *args, **kwargs):
+    def __wrapper(*args, **kwargs):
+        calling_obj, args = args[0], args[1:]
         if not isinstance(calling_obj, InterfaceScore):
             raise InvalidInstanceException(
                 FORMAT_IS_NOT_DERIVED_OF_OBJECT.format(InterfaceScore.__name__))
@@ -136,7 +137,8 @@ def eventlog(func=None, *, indexed=0):
     event_signature = __retrieve_event_signature(func_name, parameters)
 
     @wraps(func)
-    def __wrapper(calling_obj: 'IconScoreBase', *args, **kwargs):
+    def __wrapper(*args, **kwargs):
+        calling_obj, args = args[0], args[1:]
         if not (isinstance(calling_obj, IconScoreBase)):
             raise InvalidInstanceException(
                 FORMAT_IS_NOT_DERIVED_OF_OBJECT.format(IconScoreBase.__name__))
@@ -274,7 +276,8 @@ def external(func=None, *, readonly=False):
     set_score_flag_on(func, flag)
 
     @wraps(func)
-    def __wrapper(calling_obj: Any, *args, **kwargs):
+    def __wrapper(*args, **kwargs):
+        calling_obj, args = args[0], args[1:]
         if not (isinstance(calling_obj, IconScoreBase)):
             raise InvalidInstanceException(
                 FORMAT_IS_NOT_DERIVED_OF_OBJECT.format(IconScoreBase.__name__))
@@ -307,7 +310,8 @@ def payable(func):
     set_score_flag_on(func, flag)
 
     @wraps(func)
-    def __wrapper(calling_obj: Any, *args, **kwargs):
+    def __wrapper(*args, **kwargs):
+        calling_obj, args = args[0], args[1:]
         if not (isinstance(calling_obj, IconScoreBase)):
             raise InvalidInstanceException(
                 FORMAT_IS_NOT_DERIVED_OF_OBJECT.format(IconScoreBase.__name__))
@@ -328,7 +332,8 @@ def isolated(func):
     set_score_flag_on(func, ScoreFlag.ISOLATED)
 
     @wraps(func)
-    def __wrapper(calling_obj: Any, *args, **kwargs):
+    def __wrapper(*args, **kwargs):
+        calling_obj, args = args[0], args[1:]
         if not (isinstance(calling_obj, IconScoreBase)):
             raise InvalidInstanceException(
                 FORMAT_IS_NOT_DERIVED_OF_OBJECT.format(IconScoreBase.__name__))
-- 
2.43.0


From bbcd1875f9a78b6062877cda4c57d26e579de8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:04 +0000
Subject: [PATCH 24/26] fix: annotations equal to others were refused if None
 came first in them

---
 pyee/pyexec/iconscore/typing/definition.py | 5 +++--
 pyee/pyexec/utils/__init__.py              | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyee/pyexec/iconscore/typing/definition.py b/pyee/pyexec/iconscore/typing/definition.py
index 93ad8fc..951e550 100644
--- a/pyee/pyexec/iconscore/typing/definition.py
+++ b/pyee/pyexec/iconscore/typing/definition.py
@@ -174,10 +174,11 @@ def _split_type_hint(type_hint: type) -> List[type]:
             type_hints.append(args[0])
         elif origin is Union:
             args = get_args(type_hint)
-            if not (len(args) == 2 and args[1] is type(None)):
+            if not (len(args) == 2 and type(None) in args):
                 raise IllegalFormatException(f"Invalid type: {type_hint}")
 
-            type_hints.append(args[0])
+            # None may come first: the order is not part of the type
+            type_hints.append(args[0] if args[1] is type(None) else args[1])
 
     return ret
 
diff --git a/pyee/pyexec/utils/__init__.py b/pyee/pyexec/utils/__init__.py
index 8666aba..b349fe7 100644
--- a/pyee/pyexec/utils/__init__.py
+++ b/pyee/pyexec/utils/__init__.py
@@ -71,7 +71,7 @@ def get_main_type_from_annotations_type(annotations_type: type) -> type:
     if hasattr(annotations_type, '__args__'):
         annotations = annotations_type.__args__
         for annotation_type in annotations:
-            if annotation_type is not None:
+            if annotation_type not in (None, type(None)):
                 main_type = annotation_type
                 break
     else:
-- 
2.43.0


From bc2d0dc4826339a3ba284a74dbc1c7c964d4d69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:11 +0000
Subject: [PATCH 25/26] fix: values of more than 10 MiB given by contracts to
 others ended the engine

---
 pyee/pyexec/ipc/client.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyee/pyexec/ipc/client.py b/pyee/pyexec/ipc/client.py
index 471e7e8..2840e51 100644
--- a/pyee/pyexec/ipc/client.py
+++ b/pyee/pyexec/ipc/client.py
@@ -36,9 +36,8 @@ class Client:
         sock = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
         sock.connect(address)
         self.conn = sock
-        self.unpacker = msgpack.Unpacker(self,
-                                         max_bin_len=10*1024*1024,
-                                         max_buffer_size=2**31)
+        # the node sends back what contracts send, which is not limited
+        self.unpacker = msgpack.Unpacker(self, max_buffer_size=2**31)
 
     def write(self, b: bytes) -> None:
         self.conn.sendall(b)
-- 
2.43.0


From f65e27997b5e4f70eafd8de2c7ad2644aa1817f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:11 +0000
Subject: [PATCH 26/26] fix: reading package.json depended on the locale

---
 pyee/pyexec/iconscore/icon_score_loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyee/pyexec/iconscore/icon_score_loader.py b/pyee/pyexec/iconscore/icon_score_loader.py
index 46c8510..5ed9b61 100644
--- a/pyee/pyexec/iconscore/icon_score_loader.py
+++ b/pyee/pyexec/iconscore/icon_score_loader.py
@@ -29,7 +29,7 @@ class IconScoreLoader(object):
     @staticmethod
     def _load_package_json(score_path: str) -> dict:
         pkg_json_path = os.path.join(score_path, PACKAGE_JSON_FILE)
-        with open(pkg_json_path, 'r') as f:
+        with open(pkg_json_path, 'r', encoding='utf-8') as f:
             return json.load(f)
 
     @staticmethod
-- 
2.43.0

