From ba74de93a3bd7e2375a90bdab79d30ff29c74327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:12 +0000
Subject: [PATCH 01/54] fix: exit with a non-zero status when a command fails

---
 src/ucis/__main__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ucis/__main__.py b/src/ucis/__main__.py
index a87ca6a..628c5e8 100644
--- a/src/ucis/__main__.py
+++ b/src/ucis/__main__.py
@@ -88,6 +88,7 @@ def main():
     except Exception as e:
         traceback.print_exc()
         print("Error: %s" % "{0}".format(e))
+        sys.exit(1)
 
 if __name__ == "__main__":
     main()
-- 
2.43.0


From 4b1e4dbcf232d705c561adaa954d1c8b447a40e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:14 +0000
Subject: [PATCH 02/54] fix: publish the format registry only once it is fully
 initialised

inst() published the singleton before its formats were registered, so a
concurrent caller (or a caller after an interrupted first call) could see
an empty registry.
---
 src/ucis/rgy/format_rgy.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/ucis/rgy/format_rgy.py b/src/ucis/rgy/format_rgy.py
index 5df669d..792518f 100644
--- a/src/ucis/rgy/format_rgy.py
+++ b/src/ucis/rgy/format_rgy.py
@@ -3,6 +3,7 @@ Created on Jun 22, 2022
 
 @author: mballance
 '''
+import threading
 from typing import Dict
 from .format_if_db import FormatDescDb
 from ucis.rgy.format_if_rpt import FormatDescRpt
@@ -20,6 +21,7 @@ class FormatRgy(object):
 
     _in_inst = False    
     _inst = None
+    _inst_lock = threading.RLock()
     
     def __init__(self):
         if not FormatRgy._in_inst:
@@ -75,10 +77,15 @@ class FormatRgy(object):
     @classmethod
     def inst(cls):
         if cls._inst is None:
-            cls._in_inst = True
-            cls._inst = cls()
-            cls._in_inst = False
-            cls._inst._init_rgy()
+            with cls._inst_lock:
+                if cls._inst is None:
+                    cls._in_inst = True
+                    try:
+                        inst = cls()
+                    finally:
+                        cls._in_inst = False
+                    inst._init_rgy()
+                    cls._inst = inst
         return cls._inst
     
     
\ No newline at end of file
-- 
2.43.0


From d54370a80766797176ab1e9f8b816e10cc825d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:16 +0000
Subject: [PATCH 03/54] fix: give history nodes a default date in UCIS format

The default was an integer timestamp, which the XML writer cannot
format, so a node without test data could not be saved.
---
 src/ucis/mem/mem_history_node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/mem/mem_history_node.py b/src/ucis/mem/mem_history_node.py
index 11fb9f9..f383082 100644
--- a/src/ucis/mem/mem_history_node.py
+++ b/src/ucis/mem/mem_history_node.py
@@ -48,7 +48,7 @@ class MemHistoryNode(HistoryNode):
         self.m_cmd = None
         self.m_args = None
         self.m_compulsory = None
-        self.m_date = int(datetime.timestamp(datetime.now()))
+        self.m_date = datetime.now().strftime("%Y%m%d%H%M%S")
         self.m_user_name = None
         self.m_cost = -1
         self.m_tool_category = "unknown"
-- 
2.43.0


From 9b23584ca59ad6f2ec201631aaee72b67f8c7ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:18 +0000
Subject: [PATCH 04/54] fix: record only passing tests as passing

Every TestStatusT member is truthy, so warnings, errors and fatals were
all saved (and reported via TEST_STATUS) as a passing test.
---
 src/ucis/mem/mem_history_node.py | 2 +-
 src/ucis/xml/xml_writer.py       | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ucis/mem/mem_history_node.py b/src/ucis/mem/mem_history_node.py
index f383082..78ad969 100644
--- a/src/ucis/mem/mem_history_node.py
+++ b/src/ucis/mem/mem_history_node.py
@@ -67,7 +67,7 @@ class MemHistoryNode(HistoryNode):
         coverindex:int, 
         property:IntProperty)-> int:
         if property == IntProperty.TEST_STATUS:
-            return 1 if self.m_test_status else 0
+            return 1 if self.m_test_status == TestStatusT.OK else 0
         else:
             return super().getIntProperty(coverindex, property)
         
diff --git a/src/ucis/xml/xml_writer.py b/src/ucis/xml/xml_writer.py
index 722670a..e8f7450 100644
--- a/src/ucis/xml/xml_writer.py
+++ b/src/ucis/xml/xml_writer.py
@@ -33,6 +33,7 @@ from ucis.history_node_kind import HistoryNodeKind
 from ucis.scope import Scope
 from ucis.scope_type_t import ScopeTypeT
 from ucis.statement_id import StatementId
+from ucis.test_status_t import TestStatusT
 
 from lxml import etree as et
 from lxml.etree import QName, tounicode, SubElement
@@ -108,7 +109,7 @@ class XmlWriter():
             histN.set("logicalName", h.getLogicalName())
             self.setIfNonNull(histN, "physicalName", h.getPhysicalName())
             self.setIfNonNull(histN, "kind", h.getKind())
-            self.setAttrBool(histN, "testStatus", h.getTestStatus())
+            self.setAttrBool(histN, "testStatus", h.getTestStatus() == TestStatusT.OK)
             self.setIfNonNeg(histN, "simtime", h.getSimTime())
             self.setIfNonNull(histN, "timeunit", h.getTimeUnit())
             self.setIfNonNull(histN, "runCwd", h.getRunCwd())
-- 
2.43.0


From f7df16b5dfcd6f0253deb84a142e249d0209cd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:20 +0000
Subject: [PATCH 05/54] fix: restore the history-node kind when reading XML

The kind came back as a string, so historyNodes(kind) never matched a
node read from a file.
---
 src/ucis/xml/xml_reader.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index c51da9a..a7e5e6d 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -33,6 +33,7 @@ from ucis import UCIS_ENABLED_STMT, UCIS_ENABLED_BRANCH, UCIS_ENABLED_COND, \
     UCIS_ENABLED_EXPR, UCIS_ENABLED_FSM, UCIS_ENABLED_TOGGLE, UCIS_INST_ONCE, \
     UCIS_SCOPE_UNDER_DU, UCIS_DU_MODULE, UCIS_OTHER, du_scope, UCIS_INSTANCE,\
     UCIS_CVGBIN, UCIS_IGNOREBIN, UCIS_ILLEGALBIN
+from ucis.history_node_kind import HistoryNodeKind
 from ucis.mem.mem_file_handle import MemFileHandle
 from ucis.mem.mem_scope import MemScope
 from ucis.mem.mem_ucis import MemUCIS
@@ -96,7 +97,7 @@ class XmlReader():
         parent = None
         logicalname = histN.get("logicalName")
         physicalname = self.getAttr(histN, "physicalName", None)
-        kind = self.getAttr(histN, "kind", None)
+        kind = self.getHistoryNodeKind(histN)
         
         ret = self.db.createHistoryNode(parent, logicalname, physicalname, kind)
         ret.setTestStatus(self.getAttrBool(histN, "testStatus"))
@@ -120,6 +121,14 @@ class XmlReader():
         
         return ret
     
+    def getHistoryNodeKind(self, histN):
+        kind = self.getAttr(histN, "kind", None)
+        try:
+            return HistoryNodeKind(int(kind))
+        except (TypeError, ValueError):
+            # Not one of the UCIS kinds: keep whatever the producer wrote
+            return kind
+    
     def readInstanceCoverage(self, instN):
         name = instN.attrib["name"]
         stmt_id = None
-- 
2.43.0


From b6c1dcf4cd7cf3403e190007a6e763fedbeca70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:22 +0000
Subject: [PATCH 06/54] fix: write dates without passing them through the local
 timezone

mktime() shifts a wall-clock time that falls in a DST gap of the host's
timezone, so the date saved was not the date recorded.
---
 src/ucis/xml/xml_writer.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ucis/xml/xml_writer.py b/src/ucis/xml/xml_writer.py
index e8f7450..45beab0 100644
--- a/src/ucis/xml/xml_writer.py
+++ b/src/ucis/xml/xml_writer.py
@@ -20,7 +20,6 @@ Created on Jan 5, 2020
 @author: ballance
 '''
 
-import time
 import datetime
 from datetime import datetime
 from datetime import date
@@ -317,8 +316,7 @@ class XmlWriter():
             e.set(name, "false")
 
     def setAttrDateTime(self, e, name, val):
-        val_i = time.mktime(datetime.strptime(val, "%Y%m%d%H%M%S").timetuple())
-        self.setAttr(e, name, datetime.fromtimestamp(val_i).isoformat())
+        self.setAttr(e, name, datetime.strptime(val, "%Y%m%d%H%M%S").isoformat())
             
     def setIfNonNull(self, n, attr, val):
         if val is not None:
-- 
2.43.0


From d3b89fb48bf8438993f92556e9f9cbe39ee1d52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:49 +0000
Subject: [PATCH 07/54] fix: read and write XML, YAML and reports as UTF-8

Files were opened in the host's locale encoding, so a database written
on one host could fail to save or read back differently on another.
---
 src/ucis/cmd/cmd_report.py         | 2 +-
 src/ucis/xml/__init__.py           | 2 +-
 src/ucis/xml/xml_factory.py        | 8 ++++----
 src/ucis/xml/xml_ucis.py           | 2 +-
 src/ucis/yaml/db_format_if_yaml.py | 2 +-
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/ucis/cmd/cmd_report.py b/src/ucis/cmd/cmd_report.py
index 3bc2051..a671c71 100644
--- a/src/ucis/cmd/cmd_report.py
+++ b/src/ucis/cmd/cmd_report.py
@@ -40,7 +40,7 @@ def report(args):
         fp = sys.stdout
     else:
         if (output_desc.out_flags & FormatRptOutFlags.Stream) != 0:
-            fp = open(args.out, "w")
+            fp = open(args.out, "w", encoding="utf-8")
         elif (output_desc.out_flags & FormatRptOutFlags.Dir) != 0:
             if os.path.exists(args.out):
                 if os.path.isdir(args.out):
diff --git a/src/ucis/xml/__init__.py b/src/ucis/xml/__init__.py
index a5d41a2..15b7456 100644
--- a/src/ucis/xml/__init__.py
+++ b/src/ucis/xml/__init__.py
@@ -39,7 +39,7 @@ def validate_ucis_xml(file_or_filename):
     
     if type(file_or_filename) == str:
         logging.debug("open file")
-        fp = open(file_or_filename, "r")
+        fp = open(file_or_filename, "rb")
     else:
         fp = file_or_filename
         
diff --git a/src/ucis/xml/xml_factory.py b/src/ucis/xml/xml_factory.py
index 5f9f0d5..8394d09 100644
--- a/src/ucis/xml/xml_factory.py
+++ b/src/ucis/xml/xml_factory.py
@@ -38,16 +38,16 @@ class XmlFactory():
             except ImportError:
                 logging.fatal("Cannot read gzip compressed files since module gzip is not available")
             else:
-                return gzip.open(file_path, 'rt')
+                return gzip.open(file_path, 'rb')
         elif magic0 == b'\x04\x22' and magic1 == b'\x4d\x18':
             try:
                 import lz4.frame
             except ImportError:
                 logging.fatal("Cannot read LZ4 compressed files since module lz4.frame is not available")
             else:
-                return lz4.frame.open(file_path, 'rt')
+                return lz4.frame.open(file_path, 'rb')
         else:
-            return open(file_path, "r")
+            return open(file_path, "rb")
 
     @staticmethod
     def read(file_or_filename) -> UCIS:
@@ -84,7 +84,7 @@ class XmlFactory():
         writer = XmlWriter()
         
         if type(file_or_filename) == str:
-            fp = open(file_or_filename, "w")
+            fp = open(file_or_filename, "w", encoding="utf-8")
         else:
             fp = file_or_filename
         
diff --git a/src/ucis/xml/xml_ucis.py b/src/ucis/xml/xml_ucis.py
index 46eb10e..4bba212 100644
--- a/src/ucis/xml/xml_ucis.py
+++ b/src/ucis/xml/xml_ucis.py
@@ -8,5 +8,5 @@ class XmlUCIS(MemUCIS):
 
         writer = XmlWriter()
 
-        with open(file, "w") as fp:
+        with open(file, "w", encoding="utf-8") as fp:
             writer.write(fp, self)
diff --git a/src/ucis/yaml/db_format_if_yaml.py b/src/ucis/yaml/db_format_if_yaml.py
index 1a3213d..11c08a8 100644
--- a/src/ucis/yaml/db_format_if_yaml.py
+++ b/src/ucis/yaml/db_format_if_yaml.py
@@ -18,7 +18,7 @@ class DbFormatIfYaml(FormatIfDb):
     def read(self, filename) -> 'UCIS':
         reader = YamlReader()
 
-        with open(filename, "r") as fp:
+        with open(filename, "r", encoding="utf-8") as fp:
             db = reader.load(fp)
 
         return db
-- 
2.43.0


From 2626b0bc65b74f3f2040a11d85dde6d019bf496e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:51 +0000
Subject: [PATCH 08/54] fix: do not require a resolvable user name

getpass.getuser() raises when neither the environment nor the password
database names the user (e.g. containers run with an arbitrary uid),
which made it impossible to create, read or write a database.
---
 src/ucis/mem/mem_ucis.py   | 4 ++--
 src/ucis/user_name.py      | 9 +++++++++
 src/ucis/xml/xml_writer.py | 5 ++---
 3 files changed, 13 insertions(+), 5 deletions(-)
 create mode 100644 src/ucis/user_name.py

diff --git a/src/ucis/mem/mem_ucis.py b/src/ucis/mem/mem_ucis.py
index 6984e41..6f21762 100644
--- a/src/ucis/mem/mem_ucis.py
+++ b/src/ucis/mem/mem_ucis.py
@@ -24,7 +24,6 @@ Created on Jan 5, 2020
 '''
 
 from datetime import datetime
-import getpass
 from ucis.flags_t import FlagsT
 from ..history_node import HistoryNode
 from ..history_node_kind import HistoryNodeKind
@@ -42,6 +41,7 @@ from ucis.source_t import SourceT
 from ucis.statement_id import StatementId
 from ucis.ucis import UCIS
 from ucis.unimpl_error import UnimplError
+from ucis.user_name import get_user_name
 
 
 class MemUCIS(MemScope,UCIS):
@@ -58,7 +58,7 @@ class MemUCIS(MemScope,UCIS):
             0)
         UCIS.__init__(self)
         self.ucis_version = "1.0"
-        self.writtenBy = getpass.getuser()
+        self.writtenBy = get_user_name()
         self.writtenTime = int(datetime.timestamp(datetime.now()))
         self.file_handle_m : Dict[str,MemFileHandle] = {}
         self.m_history_node_l = []
diff --git a/src/ucis/user_name.py b/src/ucis/user_name.py
new file mode 100644
index 0000000..e6eae42
--- /dev/null
+++ b/src/ucis/user_name.py
@@ -0,0 +1,9 @@
+import getpass
+
+
+def get_user_name()->str:
+    """Name of the current user, or 'unknown' when it cannot be determined"""
+    try:
+        return getpass.getuser()
+    except (KeyError, ImportError, OSError):
+        return "unknown"
diff --git a/src/ucis/xml/xml_writer.py b/src/ucis/xml/xml_writer.py
index 45beab0..710a092 100644
--- a/src/ucis/xml/xml_writer.py
+++ b/src/ucis/xml/xml_writer.py
@@ -33,12 +33,11 @@ from ucis.scope import Scope
 from ucis.scope_type_t import ScopeTypeT
 from ucis.statement_id import StatementId
 from ucis.test_status_t import TestStatusT
+from ucis.user_name import get_user_name
 
 from lxml import etree as et
 from lxml.etree import QName, tounicode, SubElement
 
-import getpass
-
 
 class XmlWriter():
     
@@ -63,7 +62,7 @@ class XmlWriter():
             "ucis" : XmlWriter.UCIS
             })
         # TODO: these aren't really UCIS properties
-        self.setAttr(self.root, "writtenBy", getpass.getuser())
+        self.setAttr(self.root, "writtenBy", get_user_name())
         self.setAttrDateTime(self.root, "writtenTime", date.today().strftime("%Y%m%d%H%M%S"))
         
 #        self.setAttr(self.root, "writtenBy", db.getWrittenBy())
-- 
2.43.0


From a9bde58a245de785b926eb12c74f25fa5719002c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:53 +0000
Subject: [PATCH 09/54] fix: serialise the database before opening the output
 file

The output was truncated first, so a failure to serialise destroyed the
previous database. Also close the file when the write fails.
---
 src/ucis/xml/xml_factory.py | 13 ++++++-------
 src/ucis/xml/xml_ucis.py    |  6 +++++-
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/ucis/xml/xml_factory.py b/src/ucis/xml/xml_factory.py
index 8394d09..d71b05c 100644
--- a/src/ucis/xml/xml_factory.py
+++ b/src/ucis/xml/xml_factory.py
@@ -24,6 +24,7 @@ from ucis import UCIS
 from ucis.xml.xml_writer import XmlWriter
 from ucis.xml import validate_ucis_xml
 from ucis.xml.xml_reader import XmlReader
+from io import StringIO
 import logging
 class XmlFactory():
     
@@ -84,12 +85,10 @@ class XmlFactory():
         writer = XmlWriter()
         
         if type(file_or_filename) == str:
-            fp = open(file_or_filename, "w", encoding="utf-8")
+            buf = StringIO()
+            writer.write(buf, db)
+            with open(file_or_filename, "w", encoding="utf-8") as fp:
+                fp.write(buf.getvalue())
         else:
-            fp = file_or_filename
-        
-        writer.write(fp, db)
-        
-        if type(file_or_filename) == str:
-            fp.close()
+            writer.write(file_or_filename, db)
             
diff --git a/src/ucis/xml/xml_ucis.py b/src/ucis/xml/xml_ucis.py
index 4bba212..0b1a712 100644
--- a/src/ucis/xml/xml_ucis.py
+++ b/src/ucis/xml/xml_ucis.py
@@ -1,4 +1,6 @@
 
+from io import StringIO
+
 from ucis.mem import MemUCIS
 from .xml_writer import XmlWriter
 
@@ -8,5 +10,7 @@ class XmlUCIS(MemUCIS):
 
         writer = XmlWriter()
 
+        buf = StringIO()
+        writer.write(buf, self)
         with open(file, "w", encoding="utf-8") as fp:
-            writer.write(fp, self)
+            fp.write(buf.getvalue())
-- 
2.43.0


From f93ca94547dd6bdb69ed13bdddfe1d3e8aa4ef6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:55 +0000
Subject: [PATCH 10/54] fix: close the input file when rewinding it fails

---
 src/ucis/xml/xml_factory.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/ucis/xml/xml_factory.py b/src/ucis/xml/xml_factory.py
index d71b05c..972eeca 100644
--- a/src/ucis/xml/xml_factory.py
+++ b/src/ucis/xml/xml_factory.py
@@ -60,18 +60,13 @@ class XmlFactory():
         else:
             fp = file_or_filename
 
-        try:            
+        try:
             validate_ucis_xml(fp)
-        except Exception as e:
-            if type(file_or_filename) == str:
-                fp.close()
-            raise e
 
-        fp.seek(0)
+            fp.seek(0)
         
-        reader = XmlReader()
+            reader = XmlReader()
         
-        try:
             ret = reader.read(fp)
         finally:
             if type(file_or_filename) == str:
-- 
2.43.0


From a48535bc3ff5c67c56f1e05009b66468b43c0a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:57 +0000
Subject: [PATCH 11/54] fix: generate the report before opening the output file

A failure while producing the report used to leave a truncated file in
place of the previous report, and leaked the open file.
---
 src/ucis/cmd/cmd_report.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ucis/cmd/cmd_report.py b/src/ucis/cmd/cmd_report.py
index a671c71..0a17174 100644
--- a/src/ucis/cmd/cmd_report.py
+++ b/src/ucis/cmd/cmd_report.py
@@ -6,6 +6,7 @@ Created on Jun 22, 2022
 import os
 import shutil
 import sys
+from io import StringIO
 from ucis.rgy.format_if_db import FormatIfDb
 from ucis.rgy.format_if_rpt import FormatIfRpt, FormatRptOutFlags
 from ucis.rgy.format_rgy import FormatRgy
@@ -40,7 +41,7 @@ def report(args):
         fp = sys.stdout
     else:
         if (output_desc.out_flags & FormatRptOutFlags.Stream) != 0:
-            fp = open(args.out, "w", encoding="utf-8")
+            fp = StringIO()
         elif (output_desc.out_flags & FormatRptOutFlags.Dir) != 0:
             if os.path.exists(args.out):
                 if os.path.isdir(args.out):
@@ -62,7 +63,8 @@ def report(args):
 
     output_if.report(in_db, fp, [])
 
-    if args.out is not None:
-        fp.close()
+    if args.out is not None and isinstance(fp, StringIO):
+        with open(args.out, "w", encoding="utf-8") as out:
+            out.write(fp.getvalue())
 
     in_db.close()
-- 
2.43.0


From 4d2b64eff8d5786a3c4b8b318d8529f05974ac71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:21 +0000
Subject: [PATCH 12/54] fix: compute total report coverage over all covergroups

The total only covered the last instance scope, and a scope with no
covergroups (or only zero-weight ones) raised ZeroDivisionError.
---
 src/ucis/report/coverage_report_builder.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/ucis/report/coverage_report_builder.py b/src/ucis/report/coverage_report_builder.py
index 0a01b93..fb99c6e 100644
--- a/src/ucis/report/coverage_report_builder.py
+++ b/src/ucis/report/coverage_report_builder.py
@@ -35,22 +35,25 @@ class CoverageReportBuilder(object):
         for iscope in self.db.scopes(ScopeTypeT.INSTANCE):
             self.build_covergroups(iscope)
             
+        coverage = 0.0
+        div = 0
+        
+        for cg in self.report.covergroups:
+            if cg.weight > 0:
+                coverage += cg.coverage * cg.weight
+            div += cg.weight
+            
+        if div > 0: self.report.coverage = coverage/div
+            
         return self.report
             
 
     def build_covergroups(self, iscope):
         
-        coverage = 0.0
-        div = 0
-        
         for cg_t in iscope.scopes(ScopeTypeT.COVERGROUP):
             cg = self.build_covergroup(cg_t)
-            if cg.weight > 0:
-                coverage += cg.coverage * cg.weight
-            div += cg.weight
             self.report.covergroups.append(cg)
             self.report.covergroup_m[cg.instname] = cg
-        self.report.coverage = coverage/div
             
     def build_covergroup(self, cg_n)->CoverageReport.Covergroup:
         cg_r = CoverageReport.Covergroup(
-- 
2.43.0


From b4c4d9108ba0528f278ddcd6bfc5834ba50f341b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:23 +0000
Subject: [PATCH 13/54] fix: honour the weight and at_least of crosses in
 reports

A cross always counted with weight 1, and its bins were reported against
a fixed goal rather than the at_least used to compute its coverage.
---
 src/ucis/report/coverage_report_builder.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ucis/report/coverage_report_builder.py b/src/ucis/report/coverage_report_builder.py
index fb99c6e..f025ca7 100644
--- a/src/ucis/report/coverage_report_builder.py
+++ b/src/ucis/report/coverage_report_builder.py
@@ -81,7 +81,8 @@ class CoverageReportBuilder(object):
             div += cp.weight
             
         for cr in cg_r.crosses:
-            coverage += cr.coverage * cr.weight
+            if cr.weight > 0:
+                coverage += cr.coverage * cr.weight
             div += cr.weight
             
         if div > 0: coverage /= div
@@ -136,6 +137,7 @@ class CoverageReportBuilder(object):
 
     def build_cross(self, cr_n : Cross):
         cr_r = CoverageReport.Cross(cr_n.getScopeName())
+        cr_r.weight = cr_n.getWeight()
         
         # Read in bins
         num_hit = 0
@@ -148,7 +150,7 @@ class CoverageReportBuilder(object):
                 
             cr_r.bins.append(CoverageReport.CoverBin(
                     ci_n.getName(),
-                    cvg_data.goal,
+                    cvg_data.at_least,
                     cvg_data.data))
 
             total += 1
-- 
2.43.0


From 8b9db316e20a83d5bc9866e2d228a9cce4da6814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:25 +0000
Subject: [PATCH 14/54] fix: populate the name-to-object maps of the coverage
 report

coverpoint_m, cross_m and covergroup_m of a covergroup are documented as
maps to the reported objects, but were always empty.
---
 src/ucis/report/coverage_report_builder.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ucis/report/coverage_report_builder.py b/src/ucis/report/coverage_report_builder.py
index f025ca7..a3fad58 100644
--- a/src/ucis/report/coverage_report_builder.py
+++ b/src/ucis/report/coverage_report_builder.py
@@ -63,13 +63,17 @@ class CoverageReportBuilder(object):
         cg_r.weight = cg_n.getWeight()
         
         for cp_in in cg_n.scopes(ScopeTypeT.COVERPOINT):
-            cg_r.coverpoints.append(self.build_coverpoint(cp_in))
+            cg_r.add_coverpoint(self.build_coverpoint(cp_in))
             
         for cr_in in cg_n.scopes(ScopeTypeT.CROSS):
-            cg_r.crosses.append(self.build_cross(cr_in))
+            cr = self.build_cross(cr_in)
+            cg_r.crosses.append(cr)
+            cg_r.cross_m[cr.name] = cr
 
         for cg_in in cg_n.scopes(ScopeTypeT.COVERINSTANCE):
-            cg_r.covergroups.append(self.build_covergroup(cg_in))
+            cg = self.build_covergroup(cg_in)
+            cg_r.covergroups.append(cg)
+            cg_r.covergroup_m[cg.instname] = cg
             
         # Determine the covergroup coverage
         coverage = 0.0
-- 
2.43.0


From 001d2f7b607745d7c72e9c2db4e186c74bdbc8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:43 +0000
Subject: [PATCH 15/54] fix: make the JSON report cover crosses and name every
 item

Reporting a database with a cross raised, and coverpoint names and bin
goals (both part of the report schema) were never emitted.
---
 src/ucis/report/format_rpt_json.py | 9 ++++++---
 src/ucis/schema/covreport.json     | 5 +++++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/ucis/report/format_rpt_json.py b/src/ucis/report/format_rpt_json.py
index c16acbf..9db9511 100644
--- a/src/ucis/report/format_rpt_json.py
+++ b/src/ucis/report/format_rpt_json.py
@@ -100,6 +100,7 @@ class FormatRptJson(FormatIfRpt):
     def report_coverpoint(self, cp : CoverageReport.Coverpoint):
         
         cp_j = self._ns.Coverpoint()
+        cp_j.name = cp.name
         cp_j.coverage = cp.coverage
         
         if self.details:
@@ -108,6 +109,7 @@ class FormatRptJson(FormatIfRpt):
                 for b in cp.bins:
                     b_j = self._ns.CoverBin()
                     b_j.name = b.name
+                    b_j.goal = b.goal
                     b_j.count = b.count
                     cp_j.bins.append(b_j)
             if cp.ignore_bins is not None and len(cp.ignore_bins) > 0:
@@ -115,6 +117,7 @@ class FormatRptJson(FormatIfRpt):
                 for b in cp.ignore_bins:
                     b_j = self._ns.CoverBin()
                     b_j.name = b.name
+                    b_j.goal = b.goal
                     b_j.count = b.count
                     cp_j.ignorebins.append(b_j)
             if cp.illegal_bins is not None and len(cp.illegal_bins) > 0:
@@ -122,6 +125,7 @@ class FormatRptJson(FormatIfRpt):
                 for b in cp.illegal_bins:
                     b_j = self._ns.CoverBin()
                     b_j.name = b.name
+                    b_j.goal = b.goal
                     b_j.count = b.count
                     cp_j.illegalbins.append(b_j)
 
@@ -131,9 +135,7 @@ class FormatRptJson(FormatIfRpt):
         
         cr_j = self._ns.Cross()
         cr_j.name = cr.name
-        cr_j.weight = cr.weight
-        
-        self.writeln("CROSS %s : %f%%", cr.name, round(cr.coverage))
+        cr_j.coverage = cr.coverage
         
         if self.details:
             if cr.bins is not None:
@@ -141,6 +143,7 @@ class FormatRptJson(FormatIfRpt):
                 for b in cr.bins:
                     b_j = self._ns.CoverBin()
                     b_j.name = b.name
+                    b_j.goal = b.goal
                     b_j.count = b.count
                     cr_j.bins.append(b_j)
 
diff --git a/src/ucis/schema/covreport.json b/src/ucis/schema/covreport.json
index 756c4e1..58e0e1a 100644
--- a/src/ucis/schema/covreport.json
+++ b/src/ucis/schema/covreport.json
@@ -42,6 +42,11 @@
 					"type": "array",
 					"items": { "$ref": "#/defs/coverpointType" }
 				},
+				"crosses": {
+					"description": "List of cross coverpoints",
+					"type": "array",
+					"items": { "$ref": "#/defs/crossType" }
+				},
 				"covergroups": {
 					"description": "List of instance covergroups",
 					"type": "array",
-- 
2.43.0


From 147b08e304c1c92a737e0b0af366a1fbfce94f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:20 +0000
Subject: [PATCH 16/54] fix: keep ignore and illegal bins apart in YAML type
 coverage

Their type-level sums were added to the ordinary bins, once per
instance, so they counted towards coverage.
---
 src/ucis/yaml/yaml_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ucis/yaml/yaml_reader.py b/src/ucis/yaml/yaml_reader.py
index aba3b0f..acc3fdd 100644
--- a/src/ucis/yaml/yaml_reader.py
+++ b/src/ucis/yaml/yaml_reader.py
@@ -163,7 +163,7 @@ class YamlReader(object):
                                     t_b = self.cvg_ns.CoverageBin()
                                     t_b.name = str(b.name)
                                     t_b.count = 0
-                                    cp_t.bins.append(t_b)
+                                    cp_t.ignorebins.append(t_b)
                                 t_b.count += b.count
                                 
                         if cp.illegalbins is not None:
@@ -180,7 +180,7 @@ class YamlReader(object):
                                     t_b = self.cvg_ns.CoverageBin()
                                     t_b.name = str(b.name)
                                     t_b.count = 0
-                                    cp_t.bins.append(t_b)
+                                    cp_t.illegalbins.append(t_b)
                                 t_b.count += b.count
                         
                 if cg_i.crosses is not None:
-- 
2.43.0


From 0de4a6fc4b3a2ad3c2cee9dd4d997930e9bfb3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:22 +0000
Subject: [PATCH 17/54] fix: apply atleast to YAML type coverage and record
 plain counts

The type-level coverpoints and crosses ignored 'atleast', so they were
reported as covered when no instance was. Counts were recorded as
schema wrapper objects instead of integers.
---
 src/ucis/yaml/yaml_reader.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/ucis/yaml/yaml_reader.py b/src/ucis/yaml/yaml_reader.py
index acc3fdd..5c84906 100644
--- a/src/ucis/yaml/yaml_reader.py
+++ b/src/ucis/yaml/yaml_reader.py
@@ -126,6 +126,8 @@ class YamlReader(object):
                         if str(cp.name) not in cp_t_m.keys():
                             cp_t = self.cvg_ns.Coverpoint()
                             cp_t.name = str(cp.name)
+                            if cp.atleast is not None:
+                                cp_t.atleast = int(cp.atleast)
                             cp_t_m[cp_t.name] = cp_t
                             cp_t_l.append(cp_t)
                         else:
@@ -191,6 +193,8 @@ class YamlReader(object):
                         if str(cr.name) not in cr_t_m.keys():
                             cr_t = self.cvg_ns.Cross()
                             cr_t.name = str(cr.name)
+                            if cr.atleast is not None:
+                                cr_t.atleast = int(cr.atleast)
                             cr_t.coverpoints = []
                             for cr_cp in cr.coverpoints:
                                 cr_t.coverpoints.append(cr_cp)
@@ -280,7 +284,7 @@ class YamlReader(object):
             
         at_least = 1
         if cp.atleast is not None:
-            at_least = cp.atleast
+            at_least = int(cp.atleast)
             
         cp_scope = cp_parent_s.createCoverpoint(
             str(cp.name),
@@ -294,7 +298,7 @@ class YamlReader(object):
                     str(b.name),
                     cp_location,
                     at_least,
-                    b.count,
+                    int(b.count),
                     str(b.name),
                     CoverTypeT.CVGBIN)
                 
@@ -304,7 +308,7 @@ class YamlReader(object):
                     str(b.name),
                     cp_location,
                     at_least,
-                    b.count,
+                    int(b.count),
                     str(b.name),
                     CoverTypeT.IGNOREBIN)
                 
@@ -314,7 +318,7 @@ class YamlReader(object):
                     str(b.name),
                     cp_location,
                     at_least,
-                    b.count,
+                    int(b.count),
                     str(b.name),
                     CoverTypeT.ILLEGALBIN)
                 
@@ -329,7 +333,7 @@ class YamlReader(object):
             
         at_least = 1
         if cr.atleast is not None:
-            at_least = cr.atleast
+            at_least = int(cr.atleast)
             
         cr_scope = cp_parent_s.createCross(
             str(cr.name),
@@ -344,7 +348,7 @@ class YamlReader(object):
                     str(b.name),
                     cr_location,
                     at_least,
-                    b.count,
+                    int(b.count),
                     str(b.name))
                     
         return cr_scope
-- 
2.43.0


From 852a8920c5bb264e49c6571d37a8bf4aa5be0e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:23 +0000
Subject: [PATCH 18/54] fix: accept schema-valid YAML without instances, cross
 bins or data

A covergroup without instances, a cross whose first instance has no
bins, and a document without a coverage section all raised.
---
 src/ucis/yaml/yaml_reader.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/ucis/yaml/yaml_reader.py b/src/ucis/yaml/yaml_reader.py
index 5c84906..1799169 100644
--- a/src/ucis/yaml/yaml_reader.py
+++ b/src/ucis/yaml/yaml_reader.py
@@ -98,7 +98,7 @@ class YamlReader(object):
 
         coverage = coverage.coverage
         
-        if coverage.covergroups is not None:
+        if coverage is not None and coverage.covergroups is not None:
             for cg_t in coverage.covergroups:
                 self.process_covergroup(cg_t)
                 
@@ -201,15 +201,14 @@ class YamlReader(object):
                             cr_t_bins_m = {}
                             cr_t_m[str(cr.name)] = (cr_t, cr_t_bins_m)
                             cr_t_l.append(cr_t)
-                            
-                            if cr.bins is not None:
-                                cr_t.bins = []
                         else:
                             cr_t = cr_t_m[str(cr.name)][0]
                             cr_t_bins_m = cr_t_m[str(cr.name)][1]
                             
                         # Now, proceed to aggregate bins
                         if cr.bins is not None:
+                            if cr_t.bins is None:
+                                cr_t.bins = []
                             for b in cr.bins:
                                 if b.name in cr_t_bins_m.keys():
                                     cr_t_bins_m[str(b.name)].count += b.count
@@ -250,7 +249,7 @@ class YamlReader(object):
 
         # Now, write out instances
         cp_n_scope_m = {}
-        for i in cg_t.instances:
+        for i in cg_t.instances if cg_t.instances is not None else []:
             cg_i_scope = cg_t_scope.createCoverInstance(
                 str(i.name),
                 cg_location,
-- 
2.43.0


From 2324558d53aa36fd5a0b9ef333127da22e2592f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:19 +0000
Subject: [PATCH 19/54] fix: do not mix the missing-instances warning into
 command output

---
 src/ucis/yaml/yaml_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ucis/yaml/yaml_reader.py b/src/ucis/yaml/yaml_reader.py
index 1799169..0b4fbc3 100644
--- a/src/ucis/yaml/yaml_reader.py
+++ b/src/ucis/yaml/yaml_reader.py
@@ -15,6 +15,7 @@ from ucis.source_t import SourceT
 from ucis.ucis import UCIS
 
 import os
+import sys
 import json
 import python_jsonschema_objects as pjs
 import yaml
@@ -220,7 +221,7 @@ class YamlReader(object):
                                     cr_t_bins_m[str(b.name)] = b_t
                 
         else:
-            print("Warning: Covergroup type %s has no instances" % str(cg_t.name))
+            print("Warning: Covergroup type %s has no instances" % str(cg_t.name), file=sys.stderr)
 
         # Now, convert to UCIS
         cg_t_scope = self.cg_default_inst.createCovergroup(
-- 
2.43.0


From d699072df7234077218aa3e467d40698628f20d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:21 +0000
Subject: [PATCH 20/54] fix: give CoverData a default at_least

Cover items created with createNextCover() had none, so merging or
reporting a database containing them raised AttributeError.
---
 src/ucis/cover_data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ucis/cover_data.py b/src/ucis/cover_data.py
index 62314ac..2a7f4a4 100644
--- a/src/ucis/cover_data.py
+++ b/src/ucis/cover_data.py
@@ -14,6 +14,7 @@ class CoverData():
         self.flags = flags
         # TODO: determine default data based on flags
         self.data = 0
+        self.at_least = 1
         self.goal = 0 # if UCIS_HAS_GOAL
         self.weight = 0 # if UCIS_HAS_WEIGHT
         self.limit = 0 # if UCIS_HAS_LIMIT
-- 
2.43.0


From 6b58a7a90fedef8a52111bccbcabf4e9be23caee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:23 +0000
Subject: [PATCH 21/54] fix: key XML type-level bins by kind as well as name

An ignore or illegal bin sharing its name with an ordinary bin was
folded into it when the type coverage was reconstructed.
---
 src/ucis/xml/xml_reader.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index a7e5e6d..8793cb0 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -229,7 +229,7 @@ class XmlReader():
                         UCIS_OTHER)
 
                     # Tuple of coverpoint type and map between
-                    # bin name and count
+                    # bin name/kind and count
                     cp_i = (cp_t, {})
                     cp_m[cp_name] = cp_i
                 else:
@@ -325,11 +325,8 @@ class XmlReader():
         cp_bin_name = self.getAttr(cpBin, "name", "<unknown>")
         cp_bin_count = self.getAttrInt(contents, "coverageCount")
 
-        if cp_bin_name not in cp_type_i[1].keys():
-            cp_type_i[1][cp_bin_name] = (kind, cp_bin_count)
-        else:
-            entry = cp_type_i[1][cp_bin_name]
-            cp_type_i[1][cp_bin_name] = (entry[0], entry[1] + cp_bin_count)
+        bin_key = (cp_bin_name, kind)
+        cp_type_i[1][bin_key] = cp_type_i[1].get(bin_key, 0) + cp_bin_count
         
         cp.createBin(
             cp_bin_name,
@@ -342,7 +339,7 @@ class XmlReader():
     def populateCoverpointType(self, cp_t, cp_bin_m):
         srcinfo = None
 
-        for bin_name,(kind,count) in cp_bin_m.items():
+        for (bin_name,kind),count in cp_bin_m.items():
             cp_t.createBin(
                 bin_name,
                 srcinfo,
-- 
2.43.0


From 9973941e2dff659afc6e38010376a16d2535d42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:25 +0000
Subject: [PATCH 22/54] fix: preserve ignore and illegal cross bins in XML

Every cross bin was written, and read back, as an ordinary bin.
---
 src/ucis/xml/xml_reader.py | 21 ++++++++++++++-------
 src/ucis/xml/xml_writer.py |  7 ++++++-
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index 8793cb0..b41a133 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -377,14 +377,14 @@ class XmlReader():
     def populateCrossType(self, cr_t, cr_bin_m):
         srcinfo = None
 
-        for bin_name,count in cr_bin_m.items():
-            cr_t.createBin
+        for (bin_name,kind),count in cr_bin_m.items():
             cr_t.createBin(
                 bin_name,
                 srcinfo,
                 1, # weight
                 count,
-                "") # TODO:
+                "", # TODO:
+                kind)
         pass
     
     def readCrossBin(self, crb_e, cr, cr_type_i):
@@ -394,17 +394,24 @@ class XmlReader():
 
         count = self.getAttrInt(contentsN, "coverageCount")
 
-        if name in cr_type_i[1].keys():
-            cr_type_i[1][name] += count
+        kind_a = self.getAttr(crb_e, "type", "default")
+        if kind_a == "ignore":
+            kind = UCIS_IGNOREBIN
+        elif kind_a == "illegal":
+            kind = UCIS_ILLEGALBIN
         else:
-            cr_type_i[1][name] = count
+            kind = UCIS_CVGBIN
+
+        bin_key = (name, kind)
+        cr_type_i[1][bin_key] = cr_type_i[1].get(bin_key, 0) + count
 
         cr.createBin(
             name,
             srcinfo,
             1, # weight
             count,
-            "") # TODO:
+            "", # TODO:
+            kind)
 
         
 
diff --git a/src/ucis/xml/xml_writer.py b/src/ucis/xml/xml_writer.py
index 710a092..3b131de 100644
--- a/src/ucis/xml/xml_writer.py
+++ b/src/ucis/xml/xml_writer.py
@@ -278,7 +278,12 @@ class XmlWriter():
             crBinElem = self.mkElem(crossElem, "crossBin")
             self.setAttr(crBinElem, "name", cr_bin.getName())
             self.setAttr(crBinElem, "key", "0")
-            self.setAttr(crBinElem, "type", "default") # TOOD: illegal, ignore
+            if cov_data.type == CoverTypeT.IGNOREBIN:
+                self.setAttr(crBinElem, "type", "ignore")
+            elif cov_data.type == CoverTypeT.ILLEGALBIN:
+                self.setAttr(crBinElem, "type", "illegal")
+            else:
+                self.setAttr(crBinElem, "type", "default")
             
             index = self.mkElem(crBinElem, "index")
             index.text = "-1" # Note: this is a meaningless value
-- 
2.43.0


From 63f071028c508e4269e5491e2f4b0c51745f35f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:27 +0000
Subject: [PATCH 23/54] fix: preserve weight and at_least in XML

The documentation lists both as recorded and interpreted, but the
writer never emitted them and the reader always assumed 1, so the
coverage of a saved database differed from that of the original.
---
 src/ucis/xml/xml_reader.py | 55 +++++++++++++++++++++-----------------
 src/ucis/xml/xml_writer.py | 17 ++++++++++--
 2 files changed, 46 insertions(+), 26 deletions(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index b41a133..237640c 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -190,7 +190,7 @@ class XmlReader():
             cg_typescope = inst_scope.createCovergroup(
                 cg_typename,
                 None,
-                1,
+                int(self.getAttr(cg, "weight", "1")),
                 UCIS_OTHER)
 
             # Process all instances of a given covergroup type
@@ -210,7 +210,7 @@ class XmlReader():
             cg_i = cg_t.createCoverInstance(
                 cg_i_name, 
                 srcinfo,
-                1,
+                self.getOption(cg_e, "weight"),
                 UCIS_OTHER)
 
             # Build up a map of coverpoint name/inst-handle refs
@@ -225,12 +225,12 @@ class XmlReader():
                     cp_t = cg_t.createCoverpoint(
                         cp_name,
                         srcinfo,
-                        1,
+                        self.getOption(cp_e, "weight"),
                         UCIS_OTHER)
 
-                    # Tuple of coverpoint type and map between
-                    # bin name/kind and count
-                    cp_i = (cp_t, {})
+                    # Tuple of coverpoint type, map between bin
+                    # name/kind and count, and at_least
+                    cp_i = (cp_t, {}, self.getOption(cp_e, "at_least"))
                     cp_m[cp_name] = cp_i
                 else:
                     # Already-known coverpoint. Only create
@@ -258,11 +258,11 @@ class XmlReader():
                     cr_t = cg_t.createCross(
                         cp_name,
                         srcinfo,
-                        1,
+                        self.getOption(cr_e, "weight"),
                         UCIS_OTHER,
                         cp_l)
 
-                    cr_i = (cr_t, {})
+                    cr_i = (cr_t, {}, self.getOption(cr_e, "at_least"))
                     cr_m[cp_name] = cr_i
                 else:
                     # Already-known crosspoint. Only create
@@ -273,13 +273,11 @@ class XmlReader():
 
         # Now, create the type info
         for cp_name in cp_m.keys():
-            self.populateCoverpointType(cp_m[cp_name][0], cp_m[cp_name][1])
+            self.populateCoverpointType(*cp_m[cp_name])
 
         # Now, create the cross type info
         for cr_name in cr_m.keys():
-            self.populateCrossType(
-                cr_m[cr_name][0],
-                cr_m[cr_name][1])
+            self.populateCrossType(*cr_m[cr_name])
 
         pass
                 
@@ -289,15 +287,17 @@ class XmlReader():
         cp = cg_i.createCoverpoint(
             self.getAttr(cp_e, "name", "<unknown>"),
             srcinfo,
-            1, # weight
+            self.getOption(cp_e, "weight"),
             UCIS_OTHER)
         
+        at_least = self.getOption(cp_e, "at_least")
+        
         for cpBin in cp_e.iter("coverpointBin"):
-            self.readCoverpointBin(cpBin, cp, cp_type_i)
+            self.readCoverpointBin(cpBin, cp, cp_type_i, at_least)
             
         return cp
             
-    def readCoverpointBin(self, cpBin : Element, cp, cp_type_i):
+    def readCoverpointBin(self, cpBin : Element, cp, cp_type_i, at_least):
         srcinfo = None
 
         seq = next(cpBin.iter("sequence"),None)
@@ -331,19 +331,19 @@ class XmlReader():
         cp.createBin(
             cp_bin_name,
             srcinfo,
-            1,
+            at_least,
             cp_bin_count,
             self.getAttr(cpBin, "name", "default"),
             kind)
         
-    def populateCoverpointType(self, cp_t, cp_bin_m):
+    def populateCoverpointType(self, cp_t, cp_bin_m, at_least):
         srcinfo = None
 
         for (bin_name,kind),count in cp_bin_m.items():
             cp_t.createBin(
                 bin_name,
                 srcinfo,
-                1,
+                at_least,
                 count,
                 bin_name,
                 kind)
@@ -365,29 +365,31 @@ class XmlReader():
         cr = cg_i.createCross(
             name,
             srcinfo,
-            1, # weight
+            self.getOption(cr_e, "weight"),
             UCIS_OTHER,
             cp_l)
         
+        at_least = self.getOption(cr_e, "at_least")
+        
         for crb_e in cr_e.iter("crossBin"):
-            self.readCrossBin(crb_e, cr, cr_type_i)
+            self.readCrossBin(crb_e, cr, cr_type_i, at_least)
         
         return cr
 
-    def populateCrossType(self, cr_t, cr_bin_m):
+    def populateCrossType(self, cr_t, cr_bin_m, at_least):
         srcinfo = None
 
         for (bin_name,kind),count in cr_bin_m.items():
             cr_t.createBin(
                 bin_name,
                 srcinfo,
-                1, # weight
+                at_least,
                 count,
                 "", # TODO:
                 kind)
         pass
     
-    def readCrossBin(self, crb_e, cr, cr_type_i):
+    def readCrossBin(self, crb_e, cr, cr_type_i, at_least):
         name = self.getAttr(crb_e, "name", "default")
         srcinfo = None
         contentsN = next(crb_e.iter("contents"))
@@ -408,7 +410,7 @@ class XmlReader():
         cr.createBin(
             name,
             srcinfo,
-            1, # weight
+            at_least,
             count,
             "", # TODO:
             kind)
@@ -470,6 +472,11 @@ class XmlReader():
         dateVal = datetime.strptime(val,"%Y-%m-%dT%H:%M:%S")
         return dateVal.strftime("%Y%m%d%H%M%S")
     
+    def getOption(self, node, name):
+        """Value of an integer coverage option. Both weight and at_least default to 1"""
+        opts = node.find("options")
+        return 1 if opts is None else int(self.getAttr(opts, name, "1"))
+    
     def getAttr(self, node, name, default):
         if name in node.attrib:
             return node.attrib[name]
diff --git a/src/ucis/xml/xml_writer.py b/src/ucis/xml/xml_writer.py
index 3b131de..482ae6a 100644
--- a/src/ucis/xml/xml_writer.py
+++ b/src/ucis/xml/xml_writer.py
@@ -171,7 +171,7 @@ class XmlWriter():
     def write_covergroups(self, inst, scope):
         for cg in scope.scopes(ScopeTypeT.COVERGROUP):
             cgElem = self.mkElem(inst, "covergroupCoverage")
-#            self.setAttr(cgElem, "weight", str(scope.getWeight()))
+            self.setAttrIfNotOne(cgElem, "weight", cg.getWeight())
 
             inst_it = cg.scopes(ScopeTypeT.COVERINSTANCE)
             
@@ -293,7 +293,16 @@ class XmlWriter():
             
     
     def write_options(self, parent, opts_item):
-        self.mkElem(parent, "options")
+        opts = self.mkElem(parent, "options")
+
+        # Only options that differ from their XML default are written
+        self.setAttrIfNotOne(opts, "weight", opts_item.getWeight())
+        
+        # at_least is an option of the coverpoint or cross that owns the bins
+        bin = next(opts_item.coverItems(
+            CoverTypeT.CVGBIN|CoverTypeT.IGNOREBIN|CoverTypeT.ILLEGALBIN), None)
+        if bin is not None:
+            self.setAttrIfNotOne(opts, "at_least", bin.getCoverData().at_least)
         
 
     def write_statement_id(self, stmt_id : StatementId, p, name="id"):
@@ -322,6 +331,10 @@ class XmlWriter():
     def setAttrDateTime(self, e, name, val):
         self.setAttr(e, name, datetime.strptime(val, "%Y%m%d%H%M%S").isoformat())
             
+    def setAttrIfNotOne(self, e, name, val):
+        if val != 1:
+            self.setAttr(e, name, str(val))
+            
     def setIfNonNull(self, n, attr, val):
         if val is not None:
             self.setAttr(n, attr, str(val))
-- 
2.43.0


From 38831d344109c1c9ff7fa9979377a3d8fae3377b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:54 +0000
Subject: [PATCH 24/54] fix: do not lose scopes that share a name when merging

Only the last of several same-named instances, covergroups, cover
instances or coverpoints of one source was merged.
---
 src/ucis/merge/db_merger.py | 37 ++++++++++++++++---------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/src/ucis/merge/db_merger.py b/src/ucis/merge/db_merger.py
index 1b9ee9b..40d221c 100644
--- a/src/ucis/merge/db_merger.py
+++ b/src/ucis/merge/db_merger.py
@@ -33,21 +33,18 @@ class DbMerger(object):
         iscope_m : Dict[str, List[object]] = {}
         iscope_name_l = []
 
-        for i,db in enumerate(src_db_l):
+        for db in src_db_l:
             for src_iscope in db.scopes(ScopeTypeT.INSTANCE):
                 name = src_iscope.getScopeName()
                 if not name in iscope_m.keys():
-                    scope_l = [None]*len(src_db_l)
-                    scope_l[i] = src_iscope
-                    iscope_m[name] = scope_l
+                    iscope_m[name] = []
                     iscope_name_l.append(name)
-                else:
-                    iscope_m[name][i] = src_iscope
+                iscope_m[name].append(src_iscope)
             
         for name in iscope_name_l:
             # We'll create the scope using the first src database
             # that it was in
-            src_scopes = list(filter(lambda e: e is not None, iscope_m[name]))
+            src_scopes = iscope_m[name]
             
             src_iscope = src_scopes[0]
             
@@ -81,18 +78,17 @@ class DbMerger(object):
         cg_name_m : Dict[str,List] = {}
         cg_name_l = []
       
-        for i,src_scope in enumerate(src_scopes): 
+        for src_scope in src_scopes: 
             for src_cg in src_scope.scopes(ScopeTypeT.COVERGROUP):
                 name = src_cg.getScopeName()
                 
                 if name not in cg_name_m.keys():
-                    scope_l = [None]*len(src_scopes)
-                    cg_name_m[name] = scope_l
+                    cg_name_m[name] = []
                     cg_name_l.append(name)
-                cg_name_m[name][i] = src_cg
+                cg_name_m[name].append(src_cg)
 
         for name in cg_name_l:                
-            src_cg_l = list(filter(lambda cg: cg is not None, cg_name_m[name]))
+            src_cg_l = cg_name_m[name]
             
             # Create the destination using the first covergroup
             dst_cg = dst_scope.createCovergroup(
@@ -115,18 +111,18 @@ class DbMerger(object):
         cg_i_m = {}
         cg_n_l = []
         
-        for i,src_cg in enumerate(src_cg_l):
+        for src_cg in src_cg_l:
             
             for src_cg_i in src_cg.scopes(ScopeTypeT.COVERINSTANCE):
                 name = src_cg_i.getScopeName()
                 
                 if name not in cg_i_m.keys():
-                    cg_i_m[name] = [None]*len(src_cg_l)
+                    cg_i_m[name] = []
                     cg_n_l.append(name)
-                cg_i_m[name][i] = src_cg_i
+                cg_i_m[name].append(src_cg_i)
                 
         for name in cg_n_l:
-            src_cg_i_l = list(filter(lambda cg : cg is not None, cg_i_m[name]))
+            src_cg_i_l = cg_i_m[name]
             
             dst_cg_i = dst_cg.createCoverInstance(
                         name,
@@ -142,18 +138,17 @@ class DbMerger(object):
         cp_name_m : Dict[str,List] = {}
         cp_name_l = []
         
-        for i,src_cg in enumerate(src_cg_l):
+        for src_cg in src_cg_l:
             for cp in src_cg.scopes(ScopeTypeT.COVERPOINT):
                 name = cp.getScopeName()
                 
                 if name not in cp_name_m.keys():
-                    scope_l = [None]*len(src_cg_l)
-                    cp_name_m[name] = scope_l
+                    cp_name_m[name] = []
                     cp_name_l.append(name)
-                cp_name_m[name][i] = cp
+                cp_name_m[name].append(cp)
                 
         for name in cp_name_l:
-            src_cp_l = list(filter(lambda cp : cp is not None, cp_name_m[name]))
+            src_cp_l = cp_name_m[name]
             
             dst_cp = dst_cg.createCoverpoint(
                 src_cp_l[0].getScopeName(),
-- 
2.43.0


From b58e7f41f0db47c49d0ad70240b24e499d815936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:56 +0000
Subject: [PATCH 25/54] fix: report the missing coverpoint when a cross cannot
 be merged

---
 src/ucis/merge/db_merger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/merge/db_merger.py b/src/ucis/merge/db_merger.py
index 40d221c..b06d580 100644
--- a/src/ucis/merge/db_merger.py
+++ b/src/ucis/merge/db_merger.py
@@ -209,7 +209,7 @@ class DbMerger(object):
                     coverpoint_l.append(dst_cp_m[src_cp.getScopeName()])
                 else:
                     raise Exception("Cannot find coverpoint %s when creating cross %s" % (
-                        src_cp.getName(), name))
+                        src_cp.getScopeName(), name))
 
             dst_cr = dst_cg.createCross(
                 name,
-- 
2.43.0


From ff8c312536ae94a121c359bfcf99d27c9090fe09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:58 +0000
Subject: [PATCH 26/54] fix: record the design unit of each instance in XML

The reader restores it from moduleName, but it was never written, so
every instance came back as an instance of 'default'.
---
 src/ucis/xml/xml_writer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ucis/xml/xml_writer.py b/src/ucis/xml/xml_writer.py
index 482ae6a..cdad6d7 100644
--- a/src/ucis/xml/xml_writer.py
+++ b/src/ucis/xml/xml_writer.py
@@ -159,10 +159,11 @@ class XmlWriter():
             # TODO: userAttr
             
     def write_instance_coverages(self, s):
-        # TODO: determine the du_scope associated with this instance
         inst = self.mkElem(self.root, "instanceCoverages")
         inst.set("name", s.getScopeName())
         inst.set("key", "0") # TODO:
+        if s.getInstanceDu() is not None:
+            inst.set("moduleName", s.getInstanceDu().getScopeName())
         self.addId(inst, None)
         
         self.write_covergroups(inst, s)
-- 
2.43.0


From 17f02c5366bd319e26da88aba317f04a8455378b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:55 +0000
Subject: [PATCH 27/54] fix: raise when the UCIS library fails to create an
 object

A NULL handle was wrapped as if it were valid; property writes through
such a wrapper then landed on the database itself.
---
 src/ucis/lib/lib_covergroup.py |  6 +++++-
 src/ucis/lib/lib_scope.py      | 10 ++++++++++
 src/ucis/lib/lib_ucis.py       |  7 +++++++
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/ucis/lib/lib_covergroup.py b/src/ucis/lib/lib_covergroup.py
index 5cabbda..710471c 100644
--- a/src/ucis/lib/lib_covergroup.py
+++ b/src/ucis/lib/lib_covergroup.py
@@ -85,8 +85,10 @@ class LibCovergroup(LibCvgScope, Covergroup):
             len(points_l),
             byref(points))
         
+        if cr_o is None:
+            raise Exception("Failed to create cross \"" + name + "\"")
+        
         return LibCross(self.db, cr_o)
-        raise NotImplementedError()
     
     def createCoverInstance(
             self,
@@ -106,5 +108,7 @@ class LibCovergroup(LibCvgScope, Covergroup):
             UCIS_COVERINSTANCE,
             0)
         
+        if ci_obj is None:
+            raise Exception("Failed to create cover instance \"" + name + "\"")
         
         return LibCovergroup(self.db, ci_obj)
diff --git a/src/ucis/lib/lib_scope.py b/src/ucis/lib/lib_scope.py
index 028a540..ca25ca5 100644
--- a/src/ucis/lib/lib_scope.py
+++ b/src/ucis/lib/lib_scope.py
@@ -132,6 +132,9 @@ class LibScope(LibObj, Scope):
             ScopeTypeT.COVERGROUP,
             0)
         
+        if cg_obj is None:
+            raise Exception("Failed to create covergroup \"" + name + "\"")
+        
         return LibCovergroup(self.db, cg_obj)
     
     def createToggle(self,
@@ -150,6 +153,10 @@ class LibScope(LibObj, Scope):
             toggle_metric,
             toggle_type,
             toggle_dir)
+        
+        if th is None:
+            raise Exception("Failed to create toggle \"" + name + "\"")
+        
         return LibScope(self.db, th)
     
     def createNextCover(self,
@@ -166,6 +173,9 @@ class LibScope(LibObj, Scope):
             data_p,
             sourceinfo_p)
         
+        if index < 0:
+            raise Exception("Failed to create cover item \"" + name + "\"")
+        
         return LibCoverIndex(self.db, self.obj, index)
     
     def getSourceInfo(self)->SourceInfo:
diff --git a/src/ucis/lib/lib_ucis.py b/src/ucis/lib/lib_ucis.py
index 5672837..9b8d75e 100644
--- a/src/ucis/lib/lib_ucis.py
+++ b/src/ucis/lib/lib_ucis.py
@@ -70,6 +70,9 @@ class LibUCIS(LibScope,UCIS):
             str.encode(filename),
             None if workdir is None else str.encode(workdir))
         
+        if fh is None:
+            raise Exception("Failed to create file handle \"" + filename + "\"")
+        
         return LibFileHandle(self.db, fh)
         
     
@@ -89,6 +92,10 @@ class LibUCIS(LibScope,UCIS):
             kind)
         logging.debug("hn=" + str(hn))
         logging.debug("<-- createHistoryNode")
+        
+        if hn is None:
+            raise Exception("Failed to create history node \"" + logicalname + "\"")
+        
         return LibHistoryNode(self.db, hn)
     
     def getHistoryNodes(self, kind:HistoryNodeKind)->List[HistoryNode]:
-- 
2.43.0


From 8625cbf79267ef98cb2bdcf8be75a30ff3f960fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:56 +0000
Subject: [PATCH 28/54] fix: raise when the UCIS library fails to write or
 close a database

The return status was only logged, so a database that was never saved
looked as if it had been.
---
 src/ucis/lib/lib_ucis.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ucis/lib/lib_ucis.py b/src/ucis/lib/lib_ucis.py
index 9b8d75e..d8b4fbf 100644
--- a/src/ucis/lib/lib_ucis.py
+++ b/src/ucis/lib/lib_ucis.py
@@ -115,6 +115,12 @@ class LibUCIS(LibScope,UCIS):
             covertype)
         logging.debug("ret=" + str(ret))
         
+        if ret != 0:
+            raise Exception("Error: failed to write UCIS file \"" + file + "\"")
+        
     def close(self):
         ret = get_lib().ucis_Close(self.db)
         logging.debug("close ret=" + str(ret))
+        
+        if ret != 0:
+            raise Exception("Error: failed to close UCIS DB")
-- 
2.43.0


From 3fbfb28d6c961e25828fb4dea63b497630d5ec0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:59 +0000
Subject: [PATCH 29/54] fix: pass object handles, not wrappers, to the UCIS
 library

Writing a sub-scope, or creating a history node with a parent or
without a physical name, raised a ctypes argument error.
---
 src/ucis/lib/lib_ucis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ucis/lib/lib_ucis.py b/src/ucis/lib/lib_ucis.py
index d8b4fbf..0e245cc 100644
--- a/src/ucis/lib/lib_ucis.py
+++ b/src/ucis/lib/lib_ucis.py
@@ -86,9 +86,9 @@ class LibUCIS(LibScope,UCIS):
         
         hn = get_lib().ucis_CreateHistoryNode(
             self.db,
-            parent,
+            None if parent is None else parent.obj,
             str.encode(logicalname),
-            str.encode(physicalname),
+            None if physicalname is None else str.encode(physicalname),
             kind)
         logging.debug("hn=" + str(hn))
         logging.debug("<-- createHistoryNode")
@@ -110,7 +110,7 @@ class LibUCIS(LibScope,UCIS):
         ret = get_lib().ucis_Write(
             self.db, 
             str.encode(file),
-            scope,
+            None if scope is None else scope.obj,
             1 if recurse else 0,
             covertype)
         logging.debug("ret=" + str(ret))
-- 
2.43.0


From 6bb3c8ee5cb2129977f0daf94a0a85992483efa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:00 +0000
Subject: [PATCH 30/54] fix: exchange test data with the UCIS library correctly

The strings of ucisTestDataT are 'char *', but were passed as wide
strings. getTestData() called ucis_SetTestData, overwriting the record
it was meant to fetch, and the status of both calls was ignored.
---
 src/ucis/lib/lib_history_node.py | 20 ++++----
 src/ucis/lib/lib_test_data.py    | 84 +++++++++++++++-----------------
 2 files changed, 49 insertions(+), 55 deletions(-)

diff --git a/src/ucis/lib/lib_history_node.py b/src/ucis/lib/lib_history_node.py
index b3630f5..d2f2ac2 100644
--- a/src/ucis/lib/lib_history_node.py
+++ b/src/ucis/lib/lib_history_node.py
@@ -24,20 +24,22 @@ class LibHistoryNode(LibObj, HistoryNode):
     def setTestData(self, testdata:TestData):
         lib_td = pointer(LibTestData.ctor(testdata))
         
-        get_lib().ucis_SetTestData(
-            self.db,
-            self.obj,
-            lib_td)
+        if get_lib().ucis_SetTestData(
+                self.db,
+                self.obj,
+                lib_td) != 0:
+            raise Exception("Failed to set test data")
         
     def getTestData(self):
         lib_td = pointer(LibTestData())
         
-        get_lib().ucis_SetTestData(
-            self.db,
-            self.obj,
-            lib_td)
+        if get_lib().ucis_GetTestData(
+                self.db,
+                self.obj,
+                lib_td) != 0:
+            raise Exception("Failed to get test data")
         
-        return lib_td.to_testdata()
+        return lib_td.contents.to_testdata()
     
     def getTestStatus(self) -> TestStatusT:
         return self.getIntProperty(-1, UCIS_INT_TEST_STATUS)
diff --git a/src/ucis/lib/lib_test_data.py b/src/ucis/lib/lib_test_data.py
index 6be02d4..7ca17b5 100644
--- a/src/ucis/lib/lib_test_data.py
+++ b/src/ucis/lib/lib_test_data.py
@@ -5,79 +5,71 @@ Created on Mar 12, 2020
 '''
 
 from _ctypes import Structure
-from ctypes import c_int, c_ulonglong, c_uint, c_wchar_p, c_double, c_wchar
+from ctypes import c_int, c_uint, c_char_p, c_double
 from ucis.test_data import TestData
 
 class LibTestData(Structure):
     _fields_ = [
         ("teststatus", c_uint),
         ("simtime", c_double),
-        ("timeunit", c_wchar_p),
-        ("runcwd", c_wchar_p),
+        ("timeunit", c_char_p),
+        ("runcwd", c_char_p),
         ("cputime", c_double),
-        ("seed", c_wchar_p),
-        ("cmd", c_wchar_p),
-        ("args", c_wchar_p),
+        ("seed", c_char_p),
+        ("cmd", c_char_p),
+        ("args", c_char_p),
         ("compulsory", c_int),
-        ("date", c_wchar_p),
-        ("username", c_wchar_p),
+        ("date", c_char_p),
+        ("username", c_char_p),
         ("cost", c_double),
-        ("toolcategory", c_wchar_p)
+        ("toolcategory", c_char_p)
     ]
 
     @staticmethod
     def ctor(td : TestData):
         
+        def enc(s):
+            return None if s is None else str.encode(str(s))
+        
         ret = LibTestData(
             td.teststatus,
             td.simtime,
-            td.timeunit,
-            td.runcwd,
+            enc(td.timeunit),
+            enc(td.runcwd),
             td.cputime,
-            td.seed,
-            td.cmd,
-            td.args,
+            enc(td.seed),
+            enc(td.cmd),
+            enc(td.args),
             td.compulsory,
-            td.date,
-            td.user,
+            enc(td.date),
+            enc(td.user),
             td.cost,
-            td.toolcategory
+            enc(td.toolcategory)
             )        
         
-#         ret = LibTestData(
-#             td.teststatus,
-#             td.simtime,
-#             None if td.timeunit is None else str.encode(td.timeunit),
-#             None if td.runcwd is None else str.encode(td.runcwd),
-#             td.cputime,
-#             None if td.seed is None else str.encode(td.seed),
-#             None if td.cmd is None else str.encode(td.cmd),
-#             None if td.args is None else str.encode(td.args),
-#             td.compulsory,
-#             None if td.date is None else str.encode(td.date),
-#             None if td.user is None else str.encode(td.user),
-#             td.cost,
-#             None if td.toolcategory is None else str.encode(td.toolcategory)
-#             )
         
         return ret
    
     def to_testdata(self):
+        
+        def dec(s):
+            return None if s is None else s.decode()
+        
         ret = TestData(
-            self.teststatus,
-            self.simtime,
-            self.timeunit,
-            self.runcwd,
-            self.cputime,
-            self.seed,
-            self.cmd,
-            self.args,
-            self.compulsory,
-            self.date,
-            self.username,
-            self.cost,
-            self.toolcategory)
+            teststatus=self.teststatus,
+            toolcategory=dec(self.toolcategory),
+            date=dec(self.date),
+            simtime=self.simtime,
+            timeunit=dec(self.timeunit),
+            runcwd=dec(self.runcwd),
+            cputime=self.cputime,
+            seed=dec(self.seed),
+            cmd=dec(self.cmd),
+            args=dec(self.args),
+            compulsory=self.compulsory,
+            user=dec(self.username),
+            cost=self.cost)
         
         return ret
 
-    
\ No newline at end of file
+    
-- 
2.43.0


From e76ad99fd60fd9bc62f04aeab98be0cab76abf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:02 +0000
Subject: [PATCH 31/54] fix: implement history-node iteration on the UCIS
 library

---
 src/ucis/lib/lib_history_node_iterator.py | 2 +-
 src/ucis/lib/lib_ucis.py                  | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ucis/lib/lib_history_node_iterator.py b/src/ucis/lib/lib_history_node_iterator.py
index 9a792d1..3b38313 100644
--- a/src/ucis/lib/lib_history_node_iterator.py
+++ b/src/ucis/lib/lib_history_node_iterator.py
@@ -20,7 +20,7 @@ class LibHistoryNodeIterator(object):
         next = get_lib().ucis_HistoryScan(self.db, self.iter)
         
         if next is None:
-            get_lib().ucis_FreeIterator(self.iter)
+            get_lib().ucis_FreeIterator(self.db, self.iter)
             raise StopIteration
         
         return LibHistoryNode(self.db, next)
diff --git a/src/ucis/lib/lib_ucis.py b/src/ucis/lib/lib_ucis.py
index 0e245cc..48b0f55 100644
--- a/src/ucis/lib/lib_ucis.py
+++ b/src/ucis/lib/lib_ucis.py
@@ -29,6 +29,7 @@ from ucis.history_node_kind import HistoryNodeKind
 from ucis.int_property import IntProperty
 from ucis.lib.lib_file_handle import LibFileHandle
 from ucis.lib.lib_history_node import LibHistoryNode
+from ucis.lib.lib_history_node_iterator import LibHistoryNodeIterator
 from ucis.lib.lib_scope import LibScope
 from ucis.lib.libucis import _lib, get_ucis_library, get_lib
 from ucis.ucis import UCIS
@@ -99,11 +100,10 @@ class LibUCIS(LibScope,UCIS):
         return LibHistoryNode(self.db, hn)
     
     def getHistoryNodes(self, kind:HistoryNodeKind)->List[HistoryNode]:
-        
-        UCIS.getHistoryNodes(self, kind)
+        return UCIS.getHistoryNodes(self, kind)
         
     def historyNodes(self, kind:HistoryNodeKind)->Iterator[HistoryNode]:
-        UCIS.historyNodes(self, kind)
+        return LibHistoryNodeIterator(self.db, None, kind)
         
     def write(self, file, scope=None, recurse=True, covertype=-1):
         logging.debug("file=" + file)
-- 
2.43.0


From 8565d0fa7df99a3e8986e9ace13e57a7859e94db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:04 +0000
Subject: [PATCH 32/54] fix: do not truncate counts passed to the UCIS library
 to 32 bits

---
 src/ucis/lib/lib_coverpoint.py | 5 +++--
 src/ucis/lib/lib_cross.py      | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ucis/lib/lib_coverpoint.py b/src/ucis/lib/lib_coverpoint.py
index d0baaaa..a660867 100644
--- a/src/ucis/lib/lib_coverpoint.py
+++ b/src/ucis/lib/lib_coverpoint.py
@@ -3,7 +3,7 @@ Created on Mar 12, 2020
 
 @author: ballance
 '''
-from ucis import UCIS_CVGBIN, UCIS_IS_32BIT, UCIS_HAS_GOAL, UCIS_HAS_WEIGHT
+from ucis import UCIS_CVGBIN, UCIS_IS_32BIT, UCIS_IS_64BIT, UCIS_HAS_GOAL, UCIS_HAS_WEIGHT
 from ucis.cover_data import CoverData
 from ucis.coverpoint import Coverpoint
 from ucis.lib.lib_scope import LibScope
@@ -29,7 +29,8 @@ class LibCoverpoint(LibCvgScope, Coverpoint):
         kind=UCIS_CVGBIN) -> CoverIndex:
         coverdata = CoverData(
             kind,
-            (UCIS_IS_32BIT|UCIS_HAS_GOAL|UCIS_HAS_WEIGHT))
+            ((UCIS_IS_32BIT if count < 2**32 else UCIS_IS_64BIT)
+             |UCIS_HAS_GOAL|UCIS_HAS_WEIGHT))
         coverdata.data = count
         coverdata.at_least = at_least
         coverdata.goal = 1
diff --git a/src/ucis/lib/lib_cross.py b/src/ucis/lib/lib_cross.py
index 9e4ef5a..47d35de 100644
--- a/src/ucis/lib/lib_cross.py
+++ b/src/ucis/lib/lib_cross.py
@@ -3,7 +3,7 @@ Created on Feb 1, 2021
 
 @author: mballance
 '''
-from ucis import UCIS_CVGBIN, UCIS_IS_32BIT, UCIS_HAS_GOAL, UCIS_HAS_WEIGHT
+from ucis import UCIS_CVGBIN, UCIS_IS_32BIT, UCIS_IS_64BIT, UCIS_HAS_GOAL, UCIS_HAS_WEIGHT
 from ucis.cover_data import CoverData
 from ucis.cover_index import CoverIndex
 from ucis.cross import Cross
@@ -26,7 +26,8 @@ class LibCross(LibCvgScope, Cross):
         binrhs) -> CoverIndex:
         coverdata = CoverData(
             UCIS_CVGBIN,
-            (UCIS_IS_32BIT|UCIS_HAS_GOAL|UCIS_HAS_WEIGHT))
+            ((UCIS_IS_32BIT if count < 2**32 else UCIS_IS_64BIT)
+             |UCIS_HAS_GOAL|UCIS_HAS_WEIGHT))
         coverdata.data = count
         coverdata.at_least = at_least
         coverdata.goal = 1
-- 
2.43.0


From 1d01d3bbe4ecf99cd5905949fd7663ebc21498a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:28 +0000
Subject: [PATCH 33/54] fix: accept the bin kind when creating cross bins via
 the UCIS library

Merging any database with cross bins into a library-backed one raised.
---
 src/ucis/lib/lib_cross.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ucis/lib/lib_cross.py b/src/ucis/lib/lib_cross.py
index 47d35de..2a06505 100644
--- a/src/ucis/lib/lib_cross.py
+++ b/src/ucis/lib/lib_cross.py
@@ -23,9 +23,10 @@ class LibCross(LibCvgScope, Cross):
         srcinfo:SourceInfo, 
         at_least:int, 
         count:int,
-        binrhs) -> CoverIndex:
+        binrhs,
+        kind=UCIS_CVGBIN) -> CoverIndex:
         coverdata = CoverData(
-            UCIS_CVGBIN,
+            kind,
             ((UCIS_IS_32BIT if count < 2**32 else UCIS_IS_64BIT)
              |UCIS_HAS_GOAL|UCIS_HAS_WEIGHT))
         coverdata.data = count
-- 
2.43.0


From 2bf7518ce7e3fb0570056de3f750fb92412df191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:53 +0000
Subject: [PATCH 34/54] fix: encode a report before opening its output file

---
 src/ucis/cmd/cmd_report.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ucis/cmd/cmd_report.py b/src/ucis/cmd/cmd_report.py
index 0a17174..559e67d 100644
--- a/src/ucis/cmd/cmd_report.py
+++ b/src/ucis/cmd/cmd_report.py
@@ -64,7 +64,10 @@ def report(args):
     output_if.report(in_db, fp, [])
 
     if args.out is not None and isinstance(fp, StringIO):
-        with open(args.out, "w", encoding="utf-8") as out:
-            out.write(fp.getvalue())
+        # Encode before opening, such that text that cannot be encoded
+        # does not cost an existing report its contents
+        data = fp.getvalue().replace("\n", os.linesep).encode("utf-8")
+        with open(args.out, "wb") as out:
+            out.write(data)
 
     in_db.close()
-- 
2.43.0


From 90a19153bf7dac5da6cfa995d81c60b20edca88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:38 +0000
Subject: [PATCH 35/54] fix: items created from one CoverData no longer share
 their counts

---
 src/ucis/mem/mem_cover_item.py | 3 ++-
 src/ucis/mem/mem_scope.py      | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ucis/mem/mem_cover_item.py b/src/ucis/mem/mem_cover_item.py
index f6ce22c..4dc74a2 100644
--- a/src/ucis/mem/mem_cover_item.py
+++ b/src/ucis/mem/mem_cover_item.py
@@ -3,6 +3,7 @@ Created on Jan 12, 2020
 
 @author: ballance
 '''
+from copy import copy
 from ucis.cover_item import CoverItem
 
 class MemCoverItem(CoverItem):
@@ -12,7 +13,7 @@ class MemCoverItem(CoverItem):
         self.m_stmt_idx = 0
         self.m_parent = parent
         self.m_name = name
-        self.m_data = data # TODO: copy
+        self.m_data = copy(data)
         self.m_sourceinfo = sourceinfo # TODO: copy
 
     def getStmtIndex(self)->int:
diff --git a/src/ucis/mem/mem_scope.py b/src/ucis/mem/mem_scope.py
index 7dde27e..401d828 100644
--- a/src/ucis/mem/mem_scope.py
+++ b/src/ucis/mem/mem_scope.py
@@ -20,6 +20,7 @@ Created on Jan 8, 2020
 @author: ballance
 '''
 
+from copy import copy
 from typing import Iterator, List
 from ucis.int_property import IntProperty
 from ucis.cover_data import CoverData
@@ -139,7 +140,8 @@ class MemScope(MemObj,Scope):
         name:str, 
         data:CoverData, 
         sourceinfo:SourceInfo)->CoverIndex:
-        ret = MemCoverIndex(name, data, sourceinfo)
+        # Take a copy: callers commonly reuse one CoverData for several items
+        ret = MemCoverIndex(name, copy(data), sourceinfo)
         self.m_cover_items.append(ret)
         return ret
 
-- 
2.43.0


From b2c63edb95f88c13321357cd71904bfafd8f9a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:40 +0000
Subject: [PATCH 36/54] fix: a cross keeps its own list of crossed coverpoints

---
 src/ucis/mem/mem_cross.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/mem/mem_cross.py b/src/ucis/mem/mem_cross.py
index 9eada40..9163eb3 100644
--- a/src/ucis/mem/mem_cross.py
+++ b/src/ucis/mem/mem_cross.py
@@ -24,7 +24,7 @@ class MemCross(MemCoverpoint,Cross):
         self.m_type = UCIS_CROSS
         Cross.__init__(self)
         
-        self.coverpoints = coverpoints
+        self.coverpoints = list(coverpoints)
         
     def getNumCrossedCoverpoints(self)->int:
         return len(self.coverpoints)
-- 
2.43.0


From 62d87695328dbc6eedf4c0119dddfaeb4b3253e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:59 +0000
Subject: [PATCH 37/54] fix: the comment of a coverage scope can be set and
 read as a string property

---
 src/ucis/mem/mem_cvg_scope.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/ucis/mem/mem_cvg_scope.py b/src/ucis/mem/mem_cvg_scope.py
index 310fde9..ece059d 100644
--- a/src/ucis/mem/mem_cvg_scope.py
+++ b/src/ucis/mem/mem_cvg_scope.py
@@ -5,6 +5,7 @@ Created on Jan 12, 2020
 '''
 from ucis.mem.mem_scope import MemScope
 from ucis.cvg_scope import CvgScope
+from ucis.str_property import StrProperty
 
 class MemCvgScope(MemScope,CvgScope):
     
@@ -56,4 +57,22 @@ class MemCvgScope(MemScope,CvgScope):
     
     def setComment(self, c:str):
         self.m_comment = c
-        
+
+    def getStringProperty(
+            self,
+            coverindex : int,
+            property : StrProperty) -> str:
+        if property == StrProperty.COMMENT:
+            return self.getComment()
+        else:
+            return super().getStringProperty(coverindex, property)
+
+    def setStringProperty(
+            self,
+            coverindex : int,
+            property : StrProperty,
+            value : str):
+        if property == StrProperty.COMMENT:
+            self.setComment(value)
+        else:
+            super().setStringProperty(coverindex, property, value)
-- 
2.43.0


From 3cf60bbc8ef0c502741f43689a5953cd626515c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:55 +0000
Subject: [PATCH 38/54] fix: an XmlReader can read more than one document

---
 src/ucis/xml/xml_reader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index 237640c..d4b5f93 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -60,6 +60,11 @@ class XmlReader():
         root = tree.getroot()
         self.db = MemUCIS()
         
+        # Scopes and files of a previously-read document belong to that database
+        self.file_m = {}
+        self.module_scope_m = {}
+        self.inst_scope_m = {}
+        
         for elem in root.getiterator():
             if not hasattr(elem.tag, 'find'): continue  # (1)
             i = elem.tag.find('}')
-- 
2.43.0


From e64cec7b9b08a0adfff9ba8903a0bc8c2a6d7591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:57 +0000
Subject: [PATCH 39/54] fix: testStatus="1" in an XML document means true

---
 src/ucis/xml/xml_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index d4b5f93..367554e 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -489,7 +489,8 @@ class XmlReader():
             return default
         
     def getAttrBool(self, e, name):
-        if e.attrib[name] == "true":
+        # xsd:boolean has two spellings of each value
+        if e.attrib[name].strip() in ("true", "1"):
             return True
         else:
             return False
-- 
2.43.0


From b87f9bda8c5c26866d32685c34191c5d9f0aea04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:20 +0000
Subject: [PATCH 40/54] fix: XML text streams and strings may carry an encoding
 declaration

---
 src/ucis/xml/__init__.py   | 14 +++++++++++++-
 src/ucis/xml/xml_reader.py |  4 ++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/ucis/xml/__init__.py b/src/ucis/xml/__init__.py
index 15b7456..3b794a3 100644
--- a/src/ucis/xml/__init__.py
+++ b/src/ucis/xml/__init__.py
@@ -18,10 +18,22 @@
 
 import logging
 import os
+from io import BytesIO, TextIOBase
 from lxml import etree
 from lxml.etree import tounicode
 
 
+def parse_xml(fp):
+    """Parses an XML document from a binary or text stream"""
+    if isinstance(fp, TextIOBase):
+        # The text is already decoded, so an encoding named in the
+        # XML declaration no longer applies
+        return etree.parse(
+            BytesIO(fp.read().encode("utf-8")),
+            etree.XMLParser(encoding="utf-8"))
+    else:
+        return etree.parse(fp)
+
 def validate_ucis_xml(file_or_filename):
     
     xml_pkg_dir = os.path.dirname(os.path.abspath(__file__))
@@ -46,7 +58,7 @@ def validate_ucis_xml(file_or_filename):
     ret = False
 
     try:
-        doc = etree.parse(fp)
+        doc = parse_xml(fp)
         
         root = doc.getroot()
 
diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index 367554e..a224ce3 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -39,7 +39,7 @@ from ucis.mem.mem_scope import MemScope
 from ucis.mem.mem_ucis import MemUCIS
 from ucis.statement_id import StatementId
 from ucis.ucis import UCIS
-from ucis.xml import validate_ucis_xml
+from ucis.xml import parse_xml, validate_ucis_xml
 
 
 class XmlReader():
@@ -56,7 +56,7 @@ class XmlReader():
 
 
     def read(self, file) -> UCIS:
-        tree = etree.parse(file)
+        tree = parse_xml(file)
         root = tree.getroot()
         self.db = MemUCIS()
         
-- 
2.43.0


From be58df5c5a6aec3ee46c905e01123ad5ca9937a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:51 +0000
Subject: [PATCH 41/54] fix: source information without a file can be passed to
 the UCIS library

---
 src/ucis/lib/lib_source_info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/lib/lib_source_info.py b/src/ucis/lib/lib_source_info.py
index 2b029de..08213f3 100644
--- a/src/ucis/lib/lib_source_info.py
+++ b/src/ucis/lib/lib_source_info.py
@@ -37,7 +37,7 @@ class _LibSourceInfo(Structure):
     @staticmethod
     def ctor(srcinfo : SourceInfo):
         return _LibSourceInfo(
-            srcinfo.file.fh,
+            None if srcinfo.file is None else srcinfo.file.fh,
             srcinfo.line,
             srcinfo.token)
         
-- 
2.43.0


From 52abb4dc2d3673db2bd4060a9a0e531e24441d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:51 +0000
Subject: [PATCH 42/54] fix: looking at existing scopes of a UCIS library
 database does not reset their goal

---
 src/ucis/lib/lib_scope.py          | 6 ++++--
 src/ucis/lib/lib_scope_iterator.py | 2 +-
 src/ucis/lib/lib_ucis.py           | 3 ++-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ucis/lib/lib_scope.py b/src/ucis/lib/lib_scope.py
index ca25ca5..075cd42 100644
--- a/src/ucis/lib/lib_scope.py
+++ b/src/ucis/lib/lib_scope.py
@@ -44,9 +44,11 @@ from ucis.toggle_type_t import ToggleTypeT
 
 class LibScope(LibObj, Scope):
     
-    def __init__(self, db, obj):
+    def __init__(self, db, obj, created=True):
         LibObj.__init__(self, db, obj)
-        Scope.__init__(self)
+        # Only a new scope is given default properties
+        if created:
+            Scope.__init__(self)
         logging.debug("LibScope::init - db=" + str(self.db) + " " + str(self.obj))
         
     def getGoal(self)->int:
diff --git a/src/ucis/lib/lib_scope_iterator.py b/src/ucis/lib/lib_scope_iterator.py
index bb5f439..a8f9acb 100644
--- a/src/ucis/lib/lib_scope_iterator.py
+++ b/src/ucis/lib/lib_scope_iterator.py
@@ -23,6 +23,6 @@ class LibScopeIterator(object):
             get_lib().ucis_FreeIterator(self.db, self.iter)
             raise StopIteration
         
-        return LibScope(self.db, next)
+        return LibScope(self.db, next, created=False)
         
         
\ No newline at end of file
diff --git a/src/ucis/lib/lib_ucis.py b/src/ucis/lib/lib_ucis.py
index 48b0f55..706b11e 100644
--- a/src/ucis/lib/lib_ucis.py
+++ b/src/ucis/lib/lib_ucis.py
@@ -38,6 +38,7 @@ from ucis.ucis import UCIS
 class LibUCIS(LibScope,UCIS):
     
     def __init__(self, file : str=None, db=None):
+        created = file is None and db is None
         if db is None:
             db = get_lib().ucis_Open(
                 str.encode(file) if file is not None else None)
@@ -47,7 +48,7 @@ class LibUCIS(LibScope,UCIS):
                     raise Exception("Error: failed to open UCIS file \"" + file + "\"")
                 else:
                     raise Exception("Error: failed to create UCIS DB")
-        super().__init__(db, None)
+        super().__init__(db, None, created)
         
     def isModified(self):
         return get_lib().ucis_GetIntProperty(self.db, -1, IntProperty.IS_MODIFIED) == 1
-- 
2.43.0


From 928762d793fb416aec36d0ca02179f7bef3bdc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:51 +0000
Subject: [PATCH 43/54] fix: an exhausted iterator of the UCIS library is not
 used or freed again

---
 src/ucis/lib/lib_history_node_iterator.py | 4 ++++
 src/ucis/lib/lib_scope_iterator.py        | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/ucis/lib/lib_history_node_iterator.py b/src/ucis/lib/lib_history_node_iterator.py
index 3b38313..4c50cc0 100644
--- a/src/ucis/lib/lib_history_node_iterator.py
+++ b/src/ucis/lib/lib_history_node_iterator.py
@@ -17,10 +17,14 @@ class LibHistoryNodeIterator(object):
         return self
     
     def __next__(self):
+        if self.iter is None:
+            raise StopIteration
+        
         next = get_lib().ucis_HistoryScan(self.db, self.iter)
         
         if next is None:
             get_lib().ucis_FreeIterator(self.db, self.iter)
+            self.iter = None
             raise StopIteration
         
         return LibHistoryNode(self.db, next)
diff --git a/src/ucis/lib/lib_scope_iterator.py b/src/ucis/lib/lib_scope_iterator.py
index a8f9acb..3d1973f 100644
--- a/src/ucis/lib/lib_scope_iterator.py
+++ b/src/ucis/lib/lib_scope_iterator.py
@@ -17,10 +17,14 @@ class LibScopeIterator(object):
     
     def __next__(self):
         from .lib_scope import LibScope
+        if self.iter is None:
+            raise StopIteration
+        
         next = get_lib().ucis_ScopeScan(self.db, self.iter)
         
         if next is None:
             get_lib().ucis_FreeIterator(self.db, self.iter)
+            self.iter = None
             raise StopIteration
         
         return LibScope(self.db, next, created=False)
-- 
2.43.0


From dfea23278d24d7b7da03318477dc65d28961c40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:51 +0000
Subject: [PATCH 44/54] fix: file names obtained from the UCIS library are
 strings

---
 src/ucis/lib/lib_file_handle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ucis/lib/lib_file_handle.py b/src/ucis/lib/lib_file_handle.py
index 36a5b06..c9f230f 100644
--- a/src/ucis/lib/lib_file_handle.py
+++ b/src/ucis/lib/lib_file_handle.py
@@ -32,4 +32,6 @@ class LibFileHandle(FileHandle):
         self.fh = fh
         
     def getFileName(self)->str:
-        return get_lib().ucis_GetFileName(self.db, self.fh)
\ No newline at end of file
+        name = get_lib().ucis_GetFileName(self.db, self.fh)
+        
+        return None if name is None else name.decode()
\ No newline at end of file
-- 
2.43.0


From a3dfc8c17ce1941ed32cd2b35761996a93629d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:51 +0000
Subject: [PATCH 45/54] fix: report failure to obtain source information from
 the UCIS library

---
 src/ucis/lib/lib_scope.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ucis/lib/lib_scope.py b/src/ucis/lib/lib_scope.py
index 075cd42..66445eb 100644
--- a/src/ucis/lib/lib_scope.py
+++ b/src/ucis/lib/lib_scope.py
@@ -184,7 +184,8 @@ class LibScope(LibObj, Scope):
         libsrcinfo = _LibSourceInfo()
         sourceinfo_p = byref(libsrcinfo)
         
-        get_lib().ucis_GetScopeSourceInfo(self.db, self.obj, sourceinfo_p)
+        if get_lib().ucis_GetScopeSourceInfo(self.db, self.obj, sourceinfo_p) != 0:
+            raise Exception("Failed to get source information")
         
         return LibSourceInfo.ctor(self.db, libsrcinfo)
     
-- 
2.43.0


From 1a7880608890d357e0899b308b796d1c345e02ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:19 +0000
Subject: [PATCH 46/54] fix: do not take any failure while looking up a
 covergroup type for an absent cgId

A failed allocation or an interrupt there silently read the covergroup
under the name 'default'.
---
 src/ucis/xml/xml_reader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index a224ce3..2d62135 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -177,10 +177,10 @@ class XmlReader():
         instances = [i for i in cg.iter("cgInstance")]
 
         for i in cg.iter("cgInstance"):
-            try:
-                cgId_l = next(i.iter("cgId"))
+            cgId_l = next(i.iter("cgId"), None)
+            if cgId_l is not None:
                 typename = self.getAttr(cgId_l, "cgName", "xxx")
-            except:
+            else:
                 typename = "default"
 
             if typename in cg_type_m.keys():
-- 
2.43.0


From 80abece04ae6631af055b064e267f47b9fd10fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:03 +0000
Subject: [PATCH 47/54] fix: iterate cover items recorded directly in an
 instance or toggle

createNextCover on an instance kept its items in a list of its own, so
coverItems() never returned them and they had no readable data.
---
 src/ucis/mem/mem_cover_item.py     | 8 +++-----
 src/ucis/mem/mem_instance_scope.py | 7 +++----
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/ucis/mem/mem_cover_item.py b/src/ucis/mem/mem_cover_item.py
index 4dc74a2..3c638cf 100644
--- a/src/ucis/mem/mem_cover_item.py
+++ b/src/ucis/mem/mem_cover_item.py
@@ -5,16 +5,14 @@ Created on Jan 12, 2020
 '''
 from copy import copy
 from ucis.cover_item import CoverItem
+from ucis.mem.mem_cover_index import MemCoverIndex
 
-class MemCoverItem(CoverItem):
+class MemCoverItem(MemCoverIndex,CoverItem):
     
     def __init__(self, parent, name, data, sourceinfo):
-        super().__init__()
+        MemCoverIndex.__init__(self, name, copy(data), sourceinfo)
         self.m_stmt_idx = 0
         self.m_parent = parent
-        self.m_name = name
-        self.m_data = copy(data)
-        self.m_sourceinfo = sourceinfo # TODO: copy
 
     def getStmtIndex(self)->int:
         return self.m_stmt_idx
diff --git a/src/ucis/mem/mem_instance_scope.py b/src/ucis/mem/mem_instance_scope.py
index ddfba52..eb1e506 100644
--- a/src/ucis/mem/mem_instance_scope.py
+++ b/src/ucis/mem/mem_instance_scope.py
@@ -37,7 +37,6 @@ class MemInstanceScope(MemScope,InstanceScope):
         InstanceScope.__init__(self)
             
         self.m_du_scope = du_scope
-        self.m_cover_item_l = []
         
     def getInstanceDu(self) -> 'Scope':
         return self.m_du_scope
@@ -64,9 +63,9 @@ class MemInstanceScope(MemScope,InstanceScope):
         name:str, 
         data:CoverData, 
         sourceinfo:SourceInfo)->int:
-        ret = len(self.m_cover_item_l)
+        ret = len(self.m_cover_items)
         ci = MemCoverItem(self, name, data, sourceinfo)
-        self.m_cover_item_l.append(ci)
+        self.m_cover_items.append(ci)
         
         return ret
     
@@ -84,6 +83,6 @@ class MemInstanceScope(MemScope,InstanceScope):
         return ret
     
     def getIthCoverItem(self, i)->CoverItem:
-        return self.m_cover_item_l[i]
+        return self.m_cover_items[i]
    
     
\ No newline at end of file
-- 
2.43.0


From a820474eeaf7c39808274ff95d0e3e68741fb3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:40 +0000
Subject: [PATCH 48/54] fix: read crosses over coverpoints whose names are
 empty or begin or end with white space

---
 src/ucis/xml/xml_reader.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index 2d62135..74955ae 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -251,7 +251,7 @@ class XmlReader():
                 if cp_name not in cr_m.keys():
                     cp_l = []
                     for crossExpr in cr_e.iter("crossExpr"):
-                        cp_n = crossExpr.text.strip()
+                        cp_n = self.getCrossExpr(crossExpr, cp_m)
                         logging.debug("cp_n=\"" + cp_n + "\"")
                         if cp_n in cp_m.keys():
                             cp_l.append(cp_m[cp_n][0])
@@ -358,7 +358,7 @@ class XmlReader():
         
         cp_l = []
         for crossExpr in cr_e.iter("crossExpr"):
-            cp_n = crossExpr.text.strip()
+            cp_n = self.getCrossExpr(crossExpr, cp_m)
             logging.debug("cp_n=\"" + cp_n + "\"")
             if cp_n in cp_m.keys():
                 cp_l.append(cp_m[cp_n])
@@ -381,6 +381,11 @@ class XmlReader():
         
         return cr
 
+    def getCrossExpr(self, crossExpr, cp_m):
+        # White space may be formatting or part of the coverpoint's name
+        cp_n = crossExpr.text if crossExpr.text is not None else ""
+        return cp_n if cp_n in cp_m.keys() else cp_n.strip()
+
     def populateCrossType(self, cr_t, cr_bin_m, at_least):
         srcinfo = None
 
-- 
2.43.0


From 04c2e0550eb25bb1495280516439bc8311aa00bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:40 +0000
Subject: [PATCH 49/54] fix: write history-record costs without exponents,
 which xsd:decimal does not allow

---
 src/ucis/xml/xml_writer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ucis/xml/xml_writer.py b/src/ucis/xml/xml_writer.py
index cdad6d7..18a9d2b 100644
--- a/src/ucis/xml/xml_writer.py
+++ b/src/ucis/xml/xml_writer.py
@@ -23,6 +23,7 @@ Created on Jan 5, 2020
 import datetime
 from datetime import datetime
 from datetime import date
+from decimal import Decimal
 from typing import Dict, Iterator
 from ucis.cover_index import CoverIndex
 from ucis.cover_type_t import CoverTypeT
@@ -118,7 +119,9 @@ class XmlWriter():
             self.setIfNonNull(histN, "compulsory", h.getCompulsory())
             self.setAttrDateTime(histN, "date", h.getDate())
             self.setIfNonNull(histN, "userName", h.getUserName())
-            self.setIfNonNeg(histN, "cost", h.getCost())
+            if h.getCost() >= 0:
+                # xsd:decimal has no exponent notation
+                self.setAttr(histN, "cost", format(Decimal(str(h.getCost())), "f"))
             self.setAttr(histN, "toolCategory", h.getToolCategory())
             self.setAttr(histN, "ucisVersion", h.getUCISVersion())
             self.setAttr(histN, "vendorId", h.getVendorId())
-- 
2.43.0


From 62c82b5e9c8bc7322a14e61b65961951a12a863d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:59 +0000
Subject: [PATCH 50/54] fix: write infinite simulation times the way xsd:double
 spells them

---
 src/ucis/xml/xml_writer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ucis/xml/xml_writer.py b/src/ucis/xml/xml_writer.py
index 18a9d2b..0f0542d 100644
--- a/src/ucis/xml/xml_writer.py
+++ b/src/ucis/xml/xml_writer.py
@@ -345,7 +345,8 @@ class XmlWriter():
             
     def setIfNonNeg(self, n, attr, val):
         if val >= 0:
-            self.setAttr(n, attr, str(val))
+            # XML spells infinity differently
+            self.setAttr(n, attr, str(val) if val != float("inf") else "INF")
             
     def addId(self, ctxt, srcinfo):
         idElem = self.mkElem(ctxt, "id")
-- 
2.43.0


From 05e394f7d2fc071edcd289c48ac99321b5fa8ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:50 +0000
Subject: [PATCH 51/54] fix: read history dates with fractional seconds or a
 time zone, which xsd:dateTime allows

---
 src/ucis/xml/xml_reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index 74955ae..a280e6e 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -22,6 +22,7 @@ Created on Jan 6, 2020
 
 from datetime import datetime
 import logging
+import re
 from io import StringIO
 from logging import _srcfile
 import sys
@@ -478,7 +479,9 @@ class XmlReader():
     
     def getAttrDateTime(self, e, name):
         """Converts ISO time used by XML to the YYYYMMDDHHMMSS format used by the library"""
-        val = e.get(name)
+        # xsd:dateTime also allows fractional seconds and a time zone, 
+        # neither of which the library's format has
+        val = re.sub(r"(\.[0-9]+)?(Z|[+-][0-9]{2}:[0-9]{2})?$", "", e.get(name).strip())
         dateVal = datetime.strptime(val,"%Y-%m-%dT%H:%M:%S")
         return dateVal.strftime("%Y%m%d%H%M%S")
     
-- 
2.43.0


From bc638518a9bd84f59123197a41701ff6cf14b74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:50 +0000
Subject: [PATCH 52/54] fix: read cross expressions that contain comments

---
 src/ucis/xml/xml_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index a280e6e..ef9972a 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -384,7 +384,8 @@ class XmlReader():
 
     def getCrossExpr(self, crossExpr, cp_m):
         # White space may be formatting or part of the coverpoint's name
-        cp_n = crossExpr.text if crossExpr.text is not None else ""
+        # and comments may divide it
+        cp_n = "".join(crossExpr.xpath("text()"))
         return cp_n if cp_n in cp_m.keys() else cp_n.strip()
 
     def populateCrossType(self, cr_t, cr_bin_m, at_least):
-- 
2.43.0


From 9fad8c9d5f63274fafe0fb43c86a03a96de254e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:23 +0000
Subject: [PATCH 53/54] fix: create the directory of a directory-type report
 when it does not exist yet

---
 src/ucis/cmd/cmd_report.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ucis/cmd/cmd_report.py b/src/ucis/cmd/cmd_report.py
index 559e67d..a307fee 100644
--- a/src/ucis/cmd/cmd_report.py
+++ b/src/ucis/cmd/cmd_report.py
@@ -47,13 +47,13 @@ def report(args):
                 if os.path.isdir(args.out):
                     print("Note: removing existing report directory (%s)" % args.out)
                     shutil.rmtree(args.out)
-                    os.makedirs(args.out)
-                    fp = args.out
                 else:
-                    raise Exception("Output format %s requires a directory, but specified destination is a file" % (
+                    raise Exception("Output format %s requires a directory, but specified destination is a file: %s" % (
                         args.output_format,
                         args.out
                     ))
+            os.makedirs(args.out)
+            fp = args.out
         else:
             raise Exception("Output format %s is ambiguous about output location: %s" % (
                 args.output_format,
-- 
2.43.0


From a9f38b54a4f05876695cdc0c99e41ef2611281e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:50 +0000
Subject: [PATCH 54/54] fix: refuse a YAML cross over a coverpoint that its own
 instance does not have

---
 src/ucis/yaml/yaml_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ucis/yaml/yaml_reader.py b/src/ucis/yaml/yaml_reader.py
index 0b4fbc3..1c8a165 100644
--- a/src/ucis/yaml/yaml_reader.py
+++ b/src/ucis/yaml/yaml_reader.py
@@ -249,8 +249,9 @@ class YamlReader(object):
             self.record_cross(cg_t_scope, cp_l, cr)
 
         # Now, write out instances
-        cp_n_scope_m = {}
         for i in cg_t.instances if cg_t.instances is not None else []:
+            # A cross refers to the coverpoints of its own instance
+            cp_n_scope_m = {}
             cg_i_scope = cg_t_scope.createCoverInstance(
                 str(i.name),
                 cg_location,
-- 
2.43.0

