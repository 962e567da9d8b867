From 61839838956ae533a399931889f026138e99df4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:25:33 +0000
Subject: [PATCH 01/83] fix: split text input on newlines only

Lines were split with str.splitlines, which also breaks a record on form
feeds, \x1c-\x1e, \x85 and \u2028. Whether a blank line was delivered
depended on where a block boundary fell. Split on newlines and skip blank
lines everywhere.
---
 .../deepgnn/graph_engine/_adl_reader.py       | 25 ++++++++-----------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/_adl_reader.py b/src/python/deepgnn/graph_engine/_adl_reader.py
index d2417e6..a247c36 100644
--- a/src/python/deepgnn/graph_engine/_adl_reader.py
+++ b/src/python/deepgnn/graph_engine/_adl_reader.py
@@ -17,6 +17,13 @@ from deepgnn.graph_engine._base import get_fs
 LINE_DELIMITER = int.from_bytes(b"\n", "little")
 
 
+def _decode_lines(data) -> List[str]:
+    # only "\n" and "\r\n" end a line: str.splitlines would also break records
+    # on other separators, such as \x0b, \x1c, \x85 or \u2028. Blank lines are skipped.
+    lines = (line.rstrip("\r") for line in data.decode("utf-8").split("\n"))
+    return [line for line in lines if len(line) > 0]
+
+
 # A indicator which is put to the queue with the count.
 # __next__ function in iterable will get each queue item
 # till reach the end which is specified by this indicator.
@@ -182,10 +189,8 @@ class TextFileIterator:
                     sub_block[last_delim_index + 1 :]
                 )
                 if last_delim_index != first_delim_index:
-                    decoded_buf[index]["lines"] = (
+                    decoded_buf[index]["lines"] = _decode_lines(
                         sub_block[first_delim_index + 1 : last_delim_index]
-                        .decode("utf-8")
-                        .splitlines()
                     )
 
             len_to_read = self.get_length_to_read()
@@ -237,9 +242,7 @@ class TextFileIterator:
             if cur_buf["suffix"] is not None:
                 if head_block["suffix"] is not None:
                     # there is '\n' in head block, concat the current prefix and head's suffix and decode.
-                    head_block["lines"].extend(
-                        head_buf.decode("utf-8").splitlines(False)
-                    )
+                    head_block["lines"].extend(_decode_lines(head_buf))
 
                 # concat lines in current block into head block
                 head_block["lines"].extend(cur_buf["lines"])
@@ -380,20 +383,14 @@ class TextFileIterator:
             self.outputs.task_done()
             # if the head is finish indicator, convert the remaining unprocessed bytes to string and return
             if type(head) is FetchDone:
-                if len(self.remain_bytes) != 0:
-                    line = self.remain_bytes.decode("utf-8").strip("\r\n")
-                    if len(line) > 0:
-                        buf.append(line)
+                buf.extend(_decode_lines(self.remain_bytes))
                 break
 
             if len(head["prefix"]) > 0:
                 self.remain_bytes += head["prefix"]
 
             if head["suffix"] is not None:
-                if len(self.remain_bytes) > 0:
-                    self.remain_lines.extend(
-                        self.remain_bytes.decode("utf-8").splitlines(False)
-                    )
+                self.remain_lines.extend(_decode_lines(self.remain_bytes))
                 self.remain_lines.extend(head["lines"])
                 self.remain_bytes = head["suffix"]
 
-- 
2.43.0


From 57cf459ad3a3c8996a15cbb4b778043acca09c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:25:33 +0000
Subject: [PATCH 02/83] fix: report read errors of the text file iterator

An exception in a reader thread was dropped: the lines of that block were
lost, or the consumer waited forever. Pass it to the consumer instead.
---
 .../deepgnn/graph_engine/_adl_reader.py       | 36 +++++++++++++++----
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/_adl_reader.py b/src/python/deepgnn/graph_engine/_adl_reader.py
index a247c36..d213184 100644
--- a/src/python/deepgnn/graph_engine/_adl_reader.py
+++ b/src/python/deepgnn/graph_engine/_adl_reader.py
@@ -196,21 +196,29 @@ class TextFileIterator:
             len_to_read = self.get_length_to_read()
             sub_len = len_to_read // self.thread_count
             last_id = self.thread_count - 1
-            for thread_idx in range(last_id):
+            reads = [
                 pool.submit(
                     _read_block_worker,
                     thread_idx,
                     self.offset + (thread_idx * sub_len),
                     sub_len,
                 )
+                for thread_idx in range(last_id)
+            ]
 
-            pool.submit(
-                _read_block_worker,
-                last_id,
-                self.offset + (last_id * sub_len),
-                len_to_read - last_id * sub_len,
+            reads.append(
+                pool.submit(
+                    _read_block_worker,
+                    last_id,
+                    self.offset + (last_id * sub_len),
+                    len_to_read - last_id * sub_len,
+                )
             )
 
+        # a failed read must not look like a short one.
+        for read in reads:
+            read.result()
+
         # merge the prefix and suffix between blocks.
         # first we get the head block of the block list,
         # then we will concat each block after the head into head block.
@@ -257,6 +265,16 @@ class TextFileIterator:
         return 0
 
     def _read_block(self):
+        try:
+            self._read_all_blocks()
+        except Exception as err:
+            # hand the error to the consumer, it is waiting for the next block.
+            # Drop the traceback: its frames refer to this iterator, and such a cycle would
+            # leave __del__ to the garbage collector, which may run it in any thread.
+            self.stop = True
+            self.outputs.put(FetchDone(exception=err.with_traceback(None)))
+
+    def _read_all_blocks(self):
         while not self.stop:
             # try to read some data from current file using multi-threading
             block = self._read_block_by_threads()
@@ -383,6 +401,12 @@ class TextFileIterator:
             self.outputs.task_done()
             # if the head is finish indicator, convert the remaining unprocessed bytes to string and return
             if type(head) is FetchDone:
+                if head.exception_info is not None:
+                    self.end = True
+                    try:
+                        raise head.exception_info
+                    finally:
+                        del head
                 buf.extend(_decode_lines(self.remain_bytes))
                 break
 
-- 
2.43.0


From b0626c6e11b2e863d59a0c7e9169bfc3265093ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:17:41 +0000
Subject: [PATCH 03/83] fix: accept JSON nodes without an edge list

The documented temporal node example has no "edge" field and could not be
converted.
---
 src/python/deepgnn/graph_engine/snark/decoders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/snark/decoders.py b/src/python/deepgnn/graph_engine/snark/decoders.py
index c224f96..47dceca 100644
--- a/src/python/deepgnn/graph_engine/snark/decoders.py
+++ b/src/python/deepgnn/graph_engine/snark/decoders.py
@@ -423,7 +423,7 @@ class JsonDecoder(Decoder):
                 ),
             )
 
-        for edge in sort_edges(data["edge"]):
+        for edge in sort_edges(data.get("edge", [])):
             removed_at = (
                 node_removed_at if "removed_at" not in edge else edge["removed_at"]
             )
-- 
2.43.0


From da52dbe44abbd222418aef6f5330ce67b848022b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:17:41 +0000
Subject: [PATCH 04/83] fix: finish a queue dispatcher that runs in threads

join() called terminate() on threads and failed after all data was written.
---
 src/python/deepgnn/graph_engine/snark/dispatcher.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/snark/dispatcher.py b/src/python/deepgnn/graph_engine/snark/dispatcher.py
index 74c9e2a..9378455 100755
--- a/src/python/deepgnn/graph_engine/snark/dispatcher.py
+++ b/src/python/deepgnn/graph_engine/snark/dispatcher.py
@@ -385,7 +385,9 @@ class QueueDispatcher(Dispatcher):
                         pass
 
         for p in self.processes:
-            p.terminate()
+            # threads can't be terminated, idle ones are daemons.
+            if isinstance(p, mp.Process):
+                p.terminate()
 
     def prop(self, name: str) -> typing.Any:
         """Properties relevant for conversion.
-- 
2.43.0


From 92574f5cffadf694eedc89342b2c198ef9559a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:22:29 +0000
Subject: [PATCH 05/83] fix: keep dispatcher queues open until threads have
 drained them

QueueDispatcher closed its input queues before the workers had read them.
With threads the reader is the same object, so the conversion never ended.
---
 src/python/deepgnn/graph_engine/snark/dispatcher.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/snark/dispatcher.py b/src/python/deepgnn/graph_engine/snark/dispatcher.py
index 9378455..1606b7c 100755
--- a/src/python/deepgnn/graph_engine/snark/dispatcher.py
+++ b/src/python/deepgnn/graph_engine/snark/dispatcher.py
@@ -331,7 +331,6 @@ class QueueDispatcher(Dispatcher):
         """Wrapup conversion."""
         for i in self.active_partitions:
             self.q_in[i].put(FLAG_ALL_DONE)
-            self.q_in[i].close()
 
         for _ in self.active_partitions:
             flag, output = self.q_out.get()
@@ -348,6 +347,9 @@ class QueueDispatcher(Dispatcher):
             self.partitions.append(output["partition"])
 
             assert flag == FLAG_WORKER_FINISHED_PROCESSING
+        # threads read from the same queue objects, so close them only after all data was processed.
+        for i in self.active_partitions:
+            self.q_in[i].close()
         self.q_out.close()
 
         for p in self.partitions:
-- 
2.43.0


From 37b09a0be810e9c6baaf31f9b078d3659051eb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:32:01 +0000
Subject: [PATCH 06/83] fix: give every input file to a converter worker that
 owns a partition

With some partition and worker counts the last workers had no partition.
Their share of the input was read by nobody and left out of the graph.
---
 .../deepgnn/graph_engine/snark/convert.py     | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/convert.py b/src/python/deepgnn/graph_engine/snark/convert.py
index 855f82a..4c5cee5 100755
--- a/src/python/deepgnn/graph_engine/snark/convert.py
+++ b/src/python/deepgnn/graph_engine/snark/convert.py
@@ -4,7 +4,6 @@
 """Conversion functions to internal binary format."""
 from typing import Optional
 import multiprocessing as mp
-import math
 from operator import add
 import fsspec
 import json
@@ -83,13 +82,23 @@ class MultiWorkersConverter:
 
         self.fs, _ = get_fs(graph_path)
 
+        # workers without a partition have nowhere to write, so they don't get input files either.
+        self.worker_count = min(self.worker_count, partition_count)
+
         # calculate the partition offset and count of this worker.
+        self.partition_offset = (
+            partition_count * worker_index // self.worker_count
+            if not self._debug
+            else 0
+        )
         self.partition_count = (
-            int(math.ceil(partition_count / worker_count)) if not self._debug else 1
+            partition_count * (worker_index + 1) // self.worker_count
+            - self.partition_offset
+            if not self._debug
+            else 1
         )
-        self.partition_offset = self.partition_count * worker_index
-        if self.partition_offset + self.partition_count > partition_count:
-            self.partition_count = partition_count - self.partition_offset
+        if worker_index >= self.worker_count and not self._debug:
+            self.partition_count = 0
 
         if self.dispatcher is None and not self._debug:
             # when converting data in HDFS make sure to turn it off: https://hdfs3.readthedocs.io/en/latest/limitations.html
-- 
2.43.0


From 11b885fae488a060ee46df31ac1b5c664ad70b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:32:39 +0000
Subject: [PATCH 07/83] fix: keep the weights of partitions apart when merging
 metadata

All partitions of a worker shared one list of weights, so each of them got
the sum over all partitions.
---
 src/python/deepgnn/graph_engine/snark/meta_merger.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/meta_merger.py b/src/python/deepgnn/graph_engine/snark/meta_merger.py
index ad5f082..4b8d412 100644
--- a/src/python/deepgnn/graph_engine/snark/meta_merger.py
+++ b/src/python/deepgnn/graph_engine/snark/meta_merger.py
@@ -55,8 +55,12 @@ class Meta:
         self.node_feature_count = meta["node_feature_count"]
         self.edge_feature_count = meta["edge_feature_count"]
         self.partition_count = len(meta["partitions"])
-        self.node_weights = [[0.0] * self.node_type_count] * self.partition_count
-        self.edge_weights = [[0.0] * self.edge_type_count] * self.partition_count
+        self.node_weights = [
+            [0.0] * self.node_type_count for _ in range(self.partition_count)
+        ]
+        self.edge_weights = [
+            [0.0] * self.edge_type_count for _ in range(self.partition_count)
+        ]
         for j, id in enumerate(meta["partitions"]):
             for i in range(self.node_type_count):
                 self.node_weights[j][i] += meta["partitions"][id]["node_weight"][i]
-- 
2.43.0


From 8ae1859d0c3321f11d11eb194f4fbd4182c5b797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:32:39 +0000
Subject: [PATCH 08/83] fix: keep partition ids when merging metadata

Partitions were renumbered in the order of file names, where meta_10.json
comes before meta_2.json, so weights were assigned to other partitions.
---
 src/python/deepgnn/graph_engine/snark/meta_merger.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/snark/meta_merger.py b/src/python/deepgnn/graph_engine/snark/meta_merger.py
index 4b8d412..a0f36d8 100644
--- a/src/python/deepgnn/graph_engine/snark/meta_merger.py
+++ b/src/python/deepgnn/graph_engine/snark/meta_merger.py
@@ -54,7 +54,8 @@ class Meta:
         self.edge_type_count = meta["edge_type_count"]
         self.node_feature_count = meta["node_feature_count"]
         self.edge_feature_count = meta["edge_feature_count"]
-        self.partition_count = len(meta["partitions"])
+        self.partition_ids = list(meta["partitions"])
+        self.partition_count = len(self.partition_ids)
         self.node_weights = [
             [0.0] * self.node_type_count for _ in range(self.partition_count)
         ]
@@ -99,8 +100,12 @@ def merge(fs, output_dir: str, meta_list: List[Meta]):
     }
     offset = 0
     content["partitions"] = {}
+    ids = [id for i in meta_list for id in i.partition_ids]
     for i in meta_list:
         data, offset = i.get_partition(offset)
+        # Keep names of partitions unless workers named them alike.
+        if len(set(ids)) == len(ids):
+            data = dict(zip(i.partition_ids, data.values()))
         content["partitions"].update(data)
 
     content["node_count_per_type"] = [
-- 
2.43.0


From 3e2a69aa2a64d84a02a6f6cba3433dce14643027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:32:39 +0000
Subject: [PATCH 09/83] fix: merge metadata of workers that saw different types

The number of types and features was taken from the first worker. Workers
with fewer types made the merge fail, types of later workers were lost.
---
 .../deepgnn/graph_engine/snark/meta_merger.py | 29 ++++++++++++-------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/meta_merger.py b/src/python/deepgnn/graph_engine/snark/meta_merger.py
index a0f36d8..5938694 100644
--- a/src/python/deepgnn/graph_engine/snark/meta_merger.py
+++ b/src/python/deepgnn/graph_engine/snark/meta_merger.py
@@ -17,10 +17,10 @@ from deepgnn.graph_engine._base import get_fs
 # binary_version          equal
 # node_count              additive
 # edge_count              additive
-# node_type_count         equal
-# edge_type_count         equal
-# node_feature_count      equal
-# edge_feature_count      equal
+# node_type_count         max
+# edge_type_count         max
+# node_feature_count      max
+# edge_feature_count      max
 # node weight             additive
 # edge weight             additive
 # node count              additive
@@ -88,14 +88,23 @@ def merge(fs, output_dir: str, meta_list: List[Meta]):
     assert all(
         map(lambda x: x.version == meta_list[0].version, meta_list)
     ), "All partitions must have the same binary version"
+    node_type_count = max(int(i.node_type_count) for i in meta_list)
+    edge_type_count = max(int(i.edge_type_count) for i in meta_list)
+    for i in meta_list:
+        # Workers don't know about types they haven't seen.
+        for per_type in [*i.node_weights, i.node_count_per_type]:
+            per_type.extend([0] * (node_type_count - len(per_type)))
+        for per_type in [*i.edge_weights, i.edge_count_per_type]:
+            per_type.extend([0] * (edge_type_count - len(per_type)))
+
     content = {
         "binary_data_version": meta_list[0].version,
         "node_count": sum([i.node_count for i in meta_list]),
         "edge_count": sum([i.edge_count for i in meta_list]),
-        "node_type_count": meta_list[0].node_type_count,
-        "edge_type_count": meta_list[0].edge_type_count,
-        "node_feature_count": int(meta_list[0].node_feature_count),
-        "edge_feature_count": int(meta_list[0].edge_feature_count),
+        "node_type_count": node_type_count,
+        "edge_type_count": edge_type_count,
+        "node_feature_count": max(int(i.node_feature_count) for i in meta_list),
+        "edge_feature_count": max(int(i.edge_feature_count) for i in meta_list),
         "watermark": int(meta_list[0].watermark),
     }
     offset = 0
@@ -110,11 +119,11 @@ def merge(fs, output_dir: str, meta_list: List[Meta]):
 
     content["node_count_per_type"] = [
         sum([i.node_count_per_type[count] for i in meta_list])
-        for count in range(int(meta_list[0].node_type_count))
+        for count in range(node_type_count)
     ]
     content["edge_count_per_type"] = [
         sum([i.edge_count_per_type[count] for i in meta_list])
-        for count in range(int(meta_list[0].edge_type_count))
+        for count in range(edge_type_count)
     ]
 
     with fs.open("{}/meta.json".format(output_dir), "w") as file:
-- 
2.43.0


From e96c4b700a5a367199d3e461cf4c3d3faae95528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:12 +0000
Subject: [PATCH 10/83] fix: add empty sampling tables for types of other
 workers

Samplers open a table for every type of the graph. A partition converted by
a worker that had not seen a type lacked its file, so sampling failed.
---
 .../deepgnn/graph_engine/snark/meta_merger.py      | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/python/deepgnn/graph_engine/snark/meta_merger.py b/src/python/deepgnn/graph_engine/snark/meta_merger.py
index 5938694..b3844a8 100644
--- a/src/python/deepgnn/graph_engine/snark/meta_merger.py
+++ b/src/python/deepgnn/graph_engine/snark/meta_merger.py
@@ -9,6 +9,7 @@ import json
 import fsspec
 
 from deepgnn.graph_engine._base import get_fs
+from deepgnn.graph_engine.snark.meta import _Element, _get_element_alias_path
 
 # Content of sample meta.json
 
@@ -126,6 +127,19 @@ def merge(fs, output_dir: str, meta_list: List[Meta]):
         for count in range(edge_type_count)
     ]
 
+    for element, type_count in [
+        (_Element.NODE, node_type_count),
+        (_Element.EDGE, edge_type_count),
+    ]:
+        # Samplers expect a table for every type, unless all of them were skipped.
+        if len(fs.glob(_get_element_alias_path(element, output_dir, -1, "*"))) == 0:
+            continue
+        for id in content["partitions"]:
+            for tp in range(type_count):
+                path = _get_element_alias_path(element, output_dir, tp, id)
+                if not fs.exists(path):
+                    fs.touch(path)
+
     with fs.open("{}/meta.json".format(output_dir), "w") as file:
         file.write(json.dumps(content))
 
-- 
2.43.0


From 3dc2c1f75e16782f3d61696c23d871a82e2922d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:37:53 +0000
Subject: [PATCH 11/83] fix: parse boolean features of edge lists

Every value became True, because any non empty string counts as true.
---
 src/python/deepgnn/graph_engine/snark/decoders.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/deepgnn/graph_engine/snark/decoders.py b/src/python/deepgnn/graph_engine/snark/decoders.py
index 47dceca..0c27ebd 100644
--- a/src/python/deepgnn/graph_engine/snark/decoders.py
+++ b/src/python/deepgnn/graph_engine/snark/decoders.py
@@ -225,6 +225,9 @@ class EdgeListDecoder(Decoder):
                     break
             return output
         else:
+            if key == "bool":
+                # any non empty string is True for numpy.
+                data = (v.strip().lower() in ("1", "true") for v in data)
             # type: ignore
             return np.fromiter(data, count=length_single, dtype=key)
 
-- 
2.43.0


From 6550143711d7e3b86d1af8508048b547e2876dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:38:08 +0000
Subject: [PATCH 12/83] fix: decode TSV edges that leave out the edge type

The default of an empty or missing type was used for the edge itself, but
sorting the edges failed on it.
---
 src/python/deepgnn/graph_engine/snark/decoders.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/snark/decoders.py b/src/python/deepgnn/graph_engine/snark/decoders.py
index 0c27ebd..e569baa 100644
--- a/src/python/deepgnn/graph_engine/snark/decoders.py
+++ b/src/python/deepgnn/graph_engine/snark/decoders.py
@@ -535,7 +535,8 @@ class TsvDecoder(Decoder):
 
         def order(edge):
             edge_items = edge.split(",")
-            return int(edge_items[1]), int(edge_items[0])
+            edge_type = edge_items[1] if len(edge_items) > 1 else ""
+            return int(edge_type) if edge_type else 0, int(edge_items[0])
 
         for n in sorted(neighbors, key=order):
             neighbor_columns = n.split(",")
-- 
2.43.0


From 72e154095fa9caa17aa804b4ef25cfb98ec4cb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:47:14 +0000
Subject: [PATCH 13/83] fix: serialize binary and sparse temporal features

Temporal features could only hold dense values with an explicit creation
time. Binary and sparse values raised an error, and so did values that
rely on the creation time of their node.
---
 .../deepgnn/graph_engine/snark/decoders.py    | 31 ++++++++++++++++---
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/decoders.py b/src/python/deepgnn/graph_engine/snark/decoders.py
index e569baa..4be4564 100644
--- a/src/python/deepgnn/graph_engine/snark/decoders.py
+++ b/src/python/deepgnn/graph_engine/snark/decoders.py
@@ -9,6 +9,8 @@ from typing import TypeVar, Iterator, Tuple, Optional, List, Union
 
 import numpy as np
 
+from deepgnn.graph_engine.snark.converter.writers import convert_features
+
 
 class Decoder(abc.ABC):
     """Interface to convert one line of text into node object."""
@@ -341,13 +343,34 @@ class JsonDecoder(Decoder):
         count = data[0:4].view(dtype=np.int32)
         count[0] = interval_count
         temporal_metadata = data[4:].view(dtype=np.int64)
+        # Values without a creation time appear together with their node or edge.
+        item = [{"created_at": created_at, **it} for it in item]
         for idx, it in enumerate(sorted(item, key=lambda x: x["created_at"])):
             temporal_metadata[idx] = int(it["created_at"])
             temporal_metadata[idx + interval_count] = data.size
-            vals = np.array(it["values"], dtype=self.convert_map[key]).view(
-                dtype=np.byte
-            )
-            data = np.concatenate((data, vals))
+            if key == "binary_feature":
+                values = it["values"]
+                raw = bytes(
+                    values if isinstance(values, str) else "".join(values), "utf-8"
+                )
+            elif key.startswith("sparse"):
+                raw = (
+                    convert_features(
+                        [
+                            (
+                                np.array(it["coordinates"], dtype=np.int64),
+                                np.array(
+                                    it["values"],
+                                    dtype=self.convert_map[key.replace("sparse_", "")],
+                                ),
+                            )
+                        ]
+                    )[0]
+                    or b""
+                )
+            else:
+                raw = np.array(it["values"], dtype=self.convert_map[key]).tobytes()
+            data = np.concatenate((data, np.frombuffer(raw, dtype=np.byte)))
             temporal_metadata = data[4:original_len].view(dtype=np.int64)
             if "removed_at" in it:
                 removed_at = max(removed_at, int(it["removed_at"]))
-- 
2.43.0


From ab739639d1e49fa074184dae39e65988b131e0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:47:14 +0000
Subject: [PATCH 14/83] fix: use edge times as defaults of its temporal
 features

The creation time of a feature value without one of its own was taken
from the source node.
---
 src/python/deepgnn/graph_engine/snark/decoders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/snark/decoders.py b/src/python/deepgnn/graph_engine/snark/decoders.py
index 4be4564..3a07529 100644
--- a/src/python/deepgnn/graph_engine/snark/decoders.py
+++ b/src/python/deepgnn/graph_engine/snark/decoders.py
@@ -459,7 +459,7 @@ class JsonDecoder(Decoder):
             yield edge["src_id"], edge["dst_id"], edge["edge_type"], edge[
                 "weight"
             ], created_at, removed_at, self._pull_features(
-                edge, node_created_at, node_removed_at
+                edge, created_at, removed_at
             )
 
 
-- 
2.43.0


From f24f37acfcee50db1f84c5da9ba78faca00d4f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:47:14 +0000
Subject: [PATCH 15/83] fix: sort edges by the times they inherit from the node

Edges without times of their own were ordered as if they were created
and removed at 0. The engine expects edges ordered by their lifetimes.
---
 .../deepgnn/graph_engine/snark/decoders.py    | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/decoders.py b/src/python/deepgnn/graph_engine/snark/decoders.py
index 3a07529..f5e425a 100644
--- a/src/python/deepgnn/graph_engine/snark/decoders.py
+++ b/src/python/deepgnn/graph_engine/snark/decoders.py
@@ -435,19 +435,16 @@ class JsonDecoder(Decoder):
         )
 
         def sort_edges(edge_list):
-            return sorted(
-                edge_list,
-                key=lambda edge: (
+            def edge_key(edge):
+                removed_at = edge.get("removed_at", node_removed_at)
+                return (
                     edge["edge_type"],
-                    edge.get("created_at", 0),
-                    (
-                        edge.get("removed_at", 0)
-                        if edge.get("removed_at") != -1
-                        else float("inf")
-                    ),
+                    edge.get("created_at", node_created_at),
+                    removed_at if removed_at != -1 else float("inf"),
                     edge["dst_id"],
-                ),
-            )
+                )
+
+            return sorted(edge_list, key=edge_key)
 
         for edge in sort_edges(data.get("edge", [])):
             removed_at = (
-- 
2.43.0


From 9c02c17ee5e288b3fe45cf7a45f5397fe42f0937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:47:51 +0000
Subject: [PATCH 16/83] fix: keep the lifetime of a node while its edges are
 written

An edge that arrives in another call than its node was checked against a
default lifetime. A source without a node record was checked against the
lifetime of the previous node. Times equal to 0 were replaced by
defaults, and an edge without end was accepted under a removed node.
---
 .../graph_engine/snark/converter/writers.py   | 34 ++++++++++---------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/converter/writers.py b/src/python/deepgnn/graph_engine/snark/converter/writers.py
index 0ea7a9d..a9fee1d 100644
--- a/src/python/deepgnn/graph_engine/snark/converter/writers.py
+++ b/src/python/deepgnn/graph_engine/snark/converter/writers.py
@@ -69,6 +69,9 @@ class BinaryWriter:
         self.edge_type_count: typing.List[int] = []
         self.prev_node_id: typing.Optional[int] = None
         self.prev_edge_type: typing.Optional[int] = None
+        # Default values for timestamps: node existed since the very beginning and towards the very end.
+        self.node_created_at: int = 0
+        self.node_removed_at: int = -1
 
     def add(
         self,
@@ -87,9 +90,6 @@ class BinaryWriter:
                 Each entry for a node/edge is,
                 (node_id/src, -1/dst, type, weight, created_at, removed_at, [ndarray for each feature vector or None in order of feature index]).
         """
-        # Default values for timestamps: node existed since the very beginning and towards the very end.
-        node_created_at = 0
-        node_removed_at = -1
         for src, dst, typ, weight, created_at, removed_at, features in data:
             type_num_value = typ + 1
             if dst == -1:
@@ -102,14 +102,14 @@ class BinaryWriter:
                         self.node_type_count.append(0)
                     self.node_type_num = type_num_value
                 # Fill defaults for a new node
-                node_created_at = created_at or 0
-                node_removed_at = removed_at or -1
+                self.node_created_at = 0 if created_at is None else created_at
+                self.node_removed_at = -1 if removed_at is None else removed_at
                 self.node_writer.add(
                     src,
                     typ,
                     features,
-                    None if not self.is_temporal else node_created_at,
-                    None if not self.is_temporal else node_removed_at,
+                    None if not self.is_temporal else self.node_created_at,
+                    None if not self.is_temporal else self.node_removed_at,
                 )
                 self.edge_writer.add_node()
                 self.node_alias.add(src, typ, weight)
@@ -119,12 +119,14 @@ class BinaryWriter:
             else:
                 if src != self.prev_node_id or self.prev_node_id is None:
                     self.prev_edge_type = None
+                    self.node_created_at = 0
+                    self.node_removed_at = -1
                     self.node_writer.add(
                         src,
                         -1,
                         [],
-                        None if not self.is_temporal else node_created_at,
-                        None if not self.is_temporal else node_removed_at,
+                        None if not self.is_temporal else self.node_created_at,
+                        None if not self.is_temporal else self.node_removed_at,
                     )
                     self.edge_writer.add_node()
                     self.prev_node_id = src
@@ -139,15 +141,15 @@ class BinaryWriter:
                         self.edge_type_count.append(0)
                     self.edge_type_num = type_num_value
                 assert (
-                    created_at is None or created_at >= node_created_at
-                ), f"Edge ({src}, {dst}, {typ}) was created[{created_at}] before source node[{node_created_at}]."
+                    created_at is None or created_at >= self.node_created_at
+                ), f"Edge ({src}, {dst}, {typ}) was created[{created_at}] before source node[{self.node_created_at}]."
                 assert (
                     removed_at is None
-                    or node_removed_at == -1
-                    or removed_at <= node_removed_at
-                ), f"Edge ({src}, {dst}, {typ}) was deleted[{removed_at}] after source node[{node_removed_at}]."
-                created_at = created_at or node_created_at
-                removed_at = removed_at or node_removed_at
+                    or self.node_removed_at == -1
+                    or -1 < removed_at <= self.node_removed_at
+                ), f"Edge ({src}, {dst}, {typ}) was deleted[{removed_at}] after source node[{self.node_removed_at}]."
+                created_at = self.node_created_at if created_at is None else created_at
+                removed_at = self.node_removed_at if removed_at is None else removed_at
                 self.edge_writer.add(
                     dst,
                     typ,
-- 
2.43.0


From 07fd6bec6003d8f7bf9d64f78a2f5dc94b5816ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:48:01 +0000
Subject: [PATCH 17/83] fix: convert non temporal graphs from the command line
 without times

The default watermark of -1 means that the graph is not temporal, but
the converter wrote lifetimes for every edge.
---
 src/python/deepgnn/graph_engine/snark/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/snark/convert.py b/src/python/deepgnn/graph_engine/snark/convert.py
index 4c5cee5..087f0e2 100755
--- a/src/python/deepgnn/graph_engine/snark/convert.py
+++ b/src/python/deepgnn/graph_engine/snark/convert.py
@@ -275,6 +275,6 @@ if __name__ == "__main__":
         decoder=decoder,
         skip_node_sampler=args.skip_node_sampler,
         skip_edge_sampler=args.skip_edge_sampler,
-        watermark=args.watermark,
+        watermark=None if args.watermark == -1 else args.watermark,
     )
     c.convert()
-- 
2.43.0


From bda44f25cb7819f6aa315465bbad4e28baefdfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:48:01 +0000
Subject: [PATCH 18/83] fix: skip sampling tables in debug conversions when
 asked to

---
 src/python/deepgnn/graph_engine/snark/convert.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/deepgnn/graph_engine/snark/convert.py b/src/python/deepgnn/graph_engine/snark/convert.py
index 087f0e2..b9dcd8c 100755
--- a/src/python/deepgnn/graph_engine/snark/convert.py
+++ b/src/python/deepgnn/graph_engine/snark/convert.py
@@ -79,6 +79,8 @@ class MultiWorkersConverter:
         self.dispatcher = dispatcher
         self.file_iterator = file_iterator
         self.watermark = watermark
+        self.skip_node_sampler = skip_node_sampler
+        self.skip_edge_sampler = skip_edge_sampler
 
         self.fs, _ = get_fs(graph_path)
 
@@ -159,6 +161,8 @@ class MultiWorkersConverter:
             writer = BinaryWriter(
                 self.output_dir,
                 0,
+                skip_node_sampler=self.skip_node_sampler,
+                skip_edge_sampler=self.skip_edge_sampler,
                 watermark=self.watermark,
             )
             for _, data in enumerate(self.file_iterator):
-- 
2.43.0


From b5b79a612b49c954456e78d85dea0bf96b691ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:11:17 +0000
Subject: [PATCH 19/83] fix: do not skip a stored edge type after a mismatch
 with the requested types

The merge of requested and stored edge types advanced the stored index in an
inner loop and then again in the outer one. A requested type stored right after
the skipped one was lost, e.g. requesting {1, 2} from a node with types {0, 2}.
---
 src/cc/lib/graph/partition.cc | 44 +++++------------------------------
 1 file changed, 6 insertions(+), 38 deletions(-)

diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index e8da9aa..34eb805 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -675,13 +675,6 @@ size_t NeighborIndexIterator(uint64_t internal_id, std::optional<Timestamp> node
         {
             break;
         }
-        for (; i < offset + nb_count && edge_types[curr_type] > m_edge_types[i]; ++i)
-        {
-        }
-        if (i == offset + nb_count)
-        {
-            break;
-        }
         // Find satisfying edge type, if exists
         if (m_edge_types[i] == edge_types[curr_type])
         {
@@ -1140,13 +1133,6 @@ void Partition::SampleNeighbor(bool return_edge_created_ts, int64_t seed, uint64
         {
             break;
         }
-        for (; i < last_type && in_edge_types[curr_type] > m_edge_types[i]; ++i)
-        {
-        }
-        if (i == last_type)
-        {
-            break;
-        }
 
         if (m_edge_types[i] == in_edge_types[curr_type])
         {
@@ -1223,14 +1209,6 @@ void Partition::SampleNeighbor(bool return_edge_created_ts, int64_t seed, uint64
             break;
         }
 
-        for (; i < last_type && in_edge_types[curr_type] > m_edge_types[i]; ++i)
-        {
-        }
-        if (i == last_type)
-        {
-            break;
-        }
-
         if (total_weight == 0 || left_over_neighbors == 0)
         {
             break;
@@ -1369,11 +1347,10 @@ void Partition::UniformSampleNeighbor(bool without_replacement, bool return_edge
     }
 }
 
-// Advance neighbor_type_index(for edges coming out of the current node) and in_edge_type_index(requested edge
-// types) until underlying types match.
-bool advance_edge_types(size_t &in_edge_type_index, size_t &neighbor_type_index,
-                        const std::span<const Type> &in_edge_types, const std::vector<Type> &neighbor_types,
-                        size_t last_type)
+// Advance in_edge_type_index(requested edge types) to the first type not smaller than the one at neighbor_type_index
+// (for edges coming out of the current node) and check if underlying types match.
+bool advance_edge_types(size_t &in_edge_type_index, size_t neighbor_type_index,
+                        const std::span<const Type> &in_edge_types, const std::vector<Type> &neighbor_types)
 {
     for (; in_edge_type_index < in_edge_types.size() &&
            in_edge_types[in_edge_type_index] < neighbor_types[neighbor_type_index];
@@ -1384,15 +1361,6 @@ bool advance_edge_types(size_t &in_edge_type_index, size_t &neighbor_type_index,
     {
         return false;
     }
-    for (; neighbor_type_index < last_type && in_edge_types[in_edge_type_index] > neighbor_types[neighbor_type_index];
-         ++neighbor_type_index)
-    {
-    }
-    if (neighbor_type_index >= last_type)
-    {
-        return false;
-    }
-
     return neighbor_types[neighbor_type_index] == in_edge_types[in_edge_type_index];
 }
 
@@ -1411,7 +1379,7 @@ void Partition::UniformSampleNeighborWithReplacement(bool return_edge_created_ts
     const auto last_type = offset + nb_count;
     for (size_t neighbor_type_index = offset; neighbor_type_index < last_type; ++neighbor_type_index)
     {
-        if (!advance_edge_types(in_edge_type_index, neighbor_type_index, in_edge_types, m_edge_types, last_type))
+        if (!advance_edge_types(in_edge_type_index, neighbor_type_index, in_edge_types, m_edge_types))
         {
             continue;
         }
@@ -1492,7 +1460,7 @@ void Partition::UniformSampleNeighborWithoutReplacement(bool return_edge_created
 
     for (size_t i = offset; i < last_type; ++i)
     {
-        if (!advance_edge_types(curr_type, i, in_edge_types, m_edge_types, last_type))
+        if (!advance_edge_types(curr_type, i, in_edge_types, m_edge_types))
         {
             continue;
         }
-- 
2.43.0


From 7b11fe5409b73a58ad311b8f6c204de0befcd687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:12:00 +0000
Subject: [PATCH 20/83] fix: return the default type for a node known only by
 its edges

A partition can hold edges of a node stored elsewhere. Its record has a
placeholder type, which the local graph returned to callers instead of
default_type. The distributed client already returns default_type.
---
 src/cc/lib/graph/graph.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cc/lib/graph/graph.cc b/src/cc/lib/graph/graph.cc
index 95de988..424f32e 100644
--- a/src/cc/lib/graph/graph.cc
+++ b/src/cc/lib/graph/graph.cc
@@ -125,6 +125,11 @@ void Graph::GetNodeType(std::span<const NodeId> node_ids, std::span<Type> output
                     break;
                 }
             }
+            // Partitions only have edges of this node.
+            if (*curr_type == snark::PLACEHOLDER_NODE_TYPE)
+            {
+                *curr_type = default_type;
+            }
         }
         ++curr_type;
     }
-- 
2.43.0


From 19b450cb37010a078ed50aeea7649cff0d68c1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:12:47 +0000
Subject: [PATCH 21/83] fix: return creation times of neighbors fetched without
 timestamps

On a temporal graph the full neighbor list without timestamps reported a
placeholder instead of the stored creation time of each edge.
---
 src/cc/lib/graph/partition.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index 34eb805..c4a2413 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -815,6 +815,10 @@ size_t Partition::FullNeighbor(bool return_edge_created_ts, uint64_t internal_id
         {
             out_edge_weights.emplace_back(index > start ? m_edge_weights[index] - m_edge_weights[index - 1]
                                                         : m_edge_weights[start]);
+            if (return_edge_created_ts && !m_edge_timestamps.empty())
+            {
+                out_edge_created_ts[original_type_size + index - start] = m_edge_timestamps[index].first;
+            }
         }
     };
 
-- 
2.43.0


From b8015655292a932310250fed8f1391bd214f0aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:17:03 +0000
Subject: [PATCH 22/83] fix: do not divide by zero when features of no nodes or
 edges are requested

---
 src/cc/lib/graph/graph.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/cc/lib/graph/graph.cc b/src/cc/lib/graph/graph.cc
index 424f32e..0e2be75 100644
--- a/src/cc/lib/graph/graph.cc
+++ b/src/cc/lib/graph/graph.cc
@@ -143,6 +143,11 @@ void Graph::GetNodeFeature(std::span<const NodeId> node_ids, std::span<const Tim
                node_ids.size() ==
            output.size());
 
+    if (node_ids.empty())
+    {
+        return;
+    }
+
     const size_t features_size = output.size() / node_ids.size();
     size_t feature_offset = 0;
     absl::InlinedVector<Timestamp, 1024> feature_flags(features.size());
@@ -266,6 +271,11 @@ void Graph::GetEdgeFeature(std::span<const NodeId> input_edge_src, std::span<con
                input_edge_src.size() ==
            output.size());
 
+    if (input_edge_src.empty())
+    {
+        return;
+    }
+
     const size_t feature_size = output.size() / input_edge_src.size();
     size_t feature_offset = 0;
     size_t edge_offset = 0;
-- 
2.43.0


From 0416f4a9ec3283fe55faaf9ab28c331a4cccb664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:17:13 +0000
Subject: [PATCH 23/83] fix: do not read string features of edges in a graph
 without edge features

The string variant lacked the check for an empty feature index its siblings have.
---
 src/cc/lib/graph/partition.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index c4a2413..d6c7777 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -1050,7 +1050,7 @@ void Partition::GetEdgeStringFeature(uint64_t internal_src_node_id, NodeId input
 
     auto file_ptr = m_edge_features->start();
     auto has_edge_features = EdgeFeatureOffset(internal_src_node_id, input_edge_dst, input_edge_type);
-    if (!has_edge_features.has_value())
+    if (!has_edge_features.has_value() || m_edge_feature_offset.empty() || m_edge_feature_index.empty())
     {
         return;
     }
-- 
2.43.0


From e4610c1713d61ad98cd7b126dde00c7c5bd3bfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:23:04 +0000
Subject: [PATCH 24/83] fix: find every edge alive at a timestamp

Neighbor counts and samplers looked for live edges with a binary search, although
edges are not ordered by removal time, and compared timestamps as 32 bit integers.
Live edges were missed or dead ones counted.
---
 src/cc/lib/graph/partition.cc | 36 +++++++++++------------------------
 1 file changed, 11 insertions(+), 25 deletions(-)

diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index d6c7777..e1b7a67 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -691,37 +691,23 @@ size_t NeighborIndexIterator(uint64_t internal_id, std::optional<Timestamp> node
 namespace
 {
 
-auto find_start(const std::span<const std::pair<Timestamp, Timestamp>> &range, Timestamp ts)
-{
-    if (range.empty())
-    {
-        return std::end(range);
-    }
-
-    if (range.front().first <= ts && (range.front().second > ts || range.front().second == -1))
-    {
-        return std::begin(range);
-    }
+using cspan_it = std::span<const std::pair<Timestamp, Timestamp>>::iterator;
 
-    ts = std::max(ts, range.front().second);
-    return std::lower_bound(
-        std::begin(range), std::end(range), ts,
-        [](const std::pair<Timestamp, Timestamp> &a, int x) { return a.second != -1 && a.second <= x; });
+bool is_alive(const std::pair<Timestamp, Timestamp> &edge, Timestamp ts)
+{
+    return edge.first <= ts && (edge.second > ts || edge.second == -1);
 }
 
-using cspan_it = std::span<const std::pair<Timestamp, Timestamp>>::iterator;
+// First edge alive at ts. Edges are not ordered by their removal time, so we can't use binary search.
+cspan_it find_start(const std::span<const std::pair<Timestamp, Timestamp>> &range, Timestamp ts)
+{
+    return std::find_if(std::begin(range), std::end(range), [ts](const auto &edge) { return is_alive(edge, ts); });
+}
 
+// End of a run of edges alive at ts.
 cspan_it find_last(const std::span<const std::pair<Timestamp, Timestamp>> &range, Timestamp ts)
 {
-    if (range.front().first > ts)
-    {
-        return std::begin(range);
-    }
-
-    auto last = range.front().second;
-    return std::upper_bound(
-        std::begin(range), std::end(range), ts,
-        [last](Timestamp ts, const std::pair<Timestamp, Timestamp> &a) { return a.second > last || a.first > ts; });
+    return std::find_if_not(std::begin(range), std::end(range), [ts](const auto &edge) { return is_alive(edge, ts); });
 }
 
 } // anonymous namespace
-- 
2.43.0


From f85669155601fd8e7ebd5faff60383aba89daf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:23:04 +0000
Subject: [PATCH 25/83] fix: do not return edges removed at the queried time as
 last created

An edge exists up to but not including its removal time, as everywhere else.
---
 src/cc/lib/graph/partition.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index e1b7a67..37592b0 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -824,7 +824,7 @@ size_t Partition::LastNCreatedNeighbors(bool return_edge_created_ts, uint64_t in
         for (size_t index = start; index < last; ++index)
         {
             auto &ts = m_edge_timestamps[index];
-            if ((ts.second != -1 && ts.second < timestamp) || ts.first > timestamp)
+            if ((ts.second != -1 && ts.second <= timestamp) || ts.first > timestamp)
             {
                 continue;
             }
-- 
2.43.0


From e04c287be2b99c63c85c247acb6f373508bd3655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:24:17 +0000
Subject: [PATCH 26/83] fix: sample without replacement from later runs of live
 edges

Runs of live edges after the first one were taken from the wrong position of
the edge list.
---
 src/cc/lib/graph/partition.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index 37592b0..88672bd 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -1461,6 +1461,7 @@ void Partition::UniformSampleNeighborWithoutReplacement(bool return_edge_created
             auto last = m_edge_type_offset[i + 1] - 1;
             ++last;
             auto timestamp_span = std::span(m_edge_timestamps).subspan(first, last - first);
+            auto global_offset = first;
             for (auto it = find_start(timestamp_span, node_ts.value());
                  it != std::end(timestamp_span) && !(it->second == -1 && it->first > node_ts.value());
                  it = find_start(timestamp_span, node_ts.value()))
@@ -1472,10 +1473,10 @@ void Partition::UniformSampleNeighborWithoutReplacement(bool return_edge_created
 
                 const auto stream_size = stream.size();
                 out_partition_count += stream_size;
-                auto dest_span = std::span(m_edge_destination).subspan(first + it_dist, stream_size);
-                auto ts_span = std::span(m_edge_timestamps).subspan(first + it_dist, stream_size);
+                auto dest_span = std::span(m_edge_destination).subspan(global_offset + it_dist, stream_size);
+                auto ts_span = std::span(m_edge_timestamps).subspan(global_offset + it_dist, stream_size);
                 sampler.add(stream_size,
-                            [&dest_span, &out_nodes, &out_types, &out_edge_created_ts, ts_span,
+                            [dest_span, &out_nodes, &out_types, &out_edge_created_ts, ts_span,
                              tp = in_edge_types[curr_type], return_edge_created_ts](size_t pick, size_t offset) {
                                 out_nodes[pick] = dest_span[offset];
                                 out_types[pick] = tp;
@@ -1492,6 +1493,7 @@ void Partition::UniformSampleNeighborWithoutReplacement(bool return_edge_created
                 }
                 const auto local_pos =
                     size_t((lst - std::begin(it_subspan)) + it_dist); // equivavlent of lst - std::begin(timestamp_span)
+                global_offset += local_pos;
                 timestamp_span = timestamp_span.subspan(local_pos);
             }
         }
-- 
2.43.0


From b675800c34ba61ce3070b0062feb8274dfa605bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:41:40 +0000
Subject: [PATCH 27/83] fix: do not write past creation times of neighbors
 sampled without replacement

When a node has more neighbors than requested the range to fill with a
placeholder started after the end of the output.
---
 src/cc/lib/graph/graph.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/cc/lib/graph/graph.cc b/src/cc/lib/graph/graph.cc
index 0e2be75..ef45e21 100644
--- a/src/cc/lib/graph/graph.cc
+++ b/src/cc/lib/graph/graph.cc
@@ -549,12 +549,11 @@ void Graph::UniformSampleNeighbor(bool without_replacement, bool return_edge_cre
                           default_node_id);
                 std::fill(std::begin(out_nb_types) + neighbors_total_count[node_index], std::end(out_nb_types),
                           default_edge_type);
-            }
-
-            if (fill_edge_ts_by_partition)
-            {
-                std::fill(std::begin(out_nb_ts) + (timestamps.empty() ? 0 : neighbors_total_count[node_index]),
-                          std::end(out_nb_ts), snark::PLACEHOLDER_TIMESTAMP);
+                if (fill_edge_ts_by_partition)
+                {
+                    std::fill(std::begin(out_nb_ts) + (timestamps.empty() ? 0 : neighbors_total_count[node_index]),
+                              std::end(out_nb_ts), snark::PLACEHOLDER_TIMESTAMP);
+                }
             }
         }
     }
-- 
2.43.0


From 634ad04e9c43f1ab26020a478c0a58c2606ff808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:44:10 +0000
Subject: [PATCH 28/83] fix: return creation times of neighbors sampled without
 timestamps

Samplers only reported creation times when timestamps were given, and the
uniform sampler was called without a place to store them.
---
 src/cc/lib/graph/graph.cc                     |  4 +--
 src/cc/lib/graph/partition.cc                 | 28 ++++++++++++++-----
 .../deepgnn/graph_engine/snark/client.py      |  8 ++----
 3 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/cc/lib/graph/graph.cc b/src/cc/lib/graph/graph.cc
index ef45e21..5513f87 100644
--- a/src/cc/lib/graph/graph.cc
+++ b/src/cc/lib/graph/graph.cc
@@ -551,8 +551,8 @@ void Graph::UniformSampleNeighbor(bool without_replacement, bool return_edge_cre
                           default_edge_type);
                 if (fill_edge_ts_by_partition)
                 {
-                    std::fill(std::begin(out_nb_ts) + (timestamps.empty() ? 0 : neighbors_total_count[node_index]),
-                              std::end(out_nb_ts), snark::PLACEHOLDER_TIMESTAMP);
+                    std::fill(std::begin(out_nb_ts) + neighbors_total_count[node_index], std::end(out_nb_ts),
+                              snark::PLACEHOLDER_TIMESTAMP);
                 }
             }
         }
diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index 88672bd..0f82cfe 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -1306,6 +1306,10 @@ void Partition::SampleNeighbor(bool return_edge_created_ts, int64_t seed, uint64
                     out_weights[pos] = nb_offset == 0
                                            ? m_edge_weights[first]
                                            : m_edge_weights[first + nb_offset] - m_edge_weights[first + nb_offset - 1];
+                    if (return_edge_created_ts && !m_edge_timestamps.empty())
+                    {
+                        out_edge_created_ts[pos] = m_edge_timestamps[first + nb_offset].first;
+                    }
                     ++pos;
                 }
 
@@ -1425,10 +1429,15 @@ void Partition::UniformSampleNeighborWithReplacement(bool return_edge_created_ts
             out_partition_count += curr_weight;
             const size_t local_offset = m_edge_type_offset[neighbor_type_index];
             auto dst_span = std::span(m_edge_destination).subspan(local_offset, curr_weight);
-            replacement_sampler.add(curr_weight, [out_nodes, out_types, tp = m_edge_types[neighbor_type_index],
-                                                  dst_span](size_t pick, size_t offset) {
+            replacement_sampler.add(curr_weight, [out_nodes, out_types, out_edge_created_ts,
+                                                  tp = m_edge_types[neighbor_type_index], dst_span, local_offset, this,
+                                                  return_edge_created_ts](size_t pick, size_t offset) {
                 out_nodes[pick] = dst_span[offset];
                 out_types[pick] = tp;
+                if (return_edge_created_ts && !m_edge_timestamps.empty())
+                {
+                    out_edge_created_ts[pick] = m_edge_timestamps[local_offset + offset].first;
+                }
             });
         }
     }
@@ -1504,11 +1513,16 @@ void Partition::UniformSampleNeighborWithoutReplacement(bool return_edge_created
             const auto stream_size = last - first;
             out_partition_count += stream_size;
             auto dest_span = std::span(m_edge_destination).subspan(first, stream_size);
-            sampler.add(dest_span.size(), [&dest_span, &out_nodes, &out_types,
-                                           tp = in_edge_types[curr_type]](size_t pick, size_t offset) {
-                out_nodes[pick] = dest_span[offset];
-                out_types[pick] = tp;
-            });
+            sampler.add(dest_span.size(),
+                        [&dest_span, &out_nodes, &out_types, &out_edge_created_ts, tp = in_edge_types[curr_type], first,
+                         this, return_edge_created_ts](size_t pick, size_t offset) {
+                            out_nodes[pick] = dest_span[offset];
+                            out_types[pick] = tp;
+                            if (return_edge_created_ts && !m_edge_timestamps.empty())
+                            {
+                                out_edge_created_ts[pick] = m_edge_timestamps[first + offset].first;
+                            }
+                        });
         }
     }
 }
diff --git a/src/python/deepgnn/graph_engine/snark/client.py b/src/python/deepgnn/graph_engine/snark/client.py
index c82129b..7dcf64c 100644
--- a/src/python/deepgnn/graph_engine/snark/client.py
+++ b/src/python/deepgnn/graph_engine/snark/client.py
@@ -1090,11 +1090,9 @@ class MemoryGraph:
             result_nodes.ctypes.data_as(POINTER(c_int64)),
             result_types.ctypes.data_as(POINTER(c_int32)),
             (
-                None
-                if timestamps is None
-                or len(timestamps) == 0
-                or (not return_edge_created_ts)
-                else result_ts.ctypes.data_as(POINTER(c_int64))
+                result_ts.ctypes.data_as(POINTER(c_int64))
+                if return_edge_created_ts
+                else None
             ),
             c_int64(default_node),
             c_int32(default_type),
-- 
2.43.0


From 199eb15af1776c527375a642e93d891cd1274418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:44:10 +0000
Subject: [PATCH 29/83] fix: do not decode an absent temporal feature from the
 data of the next one

---
 src/cc/lib/graph/partition.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index 0f82cfe..6cff142 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -35,6 +35,12 @@ std::tuple<uint64_t, uint64_t, Timestamp> deserialize_temporal_feature(uint64_t
                                                                        std::shared_ptr<snark::FilePtr> file_ptr,
                                                                        Timestamp timestamp)
 {
+    // There is nothing to read if an element doesn't have this feature.
+    if (stored_size == 0)
+    {
+        return std::make_tuple(initial_offset, 0, -1);
+    }
+
     uint32_t timestamps_size = 0;
     auto timestamps_size_output = std::span(reinterpret_cast<uint8_t *>(&timestamps_size), 4);
     storage->read(initial_offset, timestamps_size_output.size(), std::begin(timestamps_size_output), file_ptr);
-- 
2.43.0


From 37f91752eaf3d0515baa26dfd2c6a406fae2412c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:45:59 +0000
Subject: [PATCH 30/83] fix: read features of the edge alive at the requested
 time

Two nodes can be connected several times in a temporal graph. Feature queries
took the first such edge, whether or not it existed at the requested time.
---
 src/cc/lib/graph/partition.cc | 23 +++++++++++++++++++----
 src/cc/lib/graph/partition.h  |  2 +-
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index 6cff142..4082e29 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -872,7 +872,7 @@ size_t Partition::LastNCreatedNeighbors(bool return_edge_created_ts, uint64_t in
 }
 
 std::optional<size_t> Partition::EdgeFeatureOffset(uint64_t internal_src_node_id, NodeId input_edge_dst,
-                                                   Type input_edge_type) const
+                                                   Type input_edge_type, std::optional<Timestamp> edge_ts) const
 {
     auto file_ptr = m_edge_features->start();
     const auto offset = m_neighbors_index[internal_src_node_id];
@@ -902,6 +902,21 @@ std::optional<size_t> Partition::EdgeFeatureOffset(uint64_t internal_src_node_id
     auto fst = std::begin(m_edge_destination) + m_edge_type_offset[type_offset];
     auto lst = fst + tp_count;
 
+    // The same nodes can be connected several times in a temporal graph, look for the edge alive at the moment.
+    if (edge_ts.has_value() && !m_edge_timestamps.empty())
+    {
+        for (auto it = std::find(fst, lst, input_edge_dst); it != lst; it = std::find(it + 1, lst, input_edge_dst))
+        {
+            const size_t edge_offset = it - std::begin(m_edge_destination);
+            if (is_alive(m_edge_timestamps[edge_offset], edge_ts.value()))
+            {
+                return edge_offset;
+            }
+        }
+
+        return std::nullopt;
+    }
+
     // Fast path: linear search outperforms binary search for small number of elements.
     if (tp_count > 16)
     {
@@ -928,7 +943,7 @@ void Partition::GetEdgeFeature(uint64_t internal_src_node_id, NodeId input_edge_
                                std::span<Timestamp> feature_flags, std::span<uint8_t> output) const
 {
     auto file_ptr = m_edge_features->start();
-    auto has_edge_features = EdgeFeatureOffset(internal_src_node_id, input_edge_dst, input_edge_type);
+    auto has_edge_features = EdgeFeatureOffset(internal_src_node_id, input_edge_dst, input_edge_type, edge_ts);
     if (!has_edge_features.has_value() || m_edge_feature_offset.empty() || m_edge_feature_index.empty())
     {
         return;
@@ -987,7 +1002,7 @@ void Partition::GetEdgeSparseFeature(uint64_t internal_src_node_id, NodeId input
 {
     assert(features.size() == out_dimensions.size());
     auto file_ptr = m_edge_features->start();
-    auto has_edge_features = EdgeFeatureOffset(internal_src_node_id, input_edge_dst, input_edge_type);
+    auto has_edge_features = EdgeFeatureOffset(internal_src_node_id, input_edge_dst, input_edge_type, edge_ts);
     if (!has_edge_features.has_value() || m_edge_feature_offset.empty() || m_edge_feature_index.empty())
     {
         return;
@@ -1041,7 +1056,7 @@ void Partition::GetEdgeStringFeature(uint64_t internal_src_node_id, NodeId input
     assert(features.size() == out_dimensions.size());
 
     auto file_ptr = m_edge_features->start();
-    auto has_edge_features = EdgeFeatureOffset(internal_src_node_id, input_edge_dst, input_edge_type);
+    auto has_edge_features = EdgeFeatureOffset(internal_src_node_id, input_edge_dst, input_edge_type, edge_ts);
     if (!has_edge_features.has_value() || m_edge_feature_offset.empty() || m_edge_feature_index.empty())
     {
         return;
diff --git a/src/cc/lib/graph/partition.h b/src/cc/lib/graph/partition.h
index b66ce3c..bbf4ec6 100644
--- a/src/cc/lib/graph/partition.h
+++ b/src/cc/lib/graph/partition.h
@@ -105,7 +105,7 @@ struct Partition
 
   private:
     std::optional<size_t> EdgeFeatureOffset(uint64_t internal_src_node_id, NodeId input_edge_dst,
-                                            Type input_edge_type) const;
+                                            Type input_edge_type, std::optional<Timestamp> edge_ts) const;
     void ReadNodeMap(std::filesystem::path path, std::string suffix);
     void ReadNodeIndex(std::filesystem::path path, std::string suffix);
     void ReadEdges(std::filesystem::path path, std::string suffix);
-- 
2.43.0


From b1583a2d568a01f7ec6c5307e752f6288d9869ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:11:14 +0000
Subject: [PATCH 31/83] fix: answer feature requests for no nodes or edges from
 servers

The distributed client divided the size of the output by the number of
requested nodes or edges.
---
 src/cc/lib/distributed/client.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cc/lib/distributed/client.cc b/src/cc/lib/distributed/client.cc
index 0299b09..8270333 100644
--- a/src/cc/lib/distributed/client.cc
+++ b/src/cc/lib/distributed/client.cc
@@ -305,7 +305,7 @@ void GRPCClient::GetNodeFeature(std::span<const NodeId> node_ids, std::span<cons
         feature_len_prefix.emplace_back(curr_feature_prefix);
         curr_feature_prefix += feature.second;
     }
-    const size_t fv_size = output.size() / node_len;
+    const size_t fv_size = node_len == 0 ? 0 : output.size() / node_len;
     std::vector<std::future<void>> futures;
     futures.reserve(m_engine_stubs.size());
     std::vector<NodeFeaturesReply> replies(m_engine_stubs.size());
@@ -398,7 +398,7 @@ void GRPCClient::GetEdgeFeature(std::span<const NodeId> edge_src_ids, std::span<
            output.size());
     assert(len == edge_src_ids.size());
     assert(len == edge_dst_ids.size());
-    assert(output.size() % len == 0);
+    assert(len == 0 || output.size() % len == 0);
 
     EdgeFeaturesRequest request;
     *request.mutable_node_ids() = {std::begin(edge_src_ids), std::end(edge_src_ids)};
@@ -413,7 +413,7 @@ void GRPCClient::GetEdgeFeature(std::span<const NodeId> edge_src_ids, std::span<
         wire_feature->set_size(feature.second);
     }
 
-    const size_t fv_size = output.size() / len;
+    const size_t fv_size = len == 0 ? 0 : output.size() / len;
     std::vector<std::future<void>> futures;
     futures.reserve(m_engine_stubs.size());
     std::vector<EdgeFeaturesReply> replies(m_engine_stubs.size());
-- 
2.43.0


From 18147d70fdc80f1cfb9b0097bf48fac0624df46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:11:14 +0000
Subject: [PATCH 32/83] fix: keep the server's node index intact when a node is
 in several partitions

The index was extended while iterating over itself, so a reallocation
made it copy freed memory.
---
 src/cc/lib/distributed/graph_engine.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cc/lib/distributed/graph_engine.cc b/src/cc/lib/distributed/graph_engine.cc
index dd75504..47a72ce 100644
--- a/src/cc/lib/distributed/graph_engine.cc
+++ b/src/cc/lib/distributed/graph_engine.cc
@@ -763,11 +763,16 @@ void GraphEngineServiceImpl::ReadNodeMap(std::filesystem::path path, std::string
             auto old_count = m_counts[old_offset];
             m_node_map[pair[0]] = m_internal_indices.size();
 
-            std::copy_n(std::begin(m_internal_indices) + old_offset, old_count, std::back_inserter(m_internal_indices));
+            const auto old_internal_size = m_internal_indices.size();
+            m_internal_indices.resize(old_internal_size + old_count);
+            std::copy_n(std::begin(m_internal_indices) + old_offset, old_count,
+                        std::begin(m_internal_indices) + old_internal_size);
             m_internal_indices.emplace_back(pair[1]);
 
+            const auto old_size = m_partitions_indices.size();
+            m_partitions_indices.resize(old_size + old_count);
             std::copy_n(std::begin(m_partitions_indices) + old_offset, old_count,
-                        std::back_inserter(m_partitions_indices));
+                        std::begin(m_partitions_indices) + old_size);
             m_partitions_indices.emplace_back(index);
 
             std::fill_n(std::back_inserter(m_counts), old_count + 1, old_count + 1);
-- 
2.43.0


From 0ee6f4417cf052faef1841953d0a0151b5a1e6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:21:17 +0000
Subject: [PATCH 33/83] fix: bound the retry delay of the distributed client by
 maxBackoff

The number of attempts was used as the longest delay in seconds.
---
 src/python/deepgnn/graph_engine/snark/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/snark/client.py b/src/python/deepgnn/graph_engine/snark/client.py
index 7dcf64c..f9389c5 100644
--- a/src/python/deepgnn/graph_engine/snark/client.py
+++ b/src/python/deepgnn/graph_engine/snark/client.py
@@ -1428,7 +1428,7 @@ class DistributedGraph(MemoryGraph):
             wait=wait_exponential(
                 multiplier=retry_ops["backoff_multiplier"],
                 min=retry_ops["initial_backoff"],
-                max=retry_ops["max_attempts"],
+                max=retry_ops["max_backoff"],
             ),
             before=before_log(get_logger(), logging.DEBUG),
             after=after_log(get_logger(), logging.WARNING),
-- 
2.43.0


From 5577619d7cfc0eb5346d9821d80e8b0f95e0dddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:21:49 +0000
Subject: [PATCH 34/83] fix: accept fractional and long durations in the
 client's retry policy

Durations like "0.1s" or "120s" were rejected and the whole retry policy,
including the number of attempts, was replaced by defaults.
---
 .../deepgnn/graph_engine/snark/client.py      | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/client.py b/src/python/deepgnn/graph_engine/snark/client.py
index f9389c5..0ac90bc 100644
--- a/src/python/deepgnn/graph_engine/snark/client.py
+++ b/src/python/deepgnn/graph_engine/snark/client.py
@@ -41,6 +41,13 @@ from deepgnn.graph_engine.snark._downloader import download_graph_data, GraphPat
 from deepgnn.graph_engine.snark.meta import Meta
 
 
+def _parse_duration(value: str) -> float:
+    """Convert a duration from a grpc service config, e.g. "0.5s", to seconds."""
+    if not value.endswith("s"):
+        raise ValueError(f"Duration {value} must end with s")
+    return float(value[:-1])
+
+
 def _parse_grpc_options(options: List[Tuple[str, str]]) -> Dict:
     """Parse the grpc_options to use on client side retry calls."""
     for opt in options:
@@ -50,13 +57,13 @@ def _parse_grpc_options(options: List[Tuple[str, str]]) -> Dict:
                 max_attempts = int(
                     config["methodConfig"][0]["retryPolicy"]["maxAttempts"]
                 )
-                initial_backoff = datetime.strptime(
-                    config["methodConfig"][0]["retryPolicy"]["initialBackoff"], "%Ss"
-                ).second
-                max_backoff = datetime.strptime(
-                    config["methodConfig"][0]["retryPolicy"]["maxBackoff"], "%Ss"
-                ).second
-                backoff_multiplier = int(
+                initial_backoff = _parse_duration(
+                    config["methodConfig"][0]["retryPolicy"]["initialBackoff"]
+                )
+                max_backoff = _parse_duration(
+                    config["methodConfig"][0]["retryPolicy"]["maxBackoff"]
+                )
+                backoff_multiplier = float(
                     config["methodConfig"][0]["retryPolicy"]["backoffMultiplier"]
                 )
                 return {
-- 
2.43.0


From d16c079a2a6aa435f0afe29ff7f9a67d7074b178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:21:49 +0000
Subject: [PATCH 35/83] fix: wait for all servers before reporting a failed
 query

The first failed call unwound the buffers that replies of other servers
were still going to be written to.
---
 src/cc/lib/distributed/client.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cc/lib/distributed/client.cc b/src/cc/lib/distributed/client.cc
index 8270333..822bf31 100644
--- a/src/cc/lib/distributed/client.cc
+++ b/src/cc/lib/distributed/client.cc
@@ -48,6 +48,13 @@ struct AsyncClientCall
 
 void WaitForFutures(std::vector<std::future<void>> &futures)
 {
+    // Outstanding calls write to buffers owned by the caller,
+    // wait for all of them before reporting a failure.
+    for (auto &f : futures)
+    {
+        f.wait();
+    }
+
     for (auto &f : futures)
     {
         f.get();
-- 
2.43.0


From 002587102cae9e0fc09ac69d209cb387f4a86c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:23:20 +0000
Subject: [PATCH 36/83] fix: report a failed last n created neighbors request
 instead of terminating

---
 src/cc/lib/py_graph.cc | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/cc/lib/py_graph.cc b/src/cc/lib/py_graph.cc
index d92d181..9625405 100644
--- a/src/cc/lib/py_graph.cc
+++ b/src/cc/lib/py_graph.cc
@@ -857,25 +857,25 @@ int32_t LastNCreatedNeighbor(PyGraph *py_graph, bool return_edge_created_ts, Nod
         return 0;
     }
 
-    // try
-    // {
-    py_graph->graph->client->LastNCreated(
-        return_edge_created_ts, std::span(reinterpret_cast<snark::NodeId *>(in_node_ids), in_node_ids_size),
-        std::span(reinterpret_cast<snark::Type *>(in_edge_types), in_edge_types_size),
-        std::span(reinterpret_cast<snark::Timestamp *>(timestamps), in_node_ids_size), count,
-        std::span(reinterpret_cast<snark::NodeId *>(out_neighbor_ids), out_size),
-        std::span(reinterpret_cast<snark::Type *>(out_types), out_size),
-        std::span(reinterpret_cast<float *>(out_weights), out_size),
-        std::span(reinterpret_cast<Timestamp *>(out_timestamps), out_size), default_node_id, default_weight,
-        default_edge_type, default_timestamp);
+    try
+    {
+        py_graph->graph->client->LastNCreated(
+            return_edge_created_ts, std::span(reinterpret_cast<snark::NodeId *>(in_node_ids), in_node_ids_size),
+            std::span(reinterpret_cast<snark::Type *>(in_edge_types), in_edge_types_size),
+            std::span(reinterpret_cast<snark::Timestamp *>(timestamps), in_node_ids_size), count,
+            std::span(reinterpret_cast<snark::NodeId *>(out_neighbor_ids), out_size),
+            std::span(reinterpret_cast<snark::Type *>(out_types), out_size),
+            std::span(reinterpret_cast<float *>(out_weights), out_size),
+            std::span(reinterpret_cast<Timestamp *>(out_timestamps), out_size), default_node_id, default_weight,
+            default_edge_type, default_timestamp);
 
-    return 0;
-    // }
-    // catch (const std::exception &e)
-    // {
-    //     RAW_LOG_ERROR("Exception while selecting last n created neighbors: %s", e.what());
-    //     return 1;
-    // }
+        return 0;
+    }
+    catch (const std::exception &e)
+    {
+        RAW_LOG_ERROR("Exception while selecting last n created neighbors: %s", e.what());
+        return 1;
+    }
 }
 
 // Expected length of out_node_ids buffer is (walk_length + 1) * in_node_ids_size
-- 
2.43.0


From 5490f85233b620f7fbea99ac5823d482d923b7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:23:20 +0000
Subject: [PATCH 37/83] fix: report a failure to connect to servers instead of
 terminating

---
 src/cc/lib/py_graph.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/cc/lib/py_graph.cc b/src/cc/lib/py_graph.cc
index 9625405..7205fbe 100644
--- a/src/cc/lib/py_graph.cc
+++ b/src/cc/lib/py_graph.cc
@@ -306,10 +306,18 @@ int32_t CreateRemoteClient(PyGraph *py_graph, const char *output_folder, const c
         channels.emplace_back(grpc::CreateCustomChannel(connection[i], creds, args));
     }
 
-    py_graph->graph->client =
-        std::make_unique<snark::GRPCClient>(std::move(channels), uint32_t(num_threads), uint32_t(num_threads_per_cq));
-    py_graph->graph->client->WriteMetadata(output_folder);
-    return 0;
+    try
+    {
+        py_graph->graph->client = std::make_unique<snark::GRPCClient>(std::move(channels), uint32_t(num_threads),
+                                                                      uint32_t(num_threads_per_cq));
+        py_graph->graph->client->WriteMetadata(output_folder);
+        return 0;
+    }
+    catch (const std::exception &e)
+    {
+        RAW_LOG_ERROR("Exception while connecting to servers: %s", e.what());
+        return 1;
+    }
 }
 
 std::vector<snark::FeatureMeta> ExtractFeatureInfo(Feature *features, size_t features_size)
-- 
2.43.0


From 321ee41eac9a822f33e7726d1ff67406dad84978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:23:20 +0000
Subject: [PATCH 38/83] fix: report servers failing during random walks and ppr
 sampling

Failed neighbor requests were ignored: walks ended early and ppr scores
were computed without the missing neighbors.
---
 src/cc/lib/py_graph.cc | 58 ++++++++++++++++++++++++++++++------------
 1 file changed, 42 insertions(+), 16 deletions(-)

diff --git a/src/cc/lib/py_graph.cc b/src/cc/lib/py_graph.cc
index 7205fbe..1761a68 100644
--- a/src/cc/lib/py_graph.cc
+++ b/src/cc/lib/py_graph.cc
@@ -943,8 +943,14 @@ int32_t RandomWalk(PyGraph *py_graph, int64_t seed, float p, float q, NodeID def
         weights.resize(0);
         types.resize(0);
         edge_created_ts.resize(0);
-        GetNeighborsInternal(py_graph, false, curr_nodes.data(), curr_nodes.size(), timestamps, in_edge_types,
-                             in_edge_types_size, curr_counts.data(), neighbors, types, weights, edge_created_ts);
+        const auto res = GetNeighborsInternal(py_graph, false, curr_nodes.data(), curr_nodes.size(), timestamps,
+                                              in_edge_types, in_edge_types_size, curr_counts.data(), neighbors, types,
+                                              weights, edge_created_ts);
+        if (res != 0)
+        {
+            return res;
+        }
+
         size_t nb_offset = 0;
         for (size_t index = 0; index < in_node_ids_size; ++index)
         {
@@ -1050,8 +1056,8 @@ typedef struct
 } NB_Count_Cache;
 
 // Cache neighbor counts for each node in the input list.
-void lookup_neighbor_counts(PyGraph *py_graph, NB_Count_Cache &cache, const std::vector<NodeID> &neighbors,
-                            Type *in_edge_types, size_t in_edge_types_size, Timestamp *timestamps)
+int32_t lookup_neighbor_counts(PyGraph *py_graph, NB_Count_Cache &cache, const std::vector<NodeID> &neighbors,
+                               Type *in_edge_types, size_t in_edge_types_size, Timestamp *timestamps)
 {
     assert(cache.node_ids.empty());
     assert(cache.counts.empty());
@@ -1088,14 +1094,19 @@ void lookup_neighbor_counts(PyGraph *py_graph, NB_Count_Cache &cache, const std:
 
     if (cache.node_ids.empty())
     {
-        return;
+        return 0;
     }
 
     const size_t request_nodes_size = cache.node_ids.size();
     cache.counts.resize(request_nodes_size);
-    NeighborCount(py_graph, cache.node_ids.data(), request_nodes_size,
-                  timestamps == nullptr ? timestamps : cache.timestamps.data(), in_edge_types, in_edge_types_size,
-                  cache.counts.data());
+    const auto res = NeighborCount(py_graph, cache.node_ids.data(), request_nodes_size,
+                                   timestamps == nullptr ? timestamps : cache.timestamps.data(), in_edge_types,
+                                   in_edge_types_size, cache.counts.data());
+    if (res != 0)
+    {
+        return res;
+    }
+
     for (size_t i = 0; i < request_nodes_size; ++i)
     {
         const auto timestamp = timestamps == nullptr ? -1 : timestamps[i];
@@ -1105,12 +1116,13 @@ void lookup_neighbor_counts(PyGraph *py_graph, NB_Count_Cache &cache, const std:
     cache.node_ids.clear();
     cache.counts.clear();
     cache.nb_index.clear();
+    return 0;
 }
 
 // Cache neighbor lists for each node in the input list.
-void lookup_neighbor_lists(PyGraph *py_graph, NB_Count_Cache &cache,
-                           absl::flat_hash_set<std::pair<NodeID, Timestamp>> input, Type *in_edge_types,
-                           size_t in_edge_types_size, Timestamp *timestamps)
+int32_t lookup_neighbor_lists(PyGraph *py_graph, NB_Count_Cache &cache,
+                              absl::flat_hash_set<std::pair<NodeID, Timestamp>> input, Type *in_edge_types,
+                              size_t in_edge_types_size, Timestamp *timestamps)
 {
     assert(cache.node_ids.empty());
     for (auto node_ts : input)
@@ -1130,9 +1142,15 @@ void lookup_neighbor_lists(PyGraph *py_graph, NB_Count_Cache &cache,
     if (!cache.node_ids.empty())
     {
         cache.nb_counts.resize(cache.node_ids.size());
-        GetNeighborsInternal(py_graph, false, cache.node_ids.data(), cache.node_ids.size(), mutable_timestamps,
-                             in_edge_types, in_edge_types_size, cache.nb_counts.data(), cache.nb_ids, cache.nb_types,
-                             cache.nb_weights, cache.edge_created_ts);
+        const auto res = GetNeighborsInternal(py_graph, false, cache.node_ids.data(), cache.node_ids.size(),
+                                              mutable_timestamps, in_edge_types, in_edge_types_size,
+                                              cache.nb_counts.data(), cache.nb_ids, cache.nb_types, cache.nb_weights,
+                                              cache.edge_created_ts);
+        if (res != 0)
+        {
+            return res;
+        }
+
         assert(cache.edge_created_ts.empty());
 
         auto nb_offset = std::begin(cache.nb_ids);
@@ -1158,11 +1176,13 @@ void lookup_neighbor_lists(PyGraph *py_graph, NB_Count_Cache &cache,
         cache.nb_ids.emplace_back(nt.first);
     }
 
-    lookup_neighbor_counts(py_graph, cache, cache.nb_ids, in_edge_types, in_edge_types_size, mutable_timestamps);
+    const auto res =
+        lookup_neighbor_counts(py_graph, cache, cache.nb_ids, in_edge_types, in_edge_types_size, mutable_timestamps);
     cache.timestamps.clear();
     cache.nb_types.clear();
     cache.nb_weights.clear();
     cache.nb_ids.clear();
+    return res;
 }
 
 } // namespace
@@ -1207,7 +1227,13 @@ int32_t PPRSampleNeighbor(PyGraph *py_graph, NodeID *in_node_ids, size_t in_node
                 new_nodes.insert({node_id, timestamps == nullptr ? -1 : timestamps[node_index]});
             }
         }
-        lookup_neighbor_lists(py_graph, nb_cache, std::move(new_nodes), in_edge_types, in_edge_types_size, timestamps);
+        const auto res = lookup_neighbor_lists(py_graph, nb_cache, std::move(new_nodes), in_edge_types,
+                                               in_edge_types_size, timestamps);
+        if (res != 0)
+        {
+            return res;
+        }
+
         for (size_t node_index = 0; node_index < in_node_ids_size; ++node_index)
         {
             if (q[node_index].empty())
-- 
2.43.0


From 84d37566494223749903768899e088c152816799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:24:02 +0000
Subject: [PATCH 39/83] fix: retry failed ppr sampling like other distributed
 queries

---
 src/python/deepgnn/graph_engine/snark/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/snark/client.py b/src/python/deepgnn/graph_engine/snark/client.py
index 0ac90bc..0b4657a 100644
--- a/src/python/deepgnn/graph_engine/snark/client.py
+++ b/src/python/deepgnn/graph_engine/snark/client.py
@@ -1143,7 +1143,8 @@ class MemoryGraph:
         etypes_arr = TypeArray(*edge_types)
         result_nodes = np.full((len(nodes), count), default_node, dtype=np.int64)
         result_weights = np.full((len(nodes), count), default_weight, dtype=np.float32)
-        self.lib.PPRSampleNeighbor(
+        self._retryer(
+            self.lib.PPRSampleNeighbor,
             self.g_,
             nodes.ctypes.data_as(POINTER(c_int64)),
             c_size_t(nodes.size),
-- 
2.43.0


From 4c5486460f9119b1458b7a54898ee56511213557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:25:57 +0000
Subject: [PATCH 40/83] fix: count neighbors at the right time in ppr sampling

Neighbors were paired with the timestamps of the nodes they were reached
from, and the list of those was written past its end.
---
 src/cc/lib/py_graph.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cc/lib/py_graph.cc b/src/cc/lib/py_graph.cc
index 1761a68..e7851b0 100644
--- a/src/cc/lib/py_graph.cc
+++ b/src/cc/lib/py_graph.cc
@@ -1171,10 +1171,16 @@ int32_t lookup_neighbor_lists(PyGraph *py_graph, NB_Count_Cache &cache,
     cache.node_ids.clear();
     cache.nb_ids.clear();
     cache.nb_ids.reserve(input.size());
+    cache.timestamps.clear();
     for (const auto &nt : input)
     {
         cache.nb_ids.emplace_back(nt.first);
+        if (timestamps != nullptr)
+        {
+            cache.timestamps.emplace_back(nt.second);
+        }
     }
+    mutable_timestamps = timestamps == nullptr ? nullptr : cache.timestamps.data();
 
     const auto res =
         lookup_neighbor_counts(py_graph, cache, cache.nb_ids, in_edge_types, in_edge_types_size, mutable_timestamps);
-- 
2.43.0


From 8488e6f5c0a909367d94eb61960cec513f45b423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:25:57 +0000
Subject: [PATCH 41/83] fix: follow self loops of starting nodes in random
 walks

---
 src/cc/lib/py_graph.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cc/lib/py_graph.cc b/src/cc/lib/py_graph.cc
index e7851b0..57d9141 100644
--- a/src/cc/lib/py_graph.cc
+++ b/src/cc/lib/py_graph.cc
@@ -965,8 +965,8 @@ int32_t RandomWalk(PyGraph *py_graph, int64_t seed, float p, float q, NodeID def
             {
                 const auto node = neighbors[nb_offset];
                 const auto weight = weights[nb_offset];
-                // Skip parent node, because it was added above.
-                if (node == past_nodes[index])
+                // Skip parent node, because it was added above. Starting nodes don't have parents.
+                if (curr_step > 0 && node == past_nodes[index])
                 {
                     continue;
                 }
-- 
2.43.0


From 63ada2f3440104b3cb5b4cedebaf9ada49ff8843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:27:34 +0000
Subject: [PATCH 42/83] fix: let random walks return to a parent over the edge
 of the current node

A node reached by going back was treated as if its edges to the node the
walk came from did not exist, so walks ended there.
---
 src/cc/lib/py_graph.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cc/lib/py_graph.cc b/src/cc/lib/py_graph.cc
index 57d9141..f2df010 100644
--- a/src/cc/lib/py_graph.cc
+++ b/src/cc/lib/py_graph.cc
@@ -965,10 +965,14 @@ int32_t RandomWalk(PyGraph *py_graph, int64_t seed, float p, float q, NodeID def
             {
                 const auto node = neighbors[nb_offset];
                 const auto weight = weights[nb_offset];
-                // Skip parent node, because it was added above. Starting nodes don't have parents.
+                // Parent node is already added above if it has an edge to the current node. Starting nodes don't have
+                // parents.
                 if (curr_step > 0 && node == past_nodes[index])
                 {
-                    continue;
+                    if (parent == std::end(t_nbs[index]))
+                    {
+                        transition_node_prob.emplace_back(node, weight / p);
+                    }
                 }
 
                 // Found current neighbor in parents neighbors.
-- 
2.43.0


From 0735f01b50eecafbb44594262bd2c90498d656a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:40:45 +0000
Subject: [PATCH 43/83] fix: load weighted edge samplers from the folder of
 their partition

Alias tables were read from the metadata folder.
---
 src/cc/lib/graph/sampler.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cc/lib/graph/sampler.cc b/src/cc/lib/graph/sampler.cc
index 6fb1904..3e0c81e 100644
--- a/src/cc/lib/graph/sampler.cc
+++ b/src/cc/lib/graph/sampler.cc
@@ -363,10 +363,10 @@ WeightedEdgeSamplerPartition::WeightedEdgeSamplerPartition(Metadata meta, Type t
         logger = std::make_shared<snark::GLogger>();
     }
     std::shared_ptr<BaseStorage<uint8_t>> edge_weights;
-    if (!is_hdfs_path(meta.m_path))
+    if (!is_hdfs_path(partition_path))
     {
         edge_weights =
-            std::make_shared<DiskStorage<uint8_t>>(meta.m_path, partition_index, tp, open_edge_alias, logger);
+            std::make_shared<DiskStorage<uint8_t>>(partition_path, partition_index, tp, open_edge_alias, logger);
     }
     else
     {
-- 
2.43.0


From 7c531aaa55e0137b8a46bee4eddd04213ea25652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:40:45 +0000
Subject: [PATCH 44/83] fix: keep edge samplers of different strategies apart

The first strategy used for a set of edge types was used for all later calls.
---
 src/python/deepgnn/graph_engine/snark/local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/snark/local.py b/src/python/deepgnn/graph_engine/snark/local.py
index 58dea18..36db38f 100644
--- a/src/python/deepgnn/graph_engine/snark/local.py
+++ b/src/python/deepgnn/graph_engine/snark/local.py
@@ -84,7 +84,7 @@ class Client(Graph):
         """Return an array of edges with a specified type."""
         assert size > 0
 
-        key = str(edge_types)
+        key = _sampling_map[strategy] + str(edge_types)
         if key not in self.edge_samplers:
             self.edge_samplers[key] = client.EdgeSampler(
                 self.graph, self.__check_types(edge_types), _sampling_map[strategy]
-- 
2.43.0


From a922cb5e40ba28203f674d9b76288606b23fa581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:40:45 +0000
Subject: [PATCH 45/83] fix: load the requested partitions in the local client

The first partitions were loaded, as many as were requested.
---
 src/python/deepgnn/graph_engine/snark/local.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/local.py b/src/python/deepgnn/graph_engine/snark/local.py
index 36db38f..c7914a6 100644
--- a/src/python/deepgnn/graph_engine/snark/local.py
+++ b/src/python/deepgnn/graph_engine/snark/local.py
@@ -37,9 +37,7 @@ class Client(Graph):
         if len(partitions) == 0:
             self.logger.info("Partitions not set, defaulting to [0]")
             partitions = [0]
-        partitions_with_paths = [
-            (path, partition) for partition in range(len(partitions))
-        ]
+        partitions_with_paths = [(path, partition) for partition in partitions]
         self.logger.info(
             f"Graph data path: {path}. Partitions {partitions}. Storage type {storage_type}. Config path {config_path}. Stream {stream}."
         )
-- 
2.43.0


From 6e5068a119082cb2f64fbb9070e2f943bce510ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:48:11 +0000
Subject: [PATCH 46/83] fix: keep samples without replacement within the
 elements of a type

When too few elements were left for the remaining types, the sampler took
everything a type had, even when that exceeded the requested number.
---
 src/cc/lib/graph/sampler.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cc/lib/graph/sampler.cc b/src/cc/lib/graph/sampler.cc
index 3e0c81e..d9211d0 100644
--- a/src/cc/lib/graph/sampler.cc
+++ b/src/cc/lib/graph/sampler.cc
@@ -101,7 +101,7 @@ void SamplerImpl<Partition, element>::Sample(int64_t seed, std::span<Type> out_t
             // Make sure we don't sample too little.
             if (left - type_count > m_type_min[i])
             {
-                type_count = m_type_max[i];
+                type_count = std::min(m_type_max[i], left - m_type_min[i]);
             }
         }
 
@@ -121,7 +121,7 @@ void SamplerImpl<Partition, element>::Sample(int64_t seed, std::span<Type> out_t
                 // Make sure we don't sample too little and handle larger than sample size output buffer.
                 if (left_items - item_count > m_partition_min[i][p])
                 {
-                    item_count = m_partition_max[i][p];
+                    item_count = std::min(m_partition_max[i][p], left_items - m_partition_min[i][p]);
                 }
             }
 
-- 
2.43.0


From 2a8586e62f1eac89b6a0d48894b93f889e0766ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:49:23 +0000
Subject: [PATCH 47/83] fix: sample when the last shards have nothing to offer

The probability of picking a shard was not a number when it and all the
following shards had zero weight.
---
 src/cc/lib/graph/sampler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc/lib/graph/sampler.cc b/src/cc/lib/graph/sampler.cc
index d9211d0..e776c3e 100644
--- a/src/cc/lib/graph/sampler.cc
+++ b/src/cc/lib/graph/sampler.cc
@@ -646,7 +646,7 @@ void conditional_probabilities(std::vector<float> &probs)
     for (auto p = std::rbegin(probs); p != std::rend(probs); p++)
     {
         sum_weight += *p;
-        *p /= sum_weight;
+        *p = sum_weight > 0 ? *p / sum_weight : 0;
     }
 }
 
-- 
2.43.0


From 0d87c9c360ec92cb05f5d733462e36fd5ab8943a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:49:23 +0000
Subject: [PATCH 48/83] fix: skip servers without samplers when sampling edges

---
 src/cc/lib/distributed/client.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cc/lib/distributed/client.cc b/src/cc/lib/distributed/client.cc
index 822bf31..7f8fea7 100644
--- a/src/cc/lib/distributed/client.cc
+++ b/src/cc/lib/distributed/client.cc
@@ -1011,6 +1011,11 @@ void GRPCClient::SampleEdges(int64_t seed, uint64_t sampler_id, std::span<NodeId
 
     for (size_t shard = 0; shard < m_sampler_stubs.size() && left > 0; ++shard)
     {
+        if (sampler_ids[shard] == empty_sampler_id)
+        {
+            continue;
+        }
+
         auto *call = new AsyncClientCall();
         const size_t shard_count = boost::random::binomial_distribution<int32_t>(left, weights[shard])(gen);
         left -= shard_count;
-- 
2.43.0


From 0917e724554c6169a3e322f8557fd451c017a1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:51:17 +0000
Subject: [PATCH 49/83] fix: take no more elements from a server than it has
 without replacement

The client split samples over servers with a plain multinomial draw. A
server asked for more elements than it holds left the rest of its reply
empty or repeated elements.
---
 src/cc/lib/distributed/client.cc | 36 ++++++++++++++++++++++++++++++--
 src/cc/lib/distributed/client.h  |  1 +
 2 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/cc/lib/distributed/client.cc b/src/cc/lib/distributed/client.cc
index 7f8fea7..15a6aa7 100644
--- a/src/cc/lib/distributed/client.cc
+++ b/src/cc/lib/distributed/client.cc
@@ -157,6 +157,24 @@ void GetStringFeature(const SparseRequest &request,
     snark::ExtractStringFeatures(response_index, replies, out_dimensions, out_values);
 }
 
+// A sample without replacement can't take more elements from a shard than it has
+// and has to leave no more than the following shards can provide.
+size_t AdjustShardCount(size_t count, size_t left, std::span<const size_t> sizes, size_t shard)
+{
+    if (sizes.empty())
+    {
+        return count;
+    }
+
+    count = std::min(count, sizes[shard]);
+    const size_t rest = std::accumulate(std::begin(sizes) + shard + 1, std::end(sizes), size_t(0));
+    if (left - count > rest)
+    {
+        count = std::min(sizes[shard], left - rest);
+    }
+    return count;
+}
+
 } // namespace
 
 namespace snark
@@ -923,12 +941,20 @@ uint64_t GRPCClient::CreateSampler(bool is_edge, CreateSamplerRequest_Category c
 
     WaitForFutures(futures);
 
+    // Weights of samplers without replacement are numbers of elements in shards.
+    std::vector<size_t> sub_sampler_sizes;
+    if (category == CreateSamplerRequest_Category_UNIFORM_WITHOUT_REPLACEMENT)
+    {
+        sub_sampler_sizes.assign(std::begin(sub_sampler_weights), std::end(sub_sampler_weights));
+    }
+
     // Adjust weights for future sampling.
     conditional_probabilities(sub_sampler_weights);
     std::lock_guard l(m_sampler_mutex);
     uint64_t sampler_id = m_sampler_ids.size();
     m_sampler_ids.emplace_back(std::move(sub_sampler_ids));
     m_sampler_weights.emplace_back(std::move(sub_sampler_weights));
+    m_sampler_sizes.emplace_back(std::move(sub_sampler_sizes));
     return sampler_id;
 }
 
@@ -943,11 +969,13 @@ void GRPCClient::SampleNodes(int64_t seed, uint64_t sampler_id, std::span<NodeId
 
     std::span<const float> weights;
     std::span<const uint64_t> sampler_ids;
+    std::span<const size_t> sizes;
     {
         std::lock_guard l(m_sampler_mutex);
         weights = std::span(m_sampler_weights[sampler_id].data(), m_sampler_stubs.size());
 
         sampler_ids = std::span(m_sampler_ids[sampler_id].data(), m_sampler_stubs.size());
+        sizes = std::span(m_sampler_sizes[sampler_id]);
     }
 
     snark::Xoroshiro128PlusGenerator gen(seed);
@@ -963,7 +991,8 @@ void GRPCClient::SampleNodes(int64_t seed, uint64_t sampler_id, std::span<NodeId
         }
 
         auto *call = new AsyncClientCall();
-        const size_t element_count = boost::random::binomial_distribution<int32_t>(left, weights[shard])(gen);
+        size_t element_count = boost::random::binomial_distribution<int32_t>(left, weights[shard])(gen);
+        element_count = AdjustShardCount(element_count, left, sizes, shard);
         left -= element_count;
 
         request.set_seed(subseed(gen));
@@ -998,10 +1027,12 @@ void GRPCClient::SampleEdges(int64_t seed, uint64_t sampler_id, std::span<NodeId
 
     std::span<const float> weights;
     std::span<const uint64_t> sampler_ids;
+    std::span<const size_t> sizes;
     {
         std::lock_guard l(m_sampler_mutex);
         weights = std::span(m_sampler_weights[sampler_id].data(), m_sampler_stubs.size());
         sampler_ids = std::span(m_sampler_ids[sampler_id].data(), m_sampler_stubs.size());
+        sizes = std::span(m_sampler_sizes[sampler_id]);
     }
 
     snark::Xoroshiro128PlusGenerator gen(seed);
@@ -1017,7 +1048,8 @@ void GRPCClient::SampleEdges(int64_t seed, uint64_t sampler_id, std::span<NodeId
         }
 
         auto *call = new AsyncClientCall();
-        const size_t shard_count = boost::random::binomial_distribution<int32_t>(left, weights[shard])(gen);
+        size_t shard_count = boost::random::binomial_distribution<int32_t>(left, weights[shard])(gen);
+        shard_count = AdjustShardCount(shard_count, left, sizes, shard);
         left -= shard_count;
 
         request.set_seed(subseed(gen));
diff --git a/src/cc/lib/distributed/client.h b/src/cc/lib/distributed/client.h
index 3000450..122c1e6 100644
--- a/src/cc/lib/distributed/client.h
+++ b/src/cc/lib/distributed/client.h
@@ -96,6 +96,7 @@ class GRPCClient final
     std::mutex m_sampler_mutex;
     std::vector<std::vector<uint64_t>> m_sampler_ids;
     std::vector<std::vector<float>> m_sampler_weights;
+    std::vector<std::vector<size_t>> m_sampler_sizes;
 
     std::function<void()> AsyncCompleteRpc(size_t i);
     grpc::CompletionQueue *NextCompletionQueue();
-- 
2.43.0


From 6bc1f55fa87896eef91d663c07f07352adc4b531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:08:44 +0000
Subject: [PATCH 50/83] fix: count all neighbors when merging samples of more
 than two servers

The merge forgot the neighbors of servers merged before, so neighbors of
the servers replying last were drawn too often.
---
 src/cc/lib/graph/reservoir.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cc/lib/graph/reservoir.cc b/src/cc/lib/graph/reservoir.cc
index 6ceaa32..d8751c3 100644
--- a/src/cc/lib/graph/reservoir.cc
+++ b/src/cc/lib/graph/reservoir.cc
@@ -137,7 +137,7 @@ void WithoutReplacementMerge::add(size_t n, std::function<void(size_t, size_t)>
     }
 
     // Randomly shuffle the indices of the left and right reservoirs to determine final indices.
-    size_t left_size = m_seen;
+    size_t left_size = std::min(m_seen, m_k);
     size_t right_size = std::min(n, m_k);
     std::vector<size_t> left_indices(left_size);
     std::vector<size_t> right_indices(right_size);
@@ -169,6 +169,7 @@ void WithoutReplacementMerge::add(size_t n, std::function<void(size_t, size_t)>
             ++right_index;
         }
     }
+    m_seen += n;
 }
 
 void WithoutReplacementMerge::reset()
-- 
2.43.0


From 265625bca735368267d7ae6cae3b18e934e9c56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:31:45 +0000
Subject: [PATCH 51/83] fix: check items behind the end marker of a prefetch
 generator

Iteration handed out an error marker as data when it followed the end marker, and blocked forever on an exhausted empty sampler.
---
 src/python/deepgnn/graph_engine/prefetch.py | 25 +++++++++------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/prefetch.py b/src/python/deepgnn/graph_engine/prefetch.py
index 6cd7040..50a883c 100644
--- a/src/python/deepgnn/graph_engine/prefetch.py
+++ b/src/python/deepgnn/graph_engine/prefetch.py
@@ -152,7 +152,8 @@ class Generator:
         collate_fn: Optional[Callable] = None,
     ):
         """Initialize generator."""
-        self.count = 0
+        # Number of items to expect, known only after sampler is exhausted.
+        self.count: Optional[int] = None
         self.index = 0
         self.outputs: Queue[Tuple[np.ndarray]] = Queue(prefetch_size)
         self.max_workers = max_workers
@@ -190,25 +191,21 @@ class Generator:
 
     def __next__(self):
         """Parse the queue and get the "count" queue item. Use it to decide terminate the iteration or not."""
-        if self.count > 0 and self.index == self.count + 1:
-            raise StopIteration
+        while self.index != self.count:
+            item = self.outputs.get()
+            self.outputs.task_done()
+            if type(item) is not FetchDone:
+                self.index += 1
+                return item
 
-        item = self.outputs.get()
-        self.outputs.task_done()
-        self.index += 1
-        if type(item) is FetchDone:
             if item.exception_info is not None:
+                # Nothing else to expect after an error.
+                self.count = self.index
                 get_logger().error(item.exception_info)
                 raise Exception(item.exception_info)
             self.count = item.count
-            if self.index == self.count + 1:
-                raise StopIteration
-
-            item = self.outputs.get()
-            self.outputs.task_done()
-            self.index += 1
 
-        return item
+        raise StopIteration
 
     def _drain_outputs(self):
         while self.outputs.qsize() > 0:
-- 
2.43.0


From fec85f7ae17dbb2add370e653e1cf2b0f9e4a195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:35:37 +0000
Subject: [PATCH 52/83] fix: count batches of a data parallel shard in file
 samplers

The length was computed for the whole worker and did not match the number of batches a shard yields.
---
 src/python/deepgnn/graph_engine/samplers.py | 61 +++++----------------
 1 file changed, 13 insertions(+), 48 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/samplers.py b/src/python/deepgnn/graph_engine/samplers.py
index 96c5dd0..e48eedd 100644
--- a/src/python/deepgnn/graph_engine/samplers.py
+++ b/src/python/deepgnn/graph_engine/samplers.py
@@ -103,6 +103,15 @@ class BaseSampler(object):
         """Skip by default."""
         pass
 
+    def _shard_batches(self, total: int, drop_last: bool) -> int:
+        """Number of batches in this shard, if all shards take batches in turns."""
+        batches = total // self.batch_size
+        if not drop_last and total % self.batch_size > 0:
+            batches += 1
+        return max(
+            math.ceil((batches - self.data_parallel_index) / self.data_parallel_num), 0
+        )
+
     @property
     def data_parallel_index(self):
         """Worker index."""
@@ -386,18 +395,7 @@ class FileEdgeSampler(BaseSampler):
 
     def __len__(self) -> int:
         """Total number of minibatches in this sampler."""
-        if self.drop_last:
-            return math.floor(
-                len(self.edges)
-                * self.epochs
-                / (self.batch_size * self.data_parallel_num)
-            )
-        else:
-            return math.ceil(
-                len(self.edges)
-                * self.epochs
-                / (self.batch_size * self.data_parallel_num)
-            )
+        return self._shard_batches(len(self.edges) * self.epochs, self.drop_last)
 
     def __iter__(self) -> _NumpyIterator:
         """Create a numpy based iterator."""
@@ -499,18 +497,7 @@ class FileNodeSampler(BaseSampler):
 
     def __len__(self) -> int:
         """Total number of minibatches in this sampler."""
-        if self.drop_last:
-            return math.floor(
-                len(self.nodes)
-                * self.epochs
-                / (self.batch_size * self.data_parallel_num)
-            )
-        else:
-            return math.ceil(
-                len(self.nodes)
-                * self.epochs
-                / (self.batch_size * self.data_parallel_num)
-            )
+        return self._shard_batches(len(self.nodes) * self.epochs, self.drop_last)
 
 
 class _RangeNodeIterator(_GEIterator):
@@ -808,18 +795,7 @@ class FileTupleSampler(BaseSampler):
 
     def __len__(self) -> int:
         """Total number of minibatches in this sampler."""
-        if self.drop_last:
-            return math.floor(
-                len(self.data)
-                * self.epochs
-                / (self.batch_size * self.data_parallel_num)
-            )
-        else:
-            return math.ceil(
-                len(self.data)
-                * self.epochs
-                / (self.batch_size * self.data_parallel_num)
-            )
+        return self._shard_batches(len(self.data) * self.epochs, self.drop_last)
 
     def __iter__(self) -> _NumpyIterator:
         """Create a new numpy based iterator from this sampler."""
@@ -1033,18 +1009,7 @@ class FileTupleSamplerV2(BaseSampler):
 
     def __len__(self) -> int:
         """Return number of minibatches in this sampler."""
-        if self.drop_last:
-            return math.floor(
-                len(self.data[0])
-                * self.epochs
-                / (self.batch_size * self.data_parallel_num)
-            )
-        else:
-            return math.ceil(
-                len(self.data[0])
-                * self.epochs
-                / (self.batch_size * self.data_parallel_num)
-            )
+        return self._shard_batches(len(self.data[0]) * self.epochs, self.drop_last)
 
     def __iter__(self) -> _NumpyIterator:
         """Create a new iterator."""
-- 
2.43.0


From 1c1fcb821c1fe086f7bc505439ea03133f0563cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:35:37 +0000
Subject: [PATCH 53/83] fix: drop the last batch of edge samples with features

The option was ignored when the sample files had feature columns.
---
 src/python/deepgnn/graph_engine/samplers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/deepgnn/graph_engine/samplers.py b/src/python/deepgnn/graph_engine/samplers.py
index e48eedd..8466af6 100644
--- a/src/python/deepgnn/graph_engine/samplers.py
+++ b/src/python/deepgnn/graph_engine/samplers.py
@@ -427,6 +427,7 @@ class FileEdgeSampler(BaseSampler):
                 ),
                 np.zeros(shape=(self.feature_dim), dtype=np.float32),
             ],
+            drop_last=self.drop_last,
             data_parallel_num=self.data_parallel_num,
             data_parallel_index=self.data_parallel_index,
         )
-- 
2.43.0


From f13759b2b6cb09a9bb6cdeb3c05e46abff6885fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:35:37 +0000
Subject: [PATCH 54/83] fix: keep the last id of a range sampled in parallel

Padding replaced an id of the range when its end was not a multiple of the number of shards.
---
 src/python/deepgnn/graph_engine/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/samplers.py b/src/python/deepgnn/graph_engine/samplers.py
index 8466af6..4a4290e 100644
--- a/src/python/deepgnn/graph_engine/samplers.py
+++ b/src/python/deepgnn/graph_engine/samplers.py
@@ -531,7 +531,7 @@ class _RangeNodeIterator(_GEIterator):
         last = self.first + self.batch_size * self.data_parallel_num
         res = np.arange(self.first, last, step=self.data_parallel_num)
         if last > self.last:
-            res[(self.last - self.first) // self.data_parallel_num :] = self.backfill_id
+            res[res >= self.last] = self.backfill_id
 
         self.first += self.num_workers * self.batch_size * self.data_parallel_num
         return res
-- 
2.43.0


From d985efefddc09757124379a757aacb03277eb15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:35:37 +0000
Subject: [PATCH 55/83] fix: split a range between workers with data parallel
 shards

Workers started inside of blocks of each other, so some ids were sampled twice and others skipped.
---
 src/python/deepgnn/graph_engine/samplers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/samplers.py b/src/python/deepgnn/graph_engine/samplers.py
index 4a4290e..cd8f3ec 100644
--- a/src/python/deepgnn/graph_engine/samplers.py
+++ b/src/python/deepgnn/graph_engine/samplers.py
@@ -560,7 +560,7 @@ class RangeNodeSampler(BaseSampler):
             data_parallel_index=data_parallel_index,
             data_parallel_num=data_parallel_num,
         )
-        self.start_id = first + worker_index * batch_size
+        self.start_id = first + worker_index * batch_size * data_parallel_num
         self.last = last
         assert self.start_id < self.last
         self.batch_size = batch_size
@@ -582,10 +582,10 @@ class RangeNodeSampler(BaseSampler):
     def __len__(self) -> int:
         """Total number of minibatches in this sampler."""
         res = math.ceil(
-            (self.last - self.start_id)
+            (self.last - self.start_id - self.data_parallel_index)
             / (self.batch_size * self.num_workers * self.data_parallel_num)
         )
-        return res
+        return max(res, 0)
 
 
 class _RangeEdgeIterator(_RangeNodeIterator):
-- 
2.43.0


From f49bd0134f8b246c6c08b35a5ef5f52909be29a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:35:37 +0000
Subject: [PATCH 56/83] fix: repeat epochs and iterations of CSV node samples

The file was read only once regardless of the number of epochs, a second iteration was empty and the length did not match.
---
 src/python/deepgnn/graph_engine/samplers.py | 30 +++++++++++----------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/samplers.py b/src/python/deepgnn/graph_engine/samplers.py
index cd8f3ec..a185030 100644
--- a/src/python/deepgnn/graph_engine/samplers.py
+++ b/src/python/deepgnn/graph_engine/samplers.py
@@ -696,31 +696,33 @@ class CSVNodeSampler(BaseSampler):
 
         self.node_list: np.ndarray = np.array(node_list)
         self.cur_batch = 0
-        self.count = (
-            (len(node_list) + self.batch_size - 1)
-            // (self.batch_size * self.data_parallel_num)
-            * epoch
+        self.epoch_batches = max(
+            math.ceil(
+                (len(node_list) - self.data_parallel_index)
+                / (self.batch_size * self.data_parallel_num)
+            ),
+            0,
         )
+        self.count = self.epoch_batches * epoch
 
     def __iter__(self):
-        """No-op."""
+        """Start iteration from beginning."""
+        self.cur_batch = 0
         return self
 
     def __next__(self) -> np.ndarray:
         """Implement iterator interface."""
+        if self.cur_batch >= self.count:
+            raise StopIteration
         start_pos = (
-            self.cur_batch * self.batch_size * self.data_parallel_num
+            self.cur_batch
+            % self.epoch_batches
+            * self.batch_size
+            * self.data_parallel_num
             + self.data_parallel_index
         )
-        if start_pos >= len(self.node_list):
-            raise StopIteration
         self.cur_batch += 1
-        end_pos = (
-            self.cur_batch * self.batch_size * self.data_parallel_num
-            + self.data_parallel_index
-        )
-        if end_pos >= len(self.node_list):
-            end_pos = len(self.node_list)
+        end_pos = start_pos + self.batch_size * self.data_parallel_num
         return np.array(self.node_list[start_pos : end_pos : self.data_parallel_num])
 
     def __len__(self) -> int:
-- 
2.43.0


From 56bfa97abcb1f8b85fb626d3825f495ea8842332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:35:37 +0000
Subject: [PATCH 57/83] fix: end text samples without lines

The sampler returned a batch of empty lines when there was nothing to read or the last lines filled a batch.
---
 src/python/deepgnn/graph_engine/samplers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/deepgnn/graph_engine/samplers.py b/src/python/deepgnn/graph_engine/samplers.py
index a185030..8b4d77b 100644
--- a/src/python/deepgnn/graph_engine/samplers.py
+++ b/src/python/deepgnn/graph_engine/samplers.py
@@ -896,6 +896,9 @@ class TextFileSampler(BaseSampler):
                 self.end = True
                 break
 
+        if len(self.buf) == 0:
+            raise StopIteration
+
         if self.shuffle and new_added:
             random.shuffle(self.buf)
 
-- 
2.43.0


From 2b81efd1f4c8821970a2b08af893ba0916ee1af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:57:54 +0000
Subject: [PATCH 58/83] fix: close synchronized clients and servers more than
 once

Closing raised an error about a missing sync file after a connection timeout, a failed server start or a previous close.
---
 src/python/deepgnn/graph_engine/backends/snark/synchronized.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/backends/snark/synchronized.py b/src/python/deepgnn/graph_engine/backends/snark/synchronized.py
index c2e5192..340c93c 100644
--- a/src/python/deepgnn/graph_engine/backends/snark/synchronized.py
+++ b/src/python/deepgnn/graph_engine/backends/snark/synchronized.py
@@ -42,7 +42,8 @@ def _check_lock_file(folder: str, index: int, extension: str):
 
 def _delete_lock_file(folder: str, index: int, extension: str):
     path = pathlib.Path(folder, f"snark_{index}.{extension}")
-    os.remove(path)
+    # The file might be already deleted, e.g. by a client after a timeout.
+    path.unlink(missing_ok=True)
 
 
 class SupportsReset:
-- 
2.43.0


From b490bc2cf5407ba66bfa169c9397b6aee7590c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:57:54 +0000
Subject: [PATCH 59/83] fix: stop synchronized servers in their process

The server object lives in a child process, but only the parent tried to reset it. Files of the server were left behind, and a sync file could appear after the server was closed.
---
 .../deepgnn/graph_engine/backends/snark/synchronized.py  | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/backends/snark/synchronized.py b/src/python/deepgnn/graph_engine/backends/snark/synchronized.py
index 340c93c..0110a27 100644
--- a/src/python/deepgnn/graph_engine/backends/snark/synchronized.py
+++ b/src/python/deepgnn/graph_engine/backends/snark/synchronized.py
@@ -184,16 +184,19 @@ class _ServerProcess(mp.Process):
     def run(self):
         """Start a GE server."""
         self._server = self._ktr()
-        _create_lock_file(self.sync_path, self.id, "server")
+        if not self._stop_event.is_set():
+            _create_lock_file(self.sync_path, self.id, "server")
         self._stop_event.wait()
         get_logger().info(f"Shutting down server #{self.id}")
+        self._server.reset()
 
     def join(self, timeout: Optional[float] = None):
         """Stop the GE server."""
         self._wait_for_clients(timeout)
         self._stop_event.set()
-        if self._server is not None:
-            self._server.reset()
+        # Wait until the server is stopped in the child process.
+        if self._parent_pid == os.getpid():
+            super(_ServerProcess, self).join(timeout)
 
 
 class SynchronizedServer:
-- 
2.43.0


From 177a6ff5b2ef176f45b72d2bf27b896a1db6814b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:18:16 +0000
Subject: [PATCH 60/83] fix: keep addresses of workers until every worker read
 them

---
 .../deepgnn/graph_engine/backends/snark/client.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/backends/snark/client.py b/src/python/deepgnn/graph_engine/backends/snark/client.py
index 4791eea..38f1c31 100644
--- a/src/python/deepgnn/graph_engine/backends/snark/client.py
+++ b/src/python/deepgnn/graph_engine/backends/snark/client.py
@@ -148,22 +148,23 @@ class SnarkDistributedBackend(GraphEngineBackend):
         address_folder = os.path.join(options.model_dir, "sync", "addresses")
         os.makedirs(sync_folder, exist_ok=True)
         os.makedirs(address_folder, exist_ok=True)
-        server = SynchronizedServer(
+        # Register the client first: other workers keep their addresses until every client is gone.
+        client = SynchronizedClient(
             sync_folder,
             client_rank,
+            world_size,
             options.ge_start_timeout,
-            _AddressFinder,
+            _AddressReader,
             address_folder,
-            client_rank,
-            server_idx,
         )
-        client = SynchronizedClient(
+        server = SynchronizedServer(
             sync_folder,
             client_rank,
-            world_size,
             options.ge_start_timeout,
-            _AddressReader,
+            _AddressFinder,
             address_folder,
+            client_rank,
+            server_idx,
         )
         options.servers = client.client.servers()
         client.reset()
-- 
2.43.0


From 0f4a7f9d416d44957e9d6f0c3c2d35ab81fd98dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:18:16 +0000
Subject: [PATCH 61/83] fix: order discovered servers by their index

---
 src/python/deepgnn/graph_engine/backends/snark/client.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/backends/snark/client.py b/src/python/deepgnn/graph_engine/backends/snark/client.py
index 38f1c31..1d755e5 100644
--- a/src/python/deepgnn/graph_engine/backends/snark/client.py
+++ b/src/python/deepgnn/graph_engine/backends/snark/client.py
@@ -398,7 +398,7 @@ class _AddressFinder:
 # _AddressReader must be wrapped by SynchronizedClient to wait all servers.
 class _AddressReader:
     def __init__(self, path: str):
-        self._servers: List[str] = []
+        servers: List[Tuple[int, str]] = []
         for file_name in glob.glob(os.path.join(path, "*.servername")):
             with open(file_name, "r", newline=os.linesep) as f:
                 # First line is the address and the second - server index.
@@ -406,7 +406,9 @@ class _AddressReader:
                 assert len(raw) == 2
                 server_idx = int(raw[1])
                 if server_idx >= 0:
-                    self._servers.append(raw[0].rstrip(os.linesep))
+                    servers.append((server_idx, raw[0].rstrip(os.linesep)))
+        # Every worker must use the same list, ordered by server index.
+        self._servers: List[str] = [address for _, address in sorted(servers)]
 
     def servers(self) -> List[str]:
         return self._servers
-- 
2.43.0


From 111951fda93ba5076e0b88c08d4d9868a21ace83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:18:16 +0000
Subject: [PATCH 62/83] fix: read number of partitions from json metadata in
 the backend

---
 src/python/deepgnn/graph_engine/backends/snark/client.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/backends/snark/client.py b/src/python/deepgnn/graph_engine/backends/snark/client.py
index 1d755e5..2047d40 100644
--- a/src/python/deepgnn/graph_engine/backends/snark/client.py
+++ b/src/python/deepgnn/graph_engine/backends/snark/client.py
@@ -184,9 +184,8 @@ class SnarkDistributedBackend(GraphEngineBackend):
             # TODO(alsamylk): provide a better metadata reader in snark
             with open(os.path.join(options.data_dir, "meta.json"), "r") as meta:
                 # Use a simple heuristic: number of original partitions, but cap it at 4
-                # to avoid extreme cases. Partition count is written on 7th line.
-                lines = meta.readlines()
-                options.num_ge = min(int(lines[7]), 4)
+                # to avoid extreme cases.
+                options.num_ge = min(len(json.load(meta)["partitions"]), 4)
 
         # Use explicitly set index if it was provided
         if options.server_idx is not None:
-- 
2.43.0


From 616db71ad3e005445fa37712fc0073275a7e8f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:18:16 +0000
Subject: [PATCH 63/83] fix: do not reorder worker hosts of backend options

---
 src/python/deepgnn/graph_engine/backends/snark/client.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/backends/snark/client.py b/src/python/deepgnn/graph_engine/backends/snark/client.py
index 2047d40..b32c75a 100644
--- a/src/python/deepgnn/graph_engine/backends/snark/client.py
+++ b/src/python/deepgnn/graph_engine/backends/snark/client.py
@@ -290,9 +290,8 @@ class SnarkDistributedBackend(GraphEngineBackend):
 
     def _extract_server_index(self, workers: List[str], index: int) -> Optional[int]:
         curr_worker = workers[index]
-        workers.sort()
         seen_hosts = set()
-        for worker in workers:
+        for worker in sorted(workers):
             host = worker.rsplit(":", 1)[0]
             if curr_worker != worker:
                 seen_hosts.add(host)
-- 
2.43.0


From 0c8417a03a78351e183dfb2afb1aa8392d635b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:43:26 +0000
Subject: [PATCH 64/83] fix: download edge timestamps of remote partitions

---
 src/python/deepgnn/graph_engine/snark/_downloader.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/python/deepgnn/graph_engine/snark/_downloader.py b/src/python/deepgnn/graph_engine/snark/_downloader.py
index 6b84c13..cd6bc89 100644
--- a/src/python/deepgnn/graph_engine/snark/_downloader.py
+++ b/src/python/deepgnn/graph_engine/snark/_downloader.py
@@ -60,6 +60,12 @@ def download_graph_data(path: str, partitions: List[Tuple[str, int]]) -> GraphPa
                 mt._Element.EDGE, partition_path, partition_index, -1, fs.sep
             )
         )
+        # Use pattern matching to skip downloading timestamps of graphs without them.
+        lpath.append(
+            mt._get_element_timestamps_path(
+                mt._Element.EDGE, partition_path, partition_index, -1, fs.sep
+            )
+        )
         if graph_meta._node_feature_count > 0:
             lpath.append(
                 mt._get_element_features_data_path(
-- 
2.43.0


From 2b5a197ea711e99d9e01b8d947428ea909ffe5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:43:26 +0000
Subject: [PATCH 65/83] fix: download every partition from its own filesystem

---
 src/python/deepgnn/graph_engine/snark/_downloader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/_downloader.py b/src/python/deepgnn/graph_engine/snark/_downloader.py
index cd6bc89..2d2cd98 100644
--- a/src/python/deepgnn/graph_engine/snark/_downloader.py
+++ b/src/python/deepgnn/graph_engine/snark/_downloader.py
@@ -39,14 +39,13 @@ def download_graph_data(path: str, partitions: List[Tuple[str, int]]) -> GraphPa
     data_path = tempfile.TemporaryDirectory(suffix="_snark")
     fs.get(mt._get_meta_path(path, fs.sep), mt._get_meta_path(data_path.name))
     graph_meta = mt.Meta(data_path.name)
-    lpath = []
     for i in range(len(partitions)):
         partition_path, partition_index = partitions[i]
         fs, _ = get_fs(partition_path)
         if isinstance(fs, LocalFileSystem):
             continue
 
-        lpath.append(mt._get_node_map_path(partition_path, partition_index, -1, fs.sep))
+        lpath = [mt._get_node_map_path(partition_path, partition_index, -1, fs.sep)]
         lpath.append(
             mt._get_neighbors_index_path(partition_path, partition_index, -1, fs.sep)
         )
@@ -102,7 +101,8 @@ def download_graph_data(path: str, partitions: List[Tuple[str, int]]) -> GraphPa
             )
         )
 
+        # Every partition might be in its own folder or filesystem.
+        fs.get(lpath, data_path.name)
         partitions[i] = (data_path.name, partition_index)
 
-    fs.get(lpath, data_path.name)
     return GraphPath(data_path)
-- 
2.43.0


From 9059a787e7401af03460c2f70e422127edd0a356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:43:26 +0000
Subject: [PATCH 66/83] fix: download remote partitions of graphs with local
 metadata

---
 src/python/deepgnn/graph_engine/snark/_downloader.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/_downloader.py b/src/python/deepgnn/graph_engine/snark/_downloader.py
index 2d2cd98..b4d46e4 100644
--- a/src/python/deepgnn/graph_engine/snark/_downloader.py
+++ b/src/python/deepgnn/graph_engine/snark/_downloader.py
@@ -32,9 +32,12 @@ class GraphPath:
 
 
 def download_graph_data(path: str, partitions: List[Tuple[str, int]]) -> GraphPath:
-    """Download graph data to a temp folder if path is remote. If path is local, nothing is done."""
+    """Download graph data to a temp folder if any path is remote. If all paths are local, nothing is done."""
     fs, _ = get_fs(path)
-    if isinstance(fs, LocalFileSystem):
+    if all(
+        isinstance(get_fs(location)[0], LocalFileSystem)
+        for location in [path] + [partition_path for partition_path, _ in partitions]
+    ):
         return GraphPath(path)
     data_path = tempfile.TemporaryDirectory(suffix="_snark")
     fs.get(mt._get_meta_path(path, fs.sep), mt._get_meta_path(data_path.name))
-- 
2.43.0


From d2e8b48863186dbed5e48c0899e6bdef80514a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:43:26 +0000
Subject: [PATCH 67/83] fix: use right window size to generate skipgrams

---
 src/python/deepgnn/graph_engine/graph_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/graph_ops.py b/src/python/deepgnn/graph_engine/graph_ops.py
index 231f5c7..aad957c 100644
--- a/src/python/deepgnn/graph_engine/graph_ops.py
+++ b/src/python/deepgnn/graph_engine/graph_ops.py
@@ -82,7 +82,7 @@ def gen_skipgrams(
         # each path
         for j in range(0, path_len):
             left_start = max(0, j - left_win_size)
-            right_end = min(path_len - 1, j + left_win_size)
+            right_end = min(path_len - 1, j + right_win_size)
             for k in range(left_start, right_end + 1):
                 if k == j:
                     continue
-- 
2.43.0


From 7cc3dfbb0c4e44d82c2825878bb0f228fea19ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:43:26 +0000
Subject: [PATCH 68/83] fix: set self loops of subgraphs once

---
 src/python/deepgnn/graph_engine/graph_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/graph_ops.py b/src/python/deepgnn/graph_engine/graph_ops.py
index aad957c..950b34c 100644
--- a/src/python/deepgnn/graph_engine/graph_ops.py
+++ b/src/python/deepgnn/graph_engine/graph_ops.py
@@ -174,6 +174,6 @@ def sub_graph(
 
         # add self loop
         if self_loop:
-            adj += np.eye(n)
+            np.fill_diagonal(adj, 1)
 
         return unique_nodes, adj, src_nodes_idx
-- 
2.43.0


From 241c236028f9e4114d2a1aac82bd6975a9911fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:48:05 +0000
Subject: [PATCH 69/83] fix: sample the requested number of nodes with forest
 fire

---
 .../graph_engine/snark/preprocess/sampler/forest_fire.py    | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/python/deepgnn/graph_engine/snark/preprocess/sampler/forest_fire.py b/src/python/deepgnn/graph_engine/snark/preprocess/sampler/forest_fire.py
index 758144f..e8c36ee 100644
--- a/src/python/deepgnn/graph_engine/snark/preprocess/sampler/forest_fire.py
+++ b/src/python/deepgnn/graph_engine/snark/preprocess/sampler/forest_fire.py
@@ -72,6 +72,12 @@ def __forest_fire_helper(
                         q.append(pred)
                     else:
                         break
+
+                # Nodes without neighbors belong to the sample as well.
+                sample.add_node(initial_node)
+                # The last edge brings 2 new nodes even if only one is missing.
+                if len(sample.nodes()) > sample_size:
+                    sample.remove_node(q.pop())
         else:
             rand_node = list_nodes[(random.randint(0, len(list_nodes) - 1))]
             q.append(rand_node)
-- 
2.43.0


From 43fb88de1e88879f5916fbfaacde94b9bbc73403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:48:05 +0000
Subject: [PATCH 70/83] fix: check sample size of forest fire

---
 .../graph_engine/snark/preprocess/sampler/forest_fire.py       | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/deepgnn/graph_engine/snark/preprocess/sampler/forest_fire.py b/src/python/deepgnn/graph_engine/snark/preprocess/sampler/forest_fire.py
index e8c36ee..70c3ea9 100644
--- a/src/python/deepgnn/graph_engine/snark/preprocess/sampler/forest_fire.py
+++ b/src/python/deepgnn/graph_engine/snark/preprocess/sampler/forest_fire.py
@@ -16,6 +16,9 @@ def forest_fire(g: nx.digraph, sample_size: int) -> nx.digraph:
     sample_size: Number of nodes to be in the returned sample graph.
     """
     assert nx.is_directed(g), "Input graph must be a directed graph"
+    assert sample_size <= len(
+        g
+    ), "Sample size must not exceed the number of nodes in the graph"
     return __forest_fire_helper(g, sample_size, 0.37, 0.33)
 
 
-- 
2.43.0


From 179d386e6ec244fa701dbd3345be0985ef4c7718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:48:05 +0000
Subject: [PATCH 71/83] fix: select nodes to estimate average clustering

---
 .../deepgnn/graph_engine/snark/preprocess/sampler/metric.py   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/preprocess/sampler/metric.py b/src/python/deepgnn/graph_engine/snark/preprocess/sampler/metric.py
index 1a12496..287c912 100644
--- a/src/python/deepgnn/graph_engine/snark/preprocess/sampler/metric.py
+++ b/src/python/deepgnn/graph_engine/snark/preprocess/sampler/metric.py
@@ -51,8 +51,8 @@ def average_clustering(input_graph: nx.digraph, trials: int) -> float:
     g = nx.to_undirected(input_graph)
     n = len(g)
     triangles = 0
-    nodes = g.nodes()
-    for i in [random.randint(0, n) for _ in range(trials)]:
+    nodes = list(g.nodes())
+    for i in [random.randrange(n) for _ in range(trials)]:
         nbrs = list(g[nodes[i]])
         if len(nbrs) < 2:
             continue
-- 
2.43.0


From 9e1dda4c01fd936313819e21d4491f0b176e3967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:44:59 +0000
Subject: [PATCH 72/83] fix: pass default edge type to the weighted neighbor
 sampler

---
 src/python/deepgnn/graph_engine/snark/local.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/deepgnn/graph_engine/snark/local.py b/src/python/deepgnn/graph_engine/snark/local.py
index c7914a6..5961efa 100644
--- a/src/python/deepgnn/graph_engine/snark/local.py
+++ b/src/python/deepgnn/graph_engine/snark/local.py
@@ -118,6 +118,7 @@ class Client(Graph):
                 count,
                 default_node,
                 default_weight,
+                default_edge_type,
                 seed=int(random.getrandbits(64)),
                 timestamps=timestamps,
                 return_edge_created_ts=return_edge_created_ts,
-- 
2.43.0


From 78bd4f47910ed2c0d7f8632cf3b250dfe582238d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 13:00:57 +0000
Subject: [PATCH 73/83] fix: keep ctypes error callbacks alive while samplers
 are created from other threads

---
 src/python/deepgnn/graph_engine/snark/client.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/python/deepgnn/graph_engine/snark/client.py b/src/python/deepgnn/graph_engine/snark/client.py
index 0b4657a..53c3f97 100644
--- a/src/python/deepgnn/graph_engine/snark/client.py
+++ b/src/python/deepgnn/graph_engine/snark/client.py
@@ -93,6 +93,13 @@ class _DEEP_GRAPH(Structure):
 
 
 class _ErrCallback:
+    # A C function might be described again while another thread is calling it,
+    # ctypes doesn't hold a reference to the previous callback in this case.
+    _instances: Dict[str, "_ErrCallback"] = {}
+
+    def __new__(cls, method: str):
+        return cls._instances.setdefault(method, super().__new__(cls))
+
     def __init__(self, method: str):
         self.method = method
 
-- 
2.43.0


From 8218bb4c56379146b8cb28e8fea7476d233af25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 13:00:57 +0000
Subject: [PATCH 74/83] fix: create samplers on servers without partitions

---
 src/cc/lib/graph/sampler.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cc/lib/graph/sampler.cc b/src/cc/lib/graph/sampler.cc
index e776c3e..d451879 100644
--- a/src/cc/lib/graph/sampler.cc
+++ b/src/cc/lib/graph/sampler.cc
@@ -54,7 +54,11 @@ SamplerImpl<Partition, element>::SamplerImpl(std::vector<snark::Type> types,
         // Aggregate max number of elements can be sampled from the remaining partitions.
         // E.g. if there are 3 partitions with 5, 6 and 7 elements, then
         // m_partition_max should be [13, 7, 0]
-        std::partial_sum(last, last + m_partition_max.back().size() - 1, m_partition_min.back().rbegin() + 1);
+        // Servers without partitions have nothing to aggregate.
+        if (!m_partition_max.back().empty())
+        {
+            std::partial_sum(last, last + m_partition_max.back().size() - 1, m_partition_min.back().rbegin() + 1);
+        }
 
         m_type_weights.emplace_back(total_weight);
         m_type_max.emplace_back(total_weight);
-- 
2.43.0


From 35b40b575e4a778340b8b716115205bc500fc32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 13:00:57 +0000
Subject: [PATCH 75/83] fix: order records of uniform samplers, so that seeds
 reproduce the same samples

---
 src/cc/lib/graph/sampler.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/cc/lib/graph/sampler.cc b/src/cc/lib/graph/sampler.cc
index d451879..e805985 100644
--- a/src/cc/lib/graph/sampler.cc
+++ b/src/cc/lib/graph/sampler.cc
@@ -345,11 +345,9 @@ UniformNodeSamplerPartition<WithReplacement>::UniformNodeSamplerPartition(Metada
             node_set.insert(node);
         }
     }
-    m_records.reserve(node_set.size());
-    for (const auto &node : node_set)
-    {
-        m_records.emplace_back(node);
-    }
+    // Iteration order of the set is random, sort records to obtain deterministic results for sampling.
+    m_records.assign(std::begin(node_set), std::end(node_set));
+    std::sort(std::begin(m_records), std::end(m_records));
     m_weight = m_records.size();
 }
 
@@ -539,7 +537,10 @@ UniformEdgeSamplerPartition<WithReplacement>::UniformEdgeSamplerPartition(Metada
 
     m_src.reserve(edge_set.size());
     m_dst.reserve(edge_set.size());
-    for (const auto &edge : edge_set)
+    // Iteration order of the set is random, sort edges to obtain deterministic results for sampling.
+    std::vector<std::pair<NodeId, NodeId>> edges(std::begin(edge_set), std::end(edge_set));
+    std::sort(std::begin(edges), std::end(edges));
+    for (const auto &edge : edges)
     {
         m_src.emplace_back(edge.first);
         m_dst.emplace_back(edge.second);
-- 
2.43.0


From a5787a63cc13039da1eca6003261280e7c013f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 14:33:25 +0000
Subject: [PATCH 76/83] fix: merge weighted neighbor samples in the order of
 servers

Replies of several servers were merged by callbacks as they arrived.
The callbacks shared a random generator with the loop that was still
sending requests, and the result depended on which server answered first.
Merge the replies after all of them have arrived, in the order of servers.
---
 src/cc/lib/distributed/client.cc | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/cc/lib/distributed/client.cc b/src/cc/lib/distributed/client.cc
index 15a6aa7..169974e 100644
--- a/src/cc/lib/distributed/client.cc
+++ b/src/cc/lib/distributed/client.cc
@@ -777,20 +777,21 @@ void GRPCClient::WeightedSampleNeighbor(bool return_edge_created_ts, int64_t see
         auto response_reader =
             m_engine_stubs[shard]->PrepareAsyncWeightedSampleNeighbors(&call->context, request, NextCompletionQueue());
 
-        call->callback = [&reply = replies[shard], count, output_neighbors, output_types, output_weights,
-                          output_edge_created_ts, node_ids, &mtx, &engine, &shard_weights, default_node_id,
-                          default_weight, default_edge_type, return_edge_created_ts]() {
-            MergeWeightedSampledNeighbors(reply, mtx, count, output_neighbors, output_types, output_weights,
-                                          output_edge_created_ts, node_ids, engine, shard_weights, default_node_id,
-                                          default_weight, default_edge_type, return_edge_created_ts);
-        };
-
+        call->callback = []() {};
         futures.emplace_back(call->promise.get_future());
         response_reader->StartCall();
         response_reader->Finish(&replies[shard], &call->status, static_cast<void *>(call));
     }
 
     WaitForFutures(futures);
+
+    // Merge replies in the order of shards to get deterministic results.
+    for (const auto &reply : replies)
+    {
+        MergeWeightedSampledNeighbors(reply, mtx, count, output_neighbors, output_types, output_weights,
+                                      output_edge_created_ts, node_ids, engine, shard_weights, default_node_id,
+                                      default_weight, default_edge_type, return_edge_created_ts);
+    }
 }
 
 void GRPCClient::UniformSampleNeighbor(bool without_replacement, bool return_edge_created_ts, int64_t seed,
-- 
2.43.0


From 813b3afb03d100bfc6507923bd7f1b0e65edaba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 14:37:15 +0000
Subject: [PATCH 77/83] fix: report requests for samplers a restarted server
 does not know

A client that drew from a sampler created before its server was restarted
crashed the server, or got elements of a sampler of another client with
the same number. Give samplers numbers that differ between runs of a
server, refuse unknown numbers and pass the refusal on to the client.
---
 src/cc/lib/distributed/call_data.cc     |  4 ++--
 src/cc/lib/distributed/graph_sampler.cc | 11 +++++++++--
 src/cc/lib/distributed/graph_sampler.h  |  2 ++
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/cc/lib/distributed/call_data.cc b/src/cc/lib/distributed/call_data.cc
index ac46389..aaa1c26 100644
--- a/src/cc/lib/distributed/call_data.cc
+++ b/src/cc/lib/distributed/call_data.cc
@@ -261,9 +261,9 @@ void SampleElementsCallData::Proceed()
     else if (m_status == PROCESS)
     {
         new SampleElementsCallData(m_service, m_cq, m_service_impl);
-        m_service_impl.Sample(&m_ctx, &m_request, &m_reply);
+        const auto status = m_service_impl.Sample(&m_ctx, &m_request, &m_reply);
         m_status = FINISH;
-        m_responder.Finish(m_reply, grpc::Status::OK, this);
+        m_responder.Finish(m_reply, status, this);
     }
     else
     {
diff --git a/src/cc/lib/distributed/graph_sampler.cc b/src/cc/lib/distributed/graph_sampler.cc
index 6bc2321..0205b57 100644
--- a/src/cc/lib/distributed/graph_sampler.cc
+++ b/src/cc/lib/distributed/graph_sampler.cc
@@ -4,6 +4,7 @@
 #include "src/cc/lib/distributed/graph_sampler.h"
 #include "src/cc/lib/graph/sampler.h"
 #include <cstdio>
+#include <random>
 #include <thread>
 
 namespace snark
@@ -14,6 +15,7 @@ GraphSamplerServiceImpl::GraphSamplerServiceImpl(snark::Metadata metadata, std::
     : m_metadata(std::move(metadata)), m_partition_indices(std::move(partition_indices)),
       m_patrition_paths(std::move(partition_paths))
 {
+    m_first_sampler_id = uint64_t(std::random_device()()) << 24;
     if (!logger)
     {
         logger = std::make_shared<GLogger>();
@@ -61,7 +63,7 @@ grpc::Status GraphSamplerServiceImpl::Create(::grpc::ServerContext *context, con
     response->set_weight(sampler->Weight());
     {
         std::lock_guard l(m_mutex);
-        response->set_sampler_id(m_samplers.size());
+        response->set_sampler_id(m_first_sampler_id + m_samplers.size());
         m_samplers.emplace_back(std::move(sampler));
     }
 
@@ -79,7 +81,12 @@ grpc::Status GraphSamplerServiceImpl::Sample(::grpc::ServerContext *context, con
     snark::Sampler *sampler;
     {
         std::lock_guard l(m_mutex);
-        sampler = m_samplers[request->sampler_id()].get();
+        const auto index = request->sampler_id() - m_first_sampler_id;
+        if (index >= m_samplers.size())
+        {
+            return grpc::Status(grpc::StatusCode::FAILED_PRECONDITION, "Unknown sampler");
+        }
+        sampler = m_samplers[index].get();
     }
 
     const auto count = request->count();
diff --git a/src/cc/lib/distributed/graph_sampler.h b/src/cc/lib/distributed/graph_sampler.h
index 1e08e83..38b09eb 100644
--- a/src/cc/lib/distributed/graph_sampler.h
+++ b/src/cc/lib/distributed/graph_sampler.h
@@ -41,6 +41,8 @@ class GraphSamplerServiceImpl final : public snark::GraphSampler::Service
     absl::flat_hash_map<snark::CreateSamplerRequest_Category, std::shared_ptr<snark::SamplerFactory>>
         m_edge_sampler_factory;
     std::vector<std::unique_ptr<snark::Sampler>> m_samplers;
+    // Starts from a random number to recognise samplers created before a server was restarted.
+    uint64_t m_first_sampler_id;
     snark::Metadata m_metadata;
     std::vector<size_t> m_partition_indices;
     std::vector<std::string> m_patrition_paths;
-- 
2.43.0


From 8a6d4542e3e14b0f3619378d6a620ccb806370be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 15:26:16 +0000
Subject: [PATCH 78/83] fix: keep connection options when a distributed client
 is copied

Copies and serialised clients were connected without the grpc options and
thread settings of the original, so they lost its retry policy.
---
 src/python/deepgnn/graph_engine/snark/distributed.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/snark/distributed.py b/src/python/deepgnn/graph_engine/snark/distributed.py
index fca4834..e0e353d 100644
--- a/src/python/deepgnn/graph_engine/snark/distributed.py
+++ b/src/python/deepgnn/graph_engine/snark/distributed.py
@@ -33,6 +33,7 @@ class Client(ge_snark.Client):
             servers = [servers]
         self._servers = servers
         self._ssl_cert = ssl_cert
+        self._options = (grpc_options, num_threads, num_cq_per_thread)
         self.graph = client.DistributedGraph(
             servers,
             ssl_cert,
@@ -53,7 +54,7 @@ class Client(ge_snark.Client):
             get_logger().setLevel(logging.ERROR)
             return Client(*args)
 
-        return deserialize, (self._servers, self._ssl_cert)
+        return deserialize, (self._servers, self._ssl_cert, *self._options)
 
 
 class Server:
-- 
2.43.0


From 3f31dc6f9a2766bf95e9ac960d0bd3c3beb7c2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 15:26:16 +0000
Subject: [PATCH 79/83] fix: upload empty strings without ending the uploader

An empty chunk was taken for the end marker, so its process stopped and the
data written after it was lost.
---
 src/python/deepgnn/graph_engine/adl_uploader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/adl_uploader.py b/src/python/deepgnn/graph_engine/adl_uploader.py
index c015f0e..27b8d48 100644
--- a/src/python/deepgnn/graph_engine/adl_uploader.py
+++ b/src/python/deepgnn/graph_engine/adl_uploader.py
@@ -76,7 +76,7 @@ class MultiThreadsAdlDataWriter:
         out_file = None
         while True:
             chunk = self.data_queue.get()
-            if not chunk:
+            if chunk is None:
                 if out_file:
                     out_file.close()
                 self.data_queue.task_done()
@@ -213,7 +213,7 @@ class AdlDataWriter:
         )
         while True:
             chunk = self.data_queues[process_idx].get()
-            if not chunk or not uploader.is_alive():
+            if chunk is None or not uploader.is_alive():
                 break
             uploader.enqueue(chunk)
 
-- 
2.43.0


From b9f376bd1f32880820054ec7612d0bb6b1704bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 15:26:16 +0000
Subject: [PATCH 80/83] fix: do not wait for the queues of ended upload
 processes

write and close blocked forever on the full queue of a process that had
exited after a storage failure.
---
 .../deepgnn/graph_engine/adl_uploader.py      | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/adl_uploader.py b/src/python/deepgnn/graph_engine/adl_uploader.py
index 27b8d48..7b2db5d 100644
--- a/src/python/deepgnn/graph_engine/adl_uploader.py
+++ b/src/python/deepgnn/graph_engine/adl_uploader.py
@@ -223,8 +223,17 @@ class AdlDataWriter:
     def write(self, embed):
         """Write data to processing queue."""
         chunk = bytes(embed, "utf-8")
-        self.data_queues[self.total_chunk % len(self.processes)].put(chunk)
-        self.total_chunk += 1
+        # nobody empties the queue of a process that exited early.
+        while self.is_running:
+            try:
+                self.data_queues[self.total_chunk % len(self.processes)].put(
+                    chunk, timeout=1
+                )
+            except queue.Full:
+                continue
+            self.total_chunk += 1
+            return True
+        return False
 
     def writelines(self, embeds):
         """Write data line by line."""
@@ -268,8 +277,12 @@ class AdlDataWriter:
             self.is_running = False
 
             for i in range(len(self.processes)):
-                if self.processes[i].is_alive():
-                    self.data_queues[i].put(None)
+                while self.processes[i].is_alive():
+                    try:
+                        self.data_queues[i].put(None, timeout=1)
+                        break
+                    except queue.Full:
+                        continue
 
             for process in self.processes:
                 process.join()
-- 
2.43.0


From 0f64cfdcac59a173d5364b5c21cdacc1ee4cda5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 15:39:16 +0000
Subject: [PATCH 81/83] fix: load all partitions of a built dataset

Datasets converted to several partitions were opened with the first one only,
so most of their nodes were missing.
---
 src/python/deepgnn/graph_engine/data/data_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/data/data_util.py b/src/python/deepgnn/graph_engine/data/data_util.py
index 6e64d62..222437f 100644
--- a/src/python/deepgnn/graph_engine/data/data_util.py
+++ b/src/python/deepgnn/graph_engine/data/data_util.py
@@ -108,7 +108,7 @@ class Dataset(Client):
         self._build_graph_impl(
             self.input_location, self.output_dir, train_node_ratio, random_selection
         )
-        super().__init__(self.output_dir, partitions=[0])
+        super().__init__(self.output_dir, partitions=list(range(num_partitions)))
 
     def _build_graph_impl(
         self,
-- 
2.43.0


From 6ad51c438176ce391d1de1059226ca985ef27fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 15:39:16 +0000
Subject: [PATCH 82/83] fix: read datasets from where they were downloaded

The archive was looked for below the address instead of in the folder it was
downloaded to.
---
 src/python/deepgnn/graph_engine/data/data_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/data/data_util.py b/src/python/deepgnn/graph_engine/data/data_util.py
index 222437f..18cb2ae 100644
--- a/src/python/deepgnn/graph_engine/data/data_util.py
+++ b/src/python/deepgnn/graph_engine/data/data_util.py
@@ -120,7 +120,7 @@ class Dataset(Client):
         filename = self.GRAPH_NAME + ".zip"
         if "http" in self.input_location:
             download_file(input_location, ".", filename)
-            input_location = os.path.join(input_location, filename)
+            input_location = os.path.join(".", filename)
         if self.input_location == "local":
             package_name = "deepgnn.graph_engine.data"
             zip_filename = f"{self.GRAPH_NAME}.zip"
-- 
2.43.0


From 30d5e832e18d697100753d270c998c1e7003d6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 15:39:16 +0000
Subject: [PATCH 83/83] fix: build datasets without training nodes

Logging the range of training node ids failed when there were none.
---
 src/python/deepgnn/graph_engine/data/data_util.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/data/data_util.py b/src/python/deepgnn/graph_engine/data/data_util.py
index 18cb2ae..65b2979 100644
--- a/src/python/deepgnn/graph_engine/data/data_util.py
+++ b/src/python/deepgnn/graph_engine/data/data_util.py
@@ -173,11 +173,12 @@ class Dataset(Client):
         train_nodes = set([nid for nid in nodes if node_types[nid] == "train"])
         test_nodes = set([nid for nid in nodes if node_types[nid] == "test"])
         logging.info("*********** {} graph info *************".format(self.GRAPH_NAME))
-        logging.info(
-            "* node type: 0, id: {} ~ {}, num: {}".format(
-                min(train_nodes), max(train_nodes), len(train_nodes)
+        if len(train_nodes) > 0:
+            logging.info(
+                "* node type: 0, id: {} ~ {}, num: {}".format(
+                    min(train_nodes), max(train_nodes), len(train_nodes)
+                )
             )
-        )
         if len(test_nodes) > 0:
             logging.info(
                 "* node type: 1, id: {} ~ {}, num: {}".format(
-- 
2.43.0

