From c3793688b64e903f557551dea4eb696f474fecd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:21 +0000
Subject: [PATCH 01/44] fix: refresh forgets the sets of a file that was
 emptied or deleted

---
 pyuff/pyuff.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 32961f4..010df2a 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -169,6 +169,11 @@ class UFF:
         True otherwise.
         """
         self._refreshed = False
+        # forget what was known about an earlier content of the file
+        self._block_ind = []
+        self._n_sets = 0
+        self._set_types = np.array(())
+        self._set_formats = np.array(())
         if not self.file_exists():
             return False  # cannot read the file if it does not exist
         try:
-- 
2.43.0


From 4ea84d160956294a5e2175efba51047dcfb40304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:24 +0000
Subject: [PATCH 02/44] fix: report format 1 for binary (58b) data-sets

---
 pyuff/pyuff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 010df2a..22a198e 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -232,7 +232,7 @@ class UFF:
                     try:
                         block_data = data[si:ei + 1].splitlines()
                         self._set_types[ii] = int(block_data[1][0:6])
-                        if block_data[1][6].lower() == 'b':
+                        if block_data[1][6:7].lower() == b'b':
                             self._set_formats[ii] = 1
                     except:
                         # Some non-valid blocks found; ignore the exception
-- 
2.43.0


From d10a6c4e61726faa7b0a093c66c987ddf36e0e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:26 +0000
Subject: [PATCH 03/44] fix: read_sets reads all sets also when it has to
 refresh first

---
 pyuff/pyuff.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 22a198e..6a9e6fe 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -262,9 +262,7 @@ class UFF:
                      This usefull for large files.         
         """
         dset = []
-        if setn is None:
-            read_range = range(0, self._n_sets)
-        else:
+        if setn is not None:
             if (not type(setn).__name__ == 'list'):
                 read_range = [setn]
             else:
@@ -274,6 +272,8 @@ class UFF:
         if not self._refreshed:
             if not self.refresh():
                 raise Exception('Cannot read from the file: ' + self._filename)
+        if setn is None:
+            read_range = range(0, self._n_sets)
         try:
             for ii in read_range:
                 dset.append(self._read_set(ii, header_only=header_only))
-- 
2.43.0


From 0e87e0b2e7163dd0613b8a021d0499b0e750221f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:28 +0000
Subject: [PATCH 04/44] fix: build the message of a failed block read from a
 string

---
 pyuff/pyuff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 6a9e6fe..bb4058b 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -365,7 +365,7 @@ class UFF:
                     block_data = fh.read(ei - si + 1).decode('utf-8', errors='replace')
             except:
                 fh.close()
-                raise Exception('Error reading data-set #: ' + int(n))
+                raise Exception('Error reading data-set #: ' + str(int(n)))
             else:
                 fh.close()
         # Extracts the dset
-- 
2.43.0


From fa19b6d1a8645a83e9447d03ff0f5c3379d94f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:50 +0000
Subject: [PATCH 05/44] fix: leave the file unchanged when a data-set cannot be
 written

---
 pyuff/datasets/dataset_58.py | 16 ++++------------
 pyuff/pyuff.py               | 24 +++++++++++++++---------
 2 files changed, 19 insertions(+), 21 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 3d48c82..492767a 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -960,21 +960,13 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
                 data[2::3] = dset['data'].imag
         # always write data in double precision
         if dset['binary']:
-            fh.close()
-            if mode.lower() == 'overwrite':
-                fh = open(_filename, 'wb')
-            elif mode.lower() == 'add':
-                fh = open(_filename, 'ab')
+            # the header has to precede the binary data
+            fh.flush()
             # write data
             if bo == 1:
-                [fh.write(struct.pack('<d', datai)) for datai in data]
+                [fh.buffer.write(struct.pack('<d', datai)) for datai in data]
             else:
-                [fh.write(struct.pack('>d', datai)) for datai in data]
-            fh.close()
-            if mode.lower() == 'overwrite':
-                fh = open(_filename, 'wt', encoding='utf-8')
-            elif mode.lower() == 'add':
-                fh = open(_filename, 'at', encoding='utf-8')
+                [fh.buffer.write(struct.pack('>d', datai)) for datai in data]
         else:
             if is_double: # write double precision
                 n4_blocks = len(data) // 4
diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index bb4058b..7f6234b 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -40,6 +40,7 @@ Notes:
     >>> uff_file.file_exists()
     True
 """
+import io
 import os
 import numpy as np
 import warnings
@@ -423,18 +424,16 @@ class UFF:
         """
         if mode.lower() == 'overwrite':
             # overwrite mode
-            try:
-                fh = open(self._filename, 'wt', encoding='utf-8')
-            except:
-                raise Exception('Cannot access the file: ' + self._filename + ' to write to.')
+            file_mode = 'wb'
         elif mode.lower() == 'add':
             # add (append) mode
-            try:
-                fh = open(self._filename, 'at', encoding='utf-8')
-            except:
-                raise Exception('Cannot access the file: ' + self._filename + ' to write to.')
+            file_mode = 'ab'
         else:
             raise Exception('Unknown mode: ' + mode)
+        # The data-set is written to memory first, so that the file is
+        # changed only when the whole data-set can be written.
+        buffer = io.BytesIO()
+        fh = io.TextIOWrapper(buffer, encoding='utf-8')
         try:
             # Actual writing
             try:
@@ -483,7 +482,14 @@ class UFF:
             fh.close()
             raise  # re-raise the last exception
         else:
-            fh.close()
+            fh.flush()
+            try:
+                with open(self._filename, file_mode) as file:
+                    file.write(buffer.getvalue())
+            except:
+                raise Exception('Cannot access the file: ' + self._filename + ' to write to.')
+            finally:
+                fh.close()
         self.refresh()
 
 
-- 
2.43.0


From dfa885cb6905012f86dfaa312583cfe0f83011b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:12 +0000
Subject: [PATCH 06/44] fix: count all values of complex or uneven data in
 n_bytes of 58b

---
 pyuff/datasets/dataset_58.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 492767a..3564771 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -871,6 +871,7 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
                 'version_num': 0,
                 'abscissa_spacing': 0}
         dset = _opt_fields(dset, dict)
+        is_even = bool(dset['abscissa_spacing'])  # handling even/uneven abscissa spacing manually
 
         # Write strings to the file - always in double precision 
         # => ord_data_type = 2 (single) and 4 (double) for real data 
@@ -886,20 +887,20 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
             if force_double:
                 dset['ord_data_type'] = 6
 
+        # number of values stored for each point
+        n_vals = (1 if is_r else 2) + (0 if is_even else 1)
         if dset['ord_data_type'] in [4, 6]: # double precision
             is_double = True
-            n_bytes = num_pts * 8
+            n_bytes = num_pts * n_vals * 8
         elif dset['ord_data_type'] in [2, 5]: # sigle precision
             is_double = False
-            n_bytes = num_pts * 4
+            n_bytes = num_pts * n_vals * 4
 
         if 'n_bytes' in dset.keys():
             dset['n_bytes'] = n_bytes
 
         ord_data_type = dset['ord_data_type']
 
-        is_even = bool(dset['abscissa_spacing'])  # handling even/uneven abscissa spacing manually
-
         # handling abscissa spacing automatically
         # is_even = len( set( [ dset['x'][ii]-dset['x'][ii-1] for ii in range(1,len(dset['x'])) ] ) ) == 1
         dset['abscissa_min'] = dset['x'][0]
-- 
2.43.0


From eedad14d24085b23a7b2fc3f3ce03ed535a1d452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:15 +0000
Subject: [PATCH 07/44] fix: write single precision 58b data with 4 bytes per
 value

---
 pyuff/datasets/dataset_58.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 3564771..8c6a355 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -959,15 +959,13 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
                 data[0:-2:3] = dset['x']
                 data[1:-1:3] = dset['data'].real
                 data[2::3] = dset['data'].imag
-        # always write data in double precision
+        # write data in the precision stated by ord_data_type
         if dset['binary']:
             # the header has to precede the binary data
             fh.flush()
             # write data
-            if bo == 1:
-                [fh.buffer.write(struct.pack('<d', datai)) for datai in data]
-            else:
-                [fh.buffer.write(struct.pack('>d', datai)) for datai in data]
+            fmt = ('<' if bo == 1 else '>') + ('d' if is_double else 'f')
+            [fh.buffer.write(struct.pack(fmt, datai)) for datai in data]
         else:
             if is_double: # write double precision
                 n4_blocks = len(data) // 4
-- 
2.43.0


From 3c7e545b84bbbf08fed0233862bb9b38aefec363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:46 +0000
Subject: [PATCH 08/44] fix: write single precision 58b values that exceed its
 range

---
 pyuff/datasets/dataset_58.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 8c6a355..38d6821 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -965,6 +965,10 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
             fh.flush()
             # write data
             fmt = ('<' if bo == 1 else '>') + ('d' if is_double else 'f')
+            if not is_double:
+                # values beyond the range of single precision become the largest ones
+                with np.errstate(over='ignore'):
+                    data = np.nan_to_num(np.asarray(data, dtype=np.float32))
             [fh.buffer.write(struct.pack(fmt, datai)) for datai in data]
         else:
             if is_double: # write double precision
-- 
2.43.0


From c7a54238bb8731de027979167cb04edee7a433c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:48 +0000
Subject: [PATCH 09/44] fix: state real or complex truthfully in ord_data_type
 of data-set 58

---
 pyuff/datasets/dataset_58.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 38d6821..7950865 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -882,10 +882,14 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
             # real data
             if force_double:
                 dset['ord_data_type'] = 4
+            elif dset['ord_data_type'] in [5, 6]:
+                dset['ord_data_type'] = {5: 2, 6: 4}[dset['ord_data_type']]
         else:
             # complex data
             if force_double:
                 dset['ord_data_type'] = 6
+            elif dset['ord_data_type'] in [2, 4]:
+                dset['ord_data_type'] = {2: 5, 4: 6}[dset['ord_data_type']]
 
         # number of values stored for each point
         n_vals = (1 if is_r else 2) + (0 if is_even else 1)
-- 
2.43.0


From 5a3e4809fb8b2734d46d272e798c2d28f6f9f22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:50 +0000
Subject: [PATCH 10/44] fix: write data-set 58 with a single point

---
 pyuff/datasets/dataset_58.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 7950865..1030421 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -908,7 +908,7 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
         # handling abscissa spacing automatically
         # is_even = len( set( [ dset['x'][ii]-dset['x'][ii-1] for ii in range(1,len(dset['x'])) ] ) ) == 1
         dset['abscissa_min'] = dset['x'][0]
-        dx = dset['x'][1] - dset['x'][0]
+        dx = dset['x'][1] - dset['x'][0] if len(dset['x']) > 1 else 0.
         fh.write('%6i\n%6i' % (-1, 58))
         if dset['binary']:
             if sys.byteorder == 'little':
-- 
2.43.0


From ca7aaa7d2da36794e768b175d8d60e1459af2485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:12 +0000
Subject: [PATCH 11/44] fix: do not take a -1 or binary data inside a data-set
 for its end

---
 pyuff/pyuff.py | 65 ++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 63 insertions(+), 2 deletions(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 7f6234b..04168ce 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -42,6 +42,7 @@ Notes:
 """
 import io
 import os
+import re
 import numpy as np
 import warnings
 warnings.simplefilter("default")
@@ -66,6 +67,66 @@ from .datasets.dataset_2467 import _write2467, _extract2467, get_structure_2467
 _SUPPORTED_SETS = ['15', '18', '55', '58', '58b', '82', '151', '164', '1858', '2400', '2411', '2412', '2414', '2420', '2429', '2467']
 
 
+def _select_delimiters(data, tags):
+    """
+    Selects the tags ('    -1' at the end of a line) that open or close a data-set.
+
+    A tag may also be a part of a data-set: a record can end with the number -1
+    and the binary data of a 58b data-set can contain any bytes.
+
+    :param data: content of the file
+    :param tags: offsets of all the tags, sorted
+    """
+    def at_line_start(tag):
+        return tag == 0 or data[tag - 1] in b'\r\n'
+
+    def next_line(ind):
+        """Offset of the line following the one at offset ind."""
+        line_end = re.compile(b'\r\n|\r|\n').search(data, ind)
+        return len(data) if line_end is None else line_end.end()
+
+    def closes_binary(tag, end):
+        """Is there nothing but a line end between the end of the data and the tag?"""
+        return end <= tag <= end + 2 and data[end:tag] in (b'', b'\n', b'\r', b'\r\n')
+
+    def closes_ascii(ii):
+        """Does the tag, following some text in its line, close the data-set (see fix_58b)?"""
+        following = next_line(tags[ii])
+        if re.compile(rb'\s*\Z').match(data, following):
+            return True
+        return following in tags[ii + 1:ii + 2] and \
+            re.match(rb' {0,5}\d{1,6}(b| |\r|\n)', data[next_line(following):][:8], re.I) is not None
+
+    selected = []
+    ii = 0
+    while ii < len(tags):
+        if not at_line_start(tags[ii]):
+            ii += 1
+            continue
+        # tag that opens a data-set; find the closing one
+        selected.append(tags[ii])
+        ii += 1
+        id_line = next_line(tags[ii - 1])
+        if data[id_line + 6:id_line + 7].lower() == b'b':
+            # 58b: the amount of binary data is given in the header
+            try:
+                end = id_line
+                for _ in range(12):
+                    end = next_line(end)
+                end += int(data[id_line + 31:id_line + 43])
+                closing = next(jj for jj in range(ii, len(tags)) if closes_binary(tags[jj], end))
+            except (ValueError, StopIteration):
+                # wrong header; use the next tag
+                closing = ii
+        else:
+            closing = next((jj for jj in range(ii, len(tags))
+                            if at_line_start(tags[jj]) or closes_ascii(jj)), len(tags))
+        if closing < len(tags):
+            selected.append(tags[closing])
+        ii = closing + 1
+    return selected
+
+
 class UFF:
     """
     Manages data reading and writing from/to the UFF file.
@@ -200,11 +261,11 @@ class UFF:
                     elif ind+6 < data_len and data[ind+6] in [10, 13]:
                         block_ind.append(ind)
                     # Check the line continues with blanks up to character 80
-                    elif ind+80 < data_len and data[ind+6:ind+80] == \
+                    elif ind+80 <= data_len and data[ind+6:ind+80] == \
                         b'                                                                          ':
                         block_ind.append(ind)
                     
-                block_ind = np.asarray(block_ind, dtype='int64')
+                block_ind = np.asarray(_select_delimiters(data, block_ind), dtype='int64')
 
                 # Constructs block indices of start and end values; each pair
                 # points to start and end offset of the data-set (block) data,
-- 
2.43.0


From fe0d28aa358997c04d3429f17291bfedfd81c9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 12/44] fix: keep exactly the n_nodes nodes of a trace line
 (82), repeated ones too

---
 pyuff/datasets/dataset_82.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyuff/datasets/dataset_82.py b/pyuff/datasets/dataset_82.py
index 4e0459a..aff02d1 100644
--- a/pyuff/datasets/dataset_82.py
+++ b/pyuff/datasets/dataset_82.py
@@ -52,9 +52,7 @@ def _write82(fh, dset):
         # write strings to the file
         # removed jul 2017: unique_nodes = set(dset['nodes'])
         # removed jul 2017:if 0 in unique_nodes: unique_nodes.remove(0)
-        # number of changes of node need to
-        # n_nodes = len(dset['nodes'])
-        n_nodes = np.sum((dset['nodes'][1:] - dset['nodes'][:-1]) != 0) + 1
+        n_nodes = len(dset['nodes'])
         fh.write('%6i\n%6i%74s\n' % (-1, 82, ' '))
         fh.write('%10i%10i%10i\n' % (dset['trace_num'], n_nodes, dset['color']))
         fh.write('%-80s\n' % dset['id'])
@@ -86,7 +84,8 @@ def _extract82(block_data):
         dset.update(_parse_header_line(split_data[3], 1, [80], [1], ['id']))
         split_data = ''.join(split_data[4:])
         split_data = split_data.split()
-        dset['nodes'] = np.asarray([float(str) for str in split_data])
+        # the last record can be filled up with zeros
+        dset['nodes'] = np.asarray([float(str) for str in split_data[:dset['n_nodes']]])
     except:
         raise Exception('Error reading data-set #82')
     return dset
-- 
2.43.0


From f957fdb92c846a0966b4d1af6c0ffdbf44f4177d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:07 +0000
Subject: [PATCH 13/44] fix: write record 1 of data-set 1858 in the columns it
 is read from

---
 pyuff/datasets/dataset_1858.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_1858.py b/pyuff/datasets/dataset_1858.py
index ed7a475..1017d81 100644
--- a/pyuff/datasets/dataset_1858.py
+++ b/pyuff/datasets/dataset_1858.py
@@ -112,7 +112,7 @@ def _write1858(fh, dset):
         dset = _opt_fields(dset, dict)
         fh.write('%6i\n%6i%74s\n' % (-1, 1858, ' '))
 
-        fh.write('%10i%10i%10i%10i%10i%10i\n' % (
+        fh.write('%12i%12i%12i%12i%12i%12i\n' % (
             dset['record_num'],
             dset['octave_format'],
             dset['measurement_run'],
-- 
2.43.0


From acb0c82c2dfc295267dbd90c677691cc71b75a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 14/44] fix: keep the columns of negative values in the header
 of data-set 2414

---
 pyuff/datasets/dataset_2414.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index ef84fe7..fd57159 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -594,14 +594,14 @@ def _write2414(fh, dset):
             fh.write('%10i%10i\n' % (
                                             dset['creation_option'], 
                                             dset['number_retained']))
-            fh.write('  %.5e  %.5e  %.5e  %.5e  %.5e  %.5e\n' % (
+            fh.write('%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' % (
                                             dset['time'], 
                                             dset['frequency'], 
                                             dset['eigenvalue'], 
                                             dset['modal_mass'],
                                             dset['viscous_damping'], 
                                             dset['hysteretic_damping']))
-            fh.write('  %.5e  %.5e  %.5e  %.5e  %.5e  %.5e\n' % (
+            fh.write('%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' % (
                                             dset['real_part_eigenvalue'], 
                                             dset['imaginary_part_eigenvalue'], 
                                             dset['real_part_of_modal_A_or_modal_mass'], 
@@ -651,14 +651,14 @@ def _write2414(fh, dset):
                                             dset['record11_field6'], 
                                             dset['record11_field7'],
                                             dset['record11_field8']))
-            fh.write('  %.5e  %.5e  %.5e  %.5e  %.5e  %.5e\n' % (
+            fh.write('%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' % (
                                             dset['record12_field1'], 
                                             dset['record12_field2'],
                                             dset['record12_field3'],
                                             dset['record12_field4'], 
                                             dset['record12_field5'],
                                             dset['record12_field6']))
-            fh.write('  %.5e  %.5e  %.5e  %.5e  %.5e  %.5e\n' % (
+            fh.write('%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' % (
                                             dset['record13_field1'], 
                                             dset['record13_field2'],
                                             dset['record13_field3'],
-- 
2.43.0


From 1d5d19d9de88d089c336b80d5b7fcd4caf41d4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 15/44] fix: close a data-set 2414 with dataset location 5

---
 pyuff/datasets/dataset_2414.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index fd57159..d4b58fe 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -699,6 +699,7 @@ def _write2414(fh, dset):
 
             elif dset['dataset_location'] == 5:
                 print('Dataset location 5 has not been implemented yet for writing dataset 2414.')
+                fh.write('%6i\n' % (-1))
 
             else:
                 print('Unknown dataset location ' + str(dset['dataset_location']) + '.')
-- 
2.43.0


From 0818416529c28f5ad1284a0c8dffa6f154a7398d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 16/44] fix: write all the groups and entities of data-set 2429

---
 pyuff/datasets/dataset_2429.py | 50 +++++++++++++++-------------------
 1 file changed, 22 insertions(+), 28 deletions(-)

diff --git a/pyuff/datasets/dataset_2429.py b/pyuff/datasets/dataset_2429.py
index 89c9bbb..3f76220 100644
--- a/pyuff/datasets/dataset_2429.py
+++ b/pyuff/datasets/dataset_2429.py
@@ -111,36 +111,30 @@ def _write2429(fh, dset):
                 'active_temperature_set_no_for_group': 0,
                 'active_contact_set_no_for_group': 0 }
 
-        dset = _opt_fields(dset, dict)
         fh.write('%6i\n%6i\n' % (-1, 2429))
 
-        # Record 1
-        # Field 8 (last field) contains the number or entities in the group
-        fh.write('%10i%10i%10i%10i%10i%10i%10i%10i\n' % (dset['group_number'], 
-                                                            dset['active_constraint_set_no_for_group'],
-                                                            dset['active_restraint_set_no_for_group'],
-                                                            dset['active_load_set_no_for_group'],
-                                                            dset['active_dof_set_no_for_group'],
-                                                            dset['active_temperature_set_no_for_group'],
-                                                            dset['active_contact_set_no_for_group'],
-                                                            len(dset['entity_type_code'])))
-        # Record 2
-        fh.write('%-40s\n' % (dset['group_name']))
-
-        # Record 3-N
-        # Write the full lines (which have 4 pairs)
-        for i in range(len(dset['entity_type_code']) // 4):
-            fh.write('%10i%10i%10i%10i%10i%10i%10i%10i\n' % (dset['entity_type_code'][i * 4], dset['entity_tag'][i * 4],
-                                                                dset['entity_type_code'][i * 4 + 1], dset['entity_tag'][i * 4 + 1],
-                                                                dset['entity_type_code'][i * 4 + 2], dset['entity_tag'][i * 4 + 2],
-                                                                dset['entity_type_code'][i * 4 + 3], dset['entity_tag'][i * 4 + 3]))
-        # Write the last line
-        for i in range(len(dset['entity_type_code']) % 4):
-            # don't write the line break just yet
-            fh.write('%10i%10i' % (dset['entity_type_code'][i * 4], dset['entity_tag'][i * 4]))
-        # Write the missing line break, but only if a non full last line has been written
-        if (len(dset['entity_type_code']) % 4 != 0):
-            fh.write('\n')
+        # a data-set without 'groups' describes a single group itself
+        for group in dset.get('groups', [dset]):
+            group = _opt_fields(group, dict)
+            # Record 1
+            # Field 8 (last field) contains the number or entities in the group
+            fh.write('%10i%10i%10i%10i%10i%10i%10i%10i\n' % (group['group_number'], 
+                                                                group['active_constraint_set_no_for_group'],
+                                                                group['active_restraint_set_no_for_group'],
+                                                                group['active_load_set_no_for_group'],
+                                                                group['active_dof_set_no_for_group'],
+                                                                group['active_temperature_set_no_for_group'],
+                                                                group['active_contact_set_no_for_group'],
+                                                                len(group['entity_type_code'])))
+            # Record 2
+            fh.write('%-40s\n' % (group['group_name']))
+
+            # Record 3-N, 4 pairs per line
+            for i in range(0, len(group['entity_type_code']), 4):
+                for j in range(i, min(i + 4, len(group['entity_type_code']))):
+                    # don't write the line break just yet
+                    fh.write('%10i%10i' % (group['entity_type_code'][j], group['entity_tag'][j]))
+                fh.write('\n')
 
         fh.write('%6i\n' % -1)
 
-- 
2.43.0


From c2ae3bc05962103dea2a6641a8e3093f3e3908b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:48 +0000
Subject: [PATCH 17/44] fix: read a last group without entities of data-set
 2429

---
 pyuff/datasets/dataset_2429.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_2429.py b/pyuff/datasets/dataset_2429.py
index 3f76220..5f74dac 100644
--- a/pyuff/datasets/dataset_2429.py
+++ b/pyuff/datasets/dataset_2429.py
@@ -150,7 +150,7 @@ def _extract2429(block_data):
         
         # there can be multiple groups in the data-set, therefore need to loop.
         lineIndex = 2
-        while lineIndex < len(split_data) - 2:
+        while lineIndex < len(split_data) - 1:
             group = {}
             group.update(_parse_header_line(split_data[lineIndex], 8, [10, 10, 10, 10, 10, 10, 10, 10], [2, 2, 2, 2, 2, 2, 2, 2],
                                             ['group_number', 'active_constraint_set_no_for_group', 'active_restraint_set_no_for_group', 'active_load_set_no_for_group',
-- 
2.43.0


From 76d5d51f3978d09c21ccef3d35827b11ba63c788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:51 +0000
Subject: [PATCH 18/44] fix: keep the temperature and contact set numbers in
 prepare_group

---
 pyuff/datasets/dataset_2429.py | 4 ++--
 pyuff/datasets/dataset_2467.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyuff/datasets/dataset_2429.py b/pyuff/datasets/dataset_2429.py
index 5f74dac..02e89db 100644
--- a/pyuff/datasets/dataset_2429.py
+++ b/pyuff/datasets/dataset_2429.py
@@ -253,8 +253,8 @@ def prepare_group(
         'active_restraint_set_no_for_group':  active_restraint_set_no_for_group,
         'active_load_set_no_for_group': active_load_set_no_for_group,
         'active_dof_set_no_for_group': active_dof_set_no_for_group,
-        'active_temperature_set_no_for_group': active_dof_set_no_for_group,
-        'active_contact_set_no_for_group': active_dof_set_no_for_group,
+        'active_temperature_set_no_for_group': active_temperature_set_no_for_group,
+        'active_contact_set_no_for_group': active_contact_set_no_for_group,
         }
     
     if return_full_dict is False:
diff --git a/pyuff/datasets/dataset_2467.py b/pyuff/datasets/dataset_2467.py
index 324cf46..40f96de 100644
--- a/pyuff/datasets/dataset_2467.py
+++ b/pyuff/datasets/dataset_2467.py
@@ -240,8 +240,8 @@ def prepare_group(
         'active_restraint_set_no_for_group': active_restraint_set_no_for_group,
         'active_load_set_no_for_group': active_load_set_no_for_group,
         'active_dof_set_no_for_group': active_dof_set_no_for_group,
-        'active_temperature_set_no_for_group': active_dof_set_no_for_group,
-        'active_contact_set_no_for_group': active_dof_set_no_for_group,
+        'active_temperature_set_no_for_group': active_temperature_set_no_for_group,
+        'active_contact_set_no_for_group': active_contact_set_no_for_group,
     }
 
     if return_full_dict is False:
-- 
2.43.0


From 49aaf123585bbb55081022816965857e4b46325f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 19/44] fix: check the groups of prepare_2467 against the right
 arguments

---
 pyuff/datasets/dataset_2467.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyuff/datasets/dataset_2467.py b/pyuff/datasets/dataset_2467.py
index 40f96de..4acb605 100644
--- a/pyuff/datasets/dataset_2467.py
+++ b/pyuff/datasets/dataset_2467.py
@@ -282,6 +282,8 @@ def prepare_2467(
             item['group_name'],
             item['entity_type_code'],
             item['entity_tag'],
+            item['entity_node_leaf_id'],
+            item['entity_component_id'],
             item['active_constraint_set_no_for_group'],
             item['active_restraint_set_no_for_group'],
             item['active_load_set_no_for_group'],
-- 
2.43.0


From 4e5cf1dd244c8b990b122046184e30ce8135954b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 20/44] fix: default the set numbers of the groups of data-set
 2467

---
 pyuff/datasets/dataset_2467.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_2467.py b/pyuff/datasets/dataset_2467.py
index 4acb605..d4408d3 100644
--- a/pyuff/datasets/dataset_2467.py
+++ b/pyuff/datasets/dataset_2467.py
@@ -61,10 +61,10 @@ def _write2467(fh, dset):
                 'active_temperature_set_no_for_group': 0,
                 'active_contact_set_no_for_group': 0}
 
-        dset = _opt_fields(dset, dict)
         fh.write('%6i\n%6i\n' % (-1, 2467))
 
         for group in dset['groups']:
+            group = _opt_fields(group, dict)
             # Record 1
             # Field 8 (last field) contains the number or entities in the group
             fh.write('%10i%10i%10i%10i%10i%10i%10i%10i\n' % (group['group_number'],
-- 
2.43.0


From c10a2e7dce54f9387cbfe0ccf4d04f662bf333de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:20 +0000
Subject: [PATCH 21/44] fix: do not print the groups when reading data-set 2467

---
 pyuff/datasets/dataset_2467.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pyuff/datasets/dataset_2467.py b/pyuff/datasets/dataset_2467.py
index d4408d3..da5e710 100644
--- a/pyuff/datasets/dataset_2467.py
+++ b/pyuff/datasets/dataset_2467.py
@@ -124,7 +124,6 @@ def _extract2467(block_data):
     lineIndex = 0
     while lineIndex < len(split_data):
         group = {}
-        print(f"<{split_data[lineIndex]}>")
         group.update(
             _parse_header_line(split_data[lineIndex], 8, [10, 10, 10, 10, 10, 10, 10, 10], [2, 2, 2, 2, 2, 2, 2, 2],
                                ['group_number', 'active_constraint_set_no_for_group',
@@ -141,8 +140,6 @@ def _extract2467(block_data):
         group['entity_tag'] = np.array(values[1::4].copy(), dtype=int)
         group['entity_node_leaf_id'] = np.array(values[2::4].copy(), dtype=int)
         group['entity_component_id'] = np.array(values[3::4].copy(), dtype=int)
-        print(group)
-        print("\n\n")
         dset['groups'].append(group)  # dset is a dictionary, but 'groups' is a list
 
         lineIndex = indexLastLineForGroup
-- 
2.43.0


From d839b3f5c777d15322b1317b7a5f64b548f5f59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:22 +0000
Subject: [PATCH 22/44] fix: write the orientation record of all beam elements
 of data-set 2412

---
 pyuff/datasets/dataset_2412.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyuff/datasets/dataset_2412.py b/pyuff/datasets/dataset_2412.py
index 301f169..48d8fe3 100644
--- a/pyuff/datasets/dataset_2412.py
+++ b/pyuff/datasets/dataset_2412.py
@@ -44,6 +44,10 @@ Records 1 - 3 are repeated for each beam element in the model.
     else:
         print(out)   
 
+# Elements that are seen as rods and covered by 3 records
+RODS = {11, 21, 22, 23, 24}
+
+
 def _write2412(fh, dset):
     try:
         fh.write('%6i\n%6i%74s\n' % (-1, 2412, ' '))
@@ -60,7 +64,7 @@ def _write2412(fh, dset):
                     elem['color'],
                     elem['num_nodes'],
                 ))
-                if elem['fe_descriptor'] == 11:
+                if elem['fe_descriptor'] in RODS:
                 # Rods have to be written in 3 lines - ad additional line here
                     fh.write('%10i%10i%10i\n' % (
                         elem['beam_orientation'],
@@ -80,8 +84,6 @@ def _extract2412(block_data):
     dset = {'type': 2412}
     # Define dictionary of possible elements types for legacy interface
     elt_type_dict = {41: 'triangle', 44: 'quad'}
-    # Elements that are seen as rods and read as 3 lines
-    rods_dict = {11, 21, 22, 23, 24}
 
     # Read data
     try:
@@ -99,7 +101,7 @@ def _extract2412(block_data):
             dict_tmp['mat_table'] = int(line[3])
             dict_tmp['color'] = int(line[4])
             dict_tmp['num_nodes'] = int(line[5])
-            if dict_tmp['fe_descriptor'] in rods_dict:
+            if dict_tmp['fe_descriptor'] in RODS:
                 # element is a rod and covers 3 lines
                 dict_tmp['beam_orientation'] = int(split_data[i+1][0])
                 dict_tmp['beam_foreend_cross'] = int(split_data[i + 1][1])
-- 
2.43.0


From 1e1e9fe670b50302bcf86e10f79f2e892d11e600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:24 +0000
Subject: [PATCH 23/44] fix: wrap the nodes of elements with more than 8 nodes
 (2412)

---
 pyuff/datasets/dataset_2412.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pyuff/datasets/dataset_2412.py b/pyuff/datasets/dataset_2412.py
index 48d8fe3..8f6af1c 100644
--- a/pyuff/datasets/dataset_2412.py
+++ b/pyuff/datasets/dataset_2412.py
@@ -71,9 +71,11 @@ def _write2412(fh, dset):
                         elem['beam_foreend_cross'],
                         elem['beam_aftend_cross']
                     ))
-                for ii in elem['nodes_nums']:
-                    fh.write('%10i' % ii)
-                fh.write('\n')
+                # 8 nodes per line
+                for jj in range(0, max(len(elem['nodes_nums']), 1), 8):
+                    for ii in elem['nodes_nums'][jj:jj + 8]:
+                        fh.write('%10i' % ii)
+                    fh.write('\n')
         fh.write('%6i\n' % -1)
     except:
         raise Exception('Error writing data-set #2412')
@@ -106,12 +108,16 @@ def _extract2412(block_data):
                 dict_tmp['beam_orientation'] = int(split_data[i+1][0])
                 dict_tmp['beam_foreend_cross'] = int(split_data[i + 1][1])
                 dict_tmp['beam_aftend_cross'] = int(split_data[i + 1][2])
-                dict_tmp['nodes_nums'] = [int(e) for e in split_data[i+2]]
-                i += 3
+                i += 2
             else:
                 # element is no rod and covers 2 lines
-                dict_tmp['nodes_nums'] = [int(e) for e in split_data[i+1]]
-                i += 2
+                i += 1
+            dict_tmp['nodes_nums'] = [int(e) for e in split_data[i]]
+            i += 1
+            # further lines if there are more than 8 nodes
+            while 0 < len(dict_tmp['nodes_nums']) < dict_tmp['num_nodes'] and len(dict_tmp['nodes_nums']) % 8 == 0:
+                dict_tmp['nodes_nums'].extend([int(e) for e in split_data[i]])
+                i += 1
             desc = dict_tmp['fe_descriptor']
             if not desc in dset:
                 dset[desc] = []
-- 
2.43.0


From 3b4767728490ad709cb322ef2453b7af0b08c1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:00 +0000
Subject: [PATCH 24/44] fix: write elements of data-set 2412 that are given as
 triangle or quad

---
 pyuff/datasets/dataset_2412.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pyuff/datasets/dataset_2412.py b/pyuff/datasets/dataset_2412.py
index 8f6af1c..1b43f10 100644
--- a/pyuff/datasets/dataset_2412.py
+++ b/pyuff/datasets/dataset_2412.py
@@ -51,11 +51,20 @@ RODS = {11, 21, 22, 23, 24}
 def _write2412(fh, dset):
     try:
         fh.write('%6i\n%6i%74s\n' % (-1, 2412, ' '))
-        for el_type in dset:
+        elements = dict(dset)
+        for num, name in ((41, 'triangle'), (44, 'quad')):
+            if name in dset and num not in dset:
+                # Elements given only by the legacy interface (see prepare_2412)
+                elements[num] = []
+                for ii, nodes in enumerate(dset[name]['nodes_nums'][:len(dset[name]['element_nums'])]):
+                    elem = {key: values[ii] for key, values in dset[name].items()
+                            if key not in ('type', 'nodes_nums', 'num_nodes')}
+                    elements[num].append({**elem, 'num_nodes': len(nodes), 'nodes_nums': nodes})
+        for el_type in elements:
             if type(el_type) is not int:
                 # Skip 'type', 'triangle' and 'quad' indices
                 continue
-            for elem in dset[el_type]:
+            for elem in elements[el_type]:
                 fh.write('%10i%10i%10i%10i%10i%10i\n' % (
                     elem['element_nums'],
                     elem['fe_descriptor'],
-- 
2.43.0


From dd62cc605c8ecde29d1507cbb3018832e1821907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:03 +0000
Subject: [PATCH 25/44] fix: write and read complex data-set 55 with 6 values
 per node

---
 pyuff/datasets/dataset_55.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pyuff/datasets/dataset_55.py b/pyuff/datasets/dataset_55.py
index 1528971..deb737c 100644
--- a/pyuff/datasets/dataset_55.py
+++ b/pyuff/datasets/dataset_55.py
@@ -440,12 +440,16 @@ def _write55(fh, dset):
                                 (dset['r1'][k], dset['r2'][k], dset['r3'][k], dset['r4'][k], dset['r5'][k],
                                 dset['r6'][k]))
         elif data_type == 5:
-            # Complex data; n_data_per_node is assumed being 3
+            # Complex data
             for k in range(0, n):
                 fh.write('%10i\n' % dset['node_nums'][k])
                 fh.write('%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' %
                             (dset['r1'][k].real, dset['r1'][k].imag, dset['r2'][k].real, dset['r2'][k].imag,
                             dset['r3'][k].real, dset['r3'][k].imag))
+                if n_data_per_node == 6:
+                    fh.write('%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' %
+                                (dset['r4'][k].real, dset['r4'][k].imag, dset['r5'][k].real, dset['r5'][k].imag,
+                                dset['r6'][k].real, dset['r6'][k].imag))
         else:
             raise ValueError('Unsupported data type')
         fh.write('%6i\n' % -1)
@@ -503,8 +507,13 @@ def _extract55(block_data):
                                                 ['freq', '', '', '', '', '']))
             # Body
         split_data = ''.join(split_data[10:])
-        node_nums = np.asarray([int(str) for str in split_data.splitlines(True)[::2]])
-        node_vals = np.array([[str[i*13:(i+1)*13] for i in range(len(str)//13) ] for str in split_data.splitlines(True)[1::2]], 'd').flatten()
+        split_data = split_data.splitlines(True)
+        if dset['data_type'] == 5 and dset['n_data_per_node'] == 6:
+            # 12 values per node, in two lines
+            split_data = [line for k in range(0, len(split_data) - 2, 3)
+                          for line in (split_data[k], split_data[k + 1].rstrip('\r\n') + split_data[k + 2])]
+        node_nums = np.asarray([int(str) for str in split_data[::2]])
+        node_vals = np.array([[str[i*13:(i+1)*13] for i in range(len(str)//13) ] for str in split_data[1::2]], 'd').flatten()
         if dset['data_type'] == 2:
             # real data
             if dset['n_data_per_node'] == 3:
@@ -528,7 +537,9 @@ def _extract55(block_data):
                 dset['r2'] = node_vals[2::6].copy() + 1.j * node_vals[3::6].copy()
                 dset['r3'] = node_vals[4::6].copy() + 1.j * node_vals[5::6].copy()
             else:
-                raise Exception('Cannot handle 6 points per node and complex data when reading data-set #55')
+                dset['node_nums'] = node_nums.copy()
+                for k in range(6):
+                    dset['r%i' % (k + 1)] = node_vals[2 * k::12] + 1.j * node_vals[2 * k + 1::12]
         else:
             raise Exception('Error reading data-set #55')
     except:
-- 
2.43.0


From 02bd1e638d3983e03544d25ab9a1c60a0c020a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 26/44] fix: write the date and time given to prepare_151

---
 pyuff/datasets/dataset_151.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyuff/datasets/dataset_151.py b/pyuff/datasets/dataset_151.py
index 2cec823..aae29d3 100644
--- a/pyuff/datasets/dataset_151.py
+++ b/pyuff/datasets/dataset_151.py
@@ -49,6 +49,10 @@ def _write151(fh, dset):
     try:
         ds = time.strftime('%d-%b-%y', time.localtime())
         ts = time.strftime('%H:%M:%S', time.localtime())
+        # names used by prepare_151
+        for key in ('date', 'time'):
+            if key + '_db_written' in dset:
+                dset = _opt_fields(dset, {key + '_file_written': dset[key + '_db_written']})
         # handle optional fields
         dset = _opt_fields(dset, {'version_db1': '0',
                                         'version_db2': '0',
-- 
2.43.0


From a7b752d1103ab82452d684bd5aa2e0fec6ed7159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:08 +0000
Subject: [PATCH 27/44] fix: convert more than one data-set 2412 to 82

---
 pyuff/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/tools.py b/pyuff/tools.py
index a748cfb..b22e278 100644
--- a/pyuff/tools.py
+++ b/pyuff/tools.py
@@ -131,8 +131,8 @@ def convert_dataset_2412_to_82(datasets):
     """Converts the dataset 2412 to dataset 82"""
 
     datasets_82 = []
-    nodes = list()
     for i in range(0, len(datasets)):
+        nodes = list()
         if (datasets[i]["type"] == 2412) and ("quad" in datasets[i].keys()):
             for j in range(len(datasets[i]["quad"]["nodes_nums"])):
                 nodes.append(datasets[i]["quad"]["nodes_nums"][j][0])
-- 
2.43.0


From f4e5462fbc449c9c1f65908b15a8d1eb52467ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:18 +0000
Subject: [PATCH 28/44] fix: skip the fields not given to prepare_2412 when
 writing

---
 pyuff/datasets/dataset_2412.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_2412.py b/pyuff/datasets/dataset_2412.py
index 1b43f10..acd914f 100644
--- a/pyuff/datasets/dataset_2412.py
+++ b/pyuff/datasets/dataset_2412.py
@@ -58,7 +58,7 @@ def _write2412(fh, dset):
                 elements[num] = []
                 for ii, nodes in enumerate(dset[name]['nodes_nums'][:len(dset[name]['element_nums'])]):
                     elem = {key: values[ii] for key, values in dset[name].items()
-                            if key not in ('type', 'nodes_nums', 'num_nodes')}
+                            if values is not None and key not in ('type', 'nodes_nums', 'num_nodes')}
                     elements[num].append({**elem, 'num_nodes': len(nodes), 'nodes_nums': nodes})
         for el_type in elements:
             if type(el_type) is not int:
-- 
2.43.0


From 7552d44966fc23c29ab001fdb6b751f44fe66b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 29/44] fix: fix_58b removes only the line end before a closing
 tag

---
 pyuff/datasets/dataset_58.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 1030421..582605e 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -1520,14 +1520,21 @@ def fix_58b(filename,fixed_filename=None):
     else:
         try:
             lines = data.splitlines(keepends=True)
+            # line end used in the file; other line breaks at the end of a line are data
+            line_end = lines[0][len(lines[0].rstrip(b'\r\n')):] if lines else b''
+
+            def join_tag(line, tag_line):
+                """Moves the closing tag to the end of the line"""
+                if line.endswith(line_end):
+                    line = line[:len(line) - len(line_end)]
+                # Keep the newline character
+                return line + b'    -1' + (tag_line[-1:] if tag_line[-1:] in (b'\r', b'\n') else b'')
 
             # Fix 1: Adjust ending '    -1' line
-            if len(lines) >= 1 and lines[-1].strip() == b'-1':
+            if len(lines) >= 1 and lines[-1].rstrip() == b'    -1':
                 if len(lines) >= 2:
                     # Move '    -1' up to the end of the previous line
-                    prev_line = lines[-2].rstrip(b'\r\n')
-                    prev_line += b'    -1' + lines[-1][-1:]  # Keep the newline character
-                    lines[-2] = prev_line
+                    lines[-2] = join_tag(lines[-2], lines[-1])
                     lines.pop()  # Remove the last line
                 else:
                     pass
@@ -1535,11 +1542,9 @@ def fix_58b(filename,fixed_filename=None):
             # Fix 2: Adjust 'data\n    -1\n    -1\n data' patterns
             i = 0
             while i < len(lines) - 3:
-                if (lines[i+1].strip() == b'-1' and lines[i+2].strip() == b'-1'):
+                if (lines[i+1].rstrip() == b'    -1' and lines[i+2].rstrip() == b'    -1'):
                     # Move '    -1' from lines[i+1] to the end of lines[i]
-                    data_line = lines[i].rstrip(b'\r\n')  # Remove newline characters
-                    data_line += b'    -1' + lines[i+1][-1:]  # Add '    -1' and newline
-                    lines[i] = data_line
+                    lines[i] = join_tag(lines[i], lines[i+1])
                     del lines[i+1]  # Remove the now-empty line
                     # Do not increment i to recheck the new line at position i
                 else:
-- 
2.43.0


From f0708adb4534c74a8c5377c7ef40c393a4f435ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:23 +0000
Subject: [PATCH 30/44] fix: read double precision data-sets 58 with
 blank-padded lines

---
 pyuff/datasets/dataset_58.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 582605e..384db55 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -1104,12 +1104,12 @@ def _extract58(block_data, header_only=False):
                         values.extend([float(line[13 * i:13 * (i + 1)]) for i in range(len(line) // 13) if line[13 * i:13 * (i + 1)]!='             '])
                 elif ((dset['ord_data_type'] == 4) or (dset['ord_data_type'] == 6)) and (dset['abscissa_spacing'] == 1):
                     for line in split_data:  # '4E20.12'
-                        values.extend([float(line[20 * i:20 * (i + 1)]) for i in range(len(line) // 20)])
+                        values.extend([float(line[20 * i:20 * (i + 1)]) for i in range(len(line) // 20) if line[20 * i:20 * (i + 1)].strip()])
                 elif (dset['ord_data_type'] == 4) and (dset['abscissa_spacing'] == 0):
                     for line in split_data:  # 2(E13.5,E20.12)
                         values.extend(
                             [float(line[13 * (i + j) + 20 * (i):13 * (i + 1) + 20 * (i + j)]) \
-                                for i in range(len(line) // 33) for j in [0, 1]])
+                                for i in range(len(line) // 33) if line[33 * i:33 * (i + 1)].strip() for j in [0, 1]])
                 elif (dset['ord_data_type'] == 6) and (dset['abscissa_spacing'] == 0):
                     for line in split_data:  # 1E13.5,2E20.12
                         values.extend([float(line[0:13]), float(line[13:33]), float(line[33:53])])
-- 
2.43.0


From da4f73213b857990eb801a1f7c21a0d21add28ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:25 +0000
Subject: [PATCH 31/44] fix: read data-sets 55 with blank-padded lines

---
 pyuff/datasets/dataset_55.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyuff/datasets/dataset_55.py b/pyuff/datasets/dataset_55.py
index deb737c..3f6153f 100644
--- a/pyuff/datasets/dataset_55.py
+++ b/pyuff/datasets/dataset_55.py
@@ -511,9 +511,9 @@ def _extract55(block_data):
         if dset['data_type'] == 5 and dset['n_data_per_node'] == 6:
             # 12 values per node, in two lines
             split_data = [line for k in range(0, len(split_data) - 2, 3)
-                          for line in (split_data[k], split_data[k + 1].rstrip('\r\n') + split_data[k + 2])]
+                          for line in (split_data[k], split_data[k + 1][:78] + split_data[k + 2])]
         node_nums = np.asarray([int(str) for str in split_data[::2]])
-        node_vals = np.array([[str[i*13:(i+1)*13] for i in range(len(str)//13) ] for str in split_data[1::2]], 'd').flatten()
+        node_vals = np.array([[str[i*13:(i+1)*13] for i in range(len(str)//13) if str[i*13:(i+1)*13].strip()] for str in split_data[1::2]], 'd').flatten()
         if dset['data_type'] == 2:
             # real data
             if dset['n_data_per_node'] == 3:
-- 
2.43.0


From 37556e0992ce9b0a25da99e5063027ea2442521b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:27 +0000
Subject: [PATCH 32/44] fix: read data-sets 18 with blank-padded lines

---
 pyuff/datasets/dataset_18.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyuff/datasets/dataset_18.py b/pyuff/datasets/dataset_18.py
index f394faf..5be764b 100644
--- a/pyuff/datasets/dataset_18.py
+++ b/pyuff/datasets/dataset_18.py
@@ -93,7 +93,7 @@ def _extract18(block_data):
 
         # -- Get Record 31 and 32
         # ... these are the origins of cs defined in ref
-        line_data = ''.join(split_data[4::4])
+        line_data = ''.join(line.rstrip() for line in split_data[4::4])
         rec_31 = [float(line_data[i * 13:(i + 1) * 13]) for i in range(int(len(line_data) / 13))]
         dset['ref_o'] = np.vstack((np.array(rec_31[::6]),
                                     np.array(rec_31[1::6]),
@@ -105,7 +105,7 @@ def _extract18(block_data):
                                         np.array(rec_31[5::6]))).transpose()
 
         # ... these are the points on the xz plane
-        line_data = ''.join(split_data[5::4])
+        line_data = ''.join(line.rstrip() for line in split_data[5::4])
         rec_32 = [float(line_data[i * 13:(i + 1) * 13]) for i in range(int(len(line_data) / 13))]
         dset['xz_point'] = np.vstack((np.array(rec_32[::3]),
                                         np.array(rec_32[1::3]),
-- 
2.43.0


From 39acec1b0b72a820e03c41cfee2c154c8b7ede3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:56 +0000
Subject: [PATCH 33/44] fix: wrap record 15 of data-set 2414 after 6 values

---
 pyuff/datasets/dataset_2414.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index d4b58fe..5828835 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -670,9 +670,9 @@ def _write2414(fh, dset):
             if dset['dataset_location'] == 1:
                 for index in range(dset['node_nums'].shape[0]):
                     fh.write('%10i\n' % (dset['node_nums'][index]))
-                    for field in dset['data_at_node'][index]:
-                        # number of values unknown, so loop
-                        fh.write('%13.5e' % (field))
+                    for i, field in enumerate(dset['data_at_node'][index]):
+                        # number of values unknown, so loop; 6 values per line
+                        fh.write('\n%13.5e' % (field) if i and i % 6 == 0 else '%13.5e' % (field))
                     fh.write('\n')
                 fh.write('%6i\n' % (-1))
 
@@ -680,9 +680,9 @@ def _write2414(fh, dset):
                 for index in range(dset['element_nums'].shape[0]):
                     # get NDVAL from the datalength instead of the dictionary entry
                     fh.write('%10i%10i\n' % (dset['element_nums'][index], len(dset['data_at_element'][index])))
-                    for field in dset['data_at_element'][index]:
-                        # number of values in record15 unknown, so loop
-                        fh.write('%13.5e' % (field))
+                    for i, field in enumerate(dset['data_at_element'][index]):
+                        # number of values in record15 unknown, so loop; 6 values per line
+                        fh.write('\n%13.5e' % (field) if i and i % 6 == 0 else '%13.5e' % (field))
                     fh.write('\n')
                 fh.write('%6i\n' % (-1))
 
@@ -787,6 +787,15 @@ def _extract2414(block_data):
             # The data and structure of Record 14 and 15 depend on the 'dataset_location'
             split_data = ''.join(block_data.splitlines(True)[15:])
             split_data = split_data.splitlines()
+            if dset['dataset_location'] in (1, 2):
+                # more than 6 values of record 15 continue in the following lines
+                joined_data = []
+                for line in split_data:
+                    if '.' in line and joined_data and '.' in joined_data[-1]:
+                        joined_data[-1] += ' ' + line
+                    else:
+                        joined_data.append(line)
+                split_data = joined_data
             if dset['dataset_location'] == 1:
                 # Data at nodes
                 record14 = np.asarray([str.split() for str in split_data[0::2]], 'U')
-- 
2.43.0


From f83cc98325d9bd31b34f67666121064b8d5584db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:53 +0000
Subject: [PATCH 34/44] fix: fix_58b leaves the binary data as it is and keeps
 the whole tag line

---
 pyuff/datasets/dataset_58.py | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 384db55..69437cd 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -2,6 +2,7 @@ import numpy as np
 import struct
 import sys
 import os
+import re
 
 from ..tools import _opt_fields, _parse_header_line, check_dict_for_none
 
@@ -1500,6 +1501,36 @@ def prepare_58(
     return dataset
 
 
+def _join_binary_tags(data):
+    """
+    Splits the content of the file into lines. The binary data of a 58b
+    data-set, which can contain any bytes, and its closing tag are one line.
+
+    :param data: content of the file
+    """
+    eol = rb'(?:\r\n|\r|\n)'
+    header = re.compile(rb'(?:\A|(?<=[\r\n]))    -1 *' + eol + rb'(    58b[^\r\n]*)' + eol + rb'(?:[^\r\n]*' + eol + rb'){11}', re.I)
+    closing_tag = re.compile(eol + rb'?(    -1 *(?:' + eol + rb'|\Z))')
+
+    lines = []
+    start = pos = 0
+    while True:
+        head = header.search(data, pos)
+        if head is None:
+            break
+        pos = head.end()
+        n_bytes = head.group(1)[31:43].strip()
+        if n_bytes.isdigit():
+            end = pos + int(n_bytes)
+            tag = closing_tag.match(data, end)
+            if tag is not None:
+                lines.extend(data[start:pos].splitlines(keepends=True))
+                lines.append(data[pos:end] + tag.group(1))
+                start = pos = tag.end()
+    lines.extend(data[start:].splitlines(keepends=True))
+    return lines
+
+
 def fix_58b(filename,fixed_filename=None):
     """
     Opens the UFF file, fixes a common formatting issue and saves the fixed file. 
@@ -1519,7 +1550,7 @@ def fix_58b(filename,fixed_filename=None):
         raise Exception(f'Cannot access the file {filename}: {e}')
     else:
         try:
-            lines = data.splitlines(keepends=True)
+            lines = _join_binary_tags(data)
             # line end used in the file; other line breaks at the end of a line are data
             line_end = lines[0][len(lines[0].rstrip(b'\r\n')):] if lines else b''
 
@@ -1527,8 +1558,7 @@ def fix_58b(filename,fixed_filename=None):
                 """Moves the closing tag to the end of the line"""
                 if line.endswith(line_end):
                     line = line[:len(line) - len(line_end)]
-                # Keep the newline character
-                return line + b'    -1' + (tag_line[-1:] if tag_line[-1:] in (b'\r', b'\n') else b'')
+                return line + tag_line
 
             # Fix 1: Adjust ending '    -1' line
             if len(lines) >= 1 and lines[-1].rstrip() == b'    -1':
-- 
2.43.0


From 29f820a899724403cc286e521d30ef0109d42460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:01 +0000
Subject: [PATCH 35/44] fix: keep signed zeros and infinities when reading
 complex data

---
 pyuff/datasets/dataset_2414.py |  8 ++++----
 pyuff/datasets/dataset_55.py   | 16 ++++++++--------
 pyuff/datasets/dataset_58.py   |  6 +++---
 pyuff/tools.py                 |  7 +++++++
 4 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index 5828835..b2526f4 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -1,7 +1,7 @@
 import numpy as np
 import math as math
 
-from ..tools import _opt_fields, _parse_header_line, check_dict_for_none
+from ..tools import _opt_fields, _parse_header_line, _to_complex, check_dict_for_none
 
 def get_structure_2414(raw=False):
     """(source: https://www.ceas3.uc.edu/sdrluff/"""
@@ -756,13 +756,13 @@ def _extract2414(block_data):
                 values = np.asarray([float(str) for str in split_data], 'd')
                 dset['node_nums'] = np.array(values[::n_skip].copy(), dtype=int)
                 
-                dset['x'] = values[1::n_skip].copy()+values[2::n_skip].copy()*1j
+                dset['x'] = _to_complex(values[1::n_skip], values[2::n_skip])
                 
                 if dset['number_of_data_values_for_the_data_component'] >= 2 :
-                    dset['y'] = values[3::n_skip].copy()+values[4::n_skip].copy()*1j
+                    dset['y'] = _to_complex(values[3::n_skip], values[4::n_skip])
                 
                 if dset['number_of_data_values_for_the_data_component'] >= 3 :
-                    dset['z'] = values[5::n_skip].copy()+values[6::n_skip].copy()*1j   
+                    dset['z'] = _to_complex(values[5::n_skip], values[6::n_skip])   
 
         # Processing unnamed records and fields
         # Dictionairy keys have a general name.
diff --git a/pyuff/datasets/dataset_55.py b/pyuff/datasets/dataset_55.py
index 3f6153f..a0fecd3 100644
--- a/pyuff/datasets/dataset_55.py
+++ b/pyuff/datasets/dataset_55.py
@@ -1,6 +1,6 @@
 import numpy as np
 
-from ..tools import _opt_fields, _parse_header_line, check_dict_for_none
+from ..tools import _opt_fields, _parse_header_line, _to_complex, check_dict_for_none
 
 def get_structure_55(raw=False):
     """(source: https://www.ceas3.uc.edu/sdrluff/"""
@@ -493,9 +493,9 @@ def _extract55(block_data):
             dset.update(_parse_header_line(split_data[9], 4, [13, 13, 13, 13, 13, 13], [3, 3, 3, 3, 3, 3],
                                                 ['eig_r', 'eig_i', 'modal_a_r', 'modal_a_i', 'modal_b_r',
                                                     'modal_b_i']))
-            dset.update({'modal_a': dset['modal_a_r'] + 1.j * dset['modal_a_i']})
-            dset.update({'modal_b': dset['modal_b_r'] + 1.j * dset['modal_b_i']})
-            dset.update({'eig': dset['eig_r'] + 1.j * dset['eig_i']})
+            dset.update({'modal_a': complex(dset['modal_a_r'], dset['modal_a_i'])})
+            dset.update({'modal_b': complex(dset['modal_b_r'], dset['modal_b_i'])})
+            dset.update({'eig': complex(dset['eig_r'], dset['eig_i'])})
             del dset['modal_a_r'], dset['modal_a_i'], dset['modal_b_r'], dset['modal_b_i']
             del dset['eig_r'], dset['eig_i']
         elif dset['analysis_type'] == 5:
@@ -533,13 +533,13 @@ def _extract55(block_data):
             # complex data
             if dset['n_data_per_node'] == 3:
                 dset['node_nums'] = node_nums.copy()
-                dset['r1'] = node_vals[0::6].copy() + 1.j * node_vals[1::6].copy()
-                dset['r2'] = node_vals[2::6].copy() + 1.j * node_vals[3::6].copy()
-                dset['r3'] = node_vals[4::6].copy() + 1.j * node_vals[5::6].copy()
+                dset['r1'] = _to_complex(node_vals[0::6], node_vals[1::6])
+                dset['r2'] = _to_complex(node_vals[2::6], node_vals[3::6])
+                dset['r3'] = _to_complex(node_vals[4::6], node_vals[5::6])
             else:
                 dset['node_nums'] = node_nums.copy()
                 for k in range(6):
-                    dset['r%i' % (k + 1)] = node_vals[2 * k::12] + 1.j * node_vals[2 * k + 1::12]
+                    dset['r%i' % (k + 1)] = _to_complex(node_vals[2 * k::12], node_vals[2 * k + 1::12])
         else:
             raise Exception('Error reading data-set #55')
     except:
diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 69437cd..ece9f72 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -4,7 +4,7 @@ import sys
 import os
 import re
 
-from ..tools import _opt_fields, _parse_header_line, check_dict_for_none
+from ..tools import _opt_fields, _parse_header_line, _to_complex, check_dict_for_none
 
 def get_structure_58(raw=False):
     """(source: https://www.ceas3.uc.edu/sdrluff/"""
@@ -1137,14 +1137,14 @@ def _extract58(block_data, header_only=False):
                 if (dset['abscissa_spacing'] == 0):
                     # Uneven abscissa
                     dset['x'] = values[:-2:3].copy()
-                    dset['data'] = values[1:-1:3] + 1.j * values[2::3]
+                    dset['data'] = _to_complex(values[1:-1:3], values[2::3])
                 else:
                     # Even abscissa
                     n_val = len(values) / 2
                     min_val = dset['abscissa_min']
                     d = dset['abscissa_inc']
                     dset['x'] = min_val + np.arange(n_val) * d
-                    dset['data'] = values[0:-1:2] + 1.j * values[1::2]
+                    dset['data'] = _to_complex(values[0:-1:2], values[1::2])
             del values
     except:
         raise Exception('Error reading data-set #58b')
diff --git a/pyuff/tools.py b/pyuff/tools.py
index b22e278..47da1c7 100644
--- a/pyuff/tools.py
+++ b/pyuff/tools.py
@@ -118,6 +118,13 @@ def _write_record(fh, values, formats, multiline=False, fstring=True):
 
     fh.write(to_write)
 
+def _to_complex(real, imag):
+    """Complex array of the given parts; keeps signed zeros and infinities as they are."""
+    values = np.empty(len(real), dtype=complex)
+    values.real = real
+    values.imag = imag
+    return values
+
 def check_dict_for_none(dataset):
     dataset1 = {}
     for k, v in dataset.items():
-- 
2.43.0


From a923d78e2516477840f0b795688248fadf45a9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:04 +0000
Subject: [PATCH 36/44] fix: write 0 as abscissa increment of uneven data,
 whatever the abscissa

---
 pyuff/datasets/dataset_58.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index ece9f72..6e83abb 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -929,7 +929,7 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
                     dset['rsp_ent_name'], dset['rsp_node'], dset['rsp_dir'], dset['ref_ent_name'],
                     dset['ref_node'], dset['ref_dir']))
         fh.write('%10i%10i%10i%13.5e%13.5e%13.5e\n' % (ord_data_type, num_pts, is_even,
-                                                        is_even * dset['abscissa_min'], is_even * dx,
+                                                        dset['abscissa_min'] if is_even else 0., dx if is_even else 0.,
                                                         dset['z_axis_value']))
         fh.write('%10i%5i%5i%5i %-20s %-20s\n' % (dset['abscissa_spec_data_type'],
                                                     dset['abscissa_len_unit_exp'], dset['abscissa_force_unit_exp'],
-- 
2.43.0


From 03189f3b236ecc1ea35247dbd3df74914e819360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:59 +0000
Subject: [PATCH 37/44] fix: tag followed by blanks closes a data-set only at
 the end of the line

---
 pyuff/pyuff.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 04168ce..d4c6bbd 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -260,9 +260,10 @@ class UFF:
                     # Check if the block is valid and ends with LF or CR
                     elif ind+6 < data_len and data[ind+6] in [10, 13]:
                         block_ind.append(ind)
-                    # Check the line continues with blanks up to character 80
+                    # Check the line continues with blanks up to character 80 (or its end)
                     elif ind+80 <= data_len and data[ind+6:ind+80] == \
-                        b'                                                                          ':
+                        b'                                                                          ' and \
+                        re.compile(rb' *(?:[\r\n]|\Z)').match(data, ind+80):
                         block_ind.append(ind)
                     
                 block_ind = np.asarray(_select_delimiters(data, block_ind), dtype='int64')
-- 
2.43.0


From 05ab63caad27c623f4e061c462703e2b55547c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:05 +0000
Subject: [PATCH 38/44] fix: fix_58b keeps a tag that follows an empty line on
 its own line

---
 pyuff/datasets/dataset_58.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 6e83abb..6be5a0e 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -1560,9 +1560,13 @@ def fix_58b(filename,fixed_filename=None):
                     line = line[:len(line) - len(line_end)]
                 return line + tag_line
 
+            def can_join(line):
+                """A tag joined to an empty line would still be on its own line"""
+                return line.strip(b'\r\n') != b''
+
             # Fix 1: Adjust ending '    -1' line
             if len(lines) >= 1 and lines[-1].rstrip() == b'    -1':
-                if len(lines) >= 2:
+                if len(lines) >= 2 and can_join(lines[-2]):
                     # Move '    -1' up to the end of the previous line
                     lines[-2] = join_tag(lines[-2], lines[-1])
                     lines.pop()  # Remove the last line
@@ -1572,7 +1576,7 @@ def fix_58b(filename,fixed_filename=None):
             # Fix 2: Adjust 'data\n    -1\n    -1\n data' patterns
             i = 0
             while i < len(lines) - 3:
-                if (lines[i+1].rstrip() == b'    -1' and lines[i+2].rstrip() == b'    -1'):
+                if (lines[i+1].rstrip() == b'    -1' and lines[i+2].rstrip() == b'    -1' and can_join(lines[i])):
                     # Move '    -1' from lines[i+1] to the end of lines[i]
                     lines[i] = join_tag(lines[i], lines[i+1])
                     del lines[i+1]  # Remove the now-empty line
-- 
2.43.0


From 56c354069dde967eff8e61c9afd837acf7aa8ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:06 +0000
Subject: [PATCH 39/44] fix: prepare_18 refuses arguments of a wrong type

---
 pyuff/datasets/dataset_18.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyuff/datasets/dataset_18.py b/pyuff/datasets/dataset_18.py
index 5be764b..c9677ab 100644
--- a/pyuff/datasets/dataset_18.py
+++ b/pyuff/datasets/dataset_18.py
@@ -163,6 +163,14 @@ def prepare_18(
     >>>     uffwrite._write_set(dataset, 'add')
     >>> dataset
     """
+    for name, value in (('cs_num', cs_num), ('cs_type', cs_type), ('ref_cs_num', ref_cs_num), ('color', color), ('method', method),
+                        ('ref_o', ref_o), ('x_point', x_point), ('xz_point', xz_point)):
+        # read_sets returns all the numbers as float
+        if value is not None and np.array(value).dtype.kind not in 'iuf':
+            raise TypeError(name + ' must be an array of numbers')
+    if cs_name is not None and not (type(cs_name) in (list, tuple, np.ndarray) and all(isinstance(name, str) for name in cs_name)):
+        raise TypeError('cs_name must be list of strings')
+
     dataset = {
         'type': 18,
         'cs_num': cs_num,
-- 
2.43.0


From 9ae4be312303b1e538761eabc3ae8cf296c74969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:09 +0000
Subject: [PATCH 40/44] fix: prepare_2400 accepts status_mask as an array and
 refuses other values than integers

---
 pyuff/datasets/dataset_2400.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_2400.py b/pyuff/datasets/dataset_2400.py
index 325014d..9dda1d4 100644
--- a/pyuff/datasets/dataset_2400.py
+++ b/pyuff/datasets/dataset_2400.py
@@ -170,7 +170,8 @@ def prepare_2400(
         raise TypeError('entity_name must be string')
     if type(part_number) != str and part_number != None:
         raise TypeError('part_number must be string')
-    if status_mask != None and (not hasattr(status_mask, '__len__') or len(status_mask) != 32):
+    if status_mask is not None and (not hasattr(status_mask, '__len__') or len(status_mask) != 32 or
+                                    not np.issubdtype(np.array(status_mask).dtype, np.integer)):
         raise ValueError('status_mask must be a list of 32 integers')
     if type(date) != str and date != None:
         raise TypeError('date must be string')
-- 
2.43.0


From eb2539f21087bce6e2e0b88217e882ffc6311cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:18 +0000
Subject: [PATCH 41/44] fix: adding to a file whose last line has no end starts
 a new line

---
 pyuff/pyuff.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index d4c6bbd..dad7fea 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -468,6 +468,14 @@ class UFF:
             pass
         return dset
 
+    def _ends_inside_line(self):
+        """Does the file have content whose last line is without a line end?"""
+        if not self.file_exists() or os.path.getsize(self._filename) == 0:
+            return False
+        with open(self._filename, 'rb') as file:
+            file.seek(-1, os.SEEK_END)
+            return file.read(1) not in b'\r\n'
+
     def _write_set(self, dset, mode='add', force_double=True):
         """
         Writes UFF data (UFF data-sets) to the file.  The mode can be
@@ -546,8 +554,12 @@ class UFF:
         else:
             fh.flush()
             try:
+                content = buffer.getvalue()
+                if content and file_mode == 'ab' and self._ends_inside_line():
+                    # the opening tag has to start a line
+                    content = b'\n' + content
                 with open(self._filename, file_mode) as file:
-                    file.write(buffer.getvalue())
+                    file.write(content)
             except:
                 raise Exception('Cannot access the file: ' + self._filename + ' to write to.')
             finally:
-- 
2.43.0


From 7a968019269ef4da99591b75422c05998da5f59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:09 +0000
Subject: [PATCH 42/44] fix: a data-set with a short line of type is not taken
 for a 58b because of the next line

---
 pyuff/pyuff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index dad7fea..1a35a48 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -107,7 +107,7 @@ def _select_delimiters(data, tags):
         selected.append(tags[ii])
         ii += 1
         id_line = next_line(tags[ii - 1])
-        if data[id_line + 6:id_line + 7].lower() == b'b':
+        if data[id_line:next_line(id_line)][6:7].lower() == b'b':
             # 58b: the amount of binary data is given in the header
             try:
                 end = id_line
-- 
2.43.0


From b7dc778e66ce92fbc6879494f6eccd34f7b861fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:45 +0000
Subject: [PATCH 43/44] fix: return copies of the reported information

get_set_types, get_set_formats and get_supported_sets returned the object's own
arrays and the list of the module: changing what was returned (sorting it, for
example) changed what was reported and how the data-sets were read afterwards.
---
 pyuff/pyuff.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 1a35a48..f65751e 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -179,7 +179,7 @@ class UFF:
 
     def get_supported_sets(self):
         """Returns a list of data-sets supported for reading and writing."""
-        return _SUPPORTED_SETS
+        return list(_SUPPORTED_SETS)
 
     def get_n_sets(self):
         """
@@ -196,13 +196,13 @@ class UFF:
         """
         if not self._refreshed:
             self.refresh()
-        return self._set_types
+        return self._set_types.copy()
 
     def get_set_formats(self):
         """Returns an array of data-set formats: 0=ascii, 1=binary."""
         if not self._refreshed:
             self.refresh()
-        return self._set_formats
+        return self._set_formats.copy()
 
     def get_file_name(self):
         """Returns the file name (as a string) associated with the uff object."""
-- 
2.43.0


From f9f8f695eaea6524cd9d1c1f9e83850eb6449fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:40 +0000
Subject: [PATCH 44/44] fix: data-set 2414 writes at most six values per line
 for nodes on elements

---
 pyuff/datasets/dataset_2414.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index b2526f4..d04bdb3 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -691,9 +691,9 @@ def _write2414(fh, dset):
                     fh.write('%10i%10i%10i%10i\n' % (dset['element_nums'][index], dset['IEXP'][index],
                                                     dset['number_of_nodes'][index], dset['number_of_values_per_node'][index]))
                     for line in dset['data_at_nodes_on_element'][index]:
-                        # each line is an np.ndarray with unknown number of elements, so loop
-                        for item in line:
-                            fh.write('%13.5e' % (item))
+                        # each line is an np.ndarray with unknown number of elements, so loop; 6 values per line
+                        for i, item in enumerate(line):
+                            fh.write('\n%13.5e' % (item) if i and i % 6 == 0 else '%13.5e' % (item))
                         fh.write('\n')
                 fh.write('%6i\n' % (-1))
 
-- 
2.43.0

