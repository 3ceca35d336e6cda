From e21e66e48c10e5cd4710ddd0b0f6418d2db1aca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:49 +0000
Subject: [PATCH 01/49] fix: read_sets() determines the sets to read after
 refreshing the index

---
 pyuff/pyuff.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 32961f4..46c7720 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -257,6 +257,11 @@ class UFF:
                      This usefull for large files.         
         """
         dset = []
+        if not self.file_exists():
+            raise Exception('Cannot read from a non-existing file: ' + self._filename)
+        if not self._refreshed:
+            if not self.refresh():
+                raise Exception('Cannot read from the file: ' + self._filename)
         if setn is None:
             read_range = range(0, self._n_sets)
         else:
@@ -264,11 +269,6 @@ class UFF:
                 read_range = [setn]
             else:
                 read_range = setn
-        if not self.file_exists():
-            raise Exception('Cannot read from a non-existing file: ' + self._filename)
-        if not self._refreshed:
-            if not self.refresh():
-                raise Exception('Cannot read from the file: ' + self._filename)
         try:
             for ii in read_range:
                 dset.append(self._read_set(ii, header_only=header_only))
-- 
2.43.0


From 7d3cbdd783d4ad13efe1d6d834eb41806cf5dcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:53 +0000
Subject: [PATCH 02/49] fix: refresh() of a missing file or a file without
 data-sets forgets the old index

---
 pyuff/pyuff.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 46c7720..3146f72 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -169,6 +169,11 @@ class UFF:
         True otherwise.
         """
         self._refreshed = False
+        # forget what was found the last time
+        self._block_ind = []
+        self._n_sets = 0
+        self._set_types = np.array(())
+        self._set_formats = np.array(())
         if not self.file_exists():
             return False  # cannot read the file if it does not exist
         try:
-- 
2.43.0


From 736aeee99cc09c79e400dc7402385514587dad91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:59 +0000
Subject: [PATCH 03/49] fix: get_set_formats() reports binary data-sets

---
 pyuff/pyuff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 3146f72..3bae543 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -232,7 +232,7 @@ class UFF:
                     try:
                         block_data = data[si:ei + 1].splitlines()
                         self._set_types[ii] = int(block_data[1][0:6])
-                        if block_data[1][6].lower() == 'b':
+                        if block_data[1][6:7].lower() == b'b':
                             self._set_formats[ii] = 1
                     except:
                         # Some non-valid blocks found; ignore the exception
-- 
2.43.0


From dffcb3c894bb1cceae4d92ca8557e3e386228872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:05 +0000
Subject: [PATCH 04/49] fix: report the number of the data-set that cannot be
 read

---
 pyuff/pyuff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 3bae543..5001e61 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -365,7 +365,7 @@ class UFF:
                     block_data = fh.read(ei - si + 1).decode('utf-8', errors='replace')
             except:
                 fh.close()
-                raise Exception('Error reading data-set #: ' + int(n))
+                raise Exception('Error reading data-set #: ' + str(int(n)))
             else:
                 fh.close()
         # Extracts the dset
-- 
2.43.0


From 1692d2373e03982ee217d80211cf6295caec962d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:46 +0000
Subject: [PATCH 05/49] fix: a field with the value -1 at the end of a line is
 not a data-set tag

---
 pyuff/pyuff.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 5001e61..8546ea7 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -193,6 +193,14 @@ class UFF:
                     ind = data.find(b'    -1', ind + 1)
                     if ind == -1:
                         break
+                    # A tag starts at the beginning of a line; only the end tag
+                    # of a binary data-set follows its data directly
+                    if ind > 0 and data[ind-1] not in [10, 13]:
+                        if len(block_ind) % 2 == 0:
+                            continue
+                        head = data[block_ind[-1]:block_ind[-1]+200].splitlines()
+                        if len(head) < 2 or head[1][6:7].lower() != b'b':
+                            continue
                     if ind+6 == data_len:
                         block_ind.append(ind)
                     # Check if the block is valid and ends with LF or CR
-- 
2.43.0


From e5ff029f439df68c26879f2c13924b88224c68da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:52 +0000
Subject: [PATCH 06/49] fix: find an end tag padded to 80 columns at the very
 end of the file

---
 pyuff/pyuff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 8546ea7..fd9fbb0 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -207,7 +207,7 @@ class UFF:
                     elif ind+6 < data_len and data[ind+6] in [10, 13]:
                         block_ind.append(ind)
                     # Check the line continues with blanks up to character 80
-                    elif ind+80 < data_len and data[ind+6:ind+80] == \
+                    elif ind+80 <= data_len and data[ind+6:ind+80] == \
                         b'                                                                          ':
                         block_ind.append(ind)
                     
-- 
2.43.0


From bf4ebc2fa0813edef596019614ad8d3e4bb387f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:21 +0000
Subject: [PATCH 07/49] fix: a binary data-set 58 is complete in the overwrite
 mode, too; no file handle is left open

---
 pyuff/datasets/dataset_58.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 3d48c82..c55949d 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -960,21 +960,12 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
                 data[2::3] = dset['data'].imag
         # always write data in double precision
         if dset['binary']:
-            fh.close()
-            if mode.lower() == 'overwrite':
-                fh = open(_filename, 'wb')
-            elif mode.lower() == 'add':
-                fh = open(_filename, 'ab')
-            # write data
+            # write data, right after the header written so far
+            fh.flush()
             if bo == 1:
-                [fh.write(struct.pack('<d', datai)) for datai in data]
+                [fh.buffer.write(struct.pack('<d', datai)) for datai in data]
             else:
-                [fh.write(struct.pack('>d', datai)) for datai in data]
-            fh.close()
-            if mode.lower() == 'overwrite':
-                fh = open(_filename, 'wt', encoding='utf-8')
-            elif mode.lower() == 'add':
-                fh = open(_filename, 'at', encoding='utf-8')
+                [fh.buffer.write(struct.pack('>d', datai)) for datai in data]
         else:
             if is_double: # write double precision
                 n4_blocks = len(data) // 4
-- 
2.43.0


From 1f43b0006bae3541d5b04e6ee8c9ca0be7d80aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:42 +0000
Subject: [PATCH 08/49] fix: the index is out of date after a failed write

---
 pyuff/pyuff.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index fd9fbb0..b70f8f2 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -429,6 +429,8 @@ class UFF:
         an alias (aka pointer), this is reflected at the caller too.
         
         """
+        # whatever happens from here on, the index has to be built anew
+        self._refreshed = False
         if mode.lower() == 'overwrite':
             # overwrite mode
             try:
-- 
2.43.0


From 914f087e1d0a0b822a5f793e8a1940b0bd06ea9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:47 +0000
Subject: [PATCH 09/49] fix: a failed write leaves no partial data-set in the
 file

---
 pyuff/pyuff.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index b70f8f2..2e46f34 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -431,6 +431,7 @@ class UFF:
         """
         # whatever happens from here on, the index has to be built anew
         self._refreshed = False
+        size = 0  # what is in the file in front of this data-set
         if mode.lower() == 'overwrite':
             # overwrite mode
             try:
@@ -439,6 +440,8 @@ class UFF:
                 raise Exception('Cannot access the file: ' + self._filename + ' to write to.')
         elif mode.lower() == 'add':
             # add (append) mode
+            if self.file_exists():
+                size = os.path.getsize(self._filename)
             try:
                 fh = open(self._filename, 'at', encoding='utf-8')
             except:
@@ -491,6 +494,8 @@ class UFF:
                 pass
         except:
             fh.close()
+            # do not leave a part of the data-set behind
+            os.truncate(self._filename, size)
             raise  # re-raise the last exception
         else:
             fh.close()
-- 
2.43.0


From 973aa737f53dbf63c5c2a5a8d9b4d47d5cf30332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:03 +0000
Subject: [PATCH 10/49] fix: fix_58b() handles a file that does not end with a
 newline

---
 pyuff/datasets/dataset_58.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index c55949d..d8e3c9c 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -1518,7 +1518,7 @@ def fix_58b(filename,fixed_filename=None):
                 if len(lines) >= 2:
                     # Move '    -1' up to the end of the previous line
                     prev_line = lines[-2].rstrip(b'\r\n')
-                    prev_line += b'    -1' + lines[-1][-1:]  # Keep the newline character
+                    prev_line += b'    -1' + lines[-1][len(lines[-1].rstrip(b'\r\n')):]  # Keep the newline character
                     lines[-2] = prev_line
                     lines.pop()  # Remove the last line
                 else:
@@ -1530,7 +1530,7 @@ def fix_58b(filename,fixed_filename=None):
                 if (lines[i+1].strip() == b'-1' and lines[i+2].strip() == b'-1'):
                     # Move '    -1' from lines[i+1] to the end of lines[i]
                     data_line = lines[i].rstrip(b'\r\n')  # Remove newline characters
-                    data_line += b'    -1' + lines[i+1][-1:]  # Add '    -1' and newline
+                    data_line += b'    -1' + lines[i+1][len(lines[i+1].rstrip(b'\r\n')):]  # Add '    -1' and newline
                     lines[i] = data_line
                     del lines[i+1]  # Remove the now-empty line
                     # Do not increment i to recheck the new line at position i
-- 
2.43.0


From 2ff6836916f4deeb968cf651b69de0266f53fc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:08 +0000
Subject: [PATCH 11/49] fix: fix_58b() leaves the data-sets in text format as
 they are

---
 pyuff/datasets/dataset_58.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index d8e3c9c..0d3dcd5 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -1513,21 +1513,19 @@ def fix_58b(filename,fixed_filename=None):
         try:
             lines = data.splitlines(keepends=True)
 
-            # Fix 1: Adjust ending '    -1' line
-            if len(lines) >= 1 and lines[-1].strip() == b'-1':
-                if len(lines) >= 2:
-                    # Move '    -1' up to the end of the previous line
-                    prev_line = lines[-2].rstrip(b'\r\n')
-                    prev_line += b'    -1' + lines[-1][len(lines[-1].rstrip(b'\r\n')):]  # Keep the newline character
-                    lines[-2] = prev_line
-                    lines.pop()  # Remove the last line
-                else:
-                    pass
+            # Only the end tags of the binary data-sets are to be moved
+            start = [i for i, line in enumerate(lines[:-1]) if line.strip() == b'-1'][:1]
+            binary = bool(start) and lines[start[0]+1][6:7].lower() == b'b'
 
-            # Fix 2: Adjust 'data\n    -1\n    -1\n data' patterns
+            # Fix 1: Adjust 'data\n    -1\n    -1\n data' patterns
             i = 0
             while i < len(lines) - 3:
                 if (lines[i+1].strip() == b'-1' and lines[i+2].strip() == b'-1'):
+                    was_binary = binary
+                    binary = lines[i+3][6:7].lower() == b'b'
+                    if not was_binary:
+                        i += 1
+                        continue
                     # Move '    -1' from lines[i+1] to the end of lines[i]
                     data_line = lines[i].rstrip(b'\r\n')  # Remove newline characters
                     data_line += b'    -1' + lines[i+1][len(lines[i+1].rstrip(b'\r\n')):]  # Add '    -1' and newline
@@ -1537,6 +1535,17 @@ def fix_58b(filename,fixed_filename=None):
                 else:
                     i += 1  # Move to the next line
 
+            # Fix 2: Adjust ending '    -1' line
+            if len(lines) >= 1 and lines[-1].strip() == b'-1' and binary:
+                if len(lines) >= 2:
+                    # Move '    -1' up to the end of the previous line
+                    prev_line = lines[-2].rstrip(b'\r\n')
+                    prev_line += b'    -1' + lines[-1][len(lines[-1].rstrip(b'\r\n')):]  # Keep the newline character
+                    lines[-2] = prev_line
+                    lines.pop()  # Remove the last line
+                else:
+                    pass
+
             # Reassemble the data
             data = b''.join(lines)
 
-- 
2.43.0


From cae8f451b1a98f633f79feb83bb677c7ce80f3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:40 +0000
Subject: [PATCH 12/49] fix: the number of bytes of a binary data-set 58 covers
 complex data and the uneven abscissa

---
 pyuff/datasets/dataset_58.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 0d3dcd5..b279bc3 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -886,20 +886,22 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
             if force_double:
                 dset['ord_data_type'] = 6
 
+        is_even = bool(dset['abscissa_spacing'])  # handling even/uneven abscissa spacing manually
+
+        # number of values written: the abscissa only if it is uneven, two for a complex ordinate
+        n_values = num_pts * ((1 if is_r else 2) + (0 if is_even else 1))
         if dset['ord_data_type'] in [4, 6]: # double precision
             is_double = True
-            n_bytes = num_pts * 8
+            n_bytes = n_values * 8
         elif dset['ord_data_type'] in [2, 5]: # sigle precision
             is_double = False
-            n_bytes = num_pts * 4
+            n_bytes = n_values * 4
 
         if 'n_bytes' in dset.keys():
             dset['n_bytes'] = n_bytes
 
         ord_data_type = dset['ord_data_type']
 
-        is_even = bool(dset['abscissa_spacing'])  # handling even/uneven abscissa spacing manually
-
         # handling abscissa spacing automatically
         # is_even = len( set( [ dset['x'][ii]-dset['x'][ii-1] for ii in range(1,len(dset['x'])) ] ) ) == 1
         dset['abscissa_min'] = dset['x'][0]
-- 
2.43.0


From a3135f5ec1b9fe78ee21d02680213859a93fa155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:45 +0000
Subject: [PATCH 13/49] fix: binary data of data-set 58 is written in the
 precision the header declares

---
 pyuff/datasets/dataset_58.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index b279bc3..b99f8de 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -960,14 +960,18 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
                 data[0:-2:3] = dset['x']
                 data[1:-1:3] = dset['data'].real
                 data[2::3] = dset['data'].imag
-        # always write data in double precision
+        # write data in the precision given in the header
         if dset['binary']:
             # write data, right after the header written so far
             fh.flush()
+            if is_double:
+                fmt = 'd'
+            else:
+                fmt = 'f'
             if bo == 1:
-                [fh.buffer.write(struct.pack('<d', datai)) for datai in data]
+                [fh.buffer.write(struct.pack('<' + fmt, datai)) for datai in data]
             else:
-                [fh.buffer.write(struct.pack('>d', datai)) for datai in data]
+                [fh.buffer.write(struct.pack('>' + fmt, datai)) for datai in data]
         else:
             if is_double: # write double precision
                 n4_blocks = len(data) // 4
-- 
2.43.0


From 72e641af90c404221b218f4850dd6925dc7fa913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:49 +0000
Subject: [PATCH 14/49] fix: the ordinate data type of data-set 58 follows the
 data with force_double=False

---
 pyuff/datasets/dataset_58.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index b99f8de..5dbec53 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -879,12 +879,16 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
         is_r = not np.iscomplexobj(dset['data'])
         if is_r:
             # real data
-            if force_double:
+            if force_double or dset.get('ord_data_type') in [4, 6]:
                 dset['ord_data_type'] = 4
+            else:
+                dset['ord_data_type'] = 2
         else:
             # complex data
-            if force_double:
+            if force_double or dset.get('ord_data_type') in [4, 6]:
                 dset['ord_data_type'] = 6
+            else:
+                dset['ord_data_type'] = 5
 
         is_even = bool(dset['abscissa_spacing'])  # handling even/uneven abscissa spacing manually
 
-- 
2.43.0


From fa1cb5200551423de79388bc0305ccb80313c417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 15/49] fix: data-set 58 without orddenom_spec_data_type or
 with a single value can be written

---
 pyuff/datasets/dataset_58.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 5dbec53..6e2b264 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -867,6 +867,7 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
                 'spec_data_type': 0,
                 'abscissa_spec_data_type': 0,
                 'ordinate_spec_data_type': 0,
+                'orddenom_spec_data_type': 0,
                 'z_axis_spec_data_type': 0,
                 'version_num': 0,
                 'abscissa_spacing': 0}
@@ -909,7 +910,7 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
         # handling abscissa spacing automatically
         # is_even = len( set( [ dset['x'][ii]-dset['x'][ii-1] for ii in range(1,len(dset['x'])) ] ) ) == 1
         dset['abscissa_min'] = dset['x'][0]
-        dx = dset['x'][1] - dset['x'][0]
+        dx = dset['x'][1] - dset['x'][0] if num_pts > 1 else 0.
         fh.write('%6i\n%6i' % (-1, 58))
         if dset['binary']:
             if sys.byteorder == 'little':
-- 
2.43.0


From 7c96923d3a0a5b8589e0c9adab53de1a9b8d9968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:19 +0000
Subject: [PATCH 16/49] fix: text longer than its field does not run into the
 next field

---
 pyuff/datasets/dataset_151.py  |  6 +++---
 pyuff/datasets/dataset_164.py  |  2 +-
 pyuff/datasets/dataset_1858.py |  2 +-
 pyuff/datasets/dataset_2400.py |  2 +-
 pyuff/datasets/dataset_58.py   | 10 +++++-----
 5 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/pyuff/datasets/dataset_151.py b/pyuff/datasets/dataset_151.py
index 2cec823..67e1037 100644
--- a/pyuff/datasets/dataset_151.py
+++ b/pyuff/datasets/dataset_151.py
@@ -64,12 +64,12 @@ def _write151(fh, dset):
         fh.write('%-80s\n' % dset['model_name'])
         fh.write('%-80s\n' % dset['description'])
         fh.write('%-80s\n' % dset['db_app'])
-        fh.write('%-10s%-10s%10s%10s%10s\n' % (dset['date_db_created'],
+        fh.write('%-10.10s%-10.10s%10.10s%10.10s%10.10s\n' % (dset['date_db_created'],
                                                 dset['time_db_created'], dset['version_db1'], dset['version_db2'],
                                                 dset['file_type']))
-        fh.write('%-10s%-10s\n' % (dset['date_db_saved'], dset['time_db_saved']))
+        fh.write('%-10.10s%-10.10s\n' % (dset['date_db_saved'], dset['time_db_saved']))
         fh.write('%-80s\n' % dset['program'])
-        fh.write('%-10s%-10s\n' % (dset['date_file_written'], dset['time_file_written']))
+        fh.write('%-10.10s%-10.10s\n' % (dset['date_file_written'], dset['time_file_written']))
         fh.write('%6i\n' % -1)
     except KeyError as msg:
         raise Exception('The required key \'' + msg.args[0] + '\' not present when writing data-set #151')
diff --git a/pyuff/datasets/dataset_164.py b/pyuff/datasets/dataset_164.py
index 9b0852b..86665c6 100644
--- a/pyuff/datasets/dataset_164.py
+++ b/pyuff/datasets/dataset_164.py
@@ -52,7 +52,7 @@ def _write164(fh, dset):
                                         'temp_mode': 1})
         # write strings to the file
         fh.write('%6i\n%6i%74s\n' % (-1, 164, ' '))
-        fh.write('%10i%20s%10i\n' % (dset['units_code'], dset['units_description'], dset['temp_mode']))
+        fh.write('%10i%20.20s%10i\n' % (dset['units_code'], dset['units_description'], dset['temp_mode']))
         str = '%25.16e%25.16e%25.16e\n%25.16e\n' % (
             dset['length'], dset['force'], dset['temp'], dset['temp_offset'])
         str = str.replace('e+', 'D+')
diff --git a/pyuff/datasets/dataset_1858.py b/pyuff/datasets/dataset_1858.py
index ed7a475..bad58cb 100644
--- a/pyuff/datasets/dataset_1858.py
+++ b/pyuff/datasets/dataset_1858.py
@@ -154,7 +154,7 @@ def _write1858(fh, dset):
 
         fh.write('%15.7e%15.7e%15.7e%15.7e%15.7e\n' % (0, 0, 0, 0, 0))
 
-        fh.write('%-4s%2s%-4s\n' % (
+        fh.write('%-4.4s%2s%-4.4s\n' % (
             dset['response_direction'],
             '',
             dset['reference_direction'],
diff --git a/pyuff/datasets/dataset_2400.py b/pyuff/datasets/dataset_2400.py
index 325014d..f03c457 100644
--- a/pyuff/datasets/dataset_2400.py
+++ b/pyuff/datasets/dataset_2400.py
@@ -67,7 +67,7 @@ def _write2400(fh, dset):
         fh.write('%-80s\n' % dset['entity_name'])
         fh.write('%-80s\n' % dset['part_number'])
         fh.write('%s\n' % ''.join(['%2i' % v for v in dset['status_mask']]))
-        fh.write('%-10s%-10s%12i%12i%12i\n' % (dset['date'], dset['time'],
+        fh.write('%-10.10s%-10.10s%12i%12i%12i\n' % (dset['date'], dset['time'],
                                                  dset['idm_version_id'], dset['idm_item_id'],
                                                  dset['primary_parent_uid']))
         fh.write('%12i\n' % dset['optimization_switches'])
diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 6e2b264..ee4780d 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -925,26 +925,26 @@ def _write58(fh, dset, mode='add', _filename=None, force_double=True):
         fh.write('%-80s\n' % dset['id3'])
         fh.write('%-80s\n' % dset['id4'])
         fh.write('%-80s\n' % dset['id5'])
-        fh.write('%5i%10i%5i%10i %10s%10i%4i %10s%10i%4i\n' %
+        fh.write('%5i%10i%5i%10i %10.10s%10i%4i %10.10s%10i%4i\n' %
                     (dset['func_type'], dset['func_id'], dset['ver_num'], dset['load_case_id'],
                     dset['rsp_ent_name'], dset['rsp_node'], dset['rsp_dir'], dset['ref_ent_name'],
                     dset['ref_node'], dset['ref_dir']))
         fh.write('%10i%10i%10i%13.5e%13.5e%13.5e\n' % (ord_data_type, num_pts, is_even,
                                                         is_even * dset['abscissa_min'], is_even * dx,
                                                         dset['z_axis_value']))
-        fh.write('%10i%5i%5i%5i %-20s %-20s\n' % (dset['abscissa_spec_data_type'],
+        fh.write('%10i%5i%5i%5i %-20.20s %-20.20s\n' % (dset['abscissa_spec_data_type'],
                                                     dset['abscissa_len_unit_exp'], dset['abscissa_force_unit_exp'],
                                                     dset['abscissa_temp_unit_exp'], dset['abscissa_axis_lab'],
                                                     dset['abscissa_axis_units_lab']))
-        fh.write('%10i%5i%5i%5i %-20s %-20s\n' % (dset['ordinate_spec_data_type'],
+        fh.write('%10i%5i%5i%5i %-20.20s %-20.20s\n' % (dset['ordinate_spec_data_type'],
                                                     dset['ordinate_len_unit_exp'], dset['ordinate_force_unit_exp'],
                                                     dset['ordinate_temp_unit_exp'], dset['ordinate_axis_lab'],
                                                     dset['ordinate_axis_units_lab']))
-        fh.write('%10i%5i%5i%5i %-20s %-20s\n' % (dset['orddenom_spec_data_type'],
+        fh.write('%10i%5i%5i%5i %-20.20s %-20.20s\n' % (dset['orddenom_spec_data_type'],
                                                     dset['orddenom_len_unit_exp'], dset['orddenom_force_unit_exp'],
                                                     dset['orddenom_temp_unit_exp'], dset['orddenom_axis_lab'],
                                                     dset['orddenom_axis_units_lab']))
-        fh.write('%10i%5i%5i%5i %-20s %-20s\n' % (dset['z_axis_spec_data_type'],
+        fh.write('%10i%5i%5i%5i %-20.20s %-20.20s\n' % (dset['z_axis_spec_data_type'],
                                                     dset['z_axis_len_unit_exp'], dset['z_axis_force_unit_exp'],
                                                     dset['z_axis_temp_unit_exp'], dset['z_axis_axis_lab'],
                                                     dset['z_axis_axis_units_lab']))
-- 
2.43.0


From 8585cb541861ae4c89a1a12869d15e8b35057eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:25 +0000
Subject: [PATCH 17/49] fix: record 1 of data-set 1858 has fields of 12 columns

---
 pyuff/datasets/dataset_1858.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_1858.py b/pyuff/datasets/dataset_1858.py
index bad58cb..416dc19 100644
--- a/pyuff/datasets/dataset_1858.py
+++ b/pyuff/datasets/dataset_1858.py
@@ -112,7 +112,7 @@ def _write1858(fh, dset):
         dset = _opt_fields(dset, dict)
         fh.write('%6i\n%6i%74s\n' % (-1, 1858, ' '))
 
-        fh.write('%10i%10i%10i%10i%10i%10i\n' % (
+        fh.write('%12i%12i%12i%12i%12i%12i\n' % (
             dset['record_num'],
             dset['octave_format'],
             dset['measurement_run'],
-- 
2.43.0


From cdb4695d050ae3c95e589e24f0db7ec285c074b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:30 +0000
Subject: [PATCH 18/49] fix: negative values in records 12 and 13 of data-set
 2414 stay in their columns

---
 pyuff/datasets/dataset_2414.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index ef84fe7..fd57159 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -594,14 +594,14 @@ def _write2414(fh, dset):
             fh.write('%10i%10i\n' % (
                                             dset['creation_option'], 
                                             dset['number_retained']))
-            fh.write('  %.5e  %.5e  %.5e  %.5e  %.5e  %.5e\n' % (
+            fh.write('%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' % (
                                             dset['time'], 
                                             dset['frequency'], 
                                             dset['eigenvalue'], 
                                             dset['modal_mass'],
                                             dset['viscous_damping'], 
                                             dset['hysteretic_damping']))
-            fh.write('  %.5e  %.5e  %.5e  %.5e  %.5e  %.5e\n' % (
+            fh.write('%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' % (
                                             dset['real_part_eigenvalue'], 
                                             dset['imaginary_part_eigenvalue'], 
                                             dset['real_part_of_modal_A_or_modal_mass'], 
@@ -651,14 +651,14 @@ def _write2414(fh, dset):
                                             dset['record11_field6'], 
                                             dset['record11_field7'],
                                             dset['record11_field8']))
-            fh.write('  %.5e  %.5e  %.5e  %.5e  %.5e  %.5e\n' % (
+            fh.write('%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' % (
                                             dset['record12_field1'], 
                                             dset['record12_field2'],
                                             dset['record12_field3'],
                                             dset['record12_field4'], 
                                             dset['record12_field5'],
                                             dset['record12_field6']))
-            fh.write('  %.5e  %.5e  %.5e  %.5e  %.5e  %.5e\n' % (
+            fh.write('%13.5e%13.5e%13.5e%13.5e%13.5e%13.5e\n' % (
                                             dset['record13_field1'], 
                                             dset['record13_field2'],
                                             dset['record13_field3'],
-- 
2.43.0


From 4e9f238c96c5381112f02ee900b324017913d491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:56 +0000
Subject: [PATCH 19/49] fix: data-set 2414 with dataset location 5 gets its end
 tag

---
 pyuff/datasets/dataset_2414.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index fd57159..d4b58fe 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -699,6 +699,7 @@ def _write2414(fh, dset):
 
             elif dset['dataset_location'] == 5:
                 print('Dataset location 5 has not been implemented yet for writing dataset 2414.')
+                fh.write('%6i\n' % (-1))
 
             else:
                 print('Unknown dataset location ' + str(dset['dataset_location']) + '.')
-- 
2.43.0


From c78dd52f7978e4ee5634d522ef11d06d9b5fff56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:01 +0000
Subject: [PATCH 20/49] fix: complex data with 6 values per node is not written
 as an unreadable data-set 55

---
 pyuff/datasets/dataset_55.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyuff/datasets/dataset_55.py b/pyuff/datasets/dataset_55.py
index 1528971..f192429 100644
--- a/pyuff/datasets/dataset_55.py
+++ b/pyuff/datasets/dataset_55.py
@@ -397,6 +397,8 @@ def _write55(fh, dset):
             n_data_per_node = 3
         if np.iscomplexobj(dset['r1']):
             data_type = 5
+            if n_data_per_node != 3:
+                raise ValueError('Cannot handle 6 points per node and complex data')
         else:
             data_type = 2
         # Write strings to the file
-- 
2.43.0


From 8ad5a25ef5b5b3783468d07908cd8ef78947bb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:06 +0000
Subject: [PATCH 21/49] fix: prepare_group() keeps the temperature and the
 contact set number

---
 pyuff/datasets/dataset_2429.py | 4 ++--
 pyuff/datasets/dataset_2467.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyuff/datasets/dataset_2429.py b/pyuff/datasets/dataset_2429.py
index 89c9bbb..3436b5f 100644
--- a/pyuff/datasets/dataset_2429.py
+++ b/pyuff/datasets/dataset_2429.py
@@ -259,8 +259,8 @@ def prepare_group(
         'active_restraint_set_no_for_group':  active_restraint_set_no_for_group,
         'active_load_set_no_for_group': active_load_set_no_for_group,
         'active_dof_set_no_for_group': active_dof_set_no_for_group,
-        'active_temperature_set_no_for_group': active_dof_set_no_for_group,
-        'active_contact_set_no_for_group': active_dof_set_no_for_group,
+        'active_temperature_set_no_for_group': active_temperature_set_no_for_group,
+        'active_contact_set_no_for_group': active_contact_set_no_for_group,
         }
     
     if return_full_dict is False:
diff --git a/pyuff/datasets/dataset_2467.py b/pyuff/datasets/dataset_2467.py
index 324cf46..40f96de 100644
--- a/pyuff/datasets/dataset_2467.py
+++ b/pyuff/datasets/dataset_2467.py
@@ -240,8 +240,8 @@ def prepare_group(
         'active_restraint_set_no_for_group': active_restraint_set_no_for_group,
         'active_load_set_no_for_group': active_load_set_no_for_group,
         'active_dof_set_no_for_group': active_dof_set_no_for_group,
-        'active_temperature_set_no_for_group': active_dof_set_no_for_group,
-        'active_contact_set_no_for_group': active_dof_set_no_for_group,
+        'active_temperature_set_no_for_group': active_temperature_set_no_for_group,
+        'active_contact_set_no_for_group': active_contact_set_no_for_group,
     }
 
     if return_full_dict is False:
-- 
2.43.0


From d598a56c2d5de9c14f7833d6385f8e0912a78c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 22/49] fix: prepare_2467() checks each field of a group as
 that field

---
 pyuff/datasets/dataset_2467.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyuff/datasets/dataset_2467.py b/pyuff/datasets/dataset_2467.py
index 40f96de..4acb605 100644
--- a/pyuff/datasets/dataset_2467.py
+++ b/pyuff/datasets/dataset_2467.py
@@ -282,6 +282,8 @@ def prepare_2467(
             item['group_name'],
             item['entity_type_code'],
             item['entity_tag'],
+            item['entity_node_leaf_id'],
+            item['entity_component_id'],
             item['active_constraint_set_no_for_group'],
             item['active_restraint_set_no_for_group'],
             item['active_load_set_no_for_group'],
-- 
2.43.0


From f2ed8bf0699c5a550bdfeb449814eb310722af25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:15 +0000
Subject: [PATCH 23/49] fix: reading data-set 2467 does not print

---
 pyuff/datasets/dataset_2467.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pyuff/datasets/dataset_2467.py b/pyuff/datasets/dataset_2467.py
index 4acb605..e7893e8 100644
--- a/pyuff/datasets/dataset_2467.py
+++ b/pyuff/datasets/dataset_2467.py
@@ -124,7 +124,6 @@ def _extract2467(block_data):
     lineIndex = 0
     while lineIndex < len(split_data):
         group = {}
-        print(f"<{split_data[lineIndex]}>")
         group.update(
             _parse_header_line(split_data[lineIndex], 8, [10, 10, 10, 10, 10, 10, 10, 10], [2, 2, 2, 2, 2, 2, 2, 2],
                                ['group_number', 'active_constraint_set_no_for_group',
@@ -141,8 +140,6 @@ def _extract2467(block_data):
         group['entity_tag'] = np.array(values[1::4].copy(), dtype=int)
         group['entity_node_leaf_id'] = np.array(values[2::4].copy(), dtype=int)
         group['entity_component_id'] = np.array(values[3::4].copy(), dtype=int)
-        print(group)
-        print("\n\n")
         dset['groups'].append(group)  # dset is a dictionary, but 'groups' is a list
 
         lineIndex = indexLastLineForGroup
-- 
2.43.0


From a518efd51316b0f55337b85b676d6a7286f12f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 24/49] fix: the last entities of a group are written to
 data-set 2429

---
 pyuff/datasets/dataset_2429.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyuff/datasets/dataset_2429.py b/pyuff/datasets/dataset_2429.py
index 3436b5f..d398364 100644
--- a/pyuff/datasets/dataset_2429.py
+++ b/pyuff/datasets/dataset_2429.py
@@ -135,9 +135,9 @@ def _write2429(fh, dset):
                                                                 dset['entity_type_code'][i * 4 + 2], dset['entity_tag'][i * 4 + 2],
                                                                 dset['entity_type_code'][i * 4 + 3], dset['entity_tag'][i * 4 + 3]))
         # Write the last line
-        for i in range(len(dset['entity_type_code']) % 4):
+        for i in range(len(dset['entity_type_code']) // 4 * 4, len(dset['entity_type_code'])):
             # don't write the line break just yet
-            fh.write('%10i%10i' % (dset['entity_type_code'][i * 4], dset['entity_tag'][i * 4]))
+            fh.write('%10i%10i' % (dset['entity_type_code'][i], dset['entity_tag'][i]))
         # Write the missing line break, but only if a non full last line has been written
         if (len(dset['entity_type_code']) % 4 != 0):
             fh.write('\n')
-- 
2.43.0


From fda07e4ac69f563e2cfff1c1c96078af63a434c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:45 +0000
Subject: [PATCH 25/49] fix: all groups of data-set 2429 are written

---
 pyuff/datasets/dataset_2429.py | 59 ++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 28 deletions(-)

diff --git a/pyuff/datasets/dataset_2429.py b/pyuff/datasets/dataset_2429.py
index d398364..1c263dc 100644
--- a/pyuff/datasets/dataset_2429.py
+++ b/pyuff/datasets/dataset_2429.py
@@ -111,36 +111,39 @@ def _write2429(fh, dset):
                 'active_temperature_set_no_for_group': 0,
                 'active_contact_set_no_for_group': 0 }
 
-        dset = _opt_fields(dset, dict)
         fh.write('%6i\n%6i\n' % (-1, 2429))
 
-        # Record 1
-        # Field 8 (last field) contains the number or entities in the group
-        fh.write('%10i%10i%10i%10i%10i%10i%10i%10i\n' % (dset['group_number'], 
-                                                            dset['active_constraint_set_no_for_group'],
-                                                            dset['active_restraint_set_no_for_group'],
-                                                            dset['active_load_set_no_for_group'],
-                                                            dset['active_dof_set_no_for_group'],
-                                                            dset['active_temperature_set_no_for_group'],
-                                                            dset['active_contact_set_no_for_group'],
-                                                            len(dset['entity_type_code'])))
-        # Record 2
-        fh.write('%-40s\n' % (dset['group_name']))
-
-        # Record 3-N
-        # Write the full lines (which have 4 pairs)
-        for i in range(len(dset['entity_type_code']) // 4):
-            fh.write('%10i%10i%10i%10i%10i%10i%10i%10i\n' % (dset['entity_type_code'][i * 4], dset['entity_tag'][i * 4],
-                                                                dset['entity_type_code'][i * 4 + 1], dset['entity_tag'][i * 4 + 1],
-                                                                dset['entity_type_code'][i * 4 + 2], dset['entity_tag'][i * 4 + 2],
-                                                                dset['entity_type_code'][i * 4 + 3], dset['entity_tag'][i * 4 + 3]))
-        # Write the last line
-        for i in range(len(dset['entity_type_code']) // 4 * 4, len(dset['entity_type_code'])):
-            # don't write the line break just yet
-            fh.write('%10i%10i' % (dset['entity_type_code'][i], dset['entity_tag'][i]))
-        # Write the missing line break, but only if a non full last line has been written
-        if (len(dset['entity_type_code']) % 4 != 0):
-            fh.write('\n')
+        # either several groups or a single one, given by the data-set itself
+        groups = dset['groups'] if 'groups' in dset else [dset]
+        for group in groups:
+            group = _opt_fields(group, dict)
+            # Record 1
+            # Field 8 (last field) contains the number or entities in the group
+            fh.write('%10i%10i%10i%10i%10i%10i%10i%10i\n' % (group['group_number'], 
+                                                                group['active_constraint_set_no_for_group'],
+                                                                group['active_restraint_set_no_for_group'],
+                                                                group['active_load_set_no_for_group'],
+                                                                group['active_dof_set_no_for_group'],
+                                                                group['active_temperature_set_no_for_group'],
+                                                                group['active_contact_set_no_for_group'],
+                                                                len(group['entity_type_code'])))
+            # Record 2
+            fh.write('%-40s\n' % (group['group_name']))
+
+            # Record 3-N
+            # Write the full lines (which have 4 pairs)
+            for i in range(len(group['entity_type_code']) // 4):
+                fh.write('%10i%10i%10i%10i%10i%10i%10i%10i\n' % (group['entity_type_code'][i * 4], group['entity_tag'][i * 4],
+                                                                    group['entity_type_code'][i * 4 + 1], group['entity_tag'][i * 4 + 1],
+                                                                    group['entity_type_code'][i * 4 + 2], group['entity_tag'][i * 4 + 2],
+                                                                    group['entity_type_code'][i * 4 + 3], group['entity_tag'][i * 4 + 3]))
+            # Write the last line
+            for i in range(len(group['entity_type_code']) // 4 * 4, len(group['entity_type_code'])):
+                # don't write the line break just yet
+                fh.write('%10i%10i' % (group['entity_type_code'][i], group['entity_tag'][i]))
+            # Write the missing line break, but only if a non full last line has been written
+            if (len(group['entity_type_code']) % 4 != 0):
+                fh.write('\n')
 
         fh.write('%6i\n' % -1)
 
-- 
2.43.0


From d1db7a8a63d589304158759ca823e73b970f9399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:50 +0000
Subject: [PATCH 26/49] fix: a group without entities at the end of data-set
 2429 is read

---
 pyuff/datasets/dataset_2429.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_2429.py b/pyuff/datasets/dataset_2429.py
index 1c263dc..b9b6ec0 100644
--- a/pyuff/datasets/dataset_2429.py
+++ b/pyuff/datasets/dataset_2429.py
@@ -159,7 +159,7 @@ def _extract2429(block_data):
         
         # there can be multiple groups in the data-set, therefore need to loop.
         lineIndex = 2
-        while lineIndex < len(split_data) - 2:
+        while lineIndex < len(split_data):
             group = {}
             group.update(_parse_header_line(split_data[lineIndex], 8, [10, 10, 10, 10, 10, 10, 10, 10], [2, 2, 2, 2, 2, 2, 2, 2],
                                             ['group_number', 'active_constraint_set_no_for_group', 'active_restraint_set_no_for_group', 'active_load_set_no_for_group',
-- 
2.43.0


From 8c75e8c3cd82eda4a4217bfc403fb12c82bf38d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:55 +0000
Subject: [PATCH 27/49] fix: the active set numbers of the groups of data-set
 2467 are optional

---
 pyuff/datasets/dataset_2467.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_2467.py b/pyuff/datasets/dataset_2467.py
index e7893e8..da5e710 100644
--- a/pyuff/datasets/dataset_2467.py
+++ b/pyuff/datasets/dataset_2467.py
@@ -61,10 +61,10 @@ def _write2467(fh, dset):
                 'active_temperature_set_no_for_group': 0,
                 'active_contact_set_no_for_group': 0}
 
-        dset = _opt_fields(dset, dict)
         fh.write('%6i\n%6i\n' % (-1, 2467))
 
         for group in dset['groups']:
+            group = _opt_fields(group, dict)
             # Record 1
             # Field 8 (last field) contains the number or entities in the group
             fh.write('%10i%10i%10i%10i%10i%10i%10i%10i\n' % (group['group_number'],
-- 
2.43.0


From 9c5c4f07a80d081a91130ccf292894edb8f5a771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 28/49] fix: the date and time given to prepare_151() are
 written to the file

---
 pyuff/datasets/dataset_151.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyuff/datasets/dataset_151.py b/pyuff/datasets/dataset_151.py
index 67e1037..6dcf53e 100644
--- a/pyuff/datasets/dataset_151.py
+++ b/pyuff/datasets/dataset_151.py
@@ -57,8 +57,8 @@ def _write151(fh, dset):
                                         'time_db_created': ts,
                                         'date_db_saved': ds,
                                         'time_db_saved': ts,
-                                        'date_file_written': ds,
-                                        'time_file_written': ts})
+                                        'date_file_written': dset.get('date_db_written', ds),
+                                        'time_file_written': dset.get('time_db_written', ts)})
         # write strings to the file
         fh.write('%6i\n%6i%74s\n' % (-1, 151, ' '))
         fh.write('%-80s\n' % dset['model_name'])
-- 
2.43.0


From a44ede943221ec983d5591cc7ef9fb8c52ad4503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:51 +0000
Subject: [PATCH 29/49] fix: all nodes of data-set 82 are counted and written

---
 pyuff/datasets/dataset_82.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pyuff/datasets/dataset_82.py b/pyuff/datasets/dataset_82.py
index 4e0459a..7e3b867 100644
--- a/pyuff/datasets/dataset_82.py
+++ b/pyuff/datasets/dataset_82.py
@@ -50,17 +50,15 @@ def _write82(fh, dset):
         dset = _opt_fields(dset, {'id': 'NONE',
                                         'color': 0})
         # write strings to the file
-        # removed jul 2017: unique_nodes = set(dset['nodes'])
-        # removed jul 2017:if 0 in unique_nodes: unique_nodes.remove(0)
-        # number of changes of node need to
-        # n_nodes = len(dset['nodes'])
-        n_nodes = np.sum((dset['nodes'][1:] - dset['nodes'][:-1]) != 0) + 1
+        # zeros that only fill up the last record are not counted, except for the first one
+        n_values = len(dset['nodes'])
+        n_nodes = min(len(np.trim_zeros(dset['nodes'], 'b')) + 1, n_values)
         fh.write('%6i\n%6i%74s\n' % (-1, 82, ' '))
         fh.write('%10i%10i%10i\n' % (dset['trace_num'], n_nodes, dset['color']))
         fh.write('%-80s\n' % dset['id'])
         sl = 0
-        n8_blocks = n_nodes // 8
-        rem_lines = n_nodes % 8
+        n8_blocks = n_values // 8
+        rem_lines = n_values % 8
         if n8_blocks:
             for ii in range(0, n8_blocks):
                 #                 fh.write( string.join(['%10i'%line_n for line_n in dset['lines'][sl:sl+8]],'')+'\n' )
-- 
2.43.0


From 3948b071ac89024585724725be0ca32a219aa9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:21 +0000
Subject: [PATCH 30/49] fix: the beam record of data-set 2412 is written for
 all beam elements

---
 pyuff/datasets/dataset_2412.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_2412.py b/pyuff/datasets/dataset_2412.py
index 301f169..0575c08 100644
--- a/pyuff/datasets/dataset_2412.py
+++ b/pyuff/datasets/dataset_2412.py
@@ -60,7 +60,7 @@ def _write2412(fh, dset):
                     elem['color'],
                     elem['num_nodes'],
                 ))
-                if elem['fe_descriptor'] == 11:
+                if elem['fe_descriptor'] in (11, 21, 22, 23, 24):
                 # Rods have to be written in 3 lines - ad additional line here
                     fh.write('%10i%10i%10i\n' % (
                         elem['beam_orientation'],
-- 
2.43.0


From de6f4daad177154789dd47a68de5f2a67d82d9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:44 +0000
Subject: [PATCH 31/49] fix: elements with more than 8 nodes are written to and
 read from several lines in data-set 2412

---
 pyuff/datasets/dataset_2412.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pyuff/datasets/dataset_2412.py b/pyuff/datasets/dataset_2412.py
index 0575c08..1ed20ca 100644
--- a/pyuff/datasets/dataset_2412.py
+++ b/pyuff/datasets/dataset_2412.py
@@ -67,9 +67,10 @@ def _write2412(fh, dset):
                         elem['beam_foreend_cross'],
                         elem['beam_aftend_cross']
                     ))
-                for ii in elem['nodes_nums']:
-                    fh.write('%10i' % ii)
-                fh.write('\n')
+                # at most 8 nodes per line
+                nodes = elem['nodes_nums']
+                for i in range(0, max(len(nodes), 1), 8):
+                    fh.write(''.join(['%10i' % ii for ii in nodes[i:i + 8]]) + '\n')
         fh.write('%6i\n' % -1)
     except:
         raise Exception('Error writing data-set #2412')
@@ -104,12 +105,16 @@ def _extract2412(block_data):
                 dict_tmp['beam_orientation'] = int(split_data[i+1][0])
                 dict_tmp['beam_foreend_cross'] = int(split_data[i + 1][1])
                 dict_tmp['beam_aftend_cross'] = int(split_data[i + 1][2])
-                dict_tmp['nodes_nums'] = [int(e) for e in split_data[i+2]]
-                i += 3
+                i += 2
             else:
                 # element is no rod and covers 2 lines
-                dict_tmp['nodes_nums'] = [int(e) for e in split_data[i+1]]
-                i += 2
+                i += 1
+            # the nodes continue on further lines, if there are more than 8 of them
+            dict_tmp['nodes_nums'] = [int(e) for e in split_data[i]]
+            i += 1
+            while len(dict_tmp['nodes_nums']) < dict_tmp['num_nodes'] and i < len(split_data):
+                dict_tmp['nodes_nums'] += [int(e) for e in split_data[i]]
+                i += 1
             desc = dict_tmp['fe_descriptor']
             if not desc in dset:
                 dset[desc] = []
-- 
2.43.0


From f870a60531c830ab54f4cff345012f51855c4a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:48 +0000
Subject: [PATCH 32/49] fix: several data-sets 2412 are converted to data-sets
 82

---
 pyuff/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/tools.py b/pyuff/tools.py
index a748cfb..703fd40 100644
--- a/pyuff/tools.py
+++ b/pyuff/tools.py
@@ -131,9 +131,9 @@ def convert_dataset_2412_to_82(datasets):
     """Converts the dataset 2412 to dataset 82"""
 
     datasets_82 = []
-    nodes = list()
     for i in range(0, len(datasets)):
         if (datasets[i]["type"] == 2412) and ("quad" in datasets[i].keys()):
+            nodes = list()
             for j in range(len(datasets[i]["quad"]["nodes_nums"])):
                 nodes.append(datasets[i]["quad"]["nodes_nums"][j][0])
                 nodes.append(datasets[i]["quad"]["nodes_nums"][j][1])
-- 
2.43.0


From 72a9012d8c07e9a6dc57f431df3e84e21f710ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 33/49] fix: node data of data-set 2414 in double precision
 complex is read

---
 pyuff/datasets/dataset_2414.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index d4b58fe..332f7af 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -752,7 +752,7 @@ def _extract2414(block_data):
             # generic reading method
             n_skip = dset['number_of_data_values_for_the_data_component'] * 2 + 1 # x2 real/imag
             
-            if dset['data_type'] == 5 :
+            if dset['data_type'] in (5, 6):
                 values = np.asarray([float(str) for str in split_data], 'd')
                 dset['node_nums'] = np.array(values[::n_skip].copy(), dtype=int)
                 
-- 
2.43.0


From 1758aeaf11f864c96f3e717d68d8cb75dbb70d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 34/49] fix: data-set 2414 is not written without the values of
 the nodes

---
 pyuff/datasets/dataset_2414.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index 332f7af..954e8a3 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -628,7 +628,8 @@ def _write2414(fh, dset):
                     fh.write('%13.5e%13.5e\n' % (
                                                 np.real(dset['x'][index]),
                                                 np.imag(dset['x'][index]),))
-                
+                else:
+                    raise ValueError('Only 1, 2 or 3 data values per node can be written.')
             fh.write('%6i\n' % (-1))
         # Dictionairy keys have a general name.
         # The meaning of these records and fields depends on the software which writes/reads these.
-- 
2.43.0


From 298df4d913188a42eb3b149f049289374156b9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:50 +0000
Subject: [PATCH 35/49] fix: a data-set whose last bytes cannot be written is
 taken back

---
 pyuff/pyuff.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 2e46f34..3f357a4 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -492,13 +492,14 @@ class UFF:
             else:
                 # Unsupported data-set - do nothing
                 pass
+            fh.close()  # writes what is buffered, i.e., it can fail as well
         except:
-            fh.close()
-            # do not leave a part of the data-set behind
-            os.truncate(self._filename, size)
+            try:
+                fh.close()
+            finally:
+                # do not leave a part of the data-set behind
+                os.truncate(self._filename, size)
             raise  # re-raise the last exception
-        else:
-            fh.close()
         self.refresh()
 
 
-- 
2.43.0


From f0aefe4bfccf0cf181907e256ad2b7cef8c4425d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:40 +0000
Subject: [PATCH 36/49] fix: fix_58b keeps a carriage return that ends the
 binary data

---
 pyuff/datasets/dataset_58.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index ee4780d..e0d7618 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -1528,6 +1528,14 @@ def fix_58b(filename,fixed_filename=None):
             start = [i for i, line in enumerate(lines[:-1]) if line.strip() == b'-1'][:1]
             binary = bool(start) and lines[start[0]+1][6:7].lower() == b'b'
 
+            # The line ending of the file; other CR and LF in front of it are data
+            eol = lines[start[0]][len(lines[start[0]].rstrip(b'\r\n')):] if start else b''
+
+            def strip_eol(line):
+                if eol and line.endswith(eol):
+                    return line[:-len(eol)]
+                return line.rstrip(b'\r\n')
+
             # Fix 1: Adjust 'data\n    -1\n    -1\n data' patterns
             i = 0
             while i < len(lines) - 3:
@@ -1538,7 +1546,7 @@ def fix_58b(filename,fixed_filename=None):
                         i += 1
                         continue
                     # Move '    -1' from lines[i+1] to the end of lines[i]
-                    data_line = lines[i].rstrip(b'\r\n')  # Remove newline characters
+                    data_line = strip_eol(lines[i])  # Remove newline characters
                     data_line += b'    -1' + lines[i+1][len(lines[i+1].rstrip(b'\r\n')):]  # Add '    -1' and newline
                     lines[i] = data_line
                     del lines[i+1]  # Remove the now-empty line
@@ -1550,7 +1558,7 @@ def fix_58b(filename,fixed_filename=None):
             if len(lines) >= 1 and lines[-1].strip() == b'-1' and binary:
                 if len(lines) >= 2:
                     # Move '    -1' up to the end of the previous line
-                    prev_line = lines[-2].rstrip(b'\r\n')
+                    prev_line = strip_eol(lines[-2])
                     prev_line += b'    -1' + lines[-1][len(lines[-1].rstrip(b'\r\n')):]  # Keep the newline character
                     lines[-2] = prev_line
                     lines.pop()  # Remove the last line
-- 
2.43.0


From 98ec804e7dbc952e116d9a27fbf0cd2bdb519312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:03 +0000
Subject: [PATCH 37/49] fix: fix_58b took any -1 in a header or a record for a
 tag

---
 pyuff/datasets/dataset_58.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index e0d7618..ba5ba5c 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -1524,8 +1524,12 @@ def fix_58b(filename,fixed_filename=None):
         try:
             lines = data.splitlines(keepends=True)
 
+            def is_tag(line):
+                # a tag ends at column 6, i.e., other -1 are data
+                return line.rstrip() == b'    -1'
+
             # Only the end tags of the binary data-sets are to be moved
-            start = [i for i, line in enumerate(lines[:-1]) if line.strip() == b'-1'][:1]
+            start = [i for i, line in enumerate(lines[:-1]) if is_tag(line)][:1]
             binary = bool(start) and lines[start[0]+1][6:7].lower() == b'b'
 
             # The line ending of the file; other CR and LF in front of it are data
@@ -1539,7 +1543,7 @@ def fix_58b(filename,fixed_filename=None):
             # Fix 1: Adjust 'data\n    -1\n    -1\n data' patterns
             i = 0
             while i < len(lines) - 3:
-                if (lines[i+1].strip() == b'-1' and lines[i+2].strip() == b'-1'):
+                if is_tag(lines[i+1]) and is_tag(lines[i+2]):
                     was_binary = binary
                     binary = lines[i+3][6:7].lower() == b'b'
                     if not was_binary:
@@ -1555,7 +1559,7 @@ def fix_58b(filename,fixed_filename=None):
                     i += 1  # Move to the next line
 
             # Fix 2: Adjust ending '    -1' line
-            if len(lines) >= 1 and lines[-1].strip() == b'-1' and binary:
+            if len(lines) >= 1 and is_tag(lines[-1]) and binary:
                 if len(lines) >= 2:
                     # Move '    -1' up to the end of the previous line
                     prev_line = strip_eol(lines[-2])
-- 
2.43.0


From 2f926d7f41cf37f0c71ec70061953d3a78baa481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:51 +0000
Subject: [PATCH 38/49] fix: fix_58b moved the end tags of text sets that
 follow a sound binary set

---
 pyuff/datasets/dataset_58.py | 62 ++++++++++++++----------------------
 1 file changed, 24 insertions(+), 38 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index ba5ba5c..1e3a003 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -1528,50 +1528,36 @@ def fix_58b(filename,fixed_filename=None):
                 # a tag ends at column 6, i.e., other -1 are data
                 return line.rstrip() == b'    -1'
 
-            # Only the end tags of the binary data-sets are to be moved
-            start = [i for i, line in enumerate(lines[:-1]) if is_tag(line)][:1]
-            binary = bool(start) and lines[start[0]+1][6:7].lower() == b'b'
-
-            # The line ending of the file; other CR and LF in front of it are data
-            eol = lines[start[0]][len(lines[start[0]].rstrip(b'\r\n')):] if start else b''
-
-            def strip_eol(line):
+            def strip_eol(line, eol):
+                # other CR and LF in front of the line ending of the file are data
                 if eol and line.endswith(eol):
                     return line[:-len(eol)]
                 return line.rstrip(b'\r\n')
 
-            # Fix 1: Adjust 'data\n    -1\n    -1\n data' patterns
-            i = 0
-            while i < len(lines) - 3:
-                if is_tag(lines[i+1]) and is_tag(lines[i+2]):
-                    was_binary = binary
-                    binary = lines[i+3][6:7].lower() == b'b'
-                    if not was_binary:
-                        i += 1
-                        continue
-                    # Move '    -1' from lines[i+1] to the end of lines[i]
-                    data_line = strip_eol(lines[i])  # Remove newline characters
-                    data_line += b'    -1' + lines[i+1][len(lines[i+1].rstrip(b'\r\n')):]  # Add '    -1' and newline
-                    lines[i] = data_line
-                    del lines[i+1]  # Remove the now-empty line
-                    # Do not increment i to recheck the new line at position i
-                else:
-                    i += 1  # Move to the next line
-
-            # Fix 2: Adjust ending '    -1' line
-            if len(lines) >= 1 and is_tag(lines[-1]) and binary:
-                if len(lines) >= 2:
-                    # Move '    -1' up to the end of the previous line
-                    prev_line = strip_eol(lines[-2])
-                    prev_line += b'    -1' + lines[-1][len(lines[-1].rstrip(b'\r\n')):]  # Keep the newline character
-                    lines[-2] = prev_line
-                    lines.pop()  # Remove the last line
-                else:
-                    pass
+            # Only the end tags of the binary data-sets are to be moved, i.e.,
+            # 'data\n    -1\n' becomes 'data    -1\n'
+            fixed = []
+            start = None  # the line of the start tag, None between the data-sets
+            binary = False
+            eol = b''
+            for i, line in enumerate(lines):
+                if start is None:
+                    if is_tag(line):
+                        start = i
+                        binary = i + 1 < len(lines) and lines[i+1][6:7].lower() == b'b'
+                        eol = line[len(line.rstrip(b'\r\n')):]
+                elif not binary:
+                    if is_tag(line):
+                        start = None
+                elif i > start + 12 and line.rstrip().endswith(b'    -1'):
+                    # the data starts behind the header; the end tag may be in place
+                    if is_tag(line):
+                        fixed[-1] = strip_eol(fixed[-1], eol)
+                    start = None
+                fixed.append(line)
 
             # Reassemble the data
-            data = b''.join(lines)
-
+            data = b''.join(fixed)
 
             # Write the fixed data back to the file
             if fixed_filename is None:
-- 
2.43.0


From e5fce9bf0661a6575450d39cbfe00a174d878de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:56 +0000
Subject: [PATCH 39/49] fix: more than 6 values in record 15 of data-set 2414
 take several lines

---
 pyuff/datasets/dataset_2414.py | 59 +++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 18 deletions(-)

diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index 954e8a3..c1b9c09 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -681,8 +681,10 @@ def _write2414(fh, dset):
                 for index in range(dset['element_nums'].shape[0]):
                     # get NDVAL from the datalength instead of the dictionary entry
                     fh.write('%10i%10i\n' % (dset['element_nums'][index], len(dset['data_at_element'][index])))
-                    for field in dset['data_at_element'][index]:
+                    for k, field in enumerate(dset['data_at_element'][index]):
                         # number of values in record15 unknown, so loop
+                        if k > 0 and k % 6 == 0:
+                            fh.write('\n')
                         fh.write('%13.5e' % (field))
                     fh.write('\n')
                 fh.write('%6i\n' % (-1))
@@ -693,7 +695,9 @@ def _write2414(fh, dset):
                                                     dset['number_of_nodes'][index], dset['number_of_values_per_node'][index]))
                     for line in dset['data_at_nodes_on_element'][index]:
                         # each line is an np.ndarray with unknown number of elements, so loop
-                        for item in line:
+                        for k, item in enumerate(line):
+                            if k > 0 and k % 6 == 0:
+                                fh.write('\n')
                             fh.write('%13.5e' % (item))
                         fh.write('\n')
                 fh.write('%6i\n' % (-1))
@@ -798,12 +802,26 @@ def _extract2414(block_data):
 
             elif dset['dataset_location'] == 2:
                 # Data on elements
-                record14 = np.asarray([str.split() for str in split_data[0::2]], 'U')
-                ## record 15 not always same number of fields, so a list of ndarray
-                record15 = [np.array([float(elem) for elem in item.split()], float) for item in split_data[1::2]]
-                dset['element_nums'] = np.array(record14[:,0].copy(), dtype=int)
-                dset['NDVAL'] = np.array(record14[:,1].copy(), dtype=int)
-                dset['data_at_element'] = record15
+                dset['element_nums'] = []
+                dset['NDVAL'] = []
+                # record 15 not always same number of fields, so a list of ndarray
+                dset['data_at_element'] = []
+                lineIndex = 0
+                while lineIndex < len(split_data):
+                    record14 = split_data[lineIndex].split()
+                    dset['element_nums'].append(int(record14[0]))
+                    dset['NDVAL'].append(int(record14[1]))
+                    lineIndex += 1
+                    values = []
+                    # record 15 has 6 values per line
+                    while True:
+                        values.extend([float(elem) for elem in split_data[lineIndex].split()])
+                        lineIndex += 1
+                        if len(values) >= dset['NDVAL'][-1]:
+                            break
+                    dset['data_at_element'].append(np.array(values, float))
+                dset['element_nums'] = np.array(dset['element_nums'], dtype=int)
+                dset['NDVAL'] = np.array(dset['NDVAL'], dtype=int)
 
             elif dset['dataset_location'] == 3:
                 # Data at nodes on elements
@@ -824,16 +842,21 @@ def _extract2414(block_data):
                     dset['number_of_nodes'].append(numberOfNodes)
                     numberOfValuesPerNode = int(split_data[lineIndex].split()[3])
                     dset['number_of_values_per_node'].append(numberOfValuesPerNode)
-                    # if IEXP = 2, only one line for all nodes. Thus floor division + 1
-                    numberOfLinesInRecord15 = 0
-                    if iEXP == 1:
-                        numberOfLinesInRecord15 = numberOfNodes * math.ceil(numberOfValuesPerNode / 6)
-                    else:
-                        numberOfLinesInRecord15 = math.ceil(numberOfValuesPerNode / 6)
-                    # a list of numpy array, since the number of lines is not fixed.
-                    dset['data_at_nodes_on_element'].append([np.array([float(elem) for elem in item.split()], float) for item in split_data[lineIndex + 1:lineIndex + 1 + numberOfLinesInRecord15]])
-
-                    lineIndex = lineIndex + 1 + numberOfLinesInRecord15
+                    # if IEXP = 2, only one record 15 for all nodes
+                    numberOfRecords15 = numberOfNodes if iEXP == 1 else 1
+                    lineIndex += 1
+                    # a list of numpy array, since the number of values is not fixed.
+                    records15 = []
+                    for _ in range(numberOfRecords15):
+                        values = []
+                        # record 15 has 6 values per line
+                        while True:
+                            values.extend([float(elem) for elem in split_data[lineIndex].split()])
+                            lineIndex += 1
+                            if len(values) >= numberOfValuesPerNode:
+                                break
+                        records15.append(np.array(values, float))
+                    dset['data_at_nodes_on_element'].append(records15)
 
                 # make the lists into array, for easier handling the results.
                 dset['element_nums'] = np.array(dset['element_nums'], int)
-- 
2.43.0


From 351f0294ae356d5081d0ef7c758bb965350fe9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 40/49] fix: a data-set added to a file whose last line has no
 newline starts a line of its own

---
 pyuff/pyuff.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index 3f357a4..d6fda02 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -458,6 +458,12 @@ class UFF:
             # handle nan or inf
             if 'data' in dset.keys():
                 dset['data'] = np.nan_to_num(dset['data'])
+            if size and set_type in [int(t) for t in _SUPPORTED_SETS if t.isdigit()]:
+                # the start tag has to begin a line of its own
+                with open(self._filename, 'rb') as fh_end:
+                    fh_end.seek(size - 1)
+                    if fh_end.read(1) not in [b'\n', b'\r']:
+                        fh.write('\n')
 
             if set_type == 15:
                 _write15(fh, dset)
-- 
2.43.0


From 7f5186ab437d0cb627331d48e6a79290749ef489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:59 +0000
Subject: [PATCH 41/49] fix: numbers filling the first column of the second and
 later records of 15 and 18 are read

---
 pyuff/datasets/dataset_15.py | 2 +-
 pyuff/datasets/dataset_18.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyuff/datasets/dataset_15.py b/pyuff/datasets/dataset_15.py
index 1f50908..66cceb0 100644
--- a/pyuff/datasets/dataset_15.py
+++ b/pyuff/datasets/dataset_15.py
@@ -62,7 +62,7 @@ def _extract15(block_data):
     try:
         # Body
         split_data = block_data.splitlines()
-        split_data = ''.join(split_data[2:]).split()
+        split_data = ' '.join(split_data[2:]).split()
         split_data = [float(_) for _ in split_data]
 
         dset['node_nums'] = split_data[::7]
diff --git a/pyuff/datasets/dataset_18.py b/pyuff/datasets/dataset_18.py
index f394faf..608a5da 100644
--- a/pyuff/datasets/dataset_18.py
+++ b/pyuff/datasets/dataset_18.py
@@ -80,7 +80,7 @@ def _extract18(block_data):
         split_data = block_data.splitlines()
 
         # -- Get Record 1
-        rec_1 = np.array(list(map(float, ''.join(split_data[2::4]).split())))
+        rec_1 = np.array(list(map(float, ' '.join(split_data[2::4]).split())))
 
         dset['cs_num'] = rec_1[::5]
         dset['cs_type'] = rec_1[1::5]
-- 
2.43.0


From ede1932da2077e7bb6c1fb4e88f0a86c79be3e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 42/49] fix: records of data-set 18 padded with blanks are read

---
 pyuff/datasets/dataset_18.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyuff/datasets/dataset_18.py b/pyuff/datasets/dataset_18.py
index 608a5da..66b78df 100644
--- a/pyuff/datasets/dataset_18.py
+++ b/pyuff/datasets/dataset_18.py
@@ -93,8 +93,7 @@ def _extract18(block_data):
 
         # -- Get Record 31 and 32
         # ... these are the origins of cs defined in ref
-        line_data = ''.join(split_data[4::4])
-        rec_31 = [float(line_data[i * 13:(i + 1) * 13]) for i in range(int(len(line_data) / 13))]
+        rec_31 = [float(line[i * 13:(i + 1) * 13]) for line in split_data[4::4] for i in range(6)]
         dset['ref_o'] = np.vstack((np.array(rec_31[::6]),
                                     np.array(rec_31[1::6]),
                                     np.array(rec_31[2::6]))).transpose()
@@ -105,8 +104,7 @@ def _extract18(block_data):
                                         np.array(rec_31[5::6]))).transpose()
 
         # ... these are the points on the xz plane
-        line_data = ''.join(split_data[5::4])
-        rec_32 = [float(line_data[i * 13:(i + 1) * 13]) for i in range(int(len(line_data) / 13))]
+        rec_32 = [float(line[i * 13:(i + 1) * 13]) for line in split_data[5::4] for i in range(3)]
         dset['xz_point'] = np.vstack((np.array(rec_32[::3]),
                                         np.array(rec_32[1::3]),
                                         np.array(rec_32[2::3]))).transpose()
-- 
2.43.0


From b7f586bb9e30c56d385222c519017aba8babc1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:23 +0000
Subject: [PATCH 43/49] fix: records of data-set 55 padded with blanks are read

---
 pyuff/datasets/dataset_55.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/datasets/dataset_55.py b/pyuff/datasets/dataset_55.py
index f192429..2c30962 100644
--- a/pyuff/datasets/dataset_55.py
+++ b/pyuff/datasets/dataset_55.py
@@ -506,7 +506,7 @@ def _extract55(block_data):
             # Body
         split_data = ''.join(split_data[10:])
         node_nums = np.asarray([int(str) for str in split_data.splitlines(True)[::2]])
-        node_vals = np.array([[str[i*13:(i+1)*13] for i in range(len(str)//13) ] for str in split_data.splitlines(True)[1::2]], 'd').flatten()
+        node_vals = np.array([[str[i*13:(i+1)*13] for i in range(len(str.rstrip())//13) ] for str in split_data.splitlines(True)[1::2]], 'd').flatten()
         if dset['data_type'] == 2:
             # real data
             if dset['n_data_per_node'] == 3:
-- 
2.43.0


From dffa2bb2800cddcbc9913105640bd8327fe188fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:16 +0000
Subject: [PATCH 44/49] fix: double precision records of data-set 58 padded
 with blanks are read

---
 pyuff/datasets/dataset_58.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index 1e3a003..ce05858 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -1107,12 +1107,12 @@ def _extract58(block_data, header_only=False):
                         values.extend([float(line[13 * i:13 * (i + 1)]) for i in range(len(line) // 13) if line[13 * i:13 * (i + 1)]!='             '])
                 elif ((dset['ord_data_type'] == 4) or (dset['ord_data_type'] == 6)) and (dset['abscissa_spacing'] == 1):
                     for line in split_data:  # '4E20.12'
-                        values.extend([float(line[20 * i:20 * (i + 1)]) for i in range(len(line) // 20)])
+                        values.extend([float(line[20 * i:20 * (i + 1)]) for i in range(len(line.rstrip()) // 20)])
                 elif (dset['ord_data_type'] == 4) and (dset['abscissa_spacing'] == 0):
                     for line in split_data:  # 2(E13.5,E20.12)
                         values.extend(
                             [float(line[13 * (i + j) + 20 * (i):13 * (i + 1) + 20 * (i + j)]) \
-                                for i in range(len(line) // 33) for j in [0, 1]])
+                                for i in range(len(line.rstrip()) // 33) for j in [0, 1]])
                 elif (dset['ord_data_type'] == 6) and (dset['abscissa_spacing'] == 0):
                     for line in split_data:  # 1E13.5,2E20.12
                         values.extend([float(line[0:13]), float(line[13:33]), float(line[33:53])])
-- 
2.43.0


From f1f126eeaa799de0584e9b8b45f64e857567a6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 45/49] fix: data-set 2414 without data at nodes is read

---
 pyuff/datasets/dataset_2414.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyuff/datasets/dataset_2414.py b/pyuff/datasets/dataset_2414.py
index c1b9c09..ae861ef 100644
--- a/pyuff/datasets/dataset_2414.py
+++ b/pyuff/datasets/dataset_2414.py
@@ -794,10 +794,10 @@ def _extract2414(block_data):
             split_data = split_data.splitlines()
             if dset['dataset_location'] == 1:
                 # Data at nodes
-                record14 = np.asarray([str.split() for str in split_data[0::2]], 'U')
+                record14 = [item.split()[0] for item in split_data[0::2]]
                 # record 15 not always same number of fields, so a list of ndarray
                 record15 = [np.array([float(elem) for elem in item.split()], float) for item in split_data[1::2]]
-                dset['node_nums'] = np.array(record14[:,0].copy(), dtype=int)
+                dset['node_nums'] = np.array(record14, dtype=int)
                 dset['data_at_node'] = record15
 
             elif dset['dataset_location'] == 2:
-- 
2.43.0


From e27fdbb86d80fcc8d6d6ebc68984d8f49f43a0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:44 +0000
Subject: [PATCH 46/49] fix: convert_dataset_2412_to_82 raised ValueError for a
 list of no quadrilaterals

---
 pyuff/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyuff/tools.py b/pyuff/tools.py
index 703fd40..bdac80c 100644
--- a/pyuff/tools.py
+++ b/pyuff/tools.py
@@ -147,7 +147,7 @@ def convert_dataset_2412_to_82(datasets):
                 nodes.append(datasets[i]["quad"]["nodes_nums"][j][3])
                 nodes.append(datasets[i]["quad"]["nodes_nums"][j][0])
                 nodes.append(0)
-            nodes = np.array(nodes)
+            nodes = np.array(nodes, dtype=int)
             dataset_82 = pyuff.prepare_82(
                 trace_num=i,
                 n_nodes=len(nodes),
-- 
2.43.0


From f9e577792f2e3763824a311644f6a96b0c117eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:02 +0000
Subject: [PATCH 47/49] fix: do not search the data of a binary data-set for
 tags

The bytes of the data of a 58b data-set can be those of a tag; the
data-sets were torn apart there and could not be read back. The declared
number of bytes now tells where the data end, if an end tag is there.
---
 pyuff/pyuff.py |  4 ++++
 pyuff/tools.py | 25 +++++++++++++++++++++++++
 2 files changed, 29 insertions(+)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index d6fda02..fd8b066 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -46,6 +46,7 @@ import warnings
 warnings.simplefilter("default")
 
 
+from .tools import _end_of_binary_data
 from .datasets.dataset_15 import _write15, _extract15, get_structure_15
 from .datasets.dataset_18 import _write18, _extract18, get_structure_18
 from .datasets.dataset_55 import _write55, _extract55, get_structure_55
@@ -210,6 +211,9 @@ class UFF:
                     elif ind+80 <= data_len and data[ind+6:ind+80] == \
                         b'                                                                          ':
                         block_ind.append(ind)
+                    # The data of a binary data-set are not searched for tags
+                    if len(block_ind) % 2 == 1 and block_ind[-1] == ind:
+                        ind = max(ind, _end_of_binary_data(data, ind)[1] - 1)
                     
                 block_ind = np.asarray(block_ind, dtype='int64')
 
diff --git a/pyuff/tools.py b/pyuff/tools.py
index bdac80c..22eb8ff 100644
--- a/pyuff/tools.py
+++ b/pyuff/tools.py
@@ -118,6 +118,31 @@ def _write_record(fh, values, formats, multiline=False, fstring=True):
 
     fh.write(to_write)
 
+def _end_of_binary_data(data, start):
+    """Returns where the data of the binary data-set (58b) that begins at start
+    end, as given by the declared number of bytes, and where the end tag is.
+
+    The data can hold any bytes, i.e., those of a tag as well. If the number
+    of bytes is not declared or there is no end tag behind them, -1 is returned
+    for both.
+
+    :param data: bytes of the whole file
+    :param start: offset of the start tag
+    """
+    header = data[start:start + 8192].splitlines(True)[:13]
+    if len(header) == 13 and header[1][6:7].lower() == b'b':
+        try:
+            n_bytes = int(header[1][31:43])
+        except ValueError:
+            n_bytes = 0
+        end = start + sum(len(line) for line in header) + n_bytes
+        # there may be a line ending in front of the end tag
+        for eol in [b'', b'\n', b'\r\n', b'\r']:
+            tag = end + len(eol)
+            if n_bytes > 0 and data[end:tag + 6] == eol + b'    -1':
+                return end, tag
+    return -1, -1
+
 def check_dict_for_none(dataset):
     dataset1 = {}
     for k, v in dataset.items():
-- 
2.43.0


From 14d715683f26cc2e3d8689af547c2de96a925b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:07 +0000
Subject: [PATCH 48/49] fix: fix_58b: keep the bytes of the data that look like
 a tag or a line ending

---
 pyuff/datasets/dataset_58.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyuff/datasets/dataset_58.py b/pyuff/datasets/dataset_58.py
index ce05858..4e03728 100644
--- a/pyuff/datasets/dataset_58.py
+++ b/pyuff/datasets/dataset_58.py
@@ -3,7 +3,7 @@ import struct
 import sys
 import os
 
-from ..tools import _opt_fields, _parse_header_line, check_dict_for_none
+from ..tools import _opt_fields, _parse_header_line, check_dict_for_none, _end_of_binary_data
 
 def get_structure_58(raw=False):
     """(source: https://www.ceas3.uc.edu/sdrluff/"""
@@ -1540,21 +1540,29 @@ def fix_58b(filename,fixed_filename=None):
             start = None  # the line of the start tag, None between the data-sets
             binary = False
             eol = b''
+            offset = 0  # where the line begins
+            end = tag = -1  # where the binary data end and their end tag is, -1 if not known
             for i, line in enumerate(lines):
                 if start is None:
                     if is_tag(line):
                         start = i
                         binary = i + 1 < len(lines) and lines[i+1][6:7].lower() == b'b'
                         eol = line[len(line.rstrip(b'\r\n')):]
+                        end, tag = _end_of_binary_data(data, offset)
                 elif not binary:
                     if is_tag(line):
                         start = None
+                elif offset + len(line) <= tag:
+                    pass  # these bytes are data
                 elif i > start + 12 and line.rstrip().endswith(b'    -1'):
                     # the data starts behind the header; the end tag may be in place
-                    if is_tag(line):
+                    if offset <= tag < offset + len(line):
+                        fixed[-1] = fixed[-1][:len(fixed[-1]) - (tag - end)]
+                    elif is_tag(line):
                         fixed[-1] = strip_eol(fixed[-1], eol)
                     start = None
                 fixed.append(line)
+                offset += len(line)
 
             # Reassemble the data
             data = b''.join(fixed)
-- 
2.43.0


From d4cf098525574919feb0bba604adb4732dcce006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:35 +0000
Subject: [PATCH 49/49] fix: infinite values are written in single precision as
 well

---
 pyuff/pyuff.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyuff/pyuff.py b/pyuff/pyuff.py
index fd8b066..a6355de 100644
--- a/pyuff/pyuff.py
+++ b/pyuff/pyuff.py
@@ -459,6 +459,10 @@ class UFF:
             except:
                 fh.close()
                 raise Exception('Data-set\'s dictionary is missing the required \'type\' key')
+            if 'data' in dset.keys() and not force_double and dset.get('ord_data_type') not in [4, 6]:
+                # infinite values become the largest ones of single precision
+                largest = np.finfo('f').max
+                dset['data'] = np.nan_to_num(dset['data'], posinf=largest, neginf=-largest)
             # handle nan or inf
             if 'data' in dset.keys():
                 dset['data'] = np.nan_to_num(dset['data'])
-- 
2.43.0

