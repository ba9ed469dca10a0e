From 269d51c1712df6f9680b65375d585d1f3c9c3d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:50 +0000
Subject: [PATCH 01/31] fix: parallel_bincount failed with uint64 input

numpy promotes uint64 scalar + int to float64, so the number of bins was
a float and allocating the result raised TypeError.
---
 python/virgo/mpi/parallel_sort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/mpi/parallel_sort.py b/python/virgo/mpi/parallel_sort.py
index 534e40d..9f8cbba 100644
--- a/python/virgo/mpi/parallel_sort.py
+++ b/python/virgo/mpi/parallel_sort.py
@@ -1121,7 +1121,7 @@ def parallel_bincount(x, weights=None, minlength=None, result=None, comm=None):
 
     # Find the maximum value in x
     x_max = np.amax(x) if len(x) > 0 else 0
-    x_max = comm.allreduce(x_max, op=MPI.MAX)
+    x_max = comm.allreduce(int(x_max), op=MPI.MAX)
     total_nr_bins = x_max+1
 
     # Find total number of bins needed
-- 
2.43.0


From d37422bfe8ad566866a16f52477030aa330763f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:33 +0000
Subject: [PATCH 02/31] fix: parallel array operations on non C-contiguous
 arrays

repartition() and fetch_elements() returned uninitialised data if the
input (or the supplied result) was a Fortran ordered or strided array,
because received data went into a temporary copy made by reshape().
reduce_elements() did the same with Fortran ordered updates. Strided 1D
arrays could not be sent (or sorted) at all.
---
 python/virgo/mpi/parallel_sort.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/python/virgo/mpi/parallel_sort.py b/python/virgo/mpi/parallel_sort.py
index 9f8cbba..338b4c4 100644
--- a/python/virgo/mpi/parallel_sort.py
+++ b/python/virgo/mpi/parallel_sort.py
@@ -65,6 +65,9 @@ def my_alltoallv(sendbuf, send_count, send_offset,
     mpi_type_send = mpi_datatype(sendbuf.dtype)
     mpi_type_recv = mpi_datatype(recvbuf.dtype)
 
+    # MPI can only send from contiguous buffers
+    sendbuf = np.ascontiguousarray(sendbuf)
+
     if method == "hypercube":
         #
         # Loop over pairs of processes and sendrecv() data
@@ -244,7 +247,7 @@ def repartition(arr, ndesired, comm=None):
 
     shape = list(arr.shape)
     shape[0] = sum(recv_count)
-    arr_return = np.empty_like(arr, shape=shape, dtype=arr.dtype)
+    arr_return = np.empty_like(arr, shape=shape, dtype=arr.dtype, order="C")
     my_alltoallv(arr.reshape((-1,)),        nvalues*send_count, nvalues*send_displ,
                  arr_return.reshape((-1,)), nvalues*recv_count, nvalues*recv_displ,
                  comm=comm)
@@ -330,10 +333,10 @@ def fetch_elements(arr, index, result=None, comm=None):
         # Will return result, so allocate storage
         shape = list(arr.shape)
         shape[0] = index.shape[0]
-        values_recv = np.empty_like(arr, shape=shape)
+        values_recv = np.empty_like(arr, shape=shape, order="C")
     else:
-        # Will put result in supplied array
-        values_recv = result
+        # Will put result in supplied array, which might not be contiguous
+        values_recv = np.empty_like(result, order="C")
 
     my_alltoallv(values.reshape((-1,)),      nvalues*recv_count, nvalues*recv_displ,
                  values_recv.reshape((-1,)), nvalues*send_count, nvalues*send_displ,
@@ -341,10 +344,11 @@ def fetch_elements(arr, index, result=None, comm=None):
     del values
 
     # Restore original order using index array
-    values_recv[idx,...] = values_recv.copy()
-
     if result is None:
+        values_recv[idx,...] = values_recv.copy()
         return values_recv
+    else:
+        result[idx,...] = values_recv
 
 
 
@@ -1069,7 +1073,7 @@ def reduce_elements(arr, updates, index, op, comm=None):
 
     # Exchange updates
     recv_shape = (sum(recv_count),) + updates.shape[1:]
-    updates_recv = np.empty_like(updates, shape=recv_shape)
+    updates_recv = np.empty_like(updates, shape=recv_shape, order="C")
     my_alltoallv(updates.reshape((-1,)),      nvalues*send_count, nvalues*send_displ,
                  updates_recv.reshape((-1,)), nvalues*recv_count, nvalues*recv_displ,
                  comm=comm)
-- 
2.43.0


From 83322d0dfb45500866649bd3969490f158361f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:42 +0000
Subject: [PATCH 03/31] fix: collective HDF5 reads and writes which hang or
 lose data

collective_read() left the output uninitialised and collective_write()
looped forever if one row was larger than the buffer; both failed if a
trailing dimension had zero size; and collective_read() of types other
than integers and floats hung if some ranks needed fewer iterations,
because h5py omits zero sized reads.
---
 python/virgo/mpi/parallel_hdf5.py | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/python/virgo/mpi/parallel_hdf5.py b/python/virgo/mpi/parallel_hdf5.py
index 2fdaf77..30d9211 100644
--- a/python/virgo/mpi/parallel_hdf5.py
+++ b/python/virgo/mpi/parallel_hdf5.py
@@ -122,7 +122,7 @@ def collective_read(dataset, comm, buffer_size=None):
     # Determine offsets to read at on each task
     offset_on_task = np.cumsum(num_on_task) - num_on_task
 
-    if ntot < 10*comm_size:
+    if ntot < 10*comm_size or 0 in dataset.shape:
         # If the dataset is small, read on one rank and broadcast
         if comm_rank == 0:
             data = dataset[...]
@@ -139,7 +139,8 @@ def collective_read(dataset, comm, buffer_size=None):
             element_size *= s
         local_nr_bytes = num_on_task[comm_rank] * element_size
         # Compute number of iterations this task needs
-        buffer_size_elements = buffer_size // element_size
+        # (must read at least one row per iteration)
+        buffer_size_elements = max(buffer_size // element_size, 1)
         local_nr_iterations = num_on_task[comm_rank] // buffer_size_elements
         if num_on_task[comm_rank] % buffer_size_elements > 0:
             local_nr_iterations += 1
@@ -149,14 +150,28 @@ def collective_read(dataset, comm, buffer_size=None):
         shape = list(dataset.shape)
         shape[0] = num_on_task[comm_rank]
         data = np.ndarray(shape, dtype=dataset.dtype)
+        # We need to use the low level interface here because the h5py high
+        # level interface omits zero sized reads of some data types, which
+        # causes a hang if a rank has nothing left to read.
+        file_space = dataset.id.get_space()
+        mem_space = h5py.h5s.create_simple(data.shape)
+        prop_list = h5py.h5p.create(h5py.h5p.DATASET_XFER)
+        prop_list.set_dxpl_mpio(h5py.h5fd.MPIO_COLLECTIVE)
+        row_shape = tuple(dataset.shape[1:])
+        no_offset = (0,)*len(row_shape)
         # Read the data
         offset_in_mem = 0
         offset_in_file = offset_on_task[comm_rank]
         nr_left = num_on_task[comm_rank]
         for i in range(global_nr_iterations):
             length = min(nr_left, buffer_size_elements)
-            with dataset.collective:
-                data[offset_in_mem:offset_in_mem+length,...] = dataset[offset_in_file:offset_in_file+length,...]
+            if length > 0:
+                file_space.select_hyperslab((offset_in_file,)+no_offset, (length,)+row_shape)
+                mem_space.select_hyperslab((offset_in_mem,)+no_offset, (length,)+row_shape)
+            else:
+                file_space.select_none()
+                mem_space.select_none()
+            dataset.id.read(mem_space, file_space, data, dxpl=prop_list)
             offset_in_mem += length
             offset_in_file += length
             nr_left -= length
@@ -235,7 +250,12 @@ def collective_write(group, name, data, comm, buffer_size=None, create_dataset=T
     element_size = data.dtype.itemsize
     for s in full_shape[1:]:
         element_size *= s
-    max_elements = buffer_size // element_size
+    if element_size > 0:
+        # Must write at least one row per iteration
+        max_elements = max(buffer_size // element_size, 1)
+    else:
+        # Rows have zero size, so there's nothing to write
+        nr_left = 0
 
     # We need to use the low level interface here because the h5py high
     # level interface omits zero sized writes, which causes a hang in
-- 
2.43.0


From d1967eee91893be73ac542b025ec28fcd699f575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:38 +0000
Subject: [PATCH 04/31] fix: dataset attributes in binary files ignored the
 byte order set before they were added

---
 python/virgo/util/read_binary.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index fe954dd..a9defee 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -176,6 +176,7 @@ class BinaryGroup(Mapping):
                     raise KeyError("Duplicate attribute name!")
                 new_block = BinaryDataset(fname, dtype, offset, shape, tail)
                 self.datasets[head].attrs._items[tail] = new_block
+                new_block.endian = endian
             else:
                 # We're adding something to a sub-group, so ensure sub-group exists
                 if head not in self.groups:
-- 
2.43.0


From d49d8a62616140c06a9c623cf377bd59039d25d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:38 +0000
Subject: [PATCH 05/31] fix: binary dataset size and following offsets became
 floats when the shape was given as uint64

---
 python/virgo/util/read_binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index a9defee..5b17df8 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -289,7 +289,7 @@ class BinaryDataset:
         self.size  = 1
         self.endian = "="
         self.attrs  = BinaryAttrs()
-        for s in shape:
+        for s in self.shape:
             self.size *= s
         self.nbytes = self.dtype.itemsize * self.size
 
-- 
2.43.0


From 5604c5f805dd735384924b32a7683f00323be696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:38 +0000
Subject: [PATCH 06/31] fix: toggle_byteswap did not affect existing blocks
 once the byte order was set

---
 python/virgo/util/read_binary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index 5b17df8..8f2d090 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -494,9 +494,9 @@ class BinaryFile(BinaryGroup):
     def toggle_byteswap(self):
         """Reverse the current byte swapping setting"""
         if self.endian == "<":
-            self.endian = ">"
+            self.set_endian(">")
         elif self.endian == ">":
-            self.endian = "<"
+            self.set_endian("<")
         elif self.endian == "=":
             self.enable_byteswap(True)
 
-- 
2.43.0


From 7634c916e3569a6f329cbf36cfd039905f6c81a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:38 +0000
Subject: [PATCH 07/31] fix: write_binary default mode was not a valid file
 mode

---
 python/virgo/util/read_binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index 8f2d090..d66c6fd 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -503,7 +503,7 @@ class BinaryFile(BinaryGroup):
     def __repr__(self):
         return ('BinaryFile("%s")' % (self.fname,))
 
-    def write_binary(self, fname, mode="wb-", endian=None):
+    def write_binary(self, fname, mode="xb", endian=None):
         """
         Write all blocks in this file to a new file. Output will be
         in byte order given by endian parameter, or same byte order
-- 
2.43.0


From 8d8a7bae7f136a6b9591c252093be099b17454fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:38 +0000
Subject: [PATCH 08/31] fix: write_hdf5 failed on zero size datasets

---
 python/virgo/util/read_binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index d66c6fd..366acc8 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -220,7 +220,7 @@ class BinaryGroup(Mapping):
             src_dset = self.datasets[dataset_name]
 
             # Determine chunk size for output
-            if gzip > 0:
+            if gzip > 0 and src_dset.size > 0:
                 chunks = tuple([s if s < chunk_size else chunk_size for s in src_dset.shape])
             else:
                 chunks = None
-- 
2.43.0


From 177349539d20a407069d4f87af27e7188e1935b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:22 +0000
Subject: [PATCH 09/31] fix: PartialFormatter replaced unspecified fields with
 a conversion by an object name

---
 python/virgo/util/partial_formatter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/virgo/util/partial_formatter.py b/python/virgo/util/partial_formatter.py
index f09183f..a4a9cd3 100644
--- a/python/virgo/util/partial_formatter.py
+++ b/python/virgo/util/partial_formatter.py
@@ -44,6 +44,12 @@ class PartialFormatter(string.Formatter):
             # Otherwise return the value
             return kwargs[key]
 
+    def convert_field(self, value, conversion):
+        if isinstance(value, FormatKey) and conversion is not None:
+            # Not substituting anything, so keep the conversion (e.g. !r) too
+            return FormatKey(value.key+"!"+conversion)
+        return super().convert_field(value, conversion)
+
     def format_field(self, value, format_spec):
         if isinstance(value, FormatKey):
             # We're not substituting anything in here
-- 
2.43.0


From 7487a94d468e92ef5e6b83925674e7cd2479d8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:07 +0000
Subject: [PATCH 10/31] fix: numpy_type raised NameError because re was not
 imported

---
 python/virgo/database/make_dtrees_table.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/virgo/database/make_dtrees_table.py b/python/virgo/database/make_dtrees_table.py
index 994165b..2cb69d6 100644
--- a/python/virgo/database/make_dtrees_table.py
+++ b/python/virgo/database/make_dtrees_table.py
@@ -3,6 +3,7 @@
 # Module to generate a database table from dhalo trees
 #
 
+import re
 import collections
 import io
 
-- 
2.43.0


From 4b31983deab80af0190bd0d4f0fd9e81dee51f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:02 +0000
Subject: [PATCH 11/31] fix: velociraptor.PropertiesFile used np.int, which
 numpy no longer has

---
 python/virgo/formats/velociraptor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/formats/velociraptor.py b/python/virgo/formats/velociraptor.py
index be3da77..0309ed2 100644
--- a/python/virgo/formats/velociraptor.py
+++ b/python/virgo/formats/velociraptor.py
@@ -22,7 +22,7 @@ class PropertiesFile(BinaryFile):
         self.add_attribute("Header/NProcs",   np.int32)
         self.add_attribute("Header/ng",       np.uint64) # "unsigned long" in code - assuming 64 bit system here
         self.add_attribute("Header/ngtot",    np.uint64)
-        self.add_attribute("Header/hsize",    np.int)
+        self.add_attribute("Header/hsize",    np.int64)
         hsize = self["Header"].attrs["hsize"]
         for i in range(hsize):
             self.add_attribute("Header/entry%03d" % i, np.dtype("S40"))
-- 
2.43.0


From 0c25350162803a9d85bf1dfc59cd76664970fcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:03 +0000
Subject: [PATCH 12/31] fix: subfind_lgadget2.GroupIDsFile looked up a header
 field it doesn't define

---
 python/virgo/formats/subfind_lgadget2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/formats/subfind_lgadget2.py b/python/virgo/formats/subfind_lgadget2.py
index 78a6819..8bc3cb1 100644
--- a/python/virgo/formats/subfind_lgadget2.py
+++ b/python/virgo/formats/subfind_lgadget2.py
@@ -84,7 +84,7 @@ class GroupIDsFile(BinaryFile):
         self.add_dataset("NTask",      np.int32)
         
         # Establish endian-ness by sanity check on number of files
-        nfiles = self["NFiles"][...]
+        nfiles = self["NTask"][...]
         if nfiles < 1 or nfiles > 65535:
             self.enable_byteswap(True)
 
-- 
2.43.0


From ce493c8773384882a6be234b53d77116c557559d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:03 +0000
Subject: [PATCH 13/31] fix: mxxl.SubTabFile passed lgadget3.SubTabFile
 arguments it doesn't have

---
 python/virgo/sims/mxxl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/virgo/sims/mxxl.py b/python/virgo/sims/mxxl.py
index 792cbab..3ef6ad5 100644
--- a/python/virgo/sims/mxxl.py
+++ b/python/virgo/sims/mxxl.py
@@ -35,10 +35,10 @@ class SubTabFile(subfind_lgadget3.SubTabFile):
                  SO_BAR_INFO=False,
                  WRITE_SUB_IN_SNAP_FORMAT=False,
                  id_bytes=8, float_bytes=4):
+        if SO_BAR_INFO or WRITE_SUB_IN_SNAP_FORMAT:
+            raise NotImplementedError("SO_BAR_INFO and WRITE_SUB_IN_SNAP_FORMAT are not supported")
         subfind_lgadget3.SubTabFile.__init__(self, fname,
                                              SO_VEL_DISPERSIONS=SO_VEL_DISPERSIONS,
-                                             SO_BAR_INFO=SO_BAR_INFO,
-                                             WRITE_SUB_IN_SNAP_FORMAT=WRITE_SUB_IN_SNAP_FORMAT,
                                              id_bytes=id_bytes, float_bytes=float_bytes)
 
 
-- 
2.43.0


From b56a1afb3298f647fb5951c12b78e457b5fac5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:35 +0000
Subject: [PATCH 14/31] fix: list of extra datasets for
 GadgetBinarySnapshotFile raised TypeError

---
 python/virgo/formats/gadget_snapshot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/formats/gadget_snapshot.py b/python/virgo/formats/gadget_snapshot.py
index aa29b0d..914715a 100644
--- a/python/virgo/formats/gadget_snapshot.py
+++ b/python/virgo/formats/gadget_snapshot.py
@@ -102,7 +102,7 @@ class GadgetBinarySnapshotFile(BinaryFile):
             )
         # Add any user specified fields
         if extra is not None:
-            all_datasets += extra
+            all_datasets += tuple(extra)
         
         # Determine what datasets are present in this file
         count_records = 0
-- 
2.43.0


From ab5cbb89168bd858f6b0434d5b8d988dada469cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:35 +0000
Subject: [PATCH 15/31] fix: reading an empty file raised ValueError instead of
 IOError

---
 python/virgo/util/read_binary.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index 366acc8..b5879d8 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -73,7 +73,12 @@ class MemoryMappedFile:
         self.closed = False
         self.fname  = fname
         self.file   = open(fname, "rb")
-        self.mmap   = mmap.mmap(self.file.fileno(), 0, access=mmap.ACCESS_READ)
+        try:
+            self.mmap = mmap.mmap(self.file.fileno(), 0, access=mmap.ACCESS_READ)
+        except ValueError:
+            # mmap refuses empty files
+            self.close()
+            raise IOError("Unable to read from empty file: %s" % fname)
     def __del__(self):
         self.close()
     def close(self):
-- 
2.43.0


From 3389617c8effbf4d71fa215718e880025d2adab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:00 +0000
Subject: [PATCH 16/31] fix: lgadget2 SnapshotFile.sanity_check failed for
 every file (integer division)

---
 python/virgo/formats/subfind_lgadget2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/virgo/formats/subfind_lgadget2.py b/python/virgo/formats/subfind_lgadget2.py
index 8bc3cb1..3920804 100644
--- a/python/virgo/formats/subfind_lgadget2.py
+++ b/python/virgo/formats/subfind_lgadget2.py
@@ -349,9 +349,9 @@ class SnapshotFile(BinaryFile):
         # Determine hashbits
         hashbits = 1
         while hashtabsize > 2:
-            hashtabsize /= 2
+            hashtabsize //= 2
             hashbits += 1
-        hashbits /= 3 # bits per dimension
+        hashbits //= 3 # bits per dimension
         del hashtabsize
 
         # Check positions
-- 
2.43.0


From 068c57e32ad4b246f3716af50329c1c5866dd38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:01 +0000
Subject: [PATCH 17/31] fix: sanity checks accepted corrupt offsets and lengths
 whose sum overflows 32 bits

---
 python/virgo/formats/subfind_lgadget2.py | 2 +-
 python/virgo/formats/subfind_lgadget3.py | 6 +++---
 python/virgo/formats/subfind_pgadget3.py | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/python/virgo/formats/subfind_lgadget2.py b/python/virgo/formats/subfind_lgadget2.py
index 3920804..a7832d8 100644
--- a/python/virgo/formats/subfind_lgadget2.py
+++ b/python/virgo/formats/subfind_lgadget2.py
@@ -202,7 +202,7 @@ class SubTabFile(BinaryFile):
         ind = nsubperhalo > 0
         if np.any(firstsubofhalo[ind]<0) or np.any(firstsubofhalo[ind]>=nsubgroups):
             raise SanityCheckFailedException("FirstSubOfHalo out of range")
-        if np.any(suboffset<0) or np.any(suboffset+sublen>nids):
+        if np.any(suboffset<0) or np.any(suboffset.astype(np.int64)+sublen>nids):
             raise SanityCheckFailedException("Subhalo particle index(es) out of range")
 
         # Check subhalo parent group index
diff --git a/python/virgo/formats/subfind_lgadget3.py b/python/virgo/formats/subfind_lgadget3.py
index 38bd9fc..e056227 100644
--- a/python/virgo/formats/subfind_lgadget3.py
+++ b/python/virgo/formats/subfind_lgadget3.py
@@ -118,7 +118,7 @@ class SubTabFile(BinaryFile):
         if totnids < 2**31:
             # Offsets overflow if we have too many particles (e.g. Millennium-2), 
             # so this test is expected to fail in that case
-            if np.any(self["GroupOffset"][...] < 0) or np.any(self["GroupOffset"][...]+self["GroupLen"][...] > totnids):
+            if np.any(self["GroupOffset"][...] < 0) or np.any(self["GroupOffset"][...].astype(np.int64)+self["GroupLen"][...] > totnids):
                 raise SanityCheckFailedException("Found group with offset out of range!")
 
         # Check pointers from groups to subgroups are sane
@@ -127,7 +127,7 @@ class SubTabFile(BinaryFile):
         if np.any(nsubs < 0):
             raise SanityCheckFailedException("Negative number of subgroups in group!")
         ind = nsubs > 0
-        if np.any(firstsub[ind] < 0) or np.any(firstsub[ind]+nsubs[ind] > totnsubgroups):
+        if np.any(firstsub[ind] < 0) or np.any(firstsub[ind].astype(np.int64)+nsubs[ind] > totnsubgroups):
             raise SanityCheckFailedException("Found group with subgroup index out of range!")
 
         # Check some group properties that we expect to be finite and non-negative
@@ -144,7 +144,7 @@ class SubTabFile(BinaryFile):
         if totnids < 2**31:
             # Offsets overflow if we have too many particles (e.g. Millennium-2),
             # so this test is expected to fail in that case
-            if np.any(self["SubOffset"][...] < 0) or np.any(self["SubOffset"][...]+self["SubLen"][...] > totnids):
+            if np.any(self["SubOffset"][...] < 0) or np.any(self["SubOffset"][...].astype(np.int64)+self["SubLen"][...] > totnids):
                 raise SanityCheckFailedException("Found group with offset out of range!")
 
         # Check some subgroup properties that we expect to be finite and (in some cases) non-negative
diff --git a/python/virgo/formats/subfind_pgadget3.py b/python/virgo/formats/subfind_pgadget3.py
index 93734cc..c63b2dd 100644
--- a/python/virgo/formats/subfind_pgadget3.py
+++ b/python/virgo/formats/subfind_pgadget3.py
@@ -255,7 +255,7 @@ class SubTabFile(BinaryFile):
         if totnids < 2**31:
             # Offsets overflow if we have too many particles (e.g. Millennium-2), 
             # so this test is expected to fail in that case
-            if np.any(self["GroupOffset"][...] < 0) or np.any(self["GroupOffset"][...]+self["GroupLen"][...] > totnids):
+            if np.any(self["GroupOffset"][...] < 0) or np.any(self["GroupOffset"][...].astype(np.int64)+self["GroupLen"][...] > totnids):
                 raise SanityCheckFailedException("Found group with offset out of range!")
 
         # Check pointers from groups to subgroups are sane
@@ -264,7 +264,7 @@ class SubTabFile(BinaryFile):
         if np.any(nsubs < 0):
             raise SanityCheckFailedException("Negative number of subgroups in group!")
         ind = nsubs > 0
-        if np.any(firstsub[ind] < 0) or np.any(firstsub[ind]+nsubs[ind] > totnsubgroups):
+        if np.any(firstsub[ind] < 0) or np.any(firstsub[ind].astype(np.int64)+nsubs[ind] > totnsubgroups):
             raise SanityCheckFailedException("Found group with subgroup index out of range!")
 
         # Check some group properties that we expect to be finite and non-negative
@@ -284,7 +284,7 @@ class SubTabFile(BinaryFile):
         if totnids < 2**31:
             # Offsets overflow if we have too many particles (e.g. Millennium-2),
             # so this test is expected to fail in that case
-            if np.any(self["SubOffset"][...] < 0) or np.any(self["SubOffset"][...]+self["SubLen"][...] > totnids):
+            if np.any(self["SubOffset"][...] < 0) or np.any(self["SubOffset"][...].astype(np.int64)+self["SubLen"][...] > totnids):
                 raise SanityCheckFailedException("Found group with offset out of range!")
 
         # Check some subgroup properties that we expect to be finite and (in some cases) non-negative
-- 
2.43.0


From 2a3c64b90baa02f5320bb696d1632e5282465d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:30 +0000
Subject: [PATCH 18/31] fix: rockstar sanity check accepted corrupt particle
 ranges whose end overflows 64 bits

---
 python/virgo/formats/rockstar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/virgo/formats/rockstar.py b/python/virgo/formats/rockstar.py
index 22f752b..cea914c 100644
--- a/python/virgo/formats/rockstar.py
+++ b/python/virgo/formats/rockstar.py
@@ -119,7 +119,8 @@ class HalosFile(BinaryFile):
         halo = self["Halo"][...]
         p_start = halo["p_start"]
         num_p = halo["num_p"]
-        if not np.all(p_start + num_p <= self["IDs"].shape[0]):
+        nids = self["IDs"].shape[0]
+        if np.any(p_start > nids) or np.any(num_p > nids - p_start):
             raise SanityCheckFailedException("Particle index too large")
         if np.any(p_start < 0):
             raise SanityCheckFailedException("Particle index is negative")
-- 
2.43.0


From ce03e054d807e024d3104202cbc3626f2c5f69df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:19 +0000
Subject: [PATCH 19/31] fix: lgadget2 Snapshot.read_region failed for every
 region (float array dimensions)

---
 python/virgo/formats/subfind_lgadget2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/formats/subfind_lgadget2.py b/python/virgo/formats/subfind_lgadget2.py
index a7832d8..648f5eb 100644
--- a/python/virgo/formats/subfind_lgadget2.py
+++ b/python/virgo/formats/subfind_lgadget2.py
@@ -462,7 +462,7 @@ class Snapshot():
 
         # Identify requested hash cells
         cellsize = self.boxsize / self.ncell
-        icoords = np.floor(np.asarray(coords, dtype=float) / cellsize)
+        icoords = np.floor(np.asarray(coords, dtype=float) / cellsize).astype(int)
         idx = np.indices((icoords[1]-icoords[0]+1,
                           icoords[3]-icoords[2]+1,
                           icoords[5]-icoords[4]+1))
-- 
2.43.0


From 99d1f54fdabeb720d59114c495201ade240a4fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:08 +0000
Subject: [PATCH 20/31] fix: Gadget-4 catalogues and snapshots without groups
 or subgroups could not be read

---
 python/virgo/formats/subfind_gadget4.py | 86 +++++++++++++------------
 1 file changed, 44 insertions(+), 42 deletions(-)

diff --git a/python/virgo/formats/subfind_gadget4.py b/python/virgo/formats/subfind_gadget4.py
index 840dc7c..2a5969f 100644
--- a/python/virgo/formats/subfind_gadget4.py
+++ b/python/virgo/formats/subfind_gadget4.py
@@ -21,7 +21,13 @@ class SubTabFile(BinaryFile):
     Class for reading sub_tab files written by Gadget-4
     """
     def add_record(self, name, dtype, shape=()):
-        """Add a Fortran record containing a single dataset to the file"""
+        """
+        Add a Fortran record containing a single dataset to the file.
+        Datasets with no elements have no record in the file.
+        """
+        if 0 in shape:
+            self.add_dataset(name, dtype, shape)
+            return
         self.start_fortran_record()
         self.add_dataset(name, dtype, shape)
         self.end_fortran_record()
@@ -67,44 +73,42 @@ class SubTabFile(BinaryFile):
         # Data blocks for FoF groups
         # These are Fortran records which are only present if ngroups > 0.
         ngroups = self["Ngroups"][...]
-        if ngroups > 0:
-            self.add_record("GroupLen",          np.int32,        (ngroups,))
-            self.add_record("GroupMass",         self.float_type, (ngroups,))
-            self.add_record("GroupPos",          self.float_type, (ngroups,3))
-            self.add_record("GroupVel",          self.float_type, (ngroups,3))
-            self.add_record("GroupLenType",      np.int32,        (ngroups,6))
-            self.add_record("GroupMassType",     self.float_type, (ngroups,6))
-            self.add_record("Halo_M_Mean200",    self.float_type, (ngroups,))
-            self.add_record("Halo_R_Mean200",    self.float_type, (ngroups,))
-            self.add_record("Halo_M_Crit200",    self.float_type, (ngroups,))
-            self.add_record("Halo_R_Crit200",    self.float_type, (ngroups,))
-            self.add_record("Halo_M_TopHat200",  self.float_type, (ngroups,))
-            self.add_record("Halo_R_TopHat200",  self.float_type, (ngroups,))
-            self.add_record("Nsubs",             np.int32,        (ngroups,))
-            self.add_record("FirstSub",          np.int32,        (ngroups,))
-            
+        self.add_record("GroupLen",          np.int32,        (ngroups,))
+        self.add_record("GroupMass",         self.float_type, (ngroups,))
+        self.add_record("GroupPos",          self.float_type, (ngroups,3))
+        self.add_record("GroupVel",          self.float_type, (ngroups,3))
+        self.add_record("GroupLenType",      np.int32,        (ngroups,6))
+        self.add_record("GroupMassType",     self.float_type, (ngroups,6))
+        self.add_record("Halo_M_Mean200",    self.float_type, (ngroups,))
+        self.add_record("Halo_R_Mean200",    self.float_type, (ngroups,))
+        self.add_record("Halo_M_Crit200",    self.float_type, (ngroups,))
+        self.add_record("Halo_R_Crit200",    self.float_type, (ngroups,))
+        self.add_record("Halo_M_TopHat200",  self.float_type, (ngroups,))
+        self.add_record("Halo_R_TopHat200",  self.float_type, (ngroups,))
+        self.add_record("Nsubs",             np.int32,        (ngroups,))
+        self.add_record("FirstSub",          np.int32,        (ngroups,))
+
         # Data blocks for Subfind groups
         # These are Fortran records which are only present if nsubgroups > 0.
         nsubgroups = self["Nsubgroups"][...]
-        if nsubgroups > 0:
-            self.add_record("SubLen",             np.int32,        (nsubgroups,))
-            self.add_record("SubMass",            self.float_type, (nsubgroups,))
-            self.add_record("SubPos",             self.float_type, (nsubgroups,3))
-            self.add_record("SubVel",             self.float_type, (nsubgroups,3))
-            self.add_record("SubLenType",         np.int32,        (nsubgroups,6))
-            self.add_record("SubMassType",        self.float_type, (nsubgroups,6))
-            self.add_record("SubCofM",            self.float_type, (nsubgroups,3))
-            self.add_record("SubSpin",            self.float_type, (nsubgroups,3))
-            self.add_record("SubVelDisp",         self.float_type, (nsubgroups,))
-            self.add_record("SubVmax",            self.float_type, (nsubgroups,))
-            self.add_record("SubRVmax",           self.float_type, (nsubgroups,))
-            self.add_record("SubHalfMassRad",     self.float_type, (nsubgroups,))
-            self.add_record("SubHalfMassRadType", self.float_type, (nsubgroups,6))
-            self.add_record("SubMassInRad",       self.float_type, (nsubgroups,))
-            self.add_record("SubMassInRadType",   self.float_type, (nsubgroups,6))
-            self.add_record("SubMostBoundID",     self.id_type,    (nsubgroups,))
-            self.add_record("SubGrNr",            np.int32,        (nsubgroups,))
-            self.add_record("SubParent",          np.int32,        (nsubgroups,))
+        self.add_record("SubLen",             np.int32,        (nsubgroups,))
+        self.add_record("SubMass",            self.float_type, (nsubgroups,))
+        self.add_record("SubPos",             self.float_type, (nsubgroups,3))
+        self.add_record("SubVel",             self.float_type, (nsubgroups,3))
+        self.add_record("SubLenType",         np.int32,        (nsubgroups,6))
+        self.add_record("SubMassType",        self.float_type, (nsubgroups,6))
+        self.add_record("SubCofM",            self.float_type, (nsubgroups,3))
+        self.add_record("SubSpin",            self.float_type, (nsubgroups,3))
+        self.add_record("SubVelDisp",         self.float_type, (nsubgroups,))
+        self.add_record("SubVmax",            self.float_type, (nsubgroups,))
+        self.add_record("SubRVmax",           self.float_type, (nsubgroups,))
+        self.add_record("SubHalfMassRad",     self.float_type, (nsubgroups,))
+        self.add_record("SubHalfMassRadType", self.float_type, (nsubgroups,6))
+        self.add_record("SubMassInRad",       self.float_type, (nsubgroups,))
+        self.add_record("SubMassInRadType",   self.float_type, (nsubgroups,6))
+        self.add_record("SubMostBoundID",     self.id_type,    (nsubgroups,))
+        self.add_record("SubGrNr",            np.int32,        (nsubgroups,))
+        self.add_record("SubParent",          np.int32,        (nsubgroups,))
 
 
 class GroupCatalogue(Mapping):
@@ -188,12 +192,10 @@ class GroupOrderedSnapshot():
             # Read group lengths etc
             nfof = sub["Ngroups"][...]
             nsub = sub["Nsubgroups"][...]
-            if nfof > 0:
-                self.foflentype.append(sub["GroupLenType"][...])
-                self.nsubs.append(sub["Nsubs"][...])
-                self.firstsub.append(sub["FirstSub"][...])
-            if nsub > 0:
-                self.sublentype.append(sub["SubLenType"][...])
+            self.foflentype.append(sub["GroupLenType"][...])
+            self.nsubs.append(sub["Nsubs"][...])
+            self.firstsub.append(sub["FirstSub"][...])
+            self.sublentype.append(sub["SubLenType"][...])
 
             # Store number of groups in each file
             if ifile == 0:
-- 
2.43.0


From cc9c7e61334848108d482a9ecaf0758cf9bd3380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:08 +0000
Subject: [PATCH 21/31] fix: Gadget-4 GroupOrderedSnapshot dropped particles in
 the first position of the next file

---
 python/virgo/formats/subfind_gadget4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/virgo/formats/subfind_gadget4.py b/python/virgo/formats/subfind_gadget4.py
index 2a5969f..6c3392f 100644
--- a/python/virgo/formats/subfind_gadget4.py
+++ b/python/virgo/formats/subfind_gadget4.py
@@ -276,7 +276,7 @@ class GroupOrderedSnapshot():
                 self.npart_file[ifile,:] = snap["Header"].attrs["NumPart_ThisFile"][:]
 
             # Check if any particles we need are in this file
-            last_in_snap = first_in_snap + self.npart_file[ifile,:]
+            last_in_snap = first_in_snap + self.npart_file[ifile,:] - 1
 
             # Loop over quantities to read
             for dataset in ("Coordinates","Velocities","ParticleIDs"):
-- 
2.43.0


From 4a93d1b18f219615a172be7ee7a557d903817e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:55 +0000
Subject: [PATCH 22/31] fix: reading SWIFT datasets with units containing a
 current failed

---
 python/virgo/formats/swift.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/virgo/formats/swift.py b/python/virgo/formats/swift.py
index 1742c5b..91b2df6 100644
--- a/python/virgo/formats/swift.py
+++ b/python/virgo/formats/swift.py
@@ -133,7 +133,8 @@ def soap_units_from_attributes(attrs, registry):
         cgs_conversion_from_attrs = float(attrs["Conversion factor to physical CGS (including cosmological corrections)"])
     except KeyError:
         cgs_conversion_from_attrs = float(attrs["Conversion factor to CGS (including cosmological corrections)"])
-    cgs_conversion_from_unyt = float((1.0*unit).in_cgs().value)
+    # Here we convert from unyt's SI base value because in_cgs() fails if the units contain a current.
+    cgs_conversion_from_unyt = float(unit.base_value * (100.0**attrs["U_L exponent"][0]) * (1000.0**attrs["U_M exponent"][0]))
     factor = cgs_conversion_from_attrs / cgs_conversion_from_unyt
     if np.isclose(factor, 1.0, atol=0.0, rtol=1.0e-9):
         return unit
-- 
2.43.0


From e3b3d9091105d7d1e67ca14c65c1d0ae0ce4a88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:14 +0000
Subject: [PATCH 23/31] fix: hash_dirs_mpi.py did not compile with Python 3
 (print, iteritems) and would have read forever

---
 consistency_check/hash/hash_dirs_mpi.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/consistency_check/hash/hash_dirs_mpi.py b/consistency_check/hash/hash_dirs_mpi.py
index 79169f9..e521589 100644
--- a/consistency_check/hash/hash_dirs_mpi.py
+++ b/consistency_check/hash/hash_dirs_mpi.py
@@ -84,7 +84,7 @@ class DirectoryList:
         if hashes is not None:
             self.all_hashes.update(hashes)
             if self.con is not None:
-                for name, val in hashes.iteritems():
+                for name, val in hashes.items():
                     # Don't store anything if file could not be read or hash was read from database 
                     if name not in self.cache and val is not None:
                         self.con.execute("insert into hashes values(?,?,?,?)", (self.basedir, name, self.hash_type, val))
@@ -145,7 +145,7 @@ def hash_file(fname, hash_type):
         # Read next block of data
         data = f.read(buffer_size)
         # Update hash
-        if data != "":
+        if data != b"":
             m.update(data)
         else:
             break
@@ -202,11 +202,11 @@ def hash_dir(basedir, dirpath, dirnames, filenames,
                     attr = xattr(full_name)
                     attr["user.checksum."+hash_type] = this_hash
                 if cached:
-                    print "Task %4d : %s %s (Cached)" % (comm_rank, this_hash if this_hash is not None else "UNREADABLE", rel_path)
+                    print("Task %4d : %s %s (Cached)" % (comm_rank, this_hash if this_hash is not None else "UNREADABLE", rel_path))
                 else:
-                    print "Task %4d : %s %s" % (comm_rank, this_hash if this_hash is not None else "UNREADABLE", rel_path)
+                    print("Task %4d : %s %s" % (comm_rank, this_hash if this_hash is not None else "UNREADABLE", rel_path))
         else:
-            print "Task %4d : skipping output file %s" % (comm_rank, rel_path)
+            print("Task %4d : skipping output file %s" % (comm_rank, rel_path))
 
     # Get sorted list of names
     sorted_names = sorted(hashes.keys())
-- 
2.43.0


From 0ec6961583d37ee75a58862313b57c17d066ed83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:14 +0000
Subject: [PATCH 24/31] fix: file presence checks did not compile with Python 3

---
 .../eagle/check_eagle_file_presence.py         | 16 ++++++++--------
 .../p-gadget3/check_pgadget3_file_presence.py  | 18 +++++++++---------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/consistency_check/eagle/check_eagle_file_presence.py b/consistency_check/eagle/check_eagle_file_presence.py
index a34e85c..61f13dc 100644
--- a/consistency_check/eagle/check_eagle_file_presence.py
+++ b/consistency_check/eagle/check_eagle_file_presence.py
@@ -64,13 +64,13 @@ def check_dir(basedir, dirbase, filebase, nfiles_attr, isnap):
                 if os.path.basename(fname) in fnames:
                     files_ok += 1
     if files_ok == nfiles:
-        print "%20s %03d: OK      - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase)
+        print("%20s %03d: OK      - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase))
         return True
     elif nfiles == -1:
-        print "%20s %03d: MISSING - no %s files present!" % (dirbase, isnap, filebase)
+        print("%20s %03d: MISSING - no %s files present!" % (dirbase, isnap, filebase))
         return False
     else:
-        print "%20s %03d: MISSING - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase)
+        print("%20s %03d: MISSING - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase))
         return False
 
 
@@ -130,14 +130,14 @@ def check_eagle_run(basedir, num_snaps, num_snips):
             count_expected[filebase] += 1
 
     # Print summary
-    print
-    print "Summary of missing or incomplete directories:"
-    print
+    print()
+    print("Summary of missing or incomplete directories:")
+    print()
     for outtype in count_expected.keys():
         if count_missing[outtype] > 0:
-            print "%30s - %d of %d directories not complete" % (outtype, 
+            print("%30s - %d of %d directories not complete" % (outtype, 
                                                                 count_missing[outtype],
-                                                                count_expected[outtype])
+                                                                count_expected[outtype]))
 
 if __name__ == "__main__":
 
diff --git a/consistency_check/p-gadget3/check_pgadget3_file_presence.py b/consistency_check/p-gadget3/check_pgadget3_file_presence.py
index 65ddcce..e29f945 100644
--- a/consistency_check/p-gadget3/check_pgadget3_file_presence.py
+++ b/consistency_check/p-gadget3/check_pgadget3_file_presence.py
@@ -48,13 +48,13 @@ def check_dir(basedir, dirbase, filebase, isnap, get_nfiles_func):
                 if os.path.basename(fname) in fnames:
                     files_ok += 1
     if files_ok == nfiles:
-        print "%20s %03d: OK      - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase)
+        print("%20s %03d: OK      - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase))
         return True
     elif nfiles == -1:
-        print "%20s %03d: MISSING - no %s files present!" % (dirbase, isnap, filebase)
+        print("%20s %03d: MISSING - no %s files present!" % (dirbase, isnap, filebase))
         return False
     else:
-        print "%20s %03d: MISSING - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase)
+        print("%20s %03d: MISSING - %d of %d %s files present" % (dirbase, isnap, files_ok, nfiles, filebase))
         return False
 
 
@@ -100,14 +100,14 @@ def check_pgadget3_run(basedir, snapbase, max_num, first_num, step):
    
 
     # Print summary
-    print
-    print "Summary of missing or incomplete directories:"
-    print
+    print()
+    print("Summary of missing or incomplete directories:")
+    print()
     for outtype in count_expected.keys():
         if count_missing[outtype] > 0:
-            print "%30s - %d of %d directories not complete" % (outtype, 
+            print("%30s - %d of %d directories not complete" % (outtype, 
                                                                 count_missing[outtype],
-                                                                count_expected[outtype])
+                                                                count_expected[outtype]))
 
 if __name__ == "__main__":
 
@@ -122,7 +122,7 @@ if __name__ == "__main__":
         first_num = 0
         step      = 1
     else:
-        print "Incorrect number of arguments!"
+        print("Incorrect number of arguments!")
         sys.exit(1)
 
     check_pgadget3_run(basedir, snapbase, max_num, first_num, step)
-- 
2.43.0


From 296b615681d5f4b9486fd15dcc88e0e5f36085a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:49 +0000
Subject: [PATCH 25/31] fix: rank 7 integer arrays could not be written by the
 Fortran HDF5 wrapper

---
 fortran/hdf5_wrapper/src/write_dataset_preprocessor.inc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fortran/hdf5_wrapper/src/write_dataset_preprocessor.inc b/fortran/hdf5_wrapper/src/write_dataset_preprocessor.inc
index f5c495b..5e131b3 100644
--- a/fortran/hdf5_wrapper/src/write_dataset_preprocessor.inc
+++ b/fortran/hdf5_wrapper/src/write_dataset_preprocessor.inc
@@ -54,7 +54,7 @@
 #undef SUB_NAME
 
 #define SUB_NAME write_7d_integer4_array
-#define NDIMS 2
+#define NDIMS 7
 #define ARRAY_DIM (:,:,:,:,:,:,:)
 #include "write_dataset.inc"
 #undef ARRAY_DIM
@@ -130,7 +130,7 @@
 #undef SUB_NAME
 
 #define SUB_NAME write_7d_integer8_array
-#define NDIMS 2
+#define NDIMS 7
 #define ARRAY_DIM (:,:,:,:,:,:,:)
 #include "write_dataset.inc"
 #undef ARRAY_DIM
-- 
2.43.0


From dacd35d58bd8c74835f9cc419fc3936d34ba32ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:49 +0000
Subject: [PATCH 26/31] fix: Fortran HDF5 wrapper refused to read or write one
 element of a larger array of the same rank

---
 fortran/hdf5_wrapper/src/read_dataset.inc  | 31 ++++++++++++++--------
 fortran/hdf5_wrapper/src/write_dataset.inc | 13 ++++++---
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/fortran/hdf5_wrapper/src/read_dataset.inc b/fortran/hdf5_wrapper/src/read_dataset.inc
index 8ae55e6..edd32cb 100644
--- a/fortran/hdf5_wrapper/src/read_dataset.inc
+++ b/fortran/hdf5_wrapper/src/read_dataset.inc
@@ -42,6 +42,9 @@
     ! Arrays for select hyperslab
     integer(kind=hsize_t) :: hs_start(7), hs_count(7)
 
+    ! True if the array has the same rank as the dataset and the data fits
+    logical :: same_shape
+
     ! Loop indexes etc
     integer :: i, j
 
@@ -134,10 +137,24 @@
        ! otherwise we want to read the whole dataset
        read_dims(1:file_rank) = file_dims(1:file_rank)
     endif
-    ! Throw away any of these dimensions with size 1
+
+    ! Get the dimensions of the array
+    array_rank          = NDIMS
+#ifndef SCALAR
+    do i = 1, NDIMS, 1
+       array_dims(i) = size(arr,i)
+    end do
+#endif
+    ! If the data fits in an array of the same rank then all dimensions
+    ! correspond, even if only one element is read from some of them
+    same_shape = array_rank.eq.file_rank
+    if(same_shape)same_shape = &
+         all(array_dims(1:file_rank).ge.read_dims(1:file_rank))
+
+    ! Otherwise throw away any of these dimensions with size 1
     eff_read_rank = 0
     do i = 1, file_rank, 1
-       if(read_dims(i).gt.1)then
+       if(read_dims(i).gt.1.or.same_shape)then
           eff_read_rank = eff_read_rank + 1
           eff_read_dims(eff_read_rank) = read_dims(i)
           ! For each effective dimension this gives the index of the 'real'
@@ -147,17 +164,9 @@
     end do
 
     ! Repeat this for the array dimensions
-    array_rank          = NDIMS
-
-#ifndef SCALAR
-    do i = 1, NDIMS, 1
-       array_dims(i) = size(arr,i)
-    end do
-#endif
-
     eff_array_rank = 0
     do i = 1, array_rank, 1
-       if(array_dims(i).gt.1)then
+       if(array_dims(i).gt.1.or.same_shape)then
           eff_array_rank = eff_array_rank + 1
           eff_array_dims(eff_array_rank) = array_dims(i)
           ! For each effective dimension this gives the index of the 'real'
diff --git a/fortran/hdf5_wrapper/src/write_dataset.inc b/fortran/hdf5_wrapper/src/write_dataset.inc
index b677eff..5511959 100644
--- a/fortran/hdf5_wrapper/src/write_dataset.inc
+++ b/fortran/hdf5_wrapper/src/write_dataset.inc
@@ -45,6 +45,8 @@ subroutine SUB_NAME (ifile,name,arr,gzip,overwrite,szip,extensible,start,count,
   !
   integer(kind=hsize_t)               :: eff_select_rank, eff_array_rank, pad_dims(7)
   integer(kind=hsize_t)               :: eff_select_dims(7), eff_array_dims(7), eff_select_idx(7)
+  ! True if the array has the same rank as the dataset and contains enough data
+  logical                             :: same_shape
 
   ! Dimensions of the file dataspace
   integer                             :: file_rank
@@ -323,10 +325,15 @@ subroutine SUB_NAME (ifile,name,arr,gzip,overwrite,szip,extensible,start,count,
 
   ! Get the dimensions of the array in memory. These may need some
   ! padding with 1 element dimensions so that the rank is the same
-  ! as the dataset in the file.
+  ! as the dataset in the file. If they already have the same rank and the
+  ! array is large enough then all dimensions correspond.
+  same_shape = array_rank.eq.file_rank
+  if(same_shape)same_shape = &
+       all(array_dims(1:file_rank).ge.select_dims(1:file_rank))
+
   j = 0
   do i = 1, file_rank, 1
-     if(select_dims(i).gt.1)then
+     if(select_dims(i).gt.1.or.same_shape)then
         j = j + 1
         eff_select_dims(j) = select_dims(i)
         eff_select_idx(j) = i
@@ -336,7 +343,7 @@ subroutine SUB_NAME (ifile,name,arr,gzip,overwrite,szip,extensible,start,count,
 
   j = 0
   do i = 1, array_rank, 1
-     if(array_dims(i).gt.1)then
+     if(array_dims(i).gt.1.or.same_shape)then
         j = j + 1
         eff_array_dims(j) = array_dims(i)
      endif
-- 
2.43.0


From 0a81044c5da616f932da6be25179fbee75e87a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:49 +0000
Subject: [PATCH 27/31] fix: Fortran HDF5 wrapper made datasets extensible with
 extensible=.false.

---
 fortran/hdf5_wrapper/src/write_dataset.inc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortran/hdf5_wrapper/src/write_dataset.inc b/fortran/hdf5_wrapper/src/write_dataset.inc
index 5511959..db37d07 100644
--- a/fortran/hdf5_wrapper/src/write_dataset.inc
+++ b/fortran/hdf5_wrapper/src/write_dataset.inc
@@ -79,7 +79,7 @@ subroutine SUB_NAME (ifile,name,arr,gzip,overwrite,szip,extensible,start,count,
   endif
   if(present(szip))szip_on = szip
   extensible_on = .false.
-  if(present(extensible))extensible_on = .true.
+  if(present(extensible))extensible_on = extensible
 
   if(ifile.lt.1.or.ifile.gt.nfilemax)call hdf5_abort( &
        'Invalid file handle in write_data',name=name)
-- 
2.43.0


From 8c71963037abbec2427539962b7f5116c617e0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:49 +0000
Subject: [PATCH 28/31] fix: Fortran HDF5 wrapper returned the old data after a
 dataset was overwritten

---
 fortran/hdf5_wrapper/src/write_dataset.inc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fortran/hdf5_wrapper/src/write_dataset.inc b/fortran/hdf5_wrapper/src/write_dataset.inc
index db37d07..0a13884 100644
--- a/fortran/hdf5_wrapper/src/write_dataset.inc
+++ b/fortran/hdf5_wrapper/src/write_dataset.inc
@@ -129,6 +129,11 @@ subroutine SUB_NAME (ifile,name,arr,gzip,overwrite,szip,extensible,start,count,
         ! If the dataset exists but we have overwrite = .true.,
         ! delete the dataset
         call h5dclose_f(dset_id, hdf_err)
+        ! Reading may have left the old dataset open
+        if(open_dset)then
+           call h5dclose_f(open_dset_id, hdf_err)
+           open_dset = .false.
+        endif
         call h5gunlink_f(file_id(ifile),name,hdf_err)
         dset_opened = .false.
      endif
-- 
2.43.0


From 4a1b255012eb0f3efe24b4da3e11f269e8ec06a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:41 +0000
Subject: [PATCH 29/31] fix: Fortran HDF5 wrapper wrote past the end of an
 array when creating groups more than 10 levels deep

---
 fortran/hdf5_wrapper/src/hdf5_wrapper.F90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90 b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
index 9363edf..660c616 100644
--- a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
+++ b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
@@ -726,10 +726,10 @@ contains
     integer          :: ifile
     character(len=*) :: name
     character, parameter            :: slash='/'
-    integer, parameter              :: MAX_NEST = 10
+    integer, parameter              :: LEN_STR = 256
+    integer, parameter              :: MAX_NEST = LEN_STR
     integer(hid_t)                  :: id_chain(MAX_NEST)
     integer(hid_t)                  :: group_id, loc_id
-    integer, parameter              :: LEN_STR = 256
 
     character(len=LEN_STR)          :: thestring,currentgroup
     integer          :: i,n_nest, starti, endi, hdf_err
-- 
2.43.0


From d6d4bba91f1d1186ebf88d88a704186dad83473c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:32 +0000
Subject: [PATCH 30/31] fix: Fortran HDF5 wrapper could not list attribute
 names with the installed HDF5 (h5aopen_idx_f always fails there)

---
 fortran/hdf5_wrapper/src/hdf5_wrapper.F90 | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90 b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
index 660c616..84c7b80 100644
--- a/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
+++ b/fortran/hdf5_wrapper/src/hdf5_wrapper.F90
@@ -968,7 +968,9 @@ contains
     ! Get the names of the attributes
     if(present(attrib_names))then
        do i = 1, nattribs, 1
-          call h5aopen_idx_f(loc_id, i-1, attr_id, hdf_err)
+          ! (h5aopen_idx_f always fails in some HDF5 1.10 releases)
+          call h5aopen_by_idx_f(loc_id, ".", H5_INDEX_NAME_F, H5_ITER_INC_F, &
+               int(i-1,kind=hsize_t), attr_id, hdf_err)
           if(hdf_err.ne.0) call hdf5_abort( &
                'Unable to open attribute in list_attributes()!', &
                name=name,fname=fname_table(ifile))
-- 
2.43.0


From 44af3f4c9363cd1ec98a292e0adc1f2c3f280035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:40 +0000
Subject: [PATCH 31/31] fix: write_hdf5 dropped the attributes of the file
 itself

---
 python/virgo/util/read_binary.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/virgo/util/read_binary.py b/python/virgo/util/read_binary.py
index b5879d8..6e518d1 100644
--- a/python/virgo/util/read_binary.py
+++ b/python/virgo/util/read_binary.py
@@ -218,6 +218,10 @@ class BinaryGroup(Mapping):
         else:
             created = False
 
+        # Copy attributes of this group
+        for attr_name in self.attrs.keys():
+            h5group.attrs[attr_name] = self.attrs[attr_name]
+
         # Loop over datasets in this group and write them out
         for dataset_name in self.datasets.keys():
 
@@ -249,8 +253,6 @@ class BinaryGroup(Mapping):
         # Loop over groups in this group and create in output file
         for group_name in self.groups.keys():
             new_group = h5group.create_group(group_name)
-            for attr_name in self.groups[group_name].attrs.keys():
-                new_group.attrs[attr_name] = self.groups[group_name].attrs[attr_name]
             # Recursively write sub-groups
             self.groups[group_name].write_hdf5(h5group=new_group, gzip=gzip)
 
-- 
2.43.0

