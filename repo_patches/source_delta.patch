From 068372ee2407f67ed1308d3b4d3d52cee68a66e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:13 +0000
Subject: [PATCH 01/16] fix: recover refuses the rekey log of another database

recover() compared the log header with the key file header only, so a log
whose key file size is zero (left by an interrupted rekey) was applied
without looking at its uid, appnum or key size: the data file was
truncated to a foreign size and the key file deleted.
---
 include/nudb/detail/format.hpp | 26 ++++++++++++++++++++++++++
 include/nudb/impl/recover.ipp  |  8 ++++++++
 2 files changed, 34 insertions(+)

diff --git a/include/nudb/detail/format.hpp b/include/nudb/detail/format.hpp
index 1711f51..e8712db 100644
--- a/include/nudb/detail/format.hpp
+++ b/include/nudb/detail/format.hpp
@@ -583,6 +583,32 @@ verify(dat_file_header const& dh,
     }
 }
 
+// Make sure data file and log file headers match
+template<class Hasher>
+void
+verify(dat_file_header const& dh,
+    log_file_header const& lh, error_code& ec)
+{
+    verify<Hasher>(lh, ec);
+    if(ec)
+        return;
+    if(lh.uid != dh.uid)
+    {
+        ec = error::uid_mismatch;
+        return;
+    }
+    if(lh.appnum != dh.appnum)
+    {
+        ec = error::appnum_mismatch;
+        return;
+    }
+    if(lh.key_size != dh.key_size)
+    {
+        ec = error::key_size_mismatch;
+        return;
+    }
+}
+
 // Make sure key file and log file headers match
 template<class Hasher>
 void
diff --git a/include/nudb/impl/recover.ipp b/include/nudb/impl/recover.ipp
index e449c36..110cba0 100644
--- a/include/nudb/impl/recover.ipp
+++ b/include/nudb/impl/recover.ipp
@@ -104,7 +104,15 @@ recover(
     if(ec)
         return;
     if(lh.key_file_size == 0)
+    {
+        // The log of an unfinished rekey. There is no
+        // key file header to compare against, so make
+        // sure the log belongs to this data file.
+        verify<Hasher>(dh, lh, ec);
+        if(ec)
+            return;
         goto trunc_files;
+    }
     {
         // Read key file header
         key_file_header kh;
-- 
2.43.0


From f100ed9b0f5d62f8d7833ac35fac441903a61e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:58 +0000
Subject: [PATCH 02/16] fix: verify accepts spill records of any valid bucket
 size

After rekey() with another block size the data file still holds spill
records of the old size. verify() rejected such databases: the normal
algorithm compared the spill size with the current bucket size, the fast
one computed a capacity from a bucket size as if it were a block size,
which also rejected every spill of databases with block sizes below 116.
The fast algorithm also counted the bytes of a spill record using a
bucket that may never have been read.
---
 include/nudb/detail/format.hpp | 15 +++++++++++++++
 include/nudb/impl/verify.ipp   | 13 +++++--------
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/nudb/detail/format.hpp b/include/nudb/detail/format.hpp
index e8712db..f524fc0 100644
--- a/include/nudb/detail/format.hpp
+++ b/include/nudb/detail/format.hpp
@@ -194,6 +194,21 @@ bucket_size(nkey_t capacity)
             field<f_hash>::size);       // Hash
 }
 
+// Returns `true` if size is the actual size of some
+// bucket with at least one entry. The spill records in
+// a data file keep their size when a key file with
+// another block size is made, so this does not depend
+// on the block size.
+//
+template<class = void>
+bool
+is_bucket_size(nsize_t size)
+{
+    auto const entry_size = bucket_size(1) - bucket_size(0);
+    return size >= bucket_size(1) &&
+        (size - bucket_size(0)) % entry_size == 0;
+}
+
 // Returns the number of entries that fit in a bucket
 //
 template<class = void>
diff --git a/include/nudb/impl/verify.ipp b/include/nudb/impl/verify.ipp
index b10b3e6..4722aa4 100644
--- a/include/nudb/impl/verify.ipp
+++ b/include/nudb/impl/verify.ipp
@@ -155,14 +155,12 @@ verify_normal(
                 if(ec)
                     return;
                 read<std::uint16_t>(is, size);  // Size
-                if(size != info.bucket_size)
+                if(! is_bucket_size(size))
                 {
                     ec = error::invalid_spill_size;
                     return;
                 }
-                if(ec)
-                    return;
-                b.read(r, ec);                  // Bucket
+                r.prepare(size, ec);            // Bucket
                 if(ec == error::short_read)
                 {
                     ec = error::short_spill;
@@ -174,7 +172,7 @@ verify_normal(
                 info.spill_bytes_tot +=
                     field<uint48_t>::size +     // Zero
                     field<uint16_t>::size +     // Size
-                    b.actual_size();            // Bucket
+                    size;                       // Bucket
             }
             progress(work + offset, nwork);
         }
@@ -469,8 +467,7 @@ verify_fast(
                 if(ec)
                     return;
                 read<std::uint16_t>(is, size);      // Size
-                if(bucket_size(
-                    bucket_capacity(size)) != size)
+                if(! is_bucket_size(size))
                 {
                     ec = error::invalid_spill_size;
                     return;
@@ -489,7 +486,7 @@ verify_fast(
                     info.spill_bytes_tot +=
                         field<uint48_t>::size +     // Zero
                         field<uint16_t>::size +     // Size
-                        tmp.actual_size();          // Bucket
+                        size;                       // Bucket
                 }
             }
             progress(work + offset, nwork);
-- 
2.43.0


From 2e8e5c24f4d4a240c512932bc0290d2861638703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:49 +0000
Subject: [PATCH 03/16] fix: fast verify compares the size in a bucket entry
 with the value

The normal algorithm reports size_mismatch, the fast one accepted any
size, although fetch would then return the wrong number of bytes.
---
 include/nudb/impl/verify.ipp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/nudb/impl/verify.ipp b/include/nudb/impl/verify.ipp
index 4722aa4..82ecfe7 100644
--- a/include/nudb/impl/verify.ipp
+++ b/include/nudb/impl/verify.ipp
@@ -424,7 +424,14 @@ verify_fast(
                         if(item.hash != h)
                             break;
                         if(item.offset == offset)
+                        {
+                            if(item.size != size)
+                            {
+                                ec = error::size_mismatch;
+                                return;
+                            }
                             goto found;
+                        }
                         ++fetches;
                     }
                     auto const spill = b.spill();
-- 
2.43.0


From 7db5b931ea7585f7ba6bfab3d970c8edad8c525e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:49 +0000
Subject: [PATCH 04/16] fix: fast verify checks the key count of a bucket

A count above the bucket's capacity made the search for an entry read
past the end of the buffer.
---
 include/nudb/impl/verify.ipp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/nudb/impl/verify.ipp b/include/nudb/impl/verify.ipp
index 82ecfe7..31b6621 100644
--- a/include/nudb/impl/verify.ipp
+++ b/include/nudb/impl/verify.ipp
@@ -342,6 +342,11 @@ verify_fast(
         {
             bucket b{kh.block_size,
                 buf.get() + i * kh.block_size};
+            if(b.size() > kh.capacity)
+            {
+                ec = error::invalid_bucket_size;
+                return;
+            }
             nkeys[i] = b.size();
             std::size_t nspill = 0;
             auto spill = b.spill();
-- 
2.43.0


From e81fc7308f1a3997a2329d98ce684295e0a39a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:31 +0000
Subject: [PATCH 05/16] fix: damaged record sizes produce an error instead of
 an assertion

verify(), visit() and rekey() asserted that the 48-bit size of a record
fits 32 bits, and silently dropped the upper bits without assertions.
---
 include/nudb/detail/field.hpp | 25 ++++++++++++++++++++++++-
 include/nudb/impl/rekey.ipp   |  4 +++-
 include/nudb/impl/verify.ipp  |  8 ++++++--
 include/nudb/impl/visit.ipp   |  4 +++-
 4 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/include/nudb/detail/field.hpp b/include/nudb/detail/field.hpp
index e3101b1..d3389a8 100644
--- a/include/nudb/detail/field.hpp
+++ b/include/nudb/detail/field.hpp
@@ -8,8 +8,10 @@
 #ifndef NUDB_FIELD_HPP
 #define NUDB_FIELD_HPP
 
+#include <nudb/error.hpp>
 #include <nudb/detail/stream.hpp>
 #include <boost/assert.hpp>
+#include <algorithm>
 #include <cstddef>
 #include <cstdint>
 #include <limits>
@@ -165,13 +167,34 @@ read(istream& is, U& u)
     readp<T>(is.data(field<T>::size), u);
 }
 
+// Read a 48-bit size, sizes are limited to 32 bits.
+// A larger size, which means the file is damaged,
+// becomes the largest size.
+//
 inline
 void
 read_size48(istream& is, std::size_t& u)
 {
     std::uint64_t v;
     read<uint48_t>(is, v);
-    BOOST_ASSERT(v <= std::numeric_limits<std::uint32_t>::max());
+    u = static_cast<std::uint32_t>(std::min<std::uint64_t>(
+        v, std::numeric_limits<std::uint32_t>::max()));
+}
+
+// Read the size of a record in the data file,
+// report an error if it exceeds 32 bits.
+//
+inline
+void
+read_size48(istream& is, std::size_t& u, error_code& ec)
+{
+    std::uint64_t v;
+    read<uint48_t>(is, v);
+    if(v > std::numeric_limits<std::uint32_t>::max())
+    {
+        ec = error::short_value;
+        return;
+    }
     u = static_cast<std::uint32_t>(v);
 }
 
diff --git a/include/nudb/impl/rekey.ipp b/include/nudb/impl/rekey.ipp
index 82cebf5..0a161d3 100644
--- a/include/nudb/impl/rekey.ipp
+++ b/include/nudb/impl/rekey.ipp
@@ -191,7 +191,9 @@ rekey(
             if(ec)
                 return;
             progress((b0 / chunkSize) * dataFileSize + r.offset(), nwork);
-            read_size48(is, size);
+            read_size48(is, size, ec);
+            if(ec)
+                return;
             if(size > 0)
             {
                 // Data Record
diff --git a/include/nudb/impl/verify.ipp b/include/nudb/impl/verify.ipp
index 31b6621..ef3fa75 100644
--- a/include/nudb/impl/verify.ipp
+++ b/include/nudb/impl/verify.ipp
@@ -84,7 +84,9 @@ verify_normal(
             if(ec)
                 return;
             nsize_t size;
-            read_size48(is, size);
+            read_size48(is, size, ec);
+            if(ec)
+                return;
             if(size > 0)
             {
                 // Data Record
@@ -391,7 +393,9 @@ verify_fast(
             if(ec)
                 return;
             nsize_t size;
-            detail::read_size48(is, size);
+            detail::read_size48(is, size, ec);
+            if(ec)
+                return;
             if(size > 0)
             {
                 // Data Record
diff --git a/include/nudb/impl/visit.ipp b/include/nudb/impl/visit.ipp
index 4d57b95..62765f4 100644
--- a/include/nudb/impl/visit.ipp
+++ b/include/nudb/impl/visit.ipp
@@ -61,7 +61,9 @@ visit(
             field<uint48_t>::size, ec); // Size
         if(ec)
             return;
-        detail::read_size48(is, size);
+        detail::read_size48(is, size, ec);
+        if(ec)
+            return;
         if(size > 0)
         {
             // Data Record
-- 
2.43.0


From 20ae565fda8404c0cb7ca83d3d45caef46bb406f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:59 +0000
Subject: [PATCH 06/16] fix: visit reports a data record that ends past the
 file

The result of reading the key and value was not checked, so an exception
was thrown (or an assertion failed) instead of setting the error code.
---
 include/nudb/impl/visit.ipp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nudb/impl/visit.ipp b/include/nudb/impl/visit.ipp
index 62765f4..45fbf32 100644
--- a/include/nudb/impl/visit.ipp
+++ b/include/nudb/impl/visit.ipp
@@ -70,6 +70,8 @@ visit(
             is = r.prepare(
                 dh.key_size +           // Key
                 size, ec);              // Data
+            if(ec)
+                return;
             std::uint8_t const* const key =
                 is.data(dh.key_size);
             callback(key, dh.key_size,
-- 
2.43.0


From d85dc5880bf2a9379bca72cdd77d79650115afb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:09 +0000
Subject: [PATCH 07/16] fix: recover checks the bucket index and key count of a
 log record

---
 include/nudb/detail/bucket.hpp |  5 +++++
 include/nudb/impl/recover.ipp  | 13 +++++++------
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/nudb/detail/bucket.hpp b/include/nudb/detail/bucket.hpp
index 8a8efbf..4f96fcd 100644
--- a/include/nudb/detail/bucket.hpp
+++ b/include/nudb/detail/bucket.hpp
@@ -378,6 +378,11 @@ read(bulk_reader<File>& r, error_code& ec)
         return;
     detail::read<std::uint16_t>(is, size_); // Count
     detail::read<uint48_t>(is, spill_);     // Spill
+    if(size_ > bucket_capacity(block_size_))
+    {
+        ec = error::invalid_bucket_size;
+        return;
+    }
     update();
     // Excludes empty bucket entries
     auto const w = size_ * (
diff --git a/include/nudb/impl/recover.ipp b/include/nudb/impl/recover.ipp
index 110cba0..d2357eb 100644
--- a/include/nudb/impl/recover.ipp
+++ b/include/nudb/impl/recover.ipp
@@ -152,7 +152,11 @@ recover(
                 std::uint64_t v;
                 // VFALCO This should have been a uint32_t
                 read<std::uint64_t>(is, v); // Index
-                BOOST_ASSERT(v <= std::numeric_limits<std::uint32_t>::max());
+                if(v >= kh.buckets)
+                {
+                    ec = error::invalid_log_index;
+                    return;
+                }
                 n = static_cast<nsize_t>(v);
             }
             b.read(r, ec);                  // Bucket
@@ -161,16 +165,13 @@ recover(
                 ec = {};
                 break;
             }
+            if(ec)
+                return;
             if(b.spill() && b.spill() + bucketSize > dataFileSize)
             {
                 ec = error::invalid_log_spill;
                 return;
             }
-            if(n > kh.buckets)
-            {
-                ec = error::invalid_log_index;
-                return;
-            }
             b.write(kf, static_cast<noff_t>(n + 1) * kh.block_size, ec);
             if(ec)
                 return;
-- 
2.43.0


From 46ced3142ad9ebd7ae9704e537bb2331046e640d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:25 +0000
Subject: [PATCH 08/16] fix: rekey syncs its files before erasing the log

---
 include/nudb/impl/rekey.ipp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/nudb/impl/rekey.ipp b/include/nudb/impl/rekey.ipp
index 0a161d3..fb15bff 100644
--- a/include/nudb/impl/rekey.ipp
+++ b/include/nudb/impl/rekey.ipp
@@ -237,6 +237,13 @@ rekey(
             return;
     }
     dw.flush(ec);
+    if(ec)
+        return;
+    // The files must be durable before the log goes away
+    df.sync(ec);
+    if(ec)
+        return;
+    kf.sync(ec);
     if(ec)
         return;
     lf.close();
-- 
2.43.0


From 0a46736423fa3f37beff4b91478cd06168f3c44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:25 +0000
Subject: [PATCH 09/16] fix: create and rekey reject arguments they cannot
 honour

---
 include/nudb/impl/create.ipp | 12 +++++++-----
 include/nudb/impl/rekey.ipp  | 19 +++++++++++++++----
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/include/nudb/impl/create.ipp b/include/nudb/impl/create.ipp
index ee560c6..37dd9e6 100644
--- a/include/nudb/impl/create.ipp
+++ b/include/nudb/impl/create.ipp
@@ -63,7 +63,8 @@ create(
         "File requirements not met");
 
     using namespace detail;
-    if(key_size < 1)
+    if(key_size < 1 ||
+        key_size > field<std::uint16_t>::max)
     {
         ec = error::invalid_key_size;
         return;
@@ -73,7 +74,7 @@ create(
         ec = error::invalid_block_size;
         return;
     }
-    if(load_factor <= 0.f || load_factor >= 1.f)
+    if(! (load_factor > 0.f && load_factor < 1.f))
     {
         ec = error::invalid_load_factor;
         return;
@@ -118,9 +119,10 @@ create(
         kh.salt = salt;
         kh.pepper = pepper<Hasher>(salt);
         kh.block_size = blockSize;
-        kh.load_factor = std::min<std::size_t>(
-            static_cast<std::size_t>(
-                65536.0f * load_factor), 65535);
+        kh.load_factor = std::max<std::size_t>(1,
+            std::min<std::size_t>(
+                static_cast<std::size_t>(
+                    65536.0f * load_factor), 65535));
         write(df, dh, ec);
         if(ec)
             goto fail;
diff --git a/include/nudb/impl/rekey.ipp b/include/nudb/impl/rekey.ipp
index fb15bff..7ad1a1d 100644
--- a/include/nudb/impl/rekey.ipp
+++ b/include/nudb/impl/rekey.ipp
@@ -44,6 +44,17 @@ rekey(
     static_assert(is_Progress<Progress>::value,
         "Progress requirements not met");
     using namespace detail;
+    if(blockSize > field<std::uint16_t>::max ||
+        bucket_capacity(blockSize) < 1)
+    {
+        ec = error::invalid_block_size;
+        return;
+    }
+    if(! (loadFactor > 0.f && loadFactor < 1.f))
+    {
+        ec = error::invalid_load_factor;
+        return;
+    }
     auto const readSize = 1024 * block_size(dat_path);
     auto const writeSize = 16 * block_size(key_path);
 
@@ -81,11 +92,11 @@ rekey(
     kh.salt = make_salt();
     kh.pepper = pepper<Hasher>(kh.salt);
     kh.block_size = blockSize;
-    kh.load_factor = std::min<std::size_t>(
-        static_cast<std::size_t>(65536.0f * loadFactor), 65535);
-    kh.buckets = static_cast<std::size_t>(
+    kh.load_factor = std::max<std::size_t>(1, std::min<std::size_t>(
+        static_cast<std::size_t>(65536.0f * loadFactor), 65535));
+    kh.buckets = std::max<std::size_t>(1, static_cast<std::size_t>(
         std::ceil(itemCount /(
-            bucket_capacity(kh.block_size) * loadFactor)));
+            bucket_capacity(kh.block_size) * loadFactor))));
     kh.modulus = ceil_pow2(kh.buckets);
     // Create key file
     File kf{args...};
-- 
2.43.0


From 27cf1b85158e4651288aaf50e0daf9d1fb188af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:31 +0000
Subject: [PATCH 10/16] fix: an interrupted rollback of a rekey can be repeated

---
 include/nudb/impl/recover.ipp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/nudb/impl/recover.ipp b/include/nudb/impl/recover.ipp
index d2357eb..3814603 100644
--- a/include/nudb/impl/recover.ipp
+++ b/include/nudb/impl/recover.ipp
@@ -77,6 +77,7 @@ recover(
     }
 
     // Open log file
+    bool eraseKeyFile = false;
     File lf{args...};
     lf.open(file_mode::append, log_path, ec);
     if(ec == errc::no_such_file_or_directory)
@@ -195,10 +196,15 @@ trunc_files:
     }
     else
     {
-        kf.close();
-        File::erase(key_path, ec);
+        // Invalidate the key file, but erase it only after
+        // the log, so that an interruption can be recovered.
+        kf.trunc(0, ec);
+        if(ec)
+            return;
+        kf.sync(ec);
         if(ec)
             return;
+        eraseKeyFile = true;
     }
 clear_log:
     lf.trunc(0, ec);
@@ -211,6 +217,13 @@ clear_log:
     File::erase(log_path, ec);
     if(ec)
         return;
+    if(eraseKeyFile)
+    {
+        kf.close();
+        File::erase(key_path, ec);
+        if(ec)
+            return;
+    }
 }
 
 } // nudb
-- 
2.43.0


From e1b5f25aff20b52f73e9c32152783f32ca466e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:59 +0000
Subject: [PATCH 11/16] fix: a cyclic chain of spill records is reported, not
 followed forever

---
 include/nudb/detail/bucket.hpp    | 21 +++++++++++++++++++++
 include/nudb/impl/basic_store.ipp |  6 +++---
 include/nudb/impl/verify.ipp      |  8 ++++----
 3 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/include/nudb/detail/bucket.hpp b/include/nudb/detail/bucket.hpp
index 4f96fcd..bf5c28b 100644
--- a/include/nudb/detail/bucket.hpp
+++ b/include/nudb/detail/bucket.hpp
@@ -153,6 +153,13 @@ public:
     void
     read(File& f, noff_t, error_code& ec);
 
+    // Read a spill record from the
+    // file at the specified offset.
+    //
+    template<class File>
+    void
+    read_spill(File& f, noff_t, error_code& ec);
+
     // Read a compact bucket
     //
     template<class File>
@@ -364,6 +371,20 @@ read(File& f, noff_t offset, error_code& ec)
     }
 }
 
+template<class _>
+template<class File>
+void
+bucket_t<_>::
+read_spill(File& f, noff_t offset, error_code& ec)
+{
+    read(f, offset, ec);
+    if(ec)
+        return;
+    // A spill record only refers to older ones
+    if(spill_ >= offset)
+        ec = error::invalid_spill_size;
+}
+
 template<class _>
 template<class File>
 void
diff --git a/include/nudb/impl/basic_store.ipp b/include/nudb/impl/basic_store.ipp
index 8d61a95..f9e88ac 100644
--- a/include/nudb/impl/basic_store.ipp
+++ b/include/nudb/impl/basic_store.ipp
@@ -400,7 +400,7 @@ fetch(
         buf1.reserve(s_->kh.block_size);
         b = bucket(s_->kh.block_size,
             buf1.get());
-        b.read(s_->df, spill, ec);
+        b.read_spill(s_->df, spill, ec);
         if(ec)
             return;
     }
@@ -446,7 +446,7 @@ exists(
         if(! spill)
             break;
         b = bucket(s_->kh.block_size, pb);
-        b.read(s_->df, spill, ec);
+        b.read_spill(s_->df, spill, ec);
         if(ec)
             return false;
     }
@@ -521,7 +521,7 @@ split(
                 if(ec)
                     return;
             }
-            tmp.read(s_->df, spill, ec);
+            tmp.read_spill(s_->df, spill, ec);
             if(ec)
                 return;
             for(std::size_t i = 0; i < tmp.size(); ++i)
diff --git a/include/nudb/impl/verify.ipp b/include/nudb/impl/verify.ipp
index ef3fa75..251378b 100644
--- a/include/nudb/impl/verify.ipp
+++ b/include/nudb/impl/verify.ipp
@@ -129,7 +129,7 @@ verify_normal(
                         ec = error::orphaned_value;
                         return;
                     }
-                    b.read(df, spill, ec);
+                    b.read_spill(df, spill, ec);
                     if(ec == error::short_read)
                     {
                         ec = error::short_spill;
@@ -232,7 +232,7 @@ verify_normal(
                 }
                 if(! b.spill())
                     break;
-                b.read(df, b.spill(), ec);
+                b.read_spill(df, b.spill(), ec);
                 if(ec)
                     return;
                 spill = true;
@@ -354,7 +354,7 @@ verify_fast(
             auto spill = b.spill();
             while(spill != 0)
             {
-                tmp.read(df, spill, ec);
+                tmp.read_spill(df, spill, ec);
                 if(ec == error::short_read)
                 {
                     ec = error::short_spill;
@@ -450,7 +450,7 @@ verify_fast(
                         return;
                     }
                     b = tmp;
-                    b.read(df, spill, ec);
+                    b.read_spill(df, spill, ec);
                     if(ec == error::short_read)
                     {
                         ec = error::short_spill;
-- 
2.43.0


From 719b3669892b87be294b89f9a0f350635e62d6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:13 +0000
Subject: [PATCH 12/16] fix: posix_file reports posix_fadvise failures

posix_fadvise returns the error number and does not set errno, so create
and open returned a stale error, which could be success, and create left
the new file behind.
---
 include/nudb/impl/posix_file.ipp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/nudb/impl/posix_file.ipp b/include/nudb/impl/posix_file.ipp
index cb33b82..cbc3f56 100644
--- a/include/nudb/impl/posix_file.ipp
+++ b/include/nudb/impl/posix_file.ipp
@@ -64,8 +64,14 @@ create(file_mode mode, path_type const& path, error_code& ec)
     if(fd_ == -1)
         return last_err(ec);
 #ifndef __APPLE__
-    if(::posix_fadvise(fd_, 0, 0, result.second) != 0)
-        return last_err(ec);
+    // returns the error number, errno is not set
+    auto const ev = ::posix_fadvise(fd_, 0, 0, result.second);
+    if(ev != 0)
+    {
+        close();
+        ::unlink(path.c_str());
+        return err(ev, ec);
+    }
 #endif
 }
 
@@ -80,8 +86,13 @@ open(file_mode mode, path_type const& path, error_code& ec)
     if(fd_ == -1)
         return last_err(ec);
 #ifndef __APPLE__
-    if(::posix_fadvise(fd_, 0, 0, result.second) != 0)
-        return last_err(ec);
+    // returns the error number, errno is not set
+    auto const ev = ::posix_fadvise(fd_, 0, 0, result.second);
+    if(ev != 0)
+    {
+        close();
+        return err(ev, ec);
+    }
 #endif
 }
 
-- 
2.43.0


From bea6011ea5c5862178952113860f606fdafef649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:19 +0000
Subject: [PATCH 13/16] fix: xxhash reads unaligned input with the unaligned
 algorithm

The test of the input's alignment was inverted: unaligned input was read
through misaligned pointers, which is undefined behaviour and a fault on
processors that require alignment. The digest is unchanged.
---
 include/nudb/detail/xxhash.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nudb/detail/xxhash.hpp b/include/nudb/detail/xxhash.hpp
index 648b2cf..6c1b612 100644
--- a/include/nudb/detail/xxhash.hpp
+++ b/include/nudb/detail/xxhash.hpp
@@ -316,9 +316,9 @@ XXH64(void const* data, size_t bytes, std::uint64_t seed)
     // Use faster algorithm if aligned
     if((reinterpret_cast<std::uintptr_t>(data) & 7) == 0)
         return XXH64_endian_align(data, bytes, seed,
-            is_little_endian{}, std::false_type{});
+            is_little_endian{}, std::true_type{});
     return XXH64_endian_align(data, bytes, seed,
-        is_little_endian{}, std::true_type{});
+        is_little_endian{}, std::false_type{});
 }
 
 } // detail
-- 
2.43.0


From a1e54e8d3dd687a6784f57bf986cb0a384e2f5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:19 +0000
Subject: [PATCH 14/16] fix: the message of error::success is not that of
 key_not_found

---
 include/nudb/impl/error.ipp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nudb/impl/error.ipp b/include/nudb/impl/error.ipp
index fbb0757..dd8a84c 100644
--- a/include/nudb/impl/error.ipp
+++ b/include/nudb/impl/error.ipp
@@ -27,6 +27,9 @@ nudb_category()
         {
             switch(static_cast<error>(ev))
             {
+            case error::success:
+                return "success";
+
             default:
             case error::key_not_found:
                 return "key not found";
-- 
2.43.0


From 86104309a54905f53dc784f2555c7114e9043f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:35 +0000
Subject: [PATCH 15/16] fix: genlock moves and swap keep the generation

---
 include/nudb/detail/gentex.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/nudb/detail/gentex.hpp b/include/nudb/detail/gentex.hpp
index 9adeeb6..c3a5ea5 100644
--- a/include/nudb/detail/gentex.hpp
+++ b/include/nudb/detail/gentex.hpp
@@ -13,6 +13,7 @@
 #include <cstddef>
 #include <mutex>
 #include <system_error>
+#include <utility>
 
 namespace nudb {
 namespace detail {
@@ -107,7 +108,7 @@ class genlock
 private:
     bool owned_ = false;
     GenerationLockable* g_ = nullptr;
-    std::size_t gen_;
+    std::size_t gen_ = 0;
 
 public:
     using mutex_type = GenerationLockable;
@@ -165,6 +166,7 @@ genlock<G>::
 genlock(genlock&& other)
     : owned_(other.owned_)
     , g_(other.g_)
+    , gen_(other.gen_)
 {
     other.owned_ = false;
     other.g_ = nullptr;
@@ -179,6 +181,7 @@ operator=(genlock&& other)
         unlock();
     owned_ = other.owned_;
     g_ = other.g_;
+    gen_ = other.gen_;
     other.owned_ = false;
     other.g_ = nullptr;
     return *this;
@@ -248,9 +251,10 @@ template<class G>
 void
 swap(genlock<G>& lhs, genlock<G>& rhs) noexcept
 {
-    using namespace std;
+    using std::swap;
     swap(lhs.owned_, rhs.owned_);
     swap(lhs.g_, rhs.g_);
+    swap(lhs.gen_, rhs.gen_);
 }
 
 } // detail
-- 
2.43.0


From d6160fbeef1104518b9da4f805d96b4bea8ed3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:12 +0000
Subject: [PATCH 16/16] fix: verify reported more progress than the total
 amount of work

The total of the slow algorithm is estimated from the load factor and
the number of buckets; with a low load factor the work done can exceed
it. Limit what is reported to the total, as the Progress concept
promises.
---
 include/nudb/impl/verify.ipp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/nudb/impl/verify.ipp b/include/nudb/impl/verify.ipp
index 251378b..13815dc 100644
--- a/include/nudb/impl/verify.ipp
+++ b/include/nudb/impl/verify.ipp
@@ -54,7 +54,8 @@ verify_normal(
     // The number is determined empirically.
     auto const adjust = 1.75;
     
-    // Calculate the work required
+    // Calculate the work required. The number of keys
+    // is an estimate, so the work done can exceed it.
     auto const keys = static_cast<std::uint64_t>(
         double(kh.load_factor) / 65536.0 * kh.buckets * kh.capacity);
     std::uint64_t const nwork = static_cast<std::uint64_t>(
@@ -176,7 +177,8 @@ verify_normal(
                     field<uint16_t>::size +     // Size
                     size;                       // Bucket
             }
-            progress(work + offset, nwork);
+            progress(std::min<std::uint64_t>(
+                work + offset, nwork), nwork);
         }
         work += info.dat_file_size;
     }
@@ -246,7 +248,7 @@ verify_normal(
             if(nspill >= info.hist.size())
                 nspill = info.hist.size() - 1;
             ++info.hist[nspill];
-            progress(work, nwork);
+            progress(std::min(work, nwork), nwork);
         }
     }
     float sum = 0;
-- 
2.43.0

