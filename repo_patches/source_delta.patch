From f97a96d3f34df0abf88e6995246d51becd6fc154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:18 +0000
Subject: [PATCH 01/19] fix: keep the index digest when get_hash is called
 before done

With progress enabled the footer was the hash of no data at all, because
Progress::done asks for the hash (resetting the digest) before the inner
writer writes the footer.
---
 src/v1/threaded_writer.rs | 3 ++-
 src/v1/writer.rs          | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/v1/threaded_writer.rs b/src/v1/threaded_writer.rs
index 61b479e..9e55162 100644
--- a/src/v1/threaded_writer.rs
+++ b/src/v1/threaded_writer.rs
@@ -157,7 +157,8 @@ impl<F: io::Write, H: Hash> Writer for ThreadedWriter<F, H> {
     }
     fn get_hash(&mut self) -> Result<Self::TotalHash, Error> {
         self.wait_queue()?;
-        Ok(self.file.digest.total_hash())
+        // total_hash() resets the digest, and this may be called repeatedly
+        Ok(self.file.digest.clone().total_hash())
     }
     fn done(mut self) -> Result<(), Error>
     {
diff --git a/src/v1/writer.rs b/src/v1/writer.rs
index 484a78d..9682489 100644
--- a/src/v1/writer.rs
+++ b/src/v1/writer.rs
@@ -77,7 +77,8 @@ impl<F: io::Write, H: Hash> Writer for SyncWriter<F, H> {
         Ok(())
     }
     fn get_hash(&mut self) -> Result<H::Output, Error> {
-        Ok(self.file.digest.total_hash())
+        // total_hash() resets the digest, and this may be called repeatedly
+        Ok(self.file.digest.clone().total_hash())
     }
     fn done(mut self) -> Result<(), Error>
     {
-- 
2.43.0


From 96ac71adc3c27513f7df73e5ee702117cf4b71cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:20 +0000
Subject: [PATCH 02/19] fix: report a failure to write the footer as a write
 error

---
 src/v1/threaded_writer.rs | 2 +-
 src/v1/writer.rs          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v1/threaded_writer.rs b/src/v1/threaded_writer.rs
index 9e55162..fbf5e6e 100644
--- a/src/v1/threaded_writer.rs
+++ b/src/v1/threaded_writer.rs
@@ -163,7 +163,7 @@ impl<F: io::Write, H: Hash> Writer for ThreadedWriter<F, H> {
     fn done(mut self) -> Result<(), Error>
     {
         let hash = self.get_hash()?;
-        write!(&mut self.file.file, "{:x}\n", hash).map_err(EFile)
+        write!(&mut self.file.file, "{:x}\n", hash).map_err(EWrite)
     }
 }
 
diff --git a/src/v1/writer.rs b/src/v1/writer.rs
index 9682489..a814b9d 100644
--- a/src/v1/writer.rs
+++ b/src/v1/writer.rs
@@ -83,7 +83,7 @@ impl<F: io::Write, H: Hash> Writer for SyncWriter<F, H> {
     fn done(mut self) -> Result<(), Error>
     {
         let hash = self.get_hash()?;
-        write!(&mut self.file.file, "{:x}\n", hash).map_err(EFile)
+        write!(&mut self.file.file, "{:x}\n", hash).map_err(EWrite)
     }
 }
 
-- 
2.43.0


From 1000471ddbc84be0d4777d5de2c3d76b420583b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:22 +0000
Subject: [PATCH 03/19] fix: write the whole footer line of a blake3 index in
 the emitter

The newline was missing and a short write was taken as success.
---
 src/v1/emitter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v1/emitter.rs b/src/v1/emitter.rs
index a111027..e3561cd 100644
--- a/src/v1/emitter.rs
+++ b/src/v1/emitter.rs
@@ -157,7 +157,7 @@ impl HashTrait for blake3::Hasher {
         self.update(data);
     }
     fn write_hash(&mut self, out: &mut dyn Write) -> io::Result<()> {
-        out.write(self.finalize().to_hex().as_str().as_bytes()).map(|_| ())
+        writeln!(out, "{:x}", Hexlified(self.finalize().as_bytes()))
     }
 }
 
-- 
2.43.0


From 51fd53293fedae9f2daaeb791146ffa911c337ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:24 +0000
Subject: [PATCH 04/19] fix: do not panic on a zero block size or a huge file
 size in an index

---
 src/v1/parser.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index bd330cb..38a2240 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -295,9 +295,11 @@ impl Header {
                 },
                 Some(_) => {
                     match block_size_kv.next() {
-                        Some(v) => u64::from_str_radix(v, 10)
-                            .map_err(|_| ParseRowError::InvalidBlockSize(
-                                v.to_string()))?,
+                        Some(v) => match u64::from_str_radix(v, 10) {
+                            Ok(n) if n > 0 => n,
+                            _ => return Err(ParseRowError::InvalidBlockSize(
+                                v.to_string())),
+                        },
                         None => return Err(ParseRowError::MissingBlockSize),
                     }
                 },
@@ -521,7 +523,8 @@ impl Entry {
             let (file_type, row) = parse_os_str(row)?;
             if file_type == "f" || file_type == "x" {
                 let (file_size, row) = parse_u64(row)?;
-                let hashes_num = ((file_size + block_size - 1) / block_size) as usize;
+                let hashes_num = (file_size / block_size
+                    + (file_size % block_size != 0) as u64) as usize;
                 let (hashes_data, row) = parse_hashes(row, hash_type, hashes_num)?;
                 let hashes = Hashes::new(hashes_data, hash_type, block_size);
                 (Entry::File {
-- 
2.43.0


From 9784cfb9924cd9ad48490685eabb77be73bbd19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:27 +0000
Subject: [PATCH 05/19] fix: do not allocate memory for hashes that are not in
 the row

---
 src/v1/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index 38a2240..eea40c6 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -823,7 +823,9 @@ fn parse_hashes<'a>(data: &'a [u8], hash_type: HashType, hashes_num: usize)
     let hash_len = digest_len * 2;
 
     let mut i = 0;
-    let mut buf = Vec::with_capacity(hashes_num * digest_len);
+    // the number comes from the file, so don't trust it before seeing the data
+    let mut buf = Vec::with_capacity(
+        hashes_num.min(data.len() / hash_len) * digest_len);
     loop {
         if i == hashes_num {
             break;
-- 
2.43.0


From 94c38fe16d5a386eed4cca1c415ba87934295902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:29 +0000
Subject: [PATCH 06/19] fix: refuse file rows that are not a file of the
 current directory

A name with slashes, an absolute name, ".." or a row before the first
directory gave entries outside of the directory and paths on which
comparing entry kinds panics.
---
 src/v1/parser.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index eea40c6..48b4e45 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -518,8 +518,16 @@ impl Entry {
             (Entry::Dir(path), row)
         } else if row.starts_with(b"  ") {
             let row = &row[2..];
-            let (path, row) = parse_path(row)?;
-            let path = current_dir.join(&path);
+            let (name, row) = parse_path(row)?;
+            if !is_file_name(&name) {
+                return Err(ParseRowError::InvalidLine(
+                    format!("Invalid file name: {:?}", name)));
+            }
+            if current_dir.as_os_str().is_empty() {
+                return Err(ParseRowError::InvalidLine(
+                    format!("File is not in a directory: {:?}", name)));
+            }
+            let path = current_dir.join(&name);
             let (file_type, row) = parse_os_str(row)?;
             if file_type == "f" || file_type == "x" {
                 let (file_size, row) = parse_u64(row)?;
@@ -763,6 +771,12 @@ fn parse_path<'a>(data: &'a [u8])
     Ok((unescaped_path, tail))
  }
 
+fn is_file_name(name: &Path) -> bool {
+    let bytes = name.as_os_str().as_bytes();
+    !(bytes.is_empty() || bytes == b"." || bytes == b".."
+        || bytes.contains(&b'/'))
+}
+
 fn parse_path_buf<'a>(data: &'a [u8])
     -> Result<(PathBuf, &'a [u8]), ParseRowError>
 {
-- 
2.43.0


From 3ec6f4af68a818f31b74f8bf0927a816855fbef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:31 +0000
Subject: [PATCH 07/19] fix: get_hash fails when the source returns short reads

---
 src/read.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/read.rs b/src/read.rs
index c993da0..556e0fd 100644
--- a/src/read.rs
+++ b/src/read.rs
@@ -19,7 +19,7 @@ fn hex_to_digit(v: u8) -> Option<u8> {
 pub fn get_hash<F: Read+Seek>(f: &mut F) -> Result<Vec<u8>, io::Error> {
     let einval = io::ErrorKind::InvalidData;
     let mut signature = [0u8; 32];
-    f.read(&mut signature)?;
+    f.read_exact(&mut signature)?;
     if &signature[..16] != b"DIRSIGNATURE.v1 " {
         return Err(einval.into());
     }
@@ -30,9 +30,9 @@ pub fn get_hash<F: Read+Seek>(f: &mut F) -> Result<Vec<u8>, io::Error> {
 
     let nbytes = hash.output_bytes()*2+2;
     f.seek(SeekFrom::End(- (nbytes as i64)))?;
-    let mut buf = [0u8; 100];
-    assert!(buf.len() >= nbytes);
-    if f.read(&mut buf)? != nbytes {
+    let mut buf = Vec::with_capacity(nbytes + 1);
+    f.by_ref().take(nbytes as u64 + 1).read_to_end(&mut buf)?;
+    if buf.len() != nbytes {
         return Err(io::ErrorKind::UnexpectedEof.into());
     }
     if buf[0] != b'\n' || buf[nbytes-1] != b'\n' {
-- 
2.43.0


From b5f009f45c2766c7dca9d54f832f9f3ef87c4ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:34 +0000
Subject: [PATCH 08/19] fix: no hash of an empty block at the end of a file

Hashes::hash_file added the hash of no data for an empty file and for files
whose size is a multiple of the block size, which disagrees with scanning
and can't be read back from an index.
---
 src/v1/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index 48b4e45..6aa5714 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -437,6 +437,9 @@ impl Hashes {
         let mut size = 0;
         loop {
             let (bs, hash) = h.hash_and_size(&mut f, block_size)?;
+            if bs == 0 {
+                break;
+            }
             buf.extend(hash.result());
             size += bs;
             if bs < block_size {
-- 
2.43.0


From e11648c2dc1861ddce83dcb56cf9d9cfc24efec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:36 +0000
Subject: [PATCH 09/19] fix: line numbers in errors and bad rows seen again
 after advance

---
 src/v1/parser.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index 6aa5714..57986b5 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -665,14 +665,18 @@ impl<'a, R: BufRead> EntryIterator<'a, R> {
     }
 
     fn parse_entry(&mut self) -> Result<Option<Entry>, ParseError> {
-        self._parse_entry().map_err(|e| e.into())
+        self._parse_entry().map_err(|e| {
+            // a bad row is reported once and must not be looked at again
+            self.current_row.clear();
+            e.into()
+        })
     }
     fn _parse_entry(&mut self) -> Result<Option<Entry>, ErrorEnum> {
         if self.exhausted {
             return Ok(None);
         }
-        self.current_row_num += 1;
         if self.current_row.is_empty() {
+            self.current_row_num += 1;
             read_line(self.reader.by_ref(), &mut self.current_row)
                 .context(self.current_row_num)?;
         }
-- 
2.43.0


From 2e8451fa2da1ceffb98f0f20591a13a11442ff1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:38 +0000
Subject: [PATCH 10/19] fix: stop iteration after a truncated row or data after
 the footer

Iterating a truncated index never ended, as the same error was returned
forever.
---
 src/v1/parser.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index 57986b5..8f1fe08 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -677,8 +677,10 @@ impl<'a, R: BufRead> EntryIterator<'a, R> {
         }
         if self.current_row.is_empty() {
             self.current_row_num += 1;
-            read_line(self.reader.by_ref(), &mut self.current_row)
-                .context(self.current_row_num)?;
+            let res = read_line(self.reader.by_ref(), &mut self.current_row);
+            // there is nothing to continue with when the rest can't be read
+            self.exhausted = res.is_err();
+            res.context(self.current_row_num)?;
         }
         let row = &self.current_row[..];
         let entry = Entry::parse(
@@ -688,6 +690,7 @@ impl<'a, R: BufRead> EntryIterator<'a, R> {
             None => {
                 let _footer = Footer::parse(row, self.hash_type)
                     .context(self.current_row_num)?;
+                self.exhausted = true;
                 let mut test_buf = [0; 1];
                 if self.reader.read(&mut test_buf)? != 0 {
                     return Err(ErrorEnum::Parse(
@@ -695,7 +698,6 @@ impl<'a, R: BufRead> EntryIterator<'a, R> {
                             format!("Found extra lines after the footer")),
                         self.current_row_num));
                 }
-                self.exhausted = true;
                 Ok(None)
             },
             Some(entry) => {
-- 
2.43.0


From b74fb6769d9fd5b5d3ba687c73117c262cf93a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:40 +0000
Subject: [PATCH 11/19] fix: retry an interrupted read when looking for the end
 of data

---
 src/v1/parser.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index 8f1fe08..6c2e0a6 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -468,8 +468,7 @@ impl Hashes {
                 return Ok(false);
             }
         }
-        let mut test_buf = [0; 1];
-        if f.read(&mut test_buf)? != 0 {
+        if !is_eof(&mut f)? {
             return Ok(false);
         }
         Ok(true)
@@ -691,8 +690,7 @@ impl<'a, R: BufRead> EntryIterator<'a, R> {
                 let _footer = Footer::parse(row, self.hash_type)
                     .context(self.current_row_num)?;
                 self.exhausted = true;
-                let mut test_buf = [0; 1];
-                if self.reader.read(&mut test_buf)? != 0 {
+                if !is_eof(self.reader.by_ref())? {
                     return Err(ErrorEnum::Parse(
                         ParseRowError::InvalidLine(
                             format!("Found extra lines after the footer")),
@@ -769,6 +767,17 @@ fn read_line<R: BufRead>(reader: &mut R, mut buf: &mut Vec<u8>)
     Ok(())
 }
 
+/// Tells whether nothing is left in the reader (may consume a byte)
+fn is_eof<R: io::Read>(reader: &mut R) -> io::Result<bool> {
+    let mut test_buf = [0; 1];
+    loop {
+        match reader.read(&mut test_buf) {
+            Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {}
+            res => return Ok(res? == 0),
+        }
+    }
+}
+
 fn parse_path<'a>(data: &'a [u8])
     -> Result<(Cow<'_, Path>, &'a [u8]), ParseRowError>
 {
-- 
2.43.0


From 3d039c801c955e758e454dca40fedad58d930200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:42 +0000
Subject: [PATCH 12/19] fix: refuse a space at the end of a row

---
 src/v1/parser.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index 6c2e0a6..cb81c1a 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -338,6 +338,10 @@ impl Footer {
         -> Result<Footer, ParseRowError>
     {
         let (data, tail) = parse_hashes(row, hash_type, 1)?;
+        if row.ends_with(b" ") {
+            return Err(ParseRowError::InvalidLine(
+                format!("Row ends with a space")));
+        }
         if !tail.is_empty() {
             return Err(ParseRowError::InvalidLine(
                 format!("Footer is not fully consumed: {:?}",
@@ -553,6 +557,14 @@ impl Entry {
         } else {
             return Ok(None);
         };
+        let empty_link = match entry {
+            Entry::Link(_, ref dest) => dest.as_os_str().is_empty(),
+            _ => false,
+        };
+        if row.ends_with(b" ") && !empty_link {
+            return Err(ParseRowError::InvalidLine(
+                format!("Row ends with a space")));
+        }
         if !tail.is_empty() {
             return Err(ParseRowError::InvalidLine(
                 format!("Entry is not fully consumed: {:?}",
-- 
2.43.0


From fb301718201a07d1881fbd526c5e9255e7547879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:44 +0000
Subject: [PATCH 13/19] fix: refuse a plus sign in the file size and the block
 size

---
 src/v1/parser.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index cb81c1a..e3ca1ab 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -295,7 +295,7 @@ impl Header {
                 },
                 Some(_) => {
                     match block_size_kv.next() {
-                        Some(v) => match u64::from_str_radix(v, 10) {
+                        Some(v) => match parse_decimal(v) {
                             Ok(n) if n > 0 => n,
                             _ => return Err(ParseRowError::InvalidBlockSize(
                                 v.to_string())),
@@ -822,12 +822,17 @@ fn parse_os_str<'a>(data: &'a [u8])
     Ok((OsStr::from_bytes(field), tail))
 }
 
+/// Parses digits only (the standard library allows a plus sign)
+fn parse_decimal(s: &str) -> Result<u64, std::num::ParseIntError> {
+    u64::from_str_radix(if s.starts_with('+') { "+" } else { s }, 10)
+}
+
 fn parse_u64<'a>(data: &'a [u8])
     -> Result<(u64, &'a [u8]), ParseRowError>
 {
     let (field, tail) = parse_field(data)?;
     let s = std::str::from_utf8(field)?;
-    let v = u64::from_str_radix(s, 10)?;
+    let v = parse_decimal(s)?;
     Ok((v, tail))
 }
 
-- 
2.43.0


From e0ea1e8a08b442d5d5c0fbe0295a7f587f7d26d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:46 +0000
Subject: [PATCH 14/19] fix: index tool must fail when flushing the index fails

---
 src/bin/index.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/bin/index.rs b/src/bin/index.rs
index da0f502..048a316 100644
--- a/src/bin/index.rs
+++ b/src/bin/index.rs
@@ -14,7 +14,7 @@ use argparse::{ArgumentParser, List, ParseOption, Store, StoreTrue, StoreFalse};
 #[cfg(feature="threads")]
 use num_cpus::get as get_num_cpus;
 
-use dir_signature::{v1, ScannerConfig, HashType};
+use dir_signature::{v1, Error, ScannerConfig, HashType};
 
 #[cfg(not(feature="threads"))]
 fn get_num_cpus() -> usize {
@@ -107,9 +107,13 @@ pub fn run() -> i32 {
                 return 1;
             }
         };
-        v1::scan(&cfg, &mut io::BufWriter::new(file))
+        let mut out = io::BufWriter::new(file);
+        v1::scan(&cfg, &mut out)
+            .and_then(|()| out.flush().map_err(Error::WriteError))
     } else {
-        v1::scan(&cfg, &mut io::stdout())
+        let mut out = io::stdout();
+        v1::scan(&cfg, &mut out)
+            .and_then(|()| out.flush().map_err(Error::WriteError))
     };
     match res {
         Ok(()) => return 0,
-- 
2.43.0


From 5ae3873aa06a43dd8a724319911221d1d3bd5f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:44 +0000
Subject: [PATCH 15/19] fix: refuse a link row without a destination

---
 src/v1/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index e3ca1ab..3a656e2 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -561,9 +561,9 @@ impl Entry {
             Entry::Link(_, ref dest) => dest.as_os_str().is_empty(),
             _ => false,
         };
-        if row.ends_with(b" ") && !empty_link {
+        if row.ends_with(b" ") != empty_link {
             return Err(ParseRowError::InvalidLine(
-                format!("Row ends with a space")));
+                format!("Row has a missing or an extra field")));
         }
         if !tail.is_empty() {
             return Err(ParseRowError::InvalidLine(
-- 
2.43.0


From 0ab53d592a123c76957c281f3ba991e5038839e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:33 +0000
Subject: [PATCH 16/19] verif: block size setter behind
 cfg(dir_signature_verif)

---
 src/config.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/config.rs b/src/config.rs
index 71f3e30..b3c004d 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -73,6 +73,13 @@ impl ScannerConfig {
                         prefix.as_ref().to_path_buf()));
         self
     }
+    /// Set block size (verification harnesses only)
+    #[allow(unexpected_cfgs)]
+    #[cfg(dir_signature_verif)]
+    pub fn verif_block_size(&mut self, block_size: u64) -> &mut Self {
+        self.block_size = block_size;
+        self
+    }
     /// Enable printing progress to stderr
     pub fn print_progress(&mut self) -> &mut Self {
         self.print_progress = true;
-- 
2.43.0


From e8994c32c063c276f29ee6b8d44e94a793cec86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:02 +0000
Subject: [PATCH 17/19] fix: index tool must not drop the index when stdout is
 not writable

---
 src/bin/index.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/bin/index.rs b/src/bin/index.rs
index 048a316..aa83837 100644
--- a/src/bin/index.rs
+++ b/src/bin/index.rs
@@ -7,6 +7,7 @@ use env_logger;
 use std::io::{self, Write};
 use std::env;
 use std::fs::File;
+use std::os::unix::io::AsFd;
 use std::path::{Path, PathBuf};
 use std::process::exit;
 
@@ -111,7 +112,15 @@ pub fn run() -> i32 {
         v1::scan(&cfg, &mut out)
             .and_then(|()| out.flush().map_err(Error::WriteError))
     } else {
-        let mut out = io::stdout();
+        // `io::Stdout` silently drops everything if the descriptor isn't
+        // writable, so write to the descriptor itself
+        let mut out = match io::stdout().as_fd().try_clone_to_owned() {
+            Ok(fd) => io::BufWriter::new(File::from(fd)),
+            Err(e) => {
+                writeln!(&mut io::stderr(), "Can't write index: {}", e).ok();
+                return 1;
+            }
+        };
         v1::scan(&cfg, &mut out)
             .and_then(|()| out.flush().map_err(Error::WriteError))
     };
-- 
2.43.0


From 1eed2afa90bf049b4199a1f33194016279881a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:45 +0000
Subject: [PATCH 18/19] fix: a threaded scan must not reserve memory in
 proportion to the size a file claims

---
 src/v1/threaded_writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v1/threaded_writer.rs b/src/v1/threaded_writer.rs
index fbf5e6e..ef0008d 100644
--- a/src/v1/threaded_writer.rs
+++ b/src/v1/threaded_writer.rs
@@ -133,7 +133,7 @@ impl<F: io::Write, H: Hash> Writer for ThreadedWriter<F, H> {
             let mut f = dir.open_file(&entry).map_err(EFile)?;
             let meta = f.metadata().map_err(EFile)?;
             let mut n = meta.len();
-            let mut buf = String::with_capacity((33*n/block_size) as usize);
+            let mut buf = String::new();
             while n > 0 {
                 let h = hash.hash_file(&mut f, block_size).map_err(EFile)?;
                 write!(&mut buf, " {:x}", h).unwrap();
-- 
2.43.0


From ee8987e366602851eb8bb4e19ea0163803e55ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:14 +0000
Subject: [PATCH 19/19] fix: queue_size of the scanner config had no effect

---
 src/v1/mod.rs             | 2 +-
 src/v1/threaded_writer.rs | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/v1/mod.rs b/src/v1/mod.rs
index 6392f8a..eb17278 100644
--- a/src/v1/mod.rs
+++ b/src/v1/mod.rs
@@ -66,7 +66,7 @@ fn add_threads<O, H: Hash>(config: &ScannerConfig, hash: H, out: &mut O)
 {
     if config.threads > 1 {
         add_progress(config, threaded_writer::ThreadedWriter::new(
-            config.threads,
+            config.threads, config.queue_size,
             out, hash, config.block_size)?)
     } else {
         add_progress(config, SyncWriter::new(out, hash, config.block_size)?)
diff --git a/src/v1/threaded_writer.rs b/src/v1/threaded_writer.rs
index ef0008d..a838084 100644
--- a/src/v1/threaded_writer.rs
+++ b/src/v1/threaded_writer.rs
@@ -38,7 +38,8 @@ pub struct ThreadedWriter<F, H: Hash> {
 }
 
 impl<F: io::Write, H: Hash> ThreadedWriter<F, H> {
-    pub fn new(threads: usize, mut f: F, hash: H, block_size: u64)
+    pub fn new(threads: usize, queue_size: Option<usize>, mut f: F, hash: H,
+        block_size: u64)
         -> Result<ThreadedWriter<F, H>, Error>
     {
         writeln!(&mut f,
@@ -52,8 +53,8 @@ impl<F: io::Write, H: Hash> ThreadedWriter<F, H> {
             file: HashWriter { file: f, digest: hash.clone() },
             block_size: block_size,
             hash: hash,
-            queue_limit: threads*16,
-            queue: VecDeque::with_capacity(threads*16),
+            queue_limit: queue_size.unwrap_or(threads*16),
+            queue: VecDeque::new(),
             pool: CpuPool::new(threads),
         })
     }
-- 
2.43.0

