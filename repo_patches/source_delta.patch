From 081856e4e68e8720e78fd1ea9938098f76a65989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:34 +0000
Subject: [PATCH 01/24] fix: reject unknown key derivation functions

An archive with an unrecognised KDF was given an empty master key.
Any password then produced the same keys. Return the existing
UnimplementedKdfOptions error instead.
---
 src/crypto.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/crypto.rs b/src/crypto.rs
index 0870566..f8d6452 100644
--- a/src/crypto.rs
+++ b/src/crypto.rs
@@ -107,7 +107,9 @@ impl ComposedKey {
 
                 Ok(MasterKey(transformed))
             }
-            _ => Ok(MasterKey(Vec::new())),
+            _ => Err(KeyGenerationError::UnimplementedKdfOptions(
+                kdf_options.clone(),
+            )),
         }
     }
 }
-- 
2.43.0


From 2989b883671a28d0e6d34c9e1b622d43c979134e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:34 +0000
Subject: [PATCH 02/24] fix: report Argon2 costs that do not fit instead of
 truncating them

Memory and iteration counts above 32 bits were cut off silently, so the
key was derived with a much lower cost than the header states.
---
 src/crypto.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/crypto.rs b/src/crypto.rs
index f8d6452..4fd2d77 100644
--- a/src/crypto.rs
+++ b/src/crypto.rs
@@ -79,8 +79,10 @@ impl ComposedKey {
                     version: argon2::Version::from_u32(*version)
                         .map_err(|e| KeyGenerationError::KeyGeneration(e.to_string()))?,
                     lanes: *lanes,
-                    mem_cost: (memory_bytes / 1024) as u32,
-                    time_cost: *iterations as u32,
+                    mem_cost: u32::try_from(memory_bytes / 1024)
+                        .map_err(|e| KeyGenerationError::KeyGeneration(e.to_string()))?,
+                    time_cost: u32::try_from(*iterations)
+                        .map_err(|e| KeyGenerationError::KeyGeneration(e.to_string()))?,
                     ..Default::default()
                 };
                 let hash = argon2::hash_raw(&self.0, salt, &config)
-- 
2.43.0


From a136fcf589b2f96a713f33111f7d85ceb0bec93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:34 +0000
Subject: [PATCH 03/24] fix: report an AES-KDF salt of the wrong length as an
 error

The salt comes from the file, so unwrapping the key setup let a
corrupt archive panic the caller.
---
 src/crypto.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crypto.rs b/src/crypto.rs
index 4fd2d77..f7fd3c3 100644
--- a/src/crypto.rs
+++ b/src/crypto.rs
@@ -92,7 +92,8 @@ impl ComposedKey {
             }
             binary::KdfParams::Aes { rounds, salt } => {
                 use cipher::KeyInit;
-                let mut cipher = Aes256::new_from_slice(salt).unwrap();
+                let mut cipher = Aes256::new_from_slice(salt)
+                    .map_err(|e| KeyGenerationError::KeyGeneration(e.to_string()))?;
                 let chunked: Vec<GenericArray<u8, _>> = self
                     .0
                     .chunks_exact(16)
-- 
2.43.0


From 26e78553edf6ebecada7922e464ba1d1a0978a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:34 +0000
Subject: [PATCH 04/24] fix: record only bytes actually read when caching the
 header

The caching reader stored the whole caller buffer even after a short
read. The recorded header then differed from the file and opening failed
with a checksum error for sources that return few bytes per call.
---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 9098635..39dfb2c 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -49,7 +49,7 @@ where
 impl<'a, I: io::Read> io::Read for CachingReader<'a, I> {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
         let size = self.inner.read(buf)?;
-        self.data.extend(buf.iter().cloned());
+        self.data.extend(buf[..size].iter().cloned());
         Ok(size)
     }
 }
-- 
2.43.0


From 03056404a694dc3b7b7e67f028518dd5aa359854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:35 +0000
Subject: [PATCH 05/24] fix: never deliver cipher padding as content

The block cipher reader computed what is left from the full block size,
so a small caller buffer received the PKCS7 padding of the last block.
Keep the number of valid bytes next to the buffer.
---
 src/stream/block_cipher.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/stream/block_cipher.rs b/src/stream/block_cipher.rs
index 3fc9e8a..52fd4b0 100644
--- a/src/stream/block_cipher.rs
+++ b/src/stream/block_cipher.rs
@@ -19,6 +19,7 @@ where
     inner: R,
     buffer: GenericArray<u8, C::BlockSize>,
     buf_idx: usize,
+    buf_len: usize,
     cipher: cbc::Decryptor<C>,
     first_read: bool,
     peek_byte: Option<u8>,
@@ -39,6 +40,7 @@ where
             cipher: cbc::Decryptor::new_from_slices(&key.0, iv)?,
             buffer: GenericArray::default(),
             buf_idx: 0,
+            buf_len: 0,
             first_read: true,
             peek_byte: None,
         })
@@ -107,12 +109,11 @@ where
     C: BlockCipher + BlockDecryptMut,
 {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
-        let mut remaining_in_buffer = self.buffer.len() - self.buf_idx;
-
-        if remaining_in_buffer == 0 || self.first_read {
-            remaining_in_buffer = self.buffer_next_block()?;
+        if self.buf_idx == self.buf_len {
+            self.buf_len = 0;
+            self.buf_len = self.buffer_next_block()?;
         }
-        let copy_len = usize::min(remaining_in_buffer, buf.len());
+        let copy_len = usize::min(self.buf_len - self.buf_idx, buf.len());
         for (i, byte) in buf.iter_mut().enumerate().take(copy_len) {
             *byte = self.buffer[self.buf_idx + i];
         }
-- 
2.43.0


From 9fc9fa6268a92c9a94c3837bc64fde2010e86047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:35 +0000
Subject: [PATCH 06/24] fix: save databases larger than one HMAC block

A write that found the block buffer exactly full returned zero bytes
written, which callers treat as a failed write. Emit the full block
first.
---
 src/stream/hmac.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stream/hmac.rs b/src/stream/hmac.rs
index a7ea352..291a365 100644
--- a/src/stream/hmac.rs
+++ b/src/stream/hmac.rs
@@ -121,6 +121,9 @@ where
 
 impl<'a, W: 'a + io::Write> io::Write for HmacWriter<'a, W> {
     fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
+        if self.buffer.len() == HMAC_WRITE_BLOCK_SIZE {
+            self.write_block()?;
+        }
         let space_in_buffer = HMAC_WRITE_BLOCK_SIZE - self.buffer.len();
         let write_size = usize::min(buf.len(), space_in_buffer);
         self.buffer.extend_from_slice(&buf[0..write_size]);
-- 
2.43.0


From 2a39eaeeaaef146b6bd9a94fcbe1d2b2b80ccf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:35 +0000
Subject: [PATCH 07/24] fix: do not end the block stream when flushing an empty
 buffer

Flushing with nothing buffered wrote an empty block, which readers take
as the end of the payload. The inner writer was not flushed either.
---
 src/stream/hmac.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/stream/hmac.rs b/src/stream/hmac.rs
index 291a365..b8c0e9d 100644
--- a/src/stream/hmac.rs
+++ b/src/stream/hmac.rs
@@ -136,7 +136,9 @@ impl<'a, W: 'a + io::Write> io::Write for HmacWriter<'a, W> {
     }
 
     fn flush(&mut self) -> io::Result<()> {
-        self.write_block()?;
-        Ok(())
+        if !self.buffer.is_empty() {
+            self.write_block()?;
+        }
+        self.inner.flush()
     }
 }
-- 
2.43.0


From 5a950cdc1235d5f95d3a9037a80887c2f6b7b193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:07 +0000
Subject: [PATCH 08/24] fix: write the original header of an archive that is
 still locked

The header was serialized again on writing. The order of the key
derivation parameters could change, which invalidated the stored HMAC,
and version 3 headers were written in the version 4 layout. Neither file
could be unlocked. Write the raw header bytes that were read.
---
 src/binary/kdbx.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/binary/kdbx.rs b/src/binary/kdbx.rs
index 6059ae6..3191b38 100644
--- a/src/binary/kdbx.rs
+++ b/src/binary/kdbx.rs
@@ -281,16 +281,9 @@ impl KdbxState for Locked {
     }
 
     fn write<W: Write>(&self, mut output: W) -> Result<(), errors::WriteError> {
-        let mut header_buf = Vec::new();
-        let header_writer = &mut header_buf as &mut dyn Write;
-        header_writer.write_all(&super::KEEPASS_MAGIC_NUMBER.to_le_bytes())?;
-        header_writer.write_all(&super::KDBX_MAGIC_NUMBER.to_le_bytes())?;
-        header_writer.write_all(&self.minor_version.to_le_bytes())?;
-        header_writer.write_all(&self.major_version.to_le_bytes())?;
-        self.header.write(&mut header_buf)?;
-        output.write_all(&header_buf)?;
+        output.write_all(&self.header_data)?;
         if self.major_version >= 4 {
-            output.write_all(&crypto::sha256(&header_buf))?;
+            output.write_all(&crypto::sha256(&self.header_data))?;
             output.write_all(self.hmac.as_ref().unwrap())?;
         }
         output.write_all(&self.encrypted_data)?;
-- 
2.43.0


From f498b5cb3e9e5a55a51394583b43731c149cdbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:08 +0000
Subject: [PATCH 09/24] fix: refuse to save an unlocked version 3 archive

Only the version 4 layout can be written. Saving an archive opened from
a version 3 file produced a version 3 signature followed by version 4
content, which nothing can read.
---
 src/binary/kdbx.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/binary/kdbx.rs b/src/binary/kdbx.rs
index 3191b38..2fc37f7 100644
--- a/src/binary/kdbx.rs
+++ b/src/binary/kdbx.rs
@@ -145,6 +145,12 @@ impl KdbxState for Unlocked {
             .master_key
             .as_ref()
             .ok_or(errors::WriteError::MissingKeys)?;
+        if self.major_version < 4 {
+            return Err(errors::WriteError::Io(std::io::Error::new(
+                std::io::ErrorKind::InvalidInput,
+                "Writing kdbx3 archives is not supported",
+            )));
+        }
         let mut header_buf = Vec::new();
         let header_writer = &mut header_buf as &mut dyn Write;
         header_writer.write_all(&super::KEEPASS_MAGIC_NUMBER.to_le_bytes())?;
-- 
2.43.0


From beaa075340d35b2f6c59b4dc4869ebbdb4041e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:08 +0000
Subject: [PATCH 10/24] fix: read the OTP period from its own parameter

---
 src/database.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/database.rs b/src/database.rs
index 9bc2c4b..acfd3f0 100644
--- a/src/database.rs
+++ b/src/database.rs
@@ -908,7 +908,7 @@ impl<'a> Otp<'a> {
 
     /// Return the period for which passwords are valid
     pub fn period(&self) -> Option<u32> {
-        self.find_url_param("secret").and_then(|p| p.parse().ok())
+        self.find_url_param("period").and_then(|p| p.parse().ok())
     }
 
     /// Return the number of digits in the resulting code
-- 
2.43.0


From cfeefd9ab997e3e04504ac5de67663e0e9eb7987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:08 +0000
Subject: [PATCH 11/24] fix: keep Base32 padding in OTP secrets

Secrets ending in '=' were cut at the first padding character.
---
 src/database.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/database.rs b/src/database.rs
index acfd3f0..ad94884 100644
--- a/src/database.rs
+++ b/src/database.rs
@@ -892,7 +892,7 @@ impl<'a> Otp<'a> {
         let params = params.split('&');
 
         for param in params {
-            let mut param_parts = param.split('=');
+            let mut param_parts = param.splitn(2, '=');
             let pkey = param_parts.next()?;
             if pkey == key {
                 return param_parts.next();
-- 
2.43.0


From 0c09ebe6356e7bfd1d69c89a23fa486e5bc3409a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:09 +0000
Subject: [PATCH 12/24] fix: keep a root group when the document has none

An empty Root element left the database without groups, and accessing
the root group panicked.
---
 src/xml/parse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index b4f9f6c..100f311 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -347,7 +347,10 @@ fn parse_file<R: Read, S: StreamCipher + ?Sized>(
     loop {
         match xml_event_reader.next()? {
             XmlEvent::StartElement { name, .. } if &name.local_name == "Root" => {
-                db.groups = parse_root(xml_event_reader, stream_cipher)?;
+                let groups = parse_root(xml_event_reader, stream_cipher)?;
+                if !groups.is_empty() {
+                    db.groups = groups;
+                }
             }
             XmlEvent::StartElement { name, .. } if &name.local_name == "Meta" => {
                 db.meta = parse_meta(xml_event_reader, stream_cipher)?;
-- 
2.43.0


From d40651ce1795c9c6b60575404f6c2b6c24d101f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:09 +0000
Subject: [PATCH 13/24] fix: stop parsing at the end of the document

A document with another root element never ended the parsing loop.
---
 src/xml/parse.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index 100f311..1b496c5 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -356,6 +356,9 @@ fn parse_file<R: Read, S: StreamCipher + ?Sized>(
                 db.meta = parse_meta(xml_event_reader, stream_cipher)?;
             }
             XmlEvent::EndElement { name, .. } if &name.local_name == "KeePassFile" => break,
+            XmlEvent::EndDocument => {
+                return Err(Error::Xml("No KeePassFile element found".to_string()))
+            }
             _ => {}
         }
     }
-- 
2.43.0


From 2e5ab0073684153805a13dba9e1a469f92218cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:09 +0000
Subject: [PATCH 14/24] fix: treat out of range dates as invalid instead of
 panicking

---
 src/xml/decoders.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xml/decoders.rs b/src/xml/decoders.rs
index 376a303..f125f7c 100644
--- a/src/xml/decoders.rs
+++ b/src/xml/decoders.rs
@@ -22,7 +22,7 @@ pub(crate) fn decode_datetime_b64(b64date: &str) -> Option<NaiveDateTime> {
     let mut bytes = [0u8; 8];
     let copy_size = usize::min(bytes.len(), decoded.len());
     bytes[..copy_size].copy_from_slice(&decoded[..copy_size]);
-    let timestamp = Duration::seconds(i64::from_le_bytes(bytes));
+    let timestamp = Duration::try_seconds(i64::from_le_bytes(bytes))?;
 
     keepass_epoch().checked_add_signed(timestamp)
 }
-- 
2.43.0


From 0773c5ae0e51386e455590c38447f3d36bb36a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:09 +0000
Subject: [PATCH 15/24] fix: a cleared protected field stays protected

Clearing a protected field and setting a new value stored the new value
unprotected.
---
 src/database.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/database.rs b/src/database.rs
index ad94884..091832e 100644
--- a/src/database.rs
+++ b/src/database.rs
@@ -178,7 +178,7 @@ impl Field {
     /// Note: This is instructional for official clients, this library does not
     /// support memory protection
     pub fn protected(&self) -> bool {
-        matches!(self.value, Value::Protected(_))
+        matches!(self.value, Value::Protected(_) | Value::ProtectEmpty)
     }
 
     /// Set whether memory protection and extra encryption should be applied
-- 
2.43.0


From 11e495109e1243bd99f34d44697976449a03210f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:10 +0000
Subject: [PATCH 16/24] fix: keep the protection of a field when changing its
 text

Setting the title, user name or URL of an entry whose field was protected
removed the protection.
---
 src/database.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/database.rs b/src/database.rs
index 091832e..7788981 100644
--- a/src/database.rs
+++ b/src/database.rs
@@ -364,7 +364,7 @@ impl Entry {
     pub fn set_title<S: ToString>(&mut self, title: S) {
         let title = title.to_string();
         match self.find_mut("Title") {
-            Some(f) => f.value = Value::Standard(title),
+            Some(f) => f.set_value(&title),
             None => self.fields.push(Field::new("Title", &title)),
         }
     }
@@ -378,7 +378,7 @@ impl Entry {
     pub fn set_username<S: ToString>(&mut self, username: S) {
         let username = username.to_string();
         match self.find_mut("UserName") {
-            Some(f) => f.value = Value::Standard(username),
+            Some(f) => f.set_value(&username),
             None => self.fields.push(Field::new("UserName", &username)),
         }
     }
@@ -392,7 +392,7 @@ impl Entry {
     pub fn set_url<S: ToString>(&mut self, url: S) {
         let url = url.to_string();
         match self.find_mut("URL") {
-            Some(f) => f.value = Value::Standard(url),
+            Some(f) => f.set_value(&url),
             None => self.fields.push(Field::new("URL", &url)),
         }
     }
-- 
2.43.0


From fa98449019f7efd8d697e8e113e480f605930cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:10 +0000
Subject: [PATCH 17/24] fix: store and restore the protection mark of empty
 values

---
 src/xml/parse.rs     | 2 ++
 src/xml/serialize.rs | 6 +++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index 1b496c5..ad01fd2 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -134,6 +134,8 @@ fn parse_field<R: Read, S: StreamCipher + ?Sized>(
                     } else {
                         Value::Standard(contents)
                     }
+                } else if protected {
+                    Value::ProtectEmpty
                 } else {
                     Value::Empty
                 }
diff --git a/src/xml/serialize.rs b/src/xml/serialize.rs
index f021aa7..53deb17 100644
--- a/src/xml/serialize.rs
+++ b/src/xml/serialize.rs
@@ -58,7 +58,11 @@ fn write_field<W: Write, S: StreamCipher + ?Sized>(
             writer.write(XmlEvent::end_element())?;
         }
         Value::Standard(v) => write_string_tag(writer, "Value", v)?,
-        Value::Empty | Value::ProtectEmpty => {
+        Value::ProtectEmpty => {
+            writer.write(XmlEvent::start_element("Value").attr("Protected", "True"))?;
+            writer.write(XmlEvent::end_element())?;
+        }
+        Value::Empty => {
             writer.write(XmlEvent::start_element("Value"))?;
             writer.write(XmlEvent::end_element())?;
         }
-- 
2.43.0


From f4dc61daeb0aab61e2e1a2af1d7d3f8b3e907653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:10 +0000
Subject: [PATCH 18/24] fix: report header fields that are too short instead of
 panicking

---
 src/binary/header.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/binary/header.rs b/src/binary/header.rs
index 4de6ceb..250758b 100644
--- a/src/binary/header.rs
+++ b/src/binary/header.rs
@@ -274,10 +274,10 @@ impl KdbxHeaderBuilder {
                 .other_headers
                 .iter()
                 .find(|h| h.ty == OuterHeaderId::LegacyTransformRounds)
-                .map(|h| {
+                .and_then(|h| {
                     let mut buf = [0u8; 8];
-                    buf.clone_from_slice(&h.data[0..8]);
-                    u64::from_le_bytes(buf)
+                    buf.clone_from_slice(h.data.get(0..8)?);
+                    Some(u64::from_le_bytes(buf))
                 });
             let seed = self
                 .other_headers
@@ -446,6 +446,9 @@ impl KdbxInnerHeaderBuilder {
         match header.ty {
             InnerHeaderId::InnerRandomStreamCipherId => {
                 let d = header.data;
+                if d.len() < 4 {
+                    return Err(Error::MissingRequiredInnerField(header.ty));
+                }
                 self.inner_stream_cipher =
                     Some(u32::from_le_bytes([d[0], d[1], d[2], d[3]]).into());
             }
@@ -502,7 +505,12 @@ impl KdbxInnerHeader {
             .data
             .clone();
         let mut cipher_id_buf = [0u8; 4];
-        cipher_id_buf.clone_from_slice(&cipher[0..4]);
+        cipher_id_buf.clone_from_slice(cipher.get(0..4).ok_or_else(|| {
+            Error::MalformedField(
+                OuterHeaderId::InnerRandomStreamId,
+                "Wrong size for inner stream ID".into(),
+            )
+        })?);
         let cipher_id = u32::from_le_bytes(cipher_id_buf);
 
         Ok(KdbxInnerHeader {
-- 
2.43.0


From bb4b09e8eb5633d1cdbf109ac42e888f8bff26dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:11 +0000
Subject: [PATCH 19/24] fix: report missing start bytes of a version 3 archive

---
 src/binary/kdbx.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/binary/kdbx.rs b/src/binary/kdbx.rs
index 2fc37f7..0662ec5 100644
--- a/src/binary/kdbx.rs
+++ b/src/binary/kdbx.rs
@@ -342,7 +342,9 @@ impl Kdbx<Locked> {
             self.state.header.cipher,
             &self.state.header.encryption_iv,
             self.state.header.compression_type,
-            self.header().stream_start_bytes.as_ref().unwrap(),
+            self.header().stream_start_bytes.as_ref().ok_or(
+                errors::HeaderError::MissingRequiredField(header::OuterHeaderId::StreamStartBytes),
+            )?,
         )?;
         let inner_header = header::KdbxInnerHeader::from_legacy_fields(&self.state.header)?;
         let mut output_buffer = Vec::new();
-- 
2.43.0


From 36eb03106dc134c7b3f7d66103bfa0bfed150b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:11 +0000
Subject: [PATCH 20/24] fix: report a ChaCha20 IV of the wrong length as an
 error

The IV comes from the header of the file, and unwrapping the cipher
setup panicked on a corrupt one.
---
 src/stream/pipeline.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/stream/pipeline.rs b/src/stream/pipeline.rs
index 0d5981f..cbcea31 100644
--- a/src/stream/pipeline.rs
+++ b/src/stream/pipeline.rs
@@ -51,7 +51,12 @@ pub(crate) fn decryption_stream<'a, R: io::Read + 'a>(
             inner, cipher_key, iv,
         )?),
         binary::Cipher::ChaCha20 => {
-            let cipher = ChaCha20::new_from_slices(&cipher_key.0, iv).unwrap();
+            let cipher = ChaCha20::new_from_slices(&cipher_key.0, iv).map_err(|_| {
+                io::Error::new(
+                    io::ErrorKind::InvalidInput,
+                    "Invalid cipher params - Could not create ChaCha20 stream",
+                )
+            })?;
             Box::new(super::StreamCipherReader::new(inner, cipher))
         }
         _ => {
@@ -243,7 +248,12 @@ pub(crate) fn kdbx4_write_stream<'a, W: 'a + io::Write>(
             block_cipher_write_stream::<Twofish, _>(verified, cipher_key, iv)?
         }
         binary::Cipher::ChaCha20 => {
-            let cipher = ChaCha20::new_from_slices(&cipher_key.0, iv).unwrap();
+            let cipher = ChaCha20::new_from_slices(&cipher_key.0, iv).map_err(|_| {
+                io::Error::new(
+                    io::ErrorKind::InvalidInput,
+                    "Invalid cipher params - Could not create ChaCha20 stream",
+                )
+            })?;
             EncryptWrite::Stream(Box::new(super::StreamCipherWriter::new(verified, cipher)))
         }
         _ => {
-- 
2.43.0


From 689d4feffc8fd8514169de9116dd02f38cef7647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:56 +0000
Subject: [PATCH 21/24] fix: grow header buffers only as data arrives

Length fields of headers and dictionary entries were trusted and
allocated up front. A few bytes could reserve gigabytes, and a negative
length panicked.
---
 src/binary/header.rs       |  3 +--
 src/binary/variant_dict.rs |  8 +++-----
 src/utils.rs               | 11 ++++++++++-
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/binary/header.rs b/src/binary/header.rs
index 250758b..bfc7475 100644
--- a/src/binary/header.rs
+++ b/src/binary/header.rs
@@ -184,8 +184,7 @@ where
             self.reader.read_exact(&mut len_buffer)?;
             u16::from_le_bytes(len_buffer) as u32
         };
-        let mut header_buffer = utils::buffer(len as usize);
-        self.reader.read_exact(&mut header_buffer)?;
+        let header_buffer = utils::read_vec(&mut self.reader, len as usize)?;
 
         Ok(HeaderField {
             ty,
diff --git a/src/binary/variant_dict.rs b/src/binary/variant_dict.rs
index 7e4e078..65490fe 100644
--- a/src/binary/variant_dict.rs
+++ b/src/binary/variant_dict.rs
@@ -1,4 +1,4 @@
-use crate::utils::buffer;
+use crate::utils::read_vec;
 use derive_more::TryInto;
 use std::collections::HashMap;
 use std::io::{self, Read};
@@ -151,14 +151,12 @@ fn parse_variant_dict_entry<T: Read>(ty: u8, input: &mut T) -> Result<(String, V
 
     input.read_exact(&mut length_buffer)?;
     let key_length = i32::from_le_bytes(length_buffer);
-    let mut key_buffer: Vec<u8> = buffer(key_length as usize);
-    input.read_exact(&mut key_buffer)?;
+    let key_buffer: Vec<u8> = read_vec(&mut *input, key_length as usize)?;
     let key = String::from_utf8(key_buffer)?;
 
     input.read_exact(&mut length_buffer)?;
     let value_length = i32::from_le_bytes(length_buffer);
-    let mut value_buffer: Vec<u8> = buffer(value_length as usize);
-    input.read_exact(&mut value_buffer)?;
+    let value_buffer: Vec<u8> = read_vec(&mut *input, value_length as usize)?;
 
     let value = Value::from_bytes(ty, value_buffer)?;
 
diff --git a/src/utils.rs b/src/utils.rs
index 39dfb2c..9d89176 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,7 +1,7 @@
 //! Utilities to help working with kdbx-rs
 
 use std::fmt::Write;
-use std::io;
+use std::io::{self, Read};
 use uuid::Uuid;
 
 use crate::binary::KdfAlgorithm;
@@ -38,6 +38,15 @@ pub(crate) fn buffer(len: usize) -> Vec<u8> {
     v
 }
 
+pub(crate) fn read_vec<R: io::Read>(reader: R, len: usize) -> io::Result<Vec<u8>> {
+    let mut data = Vec::new();
+    reader.take(len as u64).read_to_end(&mut data)?;
+    if data.len() < len {
+        return Err(io::ErrorKind::UnexpectedEof.into());
+    }
+    Ok(data)
+}
+
 pub(crate) struct CachingReader<'a, I>
 where
     I: io::Read,
-- 
2.43.0


From b7b26281ff8bae8dc184c2a8208e122c078a7d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:56 +0000
Subject: [PATCH 22/24] fix: keep payload blocks out of the read buffer until
 verified

A block was read straight into the delivery buffer, so reading again
after a failed check returned its unverified bytes. The block length was
also trusted for the allocation. Read into a separate buffer that grows
with the data and install it after the check.
---
 src/stream/hmac.rs  | 7 ++++---
 src/stream/kdbx3.rs | 9 +++++----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/stream/hmac.rs b/src/stream/hmac.rs
index b8c0e9d..6d1872c 100644
--- a/src/stream/hmac.rs
+++ b/src/stream/hmac.rs
@@ -1,6 +1,7 @@
 pub const HMAC_WRITE_BLOCK_SIZE: usize = 1024 * 1024;
 
 use crate::crypto::HmacKey;
+use crate::utils;
 use std::io::{self, Read, Write};
 
 pub(crate) struct HMacReader<R>
@@ -31,18 +32,18 @@ impl<R: io::Read> HMacReader<R> {
         let mut len_buffer = [0u8; 4];
         self.inner.read_exact(&mut len_buffer)?;
         let len = u32::from_le_bytes(len_buffer) as usize;
-        self.buffer.resize_with(len, Default::default);
-        self.inner.read_exact(&mut self.buffer)?;
+        let block = utils::read_vec(&mut self.inner, len)?;
         if !self
             .hmac_key
             .block_key(self.block_idx)
-            .verify_data_block(&hmac, &self.buffer)
+            .verify_data_block(&hmac, &block)
         {
             return Err(io::Error::new(
                 io::ErrorKind::InvalidData,
                 format!("HMAC validation failed for block {}", self.block_idx),
             ));
         }
+        self.buffer = block;
         self.buf_idx = 0;
         self.block_idx += 1;
         Ok(len)
diff --git a/src/stream/kdbx3.rs b/src/stream/kdbx3.rs
index 3d256cc..47c1efa 100644
--- a/src/stream/kdbx3.rs
+++ b/src/stream/kdbx3.rs
@@ -1,4 +1,5 @@
 use crate::crypto;
+use crate::utils;
 use std::io::{self, Read};
 
 pub struct HashedBlockReader<R>
@@ -30,10 +31,10 @@ where
         let mut len_buf = [0u8; 4];
         self.inner.read_exact(&mut len_buf)?;
         let len = u32::from_le_bytes(len_buf) as usize;
-        self.buffer.resize_with(len, Default::default);
-        self.inner.read_exact(&mut self.buffer)?;
-        self.buf_idx = 0;
-        if crypto::verify_sha256(&self.buffer, &hash_buf) {
+        let block = utils::read_vec(&mut self.inner, len)?;
+        if crypto::verify_sha256(&block, &hash_buf) {
+            self.buffer = block;
+            self.buf_idx = 0;
             Ok(len)
         } else {
             Err(io::Error::new(
-- 
2.43.0


From fd4bc0aec3ea29c48fec21b8df2c4383dc9d10f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:56 +0000
Subject: [PATCH 23/24] fix: change no key material when setting a key fails

---
 src/binary/kdbx.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/binary/kdbx.rs b/src/binary/kdbx.rs
index 0662ec5..98530cf 100644
--- a/src/binary/kdbx.rs
+++ b/src/binary/kdbx.rs
@@ -188,9 +188,9 @@ impl Kdbx<Unlocked> {
         &mut self,
         key: crypto::CompositeKey,
     ) -> Result<(), crate::errors::KeyGenerationError> {
-        self.state.composed_key = Some(key.composed());
-        let composed_key = self.state.composed_key.as_ref().unwrap();
+        let composed_key = key.composed();
         self.state.master_key = Some(composed_key.master_key(&self.header().kdf_params)?);
+        self.state.composed_key = Some(composed_key);
 
         Ok(())
     }
-- 
2.43.0


From 93f7cb8dc86de59e4a7ead7bfda43e7ff07de12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:56 +0000
Subject: [PATCH 24/24] fix: keep leading and trailing whitespace of stored
 text

The parser trimmed all character data, so passwords and notes lost
surrounding whitespace on every load.
---
 src/xml/parse.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index ad01fd2..0da9f0b 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -65,7 +65,7 @@ macro_rules! parse_numeric_type {
     ($name:ident, $ty:ty) => {
         fn $name<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<Option<$ty>> {
             parse_string(xml_event_reader)?
-                .map(|num| num.parse())
+                .map(|num| num.trim().parse())
                 .transpose()
                 .map_err(|_| Error::InvalidNumber)
         }
@@ -76,19 +76,19 @@ parse_numeric_type!(parse_u32, u32);
 
 fn parse_uuid<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<Uuid> {
     parse_string(xml_event_reader)?
-        .and_then(|uuid| decode_uuid(&uuid))
+        .and_then(|uuid| decode_uuid(uuid.trim()))
         .ok_or(Error::InvalidUuid)
 }
 
 fn parse_datetime<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<NaiveDateTime> {
     parse_string(xml_event_reader)?
-        .and_then(|dt| decode_datetime(&dt))
+        .and_then(|dt| decode_datetime(dt.trim()))
         .ok_or(Error::InvalidDatetime)
 }
 
 fn parse_bool<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<bool> {
     Ok(parse_string(xml_event_reader)?
-        .map(|b| b.to_lowercase() == "true")
+        .map(|b| b.trim().to_lowercase() == "true")
         .unwrap_or_default())
 }
 
@@ -115,7 +115,7 @@ fn parse_field<R: Read, S: StreamCipher + ?Sized>(
                     if protected {
                         // Would be nice to avoid the clone but it gets moved into the map_err closure
                         let key_clone = field.key.clone();
-                        match BASE64_STANDARD.decode(&contents) {
+                        match BASE64_STANDARD.decode(contents.trim()) {
                             Ok(mut decoded) => {
                                 stream_cipher
                                     .try_apply_keystream(decoded.as_mut())
@@ -378,7 +378,7 @@ pub fn parse_xml<R: Read, S: StreamCipher + ?Sized>(
     stream_cipher: &mut S,
 ) -> Result<Database> {
     let xml_config = xml::ParserConfig::new()
-        .trim_whitespace(true)
+        .whitespace_to_characters(true)
         .cdata_to_characters(true);
     let mut xml_event_reader = EventReader::new_with_config(xml_data, xml_config);
     parse_file(&mut xml_event_reader, stream_cipher)
-- 
2.43.0

