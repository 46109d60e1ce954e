From 1a996406cc4574cc59bb25638baf83934bb32f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:44 +0000
Subject: [PATCH 01/10] fix: v2 Buffer: hold the lock for the whole of every
 public call

The Next methods read the cursor, transferred and advanced the cursor in
separate steps, bounds were checked and capacities read outside the lock,
bit runs were locked bit by bit, Grow released the lock before updating the
capacities, the getters took no lock at all, and a panic inside a write left
the lock held for ever. Concurrent calls lost, repeated or tore data.
---
 v2/buffer.go | 268 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 180 insertions(+), 88 deletions(-)

diff --git a/v2/buffer.go b/v2/buffer.go
index b248125..31579d6 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -14,6 +14,9 @@ package v2
 import "sync"
 
 // Buffer implements a concurrent-safe buffer type in go that handles multiple types of data
+//
+// every public method holds the embedded mutex while it runs, so that concurrent calls act one after another and none of
+// them may be made by a caller that holds it
 type Buffer struct {
 	buf  []byte
 	off  int64
@@ -74,9 +77,6 @@ func (b *Buffer) readbit(off int64) byte {
 
 	}
 
-	b.Lock()
-	defer b.Unlock()
-
 	return atob((b.buf[off/8] & (1 << uint(7-(off%8)))) != 0)
 
 }
@@ -116,9 +116,6 @@ func (b *Buffer) setbit(off int64, data byte) {
 
 	}
 
-	b.Lock()
-	defer b.Unlock()
-
 	switch data {
 
 	case 0:
@@ -167,9 +164,6 @@ func (b *Buffer) flipbit(off int64) {
 
 	}
 
-	b.Lock()
-	defer b.Unlock()
-
 	b.buf[off/8] ^= (1 << uint(7-(off%8)))
 
 }
@@ -177,9 +171,6 @@ func (b *Buffer) flipbit(off int64) {
 // clearallbits sets all of the buffer's bits to 0
 func (b *Buffer) clearallbits() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	var (
 		i = int64(0)
 		n = int64(len(b.buf))
@@ -200,9 +191,6 @@ func (b *Buffer) clearallbits() {
 // setallbits sets all of the buffer's bits to 1
 func (b *Buffer) setallbits() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	var (
 		i = int64(0)
 		n = int64(len(b.buf))
@@ -223,9 +211,6 @@ func (b *Buffer) setallbits() {
 // flipallbits flips all of the buffer's bits
 func (b *Buffer) flipallbits() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	var (
 		i = int64(0)
 		n = int64(len(b.buf))
@@ -247,9 +232,6 @@ func (b *Buffer) flipallbits() {
 // seekbit seeks to position off of the bitfield relative to the current position or exact
 func (b *Buffer) seekbit(off int64, relative bool) {
 
-	b.Lock()
-	defer b.Unlock()
-
 	if relative {
 
 		b.boff += off
@@ -291,8 +273,6 @@ func (b *Buffer) write(off int64, data []byte) {
 
 	}
 
-	b.Lock()
-
 	var (
 		i = int64(0)
 		n = int64(len(data))
@@ -308,8 +288,6 @@ func (b *Buffer) write(off int64, data []byte) {
 		}
 	}
 
-	b.Unlock()
-
 }
 
 // writeU16LE writes a slice of uint16s to the buffer at the specified offset in little-endian
@@ -327,8 +305,6 @@ func (b *Buffer) writeU16LE(off int64, data []uint16) {
 
 	}
 
-	b.Lock()
-
 	var (
 		i = 0
 		n = len(data)
@@ -346,8 +322,6 @@ func (b *Buffer) writeU16LE(off int64, data []uint16) {
 		}
 	}
 
-	b.Unlock()
-
 }
 
 // writeU16BE writes a slice of uint16s to the buffer at the specified offset in big-endian
@@ -365,8 +339,6 @@ func (b *Buffer) writeU16BE(off int64, data []uint16) {
 
 	}
 
-	b.Lock()
-
 	var (
 		i = 0
 		n = len(data)
@@ -384,8 +356,6 @@ func (b *Buffer) writeU16BE(off int64, data []uint16) {
 		}
 	}
 
-	b.Unlock()
-
 }
 
 // writeU32LE writes a slice of uint32s to the buffer at the specified offset in little-endian
@@ -403,8 +373,6 @@ func (b *Buffer) writeU32LE(off int64, data []uint32) {
 
 	}
 
-	b.Lock()
-
 	var (
 		i = 0
 		n = len(data)
@@ -424,8 +392,6 @@ func (b *Buffer) writeU32LE(off int64, data []uint32) {
 		}
 	}
 
-	b.Unlock()
-
 }
 
 // writeU32BE writes a slice of uint32s to the buffer at the specified offset in big-endian
@@ -443,8 +409,6 @@ func (b *Buffer) writeU32BE(off int64, data []uint32) {
 
 	}
 
-	b.Lock()
-
 	var (
 		i = 0
 		n = len(data)
@@ -464,8 +428,6 @@ func (b *Buffer) writeU32BE(off int64, data []uint32) {
 		}
 	}
 
-	b.Unlock()
-
 }
 
 // writeU64LE writes a slice of uint64s to the buffer at the specified offset in little-endian
@@ -483,8 +445,6 @@ func (b *Buffer) writeU64LE(off int64, data []uint64) {
 
 	}
 
-	b.Lock()
-
 	var (
 		i = 0
 		n = len(data)
@@ -508,8 +468,6 @@ func (b *Buffer) writeU64LE(off int64, data []uint64) {
 		}
 	}
 
-	b.Unlock()
-
 }
 
 // writeU64BE writes a slice of uint64s to the buffer at the specified offset in big-endian
@@ -527,8 +485,6 @@ func (b *Buffer) writeU64BE(off int64, data []uint64) {
 
 	}
 
-	b.Lock()
-
 	var (
 		i = 0
 		n = len(data)
@@ -552,8 +508,6 @@ func (b *Buffer) writeU64BE(off int64, data []uint64) {
 		}
 	}
 
-	b.Unlock()
-
 }
 
 // read reads n bytes from the buffer at the specified offset
@@ -571,9 +525,6 @@ func (b *Buffer) read(off, n int64) []byte {
 
 	}
 
-	b.Lock()
-	defer b.Unlock()
-
 	return b.buf[off : off+n]
 
 }
@@ -595,9 +546,6 @@ func (b *Buffer) readU16LE(off, n int64) (out []uint16) {
 
 	out = make([]uint16, n)
 
-	b.Lock()
-	defer b.Unlock()
-
 	i := int64(0)
 	{
 	read_loop:
@@ -633,9 +581,6 @@ func (b *Buffer) readU16BE(off, n int64) (out []uint16) {
 
 	out = make([]uint16, n)
 
-	b.Lock()
-	defer b.Unlock()
-
 	i := int64(0)
 	{
 	read_loop:
@@ -671,9 +616,6 @@ func (b *Buffer) readU32LE(off, n int64) (out []uint32) {
 
 	out = make([]uint32, n)
 
-	b.Lock()
-	defer b.Unlock()
-
 	i := int64(0)
 	{
 	read_loop:
@@ -711,9 +653,6 @@ func (b *Buffer) readU32BE(off, n int64) (out []uint32) {
 
 	out = make([]uint32, n)
 
-	b.Lock()
-	defer b.Unlock()
-
 	i := int64(0)
 	{
 	read_loop:
@@ -751,9 +690,6 @@ func (b *Buffer) readU64LE(off, n int64) (out []uint64) {
 
 	out = make([]uint64, n)
 
-	b.Lock()
-	defer b.Unlock()
-
 	i := int64(0)
 	{
 	read_loop:
@@ -795,8 +731,6 @@ func (b *Buffer) readU64BE(off, n int64) (out []uint64) {
 
 	out = make([]uint64, n)
 
-	b.Lock()
-	defer b.Unlock()
 	i := int64(0)
 	{
 	read_loop:
@@ -824,9 +758,6 @@ func (b *Buffer) readU64BE(off, n int64) (out []uint64) {
 // seek seeks to position off of the byte buffer relative to the current position or exact
 func (b *Buffer) seek(off int64, relative bool) {
 
-	b.Lock()
-	defer b.Unlock()
-
 	if relative {
 
 		b.off += off
@@ -856,12 +787,8 @@ func (b *Buffer) after(off ...int64) int64 {
 // grow grows the buffer by n bytes
 func (b *Buffer) grow(n int64) {
 
-	b.Lock()
-
 	b.buf = append(b.buf, make([]byte, n)...)
 
-	b.Unlock()
-
 	b.refresh()
 
 }
@@ -869,9 +796,6 @@ func (b *Buffer) grow(n int64) {
 // refresh updates the internal statistics of the byte buffer forcefully
 func (b *Buffer) refresh() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	b.cap = int64(len(b.buf))
 	b.bcap = b.cap * 8
 
@@ -880,9 +804,6 @@ func (b *Buffer) refresh() {
 // alignbit aligns the bit offset to the byte offset
 func (b *Buffer) alignbit() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	b.boff = b.off * 8
 
 }
@@ -890,9 +811,6 @@ func (b *Buffer) alignbit() {
 // alignbyte aligns the byte offset to the bit offset
 func (b *Buffer) alignbyte() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	b.off = b.boff / 8
 
 }
@@ -900,9 +818,6 @@ func (b *Buffer) alignbyte() {
 // reset resets the buffer
 func (b *Buffer) reset() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	b.buf = []byte{}
 	b.off = 0x00
 	b.boff = 0x00
@@ -916,6 +831,9 @@ func (b *Buffer) reset() {
 // Bytes returns the internal byte slice of the buffer
 func (b *Buffer) Bytes() []byte {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.buf
 
 }
@@ -923,6 +841,9 @@ func (b *Buffer) Bytes() []byte {
 // Capacity returns the capacity of the buffer
 func (b *Buffer) Capacity() int64 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.cap
 
 }
@@ -930,6 +851,9 @@ func (b *Buffer) Capacity() int64 {
 // BitCapacity returns the bit capacity of the buffer
 func (b *Buffer) BitCapacity() int64 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.bcap
 
 }
@@ -937,6 +861,9 @@ func (b *Buffer) BitCapacity() int64 {
 // Offset returns the current offset of the buffer
 func (b *Buffer) Offset() int64 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.off
 
 }
@@ -944,6 +871,9 @@ func (b *Buffer) Offset() int64 {
 // BitOffset returns the current bit offset of the buffer
 func (b *Buffer) BitOffset() int64 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.boff
 
 }
@@ -951,6 +881,9 @@ func (b *Buffer) BitOffset() int64 {
 // Refresh updates the cached internal statistics of the buffer forcefully
 func (b *Buffer) Refresh() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.refresh()
 
 }
@@ -958,6 +891,9 @@ func (b *Buffer) Refresh() {
 // Reset resets the entire buffer
 func (b *Buffer) Reset() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.reset()
 
 }
@@ -965,6 +901,9 @@ func (b *Buffer) Reset() {
 // Grow makes the buffer's capacity bigger by n bytes
 func (b *Buffer) Grow(n int64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.grow(n)
 
 }
@@ -972,6 +911,9 @@ func (b *Buffer) Grow(n int64) {
 // Seek seeks to position off of the buffer relative to the current position or exact
 func (b *Buffer) Seek(off int64, relative bool) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.seek(off, relative)
 
 }
@@ -979,6 +921,9 @@ func (b *Buffer) Seek(off int64, relative bool) {
 // SeekBit seeks to bit position off of the the buffer relative to the current position or exact
 func (b *Buffer) SeekBit(off int64, relative bool) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.seekbit(off, relative)
 
 }
@@ -986,6 +931,9 @@ func (b *Buffer) SeekBit(off int64, relative bool) {
 // AlignBit aligns the bit offset to the byte offset
 func (b *Buffer) AlignBit() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.alignbit()
 
 }
@@ -993,6 +941,9 @@ func (b *Buffer) AlignBit() {
 // AlignByte aligns the byte offset to the bit offset
 func (b *Buffer) AlignByte() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.alignbyte()
 
 }
@@ -1000,6 +951,9 @@ func (b *Buffer) AlignByte() {
 // After returns the amount of bytes located after the current position or the specified one
 func (b *Buffer) After(off ...int64) int64 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.after(off...)
 
 }
@@ -1007,6 +961,9 @@ func (b *Buffer) After(off ...int64) int64 {
 // AfterBit returns the amount of bits located after the current bit position or the specified one
 func (b *Buffer) AfterBit(off ...int64) int64 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.afterbit(off...)
 
 }
@@ -1014,6 +971,9 @@ func (b *Buffer) AfterBit(off ...int64) int64 {
 // ReadByte returns the next byte from the specified offset without modifying the internal offset value
 func (b *Buffer) ReadByte(off int64) byte {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.read(off, 1)[0]
 
 }
@@ -1021,6 +981,9 @@ func (b *Buffer) ReadByte(off int64) byte {
 // ReadBytes returns the next n bytes from the specified offset without modifying the internal offset value
 func (b *Buffer) ReadBytes(off, n int64) []byte {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.read(off, n)
 
 }
@@ -1028,6 +991,9 @@ func (b *Buffer) ReadBytes(off, n int64) []byte {
 // ReadU16LE reads a slice of uint16s from the buffer at the specified offset in little-endian without modifying the internal offset value
 func (b *Buffer) ReadU16LE(off, n int64) []uint16 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.readU16LE(off, n)
 
 }
@@ -1035,6 +1001,9 @@ func (b *Buffer) ReadU16LE(off, n int64) []uint16 {
 // ReadU16BE reads a slice of uint16s from the buffer at the specified offset in big-endian without modifying the internal offset value
 func (b *Buffer) ReadU16BE(off, n int64) []uint16 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.readU16BE(off, n)
 
 }
@@ -1042,6 +1011,9 @@ func (b *Buffer) ReadU16BE(off, n int64) []uint16 {
 // ReadU32LE reads a slice of uint32s from the buffer at the specified offset in little-endian without modifying the internal offset value
 func (b *Buffer) ReadU32LE(off, n int64) []uint32 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.readU32LE(off, n)
 
 }
@@ -1049,6 +1021,9 @@ func (b *Buffer) ReadU32LE(off, n int64) []uint32 {
 // ReadU32BE reads a slice of uint32s from the buffer at the specified offset in big-endian without modifying the internal offset value
 func (b *Buffer) ReadU32BE(off, n int64) []uint32 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.readU32BE(off, n)
 
 }
@@ -1056,6 +1031,9 @@ func (b *Buffer) ReadU32BE(off, n int64) []uint32 {
 // ReadU64LE reads a slice of uint64s from the buffer at the specified offset in little-endian without modifying the internal offset value
 func (b *Buffer) ReadU64LE(off, n int64) []uint64 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.readU64LE(off, n)
 
 }
@@ -1063,6 +1041,9 @@ func (b *Buffer) ReadU64LE(off, n int64) []uint64 {
 // ReadU64BE reads a slice of uint64s from the buffer at the specified offset in big-endian without modifying the internal offset value
 func (b *Buffer) ReadU64BE(off, n int64) []uint64 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.readU64BE(off, n)
 
 }
@@ -1070,6 +1051,9 @@ func (b *Buffer) ReadU64BE(off, n int64) []uint64 {
 // ReadByteNext returns the next byte from the current offset and moves the offset forward a byte
 func (b *Buffer) ReadByteNext() (out byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.read(b.off, 1)[0]
 	b.seek(1, true)
 	return
@@ -1079,6 +1063,9 @@ func (b *Buffer) ReadByteNext() (out byte) {
 // ReadBytesNext returns the next n bytes from the current offset and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadBytesNext(n int64) (out []byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.read(b.off, n)
 	b.seek(n, true)
 	return
@@ -1088,6 +1075,9 @@ func (b *Buffer) ReadBytesNext(n int64) (out []byte) {
 // ReadU16LENext reads a slice of uint16s from the buffer at the current offset in little-endian and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadU16LENext(n int64) (out []uint16) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.readU16LE(b.off, n)
 	b.seek(n*2, true)
 	return
@@ -1097,6 +1087,9 @@ func (b *Buffer) ReadU16LENext(n int64) (out []uint16) {
 // ReadU16BENext reads a slice of uint16s from the buffer at the current offset in big-endian and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadU16BENext(n int64) (out []uint16) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.readU16BE(b.off, n)
 	b.seek(n*2, true)
 	return
@@ -1106,6 +1099,9 @@ func (b *Buffer) ReadU16BENext(n int64) (out []uint16) {
 // ReadU32LENext reads a slice of uint32s from the buffer at the current offset in little-endian and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadU32LENext(n int64) (out []uint32) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.readU32LE(b.off, n)
 	b.seek(n*4, true)
 	return
@@ -1115,6 +1111,9 @@ func (b *Buffer) ReadU32LENext(n int64) (out []uint32) {
 // ReadU32BENext reads a slice of uint32s from the buffer at the current offset in big-endian and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadU32BENext(n int64) (out []uint32) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.readU32BE(b.off, n)
 	b.seek(n*4, true)
 	return
@@ -1124,6 +1123,9 @@ func (b *Buffer) ReadU32BENext(n int64) (out []uint32) {
 // ReadU64LENext reads a slice of uint64s from the buffer at the current offset in little-endian and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadU64LENext(n int64) (out []uint64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.readU64LE(b.off, n)
 	b.seek(n*8, true)
 	return
@@ -1133,6 +1135,9 @@ func (b *Buffer) ReadU64LENext(n int64) (out []uint64) {
 // ReadU64BENext reads a slice of uint64s from the buffer at the current offset in big-endian and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadU64BENext(n int64) (out []uint64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.readU64BE(b.off, n)
 	b.seek(n*8, true)
 	return
@@ -1142,6 +1147,9 @@ func (b *Buffer) ReadU64BENext(n int64) (out []uint64) {
 // WriteByte writes a byte to the buffer at the specified offset without modifying the internal offset value
 func (b *Buffer) WriteByte(off int64, data byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.write(off, []byte{data})
 
 }
@@ -1149,6 +1157,9 @@ func (b *Buffer) WriteByte(off int64, data byte) {
 // WriteBytes writes bytes to the buffer at the specified offset without modifying the internal offset value
 func (b *Buffer) WriteBytes(off int64, data []byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.write(off, data)
 
 }
@@ -1156,6 +1167,9 @@ func (b *Buffer) WriteBytes(off int64, data []byte) {
 // WriteU16LE writes a slice of uint16s to the buffer at the specified offset in little-endian without modifying the internal offset value
 func (b *Buffer) WriteU16LE(off int64, data []uint16) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeU16LE(off, data)
 
 }
@@ -1163,6 +1177,9 @@ func (b *Buffer) WriteU16LE(off int64, data []uint16) {
 // WriteU16BE writes a slice of uint16s to the buffer at the specified offset in big-endian without modifying the internal offset value
 func (b *Buffer) WriteU16BE(off int64, data []uint16) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeU16BE(off, data)
 
 }
@@ -1170,6 +1187,9 @@ func (b *Buffer) WriteU16BE(off int64, data []uint16) {
 // WriteU32LE writes a slice of uint32s to the buffer at the specified offset in little-endian without modifying the internal offset value
 func (b *Buffer) WriteU32LE(off int64, data []uint32) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeU32LE(off, data)
 
 }
@@ -1177,6 +1197,9 @@ func (b *Buffer) WriteU32LE(off int64, data []uint32) {
 // WriteU32BE writes a slice of uint32s to the buffer at the specified offset in big-endian without modifying the internal offset value
 func (b *Buffer) WriteU32BE(off int64, data []uint32) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeU32BE(off, data)
 
 }
@@ -1184,6 +1207,9 @@ func (b *Buffer) WriteU32BE(off int64, data []uint32) {
 // WriteU64LE writes a slice of uint64s to the buffer at the specfied offset in little-endian without modifying the internal offset value
 func (b *Buffer) WriteU64LE(off int64, data []uint64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeU64LE(off, data)
 
 }
@@ -1191,6 +1217,9 @@ func (b *Buffer) WriteU64LE(off int64, data []uint64) {
 // WriteU64BE writes a slice of uint64s to the buffer at the specified offset in big-endian without modifying the internal offset value
 func (b *Buffer) WriteU64BE(off int64, data []uint64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeU64BE(off, data)
 
 }
@@ -1198,6 +1227,9 @@ func (b *Buffer) WriteU64BE(off int64, data []uint64) {
 // WriteByteNext writes a byte to the buffer at the current offset and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteByteNext(data byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.write(b.off, []byte{data})
 	b.seek(1, true)
 
@@ -1206,6 +1238,9 @@ func (b *Buffer) WriteByteNext(data byte) {
 // WriteBytesNext writes bytes to the buffer at the current offset and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteBytesNext(data []byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.write(b.off, data)
 	b.seek(int64(len(data)), true)
 
@@ -1214,6 +1249,9 @@ func (b *Buffer) WriteBytesNext(data []byte) {
 // WriteU16LENext writes a slice of uint16s to the buffer at the current offset in little-endian and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteU16LENext(data []uint16) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeU16LE(b.off, data)
 	b.seek(int64(len(data))*2, true)
 
@@ -1222,6 +1260,9 @@ func (b *Buffer) WriteU16LENext(data []uint16) {
 // WriteU16BENext writes a slice of uint16s to the buffer at the current offset in big-endian and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteU16BENext(data []uint16) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeU16BE(b.off, data)
 	b.seek(int64(len(data))*2, true)
 
@@ -1230,6 +1271,9 @@ func (b *Buffer) WriteU16BENext(data []uint16) {
 // WriteU32LENext writes a slice of uint32s to the buffer at the current offset in little-endian and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteU32LENext(data []uint32) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeU32LE(b.off, data)
 	b.seek(int64(len(data))*4, true)
 
@@ -1238,6 +1282,9 @@ func (b *Buffer) WriteU32LENext(data []uint32) {
 // WriteU32BENext writes a slice of uint32s to the buffer at the current offset in big-endian and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteU32BENext(data []uint32) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeU32BE(b.off, data)
 	b.seek(int64(len(data))*4, true)
 
@@ -1246,6 +1293,9 @@ func (b *Buffer) WriteU32BENext(data []uint32) {
 // WriteU64LENext writes a slice of uint64s to the buffer at the current offset in little-endian and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteU64LENext(data []uint64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeU64LE(b.off, data)
 	b.seek(int64(len(data))*8, true)
 
@@ -1254,6 +1304,9 @@ func (b *Buffer) WriteU64LENext(data []uint64) {
 // WriteU64BENext writes a slice of uint64s to the buffer at the current offset in big-endian and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteU64BENext(data []uint64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeU64BE(b.off, data)
 	b.seek(int64(len(data))*8, true)
 
@@ -1262,6 +1315,9 @@ func (b *Buffer) WriteU64BENext(data []uint64) {
 // ReadBit returns the bit located at the specified offset without modifying the internal offset value
 func (b *Buffer) ReadBit(off int64) byte {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.readbit(off)
 
 }
@@ -1269,6 +1325,9 @@ func (b *Buffer) ReadBit(off int64) byte {
 // ReadBits returns the next n bits from the specified offset without modifying the internal offset value
 func (b *Buffer) ReadBits(off, n int64) uint64 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.readbits(off, n)
 
 }
@@ -1276,6 +1335,9 @@ func (b *Buffer) ReadBits(off, n int64) uint64 {
 // ReadBitNext returns the next bit from the current offset and moves the offset forward a bit
 func (b *Buffer) ReadBitNext() (out byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.readbit(b.boff)
 	b.seekbit(1, true)
 	return
@@ -1285,6 +1347,9 @@ func (b *Buffer) ReadBitNext() (out byte) {
 // ReadBitsNext returns the next n bits from the current offset and moves the offset forward the amount of bits read
 func (b *Buffer) ReadBitsNext(n int64) (out uint64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.readbits(b.boff, n)
 	b.seekbit(n, true)
 	return
@@ -1294,6 +1359,9 @@ func (b *Buffer) ReadBitsNext(n int64) (out uint64) {
 // SetBit sets the bit located at the specified offset without modifying the internal offset value
 func (b *Buffer) SetBit(off int64, data byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.setbit(off, data)
 
 }
@@ -1301,6 +1369,9 @@ func (b *Buffer) SetBit(off int64, data byte) {
 // SetBits sets the next n bits from the specified offset without modifying the internal offset value
 func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.setbits(off, data, n)
 
 }
@@ -1308,6 +1379,9 @@ func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 // SetBitNext sets the next bit from the current offset and moves the offset forward a bit
 func (b *Buffer) SetBitNext(data byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.setbit(b.boff, data)
 	b.seekbit(1, true)
 
@@ -1316,6 +1390,9 @@ func (b *Buffer) SetBitNext(data byte) {
 // SetBitsNext sets the next n bits from the current offset and moves the offset forward the amount of bits set
 func (b *Buffer) SetBitsNext(data uint64, n int64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.setbits(b.boff, data, n)
 	b.seekbit(n, true)
 
@@ -1324,6 +1401,9 @@ func (b *Buffer) SetBitsNext(data uint64, n int64) {
 // FlipBit flips the bit located at the specified offset without modifying the internal offset value
 func (b *Buffer) FlipBit(off int64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.flipbit(off)
 
 }
@@ -1331,6 +1411,9 @@ func (b *Buffer) FlipBit(off int64) {
 // FlipBitNext flips the next bit from the current offset and moves the offset forward a bit
 func (b *Buffer) FlipBitNext() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.flipbit(b.boff)
 	b.seekbit(1, true)
 
@@ -1339,6 +1422,9 @@ func (b *Buffer) FlipBitNext() {
 // ClearAllBits sets all of the buffer's bits to 0
 func (b *Buffer) ClearAllBits() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.clearallbits()
 
 }
@@ -1346,6 +1432,9 @@ func (b *Buffer) ClearAllBits() {
 // SetAllBits sets all of the buffer's bits to 1
 func (b *Buffer) SetAllBits() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.setallbits()
 
 }
@@ -1353,6 +1442,9 @@ func (b *Buffer) SetAllBits() {
 // FlipAllBits flips all of the buffer's bits
 func (b *Buffer) FlipAllBits() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.flipallbits()
 
 }
-- 
2.43.0


From 5655b38c03507d4ffeb8aea57c996281e2768ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:46 +0000
Subject: [PATCH 02/10] fix: v1 Buffer: hold the lock for the whole of every
 public call

As in v2: cursor reads, bounds checks and getters ran outside the lock, bit
runs were locked bit by bit, and a panic inside a write left the lock held.
---
 v1/buffer.go | 161 +++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 117 insertions(+), 44 deletions(-)

diff --git a/v1/buffer.go b/v1/buffer.go
index da17ecf..24c5ec2 100644
--- a/v1/buffer.go
+++ b/v1/buffer.go
@@ -17,6 +17,9 @@ import (
 )
 
 // Buffer implements a concurrent-safe buffer type in go that handles multiple types of data
+//
+// every public method holds the embedded mutex while it runs, so that concurrent calls act one after another and none of
+// them may be made by a caller that holds it
 type Buffer struct {
 	buf  []byte
 	off  int64
@@ -77,9 +80,6 @@ func (b *Buffer) readbit(off int64) byte {
 
 	}
 
-	b.Lock()
-	defer b.Unlock()
-
 	return atob((b.buf[off/8] & (1 << uint(7-(off%8)))) != 0)
 
 }
@@ -111,9 +111,6 @@ func (b *Buffer) setbit(off int64, data byte) {
 
 	}
 
-	b.Lock()
-	defer b.Unlock()
-
 	switch data {
 
 	case 0:
@@ -155,9 +152,6 @@ func (b *Buffer) flipbit(off int64) {
 
 	}
 
-	b.Lock()
-	defer b.Unlock()
-
 	b.buf[off/8] ^= (1 << uint(7-(off%8)))
 
 }
@@ -165,9 +159,6 @@ func (b *Buffer) flipbit(off int64) {
 // clearallbits sets all of the buffer's bits to 0
 func (b *Buffer) clearallbits() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	for i := range b.buf {
 
 		b.buf[i] = 0
@@ -179,9 +170,6 @@ func (b *Buffer) clearallbits() {
 // setallbits sets all of the buffer's bits to 1
 func (b *Buffer) setallbits() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	for i := range b.buf {
 
 		b.buf[i] = 0xFF
@@ -193,9 +181,6 @@ func (b *Buffer) setallbits() {
 // flipallbits flips all of the buffer's bits
 func (b *Buffer) flipallbits() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	for i := range b.buf {
 
 		b.buf[i] = ^b.buf[i]
@@ -207,9 +192,6 @@ func (b *Buffer) flipallbits() {
 // seekbit seeks to position off of the bitfield relative to the current position or exact
 func (b *Buffer) seekbit(off int64, relative bool) {
 
-	b.Lock()
-	defer b.Unlock()
-
 	if relative {
 
 		b.boff += off
@@ -251,8 +233,6 @@ func (b *Buffer) write(off int64, data []byte) {
 
 	}
 
-	b.Lock()
-
 	i := int64(0)
 	n := int64(len(data))
 
@@ -267,8 +247,6 @@ func (b *Buffer) write(off int64, data []byte) {
 		}
 	}
 
-	b.Unlock()
-
 }
 
 // writeComplex writes a slice of bytes to the buffer at the specified offset with the specified endianness and integer type
@@ -355,9 +333,6 @@ func (b *Buffer) read(off, n int64) []byte {
 
 	}
 
-	b.Lock()
-	defer b.Unlock()
-
 	return b.buf[off : off+n]
 
 }
@@ -412,9 +387,6 @@ func (b *Buffer) readComplex(off, n int64, size IntegerSize, endian binary.ByteO
 // seek seeks to position off of the byte buffer relative to the current position or exact
 func (b *Buffer) seek(off int64, relative bool) {
 
-	b.Lock()
-	defer b.Unlock()
-
 	if relative {
 
 		b.off += off
@@ -444,12 +416,8 @@ func (b *Buffer) after(off ...int64) int64 {
 // grow grows the buffer by n bytes
 func (b *Buffer) grow(n int64) {
 
-	b.Lock()
-
 	b.buf = append(b.buf, make([]byte, n)...)
 
-	b.Unlock()
-
 	b.refresh()
 
 }
@@ -457,9 +425,6 @@ func (b *Buffer) grow(n int64) {
 // refresh updates the internal statistics of the byte buffer forcefully
 func (b *Buffer) refresh() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	b.cap = int64(len(b.buf))
 	b.bcap = b.cap * 8
 
@@ -468,9 +433,6 @@ func (b *Buffer) refresh() {
 // alignbit aligns the bit offset to the byte offset
 func (b *Buffer) alignbit() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	b.boff = b.off * 8
 
 }
@@ -478,9 +440,6 @@ func (b *Buffer) alignbit() {
 // alignbyte aligns the byte offset to the bit offset
 func (b *Buffer) alignbyte() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	b.off = b.boff / 8
 
 }
@@ -490,6 +449,9 @@ func (b *Buffer) alignbyte() {
 // Bytes returns the internal byte slice of the buffer
 func (b *Buffer) Bytes() []byte {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.buf
 
 }
@@ -497,6 +459,9 @@ func (b *Buffer) Bytes() []byte {
 // Capacity returns the capacity of the buffer
 func (b *Buffer) Capacity() int64 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.cap
 
 }
@@ -504,6 +469,9 @@ func (b *Buffer) Capacity() int64 {
 // BitCapacity returns the bit capacity of the buffer
 func (b *Buffer) BitCapacity() int64 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.bcap
 
 }
@@ -511,6 +479,9 @@ func (b *Buffer) BitCapacity() int64 {
 // Offset returns the current offset of the buffer
 func (b *Buffer) Offset() int64 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.off
 
 }
@@ -518,6 +489,9 @@ func (b *Buffer) Offset() int64 {
 // BitOffset returns the current bit offset of the buffer
 func (b *Buffer) BitOffset() int64 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.boff
 
 }
@@ -525,6 +499,9 @@ func (b *Buffer) BitOffset() int64 {
 // Refresh updates the cached internal statistics of the buffer forcefully
 func (b *Buffer) Refresh() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.refresh()
 
 }
@@ -532,6 +509,9 @@ func (b *Buffer) Refresh() {
 // Grow makes the buffer's capacity bigger by n bytes
 func (b *Buffer) Grow(n int64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.grow(n)
 
 }
@@ -539,6 +519,9 @@ func (b *Buffer) Grow(n int64) {
 // Seek seeks to position off of the buffer relative to the current position or exact
 func (b *Buffer) Seek(off int64, relative bool) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.seek(off, relative)
 
 }
@@ -546,6 +529,9 @@ func (b *Buffer) Seek(off int64, relative bool) {
 // SeekBit seeks to bit position off of the the buffer relative to the current position or exact
 func (b *Buffer) SeekBit(off int64, relative bool) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.seekbit(off, relative)
 
 }
@@ -553,6 +539,9 @@ func (b *Buffer) SeekBit(off int64, relative bool) {
 // AlignBit aligns the bit offset to the byte offset
 func (b *Buffer) AlignBit() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.alignbit()
 
 }
@@ -560,6 +549,9 @@ func (b *Buffer) AlignBit() {
 // AlignByte aligns the byte offset to the bit offset
 func (b *Buffer) AlignByte() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.alignbyte()
 
 }
@@ -567,6 +559,9 @@ func (b *Buffer) AlignByte() {
 // After returns the amount of bytes located after the current position or the specified one
 func (b *Buffer) After(off ...int64) int64 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.after(off...)
 
 }
@@ -574,6 +569,9 @@ func (b *Buffer) After(off ...int64) int64 {
 // AfterBit returns the amount of bits located after the current bit position or the specified one
 func (b *Buffer) AfterBit(off ...int64) int64 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.afterbit(off...)
 
 }
@@ -581,6 +579,9 @@ func (b *Buffer) AfterBit(off ...int64) int64 {
 // ReadByte returns the next byte from the specified offset without modifying the internal offset value
 func (b *Buffer) ReadByte(off int64) byte {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.read(off, 1)[0]
 
 }
@@ -588,6 +589,9 @@ func (b *Buffer) ReadByte(off int64) byte {
 // ReadBytes returns the next n bytes from the specified offset without modifying the internal offset value
 func (b *Buffer) ReadBytes(off, n int64) []byte {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.read(off, n)
 
 }
@@ -595,6 +599,9 @@ func (b *Buffer) ReadBytes(off, n int64) []byte {
 // ReadComplex returns the next n uint8/uint16/uint32/uint64-s from the specified offset without modifying the internal offset value
 func (b *Buffer) ReadComplex(off, n int64, size IntegerSize, endian binary.ByteOrder) interface{} {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.readComplex(off, n, size, endian)
 
 }
@@ -602,6 +609,9 @@ func (b *Buffer) ReadComplex(off, n int64, size IntegerSize, endian binary.ByteO
 // ReadByteNext returns the next byte from the current offset and moves the offset forward a byte
 func (b *Buffer) ReadByteNext() (out byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.read(b.off, 1)[0]
 	b.seek(1, true)
 	return
@@ -611,6 +621,9 @@ func (b *Buffer) ReadByteNext() (out byte) {
 // ReadBytesNext returns the next n bytes from the current offset and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadBytesNext(n int64) (out []byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.read(b.off, n)
 	b.seek(n, true)
 	return
@@ -620,6 +633,9 @@ func (b *Buffer) ReadBytesNext(n int64) (out []byte) {
 // ReadComplexNext returns the next n uint8/uint16/uint32/uint64-s from the current offset and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadComplexNext(n int64, size IntegerSize, endian binary.ByteOrder) (out interface{}) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.readComplex(b.off, n, size, endian)
 	b.seek(n*int64(size), true)
 	return
@@ -629,6 +645,9 @@ func (b *Buffer) ReadComplexNext(n int64, size IntegerSize, endian binary.ByteOr
 // WriteByte writes a byte to the buffer at the specified offset without modifying the internal offset value
 func (b *Buffer) WriteByte(off int64, data byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.write(off, []byte{data})
 
 }
@@ -636,6 +655,9 @@ func (b *Buffer) WriteByte(off int64, data byte) {
 // WriteBytes writes bytes to the buffer at the specified offset without modifying the internal offset value
 func (b *Buffer) WriteBytes(off int64, data []byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.write(off, data)
 
 }
@@ -643,6 +665,9 @@ func (b *Buffer) WriteBytes(off int64, data []byte) {
 // WriteComplex writes a uint8/uint16/uint32/uint64 to the buffer at the specified offset without modifying the internal offset value
 func (b *Buffer) WriteComplex(off int64, data interface{}, size IntegerSize, endian binary.ByteOrder) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeComplex(off, data, size, endian)
 
 }
@@ -650,6 +675,9 @@ func (b *Buffer) WriteComplex(off int64, data interface{}, size IntegerSize, end
 // WriteByteNext writes a byte to the buffer at the current offset and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteByteNext(data byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.write(b.off, []byte{data})
 	b.seek(1, true)
 
@@ -658,6 +686,9 @@ func (b *Buffer) WriteByteNext(data byte) {
 // WriteBytesNext writes bytes to the buffer at the current offset and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteBytesNext(data []byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.write(b.off, data)
 	b.seek(int64(len(data)), true)
 
@@ -666,6 +697,9 @@ func (b *Buffer) WriteBytesNext(data []byte) {
 // WriteComplexNext writes a uint8/uint16/uint32/uint64 to the buffer at the current offset and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteComplexNext(data interface{}, size IntegerSize, endian binary.ByteOrder) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeComplex(b.off, data, size, endian)
 
 	switch size {
@@ -689,6 +723,9 @@ func (b *Buffer) WriteComplexNext(data interface{}, size IntegerSize, endian bin
 // ReadBit returns the bit located at the specified offset without modifying the internal offset value
 func (b *Buffer) ReadBit(off int64) byte {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.readbit(off)
 
 }
@@ -696,6 +733,9 @@ func (b *Buffer) ReadBit(off int64) byte {
 // ReadBits returns the next n bits from the specified offset without modifying the internal offset value
 func (b *Buffer) ReadBits(off, n int64) uint64 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.readbits(off, n)
 
 }
@@ -703,6 +743,9 @@ func (b *Buffer) ReadBits(off, n int64) uint64 {
 // ReadBitNext returns the next bit from the current offset and moves the offset forward a bit
 func (b *Buffer) ReadBitNext() (out byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.readbit(b.boff)
 	b.seekbit(1, true)
 	return
@@ -712,6 +755,9 @@ func (b *Buffer) ReadBitNext() (out byte) {
 // ReadBitsNext returns the next n bits from the current offset and moves the offset forward the amount of bits read
 func (b *Buffer) ReadBitsNext(n int64) (out uint64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.readbits(b.boff, n)
 	b.seekbit(n, true)
 	return
@@ -721,6 +767,9 @@ func (b *Buffer) ReadBitsNext(n int64) (out uint64) {
 // SetBit sets the bit located at the specified offset without modifying the internal offset value
 func (b *Buffer) SetBit(off int64, data byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.setbit(off, data)
 
 }
@@ -728,6 +777,9 @@ func (b *Buffer) SetBit(off int64, data byte) {
 // SetBits sets the next n bits from the specified offset without modifying the internal offset value
 func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.setbits(off, data, n)
 
 }
@@ -735,6 +787,9 @@ func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 // SetBitNext sets the next bit from the current offset and moves the offset forward a bit
 func (b *Buffer) SetBitNext(data byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.setbit(b.boff, data)
 	b.seekbit(1, true)
 
@@ -743,6 +798,9 @@ func (b *Buffer) SetBitNext(data byte) {
 // SetBitsNext sets the next n bits from the current offset and moves the offset forward the amount of bits set
 func (b *Buffer) SetBitsNext(data uint64, n int64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.setbits(b.boff, data, n)
 	b.seekbit(n, true)
 
@@ -751,6 +809,9 @@ func (b *Buffer) SetBitsNext(data uint64, n int64) {
 // FlipBit flips the bit located at the specified offset without modifying the internal offset value
 func (b *Buffer) FlipBit(off int64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.flipbit(off)
 
 }
@@ -758,6 +819,9 @@ func (b *Buffer) FlipBit(off int64) {
 // FlipBitNext flips the next bit from the current offset and moves the offset forward a bit
 func (b *Buffer) FlipBitNext() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.flipbit(b.boff)
 	b.seekbit(1, true)
 
@@ -766,6 +830,9 @@ func (b *Buffer) FlipBitNext() {
 // ClearAllBits sets all of the buffer's bits to 0
 func (b *Buffer) ClearAllBits() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.clearallbits()
 
 }
@@ -773,6 +840,9 @@ func (b *Buffer) ClearAllBits() {
 // SetAllBits sets all of the buffer's bits to 1
 func (b *Buffer) SetAllBits() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.setallbits()
 
 }
@@ -780,6 +850,9 @@ func (b *Buffer) SetAllBits() {
 // FlipAllBits flips all of the buffer's bits
 func (b *Buffer) FlipAllBits() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.flipallbits()
 
 }
-- 
2.43.0


From 0b452332803f77384872d37b4e1d8b963435a544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:11 +0000
Subject: [PATCH 03/10] fix: check the whole range of a SetBits before setting
 any bit

A Buffer.SetBits or SetBitsNext that crossed the end set the bits up to the
end before it panicked.
---
 v1/buffer.go           | 12 ++++++++++++
 v2/buffer.go           | 12 ++++++++++++
 v3/_buffer.go          | 12 ++++++++++++
 v3/buffer.generated.go | 12 ++++++++++++
 4 files changed, 48 insertions(+)

diff --git a/v1/buffer.go b/v1/buffer.go
index 24c5ec2..0e00ded 100644
--- a/v1/buffer.go
+++ b/v1/buffer.go
@@ -129,6 +129,18 @@ func (b *Buffer) setbit(off int64, data byte) {
 // setbits sets n bits in the bitfield to the specified value at the specified offset
 func (b *Buffer) setbits(off int64, data uint64, n int64) {
 
+	if (off + n) > b.bcap {
+
+		panic(BufferOverwriteError)
+
+	}
+
+	if off < 0x00 {
+
+		panic(BufferUnderwriteError)
+
+	}
+
 	for i := int64(0); i < n; i++ {
 
 		b.setbit(off+i, byte((data>>uint64(n-i-1))&1))
diff --git a/v2/buffer.go b/v2/buffer.go
index 31579d6..1049b66 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -134,6 +134,18 @@ func (b *Buffer) setbit(off int64, data byte) {
 // setbits sets n bits in the bitfield to the specified value at the specified offset
 func (b *Buffer) setbits(off int64, data uint64, n int64) {
 
+	if (off + n) > b.bcap {
+
+		panic(BufferOverwriteError)
+
+	}
+
+	if off < 0x00 {
+
+		panic(BufferUnderwriteError)
+
+	}
+
 	i := int64(0)
 
 	{
diff --git a/v3/_buffer.go b/v3/_buffer.go
index 4878780..713f674 100644
--- a/v3/_buffer.go
+++ b/v3/_buffer.go
@@ -191,6 +191,18 @@ func (b *Buffer) ClearBitNext() {
 // modifying the internal offset value
 func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 
+	if (off + n) > b.bcap {
+
+		panic(BufferOverwriteError)
+
+	}
+
+	if off < 0x00 {
+
+		panic(BufferUnderwriteError)
+
+	}
+
 	i := int64(0)
 
 	{
diff --git a/v3/buffer.generated.go b/v3/buffer.generated.go
index 9a08306..c0dad95 100644
--- a/v3/buffer.generated.go
+++ b/v3/buffer.generated.go
@@ -191,6 +191,18 @@ func (b *Buffer) ClearBitNext() {
 // modifying the internal offset value
 func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 
+	if (off + n) > b.bcap {
+
+		panic(BufferOverwriteError)
+
+	}
+
+	if off < 0x00 {
+
+		panic(BufferUnderwriteError)
+
+	}
+
 	i := int64(0)
 
 	{
-- 
2.43.0


From 80ab8414e608072a8c0e398e93b51aef7d500be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:34 +0000
Subject: [PATCH 04/10] fix: MiniBuffer.ReadBits: ignore what the output held
 before

The bits were shifted into the previous value of *out, so a reused output
variable gave a wrong result whenever fewer than 64 bits were read.
---
 v1/minibuf.go           | 1 +
 v2/minibuf.go           | 1 +
 v3/_minibuf.go          | 1 +
 v3/minibuf.generated.go | 1 +
 4 files changed, 4 insertions(+)

diff --git a/v1/minibuf.go b/v1/minibuf.go
index 959d9f7..c11ea47 100644
--- a/v1/minibuf.go
+++ b/v1/minibuf.go
@@ -74,6 +74,7 @@ func (b *MiniBuffer) readbit(out *byte, off int64) {
 func (b *MiniBuffer) readbits(out *uint64, off, n int64) {
 
 	var bout byte
+	*out = 0
 	for i := int64(0); i < n; i++ {
 
 		b.readbit(&bout, off+i)
diff --git a/v2/minibuf.go b/v2/minibuf.go
index f1fc45d..fc87d9d 100644
--- a/v2/minibuf.go
+++ b/v2/minibuf.go
@@ -75,6 +75,7 @@ func (b *MiniBuffer) readbits(out *uint64, off, n int64) {
 
 		i = int64(0)
 	)
+	*out = 0
 	{
 	read_loop:
 		b.readbit(&bout, off+i)
diff --git a/v3/_minibuf.go b/v3/_minibuf.go
index a5b4cc2..377ba67 100644
--- a/v3/_minibuf.go
+++ b/v3/_minibuf.go
@@ -92,6 +92,7 @@ func (b *MiniBuffer) ReadBits(out *uint64, off, n int64) {
 
 		i = int64(0)
 	)
+	*out = 0
 	{
 	read_loop:
 		b.ReadBit(&bout, off+i)
diff --git a/v3/minibuf.generated.go b/v3/minibuf.generated.go
index 1f87c45..1a539ac 100644
--- a/v3/minibuf.generated.go
+++ b/v3/minibuf.generated.go
@@ -92,6 +92,7 @@ func (b *MiniBuffer) ReadBits(out *uint64, off, n int64) {
 
 		i = int64(0)
 	)
+	*out = 0
 	{
 	read_loop:
 		b.ReadBit(&bout, off+i)
-- 
2.43.0


From 21ba75ab563aaae2a5bebdbc2421ae3fdba06269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:36 +0000
Subject: [PATCH 05/10] fix: v1 Buffer: check all the bytes a ReadComplex
 covers

The bounds check took the number of integers for the number of bytes. A read
past the end was not rejected: it returned memory behind the contents, or
died of a slice bounds error.
---
 v1/buffer.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/v1/buffer.go b/v1/buffer.go
index 0e00ded..09e4745 100644
--- a/v1/buffer.go
+++ b/v1/buffer.go
@@ -352,7 +352,17 @@ func (b *Buffer) read(off, n int64) []byte {
 // readComplex reads a slice of bytes from the buffer at the specified offset with the specified endianness and integer type
 func (b *Buffer) readComplex(off, n int64, size IntegerSize, endian binary.ByteOrder) interface{} {
 
-	data := b.read(off, n)
+	switch size {
+
+	case Unsigned8, Unsigned16, Unsigned32, Unsigned64:
+		break
+
+	default:
+		panic(BufferInvalidIntegerSizeError)
+
+	}
+
+	data := b.read(off, n*int64(size))
 
 	switch size {
 
-- 
2.43.0


From 7ccf8e421fc925a67ad2ba6c52df093ce0e14a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:39 +0000
Subject: [PATCH 06/10] fix: v3: zero the bytes a Grow takes from spare storage

After a Reset, a TruncateRight or when the wrapped slice had spare capacity,
the bytes added by Grow showed whatever that storage held before.
---
 v3/_buffer.go           | 8 +++++++-
 v3/_minibuf.go          | 8 +++++++-
 v3/buffer.generated.go  | 8 +++++++-
 v3/minibuf.generated.go | 8 +++++++-
 4 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/v3/_buffer.go b/v3/_buffer.go
index 713f674..202cc0a 100644
--- a/v3/_buffer.go
+++ b/v3/_buffer.go
@@ -598,7 +598,13 @@ func (b *Buffer) Grow(n int64) {
 
 	if n <= int64(cap(b.buf))-b.cap {
 
-		b.buf = b.buf[0 : b.cap+n]
+		tmp := b.buf[0 : b.cap+n]
+		for i := b.cap; i < b.cap+n; i++ {
+
+			tmp[i] = 0x00
+
+		}
+		b.buf = tmp
 		b.Refresh()
 		return
 
diff --git a/v3/_minibuf.go b/v3/_minibuf.go
index 377ba67..42ce9a3 100644
--- a/v3/_minibuf.go
+++ b/v3/_minibuf.go
@@ -461,7 +461,13 @@ func (b *MiniBuffer) Grow(n int64) {
 
 	if n <= int64(cap(b.buf))-b.cap {
 
-		b.buf = b.buf[0 : b.cap+n]
+		tmp := b.buf[0 : b.cap+n]
+		for i := b.cap; i < b.cap+n; i++ {
+
+			tmp[i] = 0x00
+
+		}
+		b.buf = tmp
 		b.Refresh()
 		return
 
diff --git a/v3/buffer.generated.go b/v3/buffer.generated.go
index c0dad95..1b04f1e 100644
--- a/v3/buffer.generated.go
+++ b/v3/buffer.generated.go
@@ -1598,7 +1598,13 @@ func (b *Buffer) Grow(n int64) {
 
 	if n <= int64(cap(b.buf))-b.cap {
 
-		b.buf = b.buf[0 : b.cap+n]
+		tmp := b.buf[0 : b.cap+n]
+		for i := b.cap; i < b.cap+n; i++ {
+
+			tmp[i] = 0x00
+
+		}
+		b.buf = tmp
 		b.Refresh()
 		return
 
diff --git a/v3/minibuf.generated.go b/v3/minibuf.generated.go
index 1a539ac..8cd296a 100644
--- a/v3/minibuf.generated.go
+++ b/v3/minibuf.generated.go
@@ -1221,7 +1221,13 @@ func (b *MiniBuffer) Grow(n int64) {
 
 	if n <= int64(cap(b.buf))-b.cap {
 
-		b.buf = b.buf[0 : b.cap+n]
+		tmp := b.buf[0 : b.cap+n]
+		for i := b.cap; i < b.cap+n; i++ {
+
+			tmp[i] = 0x00
+
+		}
+		b.buf = tmp
 		b.Refresh()
 		return
 
-- 
2.43.0


From 65905bf6a029bd46292d50e5ec1c3c8bb9ccd777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:50 +0000
Subject: [PATCH 07/10] fix: generator: cut an output off where its new
 contents end

---
 generation/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/generation/main.go b/generation/main.go
index d1f4e87..188cc07 100644
--- a/generation/main.go
+++ b/generation/main.go
@@ -110,6 +110,10 @@ func main() {
 		}
 
 		_, err = file.Write(contents)
+		if err == nil {
+			// whatever was there before may have been longer
+			err = file.Truncate(int64(len(contents)))
+		}
 		if err != nil {
 			fmt.Printf("! unable to update contents of generated file. (%v)\n", err)
 			continue
-- 
2.43.0


From 996280f8d87eb8972715f873e28391387910ca8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:50 +0000
Subject: [PATCH 08/10] fix: generator: do not go on in the wrong directory
 when entering the chosen one fails

---
 generation/main.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/generation/main.go b/generation/main.go
index 188cc07..69a8757 100644
--- a/generation/main.go
+++ b/generation/main.go
@@ -60,9 +60,13 @@ func main() {
 		return
 	}
 
-	// we can be sure that this will not error
-	// we know that it is a directory
-	_ = directory.Chdir()
+	// it is a directory, but entering it may be denied or fail. going on would
+	// work on whatever directory we were started in
+	err = directory.Chdir()
+	if err != nil {
+		fmt.Printf("! unable to enter source directory. (%v)\n", err)
+		return
+	}
 
 	directoryFiles, err := directory.Readdir(0)
 	if err != nil {
-- 
2.43.0


From f36ae8156bc9580796af066c1bff5c42d60633fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:50 +0000
Subject: [PATCH 09/10] fix: generator: generate nothing from a template that
 was read in part

---
 generation/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/generation/main.go b/generation/main.go
index 69a8757..66b0c71 100644
--- a/generation/main.go
+++ b/generation/main.go
@@ -85,6 +85,7 @@ func main() {
 			files[fileInfo.Name()], err = ioutil.ReadAll(file)
 			if err != nil {
 				fmt.Printf("! unable to read file contents. (%v)\n", err)
+				delete(files, fileInfo.Name()) // a part of it is not a template
 				continue
 			}
 
-- 
2.43.0


From 6dbb07438d74bb088aa5377965fbca1690f8c5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:58 +0000
Subject: [PATCH 10/10] fix: generator: exit with a non-zero status when
 anything failed

---
 generation/main.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/generation/main.go b/generation/main.go
index 66b0c71..e293684 100644
--- a/generation/main.go
+++ b/generation/main.go
@@ -36,28 +36,31 @@ func main() {
 
 	var err error
 
+	// set when something failed that is no reason to give up on the rest
+	failed := false
+
 	*directoryName, err = filepath.Abs(*directoryName)
 	if err != nil {
 		fmt.Printf("! unable to get absolute path of provided directory. (%v)\n", err)
-		return
+		os.Exit(1)
 	}
 
 	directory, err := os.Open(*directoryName)
 	if err != nil {
 		fmt.Printf("! unable to open source directory. (%v)\n", err)
-		return
+		os.Exit(1)
 	}
 	defer directory.Close()
 
 	directoryInfo, err := directory.Stat()
 	if err != nil {
 		fmt.Printf("! unable to get source directory information. (%v)\n", err)
-		return
+		os.Exit(1)
 	}
 
 	if !directoryInfo.IsDir() {
 		fmt.Println("! provided source directory is not a directory")
-		return
+		os.Exit(1)
 	}
 
 	// it is a directory, but entering it may be denied or fail. going on would
@@ -65,12 +68,13 @@ func main() {
 	err = directory.Chdir()
 	if err != nil {
 		fmt.Printf("! unable to enter source directory. (%v)\n", err)
-		return
+		os.Exit(1)
 	}
 
 	directoryFiles, err := directory.Readdir(0)
 	if err != nil {
 		fmt.Printf("! unable to read directory information. (%v)\n", err)
+		failed = true
 	}
 
 	files := map[string][]byte{}
@@ -79,6 +83,7 @@ func main() {
 			file, err := os.Open(fileInfo.Name())
 			if err != nil {
 				fmt.Printf("! unable to open source file. (%v)\n", err)
+				failed = true
 				continue
 			}
 
@@ -86,6 +91,7 @@ func main() {
 			if err != nil {
 				fmt.Printf("! unable to read file contents. (%v)\n", err)
 				delete(files, fileInfo.Name()) // a part of it is not a template
+				failed = true
 				continue
 			}
 
@@ -100,17 +106,18 @@ func main() {
 		generated, err = GenerateComplex(files)
 		if err != nil {
 			fmt.Printf("! @ GenerateComplex() %v\n", err)
-			return
+			os.Exit(1)
 		}
 	default:
 		fmt.Println("! no valid generation mode specified")
-		return
+		os.Exit(1)
 	}
 
 	for name, contents := range generated {
 		file, err := os.OpenFile(strings.Join([]string{strings.TrimSuffix(strings.TrimPrefix(name, "_"), ".go"), ".generated.go"}, ""), os.O_RDWR|os.O_CREATE, 0644)
 		if err != nil {
 			fmt.Printf("! unable to open source file. (%v)\n", err)
+			failed = true
 			continue
 		}
 
@@ -121,9 +128,18 @@ func main() {
 		}
 		if err != nil {
 			fmt.Printf("! unable to update contents of generated file. (%v)\n", err)
+			failed = true
 			continue
 		}
 
-		_ = file.Close()
+		err = file.Close()
+		if err != nil {
+			fmt.Printf("! unable to finish writing generated file. (%v)\n", err)
+			failed = true
+		}
+	}
+
+	if failed {
+		os.Exit(1)
 	}
 }
-- 
2.43.0

