From 987e0a999d03d6098ad805d9fabfdb88b20e2b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 001/107] fix: encode array elements above 65535 as a 32 bit
 element segment

---
 cip_definitions.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cip_definitions.go b/cip_definitions.go
index 17f3279..cf56d77 100644
--- a/cip_definitions.go
+++ b/cip_definitions.go
@@ -112,7 +112,7 @@ func (p CIPElement) Bytes() []byte {
 	} else {
 
 		b := make([]byte, 6)
-		b[0] = byte(cipElement_16bit)
+		b[0] = byte(cipElement_32bit)
 		binary.LittleEndian.PutUint32(b[2:], uint32(p))
 		return b
 	}
@@ -121,7 +121,7 @@ func (p CIPElement) Bytes() []byte {
 func (p CIPElement) Len() int {
 	if p < 256 {
 		return 2
-	} else if p < 65535 {
+	} else if p < 65536 {
 		return 4
 	}
 	return 6
-- 
2.43.0


From 0c4ac429701999034784d195aed2baee75346f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 002/107] fix: CIPAddress and CIPPort report the length they
 encode to

---
 cip_definitions.go | 2 +-
 path.go            | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/cip_definitions.go b/cip_definitions.go
index cf56d77..e006daf 100644
--- a/cip_definitions.go
+++ b/cip_definitions.go
@@ -13,7 +13,7 @@ func (p CIPAddress) Bytes() []byte {
 }
 
 func (p CIPAddress) Len() int {
-	return 0
+	return 1
 }
 
 // Represents a CIP class attribute id - that is a specific attribute of a given class.
diff --git a/path.go b/path.go
index 5a5871a..6a7c73c 100644
--- a/path.go
+++ b/path.go
@@ -44,7 +44,10 @@ type CIPPort struct {
 }
 
 func (p CIPPort) Len() int {
-	return 2
+	if p.ExtensionLen != 0 {
+		return 2
+	}
+	return 1
 }
 
 func (p CIPPort) Bytes() []byte {
-- 
2.43.0


From bdb6801fe48bd082d89f7961a938af7ff6fb54fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:15 +0000
Subject: [PATCH 003/107] fix: ParsePath pads odd length addresses and rejects
 an address without a port

---
 path.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/path.go b/path.go
index 6a7c73c..ffa63ed 100644
--- a/path.go
+++ b/path.go
@@ -74,12 +74,19 @@ func ParsePath(path string) (*bytes.Buffer, error) {
 
 	byte_path := make([]byte, 0, len(parts))
 
+	// true when the last thing added was a plain number, which is the only thing an address can extend.
+	last_is_number := false
+
 	for _, part := range parts {
 		// first see if this looks like an IP address.
 		is_ip := strings.Contains(part, ".")
 		if is_ip {
 			// for some god forsaken reason the path doesn't use the ip address as actual bytes but as an ascii string.
 			// we first have to set bit 5 in the previous byte to say we're using an extended address for this part.
+			if !last_is_number {
+				return nil, fmt.Errorf("address %v must follow a port number", part)
+			}
+			last_is_number = false
 			last_pos := len(byte_path) - 1
 			last_byte := byte_path[last_pos]
 			byte_path[last_pos] = last_byte | 1<<4
@@ -87,6 +94,10 @@ func ParsePath(path string) (*bytes.Buffer, error) {
 			byte_path = append(byte_path, byte(l))
 			string_bytes := []byte(part)
 			byte_path = append(byte_path, string_bytes...)
+			if l%2 == 1 {
+				// segments have to be an even number of bytes.
+				byte_path = append(byte_path, 0)
+			}
 			continue
 		}
 		// not an IP address
@@ -98,6 +109,7 @@ func ParsePath(path string) (*bytes.Buffer, error) {
 			return nil, fmt.Errorf("number out of range. %v", part)
 		}
 		byte_path = append(byte_path, byte(val))
+		last_is_number = true
 	}
 
 	return bytes.NewBuffer(byte_path), nil
-- 
2.43.0


From e7793d29551e03510a2decc9250987b882a6b442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:15 +0000
Subject: [PATCH 004/107] fix: reject symbol names that do not fit their length
 byte

---
 ioi.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ioi.go b/ioi.go
index 0ae72ff..0ae3fe4 100644
--- a/ioi.go
+++ b/ioi.go
@@ -229,6 +229,9 @@ func marshalIOIPart(tagpath string) ([]byte, error) {
 		return nil, fmt.Errorf("could not parse tag path: %w", err)
 	}
 	tag_size := len(t.BasePath)
+	if tag_size > 255 {
+		return nil, fmt.Errorf("symbol name is %d bytes but at most 255 can be sent", tag_size)
+	}
 	need_extend := false
 	if tag_size%2 == 1 {
 		need_extend = true
-- 
2.43.0


From 2c6aac1e133bd4036df256de7653b3df531a2b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 005/107] fix: pack and unpack arrays of structures element by
 element

---
 pack.go | 41 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/pack.go b/pack.go
index 01cb4f4..5541b78 100644
--- a/pack.go
+++ b/pack.go
@@ -208,7 +208,25 @@ func Pack(w io.Writer, data any) (int, error) {
 		}
 
 		// finally, if the field is some sub-structure, recurse.  Otherwise we will write the data out
-		if k != reflect.Struct {
+		if k == reflect.Array && field.Type.Elem().Kind() == reflect.Struct {
+			// every element is packed on its own, starting at its own alignment.
+			arr := refVal.Field(i)
+			s = 0
+			for ai := 0; ai < arr.Len(); ai++ {
+				if rem := s % a; rem > 0 {
+					_, err := w.Write(make([]byte, a-rem))
+					if err != nil {
+						return pos, fmt.Errorf("problem writing pad to buffer. %v", err)
+					}
+					s += a - rem
+				}
+				es, err := Pack(w, arr.Index(ai).Interface())
+				if err != nil {
+					return pos, fmt.Errorf("problem packing array element: %w", err)
+				}
+				s += es
+			}
+		} else if k != reflect.Struct {
 			err := binary.Write(w, p.Order(), refVal.Field(i).Interface())
 			if err != nil {
 				return pos, fmt.Errorf("problem reading sub-structure. %v", err)
@@ -367,7 +385,26 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 		}
 
 		// finally, if the field is some sub-structure, recurse.  Otherwise we will write the data out
-		if k != reflect.Struct {
+		if k == reflect.Array && field.Type.Elem().Kind() == reflect.Struct {
+			// every element is unpacked on its own, starting at its own alignment.
+			arr := refVal.Field(i)
+			s = 0
+			for ai := 0; ai < arr.Len(); ai++ {
+				if rem := s % a; rem > 0 {
+					_, err = io.ReadFull(r, make([]byte, a-rem))
+					if err != nil {
+						return
+					}
+					s += a - rem
+				}
+				var es int
+				es, err = Unpack(r, arr.Index(ai).Addr().Interface())
+				if err != nil {
+					return
+				}
+				s += es
+			}
+		} else if k != reflect.Struct {
 			//binary.Read(r, p.Order(), refVal.Field(i).Interface())
 			err = binary.Read(r, p.Order(), refVal.Field(i).Addr().Interface())
 			if err != nil {
-- 
2.43.0


From 6eb042be3dddfdd978adcfbe8a27e69788ad0ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 006/107] fix: Unpack reads padding and packed bools in full
 from any reader

---
 pack.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pack.go b/pack.go
index 5541b78..3751730 100644
--- a/pack.go
+++ b/pack.go
@@ -289,7 +289,7 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 			n += s
 			align := p.Align(refType.Elem())
 			if s%align != 0 {
-				s, err = r.Read(make([]byte, align-s%align))
+				s, err = io.ReadFull(r, make([]byte, align-s%align))
 				if err != nil {
 					return n, fmt.Errorf("problem reading slice element padding: %w", err)
 				}
@@ -322,7 +322,7 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 					for ai := 0; ai < l; ai++ {
 						if bitpos == 0 {
 							br := []byte{0}
-							_, err = r.Read(br)
+							_, err = io.ReadFull(r, br)
 							if err != nil {
 								return n, fmt.Errorf("problem reading bool. %w", err)
 							}
@@ -345,7 +345,7 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 				// try to pack bools
 				if bitpos == 0 {
 					br := []byte{0}
-					_, err = r.Read(br)
+					_, err = io.ReadFull(r, br)
 					if err != nil {
 						return n, fmt.Errorf("problem reading packed bool. %w", err)
 					}
@@ -377,7 +377,7 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 		if rem < a && rem > 0 {
 			// need paddding bits
 			pad := make([]byte, rem)
-			_, err = r.Read(pad)
+			_, err = io.ReadFull(r, pad)
 			if err != nil {
 				return
 			}
-- 
2.43.0


From db3bc7519e75103bfa690b9ada6f1ff11a3ba960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 007/107] fix: reading into an empty slice is an error, not a
 panic

---
 read.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/read.go b/read.go
index d81fc46..a9c8cd9 100644
--- a/read.go
+++ b/read.go
@@ -550,6 +550,9 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 }
 
 func readArray[T GoLogixTypes](client *Client, tag string, elements uint16) ([]T, error) {
+	if elements == 0 {
+		return nil, fmt.Errorf("cannot read 0 elements of %s", tag)
+	}
 	t := make([]T, elements)
 	ct, _ := GoVarToCIPType(t[0])
 	val, err := client.Read_single(tag, ct, elements)
-- 
2.43.0


From 54e7afbbc7c1e1ef0b9c6f748d114f653b04f774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 008/107] fix: read a one element slice

---
 read.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/read.go b/read.go
index a9c8cd9..fb34a81 100644
--- a/read.go
+++ b/read.go
@@ -569,9 +569,13 @@ func readArray[T GoLogixTypes](client *Client, tag string, elements uint16) ([]T
 	}
 
 	//cast, ok := val.([]T)
+	if elements == 1 {
+		// a single element is returned as a bare value.
+		val = []any{val}
+	}
 	cast, ok := val.([]any)
 	if !ok {
-		return t, fmt.Errorf("couldn't cast array. %w", err)
+		return t, fmt.Errorf("couldn't cast array from %T", val)
 	}
 	for i, v := range cast {
 		if ct == CIPTypeSTRING {
-- 
2.43.0


From cab728a8d69c08b5167b46667254152f68ba9018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 009/107] fix: read ULINT tags and their bits

---
 types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types.go b/types.go
index 75730d6..e7b6bfa 100644
--- a/types.go
+++ b/types.go
@@ -269,7 +269,7 @@ func readValue(t CIPType, r io.Reader) (any, error) {
 		var trueval uint32
 		err = binary.Read(r, binary.LittleEndian, &trueval)
 		value = trueval
-	case CIPTypeLWORD:
+	case CIPTypeLWORD, CIPTypeULINT:
 		var trueval uint64
 		err = binary.Read(r, binary.LittleEndian, &trueval)
 		value = trueval
@@ -404,7 +404,7 @@ func getBit(t CIPType, v any, bitpos int) (bool, error) {
 			}
 			err = fmt.Errorf("value was a UDINT, but bit %d was requested. must be 0-31 for UDINT", bitpos)
 		}
-	case CIPTypeLWORD:
+	case CIPTypeLWORD, CIPTypeULINT:
 		if bitpos >= 0 && bitpos < 64 {
 			x, ok := v.(uint64)
 			if ok {
-- 
2.43.0


From 46453ce14f5b23584ad89f5a5f408869f9d8d8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:31 +0000
Subject: [PATCH 010/107] fix: reject malformed array subscripts instead of
 addressing another element

---
 ioi.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ioi.go b/ioi.go
index 0ae3fe4..6a94bbe 100644
--- a/ioi.go
+++ b/ioi.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"regexp"
 	"strconv"
 	"strings"
@@ -51,7 +52,7 @@ func (tag *tagPartDescriptor) Parse(tagpath string) error {
 			parts := strings.Split(arr_access_text, ",")
 			tag.Array_Order = make([]int, len(parts))
 			for i, part := range parts {
-				tag.Array_Order[i], err = strconv.Atoi(part)
+				tag.Array_Order[i], err = strconv.Atoi(strings.TrimSpace(part))
 				if err != nil {
 					return fmt.Errorf("could't parse %v to an array position. %w", arr_access_text, err)
 				}
@@ -59,7 +60,7 @@ func (tag *tagPartDescriptor) Parse(tagpath string) error {
 
 		} else {
 			tag.Array_Order = make([]int, 1)
-			tag.Array_Order[0], err = strconv.Atoi(arr_access_text)
+			tag.Array_Order[0], err = strconv.Atoi(strings.TrimSpace(arr_access_text))
 			if err != nil {
 				return fmt.Errorf("could't parse %v to an array position. %w", arr_access_text, err)
 			}
@@ -150,6 +151,10 @@ func (client *Client) newIOI(tagpath string, datatype CIPType) (ioi *tagIOI, err
 		if strings.HasSuffix(tag_part, "]") {
 			// part of an array
 			start_index := strings.Index(tag_part, "[")
+			subscript := array_access_regex.FindStringIndex(tag_part)
+			if subscript == nil || subscript[0] != start_index {
+				return nil, fmt.Errorf("bad array subscript in %q", tag_part)
+			}
 			ioi_part, err := marshalIOIPart(tag_part[0:start_index])
 			if err != nil {
 				return nil, err
@@ -162,10 +167,13 @@ func (client *Client) newIOI(tagpath string, datatype CIPType) (ioi *tagIOI, err
 
 			t, err := parse_tag_name(tag_part)
 			if err != nil {
-				client.Logger.Warn("problem parsing path", "error", err)
+				return nil, fmt.Errorf("problem parsing path: %w", err)
 			}
 
 			for _, order_size := range t.Array_Order {
+				if int64(order_size) > math.MaxUint32 {
+					return nil, fmt.Errorf("array index %d in %q is too large", order_size, tag_part)
+				}
 				if order_size < 256 {
 					// byte, byte
 					index_part := []byte{byte(cipElement_8bit), byte(order_size)}
-- 
2.43.0


From da357b4441219edf18cd2cc46c622b316b54aca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 011/107] fix: only a final number from 0 to 63 is a bit access

---
 ioi.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ioi.go b/ioi.go
index 6a94bbe..50f59d7 100644
--- a/ioi.go
+++ b/ioi.go
@@ -147,7 +147,7 @@ func (client *Client) newIOI(tagpath string, datatype CIPType) (ioi *tagIOI, err
 	// we'll build this byte structure up as we go.
 	ioi.Buffer = make([]byte, 0, defaultIOIBufferSize)
 
-	for _, tag_part := range tag_array {
+	for part_no, tag_part := range tag_array {
 		if strings.HasSuffix(tag_part, "]") {
 			// part of an array
 			start_index := strings.Index(tag_part, "[")
@@ -206,7 +206,8 @@ func (client *Client) newIOI(tagpath string, datatype CIPType) (ioi *tagIOI, err
 		} else {
 			// not part of an array
 			bit_access, err := strconv.Atoi(tag_part)
-			if err == nil && bit_access <= 31 {
+			last_part := part_no == len(tag_array)-1
+			if err == nil && last_part && bit_access_regex.MatchString(tagpath) && bit_access <= 63 {
 				// This is a bit access.
 				// we won't do anything for now and will just parse the
 				// bit out of the word when that time comes.
-- 
2.43.0


From 87526f1a2b6230dc71884b1b2ce735bafe60e27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:37 +0000
Subject: [PATCH 012/107] fix: reject tag paths that do not fit their length
 byte

---
 ioi.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ioi.go b/ioi.go
index 50f59d7..f0ef9f6 100644
--- a/ioi.go
+++ b/ioi.go
@@ -228,6 +228,10 @@ func (client *Client) newIOI(tagpath string, datatype CIPType) (ioi *tagIOI, err
 
 	}
 
+	if len(ioi.Buffer) > 510 {
+		return nil, fmt.Errorf("path of %d bytes for tag %q is too long", len(ioi.Buffer), tagpath)
+	}
+
 	client.ioi_cache[tagpath] = ioi
 	return
 }
-- 
2.43.0


From f2d122130a50cf7c2f9c70d56aa9dafd70a7af69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 013/107] fix: bit access of SINT tags

---
 types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types.go b/types.go
index e7b6bfa..812dfdf 100644
--- a/types.go
+++ b/types.go
@@ -336,10 +336,10 @@ func getBit(t CIPType, v any, bitpos int) (bool, error) {
 		}
 	case CIPTypeSINT:
 		if bitpos >= 0 && bitpos < 8 {
-			x, ok := v.(byte)
+			x, ok := v.(int8)
 			if ok {
 				mask := byte(1 << bitpos)
-				masked := x & mask
+				masked := byte(x) & mask
 				return masked != 0, nil
 			}
 			err = fmt.Errorf("value was a SINT, but bit %d was requested. must be 0-7 for SINT", bitpos)
-- 
2.43.0


From 071b96991e5036c995679fa0bd322471a334c656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:39 +0000
Subject: [PATCH 014/107] fix: a bit outside the type's width is an error

---
 read.go  | 3 +--
 types.go | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/read.go b/read.go
index fb34a81..5791f2f 100644
--- a/read.go
+++ b/read.go
@@ -952,8 +952,7 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 				}
 				val, err := getBit(rHdr.Type, value, iois[i].BitPosition)
 				if err != nil {
-					client.Logger.Warn("problem reading value for this guy")
-					continue
+					return nil, fmt.Errorf("problem reading tag %v: %w", tags[i], err)
 				}
 				result_values[i] = val
 			} else if tags[i].TagType == CIPTypeSTRING {
diff --git a/types.go b/types.go
index 812dfdf..f1f4d98 100644
--- a/types.go
+++ b/types.go
@@ -448,5 +448,5 @@ func getBit(t CIPType, v any, bitpos int) (bool, error) {
 	if err != nil {
 		return false, err
 	}
-	return false, err
+	return false, fmt.Errorf("bit %d is not available in a %v", bitpos, t)
 }
-- 
2.43.0


From a65d811629bcc509a48b3c8e6b955d107bbfc4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:42 +0000
Subject: [PATCH 015/107] fix: a bit path never yields the whole word

---
 read.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/read.go b/read.go
index 5791f2f..ed4851c 100644
--- a/read.go
+++ b/read.go
@@ -480,6 +480,18 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 		return nil, fmt.Errorf("read of %s returned status %v", tag, CIPStatus(hdr2.Status[1]))
 	}
 
+	if ioi.BitAccess {
+		// the reply carries the whole word and the path names one of its bits.
+		if elements != 1 {
+			return nil, fmt.Errorf("cannot read %d elements of a single bit %s", elements, tag)
+		}
+		value, err := readValue(hdr2.Type, &items[1])
+		if err != nil {
+			return nil, fmt.Errorf("problem reading bit of tag %s: %w", tag, err)
+		}
+		return getBit(hdr2.Type, value, ioi.BitPosition)
+	}
+
 	if hdr2.Type == CIPTypeStruct {
 		if datatype == CIPTypeSTRING {
 			if elements == 1 {
@@ -521,14 +533,6 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 		return str, nil
 	}
 	if elements == 1 {
-		if datatype == CIPTypeBOOL && hdr2.Type != CIPTypeBOOL && ioi.BitAccess {
-			// we have requested a bool from some other type.  Maybe a bit access?
-			value, err := readValue(hdr2.Type, &items[1])
-			if err != nil {
-				return nil, fmt.Errorf("problem reading bool tag %s: %w", tag, err)
-			}
-			return getBit(hdr2.Type, value, ioi.BitPosition)
-		}
 		// not a struct so we can read the value directly
 		value, err := readValue(hdr2.Type, &items[1])
 		if err != nil {
@@ -943,9 +947,12 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 		if rHdr.Status != uint16(CIPStatus_OK) {
 			return nil, fmt.Errorf("problem reading %v. Status %v", tags[i], rHdr.Status)
 		}
+		if iois[i].BitAccess && tags[i].Elements != 1 {
+			return nil, fmt.Errorf("cannot read %d elements of a single bit %v", tags[i].Elements, tags[i].TagName)
+		}
 		if tags[i].Elements == 1 {
-			if tags[i].TagType == CIPTypeBOOL && rHdr.Type != CIPTypeBOOL && iois[i].BitAccess {
-				// we have requested a bool from some other type.  Maybe a bit access?
+			if iois[i].BitAccess {
+				// the reply carries the whole word and the path names one of its bits.
 				value, err := readValue(rHdr.Type, myBytes)
 				if err != nil {
 					return nil, fmt.Errorf("problem reading tag %v: %w", tags[i], err)
-- 
2.43.0


From d03b2a24c6f1502e5e644bf284779943ca1c0e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:41 +0000
Subject: [PATCH 016/107] fix: split multi-tag reads by what the request and
 the reply really take

---
 partialread.go | 51 +++++++++++++++++++++++++++++++++++++++-----------
 read.go        | 43 ++++--------------------------------------
 2 files changed, 44 insertions(+), 50 deletions(-)

diff --git a/partialread.go b/partialread.go
index 3d923f7..41e34eb 100644
--- a/partialread.go
+++ b/partialread.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 // ReadList reads multiple tags with explicitly specified types and element counts in a single efficient request.
@@ -51,13 +52,7 @@ func (client *Client) ReadList(tagnames []string, types []any, elements []int) (
 	if err != nil {
 		return nil, fmt.Errorf("could not start list read: %w", err)
 	}
-	n := 0
-	n_new := 0
-	total := len(tagnames)
-	results := make([]any, 0, total)
-	msgs := 0
-
-	tags := make([]tagDesc, total)
+	tags := make([]tagDesc, len(tagnames))
 
 	for i := range tagnames {
 		typ, _ := GoVarToCIPType(types[i])
@@ -69,9 +64,19 @@ func (client *Client) ReadList(tagnames []string, types []any, elements []int) (
 		}
 	}
 
+	return client.readSplitList(tags)
+}
+
+// readSplitList reads the tags in as many messages as the connection size requires.
+func (client *Client) readSplitList(tags []tagDesc) ([]any, error) {
+	n := 0
+	msgs := 0
+	total := len(tags)
+	results := make([]any, 0, total)
+
 	for n < total {
 		msgs += 1
-		n_new, err = client.countIOIsThatFit(tags[n:])
+		n_new, err := client.countIOIsThatFit(tags[n:])
 		if err != nil {
 			return nil, err
 		}
@@ -112,7 +117,8 @@ func (client *Client) countIOIsThatFit(tags []tagDesc) (int, error) {
 	// how many ioi's fit in the message
 	n := 1
 
-	response_size := 0
+	// sequence count, reply header and reply count
+	response_size := 8
 
 	for i, tag := range tags {
 		ioi, err := client.newIOI(tag.TagName, tag.TagType)
@@ -132,12 +138,12 @@ func (client *Client) countIOIsThatFit(tags []tagDesc) (int, error) {
 
 		// Calculate the size of the data once we add this ioi to the list.
 		newSize := mainhdr_size                                // length of the multi-read header
-		newSize += 2 * n                                       // add in the jump table
+		newSize += 2 * (i + 1)                                 // add in the jump table
 		newSize += b.Len()                                     // everything we have so far
 		newSize += ioihdr_size + len(ioi.Buffer) + ioiftr_size // the new ioi data
 		//newSize += 4                                           // Fudge for alignment if needed
 
-		response_size += tags[i].TagType.Size() * tags[i].Elements
+		response_size += multiReplySize(tag, ioi)
 		if newSize >= int(client.ConnectionSize) || response_size >= int(client.ConnectionSize) {
 			// break before adding this ioi to the list since it will push us over.
 			// we'll continue with n iois (n only increments after an IOI is added)
@@ -162,3 +168,26 @@ func (client *Client) countIOIsThatFit(tags []tagDesc) (int, error) {
 	return n, nil
 
 }
+
+// multiReplySize is how much of a multi service reply the answer for one tag takes.
+func multiReplySize(tag tagDesc, ioi *tagIOI) int {
+	// offset table entry, service reply header and data type.
+	const overhead = 2 + 4 + 2
+	switch {
+	case ioi.BitAccess:
+		// the reply has the whole word, which could be a LWORD
+		return overhead + 8
+	case tag.TagType == CIPTypeSTRING:
+		// structure handle and an 88 byte structure per element
+		return overhead + 2 + 88*tag.Elements
+	case tag.TagType == CIPTypeStruct:
+		size, err := Pack(io.Discard, tag.Struct)
+		if err != nil {
+			size = tag.TagType.Size()
+		}
+		return overhead + 2 + size*tag.Elements
+	case tag.TagType == CIPTypeUnknown:
+		return overhead + 8
+	}
+	return overhead + tag.TagType.Size()*tag.Elements
+}
diff --git a/read.go b/read.go
index ed4851c..1d32abd 100644
--- a/read.go
+++ b/read.go
@@ -751,7 +751,7 @@ func (client *Client) ReadMulti(tag_str any, args ...any) error {
 		})
 	}
 
-	result_values, err := client.readList(taglist)
+	result_values, err := client.readSplitList(taglist)
 	if err != nil {
 		return fmt.Errorf("problem in read list: %w", err)
 	}
@@ -833,26 +833,6 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 		if err != nil {
 			return nil, fmt.Errorf("problem writing ioi buffer to msg buffer. %w", err)
 		}
-
-		totalMsgSize := b.Len() + SizeOf(h) + SizeOf(f) + 2 // 2 for the jump table entry
-		// TODO: calculate the actual message size, not just the IOI data size.
-		// TODO: We also need to calculate the response size we expect from the PLC and split
-		//       into multiple messages on that also.
-		if totalMsgSize > int(client.ConnectionSize) {
-			first_part := tags[:i]
-			rest := tags[i:]
-
-			results0, err := client.readList(first_part)
-			if err != nil {
-				return nil, fmt.Errorf("problem reading first part of tags: %w", err)
-			}
-			results1, err := client.readList(rest)
-			if err != nil {
-				return nil, fmt.Errorf("problem reading second part of tags: %w", err)
-			}
-			return append(results0, results1...), nil
-
-		}
 	}
 
 	// right now I'm putting the IOI data into the cip Item, but I suspect it might actually be that the read sequencer is
@@ -1141,24 +1121,9 @@ func (client *Client) ReadMap(m map[string]any) error {
 		indexes[i] = k
 		i++
 	}
-	result_values := make([]any, 0, total)
-
-	n := 0
-	msgs := 0
-	n_new := 0
-	for n < total {
-		msgs += 1
-		n_new, err = client.countIOIsThatFit(tags[n:])
-		if err != nil {
-			return err
-		}
-		subResults, err := client.readList(tags[n : n+n_new])
-		n += n_new
-		if err != nil {
-			return err
-		}
-		result_values = append(result_values, subResults...)
-
+	result_values, err := client.readSplitList(tags)
+	if err != nil {
+		return err
 	}
 
 	// now unpack the result values back into the given structure
-- 
2.43.0


From f12e7437913ae1904d6f1d396d6b500578407cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 017/107] fix: multi-tag reads decode structures with their
 alignment

---
 read.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/read.go b/read.go
index 1d32abd..fce09ab 100644
--- a/read.go
+++ b/read.go
@@ -967,7 +967,7 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 					continue
 				}
 				x := reflect.New(reflect.TypeOf(tags[i].Struct)).Interface()
-				err = binary.Read(myBytes, binary.LittleEndian, x)
+				_, err = Unpack(myBytes, x)
 				if err != nil {
 					return nil, fmt.Errorf("couldn't unpack struct data. %w", err)
 				}
-- 
2.43.0


From 5ba9dd19a1e31e8dd37097f00cc82d42ac1c0df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:25 +0000
Subject: [PATCH 018/107] fix: multi-tag reads reject structures read as
 numbers and numbers read as strings

---
 read.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/read.go b/read.go
index fce09ab..eb75945 100644
--- a/read.go
+++ b/read.go
@@ -930,6 +930,15 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 		if iois[i].BitAccess && tags[i].Elements != 1 {
 			return nil, fmt.Errorf("cannot read %d elements of a single bit %v", tags[i].Elements, tags[i].TagName)
 		}
+		if rHdr.Type != CIPTypeStruct && tags[i].TagType == CIPTypeSTRING {
+			return nil, fmt.Errorf("tag %v is a %v, not a string", tags[i].TagName, rHdr.Type)
+		}
+		if rHdr.Type == CIPTypeStruct && tags[i].TagType != CIPTypeSTRING && tags[i].Struct != nil {
+			kind := reflect.TypeOf(tags[i].Struct).Kind()
+			if kind != reflect.Struct && kind != reflect.Array {
+				return nil, fmt.Errorf("tag %v is a structure and cannot be read into a %T", tags[i].TagName, tags[i].Struct)
+			}
+		}
 		if tags[i].Elements == 1 {
 			if iois[i].BitAccess {
 				// the reply carries the whole word and the path names one of its bits.
-- 
2.43.0


From 34ba40dbeef474bbc750aa7debe4227c5c0ea213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:27 +0000
Subject: [PATCH 019/107] fix: ReadMulti fills every field of repeated tags and
 embedded structs

---
 read.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/read.go b/read.go
index eb75945..1fba003 100644
--- a/read.go
+++ b/read.go
@@ -727,8 +727,7 @@ func (client *Client) ReadMulti(tag_str any, args ...any) error {
 	T := reflect.TypeOf(tag_str).Elem()
 	vf := reflect.VisibleFields(T)
 	taglist := make([]tagDesc, 0, len(vf))
-	tags := make([]string, 0)
-	tag_map := make(map[string]int)
+	fields := make([][]int, 0, len(vf))
 	val := reflect.ValueOf(tag_str).Elem()
 	for i := range vf {
 		field := vf[i]
@@ -739,10 +738,9 @@ func (client *Client) ReadMulti(tag_str any, args ...any) error {
 		if args != nil {
 			tagPath = formatName(tagPath, args...)
 		}
-		v := val.Field(i).Interface()
+		v := val.FieldByIndex(field.Index).Interface()
 		t, elem := GoVarToCIPType(v)
-		tags = append(tags, tagPath)
-		tag_map[tagPath] = i
+		fields = append(fields, field.Index)
 		taglist = append(taglist, tagDesc{
 			TagName:  tagPath,
 			TagType:  t,
@@ -757,14 +755,10 @@ func (client *Client) ReadMulti(tag_str any, args ...any) error {
 	}
 
 	// now unpack the result values back into the given structure
-	for i, tag := range tags {
-		fieldNo := tag_map[tag]
+	for i, index := range fields {
+		fieldVal := val.FieldByIndex(index)
 		val := result_values[i]
 
-		v := reflect.ValueOf(&tag_str).Elem().Elem().Elem()
-
-		fieldVal := v.Field(fieldNo)
-
 		if fieldVal.Type().Kind() != reflect.Slice {
 			fieldVal.Set(reflect.ValueOf(val))
 		} else {
-- 
2.43.0


From a26b43bebfeb21d1127301b9153eb9af189318e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:30 +0000
Subject: [PATCH 020/107] fix: multi-tag reads of one element slices and of
 unexpected types

---
 read.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/read.go b/read.go
index 1fba003..2507f12 100644
--- a/read.go
+++ b/read.go
@@ -760,11 +760,23 @@ func (client *Client) ReadMulti(tag_str any, args ...any) error {
 		val := result_values[i]
 
 		if fieldVal.Type().Kind() != reflect.Slice {
-			fieldVal.Set(reflect.ValueOf(val))
+			rv := reflect.ValueOf(val)
+			if !rv.IsValid() || !rv.Type().AssignableTo(fieldVal.Type()) {
+				return fmt.Errorf("tag %v is a %T, not a %v", taglist[i].TagName, val, fieldVal.Type())
+			}
+			fieldVal.Set(rv)
 		} else {
 			l := fieldVal.Len()
+			elements, ok := val.([]any)
+			if !ok || len(elements) != l {
+				return fmt.Errorf("tag %v is a %T and does not fill a %v of %d", taglist[i].TagName, val, fieldVal.Type(), l)
+			}
 			for j := 0; j < l; j++ {
-				fieldVal.Index(j).Set(reflect.ValueOf(val).Index(j).Elem())
+				rv := reflect.ValueOf(elements[j])
+				if !rv.IsValid() || !rv.Type().AssignableTo(fieldVal.Type().Elem()) {
+					return fmt.Errorf("tag %v has %T elements, not %v", taglist[i].TagName, elements[j], fieldVal.Type().Elem())
+				}
+				fieldVal.Index(j).Set(rv)
 			}
 		}
 	}
@@ -983,6 +995,10 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 					return nil, fmt.Errorf("problem reading tag %v: %w", tags[i], err)
 				}
 			}
+			if tags[i].Struct != nil && reflect.TypeOf(tags[i].Struct).Kind() == reflect.Slice {
+				// a slice of one element is still a slice.
+				result_values[i] = []any{result_values[i]}
+			}
 
 		} else if tags[i].TagType == CIPTypeSTRING {
 			// multi-element STRING array. Each element is a fixed 88-byte slot
-- 
2.43.0


From e2b0975864ac518a27502591b55899a99ae6719b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:34 +0000
Subject: [PATCH 021/107] fix: TypeEncode starts a new host byte for bools that
 follow an array

---
 pack.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pack.go b/pack.go
index 3751730..ed9b8b8 100644
--- a/pack.go
+++ b/pack.go
@@ -481,10 +481,14 @@ func TypeEncode(data any) (string, uint16, error) {
 			// we have an array without "nopack".  Check if it is a bool array
 			arr := refVal.Field(i)
 			var at string
+			if arr.Type().Elem().Kind() != reflect.Bool {
+				// the array starts a new member, so bools after it start a new byte.
+				bitpos = 0
+			}
 			if arr.Type().Elem().Kind() != reflect.Struct {
 				at, _ = goTypeToLogixTypeName(field.Type.Elem())
 			} else {
-				at, _, _ = TypeEncode(arr.Index(0).Interface())
+				at, _, _ = TypeEncode(reflect.Zero(arr.Type().Elem()).Interface())
 			}
 			encoded += fmt.Sprintf(",%s[%d]", at, arr.Len())
 			continue
-- 
2.43.0


From 71ed26dd25f78d23e904739fd85dd1d5e37dea46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:46 +0000
Subject: [PATCH 022/107] fix: WriteMulti writes array fields and skips
 untagged ones

---
 udt_write.go | 64 +++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 56 insertions(+), 8 deletions(-)

diff --git a/udt_write.go b/udt_write.go
index 593cdb1..63e1fd2 100644
--- a/udt_write.go
+++ b/udt_write.go
@@ -9,18 +9,41 @@ import (
 
 // convert tagged struct to a map in the format of {"fieldTag": fieldvalue}
 func multi_to_dict(data any) (map[string]interface{}, error) {
-	//TODO: handle nested structs and arrays
 	// convert the struct to a dict of FieldName: FieldValue
+	return multi_to_dict_value(reflect.ValueOf(data))
+}
+
+func multi_to_dict_value(vs reflect.Value) (map[string]interface{}, error) {
 	d := make(map[string]interface{})
 
-	vs := reflect.ValueOf(data)
-	fs := reflect.TypeOf(data)
+	fs := vs.Type()
 	for i := 0; i < vs.NumField(); i++ {
 		v := vs.Field(i)
 		f := fs.Field(i)
 		fulltag := f.Tag.Get("gologix")
+		if fulltag == "" {
+			if f.Anonymous && v.Kind() == reflect.Struct {
+				// the tagged fields of an embedded struct count as our own.
+				d2, err := multi_to_dict_value(v)
+				if err != nil {
+					return nil, err
+				}
+				for k := range d2 {
+					d[k] = d2[k]
+				}
+			}
+			continue
+		}
+		v, err := writable_field(f, v)
+		if err != nil {
+			return nil, err
+		}
 		switch v.Kind() {
 		case reflect.Struct:
+			if _, ok := v.Interface().(KnownType); ok {
+				d[fulltag] = v.Interface()
+				continue
+			}
 			d2, err := udt_to_dict(fulltag, v.Interface())
 			if err != nil {
 				return nil, fmt.Errorf("problem parsing %s. %w", fulltag, err)
@@ -29,7 +52,7 @@ func multi_to_dict(data any) (map[string]interface{}, error) {
 				d[k] = d2[k]
 			}
 		case reflect.Array:
-			//TODO
+			d[fulltag] = array_to_slice(v)
 		default:
 			d[fulltag] = v.Interface()
 		}
@@ -40,9 +63,29 @@ func multi_to_dict(data any) (map[string]interface{}, error) {
 
 }
 
+// check that a field can be written and follow it if it is a pointer.
+func writable_field(f reflect.StructField, v reflect.Value) (reflect.Value, error) {
+	if !f.IsExported() {
+		return v, fmt.Errorf("field %s is not exported", f.Name)
+	}
+	if v.Kind() == reflect.Pointer {
+		if v.IsNil() {
+			return v, fmt.Errorf("field %s is nil", f.Name)
+		}
+		v = v.Elem()
+	}
+	return v, nil
+}
+
+// arrays are written like slices of the same elements.
+func array_to_slice(v reflect.Value) any {
+	s := reflect.MakeSlice(reflect.SliceOf(v.Type().Elem()), v.Len(), v.Len())
+	reflect.Copy(s, v)
+	return s.Interface()
+}
+
 // convert a struct to a map in the format of {"tag.fieldName": fieldvalue}
 func udt_to_dict(tag string, data any) (map[string]interface{}, error) {
-	//TODO: handle nested structs and arrays
 	// convert the struct to a dict of FieldName: FieldValue
 	d := make(map[string]interface{})
 
@@ -52,11 +95,16 @@ func udt_to_dict(tag string, data any) (map[string]interface{}, error) {
 		v := vs.Field(i)
 		f := fs.Field(i)
 		fulltag := fmt.Sprintf("%s.%s", tag, f.Name)
-		switch v.Kind() {
-
+		v, err := writable_field(f, v)
+		if err != nil {
+			return nil, err
 		}
 		switch v.Kind() {
 		case reflect.Struct:
+			if _, ok := v.Interface().(KnownType); ok {
+				d[fulltag] = v.Interface()
+				continue
+			}
 			d2, err := udt_to_dict(fulltag, v.Interface())
 			if err != nil {
 				return nil, fmt.Errorf("problem parsing %s. %w", fulltag, err)
@@ -65,7 +113,7 @@ func udt_to_dict(tag string, data any) (map[string]interface{}, error) {
 				d[k] = d2[k]
 			}
 		case reflect.Array:
-			//TODO
+			d[fulltag] = array_to_slice(v)
 		default:
 			d[fulltag] = v.Interface()
 		}
-- 
2.43.0


From 07d0b28e9562128b36a5a57880c844bbdef17fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:11 +0000
Subject: [PATCH 023/107] fix: WriteMap and Write check what they send and what
 comes back

---
 udt_write.go | 144 ++++++++++++++++++++----------
 write.go     | 242 +++++++++++++++++++++++++--------------------------
 2 files changed, 218 insertions(+), 168 deletions(-)

diff --git a/udt_write.go b/udt_write.go
index 63e1fd2..5ac9d7b 100644
--- a/udt_write.go
+++ b/udt_write.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"reflect"
+	"sort"
 )
 
 // convert tagged struct to a map in the format of {"fieldTag": fieldvalue}
@@ -174,25 +175,54 @@ func udt_to_dict(tag string, data any) (map[string]interface{}, error) {
 // or any tags are read-only.
 func (client *Client) WriteMap(tag_str map[string]interface{}) error {
 
-	// build the tag list from the structure
-	tags := make([]string, 0)
-	types := make([]CIPType, 0)
+	err := client.checkConnection()
+	if err != nil {
+		return fmt.Errorf("could not start map write: %w", err)
+	}
+
+	tags := make([]string, 0, len(tag_str))
 	for k := range tag_str {
-		ct, _ := GoVarToCIPType(tag_str[k])
-		types = append(types, ct)
 		tags = append(tags, k)
 	}
+	sort.Strings(tags)
 
-	// first generate IOIs for each tag
-	qty := len(tags)
-	iois := make([]*tagIOI, qty)
+	// first generate the write request of each tag.
+	reqs := make([][]byte, len(tags))
 	for i, tag := range tags {
-		var err error
-		iois[i], err = client.newIOI(tag, types[i])
+		reqs[i], err = client.newWriteRequest(tag, tag_str[tag])
+		if err != nil {
+			return err
+		}
+		if n := multiWriteOverhead + 2 + len(reqs[i]); n > int(client.ConnectionSize) {
+			return fmt.Errorf("writing %s takes a %d byte request, the connection only carries %d bytes", tag, n, client.ConnectionSize)
+		}
+	}
+
+	// then send as many of them at a time as the connection carries.
+	for len(reqs) > 0 {
+		qty := 0
+		size := multiWriteOverhead
+		for qty < len(reqs) && size+2+len(reqs[qty]) <= int(client.ConnectionSize) {
+			size += 2 + len(reqs[qty])
+			qty++
+		}
+		err = client.writeList(tags[:qty], reqs[:qty])
 		if err != nil {
 			return err
 		}
+		tags = tags[qty:]
+		reqs = reqs[qty:]
 	}
+	return nil
+}
+
+// size of a multiple service request without its offsets and embedded requests: the sequence count
+// and header (see msgCIPConnectedMultiServiceReq)
+const multiWriteOverhead = 10
+
+// send the write requests for a number of tags in one message and check that all of them worked.
+func (client *Client) writeList(tags []string, reqs [][]byte) error {
+	qty := len(tags)
 
 	reqitems := make([]CIPItem, 2)
 	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
@@ -212,39 +242,7 @@ func (client *Client) WriteMap(tag_str map[string]interface{}) error {
 	jump_start := 2 + qty*2 // 2 bytes + 2 bytes per jump entry
 	for i := 0; i < qty; i++ {
 		jump_table[i] = uint16(jump_start + b.Len())
-		ioi := iois[i]
-		h := msgCIPMultiIOIHeader{
-			Service: CIPService_Write,
-			Size:    byte(len(ioi.Buffer) / 2),
-		}
-		f := msgCIPWriteIOIFooter{
-			DataType: uint16(types[i]),
-			Elements: 1,
-		}
-		//f := msgCIPIOIFooter{
-		//Elements: 1,
-		//}
-		err := binary.Write(&b, binary.LittleEndian, h)
-		if err != nil {
-			return fmt.Errorf("problem writing udt item header to buffer. %w", err)
-		}
-		b.Write(ioi.Buffer)
-		ftr_buf, err := Serialize(f)
-		if err != nil {
-			return fmt.Errorf("problem serializing footer for item %d: %w", i, err)
-		}
-		err = binary.Write(&b, binary.LittleEndian, ftr_buf.Bytes())
-		if err != nil {
-			return fmt.Errorf("problem writing udt item footer to buffer. %w", err)
-		}
-		item_buf, err := Serialize(tag_str[tags[i]])
-		if err != nil {
-			return fmt.Errorf("problem serializing %v: %w", tags[i], err)
-		}
-		err = binary.Write(&b, binary.LittleEndian, item_buf.Bytes())
-		if err != nil {
-			return fmt.Errorf("problem writing udt tag name to buffer. %w", err)
-		}
+		b.Write(reqs[i])
 	}
 
 	// right now I'm putting the IOI data into the cip Item, but I suspect it might actually be that the readsequencer is
@@ -264,9 +262,63 @@ func (client *Client) WriteMap(tag_str map[string]interface{}) error {
 	if err != nil {
 		return err
 	}
-	_ = hdr
-	_ = data
-	//TODO: do something with the result here!
+	if hdr.Status != 0 {
+		return fmt.Errorf("got non-success status %d when writing", hdr.Status)
+	}
+	result_header := msgCIPResultHeader{}
+	err = binary.Read(data, binary.LittleEndian, &result_header)
+	if err != nil {
+		return fmt.Errorf("problem reading write result header. %w", err)
+	}
+	items, err := readItems(data)
+	if err != nil {
+		return fmt.Errorf("problem reading items from write, %w", err)
+	}
+	if len(items) != 2 {
+		return fmt.Errorf("wrong number of items. Expected 2 but got %v", len(items))
+	}
+	var reply_hdr msgWriteResultHeader
+	err = items[1].DeSerialize(&reply_hdr)
+	if err != nil {
+		return fmt.Errorf("problem deserializing write response header, %w", err)
+	}
+	if reply_hdr.Status != CIPStatus_OK && reply_hdr.Status != CIPStatus_EmbeddedServiceError {
+		return fmt.Errorf("writing %d tags returned status %v", qty, reply_hdr.Status)
+	}
+	_, err = items[1].Read(make([]byte, 2*int(reply_hdr.StatusExtended)))
+	if reply_hdr.StatusExtended > 0 && err != nil {
+		return fmt.Errorf("problem reading extended status of write response, %w", err)
+	}
+
+	// every embedded write has its own reply.
+	rest := items[1].Rest()
+	offsets := make([]uint16, 1+qty)
+	err = binary.Read(&items[1], binary.LittleEndian, &offsets)
+	if err != nil {
+		return fmt.Errorf("problem reading write response offsets, %w", err)
+	}
+	if int(offsets[0]) != qty {
+		return fmt.Errorf("wrote %d tags but got %d replies", qty, offsets[0])
+	}
+	for i, offset := range offsets[1:] {
+		if int(offset)+4 > len(rest) {
+			return fmt.Errorf("reply for tag %s is incomplete", tags[i])
+		}
+		reply := rest[offset:]
+		if CIPService(reply[0]) != CIPService_Write.AsResponse() {
+			return fmt.Errorf("reply for tag %s has service %v", tags[i], CIPService(reply[0]))
+		}
+		if status := CIPStatus(reply[2]); status != CIPStatus_OK {
+			extended := uint16(0)
+			if reply[3] > 0 && len(reply) >= 6 {
+				extended = binary.LittleEndian.Uint16(reply[4:])
+			}
+			return fmt.Errorf("problem writing %s. Status %v, extended status %#x", tags[i], status, extended)
+		}
+	}
+	if reply_hdr.Status != CIPStatus_OK {
+		return fmt.Errorf("writing %d tags returned status %v", qty, reply_hdr.Status)
+	}
 
 	return nil
 }
diff --git a/write.go b/write.go
index 72d2f70..c1c14ac 100644
--- a/write.go
+++ b/write.go
@@ -1,7 +1,6 @@
 package gologix
 
 import (
-	"bytes"
 	"encoding/binary"
 	"fmt"
 	"reflect"
@@ -103,77 +102,25 @@ func (client *Client) Write(tag string, value any) error {
 	if err != nil {
 		return fmt.Errorf("could not start write: %w", err)
 	}
-	v := reflect.ValueOf(value)
-	if v.Kind() == reflect.Struct {
-		return client.write_udt(tag, value)
-	}
 	return client.write_single(tag, value)
 }
 
-// write a single UDT struct to a tag.  The UDT *must* be named the same as the struct type and have the same field types.
-// field names don't matter but type names do.  go types will be converted to CIP types as appropriate, but any nested structs
-// must be named the same as the UDT on the plc.
-func (client *Client) write_udt(tag string, value any) error {
-	//service = 0x4D // cipService_Write
-	datatype := CIPTypeStruct
-	ioi, err := client.newIOI(tag, datatype)
-	if err != nil {
-		return fmt.Errorf("problem generating IOI. %w", err)
-	}
-	elements := uint16(1)
-
-	ioi_header := msgCIPIOIHeader{
-		Sequence: uint16(sequencer()),
-		Service:  CIPService_Write,
-		Size:     byte(len(ioi.Buffer) / 2),
-	}
-
-	_, typecrc, err := TypeEncode(value)
+// write a single value to a single tag.
+func (client *Client) write_single(tag string, value any) error {
+	req, err := client.newWriteRequest(tag, value)
 	if err != nil {
-		return fmt.Errorf("problem encoding type. %w", err)
+		return err
 	}
-
-	UDTdata := bytes.NewBuffer([]byte{})
-
-	_, err = Pack(UDTdata, value)
-	if err != nil {
-		return fmt.Errorf("problem packing data. %w", err)
+	if 2+len(req) > int(client.ConnectionSize) {
+		return fmt.Errorf("writing %s takes a %d byte request, the connection only carries %d bytes", tag, 2+len(req), client.ConnectionSize)
 	}
 
 	reqitems := make([]CIPItem, 2)
 	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
 	reqitems[1] = CIPItem{Header: cipItemHeader{ID: cipItem_ConnectedData}}
-	err = reqitems[1].Serialize(ioi_header)
-	if err != nil {
-		return fmt.Errorf("problem serializing ioi header. %w", err)
-	}
-	err = reqitems[1].Serialize(ioi.Buffer)
-	if err != nil {
-		return fmt.Errorf("problem serializing ioi buffer. %w", err)
-	}
-	err = reqitems[1].Serialize(datatype)
-	if err != nil {
-		return fmt.Errorf("problem serializing datatype. %w", err)
-	}
-
-	err = reqitems[1].Serialize(byte(2))
+	err = reqitems[1].Serialize(uint16(sequencer()), req)
 	if err != nil {
-		return fmt.Errorf("problem serializing number of elements. %w", err)
-	}
-
-	err = reqitems[1].Serialize(typecrc)
-	if err != nil {
-		return fmt.Errorf("problem serializing type crc. %w", err)
-	}
-
-	err = reqitems[1].Serialize(elements)
-	if err != nil {
-		return fmt.Errorf("problem serializing elements. %w", err)
-	}
-
-	err = reqitems[1].Serialize(UDTdata)
-	if err != nil {
-		return fmt.Errorf("problem serializing UDT data. %w", err)
+		return fmt.Errorf("problem serializing request. %w", err)
 	}
 
 	itemdata, err := serializeItems(reqitems)
@@ -196,6 +143,9 @@ func (client *Client) write_udt(tag string, value any) error {
 	if err != nil {
 		return fmt.Errorf("problem reading items from write, %w", err)
 	}
+	if len(items) != 2 {
+		return fmt.Errorf("wrong number of items. Expected 2 but got %v", len(items))
+	}
 	var hdr2 msgWriteResultHeader
 	err = items[1].DeSerialize(&hdr2)
 	if err != nil {
@@ -217,93 +167,141 @@ func (client *Client) write_udt(tag string, value any) error {
 	return err
 }
 
-// write a single value to a single tag.
-func (client *Client) write_single(tag string, value any) error {
-	//service = 0x4D // cipService_Write
-	datatype, _ := GoVarToCIPType(value)
-	ioi, err := client.newIOI(tag, datatype)
-	if err != nil {
-		return fmt.Errorf("problem generating IOI. %w", err)
-	}
-	elements := uint16(1)
-
+// newWriteRequest makes the request that writes value to tag: service, path, type, element count and data.
+//
+// A struct (or every struct of a slice) must be named the same as the UDT on the plc and have the same field types.
+// field names don't matter but type names do.  go types will be converted to CIP types as appropriate, but any nested structs
+// must be named the same as the UDT on the plc.
+func (client *Client) newWriteRequest(tag string, value any) ([]byte, error) {
 	v := reflect.ValueOf(value)
-	if v.Kind() == reflect.Slice {
-		elements = uint16(v.Len())
+	if v.Kind() == reflect.Pointer {
+		v = v.Elem()
 	}
+	if !v.IsValid() {
+		return nil, fmt.Errorf("cannot write %T to %s: no value", value, tag)
+	}
+	value = v.Interface()
 
-	ioi_header := msgCIPIOIHeader{
-		Sequence: uint16(sequencer()),
-		Service:  CIPService_Write,
-		Size:     byte(len(ioi.Buffer) / 2),
+	elements := 1
+	elemType := v.Type()
+	if v.Kind() == reflect.Slice {
+		elements = v.Len()
+		elemType = elemType.Elem()
 	}
-	ioi_footer := msgCIPWriteIOIFooter{
-		DataType: uint16(datatype),
-		Elements: elements,
+	if elements > 65535 {
+		return nil, fmt.Errorf("cannot write %d elements to %s: at most 65535 elements fit in a request", elements, tag)
 	}
 
-	reqitems := make([]CIPItem, 2)
-	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
-	reqitems[1] = CIPItem{Header: cipItemHeader{ID: cipItem_ConnectedData}}
-	err = reqitems[1].Serialize(ioi_header)
+	datatype, _ := GoVarToCIPType(value)
+	ioi, err := client.newIOI(tag, datatype)
 	if err != nil {
-		return fmt.Errorf("problem serializing ioi header. %w", err)
+		return nil, fmt.Errorf("problem generating IOI. %w", err)
 	}
-
-	err = reqitems[1].Serialize(ioi.Buffer)
-	if err != nil {
-		return fmt.Errorf("problem serializing ioi buffer. %w", err)
+	if ioi.BitAccess {
+		return nil, fmt.Errorf("cannot write %s: writing a single bit of a word is not supported", tag)
 	}
 
-	err = reqitems[1].Serialize(ioi_footer)
+	req := CIPItem{}
+	err = req.Serialize(msgCIPMultiIOIHeader{
+		Service: CIPService_Write,
+		Size:    byte(len(ioi.Buffer) / 2),
+	}, ioi.Buffer)
 	if err != nil {
-		return fmt.Errorf("problem serializing ioi footer. %w", err)
+		return nil, fmt.Errorf("problem serializing ioi. %w", err)
 	}
 
-	err = reqitems[1].Serialize(value)
-	if err != nil {
-		return fmt.Errorf("problem serializing value. %w", err)
+	if datatype != CIPTypeStruct {
+		err = checkStringLengths(value)
+		if err != nil {
+			return nil, fmt.Errorf("cannot write %s: %w", tag, err)
+		}
+		err = req.Serialize(msgCIPWriteIOIFooter{DataType: uint16(datatype), Elements: uint16(elements)}, value)
+		if err != nil {
+			return nil, fmt.Errorf("problem serializing value. %w", err)
+		}
+		return req.Data, nil
 	}
 
-	itemdata, err := serializeItems(reqitems)
-	if err != nil {
-		return err
+	if elemType.Kind() != reflect.Struct {
+		return nil, fmt.Errorf("cannot write a %T to %s", value, tag)
 	}
-	hdr, data, err := client.send_recv_data(cipCommandSendUnitData, itemdata)
+	err = checkPackable(elemType)
 	if err != nil {
-		return err
-	}
-	if hdr.Status != 0 {
-		return fmt.Errorf("got non-success status %d when writing", hdr.Status)
+		return nil, fmt.Errorf("cannot write a %T to %s: %w", value, tag, err)
 	}
-	read_result_header := msgCIPResultHeader{}
-	err = binary.Read(data, binary.LittleEndian, &read_result_header)
+	_, typecrc, err := TypeEncode(reflect.Zero(elemType).Interface())
 	if err != nil {
-		client.Logger.Warn("Problem reading read result header", "error", err)
+		return nil, fmt.Errorf("problem encoding type. %w", err)
 	}
-	items, err := readItems(data)
+	err = req.Serialize(CIPTypeStruct, byte(2), typecrc, uint16(elements))
 	if err != nil {
-		return fmt.Errorf("problem reading items from write, %w", err)
+		return nil, fmt.Errorf("problem serializing type and number of elements. %w", err)
 	}
-	var hdr2 msgWriteResultHeader
-	err = items[1].DeSerialize(&hdr2)
-	if err != nil {
-		return fmt.Errorf("problem deserializing write response header, %w", err)
+	for i := 0; i < elements; i++ {
+		elem := v
+		if v.Kind() == reflect.Slice {
+			elem = v.Index(i)
+		}
+		n, err := Pack(&req, elem.Interface())
+		if err != nil {
+			return nil, fmt.Errorf("problem packing data. %w", err)
+		}
+		// structures take up whole 32 bit words in the controller (64 bit words if a member is that big).
+		align := cipPack{}.Align(elemType)
+		if align < 4 {
+			align = 4
+		}
+		if n%align != 0 {
+			err = req.Serialize(make([]byte, align-n%align))
+			if err != nil {
+				return nil, fmt.Errorf("problem padding data. %w", err)
+			}
+		}
 	}
-	if hdr2.Status != CIPStatus_OK {
-		extended := uint16(0)
-		if hdr2.StatusExtended == 1 {
-			err = items[1].DeSerialize(&extended)
-			return fmt.Errorf("got status %d:%d:%d instead of 0 in write response.  Problem getting extended status %w",
-				hdr2.Status,
-				hdr2.StatusExtended,
-				extended,
-				err)
+	return req.Data, nil
+}
 
+// checkStringLengths makes sure every string in value fits in a logix STRING.
+func checkStringLengths(value any) error {
+	strs, ok := value.([]string)
+	if s, isString := value.(string); isString {
+		strs, ok = []string{s}, true
+	}
+	if !ok {
+		return nil
+	}
+	for _, s := range strs {
+		if len(s) > 82 {
+			return fmt.Errorf("a STRING holds at most 82 characters, the value has %d", len(s))
 		}
-		return fmt.Errorf("got status %d:%d:%d instead of 0 in write response", hdr2.Status, hdr2.StatusExtended, extended)
 	}
-	return err
+	return nil
+}
+
+// checkPackable makes sure that Pack knows how to encode type t.
+func checkPackable(t reflect.Type) error {
+	if t.Implements(reflect.TypeOf((*Packable)(nil)).Elem()) || t.Implements(reflect.TypeOf((*Serializable)(nil)).Elem()) {
+		return nil
+	}
+	switch t.Kind() {
+	case reflect.Struct:
+		for i := 0; i < t.NumField(); i++ {
+			if !t.Field(i).IsExported() {
+				return fmt.Errorf("field %s of %v is not exported", t.Field(i).Name, t)
+			}
+			err := checkPackable(t.Field(i).Type)
+			if err != nil {
+				return err
+			}
+		}
+		return nil
+	case reflect.Array:
+		return checkPackable(t.Elem())
+	case reflect.Bool, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
+		reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64:
+		return nil
+	}
+	return fmt.Errorf("%v has no controller equivalent", t)
 }
 
 type msgWriteResultHeader struct {
-- 
2.43.0


From b3daf133aca6276b76831d00b24911773dffa67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:58 +0000
Subject: [PATCH 024/107] fix: server answers connected Get_Attribute_Single
 with its own service

---
 server_connected.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server_connected.go b/server_connected.go
index 4e500c9..878ea9b 100644
--- a/server_connected.go
+++ b/server_connected.go
@@ -584,6 +584,6 @@ func (h *serverTCPHandler) getAttrSingle(connection *serverConnection, item CIPI
 		return fmt.Errorf("bad attribute %d", attr)
 	}
 
-	return h.sendConnectedReply(CIPService_FragRead, seq, connection.TO, result)
+	return h.sendConnectedReply(CIPService_GetAttributeSingle, seq, connection.TO, result)
 
 }
-- 
2.43.0


From 736406b311bd0a17a6d5297852cb1168efb286b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:11 +0000
Subject: [PATCH 025/107] fix: server answers List Services with a List
 Services reply

---
 server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server.go b/server.go
index 43cd03e..9eddb47 100644
--- a/server.go
+++ b/server.go
@@ -960,10 +960,10 @@ func (h *serverTCPHandler) sendListServicesData(hdr eipHeader) error {
 	response := listServicesReply{
 		Count:    1,
 		TypeCode: 0x0100,
-		Length:   10,
+		Length:   20,
 		Version:  1,
 		CapFlags: ServiceCapabilityFlag_CipEncapsulation | ServiceCapabilityFlag_SupportsClass1UDP,
 		Name:     [16]byte{'C', 'o', 'm', 'm', 'u', 'n', 'i', 'c', 'a', 't', 'i', 'o', 'n', 's', ' ', ' '},
 	}
-	return h.send(cipCommandSendRRData, response)
+	return h.send(cipCommandListServices, response)
 }
-- 
2.43.0


From 091050afddcd625dbf680fdfa57f2d20d988cea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:12 +0000
Subject: [PATCH 026/107] fix: server answers forward close requests

---
 server.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/server.go b/server.go
index 9eddb47..0380eb6 100644
--- a/server.go
+++ b/server.go
@@ -553,15 +553,24 @@ func (h *serverTCPHandler) forwardClose(i CIPItem) error {
 	h.server.Logger.Info("Closing connection", "serial", fwd_close.ConnectionSerialNumber)
 	err = h.server.ConnMgr.CloseByID(fwd_close.ConnectionSerialNumber)
 	if err != nil {
-		return fmt.Errorf("couldn't close open connection with ID %v. %v", fwd_close.ConnectionSerialNumber, err)
+		h.server.Logger.Warn("couldn't close connection", "serial", fwd_close.ConnectionSerialNumber, "error", err)
+		return h.sendUnconnectedErrorReply(CIPService_ForwardClose, CIPStatus_ConnectionFailure)
 	}
 
-	path := make([]byte, fwd_close.PathSize*2)
-	err = i.DeSerialize(&path)
-	if err != nil {
-		return fmt.Errorf("problem parsing forward close path %w", err)
-	}
-	return nil
+	return h.sendUnconnectedRRDataReply(CIPService_ForwardClose, msgEIPForwardCloseReply{
+		ConnectionSerialNumber: fwd_close.ConnectionSerialNumber,
+		VendorID:               fwd_close.VendorID,
+		OriginatorSerialNumber: fwd_close.OriginatorSerialNumber,
+	})
+}
+
+// the service data of a successful forward close response
+type msgEIPForwardCloseReply struct {
+	ConnectionSerialNumber uint16
+	VendorID               uint16
+	OriginatorSerialNumber uint32
+	ApplicationReplySize   byte // in words
+	Reserved               byte
 }
 
 // in this message T is for target and O is for originator so
-- 
2.43.0


From 556973ea82cb9db2663858152d8f2511eb0e5f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:20 +0000
Subject: [PATCH 027/107] fix: client checks that a reply belongs to its
 request

---
 client.go      |   1 +
 connect.go     |  10 ++--
 disconnect.go  |  25 ++++++++--
 sendreceive.go | 123 +++++++++++++++++++++++++++++++++++++++++++------
 4 files changed, 138 insertions(+), 21 deletions(-)

diff --git a/client.go b/client.go
index 5b9ae84..6ab0107 100644
--- a/client.go
+++ b/client.go
@@ -91,6 +91,7 @@ type Client struct {
 	mutex      sync.Mutex
 	conn       net.Conn
 	connStatus connectionStatus
+	connFailed bool // conn can't be used any more except for closing it
 
 	SessionHandle          uint32
 	OTNetworkConnectionID  uint32
diff --git a/connect.go b/connect.go
index 83ca1b4..2405931 100644
--- a/connect.go
+++ b/connect.go
@@ -127,12 +127,16 @@ func (client *Client) Connect() error {
 	}
 
 	address := fmt.Sprintf("%s:%v", client.Controller.IpAddress, client.Controller.Port)
-	client.conn, err = net.DialTimeout("tcp", address, client.SocketTimeout)
+	conn, err := net.DialTimeout("tcp", address, client.SocketTimeout)
 	if err != nil {
 		msg := "cannot connect to controller"
 		client.Logger.Error(msg, slog.Any("err", err))
 		return fmt.Errorf("%s: %w", msg, err)
 	}
+	client.mutex.Lock()
+	client.conn = conn
+	client.connFailed = false
+	client.mutex.Unlock()
 
 	err = client.registerSession()
 	if err != nil {
@@ -181,7 +185,7 @@ func (client *Client) registerSession() error {
 		OptionFlag:      0,
 	}
 
-	header, _, err := client.send_recv_data(cipCommandRegisterSession, reg_msg)
+	header, _, err := client.send_recv_handshake(cipCommandRegisterSession, reg_msg)
 	if err != nil {
 		msg := "cannot get connect response"
 		client.Logger.Error(msg, slog.Any("err", err))
@@ -486,7 +490,7 @@ func (client *Client) forwardOpen(forwardOpenMsg CIPItem) error {
 		return err
 	}
 
-	header, data, err := client.send_recv_data(cipCommandSendRRData, itemData)
+	header, data, err := client.send_recv_handshake(cipCommandSendRRData, itemData)
 	if err != nil {
 		client.Logger.Error("error sending data", slog.Any("err", err))
 		return err
diff --git a/disconnect.go b/disconnect.go
index d32051c..2ec7429 100644
--- a/disconnect.go
+++ b/disconnect.go
@@ -1,13 +1,19 @@
 package gologix
 
 import (
+	"errors"
 	"fmt"
 	"log/slog"
+	"net"
 )
 
-func (client *Client) startDisconnect() error {
+// startDisconnect returns errOtherConnection if conn is given and is no longer the current connection.
+func (client *Client) startDisconnect(conn net.Conn) error {
 	client.mutex.Lock()
 	defer client.mutex.Unlock()
+	if conn != nil && client.conn != conn {
+		return errOtherConnection
+	}
 	switch client.connStatus {
 	case connectionStatusDisconnected:
 		return fmt.Errorf("client is already disconnected")
@@ -52,7 +58,18 @@ func (client *Client) startDisconnect() error {
 // Returns an error if already disconnected or if there are issues during the
 // disconnection sequence, but the connection will be closed regardless.
 func (client *Client) Disconnect() error {
-	err := client.startDisconnect()
+	return client.disconnect(nil)
+}
+
+var errOtherConnection = errors.New("not the current connection")
+
+// disconnect closes the current connection. If conn is not nil, that is the only
+// connection it will close.
+func (client *Client) disconnect(conn net.Conn) error {
+	err := client.startDisconnect(conn)
+	if errors.Is(err, errOtherConnection) {
+		return nil
+	}
 	if err != nil {
 		return err
 	}
@@ -115,7 +132,9 @@ func (client *Client) Disconnect() error {
 			slog.Any("err", err),
 		)
 	} else {
-		header, data, err := client.send_recv_data(cipCommandSendRRData, itemData)
+		client.mutex.Lock()
+		header, data, err := client.exchange(cipCommandSendRRData, itemData)
+		client.mutex.Unlock()
 		if err != nil {
 			client.Logger.Error(
 				"error sending disconnect request",
diff --git a/sendreceive.go b/sendreceive.go
index ad1efd2..1b73e97 100644
--- a/sendreceive.go
+++ b/sendreceive.go
@@ -3,6 +3,7 @@ package gologix
 import (
 	"bytes"
 	"encoding/binary"
+	"errors"
 	"fmt"
 	"time"
 )
@@ -77,34 +78,126 @@ func (client *Client) sendData(b []byte) error {
 
 // sends one message and gets one response in a mutex-protected way.
 func (client *Client) send_recv_data(cmd CIPCommand, msgs ...any) (eipHeader, *bytes.Buffer, error) {
-	buffer, err := client.sendMsgBuild(cmd, msgs...)
+	client.mutex.Lock()
+	conn := client.conn
+	if client.connStatus != connectionStatusConnected || client.connFailed || conn == nil {
+		client.mutex.Unlock()
+		return eipHeader{}, nil, errNotConnected
+	}
+	hdr, buf, err := client.exchange(cmd, msgs...)
+	failed := client.connFailed
+	client.mutex.Unlock()
+	if failed {
+		err2 := client.disconnect(conn)
+		if err2 != nil {
+			return hdr, buf, fmt.Errorf("error disconnecting after communication error %w: %w", err, err2)
+		}
+		return hdr, buf, fmt.Errorf("communication error resulting in forced disconnect: %w", err)
+	}
+	return hdr, buf, err
+}
+
+// send_recv_handshake is send_recv_data for the messages that open the connection.
+// If it fails, Connect fails and closes the connection.
+func (client *Client) send_recv_handshake(cmd CIPCommand, msgs ...any) (eipHeader, *bytes.Buffer, error) {
+	client.mutex.Lock()
+	defer client.mutex.Unlock()
+	if client.connFailed || client.conn == nil {
+		return eipHeader{}, nil, errNotConnected
+	}
+	return client.exchange(cmd, msgs...)
+}
+
+// exchange sends one message and gets the response that belongs to it.
+//
+// The mutex must be held. If anything goes wrong once sending has started, a response may
+// still be on its way and would be taken for the response to the next message. The connection
+// is marked as failed then, and nothing else may be sent on it.
+func (client *Client) exchange(cmd CIPCommand, msgs ...any) (eipHeader, *bytes.Buffer, error) {
+	request, err := client.sendMsgBuild(cmd, msgs...)
 	if err != nil {
 		return eipHeader{}, nil, fmt.Errorf("error preparing to send message: %w", err)
 	}
-	client.mutex.Lock()
 
-	err = client.sendData(buffer)
+	err = client.sendData(request)
 	if err != nil {
-		client.mutex.Unlock()
-		err2 := client.Disconnect()
-		if err2 != nil {
-			return eipHeader{}, nil, fmt.Errorf("error disconnecting after send error %w: %w", err, err2)
-		}
-		return eipHeader{}, nil, fmt.Errorf("error sending data resulting in forced disconnect: %w", err)
+		client.connFailed = true
+		return eipHeader{}, nil, fmt.Errorf("error sending data: %w", err)
 	}
 
 	hdr, buf, err := client.recvData()
-	client.mutex.Unlock()
 	if err != nil {
-		err2 := client.Disconnect()
-		if err2 != nil {
-			return hdr, buf, fmt.Errorf("error disconnecting after recvError %w: %w", err, err2)
-		}
-		return hdr, buf, fmt.Errorf("error receiving data resulting in forced disconnect: %w", err)
+		client.connFailed = true
+		return hdr, buf, fmt.Errorf("error receiving data: %w", err)
+	}
+
+	err = checkReply(cmd, request[eipHeaderSize:], hdr, buf.Bytes())
+	if err != nil {
+		client.connFailed = true
+		return hdr, buf, err
 	}
 	return hdr, buf, nil
 }
 
+// checkReply returns an error if a message is not the response to a request.
+//
+// The two belong together if they have the same command, and, if they carry a CIP message, the same
+// service and (if connected) sequence count.
+func checkReply(cmd CIPCommand, request []byte, hdr eipHeader, reply []byte) error {
+	if hdr.Command != cmd {
+		return fmt.Errorf("expected a response to command 0x%X but got command 0x%X", uint16(cmd), uint16(hdr.Command))
+	}
+	if hdr.Status != 0 || (cmd != cipCommandSendRRData && cmd != cipCommandSendUnitData) {
+		return nil
+	}
+	sentSequence, sentService, err := messageIdentity(request)
+	if err != nil {
+		return fmt.Errorf("problem with request: %w", err)
+	}
+	sequence, service, err := messageIdentity(reply)
+	if err != nil {
+		return fmt.Errorf("problem with response: %w", err)
+	}
+	if sequence != sentSequence {
+		return fmt.Errorf("expected the response with sequence count %d but got %d", sentSequence, sequence)
+	}
+	if !service.IsResponse() || service.UnResponse() != sentService {
+		return fmt.Errorf("expected a response to service 0x%X but got service 0x%X", byte(sentService), byte(service))
+	}
+	return nil
+}
+
+// messageIdentity finds the sequence count (if connected) and the service in the
+// payload of a SendRRData or SendUnitData message.
+func messageIdentity(b []byte) (sequence uint16, service CIPService, err error) {
+	if len(b) < 6 {
+		return 0, 0, fmt.Errorf("message of %d bytes is too short", len(b))
+	}
+	items, err := readItems(bytes.NewReader(b[6:]))
+	if err != nil {
+		return 0, 0, fmt.Errorf("problem reading items: %w", err)
+	}
+	if len(items) < 2 {
+		return 0, 0, fmt.Errorf("message has %d items", len(items))
+	}
+	data := items[1].Data
+	if items[1].Header.ID == cipItem_ConnectedData {
+		if len(data) < 2 {
+			return 0, 0, fmt.Errorf("message without sequence count")
+		}
+		sequence = binary.LittleEndian.Uint16(data)
+		data = data[2:]
+	}
+	if len(data) < 1 {
+		return 0, 0, fmt.Errorf("message without service")
+	}
+	return sequence, CIPService(data[0]), nil
+}
+
+const eipHeaderSize = 24
+
+var errNotConnected = errors.New("not connected")
+
 // recv_data reads the header and then the number of words it specifies.
 func (client *Client) recvData() (eipHeader, *bytes.Buffer, error) {
 
-- 
2.43.0


From c4bd7b4f113c3e960e02978bbd5cab1506c3a8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:20 +0000
Subject: [PATCH 028/107] fix: GetAttrList uses the common sequence counter

---
 getattr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/getattr.go b/getattr.go
index bf1e9ac..7035fc5 100644
--- a/getattr.go
+++ b/getattr.go
@@ -253,7 +253,7 @@ func (client *Client) GetAttrList(class CIPClass, instance CIPInstance, attrs ..
 	}
 
 	readMsg := msgCIPConnectedServiceReq{
-		SequenceCount: uint16(client.sequenceNumber.Add(1)),
+		SequenceCount: uint16(sequencer()),
 		Service:       CIPService_GetAttributeList,
 		PathLength:    byte(path.Len() / 2),
 	}
-- 
2.43.0


From 135d1815f7096453409fecf357de0648a825fa91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:53 +0000
Subject: [PATCH 029/107] fix: a failed Connect closes its network connection

---
 connect.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/connect.go b/connect.go
index 2405931..9ef101f 100644
--- a/connect.go
+++ b/connect.go
@@ -73,8 +73,12 @@ func (client *Client) Connect() error {
 		return err
 	}
 	success := false
+	var conn net.Conn
 	defer func() {
 		if !success {
+			if conn != nil {
+				conn.Close()
+			}
 			client.mutex.Lock()
 			client.connStatus = connectionStatusDisconnected
 			client.mutex.Unlock()
@@ -127,7 +131,7 @@ func (client *Client) Connect() error {
 	}
 
 	address := fmt.Sprintf("%s:%v", client.Controller.IpAddress, client.Controller.Port)
-	conn, err := net.DialTimeout("tcp", address, client.SocketTimeout)
+	conn, err = net.DialTimeout("tcp", address, client.SocketTimeout)
 	if err != nil {
 		msg := "cannot connect to controller"
 		client.Logger.Error(msg, slog.Any("err", err))
-- 
2.43.0


From 646a65efdb3e12c5cea43ab06db1944df6428914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 030/107] fix: Connect fails if the session is refused

---
 connect.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/connect.go b/connect.go
index 9ef101f..2ab6f6a 100644
--- a/connect.go
+++ b/connect.go
@@ -195,6 +195,9 @@ func (client *Client) registerSession() error {
 		client.Logger.Error(msg, slog.Any("err", err))
 		return fmt.Errorf("%s: %w", msg, err)
 	}
+	if header.Status != 0 {
+		return fmt.Errorf("cannot register session. status: %v", header.Status)
+	}
 	client.SessionHandle = header.SessionHandle
 	client.Logger.Info("Session connected", slog.Any("sessionHandle", client.SessionHandle))
 	return nil
-- 
2.43.0


From 585cb92ddda4c58df7c454fa5bc65f313852c137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 031/107] fix: DebugCloseConn on a client that never connected

---
 sendreceive.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sendreceive.go b/sendreceive.go
index 1b73e97..71d7507 100644
--- a/sendreceive.go
+++ b/sendreceive.go
@@ -244,6 +244,9 @@ func (client *Client) recvData() (eipHeader, *bytes.Buffer, error) {
 }
 
 func (client *Client) DebugCloseConn() {
+	if client.conn == nil {
+		return
+	}
 	client.conn.Close()
 }
 
-- 
2.43.0


From 0b35e3a251977015f49d53eb3ef7bc8fe5298e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:03 +0000
Subject: [PATCH 032/107] fix: Disconnect reports errors and always closes the
 connection

---
 disconnect.go | 48 ++++++++++++++++++++++++++----------------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/disconnect.go b/disconnect.go
index 2ec7429..fe6a067 100644
--- a/disconnect.go
+++ b/disconnect.go
@@ -65,8 +65,8 @@ var errOtherConnection = errors.New("not the current connection")
 
 // disconnect closes the current connection. If conn is not nil, that is the only
 // connection it will close.
-func (client *Client) disconnect(conn net.Conn) error {
-	err := client.startDisconnect(conn)
+func (client *Client) disconnect(conn net.Conn) (err error) {
+	err = client.startDisconnect(conn)
 	if errors.Is(err, errOtherConnection) {
 		return nil
 	}
@@ -77,6 +77,13 @@ func (client *Client) disconnect(conn net.Conn) error {
 
 	// No matter what happens, when we finish here, we'll consider the connection disconnected.
 	defer func() {
+		closeErr := client.conn.Close()
+		if closeErr != nil {
+			client.Logger.Error("error closing connection", slog.Any("err", closeErr))
+			if err == nil {
+				err = fmt.Errorf("error closing connection: %w", closeErr)
+			}
+		}
 		client.mutex.Lock()
 		client.connStatus = connectionStatusDisconnected
 		client.mutex.Unlock()
@@ -131,29 +138,26 @@ func (client *Client) disconnect(conn net.Conn) error {
 			"unable to serialize itemData. Forcing connection closed",
 			slog.Any("err", err),
 		)
-	} else {
-		client.mutex.Lock()
-		header, data, err := client.exchange(cipCommandSendRRData, itemData)
-		client.mutex.Unlock()
-		if err != nil {
-			client.Logger.Error(
-				"error sending disconnect request",
-				slog.Any("err", err),
-			)
-		} else {
-			_, err = client.parseResponse(&header, data)
-			if err != nil {
-				client.Logger.Error(
-					"error parsing disconnect response",
-					slog.Any("err", err),
-				)
-			}
-		}
+		return fmt.Errorf("error serializing disconnect items: %w", err)
 	}
 
-	err = client.conn.Close()
+	client.mutex.Lock()
+	header, data, err := client.exchange(cipCommandSendRRData, itemData)
+	client.mutex.Unlock()
 	if err != nil {
-		client.Logger.Error("error closing connection", slog.Any("err", err))
+		client.Logger.Error(
+			"error sending disconnect request",
+			slog.Any("err", err),
+		)
+		return fmt.Errorf("error sending disconnect request: %w", err)
+	}
+	_, err = client.parseResponse(&header, data)
+	if err != nil {
+		client.Logger.Error(
+			"error parsing disconnect response",
+			slog.Any("err", err),
+		)
+		return fmt.Errorf("error parsing disconnect response: %w", err)
 	}
 
 	client.Logger.Info("successfully disconnected from controller")
-- 
2.43.0


From a32d1ec7234bc2e526cfad5bf76044cf653207a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:27 +0000
Subject: [PATCH 033/107] fix: a message prepared for one connection is not
 sent on the next

---
 sendreceive.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/sendreceive.go b/sendreceive.go
index 71d7507..54e24b2 100644
--- a/sendreceive.go
+++ b/sendreceive.go
@@ -118,6 +118,9 @@ func (client *Client) exchange(cmd CIPCommand, msgs ...any) (eipHeader, *bytes.B
 	if err != nil {
 		return eipHeader{}, nil, fmt.Errorf("error preparing to send message: %w", err)
 	}
+	if id, ok := connectionAddress(request[eipHeaderSize:]); ok && id != client.OTNetworkConnectionID {
+		return eipHeader{}, nil, fmt.Errorf("message was prepared for another connection: %w", errNotConnected)
+	}
 
 	err = client.sendData(request)
 	if err != nil {
@@ -194,6 +197,14 @@ func messageIdentity(b []byte) (sequence uint16, service CIPService, err error)
 	return sequence, CIPService(data[0]), nil
 }
 
+// connectionAddress finds the connection that the payload of a SendUnitData message is addressed to.
+func connectionAddress(b []byte) (id uint32, ok bool) {
+	if len(b) < 16 || CIPItemID(binary.LittleEndian.Uint16(b[8:])) != cipItem_ConnectionAddress {
+		return 0, false
+	}
+	return binary.LittleEndian.Uint32(b[12:]), true
+}
+
 const eipHeaderSize = 24
 
 var errNotConnected = errors.New("not connected")
-- 
2.43.0


From 64b37a102f86a27b5d9c89edfb38e3579f6d2c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:33 +0000
Subject: [PATCH 034/107] fix: keep-alive starts, stops and restarts in any
 order

---
 client.go     |  3 +--
 connect.go    | 69 ++++++++++++++++++++++++++++++++++++++-------------
 disconnect.go |  9 +++----
 3 files changed, 57 insertions(+), 24 deletions(-)

diff --git a/client.go b/client.go
index 6ab0107..c35610d 100644
--- a/client.go
+++ b/client.go
@@ -69,7 +69,6 @@ type Client struct {
 	KeepAliveAutoStart bool           // if the state is changed the keepalive will continue to run unless cancelled
 	KeepAliveProps     []CIPAttribute // properties monitored during keep alive
 	KeepAliveFrequency time.Duration
-	keepAliveRunning   bool
 	KeepAlivePollTags  bool
 
 	RPI time.Duration // Request Packet Interval
@@ -101,7 +100,7 @@ type Client struct {
 	Context                uint64 // fun fact - rockwell PLCs don't mind being rick rolled.
 	sequenceNumber         atomic.Uint32
 
-	cancel_keepalive chan struct{}
+	cancel_keepalive chan struct{} // closed to cancel the running keepalive; nil if there is none. protected by mutex
 
 	// this just lets us not have to re-process tag strings.
 	ioi_cache      map[string]*tagIOI
diff --git a/connect.go b/connect.go
index 2ab6f6a..7c72893 100644
--- a/connect.go
+++ b/connect.go
@@ -3,7 +3,6 @@ package gologix
 import (
 	"bytes"
 	"encoding/binary"
-	"errors"
 	"fmt"
 	"log/slog"
 	"net"
@@ -83,11 +82,6 @@ func (client *Client) Connect() error {
 			client.connStatus = connectionStatusDisconnected
 			client.mutex.Unlock()
 		}
-		if success {
-			client.mutex.Lock()
-			client.connStatus = connectionStatusConnected
-			client.mutex.Unlock()
-		}
 	}()
 
 	if client.Logger != nil {
@@ -171,8 +165,12 @@ func (client *Client) Connect() error {
 	}
 
 	success = true
-	if client.KeepAliveAutoStart {
-		go client.KeepAlive()
+	client.mutex.Lock()
+	defer client.mutex.Unlock()
+	client.connStatus = connectionStatusConnected
+	if client.KeepAliveAutoStart && client.cancel_keepalive == nil {
+		client.cancel_keepalive = make(chan struct{})
+		go client.keepAlive(conn, client.cancel_keepalive)
 	}
 	return nil
 }
@@ -207,14 +205,47 @@ func (client *Client) KeepAlive() {
 	if !client.KeepAliveAutoStart || client.SocketTimeout == 0 {
 		return
 	}
-	if client.keepAliveRunning {
-		err := errors.New("keepalive already running")
-		client.Logger.Warn(err.Error())
+	client.mutex.Lock()
+	if client.connStatus != connectionStatusConnected {
+		client.mutex.Unlock()
+		client.Logger.Warn("keepalive not started. not connected")
+		return
+	}
+	if client.cancel_keepalive != nil {
+		client.mutex.Unlock()
+		client.Logger.Warn("keepalive already running")
+		return
 	}
+	cancel := make(chan struct{})
+	client.cancel_keepalive = cancel
+	conn := client.conn
+	client.mutex.Unlock()
+	client.keepAlive(conn, cancel)
+}
+
+// stopKeepAlive cancels the keepalive if it is running. The mutex must be held.
+func (client *Client) stopKeepAlive() {
+	if client.cancel_keepalive != nil {
+		close(client.cancel_keepalive)
+		client.cancel_keepalive = nil
+	}
+}
+
+// keepAlive polls the controller until cancel is closed, or until polling conn fails.
+func (client *Client) keepAlive(conn net.Conn, cancel chan struct{}) {
 	client.Logger.Debug("starting keep alive")
-	client.cancel_keepalive = make(chan struct{})
-	client.keepAliveRunning = true
-	defer func() { client.keepAliveRunning = false }()
+	defer func() {
+		client.mutex.Lock()
+		if client.cancel_keepalive == cancel {
+			client.cancel_keepalive = nil
+		}
+		client.mutex.Unlock()
+	}()
+	select {
+	case <-cancel:
+		return
+	default:
+	}
 
 	originalProps, err := client.GetAttrList(CipObject_ControllerInfo, 1, client.KeepAliveProps...)
 	if err != nil {
@@ -239,6 +270,11 @@ func (client *Client) KeepAlive() {
 	for {
 		select {
 		case <-t.C:
+			select {
+			case <-cancel:
+				return
+			default:
+			}
 			if !client.Connected() {
 				client.Logger.Warn("keepalive failed. not connected")
 				return
@@ -247,7 +283,7 @@ func (client *Client) KeepAlive() {
 			newProps, err := client.GetAttrList(CipObject_ControllerInfo, 1, client.KeepAliveProps...)
 			if err != nil {
 				client.Logger.Error("keepalive failed", slog.Any("err", err))
-				err = client.Disconnect()
+				err = client.disconnect(conn)
 				if err != nil {
 					client.Logger.Warn("keepalive disconnect failed", slog.Any("err", err))
 				}
@@ -275,8 +311,7 @@ func (client *Client) KeepAlive() {
 				originalProps = newProps
 			}
 
-		case <-client.cancel_keepalive:
-			client.KeepAliveAutoStart = false
+		case <-cancel:
 			return
 		}
 	}
diff --git a/disconnect.go b/disconnect.go
index fe6a067..89490d2 100644
--- a/disconnect.go
+++ b/disconnect.go
@@ -22,6 +22,7 @@ func (client *Client) startDisconnect(conn net.Conn) error {
 	case connectionStatusConnected:
 		// continue to disconnect
 		client.connStatus = connectionStatusDisconnecting
+		client.stopKeepAlive()
 		return nil
 	case connectionStatusDisconnecting:
 		return fmt.Errorf("client is already disconnecting")
@@ -89,10 +90,6 @@ func (client *Client) disconnect(conn net.Conn) (err error) {
 		client.mutex.Unlock()
 	}()
 
-	if client.keepAliveRunning {
-		close(client.cancel_keepalive)
-	}
-
 	items := make([]CIPItem, 2)
 	items[0] = CIPItem{} // null item
 	items[1] = CIPItem{Header: cipItemHeader{ID: cipItem_UnconnectedData}}
@@ -170,7 +167,9 @@ func (client *Client) KeepAliveCancel(force bool) error {
 	if client.KeepAliveAutoStart && !force {
 		return fmt.Errorf("unable to cancel keepalive due to AutoKeepAlive == true")
 	}
-	close(client.cancel_keepalive)
+	client.mutex.Lock()
+	defer client.mutex.Unlock()
+	client.stopKeepAlive()
 	return nil
 }
 
-- 
2.43.0


From 243caf19eb4083c9973b5e7aa99164bcacb1ca90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:33 +0000
Subject: [PATCH 035/107] fix: keep-alive without a frequency

---
 connect.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/connect.go b/connect.go
index 7c72893..c5ebd8d 100644
--- a/connect.go
+++ b/connect.go
@@ -18,6 +18,8 @@ const (
 	vendorIdDefault         = 0x9999 // default vendor id. Used to prevent vendor ID conflicts
 	socketTimeoutDefault    = time.Second * 10
 	rpiDefault              = time.Millisecond * 2500
+
+	keepAliveFrequencyDefault = time.Second * 30
 )
 
 func (client *Client) startConnect() error {
@@ -265,7 +267,11 @@ func (client *Client) keepAlive(conn net.Conn, cancel chan struct{}) {
 		}
 	}
 
-	t := time.NewTicker(client.KeepAliveFrequency)
+	frequency := client.KeepAliveFrequency
+	if frequency <= 0 {
+		frequency = keepAliveFrequencyDefault
+	}
+	t := time.NewTicker(frequency)
 	defer t.Stop()
 	for {
 		select {
-- 
2.43.0


From 7dbc597784c607566715b12da88bb5711d7e543e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:44 +0000
Subject: [PATCH 036/107] fix: item count of a message does not decide what is
 allocated

---
 items.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/items.go b/items.go
index e628b49..bd04931 100644
--- a/items.go
+++ b/items.go
@@ -32,9 +32,10 @@ func readItems(r io.Reader) ([]CIPItem, error) {
 		return nil, fmt.Errorf("couldn't read item count. %w", err)
 	}
 
-	items := make([]CIPItem, count) // usually have 2 items.
+	items := make([]CIPItem, 0, 2) // usually have 2 items.
 
 	for i := 0; i < int(count); i++ {
+		items = append(items, CIPItem{})
 		//var hdr cipItemHeader
 		err := binary.Read(r, binary.LittleEndian, &(items[i].Header))
 		if err != nil {
-- 
2.43.0


From ba9fcb0f4221b5aaed9ebd9e8bbbe034a720fc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:44 +0000
Subject: [PATCH 037/107] fix: a fragmented read ends

---
 read.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/read.go b/read.go
index 2507f12..3e0aa49 100644
--- a/read.go
+++ b/read.go
@@ -1174,6 +1174,13 @@ func (client *Client) readFragmented(ioi *tagIOI, elements uint16, initialData [
 		if status != byte(CIPStatus_PartialTransfer) {
 			return nil, fmt.Errorf("FragRead at offset %d returned status %v", offset, CIPStatus(status))
 		}
+		if len(fragData) == 0 {
+			return nil, fmt.Errorf("FragRead at offset %d returned no data", offset)
+		}
+		// no atomic type has more than 8 bytes per element.
+		if accumulated.Len() > 8*int(elements) {
+			return nil, fmt.Errorf("FragRead returned %d bytes for %d elements", accumulated.Len(), elements)
+		}
 	}
 }
 
-- 
2.43.0


From 5abbb843277a98cb7fee9cc52fb0d3b4ca557447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:06 +0000
Subject: [PATCH 038/107] fix: multi-tag reads check the reply count and
 offsets

---
 read.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/read.go b/read.go
index 3e0aa49..af12639 100644
--- a/read.go
+++ b/read.go
@@ -906,6 +906,10 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 		return nil, fmt.Errorf("problem reading reply header item count. %w", err)
 	}
 
+	if int(reply_hdr.Reply_Count) != qty {
+		return nil, fmt.Errorf("read %d tags but got %d replies", qty, reply_hdr.Reply_Count)
+	}
+
 	offset_table := make([]uint16, reply_hdr.Reply_Count)
 	err = binary.Read(&rItem, binary.LittleEndian, &offset_table)
 	if err != nil {
@@ -917,7 +921,10 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 	}
 	result_values := make([]interface{}, reply_hdr.Reply_Count)
 	for i := 0; i < int(reply_hdr.Reply_Count); i++ {
-		offset := offset_table[i] + 10 // offset doesn't start at 0 in the item
+		offset := int(offset_table[i]) + 10 // offset doesn't start at 0 in the item
+		if offset > len(rb) {
+			return nil, fmt.Errorf("reply for %v is missing", tags[i].TagName)
+		}
 		myBytes := bytes.NewBuffer(rb[offset:])
 		rHdr := msgMultiReadResult{}
 		err = binary.Read(myBytes, binary.LittleEndian, &rHdr)
-- 
2.43.0


From 9f36d41463d8514b238e686df1f2c8bcd24db791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:08 +0000
Subject: [PATCH 039/107] fix: string lengths in replies are checked

---
 read.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/read.go b/read.go
index af12639..7d6550e 100644
--- a/read.go
+++ b/read.go
@@ -500,6 +500,9 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 				if err != nil {
 					return nil, fmt.Errorf("couldn't unpack struct header. %w", err)
 				}
+				if str_hdr.Length > uint32(len(items[1].Rest())) {
+					return nil, fmt.Errorf("string of %d characters is incomplete", str_hdr.Length)
+				}
 				str := make([]byte, str_hdr.Length)
 				err = items[1].DeSerialize(&str)
 				if err != nil {
@@ -520,6 +523,9 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 				if err != nil {
 					return nil, fmt.Errorf("couldn't unpack struct data. %w", err)
 				}
+				if str_hdr.Length > uint32(len(str)) {
+					return nil, fmt.Errorf("string of %d characters in a STRING", str_hdr.Length)
+				}
 				response[i] = str[:str_hdr.Length]
 			}
 			return response, nil
@@ -970,6 +976,9 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 				if err != nil {
 					return nil, fmt.Errorf("couldn't unpack string struct header. %w", err)
 				}
+				if str_hdr.Length > uint32(myBytes.Len()) {
+					return nil, fmt.Errorf("string of %d characters is incomplete", str_hdr.Length)
+				}
 				str := make([]byte, str_hdr.Length)
 				err = binary.Read(myBytes, binary.LittleEndian, str)
 				if err != nil {
@@ -1025,6 +1034,9 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 				if err != nil {
 					return nil, fmt.Errorf("couldn't unpack string data for tag %v element %d: %w", tags[i], respIndex, err)
 				}
+				if str_hdr.Length > uint32(len(str)) {
+					return nil, fmt.Errorf("string of %d characters in a STRING", str_hdr.Length)
+				}
 				val[respIndex] = string(str[:str_hdr.Length])
 			}
 			result_values[i] = val
-- 
2.43.0


From ab65b62ae775176ff7158c783e58e4ab60784171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:10 +0000
Subject: [PATCH 040/107] fix: ReadPacked reads a structure

---
 pack.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/pack.go b/pack.go
index ed9b8b8..0076b91 100644
--- a/pack.go
+++ b/pack.go
@@ -425,17 +425,14 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 
 func ReadPacked[T any](client *Client, tag string) (T, error) {
 	var data T
-	buf := new(bytes.Buffer)
-	size, err := Pack(buf, data)
-	if err != nil {
-		return data, err
-	}
-
-	b := make([]byte, size)
-	err = client.Read(tag, &b)
+	val, err := client.Read_single(tag, CIPTypeStruct, 1)
 	if err != nil {
 		return data, fmt.Errorf("couldn't read %s as bytes. %w", tag, err)
 	}
+	b, ok := val.([]byte)
+	if !ok {
+		return data, fmt.Errorf("%s is a %T, not a structure", tag, val)
+	}
 	_, err = Unpack(bytes.NewBuffer(b), &data)
 	if err != nil {
 		return data, fmt.Errorf("problem unpacking from buffer. %w", err)
-- 
2.43.0


From c30699c974353cd991cdc22f5d12de73c91b125a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:10 +0000
Subject: [PATCH 041/107] fix: program name lengths are checked

---
 listallprograms.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/listallprograms.go b/listallprograms.go
index b29c645..c12ff81 100644
--- a/listallprograms.go
+++ b/listallprograms.go
@@ -40,6 +40,9 @@ func (client *Client) ListAllPrograms() error {
 		}
 
 		// read the name
+		if hdr.NameLen > uint32(len(resp.Rest())) {
+			return fmt.Errorf("program name of %d characters is incomplete", hdr.NameLen)
+		}
 		name := make([]byte, hdr.NameLen)
 		err = resp.DeSerialize(&name)
 		if err != nil {
-- 
2.43.0


From c45b4f18b9fc33a88cb8116cd8c70c95100dbad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:52 +0000
Subject: [PATCH 042/107] fix: ListSubTags returns every page and ends

---
 listsubtags.go | 60 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 22 deletions(-)

diff --git a/listsubtags.go b/listsubtags.go
index a60d505..b004274 100644
--- a/listsubtags.go
+++ b/listsubtags.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"math"
 	"strings"
 )
 
@@ -15,13 +16,33 @@ import (
 func (client *Client) ListSubTags(Program *KnownProgram, start_instance uint32) ([]KnownTag, error) {
 
 	new_kts := make([]KnownTag, 0, 100)
-	client.Logger.Debug("readall", "start id", start_instance)
 
 	// have to start at 1.
 	if start_instance == 0 {
 		start_instance = 1
 	}
 
+	for {
+		page, last, more, err := client.listSubTagPage(Program, start_instance)
+		new_kts = append(new_kts, page...)
+		if err != nil {
+			return new_kts, err
+		}
+		if !more {
+			return new_kts, nil
+		}
+		if last < start_instance || last == math.MaxUint32 {
+			return new_kts, fmt.Errorf("problem listing subtags: incomplete list after instance %d without further tags", start_instance)
+		}
+		start_instance = last + 1
+	}
+}
+
+// listSubTagPage requests the tags from an instance on and adds those the reply has to the known tags.
+// It returns the tags, the last instance it got and whether there are more.
+func (client *Client) listSubTagPage(Program *KnownProgram, start_instance uint32) (new_kts []KnownTag, last uint32, more bool, err error) {
+	client.Logger.Debug("readall", "start id", start_instance)
+
 	reqitems := make([]CIPItem, 2)
 	//reqitems[0] = cipItem{Header: cipItemHeader{ID: cipItem_Null}}
 	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
@@ -31,7 +52,7 @@ func (client *Client) ListSubTags(Program *KnownProgram, start_instance uint32)
 		CipObject_Symbol, CIPInstance(start_instance),
 	)
 	if err != nil {
-		return new_kts, fmt.Errorf("couldn't build path. %w", err)
+		return nil, 0, false, fmt.Errorf("couldn't build path. %w", err)
 	}
 
 	readmsg := msgCIPConnectedServiceReq{
@@ -43,7 +64,7 @@ func (client *Client) ListSubTags(Program *KnownProgram, start_instance uint32)
 	reqitems[1] = newItem(cipItem_ConnectedData, readmsg)
 	err = reqitems[1].Serialize(p.Bytes())
 	if err != nil {
-		return new_kts, fmt.Errorf("problem serializing path: %w", err)
+		return nil, 0, false, fmt.Errorf("problem serializing path: %w", err)
 	}
 	number_of_attr_to_receive := 3
 	attr1_symbol_name := 1
@@ -51,16 +72,16 @@ func (client *Client) ListSubTags(Program *KnownProgram, start_instance uint32)
 	attr8_arraydims := 8
 	err = reqitems[1].Serialize([4]uint16{uint16(number_of_attr_to_receive), uint16(attr1_symbol_name), uint16(attr2_symbol_type), uint16(attr8_arraydims)})
 	if err != nil {
-		return new_kts, fmt.Errorf("problem serializing item attribute list: %w", err)
+		return nil, 0, false, fmt.Errorf("problem serializing item attribute list: %w", err)
 	}
 
 	itemdata, err := serializeItems(reqitems)
 	if err != nil {
-		return nil, fmt.Errorf("problem serializing items: %w", err)
+		return nil, 0, false, fmt.Errorf("problem serializing items: %w", err)
 	}
 	hdr, data, err := client.send_recv_data(cipCommandSendUnitData, itemdata)
 	if err != nil {
-		return new_kts, err
+		return nil, 0, false, err
 	}
 	_ = hdr
 	_ = data
@@ -69,12 +90,12 @@ func (client *Client) ListSubTags(Program *KnownProgram, start_instance uint32)
 	padding := make([]byte, 6)
 	_, err = data.Read(padding)
 	if err != nil {
-		return nil, fmt.Errorf("problem reading padding. %w", err)
+		return nil, 0, false, fmt.Errorf("problem reading padding. %w", err)
 	}
 
 	resp_items, err := readItems(data)
 	if err != nil {
-		return new_kts, fmt.Errorf("couldn't parse items. %w", err)
+		return nil, 0, false, fmt.Errorf("couldn't parse items. %w", err)
 	}
 
 	// get ready to read tag info from item 1 data
@@ -83,7 +104,10 @@ func (client *Client) ListSubTags(Program *KnownProgram, start_instance uint32)
 	data_hdr := msgListInstanceHeader{}
 	err = binary.Read(data2, binary.LittleEndian, &data_hdr)
 	if err != nil {
-		return nil, fmt.Errorf("problem reading tag header. %w", err)
+		return nil, 0, false, fmt.Errorf("problem reading tag header. %w", err)
+	}
+	if data_hdr.Status != uint16(CIPStatus_OK) && data_hdr.Status != uint16(CIPStatus_PartialTransfer) {
+		return nil, 0, false, fmt.Errorf("listing tags of program %s from instance %d returned status %v", Program.Name, start_instance, CIPStatus(data_hdr.Status))
 	}
 
 	tag_hdr := new(msgtagResultDataHeader)
@@ -92,12 +116,13 @@ func (client *Client) ListSubTags(Program *KnownProgram, start_instance uint32)
 
 		err = binary.Read(data2, binary.LittleEndian, tag_hdr)
 		if err != nil {
-			return nil, fmt.Errorf("problem reading tag header. %w", err)
+			return new_kts, last, false, fmt.Errorf("problem reading tag header. %w", err)
 		}
+		last = tag_hdr.InstanceID
 		newtag_bytes := make([]byte, tag_hdr.NameLength)
 		err = binary.Read(data2, binary.LittleEndian, &newtag_bytes)
 		if err != nil {
-			return nil, fmt.Errorf("problem reading tag header. %w", err)
+			return new_kts, last, false, fmt.Errorf("problem reading tag header. %w", err)
 		}
 		newtag_name := fmt.Sprintf("program:%s.%s", Program.Name, string(newtag_bytes))
 
@@ -108,7 +133,7 @@ func (client *Client) ListSubTags(Program *KnownProgram, start_instance uint32)
 		//}
 		err = binary.Read(data2, binary.LittleEndian, tag_ftr)
 		if err != nil {
-			return nil, fmt.Errorf("problem reading tag footer. %w", err)
+			return new_kts, last, false, fmt.Errorf("problem reading tag footer. %w", err)
 		}
 
 		kt := KnownTag{
@@ -138,16 +163,7 @@ func (client *Client) ListSubTags(Program *KnownProgram, start_instance uint32)
 		client.KnownTags[strings.ToLower(newtag_name)] = kt
 		new_kts = append(new_kts, kt)
 
-		start_instance = tag_hdr.InstanceID
-
-	}
-
-	if data_hdr.Status == uint16(CIPStatus_PartialTransfer) {
-		_, err = client.ListSubTags(Program, start_instance)
-		if err != nil {
-			return new_kts, fmt.Errorf("problem listing subtags. %w", err)
-		}
 	}
 
-	return new_kts, nil
+	return new_kts, last, data_hdr.Status == uint16(CIPStatus_PartialTransfer), nil
 }
-- 
2.43.0


From 5f0d5ebb0037bd8a2f1a3bf047b47c19c69102b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:52 +0000
Subject: [PATCH 043/107] fix: ListAllTags pages until the end

---
 listalltags.go | 57 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 36 insertions(+), 21 deletions(-)

diff --git a/listalltags.go b/listalltags.go
index 9df6b54..3b71371 100644
--- a/listalltags.go
+++ b/listalltags.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"math"
 	"strings"
 )
 
@@ -141,6 +142,24 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 		}
 	}
 
+	for {
+		last, more, err := client.listTagPage(start_instance, fallbackProgramNames)
+		if err != nil {
+			return err
+		}
+		if !more {
+			return nil
+		}
+		if last < start_instance || last == math.MaxUint32 {
+			return fmt.Errorf("problem listing tags: incomplete list after instance %d without further tags", start_instance)
+		}
+		start_instance = last + 1
+	}
+}
+
+// listTagPage requests the tags from an instance on and adds those the reply has to the known tags.
+// It returns the last instance it got and whether there are more.
+func (client *Client) listTagPage(start_instance uint32, fallbackProgramNames bool) (last uint32, more bool, err error) {
 	reqItems := make([]CIPItem, 2)
 	reqItems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
 
@@ -148,7 +167,7 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 		CipObject_Symbol, CIPInstance(start_instance),
 	)
 	if err != nil {
-		return fmt.Errorf("couldn't build path. %w", err)
+		return 0, false, fmt.Errorf("couldn't build path. %w", err)
 	}
 
 	readMsg := msgCIPConnectedServiceReq{
@@ -162,7 +181,7 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 	// add path
 	err = reqItems[1].Serialize(path.Bytes())
 	if err != nil {
-		return fmt.Errorf("problem serializing path: %w", err)
+		return 0, false, fmt.Errorf("problem serializing path: %w", err)
 	}
 	// add service specific data
 	number_of_attr_to_receive := 3
@@ -176,16 +195,16 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 		uint16(attr8_arrayDims),
 	})
 	if err != nil {
-		return fmt.Errorf("problem serializing item data: %w", err)
+		return 0, false, fmt.Errorf("problem serializing item data: %w", err)
 	}
 
 	itemData, err := serializeItems(reqItems)
 	if err != nil {
-		return fmt.Errorf("problem serializing items: %w", err)
+		return 0, false, fmt.Errorf("problem serializing items: %w", err)
 	}
 	hdr, data, err := client.send_recv_data(cipCommandSendUnitData, itemData)
 	if err != nil {
-		return err
+		return 0, false, err
 	}
 	_ = hdr
 	_ = data
@@ -196,12 +215,12 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 	padding := make([]byte, 6)
 	_, err = data.Read(padding)
 	if err != nil {
-		return fmt.Errorf("problem getting padding bytes. %w", err)
+		return 0, false, fmt.Errorf("problem getting padding bytes. %w", err)
 	}
 
 	resp_items, err := readItems(data)
 	if err != nil {
-		return fmt.Errorf("couldn't parse items. %w", err)
+		return 0, false, fmt.Errorf("couldn't parse items. %w", err)
 	}
 
 	// get ready to read tag info from item 1 data
@@ -210,7 +229,10 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 	data_hdr := msgListInstanceHeader{}
 	err = binary.Read(data2, binary.LittleEndian, &data_hdr)
 	if err != nil {
-		return fmt.Errorf("problem reading list instance header. %w", err)
+		return 0, false, fmt.Errorf("problem reading list instance header. %w", err)
+	}
+	if data_hdr.Status != uint16(CIPStatus_OK) && data_hdr.Status != uint16(CIPStatus_PartialTransfer) {
+		return 0, false, fmt.Errorf("listing tags from instance %d returned status %v", start_instance, CIPStatus(data_hdr.Status))
 	}
 
 	tag_hdr := new(msgtagResultDataHeader)
@@ -219,14 +241,14 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 
 		err = binary.Read(data2, binary.LittleEndian, tag_hdr)
 		if err != nil {
-			return fmt.Errorf("problem reading tag header. %w", err)
+			return last, false, fmt.Errorf("problem reading tag header. %w", err)
 		}
-		start_instance = tag_hdr.InstanceID
+		last = tag_hdr.InstanceID
 
 		tag_name := make([]byte, tag_hdr.NameLength)
 		err = binary.Read(data2, binary.LittleEndian, &tag_name)
 		if err != nil {
-			return fmt.Errorf("problem reading tag name. %w", err)
+			return last, false, fmt.Errorf("problem reading tag name. %w", err)
 		}
 		tag_string := string(tag_name)
 
@@ -237,7 +259,7 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 		//}
 		err = binary.Read(data2, binary.LittleEndian, tag_ftr)
 		if err != nil {
-			return fmt.Errorf("problem reading tag footer. %w", err)
+			return last, false, fmt.Errorf("problem reading tag footer. %w", err)
 		}
 
 		kt := KnownTag{
@@ -280,7 +302,7 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 				client.KnownPrograms[strings.ToLower(p.Name)] = p
 				_, err := client.ListSubTags(p, 1)
 				if err != nil {
-					return fmt.Errorf("problem listing sub tags for %s: %w", p.Name, err)
+					return last, false, fmt.Errorf("problem listing sub tags for %s: %w", p.Name, err)
 				}
 
 			}
@@ -313,14 +335,7 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 
 	}
 
-	if data_hdr.Status == uint16(CIPStatus_PartialTransfer) { //} && start_instance < 200 {
-		err = client.ListAllTags(start_instance)
-		if err != nil {
-			return err
-		}
-	}
-
-	return nil
+	return last, data_hdr.Status == uint16(CIPStatus_PartialTransfer), nil
 }
 
 // per 1756-PM020H-EN-P page 43 there are some conditions in which we should discard the tags
-- 
2.43.0


From da006c2293f88eca326d311a8933837318680414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:52 +0000
Subject: [PATCH 044/107] fix: GetTemplateInstanceAttr reports a refused
 request

---
 listmembers.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/listmembers.go b/listmembers.go
index 914a954..6c8f25c 100644
--- a/listmembers.go
+++ b/listmembers.go
@@ -128,6 +128,13 @@ func (client *Client) GetTemplateInstanceAttr(str_instance uint32) (msgGetTempla
 	if err != nil {
 		return result, fmt.Errorf("problem reading result. %w", err)
 	}
+	if result.Status != CIPStatus_OK {
+		return result, fmt.Errorf("reading template %d returned status %v", str_instance, result.Status)
+	}
+	if result.Count != uint16(number_of_attr_to_receive) || result.SizeWords_Status != 0 || result.SizeBytes_Status != 0 ||
+		result.MemberCount_Status != 0 || result.Handle_Status != 0 {
+		return result, fmt.Errorf("template %d does not have all attributes", str_instance)
+	}
 
 	return result, nil
 }
-- 
2.43.0


From 6c88e03a62b74500832517f11efa8bdc229c6dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:46 +0000
Subject: [PATCH 045/107] fix: ListMembers keeps the last character of the type
 name

---
 listmembers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/listmembers.go b/listmembers.go
index 6c8f25c..843cbf9 100644
--- a/listmembers.go
+++ b/listmembers.go
@@ -256,10 +256,10 @@ func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
 		return UDTDescriptor{}, fmt.Errorf("couldn't read struct name. %w", err)
 	}
 
+	struct_name = struct_name[:len(struct_name)-1]
 	if strings.Contains(struct_name, ";") {
 		struct_name = strings.Split(struct_name, ";")[0]
 	}
-	struct_name = struct_name[:len(struct_name)-1]
 	descriptor.Name = struct_name
 
 	for i := 0; i < int(template_info.MemberCount); i++ {
-- 
2.43.0


From 75d36cce7122983ffd016da0492a2b2960838b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:46 +0000
Subject: [PATCH 046/107] fix: member count of a template does not decide what
 is allocated

---
 listmembers.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/listmembers.go b/listmembers.go
index 843cbf9..8aa8a1c 100644
--- a/listmembers.go
+++ b/listmembers.go
@@ -240,6 +240,9 @@ func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
 		return UDTDescriptor{}, fmt.Errorf("couldn't read member info header. %w", err)
 	}
 
+	if data2.Len() < binary.Size(msgMemberInfo{})*int(template_info.MemberCount) {
+		return UDTDescriptor{}, fmt.Errorf("template %d has %d members but only %d bytes", str_instance, template_info.MemberCount, data2.Len())
+	}
 	memberInfos := make([]msgMemberInfo, template_info.MemberCount)
 	err = binary.Read(data2, binary.LittleEndian, &memberInfos)
 	if err != nil {
-- 
2.43.0


From 1d01c743bce09cea7f69ef84f24375b84bfb6bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:16 +0000
Subject: [PATCH 047/107] fix: ListMembers reads templates of any size

---
 listmembers.go | 169 +++++++++++++++++++++++++++++++------------------
 1 file changed, 109 insertions(+), 60 deletions(-)

diff --git a/listmembers.go b/listmembers.go
index 8aa8a1c..5ed4208 100644
--- a/listmembers.go
+++ b/listmembers.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"math"
 	"strings"
 )
 
@@ -159,7 +160,17 @@ func (m msgMemberInfo) CIPType() CIPType {
 // exactly, but V32 it works and V20 it does not.  I suspect v24 or v28 since they were pretty substantial
 // changes, but v21 could also be the version since that is the swap from rslogix to studio
 func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
+	return client.listMembers(str_instance, nil)
+}
+
+// listMembers is ListMembers for a type that is found inside the outer types.
+func (client *Client) listMembers(str_instance uint32, outer []uint32) (UDTDescriptor, error) {
 	client.Logger.Debug("list members", "instance", str_instance)
+	for _, id := range outer {
+		if id == str_instance {
+			return UDTDescriptor{}, fmt.Errorf("template %d contains itself", str_instance)
+		}
+	}
 
 	d, ok := client.KnownTypesByID[str_instance]
 	if ok {
@@ -172,6 +183,88 @@ func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
 		return UDTDescriptor{}, fmt.Errorf("couldn't get template info. %w", err)
 	}
 
+	definition, err := client.readTemplate(str_instance, template_info)
+	if err != nil {
+		return UDTDescriptor{}, fmt.Errorf("couldn't read template. %w", err)
+	}
+	data2 := bytes.NewBuffer(definition)
+
+	if data2.Len() < binary.Size(msgMemberInfo{})*int(template_info.MemberCount) {
+		return UDTDescriptor{}, fmt.Errorf("template %d has %d members but only %d bytes", str_instance, template_info.MemberCount, data2.Len())
+	}
+	memberInfos := make([]msgMemberInfo, template_info.MemberCount)
+	err = binary.Read(data2, binary.LittleEndian, &memberInfos)
+	if err != nil {
+		return UDTDescriptor{}, fmt.Errorf("couldn't read memberinfos. %w", err)
+	}
+
+	descriptor := UDTDescriptor{}
+	descriptor.Info = template_info
+	descriptor.Instance_ID = str_instance
+	descriptor.Members = make([]UDTMemberDescriptor, template_info.MemberCount)
+
+	struct_name, err := data2.ReadString(0x00)
+	if err != nil {
+		return UDTDescriptor{}, fmt.Errorf("couldn't read struct name. %w", err)
+	}
+
+	struct_name = struct_name[:len(struct_name)-1]
+	if strings.Contains(struct_name, ";") {
+		struct_name = strings.Split(struct_name, ";")[0]
+	}
+	descriptor.Name = struct_name
+
+	for i := 0; i < int(template_info.MemberCount); i++ {
+
+		fieldname, err := data2.ReadString(0x00)
+		if err != nil && fieldname == "" {
+			return UDTDescriptor{}, fmt.Errorf("couldn't read field name. %w", err)
+		}
+		fieldname = strings.TrimSuffix(fieldname, "\x00")
+
+		descriptor.Members[i].Name = fieldname
+		descriptor.Members[i].Info = memberInfos[i]
+		id := descriptor.Members[i].Template_ID()
+		if id != 0 {
+			// this is a UDT
+			d2, err := client.listMembers(uint32(descriptor.Members[i].Template_ID()), append(outer, str_instance))
+			if err == nil {
+				descriptor.Members[i].UDT = &d2
+			} else {
+				client.Logger.Debug("couldn't get udt", "name", fieldname, "type", descriptor.Members[i].Info.Type)
+			}
+		}
+	}
+
+	client.KnownTypesByID[str_instance] = descriptor
+	return descriptor, nil
+}
+
+// readTemplate reads the definition of a template, in as many parts as the controller takes.
+func (client *Client) readTemplate(str_instance uint32, template_info msgGetTemplateAttrListResponse) ([]byte, error) {
+	if template_info.SizeWords > math.MaxUint32/4 || template_info.SizeWords*4 < 23 {
+		return nil, fmt.Errorf("template %d has a definition of %d words", str_instance, template_info.SizeWords)
+	}
+	length := template_info.SizeWords*4 - 23
+	var definition []byte
+	for {
+		part, more, err := client.readTemplatePart(str_instance, uint32(len(definition)), length-uint32(len(definition)))
+		if err != nil {
+			return nil, err
+		}
+		definition = append(definition, part...)
+		if !more {
+			return definition, nil
+		}
+		if len(part) == 0 || uint32(len(definition)) >= length {
+			return nil, fmt.Errorf("template %d does not end after %d of %d bytes", str_instance, len(definition), length)
+		}
+	}
+}
+
+// readTemplatePart reads the definition of a template from an offset on. It returns what the reply has
+// and whether there is more.
+func (client *Client) readTemplatePart(str_instance uint32, start_offset uint32, length uint32) ([]byte, bool, error) {
 	reqitems := make([]CIPItem, 2)
 	//reqitems[0] = cipItem{Header: cipItemHeader{ID: cipItem_Null}}
 	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
@@ -181,7 +274,7 @@ func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
 		//cipObject_Symbol, cipInstance(start_instance),
 	)
 	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("couldn't build path. %w", err)
+		return nil, false, fmt.Errorf("couldn't build path. %w", err)
 	}
 
 	readmsg := msgCIPConnectedServiceReq{
@@ -193,26 +286,28 @@ func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
 	reqitems[1] = newItem(cipItem_ConnectedData, readmsg)
 	err = reqitems[1].Serialize(p.Bytes())
 	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("problem serializing path: %w", err)
+		return nil, false, fmt.Errorf("problem serializing path: %w", err)
+	}
+	read_length := uint16(math.MaxUint16)
+	if length < math.MaxUint16 {
+		read_length = uint16(length)
 	}
-	start_offset := uint32(0)
-	read_length := uint16(template_info.SizeWords*4 - 23)
 	err = reqitems[1].Serialize(start_offset)
 	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("problem serializing item start offset: %w", err)
+		return nil, false, fmt.Errorf("problem serializing item start offset: %w", err)
 	}
 	err = reqitems[1].Serialize(read_length)
 	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("problem serializing item read length: %w", err)
+		return nil, false, fmt.Errorf("problem serializing item read length: %w", err)
 	}
 
 	itemdata, err := serializeItems(reqitems)
 	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("problem serializing item data: %w", err)
+		return nil, false, fmt.Errorf("problem serializing item data: %w", err)
 	}
 	hdr, data, err := client.send_recv_data(cipCommandSendUnitData, itemdata)
 	if err != nil {
-		return UDTDescriptor{}, err
+		return nil, false, err
 	}
 	_ = hdr
 	_ = data
@@ -223,12 +318,12 @@ func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
 	padding := make([]byte, 6)
 	_, err = data.Read(padding)
 	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("couldn't read padding. %w", err)
+		return nil, false, fmt.Errorf("couldn't read padding. %w", err)
 	}
 
 	resp_items, err := readItems(data)
 	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("couldn't parse items. %w", err)
+		return nil, false, fmt.Errorf("couldn't parse items. %w", err)
 	}
 
 	// get ready to read tag info from item 1 data
@@ -237,58 +332,12 @@ func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
 	mihdr := msgMemberInfoHdr{}
 	err = binary.Read(data2, binary.LittleEndian, &mihdr)
 	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("couldn't read member info header. %w", err)
-	}
-
-	if data2.Len() < binary.Size(msgMemberInfo{})*int(template_info.MemberCount) {
-		return UDTDescriptor{}, fmt.Errorf("template %d has %d members but only %d bytes", str_instance, template_info.MemberCount, data2.Len())
-	}
-	memberInfos := make([]msgMemberInfo, template_info.MemberCount)
-	err = binary.Read(data2, binary.LittleEndian, &memberInfos)
-	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("couldn't read memberinfos. %w", err)
+		return nil, false, fmt.Errorf("couldn't read member info header. %w", err)
 	}
-
-	descriptor := UDTDescriptor{}
-	descriptor.Info = template_info
-	descriptor.Instance_ID = str_instance
-	descriptor.Members = make([]UDTMemberDescriptor, template_info.MemberCount)
-
-	struct_name, err := data2.ReadString(0x00)
-	if err != nil {
-		return UDTDescriptor{}, fmt.Errorf("couldn't read struct name. %w", err)
+	if mihdr.Status != uint16(CIPStatus_OK) && mihdr.Status != uint16(CIPStatus_PartialTransfer) {
+		return nil, false, fmt.Errorf("reading template %d returned status %v", str_instance, CIPStatus(mihdr.Status))
 	}
-
-	struct_name = struct_name[:len(struct_name)-1]
-	if strings.Contains(struct_name, ";") {
-		struct_name = strings.Split(struct_name, ";")[0]
-	}
-	descriptor.Name = struct_name
-
-	for i := 0; i < int(template_info.MemberCount); i++ {
-
-		fieldname, err := data2.ReadString(0x00)
-		if err != nil && fieldname == "" {
-			return UDTDescriptor{}, fmt.Errorf("couldn't read field name. %w", err)
-		}
-		fieldname = fieldname[:len(fieldname)-1]
-
-		descriptor.Members[i].Name = fieldname
-		descriptor.Members[i].Info = memberInfos[i]
-		id := descriptor.Members[i].Template_ID()
-		if id != 0 {
-			// this is a UDT
-			d2, err := client.ListMembers(uint32(descriptor.Members[i].Template_ID()))
-			if err == nil {
-				descriptor.Members[i].UDT = &d2
-			} else {
-				client.Logger.Debug("couldn't get udt", "name", fieldname, "type", descriptor.Members[i].Info.Type)
-			}
-		}
-	}
-
-	client.KnownTypesByID[str_instance] = descriptor
-	return descriptor, nil
+	return data2.Bytes(), mihdr.Status == uint16(CIPStatus_PartialTransfer), nil
 }
 
 // full descriptor of a struct in the controller.
-- 
2.43.0


From 1c743e75d8f49d91bf42458bc5a8d9453d72a5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:17 +0000
Subject: [PATCH 048/107] fix: a connection lost while listing types is an
 error

---
 listalltags.go | 3 +++
 listmembers.go | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/listalltags.go b/listalltags.go
index 3b71371..ab16fc3 100644
--- a/listalltags.go
+++ b/listalltags.go
@@ -315,6 +315,9 @@ func (client *Client) listTagPage(start_instance uint32, fallbackProgramNames bo
 		if tag_ftr.Template_ID() != 0 { //&& !tag_ftr.PreDefined() {
 			client.Logger.Debug("Looking up template", "tag name", tag_string)
 			u, err := client.ListMembers(uint32(tag_ftr.Template_ID()))
+			if err != nil && !client.Connected() {
+				return last, false, fmt.Errorf("problem listing members of %s: %w", tag_string, err)
+			}
 			if err != nil {
 				client.Logger.Error("problem reading member list",
 					"string", tag_string,
diff --git a/listmembers.go b/listmembers.go
index 5ed4208..6c5e276 100644
--- a/listmembers.go
+++ b/listmembers.go
@@ -230,6 +230,8 @@ func (client *Client) listMembers(str_instance uint32, outer []uint32) (UDTDescr
 			d2, err := client.listMembers(uint32(descriptor.Members[i].Template_ID()), append(outer, str_instance))
 			if err == nil {
 				descriptor.Members[i].UDT = &d2
+			} else if !client.Connected() {
+				return UDTDescriptor{}, fmt.Errorf("couldn't get type of %s. %w", fieldname, err)
 			} else {
 				client.Logger.Debug("couldn't get udt", "name", fieldname, "type", descriptor.Members[i].Info.Type)
 			}
-- 
2.43.0


From 3a24112ceb75b9ad7f6ed0ec955ffdbbd0e02098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:30 +0000
Subject: [PATCH 049/107] fix: ListAllPrograms pages until the end

---
 listallprograms.go | 57 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 40 insertions(+), 17 deletions(-)

diff --git a/listallprograms.go b/listallprograms.go
index c12ff81..3925277 100644
--- a/listallprograms.go
+++ b/listallprograms.go
@@ -1,6 +1,7 @@
 package gologix
 
 import (
+	"errors"
 	"fmt"
 	"strings"
 )
@@ -8,11 +9,35 @@ import (
 func (client *Client) ListAllPrograms() error {
 	client.Logger.Debug("listing all programs")
 
+	results := make(map[string]*KnownProgram)
+	start := uint32(0)
+	for {
+		last, more, err := client.listProgramPage(start, results)
+		if err != nil {
+			return err
+		}
+		if !more {
+			break
+		}
+		if last < start {
+			return fmt.Errorf("problem reading programs: incomplete list after instance %d without further programs", start)
+		}
+		start = last + 1
+	}
+
+	client.KnownPrograms = results
+
+	return nil
+}
+
+// listProgramPage requests the programs from an instance on and adds those the reply has to results.
+// It returns the last instance it got and whether there are more.
+func (client *Client) listProgramPage(start uint32, results map[string]*KnownProgram) (last uint32, more bool, err error) {
 	// for generic messages we need to create the cip path ourselves.  The serialize function can be used to do this.
-	path, err := Serialize(CipObject_Programs, CIPInstance(0))
+	path, err := Serialize(CipObject_Programs, CIPInstance(start))
 	if err != nil {
 		client.Logger.Warn("could not serialize path", "error", err)
-		return err
+		return 0, false, err
 	}
 
 	number_of_attr_to_receive := 1
@@ -20,48 +45,46 @@ func (client *Client) ListAllPrograms() error {
 	msg_data, err := Serialize(uint16(number_of_attr_to_receive), uint16(attr_28_program_name))
 	if err != nil {
 		client.Logger.Warn("could not serialize message data", "error", err)
-		return err
+		return 0, false, err
 	}
 
 	resp, err := client.GenericCIPMessage(CIPService_GetInstanceAttributeList, path.Bytes(), msg_data.Bytes())
-	if err != nil {
+	var status CIPStatusError
+	if errors.As(err, &status) && status.Status == CIPStatus_PartialTransfer {
+		more = true
+	} else if err != nil {
 		client.Logger.Warn("problem reading programs directly  Some controllers don't support this method. Use ListAllTags to attempt fallback.", "error", err)
-		return fmt.Errorf("problem reading programs: %w", err)
+		return 0, false, fmt.Errorf("problem reading programs: %w", err)
 	}
 
-	results := make(map[string]*KnownProgram)
-
-	for {
+	for len(resp.Rest()) > 0 {
 		var hdr listprograms_resp_header
 		err = resp.DeSerialize(&hdr)
 		if err != nil {
-			client.Logger.Debug("got last item")
-			break
+			return last, false, fmt.Errorf("program entry is incomplete: %w", err)
 		}
 
 		// read the name
 		if hdr.NameLen > uint32(len(resp.Rest())) {
-			return fmt.Errorf("program name of %d characters is incomplete", hdr.NameLen)
+			return last, false, fmt.Errorf("program name of %d characters is incomplete", hdr.NameLen)
 		}
 		name := make([]byte, hdr.NameLen)
 		err = resp.DeSerialize(&name)
 		if err != nil {
 			client.Logger.Warn("could not read name", "error", err)
-			return err
+			return last, false, err
 		}
 
 		// convert the name to a string
 		namestr := strings.TrimSpace(string(name))
 		results[namestr] = &KnownProgram{ID: CIPInstance(hdr.InstanceID), Name: namestr}
+		last = hdr.InstanceID
 	}
 
-	client.KnownPrograms = results
-
-	return nil
+	return last, more, nil
 }
 
 type listprograms_resp_header struct {
-	InstanceID uint16
-	Padding    uint16
+	InstanceID uint32
 	NameLen    uint32
 }
-- 
2.43.0


From c14a63d01645e99fce32dcbedc6cf14c5acb6587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:09 +0000
Subject: [PATCH 050/107] fix: report a nonzero encapsulation status as an
 error

---
 sendreceive.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sendreceive.go b/sendreceive.go
index 54e24b2..e9d6f2c 100644
--- a/sendreceive.go
+++ b/sendreceive.go
@@ -139,6 +139,9 @@ func (client *Client) exchange(cmd CIPCommand, msgs ...any) (eipHeader, *bytes.B
 		client.connFailed = true
 		return hdr, buf, err
 	}
+	if hdr.Status != 0 {
+		return hdr, buf, fmt.Errorf("controller refused command 0x%X with encapsulation status 0x%X", uint16(cmd), hdr.Status)
+	}
 	return hdr, buf, nil
 }
 
-- 
2.43.0


From e0b694844ff1fd80300b96e84226c974ebe21b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:29 +0000
Subject: [PATCH 051/107] fix: GetAttrSingle reports the status of the reply

---
 getattr.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/getattr.go b/getattr.go
index 7035fc5..8fcd22b 100644
--- a/getattr.go
+++ b/getattr.go
@@ -157,6 +157,9 @@ func (client *Client) GetAttrSingle(class CIPClass, instance CIPInstance, attr C
 	if err != nil {
 		return nil, fmt.Errorf("couldn't read response header. %w", err)
 	}
+	if resphdr.Status != uint16(CIPStatus_OK) {
+		return &items[1], fmt.Errorf("response header has status 0x%X (%v)", resphdr.Status, CIPStatus(resphdr.Status))
+	}
 	//dat := make([]byte, hdr.Length-26)
 	//items[1].DeSerialize(&dat)
 	return &items[1], nil
-- 
2.43.0


From 79c081215ff2d02591141a831899bd681d5ec1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:22 +0000
Subject: [PATCH 052/107] fix: additional status words of a read reply are not
 data

---
 read.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/read.go b/read.go
index 7d6550e..2f1ec68 100644
--- a/read.go
+++ b/read.go
@@ -460,6 +460,10 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 	// 0x06 (PartialTransfer) means the response only carries part of the array;
 	// follow up with FragRead requests until the controller returns 0x00. Any
 	// other non-zero general status is a hard error to surface immediately.
+	if hdr2.Status[2] != 0 {
+		// the words after the status are no data.
+		return nil, fmt.Errorf("read of %s returned status %v with %d words of additional status", tag, CIPStatus(hdr2.Status[1]), hdr2.Status[2])
+	}
 	if hdr2.Status[1] == byte(CIPStatus_PartialTransfer) {
 		// Struct tag-data carries a 2-byte StructHandle that the controller
 		// repeats in every FragRead response; deduplicating that across
@@ -1247,5 +1251,9 @@ func (client *Client) sendFragReadRequest(ioi *tagIOI, elements uint16, offset u
 	if err := items[1].DeSerialize(&hdr2); err != nil {
 		return nil, 0, fmt.Errorf("FragRead inner header: %w", err)
 	}
+	if hdr2.Status[2] != 0 {
+		// the words after the status are no data.
+		return nil, 0, fmt.Errorf("FragRead at offset %d returned status %v with %d words of additional status", offset, CIPStatus(hdr2.Status[1]), hdr2.Status[2])
+	}
 	return items[1].Data[items[1].Pos:], hdr2.Status[1], nil
 }
-- 
2.43.0


From 05a5b7fb83de6c2861bf6dbe64e4f42890799811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:45 +0000
Subject: [PATCH 053/107] fix: listing all tags forgets what was known before

---
 listalltags.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/listalltags.go b/listalltags.go
index ab16fc3..2749110 100644
--- a/listalltags.go
+++ b/listalltags.go
@@ -123,6 +123,13 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 	// if we are starting from scratch, we should list all the programs first so we have
 	// their instance IDs when we come across program scoped tags.
 	if start_instance == 1 {
+		// what was known before may have changed or be gone.
+		client.ioi_cache_lock.Lock()
+		client.KnownTags = make(map[string]KnownTag)
+		client.ioi_cache_lock.Unlock()
+		client.KnownTypes = make(map[string]UDTDescriptor)
+		client.KnownTypesByID = make(map[uint32]UDTDescriptor)
+
 		err := client.ListAllPrograms()
 		if err != nil {
 			var cipErr CIPStatusError
-- 
2.43.0


From 3251c2afb3238332b9500eb8aca685546cf6a874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:39 +0000
Subject: [PATCH 054/107] fix: give a buffer tag its index when it is added on
 the controller

---
 datatable.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/datatable.go b/datatable.go
index 06bbbe5..8561ba9 100644
--- a/datatable.go
+++ b/datatable.go
@@ -15,7 +15,7 @@ type DataTableBufferTag struct {
 	Name         string  // symbolic tag name (or "" for instance-addressed tags)
 	CIPType      CIPType // the CIP data type of the tag
 	DataTypeSize uint16  // raw byte count used by the datatable protocol
-	index        uint16  // 1-based sequential position in the buffer
+	index        uint16  // 1-based sequential position in the buffer, 0 until the tag is sent to the PLC
 	ioi          []byte  // raw IOI EPath bytes
 	batchID      uint16  // 0x4E response value — groups tags for 0x4C read parsing
 	synched      bool    // internal flag to track if this tag has been added to the buffer on the PLC side.
@@ -38,6 +38,7 @@ type DataTableBuffer struct {
 	client     *Client
 	instanceID uint16               // assigned by PLC during Create; use InstanceID() getter
 	tags       []DataTableBufferTag // tags added to the buffer, in order; use Tags() getter
+	lastIndex  uint16               // index of the tag most recently added on the PLC
 	// expansions tracks multi-element TagDef expansions from AddTagGroup.
 	// Key: the base resolved tag name (e.g. "EXAMPLE[1,0]")
 	// Value: the expanded individual tag names (e.g. ["EXAMPLE[1,0]", ..., "EXAMPLE[1,4]"])
@@ -347,7 +348,6 @@ func (buf *DataTableBuffer) AddTagRef(tagName string, data any) error {
 		Name:         tagName,
 		CIPType:      cipType,
 		DataTypeSize: typeSize,
-		index:        uint16(len(buf.tags) + 1),
 		ioi:          ioi.Bytes(),
 		batchID:      0,
 		synched:      false,
@@ -383,7 +383,6 @@ func (buf *DataTableBuffer) AddTag(tagName string, cipType CIPType) error {
 		Name:         tagName,
 		CIPType:      cipType,
 		DataTypeSize: typeSize,
-		index:        uint16(len(buf.tags) + 1),
 		ioi:          ioi.Bytes(),
 		batchID:      0,
 		synched:      false,
@@ -409,6 +408,8 @@ func (buf *DataTableBuffer) SyncTags() error {
 		return fmt.Errorf("could not add tags to buffer: %w", err)
 	}
 	for _, entry := range entries {
+		buf.lastIndex++
+		buf.tags[entry.index].index = buf.lastIndex
 		buf.tags[entry.index].batchID = batchID
 		buf.tags[entry.index].synched = true
 	}
@@ -462,14 +463,11 @@ func (buf *DataTableBuffer) AddTags(tags map[string]CIPType) error {
 		}
 	}
 
-	// Assign sequential indices and record the batch ID for read parsing.
-	baseIndex := uint16(len(buf.tags) + 1)
-	for i, t := range prepared {
+	for _, t := range prepared {
 		buf.tags = append(buf.tags, DataTableBufferTag{
 			Name:         t.name,
 			CIPType:      t.cipType,
 			DataTypeSize: t.typeSize,
-			index:        baseIndex + uint16(i),
 			ioi:          t.ioi,
 			batchID:      0,
 			synched:      false,
-- 
2.43.0


From 50a28553ff9e37c6697cdec41ef45daf4108d8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:39 +0000
Subject: [PATCH 055/107] fix: remove a tag the controller does not have yet
 without asking it

---
 datatable.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/datatable.go b/datatable.go
index 8561ba9..2b86aab 100644
--- a/datatable.go
+++ b/datatable.go
@@ -661,9 +661,11 @@ func (buf *DataTableBuffer) RemoveTag(tagName string) error {
 		return fmt.Errorf("tag %q not found in buffer", tagName)
 	}
 
-	err := buf.client.DataTableRemoveTag(buf.instanceID, buf.tags[idx].index)
-	if err != nil {
-		return fmt.Errorf("could not remove tag %q from buffer: %w", tagName, err)
+	if buf.tags[idx].synched {
+		err := buf.client.DataTableRemoveTag(buf.instanceID, buf.tags[idx].index)
+		if err != nil {
+			return fmt.Errorf("could not remove tag %q from buffer: %w", tagName, err)
+		}
 	}
 
 	buf.tags = append(buf.tags[:idx], buf.tags[idx+1:]...)
-- 
2.43.0


From 19ca38e031257e03dcefa26d364621d8d2e82af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:13 +0000
Subject: [PATCH 056/107] fix: do not ask the controller to add no tags

---
 datatable.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/datatable.go b/datatable.go
index 2b86aab..880b246 100644
--- a/datatable.go
+++ b/datatable.go
@@ -395,6 +395,9 @@ func (buf *DataTableBuffer) AddTag(tagName string, cipType CIPType) error {
 // marking them as synched if successful. This is called automatically by ReadAll if there are unsynched tags, but can be
 // called manually if you want to control when the tags are sent to the PLC (e.g. to group multiple AddTag calls into one batch).
 func (buf *DataTableBuffer) SyncTags() error {
+	if !buf.created {
+		return fmt.Errorf("datatable buffer not created")
+	}
 	entries := make([]addTagEntry, 0)
 	for i := range buf.tags {
 		if buf.tags[i].synched {
@@ -402,6 +405,10 @@ func (buf *DataTableBuffer) SyncTags() error {
 		}
 		entries = append(entries, addTagEntry{buf.tags[i].DataTypeSize, buf.tags[i].ioi, i})
 	}
+	if len(entries) == 0 {
+		buf.synched = true
+		return nil
+	}
 
 	batchID, err := buf.client.DataTableAddTags(buf.instanceID, entries)
 	if err != nil {
-- 
2.43.0


From 9020daa76df933ad140e1684698e5d7b636af330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:13 +0000
Subject: [PATCH 057/107] fix: add buffer tags in as many requests as they need

---
 datatable.go | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/datatable.go b/datatable.go
index 880b246..f8f5f48 100644
--- a/datatable.go
+++ b/datatable.go
@@ -391,8 +391,8 @@ func (buf *DataTableBuffer) AddTag(tagName string, cipType CIPType) error {
 	return nil
 }
 
-// Run through the tags in the buffer that have not yet been sent to the PLC and send them in a batch via DataTableAddTags.
-// marking them as synched if successful. This is called automatically by ReadAll if there are unsynched tags, but can be
+// Run through the tags in the buffer that have not yet been sent to the PLC and send them in a batch via DataTableAddTags
+// (or several, if they don't fit in one request), marking them as synched if successful. This is called automatically by ReadAll if there are unsynched tags, but can be
 // called manually if you want to control when the tags are sent to the PLC (e.g. to group multiple AddTag calls into one batch).
 func (buf *DataTableBuffer) SyncTags() error {
 	if !buf.created {
@@ -410,20 +410,36 @@ func (buf *DataTableBuffer) SyncTags() error {
 		return nil
 	}
 
-	batchID, err := buf.client.DataTableAddTags(buf.instanceID, entries)
-	if err != nil {
-		return fmt.Errorf("could not add tags to buffer: %w", err)
-	}
-	for _, entry := range entries {
-		buf.lastIndex++
-		buf.tags[entry.index].index = buf.lastIndex
-		buf.tags[entry.index].batchID = batchID
-		buf.tags[entry.index].synched = true
+	for len(entries) > 0 {
+		// one request carries up to 255 tags, and no more than fits the connection.
+		qty, size := 0, dataTableAddOverhead
+		for qty < len(entries) && qty < 255 {
+			size += 3 + len(entries[qty].ioi)
+			if qty > 0 && size > int(buf.client.ConnectionSize) {
+				break
+			}
+			qty++
+		}
+		batchID, err := buf.client.DataTableAddTags(buf.instanceID, entries[:qty])
+		if err != nil {
+			return fmt.Errorf("could not add tags to buffer: %w", err)
+		}
+		for _, entry := range entries[:qty] {
+			buf.lastIndex++
+			buf.tags[entry.index].index = buf.lastIndex
+			buf.tags[entry.index].batchID = batchID
+			buf.tags[entry.index].synched = true
+		}
+		entries = entries[qty:]
 	}
 	buf.synched = true
 	return nil
 }
 
+// dataTableAddOverhead is the size of an add tags request without its tags: sequence count,
+// service, path length, 6 bytes of path and 5 bytes of header.
+const dataTableAddOverhead = 2 + 1 + 1 + 6 + 5
+
 // AddTags adds multiple tags to the datatable buffer in a single 0x4E call.
 // Each tag carries its own dataTypeSize and IOI EPath — mixed type sizes are
 // supported in one call (confirmed via pcap).
-- 
2.43.0


From 00c74cf46d3d5f392a6f11f653dfee4657881f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:14 +0000
Subject: [PATCH 058/107] fix: forget the array of a buffer tag that was
 removed or not added

---
 datatable.go | 38 +++++++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/datatable.go b/datatable.go
index f8f5f48..9b8672a 100644
--- a/datatable.go
+++ b/datatable.go
@@ -692,6 +692,21 @@ func (buf *DataTableBuffer) RemoveTag(tagName string) error {
 	}
 
 	buf.tags = append(buf.tags[:idx], buf.tags[idx+1:]...)
+
+	// a group that is no longer complete can't be collapsed any more.
+	for _, tag := range buf.tags {
+		if tag.Name == tagName {
+			return nil
+		}
+	}
+	for baseName, expanded := range buf.expansions {
+		for _, name := range expanded {
+			if name == tagName {
+				delete(buf.expansions, baseName)
+				break
+			}
+		}
+	}
 	return nil
 }
 
@@ -737,23 +752,31 @@ func (buf *DataTableBuffer) AddTagGroup(group *TagGroup, args ...any) error {
 
 	// Collect all resolved tag names with their types for batched AddTags.
 	tagMap := make(map[string]CIPType)
+	expansions := make(map[string][]string)
 
 	for _, def := range group.defs {
 		resolvedName := formatName(def.Name, args...)
 
 		if def.Elements > 1 {
 			expanded := expandArrayTag(resolvedName, def.Elements)
-			buf.expansions[resolvedName] = expanded
+			expansions[resolvedName] = expanded
 			for _, name := range expanded {
 				tagMap[name] = def.Type
 			}
 		} else {
-			buf.expansions[resolvedName] = []string{resolvedName}
+			expansions[resolvedName] = []string{resolvedName}
 			tagMap[resolvedName] = def.Type
 		}
 	}
 
-	return buf.AddTags(tagMap)
+	err := buf.AddTags(tagMap)
+	if err != nil {
+		return err
+	}
+	for name, expanded := range expansions {
+		buf.expansions[name] = expanded
+	}
+	return nil
 }
 
 // ---------------------------------------------------------------------------
@@ -798,6 +821,7 @@ func (buf *DataTableBuffer) AddTaggedStruct(str any, args ...any) error {
 	vf := reflect.VisibleFields(T)
 	tagMap := make(map[string]CIPType)
 	varPtrs := make(map[string]any)
+	expansions := make(map[string][]string)
 
 	for i := range vf {
 		field := vf[i]
@@ -814,7 +838,7 @@ func (buf *DataTableBuffer) AddTaggedStruct(str any, args ...any) error {
 		// Handle slices/arrays (multi-element tags)
 		if elements > 1 {
 			expanded := expandArrayTag(tagPath, elements)
-			buf.expansions[tagPath] = expanded
+			expansions[tagPath] = expanded
 			for idx, name := range expanded {
 				tagMap[name] = cipType
 				// For slices, set Var to the element pointer
@@ -823,7 +847,7 @@ func (buf *DataTableBuffer) AddTaggedStruct(str any, args ...any) error {
 				}
 			}
 		} else {
-			buf.expansions[tagPath] = []string{tagPath}
+			expansions[tagPath] = []string{tagPath}
 			tagMap[tagPath] = cipType
 			varPtrs[tagPath] = fieldVal.Addr().Interface()
 		}
@@ -835,6 +859,10 @@ func (buf *DataTableBuffer) AddTaggedStruct(str any, args ...any) error {
 		return err
 	}
 
+	for name, expanded := range expansions {
+		buf.expansions[name] = expanded
+	}
+
 	// Set Var pointers for each tag
 	for i := range buf.tags {
 		if ptr, ok := varPtrs[buf.tags[i].Name]; ok {
-- 
2.43.0


From 48012637c3e388ff5a72d1725ea26cf6d54966ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:14 +0000
Subject: [PATCH 059/107] fix: a buffer whose deletion failed can be closed
 again

---
 datatable.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datatable.go b/datatable.go
index 9b8672a..8660f12 100644
--- a/datatable.go
+++ b/datatable.go
@@ -711,17 +711,17 @@ func (buf *DataTableBuffer) RemoveTag(tagName string) error {
 }
 
 // Close deletes the datatable buffer on the PLC, freeing resources.
-// After Close returns, the buffer instance is invalid and should not be reused.
+// After Close succeeds, the buffer instance is invalid and should not be reused.
 // Close is idempotent — calling it on an already-closed buffer is a no-op.
 func (buf *DataTableBuffer) Close() error {
 	if !buf.created {
 		return nil
 	}
 	err := buf.client.DeleteDataTableBuffer(buf.instanceID)
-	buf.created = false
 	if err != nil {
 		return fmt.Errorf("could not delete datatable buffer: %w", err)
 	}
+	buf.created = false
 	return nil
 }
 
-- 
2.43.0


From 7979dc70980ec4305adfc73d9b642620f7aaeb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:14 +0000
Subject: [PATCH 060/107] fix: read all of a long string in a buffer

---
 datatable.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datatable.go b/datatable.go
index 8660f12..cc1d554 100644
--- a/datatable.go
+++ b/datatable.go
@@ -118,7 +118,7 @@ func decodeDataTableValue(cipType CIPType, raw []byte) (any, error) {
 		if strLen > uint32(len(raw)-4) {
 			strLen = uint32(len(raw) - 4)
 		}
-		if strLen > 82 {
+		if len(raw) == 88 && strLen > 82 {
 			strLen = 82
 		}
 		return string(raw[4 : 4+strLen]), nil
-- 
2.43.0


From dc6ab139fe8fe1955a030470e28d3cd75d209b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:13 +0000
Subject: [PATCH 061/107] fix: refuse a buffer tag reference that cannot take
 the value

---
 datatable.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/datatable.go b/datatable.go
index cc1d554..6b5ea3d 100644
--- a/datatable.go
+++ b/datatable.go
@@ -342,6 +342,16 @@ func (buf *DataTableBuffer) AddTagRef(tagName string, data any) error {
 		return fmt.Errorf("tag %q: %w", tagName, err)
 	}
 
+	// make sure the values read later can be stored there.
+	value, err := decodeDataTableValue(cipType, make([]byte, typeSize))
+	if err != nil {
+		return fmt.Errorf("tag %q: %w", tagName, err)
+	}
+	err = checkGoVar(data, value)
+	if err != nil {
+		return fmt.Errorf("tag %q: %w", tagName, err)
+	}
+
 	buf.synched = false
 
 	buf.tags = append(buf.tags, DataTableBufferTag{
@@ -595,6 +605,16 @@ func (buf *DataTableBuffer) ReadAll() (map[string]any, error) {
 }
 
 func setGoVar(dest any, value any) error {
+	err := checkGoVar(dest, value)
+	if err != nil {
+		return err
+	}
+	reflect.ValueOf(dest).Elem().Set(reflect.ValueOf(value))
+	return nil
+}
+
+// checkGoVar says why the value can't be stored in what dest points to, if it can't.
+func checkGoVar(dest any, value any) error {
 	destVal := reflect.ValueOf(dest)
 	if destVal.Kind() != reflect.Ptr {
 		return fmt.Errorf("Var field must be a pointer to set value, got %T", dest)
@@ -606,7 +626,6 @@ func setGoVar(dest any, value any) error {
 	if !valueVal.Type().AssignableTo(destVal.Elem().Type()) {
 		return fmt.Errorf("cannot assign value of type %T to Var field of type %T", value, dest)
 	}
-	destVal.Elem().Set(valueVal)
 	return nil
 }
 
-- 
2.43.0


From 43cbc9603b92507ced182ac0007d8a95cda37c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:14 +0000
Subject: [PATCH 062/107] fix: refuse a bit of a word as a buffer tag

---
 datatable.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/datatable.go b/datatable.go
index 6b5ea3d..4bcfbdc 100644
--- a/datatable.go
+++ b/datatable.go
@@ -336,6 +336,9 @@ func (buf *DataTableBuffer) AddTagRef(tagName string, data any) error {
 	if err != nil {
 		return fmt.Errorf("could not create IOI for tag %q: %w", tagName, err)
 	}
+	if ioi.BitAccess {
+		return fmt.Errorf("tag %q: a datatable buffer can't hold a single bit", tagName)
+	}
 
 	typeSize, err := buf.resolveTypeSize(tagName, cipType)
 	if err != nil {
@@ -381,6 +384,9 @@ func (buf *DataTableBuffer) AddTag(tagName string, cipType CIPType) error {
 	if err != nil {
 		return fmt.Errorf("could not create IOI for tag %q: %w", tagName, err)
 	}
+	if ioi.BitAccess {
+		return fmt.Errorf("tag %q: a datatable buffer can't hold a single bit", tagName)
+	}
 
 	typeSize, err := buf.resolveTypeSize(tagName, cipType)
 	if err != nil {
@@ -475,6 +481,9 @@ func (buf *DataTableBuffer) AddTags(tags map[string]CIPType) error {
 		if err != nil {
 			return fmt.Errorf("could not create IOI for tag %q: %w", name, err)
 		}
+		if ioi.BitAccess {
+			return fmt.Errorf("tag %q: a datatable buffer can't hold a single bit", name)
+		}
 		typeSize, err := buf.resolveTypeSize(name, cipType)
 		if err != nil {
 			return fmt.Errorf("tag %q: %w", name, err)
-- 
2.43.0


From b351529f52bb23d50a7ce7077054b53e3db9997c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:14 +0000
Subject: [PATCH 063/107] fix: add every tagged field of a struct to a buffer
 with its own variable

---
 datatable.go | 79 +++++++++++++++++++++++++---------------------------
 1 file changed, 38 insertions(+), 41 deletions(-)

diff --git a/datatable.go b/datatable.go
index 4bcfbdc..e7b9c32 100644
--- a/datatable.go
+++ b/datatable.go
@@ -836,23 +836,16 @@ func (buf *DataTableBuffer) AddTaggedStruct(str any, args ...any) error {
 		return fmt.Errorf("datatable buffer not created")
 	}
 
-	// Reflect over struct fields
-	T := reflect.TypeOf(str)
-	if T.Kind() == reflect.Ptr {
-		T = T.Elem()
-	}
 	v := reflect.ValueOf(str)
-	if v.Kind() == reflect.Ptr {
-		v = v.Elem()
+	if v.Kind() != reflect.Ptr || v.IsNil() || v.Elem().Kind() != reflect.Struct {
+		return fmt.Errorf("need a pointer to a struct, got %T", str)
 	}
+	v = v.Elem()
 
-	vf := reflect.VisibleFields(T)
-	tagMap := make(map[string]CIPType)
-	varPtrs := make(map[string]any)
+	already := len(buf.tags)
 	expansions := make(map[string][]string)
 
-	for i := range vf {
-		field := vf[i]
+	for _, field := range reflect.VisibleFields(v.Type()) {
 		tagPath, ok := field.Tag.Lookup("gologix")
 		if !ok || tagPath == "" {
 			continue
@@ -860,45 +853,49 @@ func (buf *DataTableBuffer) AddTaggedStruct(str any, args ...any) error {
 		if args != nil {
 			tagPath = formatName(tagPath, args...)
 		}
-		fieldVal := v.Field(i)
-		cipType, elements := GoVarToCIPType(fieldVal.Interface())
-
-		// Handle slices/arrays (multi-element tags)
-		if elements > 1 {
-			expanded := expandArrayTag(tagPath, elements)
-			expansions[tagPath] = expanded
-			for idx, name := range expanded {
-				tagMap[name] = cipType
-				// For slices, set Var to the element pointer
-				if fieldVal.Kind() == reflect.Slice && fieldVal.Len() > idx {
-					varPtrs[name] = fieldVal.Index(idx).Addr().Interface()
-				}
-			}
-		} else {
-			expansions[tagPath] = []string{tagPath}
-			tagMap[tagPath] = cipType
-			varPtrs[tagPath] = fieldVal.Addr().Interface()
+		names, err := buf.addTaggedField(v, field, tagPath)
+		if err != nil {
+			// all or nothing: take out what this struct has added so far.
+			buf.tags = buf.tags[:already]
+			return fmt.Errorf("field %s: %w", field.Name, err)
 		}
-	}
-
-	// Add tags to buffer
-	err := buf.AddTags(tagMap)
-	if err != nil {
-		return err
+		expansions[tagPath] = names
 	}
 
 	for name, expanded := range expansions {
 		buf.expansions[name] = expanded
 	}
 
-	// Set Var pointers for each tag
-	for i := range buf.tags {
-		if ptr, ok := varPtrs[buf.tags[i].Name]; ok {
-			buf.tags[i].Var = ptr
+	return nil
+}
+
+// addTaggedField adds the tag(s) of one field of the struct v, which refer to that field, and
+// returns their names.
+func (buf *DataTableBuffer) addTaggedField(v reflect.Value, field reflect.StructField, tagPath string) ([]string, error) {
+	if !field.IsExported() {
+		return nil, fmt.Errorf("tag %q: the field is not exported", tagPath)
+	}
+	fieldVal, err := v.FieldByIndexErr(field.Index)
+	if err != nil {
+		return nil, err
+	}
+
+	// Slices and arrays are one tag per element.
+	if fieldVal.Kind() == reflect.Slice || fieldVal.Kind() == reflect.Array {
+		if fieldVal.Len() == 0 {
+			return nil, fmt.Errorf("tag %q: the field has no elements", tagPath)
+		}
+		names := expandArrayTag(tagPath, fieldVal.Len())
+		for i, name := range names {
+			err := buf.AddTagRef(name, fieldVal.Index(i).Addr().Interface())
+			if err != nil {
+				return nil, err
+			}
 		}
+		return names, nil
 	}
 
-	return nil
+	return []string{tagPath}, buf.AddTagRef(tagPath, fieldVal.Addr().Interface())
 }
 
 // ReadAllTyped reads all tag values from the buffer in a single CIP request
-- 
2.43.0


From f1b55b69e2a13521b854bcf8781c00fca55aa6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:14 +0000
Subject: [PATCH 064/107] fix: expand an array without an index from its first
 element

---
 taggroup.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/taggroup.go b/taggroup.go
index de7644d..40ad443 100644
--- a/taggroup.go
+++ b/taggroup.go
@@ -124,15 +124,22 @@ func expandArrayTag(baseName string, count int) []string {
 	}
 
 	tag, err := parse_tag_name(baseName)
-	if err != nil || tag.Array_Order == nil || len(tag.Array_Order) == 0 {
-		// No array index found — just return the base name repeated.
-		// This shouldn't happen in normal use.
+	if err != nil {
+		// newIOI reports what is wrong with it.
 		result := make([]string, count)
 		for i := range result {
 			result[i] = baseName
 		}
 		return result
 	}
+	if len(tag.Array_Order) == 0 || !strings.HasSuffix(baseName, "]") {
+		// No index: the elements from the first on.
+		result := make([]string, count)
+		for i := range result {
+			result[i] = fmt.Sprintf("%s[%d]", baseName, i)
+		}
+		return result
+	}
 
 	// Find the bracket position to reconstruct the name
 	bracketPos := strings.LastIndex(baseName, "[")
-- 
2.43.0


From a7cbbdac0a899f005cf0515e9e2e24eed9841a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:34 +0000
Subject: [PATCH 065/107] fix: read several BOOLs in a tag group, map or tagged
 struct

---
 types.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/types.go b/types.go
index f1f4d98..427b020 100644
--- a/types.go
+++ b/types.go
@@ -45,6 +45,8 @@ func GoVarToCIPType(T any) (CIPType, int) {
 		return CIPTypeLREAL, 1
 	case string, *string:
 		return CIPTypeSTRING, 1
+	case []bool:
+		return CIPTypeBOOL, len(x)
 	case []byte:
 		return CIPTypeBYTE, len(x)
 	case []int8:
-- 
2.43.0


From 21f218fc097253d86d111f84455871f7058750b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:34 +0000
Subject: [PATCH 066/107] fix: substitute placeholders of the template only

---
 taggroup.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/taggroup.go b/taggroup.go
index 40ad443..3d46611 100644
--- a/taggroup.go
+++ b/taggroup.go
@@ -43,12 +43,11 @@ func (g *TagGroup) Defs() []TagDef {
 // formatName replaces {0}, {1}, ... placeholders in a tag name template
 // with the provided arguments.
 func formatName(template string, args ...any) string {
-	s := template
+	pairs := make([]string, 0, 2*len(args))
 	for i, arg := range args {
-		placeholder := fmt.Sprintf("{%d}", i)
-		s = strings.ReplaceAll(s, placeholder, fmt.Sprintf("%v", arg))
+		pairs = append(pairs, fmt.Sprintf("{%d}", i), fmt.Sprintf("%v", arg))
 	}
-	return s
+	return strings.NewReplacer(pairs...).Replace(template)
 }
 
 // zeroValueForTagDef returns a zero-valued Go variable matching the TagDef's
-- 
2.43.0


From a87b5a7cf07daddd9cb8ba7a67d0de6f433338c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:13 +0000
Subject: [PATCH 067/107] fix: read each request frame whole before handling it

---
 server.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/server.go b/server.go
index 0380eb6..562a823 100644
--- a/server.go
+++ b/server.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"log/slog"
 	"math/rand"
 	"net"
@@ -29,6 +30,7 @@ type Server struct {
 // dispatch the appropriate code
 type serverTCPHandler struct {
 	conn           net.Conn
+	body           *bytes.Reader // what follows the header of the request being handled
 	server         *Server
 	handle         uint32
 	options        uint32
@@ -212,6 +214,12 @@ func (h *serverTCPHandler) serve(srv *Server) error {
 		if err != nil {
 			return fmt.Errorf("problem reading eip header. %w", err)
 		}
+		body := make([]byte, eipHdr.Length)
+		_, err = io.ReadFull(h.conn, body)
+		if err != nil {
+			return fmt.Errorf("problem reading eip data. %w", err)
+		}
+		h.body = bytes.NewReader(body)
 		h.context = eipHdr.Context
 		h.server.Logger.Debug("New Context", "context", h.context)
 		switch eipHdr.Command {
@@ -251,15 +259,15 @@ func (h *serverTCPHandler) serve(srv *Server) error {
 func (h *serverTCPHandler) sendUnitData(hdr eipHeader) error {
 	var interface_handle uint32
 	var timeout uint16
-	err := binary.Read(h.conn, binary.LittleEndian, &interface_handle)
+	err := binary.Read(h.body, binary.LittleEndian, &interface_handle)
 	if err != nil {
 		return fmt.Errorf("problem reading interface handle %w", err)
 	}
-	err = binary.Read(h.conn, binary.LittleEndian, &timeout)
+	err = binary.Read(h.body, binary.LittleEndian, &timeout)
 	if err != nil {
 		return fmt.Errorf("problem reading timeout %w", err)
 	}
-	items, err := readItems(h.conn)
+	items, err := readItems(h.body)
 	if err != nil {
 		return fmt.Errorf("problem reading items for rrData %w", err)
 	}
@@ -514,15 +522,15 @@ func (h *serverTCPHandler) sendUnitDataReply(s CIPService) error {
 func (h *serverTCPHandler) sendRRData(hdr eipHeader) error {
 	var interface_handle uint32
 	var timeout uint16
-	err := binary.Read(h.conn, binary.LittleEndian, &interface_handle)
+	err := binary.Read(h.body, binary.LittleEndian, &interface_handle)
 	if err != nil {
 		return fmt.Errorf("problem reading interface handle %w", err)
 	}
-	err = binary.Read(h.conn, binary.LittleEndian, &timeout)
+	err = binary.Read(h.body, binary.LittleEndian, &timeout)
 	if err != nil {
 		return fmt.Errorf("problem reading timeout %w", err)
 	}
-	items, err := readItems(h.conn)
+	items, err := readItems(h.body)
 	if err != nil {
 		return fmt.Errorf("problem reading items for rrData %w", err)
 	}
@@ -871,7 +879,7 @@ func (h *serverTCPHandler) ioConnection(fwd_open msgEIPForwardOpen_Standard, tp
 func (h *serverTCPHandler) registerSession(hdr eipHeader) error {
 
 	reg_msg := msgCIPRegister{}
-	err := binary.Read(h.conn, binary.LittleEndian, &reg_msg)
+	err := binary.Read(h.body, binary.LittleEndian, &reg_msg)
 	if err != nil {
 		return fmt.Errorf("problem reading register session message. %w", err)
 	}
-- 
2.43.0


From e342cd492d40b451cb48ffed2cc6b57d10da335b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:13 +0000
Subject: [PATCH 068/107] fix: answer encapsulation commands the server does
 not support

---
 server.go | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 562a823..83a99f9 100644
--- a/server.go
+++ b/server.go
@@ -250,7 +250,17 @@ func (h *serverTCPHandler) serve(srv *Server) error {
 			if err != nil {
 				return fmt.Errorf("problem with sendListIdentity %w", err)
 			}
-
+		case cipCommand_NOP:
+			// there is no reply to this one.
+		case cipCommandUnRegisterSession:
+			// there is no reply to this one either, it just ends the session.
+			return nil
+		default:
+			h.server.Logger.Warn("unsupported command", "command", eipHdr.Command)
+			err = h.sendEncapsulationError(eipHdr.Command, encapsulationStatus_UnsupportedCommand)
+			if err != nil {
+				return fmt.Errorf("problem refusing command %v: %w", eipHdr.Command, err)
+			}
 		}
 	}
 
@@ -942,6 +952,26 @@ func (h *serverTCPHandler) send(cmd CIPCommand, msgs ...any) error {
 
 }
 
+// encapsulation statuses for requests that can't be handled at all.
+const (
+	encapsulationStatus_UnsupportedCommand uint32 = 0x01
+	encapsulationStatus_IncorrectData      uint32 = 0x03
+)
+
+// sendEncapsulationError answers a request that can't be handled with an empty
+// reply that has a non-zero status.
+func (h *serverTCPHandler) sendEncapsulationError(cmd CIPCommand, status uint32) error {
+	hdr := h.newEIPHeader(cmd, 0)
+	hdr.Status = status
+	b := bytes.Buffer{}
+	err := binary.Write(&b, binary.LittleEndian, hdr)
+	if err != nil {
+		return fmt.Errorf("problem writing header to buffer. %w", err)
+	}
+	_, err = h.conn.Write(b.Bytes())
+	return err
+}
+
 func (h *serverTCPHandler) newEIPHeader(cmd CIPCommand, size int) (hdr eipHeader) {
 
 	hdr.Command = cmd
-- 
2.43.0


From 87a4cfbd293e8cd9e9d0d1135022dc45694ffba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:58 +0000
Subject: [PATCH 069/107] fix: answer refused requests instead of ending the
 session

---
 server.go             | 75 +++++++++++++++++++++++++++++++++++++++----
 server_router.go      |  4 ++-
 server_unconnected.go |  2 ++
 3 files changed, 73 insertions(+), 8 deletions(-)

diff --git a/server.go b/server.go
index 83a99f9..c959d21 100644
--- a/server.go
+++ b/server.go
@@ -3,6 +3,7 @@ package gologix
 import (
 	"bytes"
 	"encoding/binary"
+	"errors"
 	"fmt"
 	"io"
 	"log/slog"
@@ -39,6 +40,10 @@ type serverTCPHandler struct {
 	TOConnectionID uint32
 
 	UnitDataSequencer uint16
+
+	service CIPService // requested by the message being handled
+	replied bool       // the message being handled has been answered
+	sendErr error      // the connection can't be written to any more
 }
 
 // Sets up a main server object for handling incoming EIP messages according to PathRouter r
@@ -220,34 +225,36 @@ func (h *serverTCPHandler) serve(srv *Server) error {
 			return fmt.Errorf("problem reading eip data. %w", err)
 		}
 		h.body = bytes.NewReader(body)
+		h.service = 0
+		h.replied = false
 		h.context = eipHdr.Context
 		h.server.Logger.Debug("New Context", "context", h.context)
 		switch eipHdr.Command {
 		case cipCommandRegisterSession:
 			err = h.registerSession(eipHdr)
-			if err != nil {
+			if err = h.refuseMalformed(eipHdr.Command, err); err != nil {
 				return fmt.Errorf("problem with register session %w", err)
 			}
 		case cipCommandSendRRData:
 			// this is things like forward opens
 			err = h.sendRRData(eipHdr)
-			if err != nil {
+			if err = h.refuseMalformed(eipHdr.Command, err); err != nil {
 				return fmt.Errorf("problem with sendRRData %w", err)
 			}
 		case cipCommandSendUnitData:
 			// this is things like writes and reads
 			err = h.sendUnitData(eipHdr)
-			if err != nil {
+			if err = h.refuseMalformed(eipHdr.Command, err); err != nil {
 				return fmt.Errorf("problem with sendUnitData %w", err)
 			}
 		case cipCommandListServices:
 			err = h.sendListServicesData(eipHdr)
-			if err != nil {
+			if err = h.refuseMalformed(eipHdr.Command, err); err != nil {
 				return fmt.Errorf("problem with sendListServices %w", err)
 			}
 		case cipCommandListIdentity:
 			err = h.sendListIdentityReply(eipHdr)
-			if err != nil {
+			if err = h.refuseMalformed(eipHdr.Command, err); err != nil {
 				return fmt.Errorf("problem with sendListIdentity %w", err)
 			}
 		case cipCommand_NOP:
@@ -266,6 +273,50 @@ func (h *serverTCPHandler) serve(srv *Server) error {
 
 }
 
+// refusalStatus is the general status for a request that failed with err.
+func refusalStatus(err error) CIPStatus {
+	switch {
+	case errors.Is(err, errPathNotRecognized):
+		return CIPStatus_PathDestinationUnknown
+	case errors.Is(err, io.EOF), errors.Is(err, io.ErrUnexpectedEOF):
+		return CIPStatus_NotEnoughData
+	}
+	return CIPStatus_InvalidParameter
+}
+
+// refuseMalformed answers a message that could not be handled, unless it has been
+// answered already. It only returns an error if the session can't go on.
+func (h *serverTCPHandler) refuseMalformed(cmd CIPCommand, err error) error {
+	if err == nil || h.sendErr != nil {
+		return err
+	}
+	h.server.Logger.Warn("request refused", "command", cmd, "error", err)
+	if h.replied {
+		return nil
+	}
+	return h.sendEncapsulationError(cmd, encapsulationStatus_IncorrectData)
+}
+
+// refuseConnected answers a connected request that could not be carried out,
+// unless it has been answered already.
+func (h *serverTCPHandler) refuseConnected(err error) error {
+	if err == nil || h.sendErr != nil || h.replied {
+		return err
+	}
+	h.server.Logger.Warn("connected request refused", "service", h.service, "error", err)
+	return h.sendUnitDataErrorReply(h.service, refusalStatus(err))
+}
+
+// refuseUnconnected answers an unconnected request that could not be carried out,
+// unless it has been answered already.
+func (h *serverTCPHandler) refuseUnconnected(err error) error {
+	if err == nil || h.sendErr != nil || h.replied || h.service == 0 {
+		return err
+	}
+	h.server.Logger.Warn("unconnected request refused", "service", h.service, "error", err)
+	return h.sendUnconnectedErrorReply(h.service, refusalStatus(err))
+}
+
 func (h *serverTCPHandler) sendUnitData(hdr eipHeader) error {
 	var interface_handle uint32
 	var timeout uint16
@@ -303,6 +354,13 @@ func (h *serverTCPHandler) sendUnitData(hdr eipHeader) error {
 	if err != nil {
 		return fmt.Errorf("problem deserializing service %w", err)
 	}
+	h.service = service
+	return h.refuseConnected(h.connectedData(service, items))
+}
+
+// connectedData handles one request on a connection.
+func (h *serverTCPHandler) connectedData(service CIPService, items []CIPItem) error {
+	var err error
 	switch service {
 	case CIPService_Write:
 		err = h.cipConnectedWrite(items)
@@ -556,9 +614,9 @@ func (h *serverTCPHandler) sendRRData(hdr eipHeader) error {
 		}
 		return h.connectedRead(service, items)
 	case cipItem_UnconnectedData:
-		return h.unconnectedData(items[1])
+		return h.refuseUnconnected(h.unconnectedData(items[1]))
 	}
-	return nil
+	return fmt.Errorf("unexpected item %v", items[1].Header.ID)
 }
 
 func (h *serverTCPHandler) forwardClose(i CIPItem) error {
@@ -940,10 +998,12 @@ func (h *serverTCPHandler) send(cmd CIPCommand, msgs ...any) error {
 
 	b = buf.Bytes()
 	// write the packet buffer to the tcp connection
+	h.replied = true
 	written := 0
 	for written < len(b) {
 		n, err := h.conn.Write(b[written:])
 		if err != nil {
+			h.sendErr = err
 			return err
 		}
 		written += n
@@ -969,6 +1029,7 @@ func (h *serverTCPHandler) sendEncapsulationError(cmd CIPCommand, status uint32)
 		return fmt.Errorf("problem writing header to buffer. %w", err)
 	}
 	_, err = h.conn.Write(b.Bytes())
+	h.sendErr = err
 	return err
 }
 
diff --git a/server_router.go b/server_router.go
index 1a9b5ae..c2ce3aa 100644
--- a/server_router.go
+++ b/server_router.go
@@ -30,11 +30,13 @@ func (router *PathRouter) Handle(path []byte, p CIPEndpoint) {
 	router.Path[string(path)] = p
 }
 
+var errPathNotRecognized = errors.New("path not recognized")
+
 // find the tag provider for a given cip path
 func (router *PathRouter) Resolve(path []byte) (CIPEndpoint, error) {
 	tp, ok := router.Path[string(path)]
 	if !ok {
-		return nil, fmt.Errorf("path %v not recognized", path)
+		return nil, fmt.Errorf("%w: %v", errPathNotRecognized, path)
 	}
 	return tp, nil
 }
diff --git a/server_unconnected.go b/server_unconnected.go
index 2e674fa..0537a2f 100644
--- a/server_unconnected.go
+++ b/server_unconnected.go
@@ -15,6 +15,7 @@ func (h *serverTCPHandler) unconnectedData(item CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("problem unmarshling service %w", err)
 	}
+	h.service = service
 	switch service {
 	case CIPService_ForwardOpen:
 		item.Reset()
@@ -91,6 +92,7 @@ func (h *serverTCPHandler) unconnectedData(item CIPItem) error {
 		if err != nil {
 			return fmt.Errorf("error getting embedded service. %w", err)
 		}
+		h.service = emService
 		switch emService {
 		case CIPService_Write:
 			return h.unconnectedServiceWrite(item)
-- 
2.43.0


From ca241a1e6e0f141672a255e76fe7b80501362ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:58 +0000
Subject: [PATCH 070/107] fix: address replies to the connection the request
 came on

---
 server.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server.go b/server.go
index c959d21..4a35c45 100644
--- a/server.go
+++ b/server.go
@@ -355,6 +355,12 @@ func (h *serverTCPHandler) sendUnitData(hdr eipHeader) error {
 		return fmt.Errorf("problem deserializing service %w", err)
 	}
 	h.service = service
+	conn, err := h.server.ConnMgr.GetByOT(connId)
+	if err != nil {
+		h.server.Logger.Warn("request on an unknown connection", "connection", connId)
+		return h.sendConnectedError(service, h.UnitDataSequencer, 0, CIPStatus_ConnectionLost, 0)
+	}
+	h.TOConnectionID = conn.TO
 	return h.refuseConnected(h.connectedData(service, items))
 }
 
-- 
2.43.0


From 343fac4869158f05084fd53324a22a2ec70ac7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:22 +0000
Subject: [PATCH 071/107] fix: a multiple service reply has one reply per
 request

---
 server.go           |   2 +
 server_connected.go | 244 ++++++++++++++++++++++++--------------------
 2 files changed, 136 insertions(+), 110 deletions(-)

diff --git a/server.go b/server.go
index 4a35c45..5a8c183 100644
--- a/server.go
+++ b/server.go
@@ -278,6 +278,8 @@ func refusalStatus(err error) CIPStatus {
 	switch {
 	case errors.Is(err, errPathNotRecognized):
 		return CIPStatus_PathDestinationUnknown
+	case errors.Is(err, errServiceNotSupported):
+		return CIPStatus_ServiceNotSupported
 	case errors.Is(err, io.EOF), errors.Is(err, io.ErrUnexpectedEOF):
 		return CIPStatus_NotEnoughData
 	}
diff --git a/server_connected.go b/server_connected.go
index 878ea9b..385f9f0 100644
--- a/server_connected.go
+++ b/server_connected.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"io"
 )
 
 func (h *serverTCPHandler) cipConnectedWrite(items []CIPItem) error {
@@ -102,155 +103,173 @@ func (h *serverTCPHandler) connectedMulti(items []CIPItem) error {
 	}
 
 	// need to handle this differently!
-	pb := make([]byte, pathlen*2)
+	pb := make([]byte, int(pathlen)*2)
 	err = item.DeSerialize(&pb)
 	if err != nil {
-		return fmt.Errorf("problem dumping path bytes from multi-svc header")
+		return fmt.Errorf("problem dumping path bytes from multi-svc header: %w", err)
 	}
+	payload := item.Rest() // the offsets are relative to the item count.
 	qty, err := item.Uint16()
 	if err != nil {
-		return fmt.Errorf("problem getting multisvc item count: %w", err)
+		return fmt.Errorf("problem getting multisvc item count: %w", io.ErrUnexpectedEOF)
 	}
-	offsets := make([]int16, qty)
-	results := make([][]byte, qty)
+	if len(item.Rest()) < int(qty)*2 {
+		return fmt.Errorf("problem getting multisvc offsets of %d items: %w", qty, io.ErrUnexpectedEOF)
+	}
+	offsets := make([]int, qty)
 	for i := range offsets {
-		offsets[i], err = item.Int16()
+		offset, err := item.Uint16()
 		if err != nil {
 			return fmt.Errorf("problem getting multisvc offset for item %d: %w", i, err)
 		}
+		if int(offset)+2 > len(payload) {
+			return fmt.Errorf("multisvc item %d at %d of %d: %w", i, offset, len(payload), io.ErrUnexpectedEOF)
+		}
+		offsets[i] = int(offset)
 	}
 
+	status := CIPStatus_OK
+	results := make([][]byte, qty)
 	for i := range results {
-		item.Pos = int(offsets[i]) + 8 // seek to the start of the multi-service payload data.
-		var svc CIPService
-		err = item.DeSerialize(&svc)
-		if err != nil {
-			return fmt.Errorf("problem getting multiread service for item %d: %w", i, err)
+		// each service ends where the next one begins.
+		end := len(payload)
+		for _, offset := range offsets {
+			if offset > offsets[i] && offset < end {
+				end = offset
+			}
 		}
-
-		svcReqSize, err := item.Byte()
+		svcItem := newItem(cipItem_Null, payload[offsets[i]:end])
+		svc := CIPService(payload[offsets[i]])
+		results[i], err = h.multiService(p, svcItem)
 		if err != nil {
-			return fmt.Errorf("problem getting service req payload size for item %d: %w", i, err)
+			h.server.Logger.Warn("service of multi service packet refused", "item", i, "service", svc, "error", err)
+			results[i] = []byte{byte(svc.AsResponse()), 0x00, byte(refusalStatus(err)), 0x00}
+			status = CIPStatus_EmbeddedServiceError
 		}
-		_ = svcReqSize // don't need this yet.  It is in 16 bit words.
+	}
 
-		switch svc {
-		case CIPService_FragRead,
-			CIPService_Read:
-			tagname, err := getTagFromPath(&item)
-			if err != nil {
-				return fmt.Errorf("problem getting multiread tagname for item %d: %w", i, err)
-			}
-			qty, err := item.Uint16()
-			if err != nil {
-				return fmt.Errorf("error getting write qty: %w", err)
-			}
+	response := make([]any, qty+2)
+	response[0] = qty
 
-			result, err := p.TagRead(tagname, int16(qty))
-			if err != nil {
-				return fmt.Errorf("problem getting data for %s from provider. %w", tagname, err)
-			}
+	pos := (int(qty) + 1) * 2
+	jump_table := make([]uint16, qty)
+	for i := range jump_table {
+		jump_table[i] = uint16(pos)
+		pos += len(results[i])
+	}
+	response[1] = jump_table
+	for i := range results {
+		response[2+i] = results[i]
+	}
 
-			// build this portion of the response msg
+	return h.sendConnectedStatus(CIPService_MultipleService, seq, connection.TO, status, response...)
+}
 
-			typ, _ := GoVarToCIPType(result)
-			rhdr := msgMultiReadResult{Service: svc.AsResponse(), Status: 0, Type: typ}
-			b, err := Serialize(rhdr)
-			if err != nil {
-				return fmt.Errorf("problem serializing header for %s: %w", tagname, err)
-			}
-			if typ == CIPTypeSTRING {
-				res_str, ok := result.(string)
-				if !ok {
-					return errors.New("expected a string but didn't get one")
-				}
-				b_dat, err := Serialize(cipStringPacker(res_str))
-				if err != nil {
-					return fmt.Errorf("problem serializing data for %s: %w", tagname, err)
-				}
-				b.Truncate(4)
-				_, err = b_dat.WriteTo(b)
-				if err != nil {
-					return fmt.Errorf("problem combining header and data for %s: %w", tagname, err)
-				}
-			} else {
-				b_dat, err := Serialize(result)
-				if err != nil {
-					return fmt.Errorf("problem serializing data for %s: %w", tagname, err)
-				}
-				_, err = b_dat.WriteTo(b)
-				if err != nil {
-					return fmt.Errorf("problem combining header and data for %s: %w", tagname, err)
-				}
-			}
+// multiService carries out one service of a multi service packet and returns the reply to it.
+func (h *serverTCPHandler) multiService(p CIPEndpoint, item CIPItem) ([]byte, error) {
+	var svc CIPService
+	err := item.DeSerialize(&svc)
+	if err != nil {
+		return nil, fmt.Errorf("problem getting service: %w", err)
+	}
 
-			results[i] = b.Bytes()
-		case CIPService_Write,
-			CIPService_FragWrite:
+	svcReqSize, err := item.Byte()
+	if err != nil {
+		return nil, fmt.Errorf("problem getting service req payload size: %w", io.ErrUnexpectedEOF)
+	}
+	_ = svcReqSize // don't need this yet.  It is in 16 bit words.
 
-			tag, err := getTagFromPath(&item)
-			if err != nil {
-				return fmt.Errorf("problem deserializing tag bytes %w", err)
-			}
+	switch svc {
+	case CIPService_FragRead,
+		CIPService_Read:
+		tagname, err := getTagFromPath(&item)
+		if err != nil {
+			return nil, fmt.Errorf("problem getting multiread tagname: %w", err)
+		}
+		qty, err := item.Uint16()
+		if err != nil {
+			return nil, fmt.Errorf("error getting read qty: %w", io.ErrUnexpectedEOF)
+		}
 
-			var typ CIPType
-			err = item.DeSerialize(&typ)
-			if err != nil {
-				return fmt.Errorf("problem deserializing cip type %w", err)
+		result, err := p.TagRead(tagname, int16(qty))
+		if err != nil {
+			return nil, fmt.Errorf("problem getting data for %s from provider. %w", tagname, err)
+		}
+
+		// build this portion of the response msg
+
+		typ, _ := GoVarToCIPType(result)
+		rhdr := msgMultiReadResult{Service: svc.AsResponse(), Status: 0, Type: typ}
+		b, err := Serialize(rhdr)
+		if err != nil {
+			return nil, fmt.Errorf("problem serializing header for %s: %w", tagname, err)
+		}
+		if typ == CIPTypeSTRING {
+			res_str, ok := result.(string)
+			if !ok {
+				return nil, errors.New("expected a string but didn't get one")
 			}
-			var reserved byte
-			err = item.DeSerialize(&reserved)
+			b_dat, err := Serialize(cipStringPacker(res_str))
 			if err != nil {
-				return fmt.Errorf("problem deserializing reserved byte %w", err)
+				return nil, fmt.Errorf("problem serializing data for %s: %w", tagname, err)
 			}
-			var qty uint16
-			err = item.DeSerialize(&qty)
+			b.Truncate(4)
+			_, err = b_dat.WriteTo(b)
 			if err != nil {
-				return fmt.Errorf("problem deserializing element count %w", err)
+				return nil, fmt.Errorf("problem combining header and data for %s: %w", tagname, err)
 			}
-
-			writeTags := make([]any, qty)
-			for i := 0; i < int(qty); i++ {
-				writeTags[i], err = typ.readValue(&item)
-				if err != nil {
-					return fmt.Errorf("problem getting write element %d: %w", i, err)
-				}
+		} else {
+			b_dat, err := Serialize(result)
+			if err != nil {
+				return nil, fmt.Errorf("problem serializing data for %s: %w", tagname, err)
 			}
-			h.server.Logger.Debug("Write", "tag", tag, "value", writeTags)
-
-			if qty > 1 {
-				err = p.TagWrite(tag, writeTags)
-				if err != nil {
-					return fmt.Errorf("problem writing tag %v. %w", tag, err)
-				}
-			} else {
-				err = p.TagWrite(tag, writeTags[0])
-				if err != nil {
-					return fmt.Errorf("problem writing tag %v. %w", tag, err)
-				}
+			_, err = b_dat.WriteTo(b)
+			if err != nil {
+				return nil, fmt.Errorf("problem combining header and data for %s: %w", tagname, err)
 			}
+		}
+		return b.Bytes(), nil
 
-			results[i] = []byte{byte(svc.AsResponse()), 0x00, 0x00, 0x00}
+	case CIPService_Write,
+		CIPService_FragWrite:
 
+		tag, err := getTagFromPath(&item)
+		if err != nil {
+			return nil, fmt.Errorf("problem deserializing tag bytes %w", err)
+		}
+		writeTags, err := parseWriteValues(&item)
+		if err != nil {
+			return nil, fmt.Errorf("problem parsing write values for tag %s: %w", tag, err)
 		}
+		h.server.Logger.Debug("Write", "tag", tag, "value", writeTags)
+		err = writeTag(p, tag, writeTags)
+		if err != nil {
+			return nil, err
+		}
+		return []byte{byte(svc.AsResponse()), 0x00, 0x00, 0x00}, nil
 
+	default:
+		return nil, errServiceNotSupported
 	}
+}
 
-	response := make([]any, qty+2)
-	response[0] = qty
+var errServiceNotSupported = errors.New("service not supported")
 
-	pos := (int(qty) + 1) * 2
-	jump_table := make([]uint16, qty)
-	for i := range jump_table {
-		jump_table[i] = uint16(pos)
-		pos += len(results[i])
+// writeTag writes the values of a write request to a tag.
+func writeTag(p CIPEndpoint, tag string, values []any) error {
+	var err error
+	switch len(values) {
+	case 0:
+		return fmt.Errorf("write of no elements to tag %v", tag)
+	case 1:
+		err = p.TagWrite(tag, values[0])
+	default:
+		err = p.TagWrite(tag, values)
 	}
-	response[1] = jump_table
-	for i := range results {
-		response[2+i] = results[i]
+	if err != nil {
+		return fmt.Errorf("problem writing tag %v. %w", tag, err)
 	}
-
-	return h.sendConnectedReply(CIPService_MultipleService, seq, connection.TO, response...)
+	return nil
 }
 
 // connectedRead handles both CIPService_Read (0x4C) and CIPService_FragRead
@@ -475,11 +494,16 @@ func parseWriteValues(item *CIPItem) ([]any, error) {
 }
 
 func (h *serverTCPHandler) sendConnectedReply(s CIPService, seq uint16, connID uint32, payload ...any) error {
+	return h.sendConnectedStatus(s, seq, connID, CIPStatus_OK, payload...)
+}
+
+func (h *serverTCPHandler) sendConnectedStatus(s CIPService, seq uint16, connID uint32, status CIPStatus, payload ...any) error {
 	items := make([]CIPItem, 2)
 	items[0] = newItem(cipItem_ConnectionAddress, connID)
 	items[1] = newItem(cipItem_ConnectedData, seq)
 	resp := msgUnconnWriteResultHeader{
 		Service: s.AsResponse(),
+		Status:  status,
 	}
 	err := items[1].Serialize(resp)
 	if err != nil {
-- 
2.43.0


From 96ef4f749d714e513183938bf85565afa80c87b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:22 +0000
Subject: [PATCH 072/107] fix: a write of no elements is refused

---
 server_connected.go   | 14 +++-----------
 server_unconnected.go | 14 +++-----------
 2 files changed, 6 insertions(+), 22 deletions(-)

diff --git a/server_connected.go b/server_connected.go
index 385f9f0..121df09 100644
--- a/server_connected.go
+++ b/server_connected.go
@@ -24,7 +24,6 @@ func (h *serverTCPHandler) cipConnectedWrite(items []CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("problem parsing write values for tag %s: %w", tag, err)
 	}
-	qty := uint16(len(results))
 	h.server.Logger.Debug("write", "tag", tag, "value", results)
 
 	if items[0].Header.ID != cipItem_ConnectionAddress {
@@ -46,16 +45,9 @@ func (h *serverTCPHandler) cipConnectedWrite(items []CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("problem finding tag provider for %v(%v). %w", connID, conn.Path, err)
 	}
-	if qty > 1 {
-		err = p.TagWrite(tag, results)
-		if err != nil {
-			return fmt.Errorf("problem writing tag %v. %w", tag, err)
-		}
-	} else {
-		err = p.TagWrite(tag, results[0])
-		if err != nil {
-			return fmt.Errorf("problem writing tag %v. %w", tag, err)
-		}
+	err = writeTag(p, tag, results)
+	if err != nil {
+		return err
 	}
 
 	// path is part of the forward open we've previously received.
diff --git a/server_unconnected.go b/server_unconnected.go
index 0537a2f..b4585d5 100644
--- a/server_unconnected.go
+++ b/server_unconnected.go
@@ -349,7 +349,6 @@ func (h *serverTCPHandler) unconnectedServiceWrite(item CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("problem parsing write values for tag %s: %w", tag, err)
 	}
-	qty := uint16(len(results))
 	var path_size uint16
 	err = item.DeSerialize(&path_size)
 	if err != nil {
@@ -366,16 +365,9 @@ func (h *serverTCPHandler) unconnectedServiceWrite(item CIPItem) error {
 		return fmt.Errorf("problem finding tag provider for %v. %w", path, err)
 	}
 	p := provider
-	if qty > 1 {
-		err = p.TagWrite(tag, results)
-		if err != nil {
-			return fmt.Errorf("problem writing tag %v. %w", tag, err)
-		}
-	} else {
-		err = p.TagWrite(tag, results[0])
-		if err != nil {
-			return fmt.Errorf("problem writing tag %v. %w", tag, err)
-		}
+	err = writeTag(p, tag, results)
+	if err != nil {
+		return err
 	}
 
 	return h.sendUnconnectedRRDataReply(CIPService_Write)
-- 
2.43.0


From 7b7d28d5b4c1be348a42508583bb9e44a999d8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:23 +0000
Subject: [PATCH 073/107] fix: forward open with an empty or long connection
 path

---
 server.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/server.go b/server.go
index 5a8c183..890a65e 100644
--- a/server.go
+++ b/server.go
@@ -709,6 +709,14 @@ type msgEIPForwardOpen_Large struct {
 	ConnPathSize           byte
 }
 
+// routeOf is the part of a connection path that selects the tag provider.
+func routeOf(path []byte) []byte {
+	if len(path) < 2 {
+		return path
+	}
+	return path[:2]
+}
+
 func (h *serverTCPHandler) largeForwardOpen(i CIPItem) error {
 	h.server.Logger.Info("got large forward open", "remote", h.conn.RemoteAddr())
 	var fwd_open msgEIPForwardOpen_Large // TODO: Transition this to the new ForwardOpen
@@ -716,13 +724,13 @@ func (h *serverTCPHandler) largeForwardOpen(i CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("problem with fwd open parsing %w", err)
 	}
-	fwd_path := make([]byte, fwd_open.ConnPathSize*2)
+	fwd_path := make([]byte, int(fwd_open.ConnPathSize)*2)
 	err = i.DeSerialize(&fwd_path)
 	if err != nil {
 		return fmt.Errorf("problem with fwd open path parsing %w", err)
 	}
 	h.server.Logger.Debug("forward open msg", "open", fwd_open, "path", fwd_path)
-	path := fwd_path[:2]
+	path := routeOf(fwd_path)
 
 	//preItem := msgPreItemData{Handle: 0, Timeout: 0}
 	items := make([]CIPItem, 2)
@@ -801,7 +809,7 @@ func (h *serverTCPHandler) forwardOpen(i CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("problem with fwd open parsing %w", err)
 	}
-	fwd_path := make([]byte, fwd_open.ConnPathSize*2)
+	fwd_path := make([]byte, int(fwd_open.ConnPathSize)*2)
 	err = i.DeSerialize(&fwd_path)
 	if err != nil {
 		return fmt.Errorf("problem with fwd open path parsing %w", err)
@@ -816,7 +824,7 @@ func (h *serverTCPHandler) forwardOpen(i CIPItem) error {
 	// then a "simple data segment" of some mystery data.
 
 	h.server.Logger.Debug("forward open msg", "open", fwd_open, "path", fwd_path)
-	path := fwd_path[:2]
+	path := routeOf(fwd_path)
 
 	//preItem := msgPreItemData{Handle: 0, Timeout: 0}
 	items := make([]CIPItem, 2)
-- 
2.43.0


From ef197d1dd5334e9fe8bd2d87043217d7f84139ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:56 +0000
Subject: [PATCH 074/107] fix: take the embedded request of an unconnected send
 by its size

---
 server_unconnected.go | 85 ++++++++++++++++++++++---------------------
 1 file changed, 44 insertions(+), 41 deletions(-)

diff --git a/server_unconnected.go b/server_unconnected.go
index b4585d5..02fc858 100644
--- a/server_unconnected.go
+++ b/server_unconnected.go
@@ -51,7 +51,7 @@ func (h *serverTCPHandler) unconnectedData(item CIPItem) error {
 	// Identity (and a handful of other classes) right after Get_Attributes_All
 	// to validate the peer. Routing it here avoids the silent-drop trap.
 	case CIPService_GetAttributeSingle:
-		err = h.unconnectedServiceGetAttrSingle(item)
+		err = h.unconnectedServiceGetAttrSingle(item, defaultLocalPath)
 		if err != nil {
 			return fmt.Errorf("problem handling get attribute single. %w", err)
 		}
@@ -60,7 +60,7 @@ func (h *serverTCPHandler) unconnectedData(item CIPItem) error {
 	// in CIP Object mode emits Service 0x10 when a numeric/string input
 	// pushes a new value to a bound CIA expression.
 	case CIPService_SetAttributeSingle:
-		err = h.unconnectedServiceSetAttrSingle(item)
+		err = h.unconnectedServiceSetAttrSingle(item, defaultLocalPath)
 		if err != nil {
 			return fmt.Errorf("problem handling set attribute single. %w", err)
 		}
@@ -72,7 +72,7 @@ func (h *serverTCPHandler) unconnectedData(item CIPItem) error {
 		if err != nil {
 			return fmt.Errorf("error getting path size 305. %w", err)
 		}
-		path := make([]byte, pathsize*2)
+		path := make([]byte, int(pathsize)*2)
 		err = item.DeSerialize(&path)
 		if err != nil {
 			return fmt.Errorf("error getting path. %w", err)
@@ -87,19 +87,41 @@ func (h *serverTCPHandler) unconnectedData(item CIPItem) error {
 		if err != nil {
 			return fmt.Errorf("error getting embedded size. %w", err)
 		}
+		embedded := make([]byte, embedded_size)
+		err = item.DeSerialize(&embedded)
+		if err != nil {
+			return fmt.Errorf("error getting embedded request. %w", err)
+		}
+		if embedded_size%2 == 1 {
+			_, err = item.Byte()
+			if err != nil {
+				return fmt.Errorf("error getting pad of embedded request: %w", io.ErrUnexpectedEOF)
+			}
+		}
+		var routeSize uint16
+		err = item.DeSerialize(&routeSize)
+		if err != nil {
+			return fmt.Errorf("couldn't get route size. %w", err)
+		}
+		route := make([]byte, 2*int(byte(routeSize)))
+		err = item.DeSerialize(&route)
+		if err != nil {
+			return fmt.Errorf("couldn't get route. %w", err)
+		}
+		emItem := newItem(cipItem_UnconnectedData, embedded)
 		var emService CIPService
-		err = item.DeSerialize(&emService)
+		err = emItem.DeSerialize(&emService)
 		if err != nil {
 			return fmt.Errorf("error getting embedded service. %w", err)
 		}
 		h.service = emService
 		switch emService {
 		case CIPService_Write:
-			return h.unconnectedServiceWrite(item)
+			return h.unconnectedServiceWrite(emItem, route)
 		case CIPService_Read:
-			return h.unconnectedServiceRead(item)
+			return h.unconnectedServiceRead(emItem, route)
 		case CIPService_GetAttributeSingle:
-			return h.unconnectedServiceGetAttrSingle(item)
+			return h.unconnectedServiceGetAttrSingle(emItem, route)
 		case CIPService_SetAttributeSingle:
 			// Reached via FactoryTalk View's CIP Object write path: the
 			// request is wrapped in UnconnectedSend (0x52) instead of going
@@ -107,9 +129,9 @@ func (h *serverTCPHandler) unconnectedData(item CIPItem) error {
 			// case the wrapped write fell through to the default branch and
 			// FT View saw "Service not supported", which surfaced in its
 			// Diagnostics List as "Problem writing value ... to item ...".
-			return h.unconnectedServiceSetAttrSingle(item)
+			return h.unconnectedServiceSetAttrSingle(emItem, route)
 		case CIPService_GetAttributeAll:
-			return h.unconnectedGetAttributeAll(item)
+			return h.unconnectedGetAttributeAll(emItem)
 		default:
 			// Reply with an explicit ServiceNotSupported CIP error so the
 			// originator knows the device is alive but the service isn't
@@ -335,7 +357,7 @@ func buildIdentityGetAttributesAllResponse(attrs map[CIPAttribute]any) ([]byte,
 	return buf.Bytes(), nil
 }
 
-func (h *serverTCPHandler) unconnectedServiceWrite(item CIPItem) error {
+func (h *serverTCPHandler) unconnectedServiceWrite(item CIPItem, path []byte) error {
 	var reserved byte
 	err := item.DeSerialize(&reserved)
 	if err != nil {
@@ -349,16 +371,6 @@ func (h *serverTCPHandler) unconnectedServiceWrite(item CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("problem parsing write values for tag %s: %w", tag, err)
 	}
-	var path_size uint16
-	err = item.DeSerialize(&path_size)
-	if err != nil {
-		return fmt.Errorf("couldn't get path size 374. %w", err)
-	}
-	path := make([]byte, 2*path_size)
-	err = item.DeSerialize(&path)
-	if err != nil {
-		return fmt.Errorf("couldn't get path. %w", err)
-	}
 
 	provider, err := h.server.Router.Resolve(path)
 	if err != nil {
@@ -374,7 +386,7 @@ func (h *serverTCPHandler) unconnectedServiceWrite(item CIPItem) error {
 
 }
 
-func (h *serverTCPHandler) unconnectedServiceGetAttrSingle(item CIPItem) error {
+func (h *serverTCPHandler) unconnectedServiceGetAttrSingle(item CIPItem, path []byte) error {
 
 	// CIP wire format for Get_Attribute_Single requests: 1-byte path size in
 	// words followed by `pathSize*2` bytes of EPATH segments. This is the
@@ -415,14 +427,14 @@ func (h *serverTCPHandler) unconnectedServiceGetAttrSingle(item CIPItem) error {
 	// (`CIA:C8:<instance>:1`) without going through the Rockwell-only
 	// Service 0x4B/0x64 tag-browsing extension.
 	if cls == 0xC8 {
-		tagName, found := h.resolveSymbolicTagFromCustomClass(uint16(inst))
+		tagName, found := h.resolveSymbolicTagFromCustomClass(path, uint16(inst))
 		if !found {
 			return h.sendUnconnectedErrorReply(CIPService_GetAttributeSingle, CIPStatus_PathDestinationUnknown)
 		}
 		if attr != 1 {
 			return h.sendUnconnectedErrorReply(CIPService_GetAttributeSingle, CIPStatus_AttributeNotSupported)
 		}
-		provider, err := h.server.Router.Resolve(defaultLocalPath)
+		provider, err := h.server.Router.Resolve(path)
 		if err != nil {
 			return h.sendUnconnectedErrorReply(CIPService_GetAttributeSingle, CIPStatus_PathDestinationUnknown)
 		}
@@ -477,7 +489,7 @@ func (h *serverTCPHandler) unconnectedServiceGetAttrSingle(item CIPItem) error {
 // is the custom 0xC8 tag-attribute bridge — Identity attributes are
 // considered read-only here. SCADA clients writing back to symbolic tags
 // via CIA paths land here.
-func (h *serverTCPHandler) unconnectedServiceSetAttrSingle(item CIPItem) error {
+func (h *serverTCPHandler) unconnectedServiceSetAttrSingle(item CIPItem, path []byte) error {
 	pathSize, err := item.Byte()
 	if err != nil {
 		return fmt.Errorf("couldn't read path size: %w", err)
@@ -504,7 +516,7 @@ func (h *serverTCPHandler) unconnectedServiceSetAttrSingle(item CIPItem) error {
 	if attr != 1 {
 		return h.sendUnconnectedErrorReply(CIPService_SetAttributeSingle, CIPStatus_AttributeNotSupported)
 	}
-	tagName, found := h.resolveSymbolicTagFromCustomClass(uint16(inst))
+	tagName, found := h.resolveSymbolicTagFromCustomClass(path, uint16(inst))
 	if !found {
 		return h.sendUnconnectedErrorReply(CIPService_SetAttributeSingle, CIPStatus_PathDestinationUnknown)
 	}
@@ -523,7 +535,7 @@ func (h *serverTCPHandler) unconnectedServiceSetAttrSingle(item CIPItem) error {
 		return h.sendUnconnectedErrorReply(CIPService_SetAttributeSingle, CIPStatus_NotEnoughData)
 	}
 
-	provider, err := h.server.Router.Resolve(defaultLocalPath)
+	provider, err := h.server.Router.Resolve(path)
 	if err != nil {
 		return h.sendUnconnectedErrorReply(CIPService_SetAttributeSingle, CIPStatus_PathDestinationUnknown)
 	}
@@ -537,8 +549,9 @@ func (h *serverTCPHandler) unconnectedServiceSetAttrSingle(item CIPItem) error {
 
 // defaultLocalPath is the routing path that the gologix sample server uses
 // to register its in-process tag provider. We use it as the canonical
-// lookup key whenever a CIP request for the custom Class 0xC8 arrives,
-// since these requests don't carry a backplane path of their own.
+// lookup key whenever a CIP request for the custom Class 0xC8 arrives
+// outside of an UnconnectedSend, since these requests don't carry a
+// backplane path of their own.
 var defaultLocalPath = []byte{1, 0}
 
 // resolveSymbolicTagFromCustomClass returns the symbolic tag name that
@@ -551,8 +564,8 @@ var defaultLocalPath = []byte{1, 0}
 // Returns ok=false if the provider doesn't implement TagLister (no
 // browsable tag set), if the instance is out of range, or if the index
 // arithmetic underflows.
-func (h *serverTCPHandler) resolveSymbolicTagFromCustomClass(instance uint16) (string, bool) {
-	provider, err := h.server.Router.Resolve(defaultLocalPath)
+func (h *serverTCPHandler) resolveSymbolicTagFromCustomClass(path []byte, instance uint16) (string, bool) {
+	provider, err := h.server.Router.Resolve(path)
 	if err != nil {
 		return "", false
 	}
@@ -568,7 +581,7 @@ func (h *serverTCPHandler) resolveSymbolicTagFromCustomClass(instance uint16) (s
 	return tags[instance-1].Name, true
 }
 
-func (h *serverTCPHandler) unconnectedServiceRead(item CIPItem) error {
+func (h *serverTCPHandler) unconnectedServiceRead(item CIPItem, path []byte) error {
 	var reserved byte
 	err := item.DeSerialize(&reserved)
 	if err != nil {
@@ -583,16 +596,6 @@ func (h *serverTCPHandler) unconnectedServiceRead(item CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("error getting write qty. %w", err)
 	}
-	var path_size uint16
-	err = item.DeSerialize(&path_size)
-	if err != nil {
-		return fmt.Errorf("couldn't get path size 374. %w", err)
-	}
-	path := make([]byte, 2*path_size)
-	err = item.DeSerialize(&path)
-	if err != nil {
-		return fmt.Errorf("couldn't get path. %w", err)
-	}
 	h.server.Logger.Debug("read", "tag", tag, "path", path, "qty", qty)
 
 	provider, err := h.server.Router.Resolve(path)
-- 
2.43.0


From 677dd56306b8aa25f099e81120202de8a9887e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:57 +0000
Subject: [PATCH 075/107] fix: take the tag of a request by the size of its
 path

---
 ioi.go                | 52 +++++++++++++++++++++++++++++++++++++++++++
 server.go             |  2 ++
 server_connected.go   | 27 ++++++----------------
 server_unconnected.go | 14 ++----------
 4 files changed, 63 insertions(+), 32 deletions(-)

diff --git a/ioi.go b/ioi.go
index f0ef9f6..f37abaa 100644
--- a/ioi.go
+++ b/ioi.go
@@ -283,6 +283,32 @@ func getAsciiTagPart(item *CIPItem) (string, error) {
 	tag_str := string(b)
 	return tag_str, nil
 }
+// getRequestTag reads the path of a request, which starts with its size in words, and
+// returns the tag it addresses.
+func getRequestTag(item *CIPItem) (string, error) {
+	var words byte
+	err := item.DeSerialize(&words)
+	if err != nil {
+		return "", fmt.Errorf("couldn't get path size: %w", err)
+	}
+	path := make([]byte, int(words)*2)
+	err = item.DeSerialize(&path)
+	if err != nil {
+		return "", fmt.Errorf("couldn't get path: %w", err)
+	}
+	pathItem := newItem(cipItem_Null, path)
+	tag, err := getTagFromPath(&pathItem)
+	if err != nil {
+		return "", fmt.Errorf("%w: %v", errPathSegment, err)
+	}
+	if tag == "" || len(pathItem.Rest()) > 0 {
+		return "", fmt.Errorf("%w: no tag in %v", errPathSegment, path)
+	}
+	return tag, nil
+}
+
+var errPathSegment = errors.New("path segment error")
+
 func getTagFromPath(item *CIPItem) (string, error) {
 
 	tag_str := ""
@@ -307,6 +333,9 @@ morepath:
 			if err != nil {
 				return "", fmt.Errorf("couldn't get array index: %w", err)
 			}
+			if tag_str == "" {
+				return "", fmt.Errorf("index %d before any name", array_index)
+			}
 			if tag_str[len(tag_str)-1] == ']' {
 				tag_str = fmt.Sprintf("%s,%d]", tag_str[:len(tag_str)-1], array_index)
 			} else {
@@ -324,6 +353,29 @@ morepath:
 			if err != nil {
 				return "", fmt.Errorf("couldn't get array index: %w", err)
 			}
+			if tag_str == "" {
+				return "", fmt.Errorf("index %d before any name", array_index)
+			}
+			if tag_str[len(tag_str)-1] == ']' {
+				tag_str = fmt.Sprintf("%s,%d]", tag_str[:len(tag_str)-1], array_index)
+			} else {
+				tag_str = fmt.Sprintf("%s[%d]", tag_str, array_index)
+			}
+		case 0x2A:
+			// four byte index
+			var pad byte
+			err = item.DeSerialize(&pad)
+			if err != nil {
+				return "", fmt.Errorf("couldn't get padding: %w", err)
+			}
+			var array_index uint32
+			err = item.DeSerialize(&array_index)
+			if err != nil {
+				return "", fmt.Errorf("couldn't get array index: %w", err)
+			}
+			if tag_str == "" {
+				return "", fmt.Errorf("index %d before any name", array_index)
+			}
 			if tag_str[len(tag_str)-1] == ']' {
 				tag_str = fmt.Sprintf("%s,%d]", tag_str[:len(tag_str)-1], array_index)
 			} else {
diff --git a/server.go b/server.go
index 890a65e..93b1df3 100644
--- a/server.go
+++ b/server.go
@@ -278,6 +278,8 @@ func refusalStatus(err error) CIPStatus {
 	switch {
 	case errors.Is(err, errPathNotRecognized):
 		return CIPStatus_PathDestinationUnknown
+	case errors.Is(err, errPathSegment):
+		return CIPStatus_PathSegmentError
 	case errors.Is(err, errServiceNotSupported):
 		return CIPStatus_ServiceNotSupported
 	case errors.Is(err, io.EOF), errors.Is(err, io.ErrUnexpectedEOF):
diff --git a/server_connected.go b/server_connected.go
index 121df09..36dfc99 100644
--- a/server_connected.go
+++ b/server_connected.go
@@ -8,14 +8,8 @@ import (
 )
 
 func (h *serverTCPHandler) cipConnectedWrite(items []CIPItem) error {
-	var l byte // length in words
 	item := items[1]
-	err := item.DeSerialize(&l)
-	if err != nil {
-		return fmt.Errorf("problem deserializing item length %w", err)
-	}
-
-	tag, err := getTagFromPath(&item)
+	tag, err := getRequestTag(&item)
 	if err != nil {
 		return fmt.Errorf("problem deserializing tag bytes %w", err)
 	}
@@ -165,16 +159,10 @@ func (h *serverTCPHandler) multiService(p CIPEndpoint, item CIPItem) ([]byte, er
 		return nil, fmt.Errorf("problem getting service: %w", err)
 	}
 
-	svcReqSize, err := item.Byte()
-	if err != nil {
-		return nil, fmt.Errorf("problem getting service req payload size: %w", io.ErrUnexpectedEOF)
-	}
-	_ = svcReqSize // don't need this yet.  It is in 16 bit words.
-
 	switch svc {
 	case CIPService_FragRead,
 		CIPService_Read:
-		tagname, err := getTagFromPath(&item)
+		tagname, err := getRequestTag(&item)
 		if err != nil {
 			return nil, fmt.Errorf("problem getting multiread tagname: %w", err)
 		}
@@ -225,7 +213,7 @@ func (h *serverTCPHandler) multiService(p CIPEndpoint, item CIPItem) ([]byte, er
 	case CIPService_Write,
 		CIPService_FragWrite:
 
-		tag, err := getTagFromPath(&item)
+		tag, err := getRequestTag(&item)
 		if err != nil {
 			return nil, fmt.Errorf("problem deserializing tag bytes %w", err)
 		}
@@ -292,15 +280,14 @@ func (h *serverTCPHandler) connectedRead(reqSvc CIPService, items []CIPItem) err
 		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
 		return fmt.Errorf("error getting sequence ID: %w / %v", err, err2)
 	}
-	var pathlen uint16
-	err = item.DeSerialize(&pathlen)
+	_, err = item.Byte() // the service
 	if err != nil {
 		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
-		return fmt.Errorf("error getting path len: %w / %v", err, err2)
+		return fmt.Errorf("error getting service: %w / %v", err, err2)
 	}
-	tag, err := getTagFromPath(&item)
+	tag, err := getRequestTag(&item)
 	if err != nil {
-		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
+		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, refusalStatus(err), 0)
 		return fmt.Errorf("couldn't parse path: %w / %v", err, err2)
 	}
 	var qty uint16
diff --git a/server_unconnected.go b/server_unconnected.go
index 02fc858..4e5f72b 100644
--- a/server_unconnected.go
+++ b/server_unconnected.go
@@ -358,12 +358,7 @@ func buildIdentityGetAttributesAllResponse(attrs map[CIPAttribute]any) ([]byte,
 }
 
 func (h *serverTCPHandler) unconnectedServiceWrite(item CIPItem, path []byte) error {
-	var reserved byte
-	err := item.DeSerialize(&reserved)
-	if err != nil {
-		return fmt.Errorf("error getting reserved byte. %w", err)
-	}
-	tag, err := getTagFromPath(&item)
+	tag, err := getRequestTag(&item)
 	if err != nil {
 		return fmt.Errorf("couldn't parse path. %w", err)
 	}
@@ -582,12 +577,7 @@ func (h *serverTCPHandler) resolveSymbolicTagFromCustomClass(path []byte, instan
 }
 
 func (h *serverTCPHandler) unconnectedServiceRead(item CIPItem, path []byte) error {
-	var reserved byte
-	err := item.DeSerialize(&reserved)
-	if err != nil {
-		return fmt.Errorf("error getting reserved byte. %w", err)
-	}
-	tag, err := getTagFromPath(&item)
+	tag, err := getRequestTag(&item)
 	if err != nil {
 		return fmt.Errorf("couldn't parse path. %w", err)
 	}
-- 
2.43.0


From 50bfaf307d02ed017d0892c5fa64fc285367df60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:57 +0000
Subject: [PATCH 076/107] fix: do not allocate for elements a write does not
 have

---
 server_connected.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server_connected.go b/server_connected.go
index 36dfc99..5be79eb 100644
--- a/server_connected.go
+++ b/server_connected.go
@@ -440,7 +440,7 @@ func parseWriteValues(item *CIPItem) ([]any, error) {
 		return nil, fmt.Errorf("error reading element count: %w", err)
 	}
 
-	results := make([]any, qty)
+	results := []any{}
 	if typ == CIPTypeStruct {
 		if structCRC != cipStringStructCRC {
 			return nil, fmt.Errorf("server only supports STRING struct writes (CRC 0x%04X); got CRC 0x%04X", cipStringStructCRC, structCRC)
@@ -457,7 +457,7 @@ func parseWriteValues(item *CIPItem) ([]any, error) {
 			if slen > cipStringDataLen {
 				slen = cipStringDataLen
 			}
-			results[i] = string(data[:slen])
+			results = append(results, string(data[:slen]))
 		}
 		return results, nil
 	}
@@ -467,7 +467,7 @@ func parseWriteValues(item *CIPItem) ([]any, error) {
 		if err != nil {
 			return nil, fmt.Errorf("error reading element %d: %w", i, err)
 		}
-		results[i] = val
+		results = append(results, val)
 	}
 	return results, nil
 }
-- 
2.43.0


From c9b50860c984e6b8e17951312079dfaed43a8876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:57 +0000
Subject: [PATCH 077/107] fix: skip the padding between the strings of an array
 write

---
 server_connected.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/server_connected.go b/server_connected.go
index 5be79eb..aecc1a8 100644
--- a/server_connected.go
+++ b/server_connected.go
@@ -445,12 +445,17 @@ func parseWriteValues(item *CIPItem) ([]any, error) {
 		if structCRC != cipStringStructCRC {
 			return nil, fmt.Errorf("server only supports STRING struct writes (CRC 0x%04X); got CRC 0x%04X", cipStringStructCRC, structCRC)
 		}
+		// the padding of an element may be left out.
+		pad := 0
+		if len(item.Rest()) >= int(qty)*cipStringTagDataLen {
+			pad = cipStringStructPad
+		}
 		for i := 0; i < int(qty); i++ {
 			var slen uint32
 			if err := item.DeSerialize(&slen); err != nil {
 				return nil, fmt.Errorf("error reading STRING LEN for element %d: %w", i, err)
 			}
-			data := make([]byte, cipStringDataLen)
+			data := make([]byte, cipStringDataLen+pad)
 			if err := item.DeSerialize(&data); err != nil {
 				return nil, fmt.Errorf("error reading STRING DATA for element %d: %w", i, err)
 			}
-- 
2.43.0


From 4c5052e0caf835d72e299d6aae06e0f6c92804d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:57 +0000
Subject: [PATCH 078/107] fix: refuse a read of more elements than a tag can be
 asked for

---
 server_connected.go   | 13 +++++++++++--
 server_router.go      |  3 +++
 server_unconnected.go |  2 +-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/server_connected.go b/server_connected.go
index aecc1a8..8ec883f 100644
--- a/server_connected.go
+++ b/server_connected.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 )
 
 func (h *serverTCPHandler) cipConnectedWrite(items []CIPItem) error {
@@ -171,7 +172,7 @@ func (h *serverTCPHandler) multiService(p CIPEndpoint, item CIPItem) ([]byte, er
 			return nil, fmt.Errorf("error getting read qty: %w", io.ErrUnexpectedEOF)
 		}
 
-		result, err := p.TagRead(tagname, int16(qty))
+		result, err := readTag(p, tagname, qty)
 		if err != nil {
 			return nil, fmt.Errorf("problem getting data for %s from provider. %w", tagname, err)
 		}
@@ -235,6 +236,14 @@ func (h *serverTCPHandler) multiService(p CIPEndpoint, item CIPItem) ([]byte, er
 
 var errServiceNotSupported = errors.New("service not supported")
 
+// readTag reads a number of elements of a tag.
+func readTag(p CIPEndpoint, tag string, qty uint16) (any, error) {
+	if qty > math.MaxInt16 {
+		return nil, fmt.Errorf("too many elements requested: %d of %v", qty, tag)
+	}
+	return p.TagRead(tag, int16(qty))
+}
+
 // writeTag writes the values of a write request to a tag.
 func writeTag(p CIPEndpoint, tag string, values []any) error {
 	var err error
@@ -305,7 +314,7 @@ func (h *serverTCPHandler) connectedRead(reqSvc CIPService, items []CIPItem) err
 		return fmt.Errorf("problem finding tag provider for %v. %w: %v", path, err, err2)
 	}
 	p := provider
-	result, err := p.TagRead(tag, int16(qty))
+	result, err := readTag(p, tag, qty)
 	if err != nil {
 		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidMemberID, 0)
 		return fmt.Errorf("problem getting data from provider. %w / %v", err, err2)
diff --git a/server_router.go b/server_router.go
index c2ce3aa..b5725f9 100644
--- a/server_router.go
+++ b/server_router.go
@@ -97,6 +97,9 @@ func (p *MapTagProvider) IOWrite(items []CIPItem) error {
 // `realarr[2]` we look up `realarr` here and return the third
 // element rather than failing with "tag not in map".
 func (p *MapTagProvider) TagRead(tag string, qty int16) (any, error) {
+	if qty < 0 {
+		return nil, fmt.Errorf("tag %v: can't read %d elements", tag, qty)
+	}
 	tag = strings.ToLower(tag)
 	p.Mutex.Lock()
 	defer p.Mutex.Unlock()
diff --git a/server_unconnected.go b/server_unconnected.go
index 4e5f72b..7e4da38 100644
--- a/server_unconnected.go
+++ b/server_unconnected.go
@@ -593,7 +593,7 @@ func (h *serverTCPHandler) unconnectedServiceRead(item CIPItem, path []byte) err
 		return fmt.Errorf("problem finding tag provider for %v. %w", path, err)
 	}
 	p := provider
-	result, err := p.TagRead(tag, int16(qty))
+	result, err := readTag(p, tag, qty)
 	if err != nil {
 		return fmt.Errorf("problem getting data from provider. %w", err)
 	}
-- 
2.43.0


From b75954252f1d87bbf5482792709b6900ac4801e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:58 +0000
Subject: [PATCH 079/107] fix: one type header for an array of strings

---
 server_connected.go   | 84 +++++++++++++++++--------------------------
 server_unconnected.go | 36 +++++--------------
 2 files changed, 40 insertions(+), 80 deletions(-)

diff --git a/server_connected.go b/server_connected.go
index 8ec883f..f466b93 100644
--- a/server_connected.go
+++ b/server_connected.go
@@ -179,37 +179,12 @@ func (h *serverTCPHandler) multiService(p CIPEndpoint, item CIPItem) ([]byte, er
 
 		// build this portion of the response msg
 
-		typ, _ := GoVarToCIPType(result)
-		rhdr := msgMultiReadResult{Service: svc.AsResponse(), Status: 0, Type: typ}
-		b, err := Serialize(rhdr)
+		typ, data, err := encodeTag(result)
 		if err != nil {
-			return nil, fmt.Errorf("problem serializing header for %s: %w", tagname, err)
+			return nil, fmt.Errorf("problem serializing data for %s: %w", tagname, err)
 		}
-		if typ == CIPTypeSTRING {
-			res_str, ok := result.(string)
-			if !ok {
-				return nil, errors.New("expected a string but didn't get one")
-			}
-			b_dat, err := Serialize(cipStringPacker(res_str))
-			if err != nil {
-				return nil, fmt.Errorf("problem serializing data for %s: %w", tagname, err)
-			}
-			b.Truncate(4)
-			_, err = b_dat.WriteTo(b)
-			if err != nil {
-				return nil, fmt.Errorf("problem combining header and data for %s: %w", tagname, err)
-			}
-		} else {
-			b_dat, err := Serialize(result)
-			if err != nil {
-				return nil, fmt.Errorf("problem serializing data for %s: %w", tagname, err)
-			}
-			_, err = b_dat.WriteTo(b)
-			if err != nil {
-				return nil, fmt.Errorf("problem combining header and data for %s: %w", tagname, err)
-			}
-		}
-		return b.Bytes(), nil
+		b := append([]byte{byte(svc.AsResponse()), 0x00, 0x00, 0x00}, typ...)
+		return append(b, data...), nil
 
 	case CIPService_Write,
 		CIPService_FragWrite:
@@ -319,32 +294,37 @@ func (h *serverTCPHandler) connectedRead(reqSvc CIPService, items []CIPItem) err
 		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidMemberID, 0)
 		return fmt.Errorf("problem getting data from provider. %w / %v", err, err2)
 	}
-	typ, _ := GoVarToCIPType(result)
+	typ, data, err := encodeTag(result)
+	if err != nil {
+		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidAttributeValue, 0)
+		return fmt.Errorf("problem serializing data for %s: %w / %v", tag, err, err2)
+	}
+	return h.sendConnectedReply(reqSvc, seq, connection.TO, typ, data)
+}
 
-	if typ == CIPTypeSTRING {
-		// Single STRING — the common case for atomic tag reads.
-		if res_str, ok := result.(string); ok {
-			return h.sendConnectedReply(reqSvc, seq, connection.TO, cipStringPacker(res_str))
-		}
-		// STRING array — emit one cipStringPacker block per element, back
-		// to back. The L24ER MSG and pylogix both unpack the wire as N×90
-		// contiguous STRING slots when the request asks for multiple
-		// elements of a STRING tag. Without this branch, full-array reads
-		// of `strarr` failed with "Invalid Attribute" because the generic
-		// fallback below tried binary.Write on a Go `[]string`, which is
-		// not fixed-size and explodes inside the serializer.
-		if res_strs, ok := result.([]string); ok {
-			payloads := make([]any, 0, len(res_strs))
-			for _, s := range res_strs {
-				payloads = append(payloads, cipStringPacker(s))
-			}
-			return h.sendConnectedReply(reqSvc, seq, connection.TO, payloads...)
+// encodeTag encodes a tag's value for the reply to a read. A STRING, which needs the
+// Logix STRING UDT wire format, or an array of them has one type segment in front of
+// all its elements.
+func encodeTag(value any) (typ []byte, data []byte, err error) {
+	var strs []string
+	switch x := value.(type) {
+	case string:
+		strs = []string{x}
+	case []string:
+		strs = x
+	default:
+		t, _ := GoVarToCIPType(value)
+		b, err := Serialize(value)
+		if err != nil {
+			return nil, nil, err
 		}
-		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidAttributeValue, 0)
-		return fmt.Errorf("was expecting a string but didn't get one: %w", err2)
-	} else {
-		return h.sendConnectedReply(reqSvc, seq, connection.TO, typ, byte(0), result)
+		return []byte{byte(t), 0}, b.Bytes(), nil
+	}
+	typ = cipStringPacker("").Bytes()[:4]
+	for _, s := range strs {
+		data = append(data, cipStringPacker(s).Bytes()[4:]...)
 	}
+	return typ, data, nil
 }
 
 // cipStringStructCRC is the StructTypeCRC the Logix STRING UDT serializes
diff --git a/server_unconnected.go b/server_unconnected.go
index 7e4da38..ef33e4b 100644
--- a/server_unconnected.go
+++ b/server_unconnected.go
@@ -437,13 +437,11 @@ func (h *serverTCPHandler) unconnectedServiceGetAttrSingle(item CIPItem, path []
 		if err != nil {
 			return h.sendUnconnectedErrorReply(CIPService_GetAttributeSingle, CIPStatus_ObjectDoesNotExist)
 		}
-		typ, _ := GoVarToCIPType(val)
-		if typ == CIPTypeSTRING {
-			if s, ok := val.(string); ok {
-				return h.sendUnconnectedRRDataReply(CIPService_GetAttributeSingle, cipStringPacker(s))
-			}
+		typ, data, err := encodeTag(val)
+		if err != nil {
+			return h.sendUnconnectedErrorReply(CIPService_GetAttributeSingle, CIPStatus_InvalidAttributeValue)
 		}
-		return h.sendUnconnectedRRDataReply(CIPService_GetAttributeSingle, typ, byte(0), val)
+		return h.sendUnconnectedRRDataReply(CIPService_GetAttributeSingle, typ, data)
 	}
 
 	// Class 0x01 Identity is the only standard class with attribute data
@@ -598,29 +596,11 @@ func (h *serverTCPHandler) unconnectedServiceRead(item CIPItem, path []byte) err
 		return fmt.Errorf("problem getting data from provider. %w", err)
 	}
 	h.server.Logger.Debug("Read", "tag", tag, "path", path, "qty", qty, "results", result)
-	typ, _ := GoVarToCIPType(result)
-
-	// STRING values need the Logix STRING UDT wire format (type segment
-	// `0xA0 0x02 0x0FCE` + LEN + DATA[82] + alignment padding) instead of
-	// raw bytes, otherwise external clients (pylogix, FT Linx, MSG read on
-	// a real Logix controller) can't decode the reply. Mirror the special
-	// branch the connected read path already had, so a single STRING tag
-	// and a STRING element of an array both deserialize cleanly.
-	if typ == CIPTypeSTRING {
-		if s, ok := result.(string); ok {
-			return h.sendUnconnectedRRDataReply(CIPService_Read, cipStringPacker(s))
-		}
-		if ss, ok := result.([]string); ok {
-			payloads := make([]any, 0, len(ss))
-			for _, s := range ss {
-				payloads = append(payloads, cipStringPacker(s))
-			}
-			return h.sendUnconnectedRRDataReply(CIPService_Read, payloads...)
-		}
+	typ, data, err := encodeTag(result)
+	if err != nil {
+		return fmt.Errorf("problem serializing data for %s: %w", tag, err)
 	}
-
-	return h.sendUnconnectedRRDataReply(CIPService_Read, typ, byte(0), result)
-
+	return h.sendUnconnectedRRDataReply(CIPService_Read, typ, data)
 }
 
 // sendUnconnectedErrorReply emits a CIP error response carrying a non-zero
-- 
2.43.0


From faf36e12302e5b3d745b14039ecb917361c9df60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:58 +0000
Subject: [PATCH 080/107] fix: read tags larger than one reply in fragments

---
 server.go             |  2 ++
 server_connected.go   | 52 +++++++++++++++++++++++++++++++++++++++++--
 server_unconnected.go |  3 +++
 3 files changed, 55 insertions(+), 2 deletions(-)

diff --git a/server.go b/server.go
index 93b1df3..a751732 100644
--- a/server.go
+++ b/server.go
@@ -278,6 +278,8 @@ func refusalStatus(err error) CIPStatus {
 	switch {
 	case errors.Is(err, errPathNotRecognized):
 		return CIPStatus_PathDestinationUnknown
+	case errors.Is(err, errReplyTooLarge):
+		return CIPStatus_ReplyDataTooLarge
 	case errors.Is(err, errPathSegment):
 		return CIPStatus_PathSegmentError
 	case errors.Is(err, errServiceNotSupported):
diff --git a/server_connected.go b/server_connected.go
index f466b93..606e98f 100644
--- a/server_connected.go
+++ b/server_connected.go
@@ -117,6 +117,7 @@ func (h *serverTCPHandler) connectedMulti(items []CIPItem) error {
 
 	status := CIPStatus_OK
 	results := make([][]byte, qty)
+	size := 0
 	for i := range results {
 		// each service ends where the next one begins.
 		end := len(payload)
@@ -128,6 +129,11 @@ func (h *serverTCPHandler) connectedMulti(items []CIPItem) error {
 		svcItem := newItem(cipItem_Null, payload[offsets[i]:end])
 		svc := CIPService(payload[offsets[i]])
 		results[i], err = h.multiService(p, svcItem)
+		size += len(results[i])
+		if err == nil && size > maxReadData {
+			err = fmt.Errorf("%w: %d bytes", errReplyTooLarge, size)
+			size -= len(results[i])
+		}
 		if err != nil {
 			h.server.Logger.Warn("service of multi service packet refused", "item", i, "service", svc, "error", err)
 			results[i] = []byte{byte(svc.AsResponse()), 0x00, byte(refusalStatus(err)), 0x00}
@@ -171,6 +177,13 @@ func (h *serverTCPHandler) multiService(p CIPEndpoint, item CIPItem) ([]byte, er
 		if err != nil {
 			return nil, fmt.Errorf("error getting read qty: %w", io.ErrUnexpectedEOF)
 		}
+		var offset uint32
+		if svc == CIPService_FragRead {
+			offset, err = item.Uint32()
+			if err != nil {
+				return nil, fmt.Errorf("error getting read offset: %w", io.ErrUnexpectedEOF)
+			}
+		}
 
 		result, err := readTag(p, tagname, qty)
 		if err != nil {
@@ -183,7 +196,11 @@ func (h *serverTCPHandler) multiService(p CIPEndpoint, item CIPItem) ([]byte, er
 		if err != nil {
 			return nil, fmt.Errorf("problem serializing data for %s: %w", tagname, err)
 		}
-		b := append([]byte{byte(svc.AsResponse()), 0x00, 0x00, 0x00}, typ...)
+		data, status, err := readFragment(data, offset)
+		if err != nil {
+			return nil, fmt.Errorf("problem reading %s: %w", tagname, err)
+		}
+		b := append([]byte{byte(svc.AsResponse()), 0x00, byte(status), 0x00}, typ...)
 		return append(b, data...), nil
 
 	case CIPService_Write,
@@ -210,6 +227,7 @@ func (h *serverTCPHandler) multiService(p CIPEndpoint, item CIPItem) ([]byte, er
 }
 
 var errServiceNotSupported = errors.New("service not supported")
+var errReplyTooLarge = errors.New("reply data too large")
 
 // readTag reads a number of elements of a tag.
 func readTag(p CIPEndpoint, tag string, qty uint16) (any, error) {
@@ -283,6 +301,15 @@ func (h *serverTCPHandler) connectedRead(reqSvc CIPService, items []CIPItem) err
 
 	path := connection.Path
 
+	var offset uint32
+	if reqSvc == CIPService_FragRead {
+		err = item.DeSerialize(&offset)
+		if err != nil {
+			err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_NotEnoughData, 0)
+			return fmt.Errorf("error getting offset: %w / %v", err, err2)
+		}
+	}
+
 	provider, err := h.server.Router.Resolve(path)
 	if err != nil {
 		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_PathDestinationUnknown, 0)
@@ -299,7 +326,28 @@ func (h *serverTCPHandler) connectedRead(reqSvc CIPService, items []CIPItem) err
 		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidAttributeValue, 0)
 		return fmt.Errorf("problem serializing data for %s: %w / %v", tag, err, err2)
 	}
-	return h.sendConnectedReply(reqSvc, seq, connection.TO, typ, data)
+	data, status, err := readFragment(data, offset)
+	if err != nil {
+		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
+		return fmt.Errorf("problem reading %s: %w / %v", tag, err, err2)
+	}
+	return h.sendConnectedStatus(reqSvc, seq, connection.TO, status, typ, data)
+}
+
+// a reply holds at most this much of a tag's data.
+const maxReadData = 64000
+
+// readFragment is the part of a tag's data that fits a reply, starting at an offset, and the
+// status it is sent with.
+func readFragment(data []byte, offset uint32) ([]byte, CIPStatus, error) {
+	if offset > uint32(len(data)) || (offset > 0 && offset == uint32(len(data))) {
+		return nil, 0, fmt.Errorf("offset %d is past the %d bytes of data", offset, len(data))
+	}
+	data = data[offset:]
+	if len(data) > maxReadData {
+		return data[:maxReadData], CIPStatus_PartialTransfer, nil
+	}
+	return data, CIPStatus_OK, nil
 }
 
 // encodeTag encodes a tag's value for the reply to a read. A STRING, which needs the
diff --git a/server_unconnected.go b/server_unconnected.go
index ef33e4b..c10c8d3 100644
--- a/server_unconnected.go
+++ b/server_unconnected.go
@@ -600,6 +600,9 @@ func (h *serverTCPHandler) unconnectedServiceRead(item CIPItem, path []byte) err
 	if err != nil {
 		return fmt.Errorf("problem serializing data for %s: %w", tag, err)
 	}
+	if len(data) > maxReadData {
+		return fmt.Errorf("%w: %s has %d bytes", errReplyTooLarge, tag, len(data))
+	}
 	return h.sendUnconnectedRRDataReply(CIPService_Read, typ, data)
 }
 
-- 
2.43.0


From 1524219824cdd5acde04aa4b8e9f65ab5a8cefa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:58 +0000
Subject: [PATCH 081/107] fix: read the offset of a fragmented write

---
 server_connected.go | 48 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/server_connected.go b/server_connected.go
index 606e98f..66c3c73 100644
--- a/server_connected.go
+++ b/server_connected.go
@@ -210,7 +210,12 @@ func (h *serverTCPHandler) multiService(p CIPEndpoint, item CIPItem) ([]byte, er
 		if err != nil {
 			return nil, fmt.Errorf("problem deserializing tag bytes %w", err)
 		}
-		writeTags, err := parseWriteValues(&item)
+		var writeTags []any
+		if svc == CIPService_FragWrite {
+			writeTags, err = parseFragWriteValues(&item)
+		} else {
+			writeTags, err = parseWriteValues(&item)
+		}
 		if err != nil {
 			return nil, fmt.Errorf("problem parsing write values for tag %s: %w", tag, err)
 		}
@@ -451,32 +456,59 @@ func (c cipStringPacker) Bytes() []byte {
 // Both cipConnectedWrite and unconnectedServiceWrite go through this helper
 // so the wire format stays in one place.
 func parseWriteValues(item *CIPItem) ([]any, error) {
-	var typ CIPType
+	typ, structCRC, qty, err := parseWriteHeader(item)
+	if err != nil {
+		return nil, err
+	}
+	return parseWriteElements(item, typ, structCRC, qty)
+}
+
+// parseFragWriteValues is parseWriteValues for a fragmented write, which has the offset of its
+// data after the element count. Only a write that has all of its elements is supported.
+func parseFragWriteValues(item *CIPItem) ([]any, error) {
+	typ, structCRC, qty, err := parseWriteHeader(item)
+	if err != nil {
+		return nil, err
+	}
+	var offset uint32
+	if err := item.DeSerialize(&offset); err != nil {
+		return nil, fmt.Errorf("error reading offset: %w", err)
+	}
+	if offset != 0 {
+		return nil, fmt.Errorf("%w: write of a fragment at %d", errServiceNotSupported, offset)
+	}
+	return parseWriteElements(item, typ, structCRC, qty)
+}
+
+// parseWriteHeader decodes a write up to and including its element count.
+func parseWriteHeader(item *CIPItem) (typ CIPType, structCRC uint16, qty uint16, err error) {
 	if err := item.DeSerialize(&typ); err != nil {
-		return nil, fmt.Errorf("error reading write type: %w", err)
+		return 0, 0, 0, fmt.Errorf("error reading write type: %w", err)
 	}
 	var typeInfoLen byte
 	if err := item.DeSerialize(&typeInfoLen); err != nil {
-		return nil, fmt.Errorf("error reading type-info length: %w", err)
+		return 0, 0, 0, fmt.Errorf("error reading type-info length: %w", err)
 	}
 
 	// Read whatever type info bytes the segment declares before qty.
-	var structCRC uint16
 	if typeInfoLen > 0 {
 		typeInfo := make([]byte, int(typeInfoLen))
 		if err := item.DeSerialize(&typeInfo); err != nil {
-			return nil, fmt.Errorf("error reading %d bytes of type info: %w", len(typeInfo), err)
+			return 0, 0, 0, fmt.Errorf("error reading %d bytes of type info: %w", len(typeInfo), err)
 		}
 		if typ == CIPTypeStruct && len(typeInfo) >= 2 {
 			structCRC = binary.LittleEndian.Uint16(typeInfo[0:2])
 		}
 	}
 
-	var qty uint16
 	if err := item.DeSerialize(&qty); err != nil {
-		return nil, fmt.Errorf("error reading element count: %w", err)
+		return 0, 0, 0, fmt.Errorf("error reading element count: %w", err)
 	}
+	return typ, structCRC, qty, nil
+}
 
+// parseWriteElements decodes the elements of a write.
+func parseWriteElements(item *CIPItem, typ CIPType, structCRC uint16, qty uint16) ([]any, error) {
 	results := []any{}
 	if typ == CIPTypeStruct {
 		if structCRC != cipStringStructCRC {
-- 
2.43.0


From 70e4eb504bb306654db5f0cb98908eebea9d8e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:04 +0000
Subject: [PATCH 082/107] fix: a connection belongs to the session that opened
 it

---
 server.go             | 37 +++++++++++++++++++++++++++++++------
 server_connected.go   |  8 ++++----
 server_connections.go | 30 ++++++++++++++++++++++++++++++
 3 files changed, 65 insertions(+), 10 deletions(-)

diff --git a/server.go b/server.go
index a751732..7624e29 100644
--- a/server.go
+++ b/server.go
@@ -211,6 +211,7 @@ func (h *serverTCPHandler) serve(srv *Server) error {
 	// if this function ends, close and remove ourselves from the server's open connection list.
 	defer func() {
 		h.conn.Close()
+		h.server.ConnMgr.closeWhere(h, func(*serverConnection) bool { return true })
 	}()
 
 	for {
@@ -361,7 +362,7 @@ func (h *serverTCPHandler) sendUnitData(hdr eipHeader) error {
 		return fmt.Errorf("problem deserializing service %w", err)
 	}
 	h.service = service
-	conn, err := h.server.ConnMgr.GetByOT(connId)
+	conn, err := h.connection(connId)
 	if err != nil {
 		h.server.Logger.Warn("request on an unknown connection", "connection", connId)
 		return h.sendConnectedError(service, h.UnitDataSequencer, 0, CIPStatus_ConnectionLost, 0)
@@ -370,6 +371,18 @@ func (h *serverTCPHandler) sendUnitData(hdr eipHeader) error {
 	return h.refuseConnected(h.connectedData(service, items))
 }
 
+// connection is the connection that this session has opened with an O->T id.
+func (h *serverTCPHandler) connection(OT uint32) (*serverConnection, error) {
+	conn, err := h.server.ConnMgr.GetByOT(OT)
+	if err != nil {
+		return nil, err
+	}
+	if conn.owner != h {
+		return nil, fmt.Errorf("connection %v belongs to another session", OT)
+	}
+	return conn, nil
+}
+
 // connectedData handles one request on a connection.
 func (h *serverTCPHandler) connectedData(service CIPService, items []CIPItem) error {
 	var err error
@@ -532,7 +545,7 @@ func (h *serverTCPHandler) connectedSymbolList(items []CIPItem) error {
 	if err := items[0].DeSerialize(&connID); err != nil {
 		return fmt.Errorf("symbol list: conn ID: %w", err)
 	}
-	conn, err := h.server.ConnMgr.GetByOT(connID)
+	conn, err := h.connection(connID)
 	if err != nil {
 		return fmt.Errorf("symbol list: conn lookup: %w", err)
 	}
@@ -639,9 +652,13 @@ func (h *serverTCPHandler) forwardClose(i CIPItem) error {
 		return fmt.Errorf("problem parsing forward close %w", err)
 	}
 	h.server.Logger.Info("Closing connection", "serial", fwd_close.ConnectionSerialNumber)
-	err = h.server.ConnMgr.CloseByID(fwd_close.ConnectionSerialNumber)
-	if err != nil {
-		h.server.Logger.Warn("couldn't close connection", "serial", fwd_close.ConnectionSerialNumber, "error", err)
+	closed := h.server.ConnMgr.closeWhere(h, func(conn *serverConnection) bool {
+		return conn.ID == fwd_close.ConnectionSerialNumber &&
+			conn.vendor == fwd_close.VendorID &&
+			conn.originatorSerial == fwd_close.OriginatorSerialNumber
+	})
+	if closed == 0 {
+		h.server.Logger.Warn("couldn't close connection", "serial", fwd_close.ConnectionSerialNumber)
 		return h.sendUnconnectedErrorReply(CIPService_ForwardClose, CIPStatus_ConnectionFailure)
 	}
 
@@ -795,6 +812,10 @@ func (h *serverTCPHandler) largeForwardOpen(i CIPItem) error {
 		RPI:  time.Duration(fwd_open.TORPI) * time.Microsecond,
 		Path: path,
 		Open: true,
+
+		owner:            h,
+		vendor:           fwd_open.VendorID,
+		originatorSerial: fwd_open.OriginatorSerialNumber,
 	}
 
 	h.server.ConnMgr.Add(cipConnection)
@@ -883,6 +904,10 @@ func (h *serverTCPHandler) forwardOpen(i CIPItem) error {
 		RPI:  time.Duration(fwd_open.TORPI) * time.Microsecond,
 		Path: path,
 		Open: true,
+
+		owner:            h,
+		vendor:           fwd_open.VendorID,
+		originatorSerial: fwd_open.OriginatorSerialNumber,
 	}
 
 	h.server.ConnMgr.Add(cipConnection)
@@ -921,7 +946,7 @@ func (h *serverTCPHandler) ioConnection(fwd_open msgEIPForwardOpen_Standard, tp
 	for {
 		seq++
 		<-t.C
-		if !conn.Open {
+		if !h.server.ConnMgr.isOpen(conn) {
 			h.server.Logger.Warn("connection closed. no longer sending IO messages", "conn", *conn)
 			return
 
diff --git a/server_connected.go b/server_connected.go
index 66c3c73..68182f4 100644
--- a/server_connected.go
+++ b/server_connected.go
@@ -31,7 +31,7 @@ func (h *serverTCPHandler) cipConnectedWrite(items []CIPItem) error {
 		return fmt.Errorf("problem deserializing connection ID (%+v) %w", items[0], err)
 	}
 
-	conn, err := h.server.ConnMgr.GetByOT(connID)
+	conn, err := h.connection(connID)
 	if err != nil {
 		return fmt.Errorf("no server handler for %v. %w", connID, err)
 	}
@@ -57,7 +57,7 @@ func (h *serverTCPHandler) connectedMulti(items []CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("couldn't get connection ID from item 0: %w", err)
 	}
-	connection, err := h.server.ConnMgr.GetByOT(connID)
+	connection, err := h.connection(connID)
 	if err != nil {
 		return fmt.Errorf("couldn't get connection with ID %v: %w", connID, err)
 	}
@@ -272,7 +272,7 @@ func (h *serverTCPHandler) connectedRead(reqSvc CIPService, items []CIPItem) err
 		err2 := h.sendConnectedError(reqSvc, 0, 0, CIPStatus_InvalidParameter, 0)
 		return fmt.Errorf("couldn't get connection ID from item 0: %w / %v", err, err2)
 	}
-	connection, err := h.server.ConnMgr.GetByOT(connID)
+	connection, err := h.connection(connID)
 	if err != nil {
 		err2 := h.sendConnectedError(reqSvc, 0, 0, CIPStatus_ConnectionLost, 0)
 		return fmt.Errorf("couldn't get connection with ID %v: %w /%v", connID, err, err2)
@@ -602,7 +602,7 @@ func (h *serverTCPHandler) connectedGetAttr(items []CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("couldn't get connection ID from item 0: %w", err)
 	}
-	connection, err := h.server.ConnMgr.GetByOT(connID)
+	connection, err := h.connection(connID)
 	if err != nil {
 		return fmt.Errorf("couldn't get connection with ID %v: %w", connID, err)
 	}
diff --git a/server_connections.go b/server_connections.go
index 37cf22f..f24cd76 100644
--- a/server_connections.go
+++ b/server_connections.go
@@ -14,6 +14,10 @@ type serverConnection struct {
 	RPI  time.Duration
 	Path []byte
 	Open bool
+
+	owner            *serverTCPHandler // the session that opened it
+	vendor           uint16
+	originatorSerial uint32
 }
 
 type serverConnectionManager struct {
@@ -32,6 +36,32 @@ func (cm *serverConnectionManager) Add(conn *serverConnection) {
 	defer cm.Lock.Unlock()
 	cm.Connections = append(cm.Connections, conn)
 }
+
+// closeWhere closes the connections of a session that match, and returns how many there were.
+func (cm *serverConnectionManager) closeWhere(owner *serverTCPHandler, match func(*serverConnection) bool) int {
+	cm.Lock.Lock()
+	defer cm.Lock.Unlock()
+	kept := make([]*serverConnection, 0, 32)
+	closed := 0
+	for _, conn := range cm.Connections {
+		if conn.owner != owner || !match(conn) {
+			kept = append(kept, conn)
+			continue
+		}
+		conn.Open = false
+		closed++
+	}
+	cm.Connections = kept
+	return closed
+}
+
+// isOpen reports whether a connection has not been closed yet.
+func (cm *serverConnectionManager) isOpen(conn *serverConnection) bool {
+	cm.Lock.RLock()
+	defer cm.Lock.RUnlock()
+	return conn.Open
+}
+
 func (cm *serverConnectionManager) GetByID(ID uint16) (*serverConnection, error) {
 	cm.Lock.RLock()
 	defer cm.Lock.RUnlock()
-- 
2.43.0


From cdbdae9bd257d427af3088db2cae137d3d725fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:04 +0000
Subject: [PATCH 083/107] fix: give every connection its own id

---
 server.go             | 68 +++++++++++++++++++------------------------
 server_connections.go | 16 ++++++++++
 2 files changed, 46 insertions(+), 38 deletions(-)

diff --git a/server.go b/server.go
index 7624e29..2dc83ed 100644
--- a/server.go
+++ b/server.go
@@ -764,11 +764,22 @@ func (h *serverTCPHandler) largeForwardOpen(i CIPItem) error {
 		h.TOConnectionID = fwd_open.TOConnectionID
 	}
 	fwd_open.TOConnectionID = h.TOConnectionID
-	if fwd_open.OTConnectionID == 0 {
-		h.OTConnectionID = rand.Uint32()
-	} else {
-		h.OTConnectionID = fwd_open.OTConnectionID
+
+	cipConnection := &serverConnection{
+		TO:   fwd_open.TOConnectionID,
+		OT:   fwd_open.OTConnectionID,
+		ID:   fwd_open.ConnectionSerialNumber,
+		RPI:  time.Duration(fwd_open.TORPI) * time.Microsecond,
+		Path: path,
+		Open: true,
+
+		owner:            h,
+		vendor:           fwd_open.VendorID,
+		originatorSerial: fwd_open.OriginatorSerialNumber,
 	}
+
+	h.server.ConnMgr.Add(cipConnection)
+	h.OTConnectionID = cipConnection.OT
 	fwd_open.OTConnectionID = h.OTConnectionID
 	// Echo the requested RPI back as the Actual Packet Interval (API). CIP
 	// spec ODVA Vol 1 §3-5.6 allows the target to commit to a different API
@@ -805,21 +816,6 @@ func (h *serverTCPHandler) largeForwardOpen(i CIPItem) error {
 		return fmt.Errorf("problem sending response data %w", err)
 	}
 
-	cipConnection := &serverConnection{
-		TO:   fwd_open.TOConnectionID,
-		OT:   fwd_open.OTConnectionID,
-		ID:   fwd_open.ConnectionSerialNumber,
-		RPI:  time.Duration(fwd_open.TORPI) * time.Microsecond,
-		Path: path,
-		Open: true,
-
-		owner:            h,
-		vendor:           fwd_open.VendorID,
-		originatorSerial: fwd_open.OriginatorSerialNumber,
-	}
-
-	h.server.ConnMgr.Add(cipConnection)
-
 	if fwd_open.TransportTrigger == 1 {
 		h.server.Logger.Warn("Large Forward Open IO Connections Not Yet Supported")
 	}
@@ -862,11 +858,22 @@ func (h *serverTCPHandler) forwardOpen(i CIPItem) error {
 		h.TOConnectionID = fwd_open.TOConnectionID
 	}
 	fwd_open.TOConnectionID = h.TOConnectionID
-	if fwd_open.OTConnectionID == 0 {
-		h.OTConnectionID = rand.Uint32()
-	} else {
-		h.OTConnectionID = fwd_open.OTConnectionID
+
+	cipConnection := &serverConnection{
+		TO:   fwd_open.TOConnectionID,
+		OT:   fwd_open.OTConnectionID,
+		ID:   fwd_open.ConnectionSerialNumber,
+		RPI:  time.Duration(fwd_open.TORPI) * time.Microsecond,
+		Path: path,
+		Open: true,
+
+		owner:            h,
+		vendor:           fwd_open.VendorID,
+		originatorSerial: fwd_open.OriginatorSerialNumber,
 	}
+
+	h.server.ConnMgr.Add(cipConnection)
+	h.OTConnectionID = cipConnection.OT
 	fwd_open.OTConnectionID = h.OTConnectionID
 	// See largeForwardOpen above for why API must echo the requested RPI
 	// instead of zero. Same fix applies to the standard (small) Forward
@@ -897,21 +904,6 @@ func (h *serverTCPHandler) forwardOpen(i CIPItem) error {
 		return fmt.Errorf("problem sending response data %w", err)
 	}
 
-	cipConnection := &serverConnection{
-		TO:   fwd_open.TOConnectionID,
-		OT:   fwd_open.OTConnectionID,
-		ID:   fwd_open.ConnectionSerialNumber,
-		RPI:  time.Duration(fwd_open.TORPI) * time.Microsecond,
-		Path: path,
-		Open: true,
-
-		owner:            h,
-		vendor:           fwd_open.VendorID,
-		originatorSerial: fwd_open.OriginatorSerialNumber,
-	}
-
-	h.server.ConnMgr.Add(cipConnection)
-
 	if fwd_open.TransportTrigger == 1 {
 		// this is a cyclic IO connection
 		tp, err := h.server.Router.Resolve(path)
diff --git a/server_connections.go b/server_connections.go
index f24cd76..ebc37f0 100644
--- a/server_connections.go
+++ b/server_connections.go
@@ -3,6 +3,7 @@ package gologix
 import (
 	"fmt"
 	"log/slog"
+	"math/rand"
 	"sync"
 	"time"
 )
@@ -34,9 +35,24 @@ func (cm *serverConnectionManager) Add(conn *serverConnection) {
 	cm.Logger.Info("New Managed Connection.", "conn", *conn)
 	cm.Lock.Lock()
 	defer cm.Lock.Unlock()
+	// the target chooses the O->T id, which has to be different for each connection.
+	for conn.OT == 0 || cm.usedOT(conn.OT) {
+		conn.OT = rand.Uint32()
+	}
 	cm.Connections = append(cm.Connections, conn)
 }
 
+// usedOT has to be called with the lock held.
+func (cm *serverConnectionManager) usedOT(OT uint32) bool {
+	for _, conn := range cm.Connections {
+		if conn.OT == OT {
+			return true
+		}
+	}
+	return false
+}
+
+
 // closeWhere closes the connections of a session that match, and returns how many there were.
 func (cm *serverConnectionManager) closeWhere(owner *serverTCPHandler, match func(*serverConnection) bool) int {
 	cm.Lock.Lock()
-- 
2.43.0


From 7e5511dc38000a2944ec128484b13789c0153612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:04 +0000
Subject: [PATCH 084/107] fix: refuse an IO connection that can not be served

---
 server.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/server.go b/server.go
index 2dc83ed..442b1a5 100644
--- a/server.go
+++ b/server.go
@@ -753,6 +753,11 @@ func (h *serverTCPHandler) largeForwardOpen(i CIPItem) error {
 	h.server.Logger.Debug("forward open msg", "open", fwd_open, "path", fwd_path)
 	path := routeOf(fwd_path)
 
+	if fwd_open.TransportTrigger == 1 {
+		h.server.Logger.Warn("Large Forward Open IO Connections Not Yet Supported")
+		return h.sendUnconnectedErrorReply(fwd_open.Service, CIPStatus_ConnectionFailure)
+	}
+
 	//preItem := msgPreItemData{Handle: 0, Timeout: 0}
 	items := make([]CIPItem, 2)
 	items[0] = CIPItem{Header: cipItemHeader{ID: cipItem_Null}}
@@ -816,10 +821,6 @@ func (h *serverTCPHandler) largeForwardOpen(i CIPItem) error {
 		return fmt.Errorf("problem sending response data %w", err)
 	}
 
-	if fwd_open.TransportTrigger == 1 {
-		h.server.Logger.Warn("Large Forward Open IO Connections Not Yet Supported")
-	}
-
 	return nil
 }
 
@@ -847,6 +848,18 @@ func (h *serverTCPHandler) forwardOpen(i CIPItem) error {
 	h.server.Logger.Debug("forward open msg", "open", fwd_open, "path", fwd_path)
 	path := routeOf(fwd_path)
 
+	var tp CIPEndpoint
+	if fwd_open.TransportTrigger == 1 {
+		// this is a cyclic IO connection
+		tp, err = h.server.Router.Resolve(path)
+		if err != nil {
+			return fmt.Errorf("no tag provider for path %v: %w", path, err)
+		}
+		if fwd_open.TORPI == 0 {
+			return fmt.Errorf("IO connection with an RPI of 0")
+		}
+	}
+
 	//preItem := msgPreItemData{Handle: 0, Timeout: 0}
 	items := make([]CIPItem, 2)
 	items[0] = CIPItem{Header: cipItemHeader{ID: cipItem_Null}}
@@ -905,11 +918,6 @@ func (h *serverTCPHandler) forwardOpen(i CIPItem) error {
 	}
 
 	if fwd_open.TransportTrigger == 1 {
-		// this is a cyclic IO connection
-		tp, err := h.server.Router.Resolve(path)
-		if err != nil {
-			return fmt.Errorf("no tag provider for path %v", path)
-		}
 		go h.ioConnection(fwd_open, tp, cipConnection)
 	}
 
@@ -920,6 +928,7 @@ func (h *serverTCPHandler) ioConnection(fwd_open msgEIPForwardOpen_Standard, tp
 	rpi := time.Duration(fwd_open.TORPI) * time.Microsecond
 	h.server.Logger.Info("IO Connection", "rpi", rpi)
 	t := time.NewTicker(rpi)
+	defer t.Stop()
 	seq := uint32(0)
 
 	// get the address to send the response back to, trim off the port number, and add the eip udp port number (2222) back on.
-- 
2.43.0


From 48cf4c84dc3ea8ad327a834fa8c849921a8eb115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:04 +0000
Subject: [PATCH 085/107] fix: handle a datagram by its own length

---
 server.go           | 3 +--
 server_io.go        | 7 +------
 server_iochannel.go | 7 +------
 3 files changed, 3 insertions(+), 14 deletions(-)

diff --git a/server.go b/server.go
index 442b1a5..1aff0e7 100644
--- a/server.go
+++ b/server.go
@@ -150,7 +150,6 @@ func (srv *Server) serveUDP() error {
 	bufSize := 4096
 	for {
 		b := make([]byte, 4096)
-		buf := bytes.NewBuffer(b)
 		n, addr, err := srv.UDPListener.ReadFrom(b)
 		if n == 0 {
 			srv.Logger.Debug("Read 0 bytes on udp listener.")
@@ -167,7 +166,7 @@ func (srv *Server) serveUDP() error {
 		_ = addr // don't need this yet.
 		// we've read a packet on udp so we need to parse the eip data
 
-		items, err := readItems(buf)
+		items, err := readItems(bytes.NewReader(b[:n]))
 		if err != nil {
 			srv.Logger.Debug("problem reading udp items", "error", err)
 			continue
diff --git a/server_io.go b/server_io.go
index cde4d06..b7b6c05 100644
--- a/server_io.go
+++ b/server_io.go
@@ -58,12 +58,7 @@ func (p *IOProvider[Tin, Tout]) IOWrite(items []CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("problem getting header. %w", err)
 	}
-	payload := make([]byte, items[1].Header.Length-6)
-	err = items[1].DeSerialize(&payload)
-	if err != nil {
-		return fmt.Errorf("problem getting raw data. %w", err)
-	}
-	b := bytes.NewBuffer(payload)
+	b := bytes.NewBuffer(items[1].Rest())
 
 	p.OutMutex.Lock()
 	defer p.OutMutex.Unlock()
diff --git a/server_iochannel.go b/server_iochannel.go
index 2c2d9ff..bafc815 100644
--- a/server_iochannel.go
+++ b/server_iochannel.go
@@ -58,12 +58,7 @@ func (p *IOChannelProvider[Tin, Tout]) IOWrite(items []CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("problem getting header. %w", err)
 	}
-	payload := make([]byte, items[1].Header.Length-6)
-	err = items[1].DeSerialize(&payload)
-	if err != nil {
-		return fmt.Errorf("problem getting raw data. %w", err)
-	}
-	b := bytes.NewBuffer(payload)
+	b := bytes.NewBuffer(items[1].Rest())
 
 	var out Tout
 	_, err = Unpack(b, &out)
-- 
2.43.0


From 9f49cefb401d869e1f430039d981a7a93c108d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:05 +0000
Subject: [PATCH 086/107] fix: update the output data in full or not at all

---
 server_io.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server_io.go b/server_io.go
index b7b6c05..aad8f89 100644
--- a/server_io.go
+++ b/server_io.go
@@ -63,10 +63,12 @@ func (p *IOProvider[Tin, Tout]) IOWrite(items []CIPItem) error {
 	p.OutMutex.Lock()
 	defer p.OutMutex.Unlock()
 
-	_, err = Unpack(b, p.Out)
+	out := *p.Out
+	_, err = Unpack(b, &out)
 	if err != nil {
 		return fmt.Errorf("problem unpacking data into output struct %w", err)
 	}
+	*p.Out = out
 
 	return nil
 }
-- 
2.43.0


From cf6a9274338bd8ad8708447c8b323e02065369a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:05 +0000
Subject: [PATCH 087/107] fix: keep the element type of an array that is
 written

---
 server_router.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/server_router.go b/server_router.go
index b5725f9..fc9dfb1 100644
--- a/server_router.go
+++ b/server_router.go
@@ -190,13 +190,18 @@ func (p *MapTagProvider) TagWrite(tag string, value any) error {
 	// Full-tag write. If the new value is `[]any` AND the existing tag is a
 	// typed slice, coerce element-by-element to preserve the original type
 	// so subsequent reads still serialize cleanly.
+	// Elements that the write does not have keep their value.
 	if existing, ok := p.Data[baseName]; ok {
 		ev := reflect.ValueOf(existing)
 		nv := reflect.ValueOf(value)
-		if ev.Kind() == reflect.Slice && nv.Kind() == reflect.Slice &&
+		if ev.Kind() == reflect.Slice && nv.IsValid() && nv.Kind() != reflect.Slice {
+			nv = reflect.ValueOf([]any{value})
+		}
+		if ev.Kind() == reflect.Slice && nv.IsValid() && nv.Kind() == reflect.Slice &&
 			nv.Type().Elem().Kind() == reflect.Interface {
 			elemType := ev.Type().Elem()
-			out := reflect.MakeSlice(reflect.SliceOf(elemType), nv.Len(), nv.Len())
+			out := reflect.MakeSlice(reflect.SliceOf(elemType), max(nv.Len(), ev.Len()), max(nv.Len(), ev.Len()))
+			reflect.Copy(out, ev)
 			for i := 0; i < nv.Len(); i++ {
 				converted, err := convertToElement(nv.Index(i).Interface(), elemType)
 				if err != nil {
@@ -209,6 +214,20 @@ func (p *MapTagProvider) TagWrite(tag string, value any) error {
 		}
 	}
 
+	// the elements of a new array all have the type of the first one.
+	if values, ok := value.([]any); ok && len(values) > 0 && values[0] != nil {
+		elemType := reflect.TypeOf(values[0])
+		out := reflect.MakeSlice(reflect.SliceOf(elemType), len(values), len(values))
+		for i := range values {
+			converted, err := convertToElement(values[i], elemType)
+			if err != nil {
+				return fmt.Errorf("tag %v element %d: %w", tag, i, err)
+			}
+			out.Index(i).Set(reflect.ValueOf(converted))
+		}
+		value = out.Interface()
+	}
+
 	p.Data[baseName] = value
 	return nil
 }
-- 
2.43.0


From 45e3756d6fb9395b08560ac900c0fac641e5233c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:05 +0000
Subject: [PATCH 088/107] fix: write several elements of an array from an index

---
 server_router.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/server_router.go b/server_router.go
index fc9dfb1..8429a4e 100644
--- a/server_router.go
+++ b/server_router.go
@@ -177,13 +177,26 @@ func (p *MapTagProvider) TagWrite(tag string, value any) error {
 		if elemIdx < 0 || elemIdx >= ev.Len() {
 			return fmt.Errorf("tag %v: element index %d out of range [0..%d)", tag, elemIdx, ev.Len())
 		}
-		converted, err := convertToElement(value, ev.Type().Elem())
-		if err != nil {
-			return fmt.Errorf("tag %v: %w", tag, err)
+		nv := reflect.ValueOf(value)
+		if nv.Kind() != reflect.Slice {
+			nv = reflect.ValueOf([]any{value})
+		}
+		if nv.Len() > ev.Len()-elemIdx {
+			return fmt.Errorf("tag %v: %d elements from index %d but array has %d total", tag, nv.Len(), elemIdx, ev.Len())
+		}
+		converted := make([]any, nv.Len())
+		for i := range converted {
+			var err error
+			converted[i], err = convertToElement(nv.Index(i).Interface(), ev.Type().Elem())
+			if err != nil {
+				return fmt.Errorf("tag %v: %w", tag, err)
+			}
 		}
 		// Slices are reference types — mutating in place is safe under the
 		// lock and matches the in-place semantics of a Logix array write.
-		ev.Index(elemIdx).Set(reflect.ValueOf(converted))
+		for i := range converted {
+			ev.Index(elemIdx + i).Set(reflect.ValueOf(converted[i]))
+		}
 		return nil
 	}
 
-- 
2.43.0


From 636c938d7093047ab6e0d88fe2a01b0ff8a6536c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:05 +0000
Subject: [PATCH 089/107] fix: refuse a value that the element of an array can
 not hold

---
 server_router.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/server_router.go b/server_router.go
index 8429a4e..ff682b6 100644
--- a/server_router.go
+++ b/server_router.go
@@ -3,6 +3,7 @@ package gologix
 import (
 	"errors"
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 	"strings"
@@ -270,15 +271,32 @@ func parseElementTag(tag string) (base string, idx int, hasElem bool) {
 // converted value or an error if the cast isn't representable.
 func convertToElement(value any, target reflect.Type) (any, error) {
 	v := reflect.ValueOf(value)
+	if !v.IsValid() {
+		return nil, fmt.Errorf("cannot convert %T to %v", value, target)
+	}
 	if v.Type() == target {
 		return value, nil
 	}
-	if v.Type().ConvertibleTo(target) {
+	if v.Kind() == target.Kind() && v.Type().ConvertibleTo(target) {
 		return v.Convert(target).Interface(), nil
 	}
+	if isNumber(v.Kind()) && isNumber(target.Kind()) {
+		converted := v.Convert(target)
+		switch back := converted.Convert(v.Type()); {
+		case back.Equal(v):
+			return converted.Interface(), nil
+		case v.CanFloat() && target.Kind() == reflect.Float32 && (math.IsNaN(v.Float()) || !converted.OverflowFloat(v.Float())):
+			// the nearest value
+			return converted.Interface(), nil
+		}
+	}
 	return nil, fmt.Errorf("cannot convert %T to %v", value, target)
 }
 
+func isNumber(k reflect.Kind) bool {
+	return k >= reflect.Int && k <= reflect.Float64
+}
+
 // TagList implements the optional TagLister interface and returns a snapshot
 // of every tag this provider exposes, along with its CIP type code. Used by
 // the Symbol Object (Class 0x6B) GetInstanceAttributeList handler so external
-- 
2.43.0


From 5f77d579bc06d8c2045b60bce4eabf2a1030be00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:05 +0000
Subject: [PATCH 090/107] fix: find a tag by the key it was stored under

---
 server_router.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/server_router.go b/server_router.go
index ff682b6..c51aa69 100644
--- a/server_router.go
+++ b/server_router.go
@@ -108,7 +108,7 @@ func (p *MapTagProvider) TagRead(tag string, qty int16) (any, error) {
 		p.Data = make(map[string]any)
 	}
 
-	baseName, elemIdx, hasElem := parseElementTag(tag)
+	baseName, elemIdx, hasElem := p.locate(tag)
 
 	val, ok := p.Data[baseName]
 	if !ok {
@@ -164,7 +164,7 @@ func (p *MapTagProvider) TagWrite(tag string, value any) error {
 		p.Data = make(map[string]any)
 	}
 
-	baseName, elemIdx, hasElem := parseElementTag(tag)
+	baseName, elemIdx, hasElem := p.locate(tag)
 
 	if hasElem {
 		existing, ok := p.Data[baseName]
@@ -246,6 +246,31 @@ func (p *MapTagProvider) TagWrite(tag string, value any) error {
 	return nil
 }
 
+// locate finds the key of a tag, and the element of it that is addressed.
+// A key that is the whole of the tag comes first, so that one with a literal
+// "[3]" in it is a tag of its own. It has to be called with the lock held.
+func (p *MapTagProvider) locate(tag string) (key string, idx int, hasElem bool) {
+	if key, ok := p.key(tag); ok {
+		return key, 0, false
+	}
+	base, idx, hasElem := parseElementTag(tag)
+	key, _ = p.key(base)
+	return key, idx, hasElem
+}
+
+// key finds a tag name in the map, where users may have put it in any case.
+func (p *MapTagProvider) key(name string) (string, bool) {
+	if _, ok := p.Data[name]; ok {
+		return name, true
+	}
+	for key := range p.Data {
+		if strings.ToLower(key) == name {
+			return key, true
+		}
+	}
+	return name, false
+}
+
 // parseElementTag splits a tag name on the trailing `[N]` element
 // indexer that ioi.go's getTagFromPath appends when a CIP request
 // addresses a specific array element. Returns hasElem=false when the
-- 
2.43.0


From f3a1807f679fd73ddcf0bfbbc9ddd399a6ce4d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:06 +0000
Subject: [PATCH 091/107] fix: copy arrays into and out of the tag provider

---
 server_router.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/server_router.go b/server_router.go
index c51aa69..ed636e9 100644
--- a/server_router.go
+++ b/server_router.go
@@ -133,14 +133,14 @@ func (p *MapTagProvider) TagRead(tag string, qty int16) (any, error) {
 		if qty == 1 {
 			return t.Index(elemIdx).Interface(), nil
 		}
-		return t.Slice(elemIdx, end).Interface(), nil
+		return copySlice(t.Slice(elemIdx, end)), nil
 	}
 
 	if t.Kind() == reflect.Slice {
 		if int(qty) <= t.Len() {
 			values := reflect.Indirect(t)
 			v := values.Slice(0, int(qty))
-			return v.Interface(), nil
+			return copySlice(v), nil
 		}
 		return nil, fmt.Errorf("too many elements requested %v > %v", qty, t.Len())
 	}
@@ -242,10 +242,20 @@ func (p *MapTagProvider) TagWrite(tag string, value any) error {
 		value = out.Interface()
 	}
 
+	if v := reflect.ValueOf(value); v.Kind() == reflect.Slice {
+		value = copySlice(v)
+	}
 	p.Data[baseName] = value
 	return nil
 }
 
+// copySlice makes a copy of a slice that shares no memory with it.
+func copySlice(v reflect.Value) any {
+	out := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
+	reflect.Copy(out, v)
+	return out.Interface()
+}
+
 // locate finds the key of a tag, and the element of it that is addressed.
 // A key that is the whole of the tag comes first, so that one with a literal
 // "[3]" in it is a tag of its own. It has to be called with the lock held.
-- 
2.43.0


From 775832a4ceb2680c3526431422321c692b8f0614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:34 +0000
Subject: [PATCH 092/107] fix: end the IO messages of a connection when it
 closes

---
 server.go             | 5 ++++-
 server_connections.go | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 1aff0e7..a7ddfc9 100644
--- a/server.go
+++ b/server.go
@@ -945,7 +945,10 @@ func (h *serverTCPHandler) ioConnection(fwd_open msgEIPForwardOpen_Standard, tp
 
 	for {
 		seq++
-		<-t.C
+		select {
+		case <-t.C:
+		case <-conn.closed:
+		}
 		if !h.server.ConnMgr.isOpen(conn) {
 			h.server.Logger.Warn("connection closed. no longer sending IO messages", "conn", *conn)
 			return
diff --git a/server_connections.go b/server_connections.go
index ebc37f0..0b3824a 100644
--- a/server_connections.go
+++ b/server_connections.go
@@ -17,6 +17,7 @@ type serverConnection struct {
 	Open bool
 
 	owner            *serverTCPHandler // the session that opened it
+	closed           chan struct{}     // closed with the connection
 	vendor           uint16
 	originatorSerial uint32
 }
@@ -39,6 +40,7 @@ func (cm *serverConnectionManager) Add(conn *serverConnection) {
 	for conn.OT == 0 || cm.usedOT(conn.OT) {
 		conn.OT = rand.Uint32()
 	}
+	conn.closed = make(chan struct{})
 	cm.Connections = append(cm.Connections, conn)
 }
 
@@ -65,6 +67,7 @@ func (cm *serverConnectionManager) closeWhere(owner *serverTCPHandler, match fun
 			continue
 		}
 		conn.Open = false
+		close(conn.closed)
 		closed++
 	}
 	cm.Connections = kept
-- 
2.43.0


From 2ef9f38b537dedcb92209da9e711d7293e2438f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:54 +0000
Subject: [PATCH 093/107] fix: stop serving when a listener has failed or is
 closed

---
 server.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/server.go b/server.go
index a7ddfc9..aac872f 100644
--- a/server.go
+++ b/server.go
@@ -80,12 +80,13 @@ func (srv *Server) Serve() error {
 	srv.UDPListener, err = net.ListenPacket("udp", "0.0.0.0:2222")
 	srv.Logger.Info("Listening on UDP port 2222")
 	if err != nil {
+		srv.TCPListener.Close()
 		return fmt.Errorf("couldn't open udp listener. %v", err)
 	}
 
 	// we'll start two server goroutines and then wait for either of them to error out on the error channel.
 
-	errCh := make(chan error)
+	errCh := make(chan error, 2) // so that neither of them waits for us to read its error
 
 	go func() {
 		err := srv.serveUDP()
@@ -125,7 +126,11 @@ func (srv *Server) serveTCP() error {
 		conn, err := srv.TCPListener.Accept()
 		if err != nil {
 			srv.Logger.Error("problem with tcp accept", "error", err)
-			continue
+			if isTemporary(err) {
+				time.Sleep(serveRetryDelay)
+				continue
+			}
+			return err
 		}
 		// create a new handler and kick off its serve method to handle the connection
 		h := serverTCPHandler{conn: conn, server: srv}
@@ -138,6 +143,15 @@ func (srv *Server) serveTCP() error {
 	}
 }
 
+// wait this long before using a listener again that has a problem that may go away.
+const serveRetryDelay = time.Millisecond * 10
+
+// isTemporary tells whether the problem of a listener may go away.
+func isTemporary(err error) bool {
+	var t interface{ Temporary() bool }
+	return errors.As(err, &t) && t.Temporary()
+}
+
 type cipIOSeqAccessData struct {
 	ConnectionID  uint32
 	SequenceCount uint32
@@ -151,6 +165,14 @@ func (srv *Server) serveUDP() error {
 	for {
 		b := make([]byte, 4096)
 		n, addr, err := srv.UDPListener.ReadFrom(b)
+		if err != nil {
+			srv.Logger.Debug("problem with udp accept", "error", err)
+			if isTemporary(err) {
+				time.Sleep(serveRetryDelay)
+				continue
+			}
+			return err
+		}
 		if n == 0 {
 			srv.Logger.Debug("Read 0 bytes on udp listener.")
 			continue
@@ -159,10 +181,6 @@ func (srv *Server) serveUDP() error {
 			srv.Logger.Debug("udp buffer size not big enough!")
 			continue
 		}
-		if err != nil {
-			srv.Logger.Debug("problem with udp accept", "error", err)
-			continue
-		}
 		_ = addr // don't need this yet.
 		// we've read a packet on udp so we need to parse the eip data
 
-- 
2.43.0


From 5efeb2dc9459abc623869ed1bfa5c115c047c546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:24 +0000
Subject: [PATCH 094/107] fix: keep the sign of a value that an array element
 is converted to

---
 server_router.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/server_router.go b/server_router.go
index ed636e9..2de17e8 100644
--- a/server_router.go
+++ b/server_router.go
@@ -318,9 +318,9 @@ func convertToElement(value any, target reflect.Type) (any, error) {
 	if isNumber(v.Kind()) && isNumber(target.Kind()) {
 		converted := v.Convert(target)
 		switch back := converted.Convert(v.Type()); {
-		case back.Equal(v):
+		case back.Equal(v) && isNegative(v) == isNegative(converted):
 			return converted.Interface(), nil
-		case v.CanFloat() && target.Kind() == reflect.Float32 && (math.IsNaN(v.Float()) || !converted.OverflowFloat(v.Float())):
+		case v.CanFloat() && converted.CanFloat() && (math.IsNaN(v.Float()) || !converted.OverflowFloat(v.Float())):
 			// the nearest value
 			return converted.Interface(), nil
 		}
@@ -328,6 +328,10 @@ func convertToElement(value any, target reflect.Type) (any, error) {
 	return nil, fmt.Errorf("cannot convert %T to %v", value, target)
 }
 
+func isNegative(v reflect.Value) bool {
+	return v.CanInt() && v.Int() < 0 || v.CanFloat() && v.Float() < 0
+}
+
 func isNumber(k reflect.Kind) bool {
 	return k >= reflect.Int && k <= reflect.Float64
 }
-- 
2.43.0


From d0c85ce4bcfcefbb90c674c06e5d058ec3c042ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:47 +0000
Subject: [PATCH 095/107] fix: encode identity attributes alike in every
 Get_Attribute_Single reply

---
 server_connected.go   |  2 +-
 server_unconnected.go | 15 +++++++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/server_connected.go b/server_connected.go
index 68182f4..2bebbf3 100644
--- a/server_connected.go
+++ b/server_connected.go
@@ -661,6 +661,6 @@ func (h *serverTCPHandler) getAttrSingle(connection *serverConnection, item CIPI
 		return fmt.Errorf("bad attribute %d", attr)
 	}
 
-	return h.sendConnectedReply(CIPService_GetAttributeSingle, seq, connection.TO, result)
+	return h.sendConnectedReply(CIPService_GetAttributeSingle, seq, connection.TO, identityAttribute(result))
 
 }
diff --git a/server_unconnected.go b/server_unconnected.go
index c10c8d3..2992b22 100644
--- a/server_unconnected.go
+++ b/server_unconnected.go
@@ -473,8 +473,19 @@ func (h *serverTCPHandler) unconnectedServiceGetAttrSingle(item CIPItem, path []
 		return h.sendUnconnectedErrorReply(CIPService_GetAttributeSingle, CIPStatus_AttributeNotSupported)
 	}
 
-	typ, _ := GoVarToCIPType(val)
-	return h.sendUnconnectedRRDataReply(CIPService_GetAttributeSingle, typ, byte(0), val)
+	return h.sendUnconnectedRRDataReply(CIPService_GetAttributeSingle, identityAttribute(val))
+}
+
+// identityAttribute is an attribute of the identity as it is sent: a name is a SHORT_STRING.
+func identityAttribute(val any) any {
+	name, ok := val.(string)
+	if !ok {
+		return val
+	}
+	if len(name) > 255 {
+		name = name[:255]
+	}
+	return append([]byte{byte(len(name))}, name...)
 }
 
 // unconnectedServiceSetAttrSingle handles CIP Set_Attribute_Single (0x10)
-- 
2.43.0


From a4d5656dd919730cd2e53e4c6a69f01467499955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:30 +0000
Subject: [PATCH 096/107] fix: accept class, instance and attribute segments of
 every width in attribute requests

---
 server_connected.go   | 26 ++-------------
 server_unconnected.go | 73 +++++++++++++++++++------------------------
 2 files changed, 35 insertions(+), 64 deletions(-)

diff --git a/server_connected.go b/server_connected.go
index 2bebbf3..70fe48c 100644
--- a/server_connected.go
+++ b/server_connected.go
@@ -625,37 +625,15 @@ func (h *serverTCPHandler) getAttrSingle(connection *serverConnection, item CIPI
 		return fmt.Errorf("couldn't read cmd type: %w", err)
 	}
 
-	path_size, err := item.Byte()
+	cls, inst, attr, err := readAttributePath(&item)
 	if err != nil {
-		return fmt.Errorf("couldn't read data len: %w", err)
-	}
-
-	if path_size != 3 {
-		return fmt.Errorf("currently only support getattrsingle path size of 3. got %d", path_size)
-	}
-
-	var cls CIPClass
-	err = cls.Read(&item)
-	if err != nil {
-		return fmt.Errorf("could not read class: %w", err)
-	}
-
-	var inst CIPInstance
-	err = inst.Read(&item)
-	if err != nil {
-		return fmt.Errorf("could not read instance: %w", err)
+		return err
 	}
 
 	if cls != 1 || inst != 1 {
 		return fmt.Errorf("only support class 1 instance 1 so far. got %d:%d", cls, inst)
 	}
 
-	var attr CIPAttribute
-	err = attr.Read(&item)
-	if err != nil {
-		return fmt.Errorf("could not read attribute ID: %w", err)
-	}
-
 	result, ok := h.server.Attributes[attr]
 	if !ok {
 		return fmt.Errorf("bad attribute %d", attr)
diff --git a/server_unconnected.go b/server_unconnected.go
index 2992b22..819e087 100644
--- a/server_unconnected.go
+++ b/server_unconnected.go
@@ -285,6 +285,31 @@ func parseClassInstancePath(p io.Reader) (CIPClass, CIPInstance, error) {
 	return cls, inst, nil
 }
 
+// readAttributePath decodes the path of a request for one attribute, up to and including it.
+func readAttributePath(item *CIPItem) (CIPClass, CIPInstance, CIPAttribute, error) {
+	pathSize, err := item.Byte()
+	if err != nil {
+		return 0, 0, 0, fmt.Errorf("couldn't read path size: %w", err)
+	}
+	path := make([]byte, int(pathSize)*2)
+	if err := item.DeSerialize(&path); err != nil {
+		return 0, 0, 0, fmt.Errorf("couldn't read path: %w", err)
+	}
+	p := bytes.NewBuffer(path)
+	cls, inst, err := parseClassInstancePath(p)
+	if err != nil {
+		return 0, 0, 0, fmt.Errorf("%w: %v", errPathSegment, err)
+	}
+	var attr CIPAttribute
+	if err := attr.Read(p); err != nil {
+		return 0, 0, 0, fmt.Errorf("%w: read attribute: %v", errPathSegment, err)
+	}
+	if p.Len() != 0 {
+		return 0, 0, 0, fmt.Errorf("%w: %d bytes after the attribute", errPathSegment, p.Len())
+	}
+	return cls, inst, attr, nil
+}
+
 // buildIdentityGetAttributesAllResponse renders the payload portion of a
 // Get_Attributes_All reply on the Identity Object (attributes 1..7 in the
 // order the spec mandates). The Attributes map is the same one the existing
@@ -393,26 +418,9 @@ func (h *serverTCPHandler) unconnectedServiceGetAttrSingle(item CIPItem, path []
 	// from the item after `attr.Read`; the moment FactoryTalk Linx started
 	// probing real Identity attributes (0x15, 0x16, ...) it tripped the
 	// "Path segment error" branch instead of looking up the attribute.
-	pathSize, err := item.Byte()
+	cls, inst, attr, err := readAttributePath(&item)
 	if err != nil {
-		return fmt.Errorf("couldn't read path size: %w", err)
-	}
-	if pathSize != 3 {
-		h.server.Logger.Debug("getattrsingle: unsupported path size", "size", pathSize)
-		return h.sendUnconnectedErrorReply(CIPService_GetAttributeSingle, CIPStatus_PathSegmentError)
-	}
-
-	var cls CIPClass
-	if err := cls.Read(&item); err != nil {
-		return fmt.Errorf("could not read class: %w", err)
-	}
-	var inst CIPInstance
-	if err := inst.Read(&item); err != nil {
-		return fmt.Errorf("could not read instance: %w", err)
-	}
-	var attr CIPAttribute
-	if err := attr.Read(&item); err != nil {
-		return fmt.Errorf("could not read attribute ID: %w", err)
+		return err
 	}
 
 	// Custom class 0xC8: per-tag attribute container — see
@@ -422,7 +430,7 @@ func (h *serverTCPHandler) unconnectedServiceGetAttrSingle(item CIPItem, path []
 	// (`CIA:C8:<instance>:1`) without going through the Rockwell-only
 	// Service 0x4B/0x64 tag-browsing extension.
 	if cls == 0xC8 {
-		tagName, found := h.resolveSymbolicTagFromCustomClass(path, uint16(inst))
+		tagName, found := h.resolveSymbolicTagFromCustomClass(path, inst)
 		if !found {
 			return h.sendUnconnectedErrorReply(CIPService_GetAttributeSingle, CIPStatus_PathDestinationUnknown)
 		}
@@ -494,24 +502,9 @@ func identityAttribute(val any) any {
 // considered read-only here. SCADA clients writing back to symbolic tags
 // via CIA paths land here.
 func (h *serverTCPHandler) unconnectedServiceSetAttrSingle(item CIPItem, path []byte) error {
-	pathSize, err := item.Byte()
+	cls, inst, attr, err := readAttributePath(&item)
 	if err != nil {
-		return fmt.Errorf("couldn't read path size: %w", err)
-	}
-	if pathSize != 3 {
-		return h.sendUnconnectedErrorReply(CIPService_SetAttributeSingle, CIPStatus_PathSegmentError)
-	}
-	var cls CIPClass
-	if err := cls.Read(&item); err != nil {
-		return fmt.Errorf("could not read class: %w", err)
-	}
-	var inst CIPInstance
-	if err := inst.Read(&item); err != nil {
-		return fmt.Errorf("could not read instance: %w", err)
-	}
-	var attr CIPAttribute
-	if err := attr.Read(&item); err != nil {
-		return fmt.Errorf("could not read attribute ID: %w", err)
+		return err
 	}
 
 	if cls != 0xC8 {
@@ -520,7 +513,7 @@ func (h *serverTCPHandler) unconnectedServiceSetAttrSingle(item CIPItem, path []
 	if attr != 1 {
 		return h.sendUnconnectedErrorReply(CIPService_SetAttributeSingle, CIPStatus_AttributeNotSupported)
 	}
-	tagName, found := h.resolveSymbolicTagFromCustomClass(path, uint16(inst))
+	tagName, found := h.resolveSymbolicTagFromCustomClass(path, inst)
 	if !found {
 		return h.sendUnconnectedErrorReply(CIPService_SetAttributeSingle, CIPStatus_PathDestinationUnknown)
 	}
@@ -568,7 +561,7 @@ var defaultLocalPath = []byte{1, 0}
 // Returns ok=false if the provider doesn't implement TagLister (no
 // browsable tag set), if the instance is out of range, or if the index
 // arithmetic underflows.
-func (h *serverTCPHandler) resolveSymbolicTagFromCustomClass(path []byte, instance uint16) (string, bool) {
+func (h *serverTCPHandler) resolveSymbolicTagFromCustomClass(path []byte, instance CIPInstance) (string, bool) {
 	provider, err := h.server.Router.Resolve(path)
 	if err != nil {
 		return "", false
@@ -579,7 +572,7 @@ func (h *serverTCPHandler) resolveSymbolicTagFromCustomClass(path []byte, instan
 	}
 	tags := lister.TagList()
 	sort.Slice(tags, func(i, j int) bool { return tags[i].Name < tags[j].Name })
-	if instance == 0 || int(instance) > len(tags) {
+	if instance == 0 || uint64(instance) > uint64(len(tags)) {
 		return "", false
 	}
 	return tags[instance-1].Name, true
-- 
2.43.0


From e9a209cb7b3fb0d1b5a892beaa8752c32f31e18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:27 +0000
Subject: [PATCH 097/107] fix: answer the attributes, the start instance and
 the class that a symbol list request asks for, in pages

---
 server.go             | 55 +++++++++++++++++++++++++++++++++++++++++--
 server_router.go      | 12 +++++++---
 server_unconnected.go | 49 +++++++++++++++++++++++++++++---------
 3 files changed, 100 insertions(+), 16 deletions(-)

diff --git a/server.go b/server.go
index aac872f..e438972 100644
--- a/server.go
+++ b/server.go
@@ -571,6 +571,50 @@ func (h *serverTCPHandler) connectedSymbolList(items []CIPItem) error {
 		return fmt.Errorf("symbol list: provider lookup: %w", err)
 	}
 
+	items[1].Reset()
+	item := items[1]
+	seq, err := item.Uint16()
+	if err != nil {
+		return fmt.Errorf("symbol list: read seq: %w", err)
+	}
+	if _, err := item.Byte(); err != nil {
+		return fmt.Errorf("symbol list: read service byte: %w", err)
+	}
+	pathSize, err := item.Byte()
+	if err != nil {
+		return fmt.Errorf("symbol list: read path size: %w", err)
+	}
+	pathBytes := make([]byte, int(pathSize)*2)
+	if err := item.DeSerialize(&pathBytes); err != nil {
+		return fmt.Errorf("symbol list: read path: %w", err)
+	}
+	p := bytes.NewBuffer(pathBytes)
+	class, start, err := parseClassInstancePath(p)
+	if err != nil || p.Len() != 0 {
+		h.server.Logger.Warn("symbol list: malformed path", "bytes", pathBytes, "error", err)
+		return h.sendUnitDataErrorReply(CIPService_GetInstanceAttributeList, CIPStatus_PathSegmentError)
+	}
+	if class != CipObject_Symbol {
+		h.server.Logger.Debug("symbol list: class not implemented", "class", class)
+		return h.sendUnitDataErrorReply(CIPService_GetInstanceAttributeList, CIPStatus_PathDestinationUnknown)
+	}
+	count, err := item.Uint16()
+	if err != nil || len(item.Rest()) < int(count)*2 {
+		return fmt.Errorf("symbol list: read attributes: %w", io.ErrUnexpectedEOF)
+	}
+	attrs := make([]uint16, count)
+	for i := range attrs {
+		attrs[i], err = item.Uint16()
+		if err != nil {
+			return fmt.Errorf("symbol list: read attribute: %w", err)
+		}
+		switch attrs[i] {
+		case symbolAttribute_Name, symbolAttribute_Type, symbolAttribute_Dimensions:
+		default:
+			return h.sendUnitDataErrorReply(CIPService_GetInstanceAttributeList, CIPStatus_AttributeNotSupported)
+		}
+	}
+
 	// Type-assert to the optional TagLister interface. A provider that
 	// doesn't implement it can still serve point reads/writes but will
 	// look empty in the Tag Browser — same behaviour as a Logix
@@ -581,8 +625,15 @@ func (h *serverTCPHandler) connectedSymbolList(items []CIPItem) error {
 		return h.sendUnitDataReplyWithPayload(CIPService_GetInstanceAttributeList, nil)
 	}
 
-	payload := buildSymbolObjectInstanceListResponse(lister.TagList(), 0)
-	return h.sendUnitDataReplyWithPayload(CIPService_GetInstanceAttributeList, payload)
+	payload, more, err := buildSymbolObjectInstanceListResponse(lister.TagList(), uint32(start), attrs)
+	if err != nil {
+		return fmt.Errorf("symbol list: %w", err)
+	}
+	status := CIPStatus_OK
+	if more {
+		status = CIPStatus_PartialTransfer
+	}
+	return h.sendConnectedStatus(CIPService_GetInstanceAttributeList, seq, conn.TO, status, payload)
 }
 
 // sendUnitDataReplyWithPayload is sendUnitDataReply with an additional
diff --git a/server_router.go b/server_router.go
index 2de17e8..f6962a9 100644
--- a/server_router.go
+++ b/server_router.go
@@ -351,7 +351,11 @@ func (p *MapTagProvider) TagList() []ServerTagInfo {
 	tags := make([]ServerTagInfo, 0, len(p.Data))
 	for name, val := range p.Data {
 		typ, _ := GoVarToCIPType(val)
-		tags = append(tags, ServerTagInfo{Name: name, Type: typ})
+		tag := ServerTagInfo{Name: name, Type: typ}
+		if v := reflect.ValueOf(val); v.Kind() == reflect.Slice {
+			tag.Array, tag.Elements = true, v.Len()
+		}
+		tags = append(tags, tag)
 	}
 	return tags
 }
@@ -359,8 +363,10 @@ func (p *MapTagProvider) TagList() []ServerTagInfo {
 // ServerTagInfo is the minimum metadata the server needs to render a Symbol Object
 // instance: the user-visible tag name and the wire-level CIP type code.
 type ServerTagInfo struct {
-	Name string
-	Type CIPType
+	Name     string
+	Type     CIPType
+	Array    bool // whether the tag is an array
+	Elements int  // the number of elements of an array
 }
 
 // TagLister is an optional interface a CIPEndpoint can implement to expose
diff --git a/server_unconnected.go b/server_unconnected.go
index 819e087..c12059b 100644
--- a/server_unconnected.go
+++ b/server_unconnected.go
@@ -225,10 +225,9 @@ func (h *serverTCPHandler) unconnectedGetAttributeAll(item CIPItem) error {
 // these IDs for subsequent reads.
 //
 // startInstance lets callers iterate when the response would exceed the
-// transport limit (~500 bytes). For now Server_Class3 exposes only a
-// handful of tags so we emit everything in one reply, but the loop is
-// written so a future paginator can drop in without restructuring.
-func buildSymbolObjectInstanceListResponse(tags []ServerTagInfo, startInstance uint32) []byte {
+// transport limit (~500 bytes). more is set if there are tags after the
+// ones that fit.
+func buildSymbolObjectInstanceListResponse(tags []ServerTagInfo, startInstance uint32, attrs []uint16) (payload []byte, more bool, err error) {
 	// Stable ordering keeps instance IDs deterministic across reads.
 	sort.Slice(tags, func(i, j int) bool { return tags[i].Name < tags[j].Name })
 
@@ -238,18 +237,46 @@ func buildSymbolObjectInstanceListResponse(tags []ServerTagInfo, startInstance u
 		if instanceID < startInstance {
 			continue
 		}
+		size := buf.Len()
 		_ = binary.Write(&buf, binary.LittleEndian, instanceID)
-		name := tag.Name
-		if len(name) > 255 {
-			name = name[:255]
+		for _, attr := range attrs {
+			switch attr {
+			case symbolAttribute_Name:
+				name := tag.Name
+				if len(name) > 255 {
+					name = name[:255]
+				}
+				_ = binary.Write(&buf, binary.LittleEndian, uint16(len(name)))
+				buf.WriteString(name)
+			case symbolAttribute_Type:
+				typ := uint16(tag.Type)
+				if tag.Array {
+					typ |= symbolType_OneDimension
+				}
+				_ = binary.Write(&buf, binary.LittleEndian, typ)
+			case symbolAttribute_Dimensions:
+				_ = binary.Write(&buf, binary.LittleEndian, [3]uint32{uint32(tag.Elements)})
+			default:
+				return nil, false, fmt.Errorf("symbol attribute %d not supported", attr)
+			}
+		}
+		if size > 0 && buf.Len() > symbolListPageSize {
+			return buf.Bytes()[:size], true, nil
 		}
-		_ = binary.Write(&buf, binary.LittleEndian, uint16(len(name)))
-		buf.WriteString(name)
-		_ = binary.Write(&buf, binary.LittleEndian, uint16(tag.Type))
 	}
-	return buf.Bytes()
+	return buf.Bytes(), false, nil
 }
 
+const (
+	symbolAttribute_Name       = 1
+	symbolAttribute_Type       = 2
+	symbolAttribute_Dimensions = 8
+
+	symbolType_OneDimension = 1 << 13 // in a symbol type
+
+	symbolListPageSize = 480 // fits every connection
+)
+
 // buildProgramObjectGetAttributesAllResponse renders the payload for
 // Get_Attributes_All on Class 0x64 (Logix Program Object) Instance 1. The
 // wire layout that pycomm3.get_plc_name() expects is a SHORT_STRING holding
-- 
2.43.0


From 738d3071d48ad10004e1a6733739a9718ad2c84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:32 +0000
Subject: [PATCH 098/107] fix: resolve the symbol instances that the tag list
 names in read and write requests

---
 ioi.go                | 21 +++++++++++++++++--
 server_connected.go   | 47 +++++++++++++++++++++----------------------
 server_unconnected.go | 29 +++++++++++++++-----------
 3 files changed, 59 insertions(+), 38 deletions(-)

diff --git a/ioi.go b/ioi.go
index f37abaa..6974a24 100644
--- a/ioi.go
+++ b/ioi.go
@@ -1,6 +1,7 @@
 package gologix
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -284,8 +285,8 @@ func getAsciiTagPart(item *CIPItem) (string, error) {
 	return tag_str, nil
 }
 // getRequestTag reads the path of a request, which starts with its size in words, and
-// returns the tag it addresses.
-func getRequestTag(item *CIPItem) (string, error) {
+// returns the tag of the provider that it addresses, by its name or by its symbol instance.
+func getRequestTag(item *CIPItem, p CIPEndpoint) (string, error) {
 	var words byte
 	err := item.DeSerialize(&words)
 	if err != nil {
@@ -296,6 +297,22 @@ func getRequestTag(item *CIPItem) (string, error) {
 	if err != nil {
 		return "", fmt.Errorf("couldn't get path: %w", err)
 	}
+	if len(path) > 0 && (cipClassSize(path[0]) == cipClass_8bit || cipClassSize(path[0]) == cipClass_16bit) {
+		rest := bytes.NewBuffer(path)
+		class, inst, err := parseClassInstancePath(rest)
+		if err != nil {
+			return "", fmt.Errorf("%w: %v", errPathSegment, err)
+		}
+		name, ok := symbolName(p, inst)
+		if class != CipObject_Symbol || !ok || len(name) > 255 {
+			return "", fmt.Errorf("%w: no tag at instance %d of class %d", errPathSegment, inst, class)
+		}
+		path = append([]byte{byte(segmentTypeExtendedSymbolic), byte(len(name))}, name...)
+		if len(name)%2 == 1 {
+			path = append(path, 0)
+		}
+		path = append(path, rest.Bytes()...)
+	}
 	pathItem := newItem(cipItem_Null, path)
 	tag, err := getTagFromPath(&pathItem)
 	if err != nil {
diff --git a/server_connected.go b/server_connected.go
index 70fe48c..97dbbf3 100644
--- a/server_connected.go
+++ b/server_connected.go
@@ -9,24 +9,12 @@ import (
 )
 
 func (h *serverTCPHandler) cipConnectedWrite(items []CIPItem) error {
-	item := items[1]
-	tag, err := getRequestTag(&item)
-	if err != nil {
-		return fmt.Errorf("problem deserializing tag bytes %w", err)
-	}
-
-	results, err := parseWriteValues(&item)
-	if err != nil {
-		return fmt.Errorf("problem parsing write values for tag %s: %w", tag, err)
-	}
-	h.server.Logger.Debug("write", "tag", tag, "value", results)
-
 	if items[0].Header.ID != cipItem_ConnectionAddress {
 		return fmt.Errorf("expected a connection address item in item 0. got %v", items[0].Header.ID)
 	}
 	items[0].Reset()
 	var connID uint32
-	err = items[0].DeSerialize(&connID)
+	err := items[0].DeSerialize(&connID)
 	if err != nil {
 		return fmt.Errorf("problem deserializing connection ID (%+v) %w", items[0], err)
 	}
@@ -40,6 +28,18 @@ func (h *serverTCPHandler) cipConnectedWrite(items []CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("problem finding tag provider for %v(%v). %w", connID, conn.Path, err)
 	}
+	item := items[1]
+	tag, err := getRequestTag(&item, p)
+	if err != nil {
+		return fmt.Errorf("problem deserializing tag bytes %w", err)
+	}
+
+	results, err := parseWriteValues(&item)
+	if err != nil {
+		return fmt.Errorf("problem parsing write values for tag %s: %w", tag, err)
+	}
+	h.server.Logger.Debug("write", "tag", tag, "value", results)
+
 	err = writeTag(p, tag, results)
 	if err != nil {
 		return err
@@ -169,7 +169,7 @@ func (h *serverTCPHandler) multiService(p CIPEndpoint, item CIPItem) ([]byte, er
 	switch svc {
 	case CIPService_FragRead,
 		CIPService_Read:
-		tagname, err := getRequestTag(&item)
+		tagname, err := getRequestTag(&item, p)
 		if err != nil {
 			return nil, fmt.Errorf("problem getting multiread tagname: %w", err)
 		}
@@ -206,7 +206,7 @@ func (h *serverTCPHandler) multiService(p CIPEndpoint, item CIPItem) ([]byte, er
 	case CIPService_Write,
 		CIPService_FragWrite:
 
-		tag, err := getRequestTag(&item)
+		tag, err := getRequestTag(&item, p)
 		if err != nil {
 			return nil, fmt.Errorf("problem deserializing tag bytes %w", err)
 		}
@@ -292,7 +292,14 @@ func (h *serverTCPHandler) connectedRead(reqSvc CIPService, items []CIPItem) err
 		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
 		return fmt.Errorf("error getting service: %w / %v", err, err2)
 	}
-	tag, err := getRequestTag(&item)
+	path := connection.Path
+	provider, err := h.server.Router.Resolve(path)
+	if err != nil {
+		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_PathDestinationUnknown, 0)
+		return fmt.Errorf("problem finding tag provider for %v. %w: %v", path, err, err2)
+	}
+	p := provider
+	tag, err := getRequestTag(&item, p)
 	if err != nil {
 		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, refusalStatus(err), 0)
 		return fmt.Errorf("couldn't parse path: %w / %v", err, err2)
@@ -304,8 +311,6 @@ func (h *serverTCPHandler) connectedRead(reqSvc CIPService, items []CIPItem) err
 		return fmt.Errorf("error getting write qty: %w / %v", err, err2)
 	}
 
-	path := connection.Path
-
 	var offset uint32
 	if reqSvc == CIPService_FragRead {
 		err = item.DeSerialize(&offset)
@@ -315,12 +320,6 @@ func (h *serverTCPHandler) connectedRead(reqSvc CIPService, items []CIPItem) err
 		}
 	}
 
-	provider, err := h.server.Router.Resolve(path)
-	if err != nil {
-		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_PathDestinationUnknown, 0)
-		return fmt.Errorf("problem finding tag provider for %v. %w: %v", path, err, err2)
-	}
-	p := provider
 	result, err := readTag(p, tag, qty)
 	if err != nil {
 		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidMemberID, 0)
diff --git a/server_unconnected.go b/server_unconnected.go
index c12059b..7807bab 100644
--- a/server_unconnected.go
+++ b/server_unconnected.go
@@ -410,7 +410,12 @@ func buildIdentityGetAttributesAllResponse(attrs map[CIPAttribute]any) ([]byte,
 }
 
 func (h *serverTCPHandler) unconnectedServiceWrite(item CIPItem, path []byte) error {
-	tag, err := getRequestTag(&item)
+	provider, err := h.server.Router.Resolve(path)
+	if err != nil {
+		return fmt.Errorf("problem finding tag provider for %v. %w", path, err)
+	}
+	p := provider
+	tag, err := getRequestTag(&item, p)
 	if err != nil {
 		return fmt.Errorf("couldn't parse path. %w", err)
 	}
@@ -419,11 +424,6 @@ func (h *serverTCPHandler) unconnectedServiceWrite(item CIPItem, path []byte) er
 		return fmt.Errorf("problem parsing write values for tag %s: %w", tag, err)
 	}
 
-	provider, err := h.server.Router.Resolve(path)
-	if err != nil {
-		return fmt.Errorf("problem finding tag provider for %v. %w", path, err)
-	}
-	p := provider
 	err = writeTag(p, tag, results)
 	if err != nil {
 		return err
@@ -593,6 +593,11 @@ func (h *serverTCPHandler) resolveSymbolicTagFromCustomClass(path []byte, instan
 	if err != nil {
 		return "", false
 	}
+	return symbolName(provider, instance)
+}
+
+// symbolName returns the name of the tag that a provider lists with an instance number.
+func symbolName(provider CIPEndpoint, instance CIPInstance) (string, bool) {
 	lister, ok := provider.(TagLister)
 	if !ok {
 		return "", false
@@ -606,7 +611,12 @@ func (h *serverTCPHandler) resolveSymbolicTagFromCustomClass(path []byte, instan
 }
 
 func (h *serverTCPHandler) unconnectedServiceRead(item CIPItem, path []byte) error {
-	tag, err := getRequestTag(&item)
+	provider, err := h.server.Router.Resolve(path)
+	if err != nil {
+		return fmt.Errorf("problem finding tag provider for %v. %w", path, err)
+	}
+	p := provider
+	tag, err := getRequestTag(&item, p)
 	if err != nil {
 		return fmt.Errorf("couldn't parse path. %w", err)
 	}
@@ -617,11 +627,6 @@ func (h *serverTCPHandler) unconnectedServiceRead(item CIPItem, path []byte) err
 	}
 	h.server.Logger.Debug("read", "tag", tag, "path", path, "qty", qty)
 
-	provider, err := h.server.Router.Resolve(path)
-	if err != nil {
-		return fmt.Errorf("problem finding tag provider for %v. %w", path, err)
-	}
-	p := provider
 	result, err := readTag(p, tag, qty)
 	if err != nil {
 		return fmt.Errorf("problem getting data from provider. %w", err)
-- 
2.43.0


From 7a8a3eb868ac7cb04c0414f28dade8b0ce08c6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:39 +0000
Subject: [PATCH 099/107] fix: deliver I/O output to every waiting channel when
 another one is full

---
 server_iochannel.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/server_iochannel.go b/server_iochannel.go
index bafc815..d684d12 100644
--- a/server_iochannel.go
+++ b/server_iochannel.go
@@ -65,13 +65,17 @@ func (p *IOChannelProvider[Tin, Tout]) IOWrite(items []CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("problem unpacking data into output struct %w", err)
 	}
+	full := false
 	for i := range p.outChannels {
 		select {
 		case p.outChannels[i] <- out:
 		default:
-			return errors.New("problem sending IOWrite data. channel full?")
+			full = true
 		}
 	}
+	if full {
+		return errors.New("problem sending IOWrite data. channel full?")
+	}
 
 	return nil
 }
-- 
2.43.0


From e7cbf7864f75a5e2c06a45b805b62c0628c1f72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:56 +0000
Subject: [PATCH 100/107] fix: guard the output channels of IOChannelProvider
 with a mutex

---
 server_iochannel.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server_iochannel.go b/server_iochannel.go
index d684d12..b75634b 100644
--- a/server_iochannel.go
+++ b/server_iochannel.go
@@ -20,6 +20,7 @@ import (
 type IOChannelProvider[Tin, Tout any] struct {
 	inMutex     sync.Mutex
 	in          Tin
+	outMutex    sync.Mutex
 	outChannels []chan Tout
 }
 
@@ -65,6 +66,8 @@ func (p *IOChannelProvider[Tin, Tout]) IOWrite(items []CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("problem unpacking data into output struct %w", err)
 	}
+	p.outMutex.Lock()
+	defer p.outMutex.Unlock()
 	full := false
 	for i := range p.outChannels {
 		select {
@@ -92,6 +95,8 @@ func (p *IOChannelProvider[Tin, Tout]) TagWrite(tag string, value any) error {
 // this output data is what the PLC is writing to us
 func (p *IOChannelProvider[Tin, Tout]) GetOutputDataChannel() <-chan Tout {
 	newout := make(chan Tout)
+	p.outMutex.Lock()
+	defer p.outMutex.Unlock()
 	p.outChannels = append(p.outChannels, newout)
 	return newout
 }
-- 
2.43.0


From 3d1f77fdb1b00417fb25e6e4d4057d2930c8d29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:17 +0000
Subject: [PATCH 101/107] fix: do not frame more data than a packet can carry

---
 items.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/items.go b/items.go
index bd04931..0808f3c 100644
--- a/items.go
+++ b/items.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 )
 
 type CIPItemID uint16
@@ -291,6 +292,9 @@ func (item *CIPItem) DeSerialize(str any) error {
 }
 
 func (item *CIPItem) Bytes() ([]byte, error) {
+	if len(item.Data) > math.MaxUint16 {
+		return nil, fmt.Errorf("item of %d bytes is too long", len(item.Data))
+	}
 	b := bytes.Buffer{}
 	err := binary.Write(&b, binary.LittleEndian, item.Header)
 	if err != nil {
@@ -371,6 +375,9 @@ func serializeItems(items []CIPItem) (*[]byte, error) {
 	}
 
 	out := b.Bytes()
+	if len(out) > math.MaxUint16 {
+		return nil, fmt.Errorf("items of %d bytes are too long for a packet", len(out))
+	}
 
 	return &out, nil
 }
-- 
2.43.0


From 02d849acb0c1d4b570950e33392bc48bb78deceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:20 +0000
Subject: [PATCH 102/107] fix: read the connection id under the mutex

---
 connect.go     | 9 +++++++++
 getattr.go     | 6 +++---
 listalltags.go | 2 +-
 listmembers.go | 4 ++--
 listsubtags.go | 2 +-
 read.go        | 6 +++---
 udt_write.go   | 2 +-
 write.go       | 2 +-
 8 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/connect.go b/connect.go
index c5ebd8d..184b66f 100644
--- a/connect.go
+++ b/connect.go
@@ -183,6 +183,13 @@ func (client *Client) Connected() bool {
 	return client.connStatus == connectionStatusConnected
 }
 
+// connectionID is the connection that requests have to be addressed to.
+func (client *Client) connectionID() uint32 {
+	client.mutex.Lock()
+	defer client.mutex.Unlock()
+	return client.OTNetworkConnectionID
+}
+
 func (client *Client) registerSession() error {
 	reg_msg := msgCIPRegister{
 		ProtocolVersion: 1,
@@ -557,7 +564,9 @@ func (client *Client) forwardOpen(forwardOpenMsg CIPItem) error {
 		return fmt.Errorf("error deserializing forward open response content. %w", err)
 	}
 
+	client.mutex.Lock()
 	client.OTNetworkConnectionID = respContent.OtNetworkConnectionId
+	client.mutex.Unlock()
 
 	client.Logger.Info(
 		"successfully opened connection",
diff --git a/getattr.go b/getattr.go
index 8fcd22b..eaa8e0b 100644
--- a/getattr.go
+++ b/getattr.go
@@ -106,7 +106,7 @@ func (client *Client) GetAttrSingle(class CIPClass, instance CIPInstance, attr C
 	}
 
 	reqitems := make([]CIPItem, 2)
-	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqitems[0] = newItem(cipItem_ConnectionAddress, client.connectionID())
 	pl := class.Len() + instance.Len() + attr.Len()
 	pl = pl / 2
 
@@ -248,7 +248,7 @@ func (client *Client) GetControllerPropList() (msgGetControllerPropList, error)
 // struct as above with the proper types for the AttrX_Value instead of []byte and do an item.Serialize(&InstanceOfMyType)
 func (client *Client) GetAttrList(class CIPClass, instance CIPInstance, attrs ...CIPAttribute) (*CIPItem, error) {
 	reqItems := make([]CIPItem, 2)
-	reqItems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqItems[0] = newItem(cipItem_ConnectionAddress, client.connectionID())
 
 	path, err := Serialize(class, instance)
 	if err != nil {
@@ -425,7 +425,7 @@ func (client *Client) GenericCIPMessage(service CIPService, path, msg_data []byt
 
 	reqitems := make([]CIPItem, 2)
 	//reqitems[0] = cipItem{Header: cipItemHeader{ID: cipItem_Null}}
-	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqitems[0] = newItem(cipItem_ConnectionAddress, client.connectionID())
 
 	readmsg := msgCIPConnectedServiceReq{
 		SequenceCount: uint16(sequencer()),
diff --git a/listalltags.go b/listalltags.go
index 2749110..8660cdc 100644
--- a/listalltags.go
+++ b/listalltags.go
@@ -168,7 +168,7 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 // It returns the last instance it got and whether there are more.
 func (client *Client) listTagPage(start_instance uint32, fallbackProgramNames bool) (last uint32, more bool, err error) {
 	reqItems := make([]CIPItem, 2)
-	reqItems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqItems[0] = newItem(cipItem_ConnectionAddress, client.connectionID())
 
 	path, err := Serialize(
 		CipObject_Symbol, CIPInstance(start_instance),
diff --git a/listmembers.go b/listmembers.go
index 6c5e276..394b2fc 100644
--- a/listmembers.go
+++ b/listmembers.go
@@ -53,7 +53,7 @@ func (client *Client) GetTemplateInstanceAttr(str_instance uint32) (msgGetTempla
 
 	reqitems := make([]CIPItem, 2)
 	//reqitems[0] = cipItem{Header: cipItemHeader{ID: cipItem_Null}}
-	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqitems[0] = newItem(cipItem_ConnectionAddress, client.connectionID())
 
 	p, err := Serialize(
 		CipObject_Template, CIPInstance(str_instance),
@@ -269,7 +269,7 @@ func (client *Client) readTemplate(str_instance uint32, template_info msgGetTemp
 func (client *Client) readTemplatePart(str_instance uint32, start_offset uint32, length uint32) ([]byte, bool, error) {
 	reqitems := make([]CIPItem, 2)
 	//reqitems[0] = cipItem{Header: cipItemHeader{ID: cipItem_Null}}
-	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqitems[0] = newItem(cipItem_ConnectionAddress, client.connectionID())
 
 	p, err := Serialize(
 		CipObject_Template, CIPInstance(str_instance),
diff --git a/listsubtags.go b/listsubtags.go
index b004274..e5dec7e 100644
--- a/listsubtags.go
+++ b/listsubtags.go
@@ -45,7 +45,7 @@ func (client *Client) listSubTagPage(Program *KnownProgram, start_instance uint3
 
 	reqitems := make([]CIPItem, 2)
 	//reqitems[0] = cipItem{Header: cipItemHeader{ID: cipItem_Null}}
-	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqitems[0] = newItem(cipItem_ConnectionAddress, client.connectionID())
 
 	p, err := Serialize(
 		Program.Bytes(),
diff --git a/read.go b/read.go
index 2f1ec68..d5a64a2 100644
--- a/read.go
+++ b/read.go
@@ -412,7 +412,7 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 	}
 
 	reqItems := make([]CIPItem, 2)
-	reqItems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqItems[0] = newItem(cipItem_ConnectionAddress, client.connectionID())
 
 	readMsg := msgCIPConnectedServiceReq{
 		SequenceCount: uint16(sequencer()),
@@ -815,7 +815,7 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 	}
 
 	reqItems := make([]CIPItem, 2)
-	reqItems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqItems[0] = newItem(cipItem_ConnectionAddress, client.connectionID())
 
 	ioi_header := msgCIPConnectedMultiServiceReq{
 		Sequence:     uint16(sequencer()),
@@ -1213,7 +1213,7 @@ func (client *Client) readFragmented(ioi *tagIOI, elements uint16, initialData [
 // and any transport-level error.
 func (client *Client) sendFragReadRequest(ioi *tagIOI, elements uint16, offset uint32) ([]byte, byte, error) {
 	reqItems := make([]CIPItem, 2)
-	reqItems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqItems[0] = newItem(cipItem_ConnectionAddress, client.connectionID())
 
 	readMsg := msgCIPConnectedServiceReq{
 		SequenceCount: uint16(sequencer()),
diff --git a/udt_write.go b/udt_write.go
index 5ac9d7b..cae1d88 100644
--- a/udt_write.go
+++ b/udt_write.go
@@ -225,7 +225,7 @@ func (client *Client) writeList(tags []string, reqs [][]byte) error {
 	qty := len(tags)
 
 	reqitems := make([]CIPItem, 2)
-	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqitems[0] = newItem(cipItem_ConnectionAddress, client.connectionID())
 
 	ioi_header := msgCIPConnectedMultiServiceReq{
 		Sequence:     uint16(sequencer()),
diff --git a/write.go b/write.go
index c1c14ac..788a0a8 100644
--- a/write.go
+++ b/write.go
@@ -116,7 +116,7 @@ func (client *Client) write_single(tag string, value any) error {
 	}
 
 	reqitems := make([]CIPItem, 2)
-	reqitems[0] = newItem(cipItem_ConnectionAddress, &client.OTNetworkConnectionID)
+	reqitems[0] = newItem(cipItem_ConnectionAddress, client.connectionID())
 	reqitems[1] = CIPItem{Header: cipItemHeader{ID: cipItem_ConnectedData}}
 	err = reqitems[1].Serialize(uint16(sequencer()), req)
 	if err != nil {
-- 
2.43.0


From 0f9f97a8f587445d288653195eec4bc9a92dd089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:15 +0000
Subject: [PATCH 103/107] fix: report L5X values that are not a value of their
 type

---
 l5x/types.go | 151 ++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 126 insertions(+), 25 deletions(-)

diff --git a/l5x/types.go b/l5x/types.go
index f76db98..0577472 100644
--- a/l5x/types.go
+++ b/l5x/types.go
@@ -2,45 +2,146 @@ package l5x
 
 import (
 	"fmt"
+	"math"
 	"strconv"
+	"strings"
 )
 
+// L5xTypeToGoType converts the text of a value to the go type for its data type. A text that is not a
+// value of the type is an error.
 func L5xTypeToGoType(typestr string, valuestr string) (any, error) {
 	switch typestr {
 	case "REAL":
-		value, _ := strconv.ParseFloat(valuestr, 64)
-		return float64(value), nil
+		return noValueOnError(parseFloat(valuestr, 32))
+	case "LREAL":
+		return noValueOnError(parseFloat(valuestr, 64))
 	case "DINT":
-		value, _ := strconv.ParseInt(valuestr, 10, 32)
-		return int32(value), nil
+		value, err := parseInt(valuestr, 32)
+		return noValueOnError(int32(value), err)
 	case "BOOL", "BIT":
-		value, _ := strconv.ParseBool(valuestr)
-		return bool(value), nil
+		value, err := parseBool(valuestr)
+		return noValueOnError(value, err)
 	case "INT":
-		value, _ := strconv.ParseInt(valuestr, 10, 16)
-		return int16(value), nil
+		value, err := parseInt(valuestr, 16)
+		return noValueOnError(int16(value), err)
 	case "STRING":
 		return valuestr, nil
 	case "SINT":
-		value, _ := strconv.ParseInt(valuestr, 10, 8)
-		return int8(value), nil
+		value, err := parseInt(valuestr, 8)
+		return noValueOnError(int8(value), err)
 	case "LINT":
-		value, _ := strconv.ParseInt(valuestr, 10, 64)
-		return int64(value), nil
-	case "BYTE":
-		value, _ := strconv.ParseInt(valuestr, 10, 8)
-		return uint8(value), nil
-	case "WORD":
-		value, _ := strconv.ParseInt(valuestr, 10, 16)
-		return uint16(value), nil
-	case "DWORD":
-		value, _ := strconv.ParseInt(valuestr, 10, 32)
-		return uint32(value), nil
-	case "LWORD":
-		value, _ := strconv.ParseInt(valuestr, 10, 64)
-		return uint64(value), nil
+		return noValueOnError(parseInt(valuestr, 64))
+	case "BYTE", "USINT":
+		value, err := parseUint(valuestr, 8)
+		return noValueOnError(uint8(value), err)
+	case "WORD", "UINT":
+		value, err := parseUint(valuestr, 16)
+		return noValueOnError(uint16(value), err)
+	case "DWORD", "UDINT":
+		value, err := parseUint(valuestr, 32)
+		return noValueOnError(uint32(value), err)
+	case "LWORD", "ULINT":
+		return noValueOnError(parseUint(valuestr, 64))
 
 	default:
-		return fmt.Sprintf("Unknown type: %s", typestr), nil
+		return nil, fmt.Errorf("unknown type: %s", typestr)
 	}
 }
+
+func noValueOnError[T any](value T, err error) (any, error) {
+	if err != nil {
+		return nil, err
+	}
+	return value, nil
+}
+
+// parseRadix parses a number with a radix prefix (16#00ff_ffff) or characters ('$00$01AB').
+// ok is false if it is neither of them.
+func parseRadix(s string, bits int) (value uint64, ok bool, err error) {
+	for prefix, base := range map[string]int{"2#": 2, "8#": 8, "16#": 16} {
+		if digits, ok := strings.CutPrefix(s, prefix); ok {
+			value, err = strconv.ParseUint(strings.ReplaceAll(digits, "_", ""), base, bits)
+			return value, true, err
+		}
+	}
+	if len(s) < 2 || s[0] != '\'' || s[len(s)-1] != '\'' {
+		return 0, false, nil
+	}
+	chars, err := unescape(s[1 : len(s)-1])
+	if err != nil {
+		return 0, true, err
+	}
+	if len(chars)*8 != bits {
+		return 0, true, fmt.Errorf("%s is not %d characters", s, bits/8)
+	}
+	for i := 0; i < len(chars); i++ {
+		value = value<<8 | uint64(chars[i])
+	}
+	return value, true, nil
+}
+
+func parseInt(s string, bits int) (int64, error) {
+	// the other radixes show the bits of a negative number
+	if value, ok, err := parseRadix(s, bits); ok {
+		return int64(value<<(64-bits)) >> (64 - bits), err
+	}
+	return strconv.ParseInt(s, 10, bits)
+}
+
+func parseUint(s string, bits int) (uint64, error) {
+	if value, ok, err := parseRadix(s, bits); ok {
+		return value, err
+	}
+	return strconv.ParseUint(s, 10, bits)
+}
+
+func parseBool(s string) (bool, error) {
+	if value, ok, err := parseRadix(s, 1); ok {
+		return value == 1, err
+	}
+	return strconv.ParseBool(s)
+}
+
+func parseFloat(s string, bits int) (float64, error) {
+	switch s {
+	case "1.$", "1.#INF":
+		return math.Inf(1), nil
+	case "-1.$", "-1.#INF":
+		return math.Inf(-1), nil
+	case "1.#QNAN", "-1.#QNAN", "1.#IND", "-1.#IND":
+		return math.NaN(), nil
+	}
+	if _, err := strconv.ParseFloat(s, bits); err != nil {
+		return 0, err
+	}
+	return strconv.ParseFloat(s, 64)
+}
+
+// unescape replaces the escape sequences ($$, $', $N, $00, ...) that strings are exported with.
+func unescape(s string) (string, error) {
+	named := map[byte]byte{'$': '$', '\'': '\'', 'L': '\n', 'N': '\n', 'P': '\f', 'R': '\r', 'T': '\t'}
+	var b strings.Builder
+	for i := 0; i < len(s); i++ {
+		if s[i] != '$' {
+			b.WriteByte(s[i])
+			continue
+		}
+		if i+1 < len(s) {
+			if c, ok := named[strings.ToUpper(s[i+1 : i+2])[0]]; ok {
+				b.WriteByte(c)
+				i++
+				continue
+			}
+		}
+		if i+3 > len(s) {
+			return "", fmt.Errorf("bad escape sequence at the end of %s", s)
+		}
+		c, err := strconv.ParseUint(s[i+1:i+3], 16, 8)
+		if err != nil {
+			return "", fmt.Errorf("bad escape sequence %s: %w", s[i:i+3], err)
+		}
+		b.WriteByte(byte(c))
+		i += 2
+	}
+	return b.String(), nil
+}
-- 
2.43.0


From 4420c824a25476d1ddcf2411b10b92260346469a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:16 +0000
Subject: [PATCH 104/107] fix: load every tag of an L5X file

---
 l5x/load_tags.go | 172 +++++++++++++++++++++++++++--------------------
 1 file changed, 98 insertions(+), 74 deletions(-)

diff --git a/l5x/load_tags.go b/l5x/load_tags.go
index 23db452..a4a3f0f 100644
--- a/l5x/load_tags.go
+++ b/l5x/load_tags.go
@@ -6,95 +6,119 @@ import (
 	"strings"
 )
 
+// LoadTags gets the value of every tag for which the file states one.
+//
+// Tags of a program are in a map[string]any under "program:<name>". A structure becomes a map[string]any, an
+// array (of any number of dimensions, in the order of the file) a []any.
 func LoadTags(l5xData RSLogix5000Content) (map[string]any, error) {
+	if l5xData == nil || l5xData.Controller == nil {
+		return nil, fmt.Errorf("no controller in the file")
+	}
 
-	var err error
 	tags := make(map[string]any)
-
-	for _, tag := range l5xData.Controller.Tags.Tag {
-		if tag.Data != nil {
-			if len(tag.Data) > 1 {
-				if tag.Data[1].DataValue != nil {
-					tags[tag.NameAttr], err = L5xTypeToGoType(tag.DataTypeAttr, tag.Data[1].DataValue.ValueAttr)
-				}
-			}
-		}
-		if err != nil {
-			return nil, fmt.Errorf("error converting %s: %s", tag.NameAttr, err)
-		}
+	err := loadTagCollection(tags, l5xData.Controller.Tags)
+	if err != nil {
+		return nil, err
+	}
+	if l5xData.Controller.Programs == nil {
+		return tags, nil
 	}
 
 	for _, program := range l5xData.Controller.Programs.Program {
 		progprefix := fmt.Sprintf("program:%s", program.NameAttr)
 		progtags := make(map[string]any)
-		for _, tag := range program.Tags.Tag {
-			tagname := tag.NameAttr
-			tagtype := tag.DataTypeAttr
-			if len(tag.Data) > 1 {
-				// could be an atomic value
-				if tag.Data[1].DataValue != nil {
-					progtags[tagname], err = L5xTypeToGoType(tagtype, tag.Data[1].DataValue.ValueAttr)
-					if err != nil {
-						return nil, fmt.Errorf("error converting %s.%s: %s", progprefix, tagname, err)
-					}
-					continue
-				}
-				// or a structure
-				if tag.Data[1].Structure != nil {
-					mapValue := make(map[string]any)
-					for _, member := range tag.Data[1].Structure.DataValueMember {
-						mapValue[member.NameAttr], err = L5xTypeToGoType(member.DataTypeAttr, member.ValueAttr)
-						if err != nil {
-							return nil, fmt.Errorf("error converting %s.%s.%s: %s", progprefix, tagname, member.NameAttr, err)
-						}
-					}
-					progtags[tagname] = mapValue
-					continue
-				}
-				// or an array of atomic values or structures
-				if tag.Data[1].Array != nil {
+		err := loadTagCollection(progtags, program.Tags)
+		if err != nil {
+			return nil, fmt.Errorf("%s: %w", progprefix, err)
+		}
+		tags[progprefix] = progtags
+	}
+	return tags, nil
 
-					dims, err := strconv.ParseInt(tag.DimensionsAttr, 10, 64)
-					if err != nil {
-						return nil, fmt.Errorf("%s.%s invalid dimensions on %s: %s", progprefix, tagname, tag.DimensionsAttr, err)
-					}
-					arrValue := make([]any, 0, dims)
-					for _, element := range tag.Data[1].Array.Element {
-						if element.Structure != nil {
-							// this is an array of structures
-							myValue := make(map[string]any)
-							for _, member := range element.Structure[0].DataValueMember {
-								if member.DataTypeAttr == "STRING" {
-									myValue[member.NameAttr], err = L5xTypeToGoType(member.DataTypeAttr, member.CData())
-									if err != nil {
-										return nil, fmt.Errorf("error converting %s: %s", member.NameAttr, err)
-									}
-									continue
-								}
-								myValue[member.NameAttr], err = L5xTypeToGoType(member.DataTypeAttr, member.ValueAttr)
-								if err != nil {
-									return nil, fmt.Errorf("error converting %s: %s", member.NameAttr, err)
-								}
-							}
-							arrValue = append(arrValue, myValue)
-							continue
-						}
+}
 
-						val, err := L5xTypeToGoType(tagtype, element.ValueAttr)
-						if err != nil {
-							return nil, fmt.Errorf("error converting %s: %s", tagname, err)
-						}
-						arrValue = append(arrValue, val)
-					}
-					progtags[tagname] = arrValue
-				}
+func loadTagCollection(tags map[string]any, collection *TagCollectionType) error {
+	if collection == nil {
+		return nil
+	}
+	for _, tag := range collection.Tag {
+		for _, data := range tag.Data {
+			var value any
+			var err error
+			switch {
+			case data.FormatAttr == "String":
+				value, err = unescape(data.CData())
+			// could be an atomic value
+			case data.DataValue != nil:
+				value, err = L5xTypeToGoType(tag.DataTypeAttr, data.DataValue.ValueAttr)
+			// or a structure
+			case data.Structure != nil:
+				value, err = structureValue(data.Structure)
+			// or an array of atomic values or structures
+			case data.Array != nil:
+				value, err = arrayValue(data.Array)
+			default:
+				continue
+			}
+			if err != nil {
+				return fmt.Errorf("error converting %s: %w", tag.NameAttr, err)
 			}
+			tags[tag.NameAttr] = value
 		}
-		tags[progprefix] = progtags
+	}
+	return nil
+}
 
+func structureValue(structure *DataStructure) (map[string]any, error) {
+	values := make(map[string]any)
+	for _, member := range structure.DataValueMember {
+		value, err := memberValue(member)
+		if err != nil {
+			return nil, fmt.Errorf("%s: %w", member.NameAttr, err)
+		}
+		values[member.NameAttr] = value
 	}
-	return tags, nil
+	for _, member := range structure.StructureMember {
+		value, err := structureValue(member)
+		if err != nil {
+			return nil, fmt.Errorf("%s: %w", member.NameAttr, err)
+		}
+		values[member.NameAttr] = value
+	}
+	for _, member := range structure.ArrayMember {
+		value, err := arrayValue(member)
+		if err != nil {
+			return nil, fmt.Errorf("%s: %w", member.NameAttr, err)
+		}
+		values[member.NameAttr] = value
+	}
+	return values, nil
+}
 
+func memberValue(member *DataValue) (any, error) {
+	// the characters of a string are not in an attribute
+	if member.ValueAttr == "" && len(member.InnerValue) > 0 {
+		return unescape(member.CData())
+	}
+	return L5xTypeToGoType(member.DataTypeAttr, member.ValueAttr)
+}
+
+func arrayValue(array *DataArray) ([]any, error) {
+	values := make([]any, 0, len(array.Element))
+	for _, element := range array.Element {
+		var value any
+		var err error
+		if len(element.Structure) > 0 {
+			value, err = structureValue(element.Structure[0])
+		} else {
+			value, err = L5xTypeToGoType(array.DataTypeAttr, element.ValueAttr)
+		}
+		if err != nil {
+			return nil, fmt.Errorf("%s: %w", element.IndexAttr, err)
+		}
+		values = append(values, value)
+	}
+	return values, nil
 }
 
 func LoadTagComments(l5xData RSLogix5000Content) (map[string]string, error) {
-- 
2.43.0


From b3305d0611226d2568367857400f7b6b393f65ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:33 +0000
Subject: [PATCH 105/107] fix: describe a controller temperature fault under
 its own code

---
 canned/fault_descriptions.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/canned/fault_descriptions.go b/canned/fault_descriptions.go
index 29ef8a4..e007535 100644
--- a/canned/fault_descriptions.go
+++ b/canned/fault_descriptions.go
@@ -1445,9 +1445,9 @@ var FaultDescriptions = map[int]map[int]FaultDescription{
 			Major:            false,
 			TypeName:         "Diagnostic",
 		},
-		32: {
+		34: {
 			Type:             17,
-			Code:             31,
+			Code:             34,
 			Display:          "Major Fault T17:C34 - Diagnostic Fault: Controller internal temperature has exceeded operating limit.",
 			Description:      "Controller internal temperature has exceeded the operating limit.",
 			CorrectiveAction: "Take measures to reduce the ambient temperature of the module. Follow the recommended limits for the ambient (inlet) temperature and apply the required clearance around the chassis.",
-- 
2.43.0


From 164b1fc2416e07466f299244dbaf3226038f4b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:33 +0000
Subject: [PATCH 106/107] fix: do not ask for an interval other than the RPI

---
 connect.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/connect.go b/connect.go
index 184b66f..69aa5c4 100644
--- a/connect.go
+++ b/connect.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"log/slog"
+	"math"
 	"net"
 	"slices"
 	"time"
@@ -110,6 +111,10 @@ func (client *Client) Connect() error {
 	if client.RPI == 0 {
 		client.RPI = rpiDefault
 	}
+	// the interval is sent as a 32 bit count of microseconds
+	if client.RPI < time.Microsecond || client.RPI/time.Microsecond > math.MaxUint32 {
+		return fmt.Errorf("invalid RPI %v", client.RPI)
+	}
 	client.sequenceNumber.Add(uint32(time.Now().UnixMilli()))
 
 	// default path is back plane -> slot 0
-- 
2.43.0


From 33f0c7e46af3a7a7ab22cfcc060a0d6bdc98e7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:33 +0000
Subject: [PATCH 107/107] fix: do not connect along a truncated path

---
 connect.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/connect.go b/connect.go
index 69aa5c4..fd86c84 100644
--- a/connect.go
+++ b/connect.go
@@ -127,6 +127,11 @@ func (client *Client) Connect() error {
 		}
 	}
 
+	// the length of the path including the message router is sent as a count of words in one byte
+	if words := client.Controller.Path.Len()/2 + 2; words > math.MaxUint8 {
+		return fmt.Errorf("path of %d words is too long", words)
+	}
+
 	if client.ioi_cache == nil {
 		client.ioi_cache = make(map[string]*tagIOI)
 	}
-- 
2.43.0

