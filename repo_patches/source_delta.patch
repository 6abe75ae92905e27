From 9b30eca3af6ad21f4bf9a39cea448ce2f60d7134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:08 +0000
Subject: [PATCH 01/76] fix: report unknown flags and options to the caller
 instead of ending the process

Any datagram with an undefined version, frame type, error code or timestamp
type reached log.Fatalln in the flag lookups and killed the node.
---
 sarflags/sarflags.go | 23 ++++-------------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/sarflags/sarflags.go b/sarflags/sarflags.go
index ad05a5b..fc03d06 100644
--- a/sarflags/sarflags.go
+++ b/sarflags/sarflags.go
@@ -7,7 +7,6 @@ import (
 	"errors"
 	"fmt"
 
-	"log"
 	"math"
 	"os"
 	"strings"
@@ -585,7 +584,6 @@ func AddFlag(curflag string, flag string, option string) string {
 		}
 		return newflags
 	}
-	log.Fatalln("Invalid Flag:", flag, "or option:", option)
 	return curflag
 }
 
@@ -688,7 +686,6 @@ func GetStr(curflag uint32, field string) string {
 			return k
 		}
 	}
-	log.Fatalln("GetStr fail Invalid field", field, "in Flag", curflag)
 	return ""
 }
 
@@ -697,21 +694,18 @@ func GetStr(curflag uint32, field string) string {
 func Set(curflag uint32, field string, flagname string) (uint32, error) {
 	fl, ok := Flags[field]
 	if !ok {
-		log.Fatalln("Set lookup fail Invalid Flag", field)
 		e := "invalid Flag: " + field
 		return curflag, errors.New(e)
 	}
 
 	if !Good(field) {
 		e := "Set - Invalid Field:" + field + ":"
-		log.Fatalln(e)
 		return curflag, errors.New(e)
 	}
 	// Get the value of the flag
 	newval, ok := Flags[field].Options[flagname]
 	if !ok {
 		e := "Set lookup fail Invalid flagname" + flagname + "in DFlag" + field
-		log.Fatalln(e)
 		return curflag, errors.New(e)
 	}
 
@@ -735,8 +729,8 @@ func SetFlags(curflag uint32, flags map[string]string) uint32 {
 
 // Test - true if the flag is set in curflag
 func Test(curflag uint32, field, string, flagname string) bool {
-	v, _ := Set(0, field, flagname)
-	return Get(curflag, field) == Get(v, field)
+	v, err := Set(0, field, flagname)
+	return err == nil && Get(curflag, field) == Get(v, field)
 }
 
 // Name - return the name of the flag for field in curflag
@@ -749,7 +743,6 @@ func Name(curflag uint32, field string) string {
 			return k
 		}
 	}
-	log.Fatalln("Name out of range")
 	return ""
 }
 
@@ -809,7 +802,6 @@ func GetDStr(curflag uint16, field string) string {
 			return ki
 		}
 	}
-	log.Fatalln("GetDStr fail Invalid field", field, "in DFlag:", curflag)
 	return ""
 }
 
@@ -818,14 +810,12 @@ func SetD(curflag uint16, field string, flagname string) (uint16, error) {
 
 	if !GoodD(field) {
 		e := "Invalid Date Field:" + field + ":"
-		log.Fatalln(e)
 		return curflag, errors.New(e)
 	}
 	// Get the value of the flag
 	newval, ok := DirentFlags[field].Options[flagname]
 	if !ok {
 		e := "SetD lookup fail Invalid flagname" + flagname + "in DFlag" + field
-		log.Fatalln(e)
 		return curflag, errors.New(e)
 	}
 
@@ -859,8 +849,8 @@ func FlagD() []string {
 
 // TestD - true if the flag is set in curflag
 func TestD(curdflag uint16, field string, flagname string) bool {
-	v, _ := SetD(0, field, flagname)
-	return GetD(curdflag, field) == GetD(v, field)
+	v, err := SetD(0, field, flagname)
+	return err == nil && GetD(curdflag, field) == GetD(v, field)
 }
 
 // NameD - return the name of the flag for field in curdflag
@@ -873,7 +863,6 @@ func NameD(curdflag uint16, field string) string {
 			return ki
 		}
 	}
-	log.Fatalln("NameD out of range")
 	return ""
 }
 
@@ -903,7 +892,6 @@ func AddFlagD(curflag string, flag string, option string) string {
 		}
 		return newflags
 	}
-	log.Fatalln("Invalid Directory Flag:", flag, "or option:", option)
 	return curflag
 }
 
@@ -954,7 +942,6 @@ func GetTStr(curflag uint8) string {
 			return ki
 		}
 	}
-	log.Fatalln("GetTStr fail Invalid Tflag:", curflag)
 	return ""
 }
 
@@ -963,7 +950,6 @@ func SetT(curflag uint8, flagname string) (uint8, error) {
 
 	newval, found := TimeStamps.Options[flagname]
 	if !found {
-		log.Fatalln("SetT lookup fail Invalid flagname", flagname, "in TFlag")
 		e := "invalid TFlag: " + flagname
 		return curflag, errors.New(e)
 	}
@@ -987,7 +973,6 @@ func NameT(curtflag uint8) string {
 			return ki
 		}
 	}
-	log.Fatalln("NameT out of range")
 	return ""
 }
 
-- 
2.43.0


From 707792d8dc04a576cd6584b7c55f078c419b04ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:09 +0000
Subject: [PATCH 02/76] fix: flag list helpers panicked on an empty list or a
 flag without a value

---
 sarflags/sarflags.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/sarflags/sarflags.go b/sarflags/sarflags.go
index fc03d06..278c65b 100644
--- a/sarflags/sarflags.go
+++ b/sarflags/sarflags.go
@@ -595,7 +595,7 @@ func FlagValue(flags, flag string) string {
 	flagslice := strings.Split(flags, ",") // The name=val of the flag
 	for fl := range flagslice {
 		f := strings.Split(flagslice[fl], "=") // f[0]=name f[1]=val
-		if f[0] == flag {
+		if len(f) == 2 && f[0] == flag {
 			return f[1]
 		}
 	}
@@ -609,13 +609,14 @@ func ReplaceFlag(flags, value, option string) string {
 	var replaced bool
 
 	for _, flag := range strings.Split(flags, ",") {
-		if strings.Split(flag, "=")[0] == value {
+		f := strings.Split(flag, "=") // f[0]=name f[1]=val
+		if f[0] == value {
 			replaced = true
 			// We are replacing this current flags value with a new one
 			newflags = AddFlag(newflags, value, option)
-		} else {
+		} else if len(f) == 2 {
 			// Just add the current flag to the list
-			newflags = AddFlag(newflags, strings.Split(flag, "=")[0], strings.Split(flag, "=")[1])
+			newflags = AddFlag(newflags, f[0], f[1])
 		}
 	}
 	if !replaced { // We are adding this flag as it does not currently exist
@@ -901,13 +902,14 @@ func ReplaceFlagD(flags, value, option string) string {
 	var replaced bool
 
 	for _, flag := range strings.Split(flags, ",") {
-		if strings.Split(flag, "=")[0] == value {
+		f := strings.Split(flag, "=") // f[0]=name f[1]=val
+		if f[0] == value {
 			replaced = true
 			// We are replacing this current flags value with a new one
 			newflags = AddFlagD(newflags, value, option)
-		} else {
+		} else if len(f) == 2 {
 			// Just add the current flag to the list
-			newflags = AddFlagD(newflags, strings.Split(flag, "=")[0], strings.Split(flag, "=")[1])
+			newflags = AddFlagD(newflags, f[0], f[1])
 		}
 	}
 	if !replaced { // We are adding this flag as it does not currently exist
-- 
2.43.0


From 20fb3d4743b064afb82baa616ed424c2d4f045f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:09 +0000
Subject: [PATCH 03/76] fix: copy the IPv6 multicast address and beacon count
 of the operator settings

---
 sarflags/sarflags.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sarflags/sarflags.go b/sarflags/sarflags.go
index 278c65b..ae7ec41 100644
--- a/sarflags/sarflags.go
+++ b/sarflags/sarflags.go
@@ -629,7 +629,7 @@ func ReplaceFlag(flags, value, option string) string {
 func (s *Cliflags) CopyCliflags() (*Cliflags, error) {
 	d := new(Cliflags)
 	d.V4Multicast = s.V4Multicast
-	d.V6Multicast = s.V4Multicast
+	d.V6Multicast = s.V6Multicast
 	d.Port = s.Port
 	d.Timestamp = s.Timestamp
 	d.Timezone = s.Timezone
@@ -637,6 +637,7 @@ func (s *Cliflags) CopyCliflags() (*Cliflags, error) {
 	d.Ppad = s.Ppad
 	d.Sardir = s.Sardir
 	d.Buffersize = s.Buffersize
+	d.Bcount = s.Bcount
 	// Copy the various Timeouts
 	d.Timeout.Binterval = s.Timeout.Binterval
 	d.Timeout.Metadata = s.Timeout.Metadata
-- 
2.43.0


From 737a4ccdf537d1efd2e7b7dcea5e7ab947947359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:39 +0000
Subject: [PATCH 04/76] fix: name the config file that failed to load instead
 of indexing os.Args

---
 sarflags/sarflags.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sarflags/sarflags.go b/sarflags/sarflags.go
index ae7ec41..82c5a0e 100644
--- a/sarflags/sarflags.go
+++ b/sarflags/sarflags.go
@@ -334,13 +334,13 @@ func (c *Cliflags) ReadConfig(fname string) error {
 
 	var confdata []byte
 	if confdata, err = os.ReadFile(fname); err != nil {
-		fmt.Println("Cannot open the saratoga config file", os.Args[1], ":", err)
+		fmt.Println("Cannot open the saratoga config file", fname, ":", err)
 		return err
 	}
 
 	var sarconfdata map[string]interface{}
 	if err = json.Unmarshal([]byte(confdata), &sarconfdata); err != nil {
-		fmt.Println("Cannot Unmarshal json from saratoga config file", os.Args[1], ":", err)
+		fmt.Println("Cannot Unmarshal json from saratoga config file", fname, ":", err)
 		return err
 	}
 	// Lock them up while we are changing the values
-- 
2.43.0


From a75023c02c782acd67a6127108f6547713260db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:39 +0000
Subject: [PATCH 05/76] fix: beacon decoding panicked on frames shorter than
 their free space field

---
 beacon/beacon.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/beacon/beacon.go b/beacon/beacon.go
index edca92d..ca34b5a 100644
--- a/beacon/beacon.go
+++ b/beacon/beacon.go
@@ -247,16 +247,28 @@ func (b Beacon) Encode() ([]byte, error) {
 // Get -- Decode Beacon byte slice frame into Beacon struct
 func (b *Beacon) Decode(frame []byte) error {
 
+	if len(frame) < 4 {
+		return errors.New("beacon.Decode - beacon frame too short")
+	}
 	b.Header = binary.BigEndian.Uint32(frame[:4])
 	if sarflags.GetStr(b.Header, "freespace") == "yes" {
 		switch sarflags.GetStr(b.Header, "freespaced") {
 		case "d16":
+			if len(frame) < 6 {
+				return errors.New("beacon.Decode - beacon frame too short")
+			}
 			b.Freespace = uint64(binary.BigEndian.Uint16(frame[4:6]))
 			b.Eid = string(frame[6:])
 		case "d32":
+			if len(frame) < 8 {
+				return errors.New("beacon.Decode - beacon frame too short")
+			}
 			b.Freespace = uint64(binary.BigEndian.Uint32(frame[4:8]))
 			b.Eid = string(frame[8:])
 		case "d64":
+			if len(frame) < 12 {
+				return errors.New("beacon.Decode - beacon frame too short")
+			}
 			b.Freespace = binary.BigEndian.Uint64(frame[4:12])
 			b.Eid = string(frame[12:])
 		case "d128":
-- 
2.43.0


From 7c91146ddb6710bd529df2bf72cb33b5ab9e7abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:39 +0000
Subject: [PATCH 06/76] fix: request decoding panicked without a terminator and
 mangled file names

A name without a null ran past the frame, bytes above 0x7f were widened to
two byte runes (shifting the auth field) and a reused structure kept the
previous name as a prefix.
---
 request/request.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/request/request.go b/request/request.go
index 93f9536..53f2657 100644
--- a/request/request.go
+++ b/request/request.go
@@ -3,6 +3,7 @@
 package request
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -126,14 +127,12 @@ func (r *Request) Decode(frame []byte) error {
 	}
 	r.Header = binary.BigEndian.Uint32(frame[:4])
 	r.Session = binary.BigEndian.Uint32(frame[4:8])
-	pos := 8
-	for i := range frame[8:] { // Filename in frame is null terminated string
-		if frame[pos+i] == '\x00' { // Hit null
-			break
-		}
-		r.Fname += string(frame[pos+i])
+	fnlen := bytes.IndexByte(frame[8:], '\x00') // Filename in frame is null terminated string
+	if fnlen < 0 {
+		return errors.New("request.Decode - file name not terminated")
 	}
-	pos = 8 + 1 + len(r.Fname)
+	r.Fname = string(frame[8 : 8+fnlen])
+	pos := 8 + 1 + fnlen
 	if pos == len(frame) { // No following auth field
 		r.Auth = nil
 		return nil
-- 
2.43.0


From ded15f888904614611bcae2506151e68e3050f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:39 +0000
Subject: [PATCH 07/76] fix: metadata decoding panicked when the checksum ran
 past the frame

---
 metadata/metadata.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index a350420..21fdc3c 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -277,6 +277,9 @@ func (m *MetaData) Decode(frame []byte) (err error) {
 
 	// Checksum
 	csuml := int(sarflags.Get(m.Header, "csumlen")) * 4
+	if len(frame) < pos+csuml {
+		return errors.New("MetaDataGet - Frame too short")
+	}
 	m.Checksum = make([]byte, csuml)
 	copy(m.Checksum, frame[pos:pos+csuml])
 	pos += csuml
-- 
2.43.0


From b4fc2d9ce53e7e0dda5280f946b8d98505f3965c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:39 +0000
Subject: [PATCH 08/76] fix: data decoding panicked on frames shorter than
 their timestamp and offset

---
 data/data.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/data/data.go b/data/data.go
index 8db2b11..6dfd73c 100644
--- a/data/data.go
+++ b/data/data.go
@@ -157,11 +157,17 @@ func (d *Data) Decode(frame []byte) error {
 	d.Header = binary.BigEndian.Uint32(frame[:4])
 	d.Session = binary.BigEndian.Uint32(frame[4:8])
 	if sarflags.GetStr(d.Header, "reqtstamp") == "yes" {
+		if len(frame) < 24 {
+			return errors.New("data.Get - data frame too short")
+		}
 		if err := d.Tstamp.Get(frame[8:24]); err != nil {
 			return err
 		}
 		switch sarflags.GetStr(d.Header, "descriptor") {
 		case "d16":
+			if len(frame) < 26 {
+				return errors.New("data.Get - data frame too short")
+			}
 			d.Offset = uint64(binary.BigEndian.Uint16(frame[24:26])) // 2 bytes
 			d.Payload = make([]byte, len(frame[26:]))
 			copy(d.Payload, frame[26:])
@@ -169,10 +175,16 @@ func (d *Data) Decode(frame []byte) error {
 				return errors.New("length of data payload is 0")
 			}
 		case "d32":
+			if len(frame) < 28 {
+				return errors.New("data.Get - data frame too short")
+			}
 			d.Offset = uint64(binary.BigEndian.Uint32(frame[24:28])) // 4 bytes
 			d.Payload = make([]byte, len(frame[28:]))
 			copy(d.Payload, frame[28:])
 		case "d64":
+			if len(frame) < 32 {
+				return errors.New("data.Get - data frame too short")
+			}
 			d.Offset = binary.BigEndian.Uint64(frame[24:32]) // 8 bytes
 			d.Payload = make([]byte, len(frame[32:]))
 			copy(d.Payload, frame[32:])
@@ -192,10 +204,16 @@ func (d *Data) Decode(frame []byte) error {
 		d.Payload = make([]byte, len(frame[10:]))
 		copy(d.Payload, frame[10:])
 	case "d32":
+		if len(frame) < 12 {
+			return errors.New("data.Get - data frame too short")
+		}
 		d.Offset = uint64(binary.BigEndian.Uint32(frame[8:12]))
 		d.Payload = make([]byte, len(frame[12:]))
 		copy(d.Payload, frame[12:])
 	case "d64":
+		if len(frame) < 16 {
+			return errors.New("data.Get - data frame too short")
+		}
 		d.Offset = uint64(binary.BigEndian.Uint64(frame[8:16]))
 		d.Payload = make([]byte, len(frame[16:]))
 		copy(d.Payload, frame[16:])
-- 
2.43.0


From 9e5c27aa77e55a3c882b2748a5eef1ae4c1febe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:39 +0000
Subject: [PATCH 09/76] fix: accept an empty payload for every descriptor and
 timestamp combination

Only 16-bit descriptors with a timestamp refused it, so a frame that encodes
could not be decoded.
---
 data/data.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/data/data.go b/data/data.go
index 6dfd73c..83b616d 100644
--- a/data/data.go
+++ b/data/data.go
@@ -171,9 +171,6 @@ func (d *Data) Decode(frame []byte) error {
 			d.Offset = uint64(binary.BigEndian.Uint16(frame[24:26])) // 2 bytes
 			d.Payload = make([]byte, len(frame[26:]))
 			copy(d.Payload, frame[26:])
-			if len(d.Payload) == 0 {
-				return errors.New("length of data payload is 0")
-			}
 		case "d32":
 			if len(frame) < 28 {
 				return errors.New("data.Get - data frame too short")
-- 
2.43.0


From b34a489d2084acc60abb91d5922d54167f279be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:07 +0000
Subject: [PATCH 10/76] fix: write the timestamp into encoded status frames

Space for it was reserved but everything after the session was written 16
bytes early, so no timestamped status frame could be decoded.
---
 status/status.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/status/status.go b/status/status.go
index 092f335..dd777a1 100644
--- a/status/status.go
+++ b/status/status.go
@@ -154,6 +154,7 @@ func (s Status) Encode() ([]byte, error) {
 
 	if sarflags.GetStr(s.Header, "reqtstamp") == "yes" {
 		framelen += 16 // Timestamp
+		havetstamp = true
 	}
 
 	var dsize int
-- 
2.43.0


From 894d6bc5550cf7b740b9d86756b98bdb350160e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:07 +0000
Subject: [PATCH 11/76] fix: status decoding panicked on frames shorter than
 their fixed fields

---
 status/status.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/status/status.go b/status/status.go
index dd777a1..77b6f40 100644
--- a/status/status.go
+++ b/status/status.go
@@ -247,6 +247,9 @@ func (s *Status) Decode(frame []byte) error {
 	if sarflags.GetStr(s.Header, "reqtstamp") == "yes" {
 		var err error
 
+		if len(frame) < 24 {
+			return errors.New("status frame too short")
+		}
 		if err = s.Tstamp.Get(frame[pos:24]); err != nil {
 			return err
 		}
@@ -258,6 +261,9 @@ func (s *Status) Decode(frame []byte) error {
 	switch sarflags.GetStr(s.Header, "descriptor") {
 	case "d16":
 		dsize = 2
+		if len(frame) < pos+2*dsize {
+			return errors.New("status frame too short")
+		}
 		s.Progress = uint64(binary.BigEndian.Uint16(frame[pos : pos+dsize]))
 		pos += dsize
 		s.Inrespto = uint64(binary.BigEndian.Uint16(frame[pos : pos+dsize]))
@@ -273,6 +279,9 @@ func (s *Status) Decode(frame []byte) error {
 		}
 	case "d32":
 		dsize = 4
+		if len(frame) < pos+2*dsize {
+			return errors.New("status frame too short")
+		}
 		s.Progress = uint64(binary.BigEndian.Uint32(frame[pos : pos+dsize]))
 		pos += dsize
 		s.Inrespto = uint64(binary.BigEndian.Uint32(frame[pos : pos+dsize]))
@@ -287,6 +296,9 @@ func (s *Status) Decode(frame []byte) error {
 		}
 	case "d64":
 		dsize = 8
+		if len(frame) < pos+2*dsize {
+			return errors.New("status frame too short")
+		}
 		s.Progress = uint64(binary.BigEndian.Uint64(frame[pos : pos+dsize]))
 		pos += dsize
 		s.Inrespto = uint64(binary.BigEndian.Uint64(frame[pos : pos+dsize]))
-- 
2.43.0


From 871f00bcbd11fb60cfa072966d62cea63ba49474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:07 +0000
Subject: [PATCH 12/76] fix: decoding or rebuilding a status frame kept the
 holes of the previous one

---
 status/status.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/status/status.go b/status/status.go
index 77b6f40..855698b 100644
--- a/status/status.go
+++ b/status/status.go
@@ -106,6 +106,7 @@ func (s *Status) New(flags string, info interface{}) error {
 	s.Session = uint32(e.FieldByName("Session").Uint())
 	s.Progress = e.FieldByName("Progress").Uint()
 	s.Inrespto = e.FieldByName("Inrespto").Uint()
+	s.Holes = nil
 	for i := 0; i < e.FieldByName("Holes").Len(); i++ {
 		var h holes.Hole
 		// Get the Start and End from within the Holes Structure
@@ -134,6 +135,7 @@ func (s *Status) Make(header uint32, info interface{}) error {
 	s.Session = uint32(e.FieldByName("Session").Uint())
 	s.Progress = e.FieldByName("Progress").Uint()
 	s.Inrespto = e.FieldByName("Inrespto").Uint()
+	s.Holes = nil
 	for i := 0; i < e.FieldByName("Holes").Len(); i++ {
 		var h holes.Hole
 		// Get the Start and End from within the Holes Structure
@@ -258,6 +260,7 @@ func (s *Status) Decode(frame []byte) error {
 
 	var dsize int
 
+	s.Holes = nil
 	switch sarflags.GetStr(s.Header, "descriptor") {
 	case "d16":
 		dsize = 2
-- 
2.43.0


From 22c902c6ca9b0addb7f716efd9a806caf556dbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:07 +0000
Subject: [PATCH 13/76] fix: directory entry decoding panicked on entries
 shorter than their times

---
 dirent/dirent.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dirent/dirent.go b/dirent/dirent.go
index 202aa6b..7e3b7a1 100644
--- a/dirent/dirent.go
+++ b/dirent/dirent.go
@@ -218,6 +218,9 @@ func (d *DirEnt) Decode(frame []byte) error {
 	default:
 		return errors.New("invalid MetaData Frame")
 	}
+	if len(frame) < pos+4+4 {
+		return errors.New("DirEntGet - Entry too short")
+	}
 	// fmt.Printf("Header:%d Size:%d\n", d.header, d.size)
 
 	ts := make([]byte, 5)
-- 
2.43.0


From 28c508aab6a9d3fcf97b6946296e451333f98825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:07 +0000
Subject: [PATCH 14/76] fix: directory entry decoding mangled path bytes above
 0x7f

---
 dirent/dirent.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/dirent/dirent.go b/dirent/dirent.go
index 7e3b7a1..f6380f7 100644
--- a/dirent/dirent.go
+++ b/dirent/dirent.go
@@ -3,6 +3,7 @@
 package dirent
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -240,13 +241,11 @@ func (d *DirEnt) Decode(frame []byte) error {
 	pos += 4
 	// fmt.Printf("Ctime:%s\n", d.ctime.Print())
 
-	d.Path = ""
-	for i := range frame[pos:] { // Path is null terminated string
-		if frame[pos+i] == '\x00' { // Hit null
-			break
-		}
-		d.Path += string(frame[pos+i])
+	end := bytes.IndexByte(frame[pos:], '\x00') // Path is null terminated string
+	if end < 0 {
+		end = len(frame[pos:])
 	}
+	d.Path = string(frame[pos : pos+end])
 	// fmt.Printf("Path:<%s>\n", d.path)
 	return nil
 }
-- 
2.43.0


From f4a94bc587a1c34e3652ebf9379d63061affcfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:42 +0000
Subject: [PATCH 15/76] fix: reading a timestamp from a short buffer panicked

---
 timestamp/timestamp.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/timestamp/timestamp.go b/timestamp/timestamp.go
index 13a8f19..8643323 100644
--- a/timestamp/timestamp.go
+++ b/timestamp/timestamp.go
@@ -20,6 +20,9 @@ type Timestamp struct {
 	ttype  string // What are we posix32,posix64...
 }
 
+// errShort - buffer cannot hold the timestamp type it says it has
+var errShort = errors.New("timestamp.Get: Timestamp too short")
+
 // New - Construct a timestamp - return byte slice of time
 // flag is string of format "xxxxx"
 func (t *Timestamp) New(flag string, ts time.Time) error {
@@ -129,35 +132,56 @@ func (t *Timestamp) Now(flag string) error {
 // Get -- Get  timestamp from buffer
 func (t *Timestamp) Get(tstamp []byte) error {
 
+	if len(tstamp) < 1 {
+		return errShort
+	}
 	t.header = tstamp[0]
 	ttype := sarflags.GetTStr(t.header)
 	switch ttype {
 	case "posix32":
+		if len(tstamp) < 5 {
+			return errShort
+		}
 		t.secs = uint64(binary.BigEndian.Uint32(tstamp[1:5]))
 		t.nsecs = 0
 		t.local = ""
 		t.ttype = ttype
 	case "posix64":
+		if len(tstamp) < 9 {
+			return errShort
+		}
 		t.secs = uint64(binary.BigEndian.Uint64(tstamp[1:9]))
 		t.nsecs = 0
 		t.local = ""
 		t.ttype = ttype
 	case "posix32_32":
+		if len(tstamp) < 9 {
+			return errShort
+		}
 		t.secs = uint64(binary.BigEndian.Uint32(tstamp[1:5]))
 		t.nsecs = uint64(binary.BigEndian.Uint32(tstamp[5:9]))
 		t.local = ""
 		t.ttype = ttype
 	case "posix64_32":
+		if len(tstamp) < 13 {
+			return errShort
+		}
 		t.secs = uint64(binary.BigEndian.Uint64(tstamp[1:9]))
 		t.nsecs = uint64(binary.BigEndian.Uint32(tstamp[9:13]))
 		t.local = ""
 		t.ttype = ttype
 	case "epoch2000_32":
+		if len(tstamp) < 5 {
+			return errShort
+		}
 		t.secs = uint64(binary.BigEndian.Uint32(tstamp[1:5]))
 		t.nsecs = 0
 		t.local = ""
 		t.ttype = ttype
 	default:
+		if len(tstamp) < 15 {
+			return errShort
+		}
 		t.secs = 0
 		t.nsecs = 0
 		t.local = string(tstamp[1:15])
-- 
2.43.0


From d839435aa7cb5d4f4ba63eac89b4bc6ef8ba6eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:42 +0000
Subject: [PATCH 16/76] fix: a locally interpreted timestamp could be sent but
 never received

---
 timestamp/timestamp.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/timestamp/timestamp.go b/timestamp/timestamp.go
index 8643323..53a404f 100644
--- a/timestamp/timestamp.go
+++ b/timestamp/timestamp.go
@@ -83,6 +83,8 @@ func (t *Timestamp) New(flag string, ts time.Time) error {
 		t.nsecs = 0
 		t.local = ""
 	default: // localinterp Dont know this timestamp type so whatever is in flag is used
+		t.secs = 0
+		t.nsecs = 0
 		t.local = flag
 		t.ttype = flag
 	}
@@ -178,6 +180,14 @@ func (t *Timestamp) Get(tstamp []byte) error {
 		t.nsecs = 0
 		t.local = ""
 		t.ttype = ttype
+	case "localinterp":
+		if len(tstamp) < 15 {
+			return errShort
+		}
+		t.secs = 0
+		t.nsecs = 0
+		t.local = strings.TrimRight(string(tstamp[1:15]), "\x00")
+		t.ttype = ttype
 	default:
 		if len(tstamp) < 15 {
 			return errShort
-- 
2.43.0


From 2f19f7f5f69544dca86b92bb62bdf0dd4b262a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:43 +0000
Subject: [PATCH 17/76] fix: refuse to encode a data offset that its descriptor
 cannot hold

---
 data/data.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/data/data.go b/data/data.go
index 83b616d..ec21dcd 100644
--- a/data/data.go
+++ b/data/data.go
@@ -263,9 +263,15 @@ func (d *Data) Encode() ([]byte, error) {
 	}
 	switch sarflags.GetStr(d.Header, "descriptor") {
 	case "d16":
+		if d.Offset > sarflags.MaxUint16 {
+			return nil, fmt.Errorf("descriptor d16 too small for data offset %d", d.Offset)
+		}
 		binary.BigEndian.PutUint16(frame[pos:pos+2], uint16(d.Offset))
 		pos += 2
 	case "d32":
+		if d.Offset > sarflags.MaxUint32 {
+			return nil, fmt.Errorf("descriptor d32 too small for data offset %d", d.Offset)
+		}
 		binary.BigEndian.PutUint32(frame[pos:pos+4], uint32(d.Offset))
 		pos += 4
 	case "d64":
-- 
2.43.0


From 17d783792e8871082f399dad9e045dadc58f8dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:43 +0000
Subject: [PATCH 18/76] fix: refuse to encode a free space that its descriptor
 cannot hold

---
 beacon/beacon.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/beacon/beacon.go b/beacon/beacon.go
index ca34b5a..025c1c4 100644
--- a/beacon/beacon.go
+++ b/beacon/beacon.go
@@ -225,9 +225,15 @@ func (b Beacon) Encode() ([]byte, error) {
 	if sarflags.GetStr(b.Header, "freespace") == "yes" {
 		switch sarflags.GetStr(b.Header, "freespaced") {
 		case "d16":
+			if b.Freespace > sarflags.MaxUint16 {
+				return nil, fmt.Errorf("freespaced d16 too small for free space %d", b.Freespace)
+			}
 			binary.BigEndian.PutUint16(frame[pos:6], uint16(b.Freespace))
 			pos += 2
 		case "d32":
+			if b.Freespace > sarflags.MaxUint32 {
+				return nil, fmt.Errorf("freespaced d32 too small for free space %d", b.Freespace)
+			}
 			binary.BigEndian.PutUint32(frame[pos:8], uint32(b.Freespace))
 			pos += 4
 		case "d64":
-- 
2.43.0


From 71e0ecfd5956e808a0f8ae57c99d22599686e602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:43 +0000
Subject: [PATCH 19/76] fix: refuse to encode status values that the descriptor
 cannot hold

---
 status/status.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/status/status.go b/status/status.go
index 855698b..e18399c 100644
--- a/status/status.go
+++ b/status/status.go
@@ -160,12 +160,15 @@ func (s Status) Encode() ([]byte, error) {
 	}
 
 	var dsize int
+	max := sarflags.MaxUint64 // Largest value the descriptor can hold
 
 	switch sarflags.GetStr(s.Header, "descriptor") { // Offset
 	case "d16":
 		dsize = 2
+		max = sarflags.MaxUint16
 	case "d32":
 		dsize = 4
+		max = sarflags.MaxUint32
 	case "d64":
 		dsize = 8
 	case "d128":
@@ -174,6 +177,9 @@ func (s Status) Encode() ([]byte, error) {
 	default:
 		return nil, errors.New("invalid descriptor in status")
 	}
+	if s.Progress > max || s.Inrespto > max {
+		return nil, errors.New("descriptor too small for progress or inrespto in status")
+	}
 	framelen += (dsize*2 + (dsize * len(s.Holes) * 2)) // progress + inrespto + holes
 	frame := make([]byte, framelen)
 
@@ -193,6 +199,10 @@ func (s Status) Encode() ([]byte, error) {
 		binary.BigEndian.PutUint16(frame[pos:pos+dsize], uint16(s.Inrespto))
 		pos += dsize
 		for i := range s.Holes {
+			if s.Holes[i].Start < 0 || uint64(s.Holes[i].Start) > max ||
+				s.Holes[i].End < 0 || uint64(s.Holes[i].End) > max {
+				return nil, errors.New("descriptor too small for hole in status")
+			}
 			binary.BigEndian.PutUint16(frame[pos:pos+dsize], uint16(s.Holes[i].Start))
 			pos += dsize
 			binary.BigEndian.PutUint16(frame[pos:pos+dsize], uint16(s.Holes[i].End))
@@ -204,6 +214,10 @@ func (s Status) Encode() ([]byte, error) {
 		binary.BigEndian.PutUint32(frame[pos:pos+4], uint32(s.Inrespto))
 		pos += dsize
 		for i := range s.Holes {
+			if s.Holes[i].Start < 0 || uint64(s.Holes[i].Start) > max ||
+				s.Holes[i].End < 0 || uint64(s.Holes[i].End) > max {
+				return nil, errors.New("descriptor too small for hole in status")
+			}
 			binary.BigEndian.PutUint32(frame[pos:pos+dsize], uint32(s.Holes[i].Start))
 			pos += dsize
 			binary.BigEndian.PutUint32(frame[pos:pos+dsize], uint32(s.Holes[i].End))
@@ -215,6 +229,10 @@ func (s Status) Encode() ([]byte, error) {
 		binary.BigEndian.PutUint64(frame[pos:pos+dsize], uint64(s.Inrespto))
 		pos += dsize
 		for i := range s.Holes {
+			if s.Holes[i].Start < 0 || uint64(s.Holes[i].Start) > max ||
+				s.Holes[i].End < 0 || uint64(s.Holes[i].End) > max {
+				return nil, errors.New("descriptor too small for hole in status")
+			}
 			binary.BigEndian.PutUint64(frame[pos:pos+dsize], uint64(s.Holes[i].Start))
 			pos += dsize
 			binary.BigEndian.PutUint64(frame[pos:pos+dsize], uint64(s.Holes[i].End))
-- 
2.43.0


From 174d6db93c8b7cf64d332dbcb3d4c31e3d67c562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:43 +0000
Subject: [PATCH 20/76] fix: encode directory entries of files larger than 4GB
 with a 64 bit descriptor

---
 dirent/dirent.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/dirent/dirent.go b/dirent/dirent.go
index f6380f7..adb6d2c 100644
--- a/dirent/dirent.go
+++ b/dirent/dirent.go
@@ -173,10 +173,6 @@ func (d *DirEnt) Encode() ([]byte, error) {
 		}
 		binary.BigEndian.PutUint32(frame[pos:pos+dsize], uint32(d.Size))
 	case 8:
-		if d.Size > sarflags.MaxUint32 { // This should never happen!!!!
-			e := fmt.Sprintf("Descriptor d64 too small for file size %d", d.Size)
-			return nil, errors.New(e)
-		}
 		binary.BigEndian.PutUint64(frame[pos:pos+dsize], uint64(d.Size))
 	default:
 		e := fmt.Sprintf("Malformed Directory Entry Invalid descriptor size %d", d.Size)
-- 
2.43.0


From e58f12f31416362b98964f2d7b37e3f484c6b69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:43 +0000
Subject: [PATCH 21/76] fix: metadata encoding ignored a directory entry that
 cannot be encoded

---
 metadata/metadata.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index 21fdc3c..6a8c0d0 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -244,7 +244,10 @@ func (m *MetaData) Encode() ([]byte, error) {
 	// Create the frame slice
 	framelen := 4 + 4 // Header + Session
 	framelen += len(m.Checksum)
-	de, _ := m.Dir.Encode()
+	de, err := m.Dir.Encode()
+	if err != nil {
+		return nil, err
+	}
 	framelen += len(de)
 
 	frame := make([]byte, framelen)
-- 
2.43.0


From 7ac7eff64a94e4dced6a304a155ab88c3538a8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:13 +0000
Subject: [PATCH 22/76] fix: refuse to encode metadata whose checksum is not of
 the advertised length

---
 metadata/metadata.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index 6a8c0d0..d4cdbb7 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -241,6 +241,9 @@ func (m *MetaData) Make(header uint32, info interface{}) error {
 // Put -- Encode the Saratoga Metadata buffer
 func (m *MetaData) Encode() ([]byte, error) {
 
+	if len(m.Checksum) != int(sarflags.Get(m.Header, "csumlen"))*4 {
+		return nil, errors.New("length of checksum does not match csumlen in metadata")
+	}
 	// Create the frame slice
 	framelen := 4 + 4 // Header + Session
 	framelen += len(m.Checksum)
-- 
2.43.0


From a14106f33b8507f36e8914e34228094d37cc304d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:13 +0000
Subject: [PATCH 23/76] fix: refuse to encode names containing the null that
 terminates them

---
 dirent/dirent.go   | 3 +++
 request/request.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/dirent/dirent.go b/dirent/dirent.go
index adb6d2c..dc698bb 100644
--- a/dirent/dirent.go
+++ b/dirent/dirent.go
@@ -153,6 +153,9 @@ func (d *DirEnt) Encode() ([]byte, error) {
 	if len(d.Path) > 1024 {
 		return nil, errors.New("path name exceeds 1024 bytes")
 	}
+	if strings.IndexByte(d.Path, '\x00') >= 0 {
+		return nil, errors.New("null in path name")
+	}
 
 	frame := make([]byte, framelen)
 
diff --git a/request/request.go b/request/request.go
index 53f2657..313ccdc 100644
--- a/request/request.go
+++ b/request/request.go
@@ -104,6 +104,9 @@ func (r *Request) Make(header uint32, info interface{}) error {
 // Put -- Encode the Saratoga Request buffer
 func (r *Request) Encode() ([]byte, error) {
 
+	if strings.IndexByte(r.Fname, '\x00') >= 0 {
+		return nil, errors.New("null in file name of request")
+	}
 	// Create the frame slice
 	framelen := 4 + 4 + len(r.Fname) + 1 + len(r.Auth) // Header + Session + Fname + NULL + Auth
 	frame := make([]byte, framelen)                    // Allocate the frame buffer
-- 
2.43.0


From 7b9d4281d7facc520f94e877433339aed55e5489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:13 +0000
Subject: [PATCH 24/76] fix: requests lost their authentication field and could
 not be made from a header

---
 request/request.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/request/request.go b/request/request.go
index 313ccdc..52a8992 100644
--- a/request/request.go
+++ b/request/request.go
@@ -72,7 +72,7 @@ func (r *Request) New(flags string, info interface{}) error {
 	e := reflect.ValueOf(info).Elem()
 	r.Session = uint32(e.FieldByName("Session").Uint())
 	r.Fname = e.FieldByName("Fname").String()
-	copy(r.Auth, e.FieldByName("Auth").Bytes())
+	r.Auth = append([]byte(nil), e.FieldByName("Auth").Bytes()...)
 
 	return nil
 }
@@ -94,9 +94,9 @@ func (r *Request) Make(header uint32, info interface{}) error {
 	r.Header = header
 
 	e := reflect.ValueOf(info).Elem()
-	r.Session = uint32(e.Elem().FieldByName("Session").Uint())
+	r.Session = uint32(e.FieldByName("Session").Uint())
 	r.Fname = e.FieldByName("Fname").String()
-	copy(r.Auth, e.FieldByName("Auth").Bytes())
+	r.Auth = append([]byte(nil), e.FieldByName("Auth").Bytes()...)
 
 	return nil
 }
-- 
2.43.0


From a96644116449912cea1a0d9d6f2a49af59b2784a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:13 +0000
Subject: [PATCH 25/76] fix: metadata sent the change time as modification time
 and lost the name in Make

---
 metadata/metadata.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index d4cdbb7..3da21a8 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -164,7 +164,7 @@ func (m *MetaData) New(flags string, info interface{}) error {
 	m.Dir.Header = d.Header
 	m.Dir.Size = d.Size
 	m.Dir.Ctime = d.Ctime
-	m.Dir.Mtime = d.Ctime
+	m.Dir.Mtime = d.Mtime
 	m.Dir.Path = d.Path
 
 	// Checksum calculation
@@ -203,7 +203,7 @@ func (m *MetaData) Make(header uint32, info interface{}) error {
 	var fname string
 	e := reflect.ValueOf(info).Elem()
 	m.Session = uint32(e.FieldByName("Session").Uint())
-	fname = e.FieldByName("Session").String()
+	fname = e.FieldByName("Fname").String()
 	var direntflags string
 	if direntflags, err = statfile(fname, m.Header); err != nil {
 		return err
@@ -217,7 +217,7 @@ func (m *MetaData) Make(header uint32, info interface{}) error {
 	m.Dir.Header = d.Header
 	m.Dir.Size = d.Size
 	m.Dir.Ctime = d.Ctime
-	m.Dir.Mtime = d.Ctime
+	m.Dir.Mtime = d.Mtime
 	m.Dir.Path = d.Path
 
 	// Make sure we dont try and calc a checksum of a named pipe "stream" (it will wait forever)
-- 
2.43.0


From c73dd9bb101cd9b43e635e38cd4a643b2ea70b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:13 +0000
Subject: [PATCH 26/76] fix: data frames ignored the requested transfer type

---
 data/data.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/data/data.go b/data/data.go
index ec21dcd..f8a7d56 100644
--- a/data/data.go
+++ b/data/data.go
@@ -72,6 +72,9 @@ func (d *Data) New(flags string, info interface{}) error {
 			if f[1] == "bundle" {
 				return errors.New("bundle transfers not supported")
 			}
+			if d.Header, err = sarflags.Set(d.Header, f[0], f[1]); err != nil {
+				return err
+			}
 		case "reqtstamp":
 			switch f[1] {
 			case "no":
-- 
2.43.0


From 1edd051b55450bf80e6e2de57901dafdd356774a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:29 +0000
Subject: [PATCH 27/76] fix: constructors panicked on a flag without a value

---
 beacon/beacon.go     | 3 +++
 data/data.go         | 3 +++
 dirent/dirent.go     | 3 +++
 metadata/metadata.go | 3 +++
 request/request.go   | 3 +++
 status/status.go     | 3 +++
 6 files changed, 18 insertions(+)

diff --git a/beacon/beacon.go b/beacon/beacon.go
index 025c1c4..4b36466 100644
--- a/beacon/beacon.go
+++ b/beacon/beacon.go
@@ -58,6 +58,9 @@ func (b *Beacon) New(flags string, info interface{}) error {
 	flag := strings.Split(flags, ",") // The name=val of the flag
 	for fl := range flag {
 		f := strings.Split(flag[fl], "=") // f[0]=name f[1]=val
+		if len(f) != 2 {
+			return errors.New("Beacon.New: Malformed Flag " + flag[fl])
+		}
 
 		switch f[0] {
 		case "descriptor", "stream", "txwilling", "rxwilling", "udplite", "freespace":
diff --git a/data/data.go b/data/data.go
index f8a7d56..4ae7d7c 100644
--- a/data/data.go
+++ b/data/data.go
@@ -63,6 +63,9 @@ func (d *Data) New(flags string, info interface{}) error {
 	flag := strings.Split(flags, ",") // The name=val of the flag
 	for fl := range flag {
 		f := strings.Split(flag[fl], "=") // f[0]=name f[1]=val
+		if len(f) != 2 {
+			return errors.New("Data.New: Malformed Flag " + flag[fl])
+		}
 		switch f[0] {
 		case "version", "descriptor", "reqstatus", "eod":
 			if d.Header, err = sarflags.Set(d.Header, f[0], f[1]); err != nil {
diff --git a/dirent/dirent.go b/dirent/dirent.go
index dc698bb..51de2fa 100644
--- a/dirent/dirent.go
+++ b/dirent/dirent.go
@@ -87,6 +87,9 @@ func (d *DirEnt) New(flags string, path string) error {
 	flag := strings.Split(flags, ",") // The name=val of the flag
 	for fl := range flag {
 		f := strings.Split(flag[fl], "=") // f[0]=name f[1]=val
+		if len(f) != 2 {
+			return errors.New("DirEnt.New: Malformed Flag " + flag[fl])
+		}
 		switch f[0] {
 		case "descriptor", "property":
 			if d.Header, err = sarflags.SetD(d.Header, f[0], f[1]); err != nil {
diff --git a/metadata/metadata.go b/metadata/metadata.go
index 3da21a8..67caf30 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -126,6 +126,9 @@ func (m *MetaData) New(flags string, info interface{}) error {
 	flag := strings.Split(flags, ",") // The name=val of the flag
 	for fl := range flag {
 		f := strings.Split(flag[fl], "=") // f[0]=name f[1]=val
+		if len(f) != 2 {
+			return errors.New("MetaData.New: Malformed Flag " + flag[fl])
+		}
 		switch f[0] {
 		case "descriptor", "progress", "transfer", "reliability":
 			if m.Header, err = sarflags.Set(m.Header, f[0], f[1]); err != nil {
diff --git a/request/request.go b/request/request.go
index 52a8992..be6bac3 100644
--- a/request/request.go
+++ b/request/request.go
@@ -59,6 +59,9 @@ func (r *Request) New(flags string, info interface{}) error {
 	flag := strings.Split(flags, ",") // The name=val of the flag
 	for fl := range flag {
 		f := strings.Split(flag[fl], "=") // f[0]=name f[1]=val
+		if len(f) != 2 {
+			return errors.New("Request.New: Malformed Flag " + flag[fl])
+		}
 		switch f[0] {
 		case "frametype", "version", "descriptor", "stream", "txwilling",
 			"rxwilling", "fileordir", "reqtype", "udplite":
diff --git a/status/status.go b/status/status.go
index e18399c..8e9f14c 100644
--- a/status/status.go
+++ b/status/status.go
@@ -74,6 +74,9 @@ func (s *Status) New(flags string, info interface{}) error {
 	flag := strings.Split(flags, ",") // The name=val of the flag
 	for fl := range flag {
 		f := strings.Split(flag[fl], "=") // f[0]=name f[1]=val
+		if len(f) == 1 {
+			f = append(f, "") // Timestamp types are given without a value
+		}
 		switch f[0] {
 		case "descriptor", "stream", "metadatarecvd", "allholes", "reqholes", "errcode":
 			if s.Header, err = sarflags.Set(s.Header, f[0], f[1]); err != nil {
-- 
2.43.0


From 2023f7f6db8cc83fdd51b31f68fefba596ac64e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:05 +0000
Subject: [PATCH 28/76] fix: keep every file inside the saratoga directory

A request naming ../../x could examine or delete any file of the host.
---
 fileio/fileio.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/fileio/fileio.go b/fileio/fileio.go
index a81ce17..9c6a809 100644
--- a/fileio/fileio.go
+++ b/fileio/fileio.go
@@ -4,6 +4,7 @@ package fileio
 import (
 	"fmt"
 	"os"
+	"path/filepath"
 	"time"
 
 	"github.com/charlesetsmith/saratoga/sarflags"
@@ -15,10 +16,16 @@ func Sardir() string {
 	return sarflags.Cliflag.Sardir
 }
 
+// sarpath - Path of a file in the Saratoga directory
+// Cleaning it as a rooted path stops ".." in fname from getting out of the directory
+func sarpath(fname string) string {
+	return filepath.Join(Sardir(), filepath.Clean("/"+fname))
+}
+
 // Check to see if a file or directory exists on our local system
 // no named pipes or symbolic links supported at this time
 func FileExists(fname string) bool {
-	fullname := Sardir() + "/" + fname
+	fullname := sarpath(fname)
 	fileinfo, err := os.Stat(fullname)
 	if err == nil && (fileinfo.Mode().IsDir() || fileinfo.Mode().IsRegular()) {
 		return true
@@ -30,7 +37,7 @@ func FileExists(fname string) bool {
 func FileOpen(fname string, ttype string) (*os.File, error) {
 	var err error
 	var fp *os.File
-	fullname := Sardir() + "/" + fname
+	fullname := sarpath(fname)
 	switch ttype {
 	case "get", "take": // We are getting a remote file
 		// Open up to write to a local file
@@ -138,7 +145,7 @@ func FileClose(fp *os.File) error {
 
 // Just Zap the file
 func FileRm(fname string) error {
-	fullname := Sardir() + "/" + fname
+	fullname := sarpath(fname)
 	return os.Remove(fullname)
 }
 
@@ -176,7 +183,7 @@ func FileMeta(filePath string) (*FileMetaData, error) {
 
 	var err error
 	var info os.FileInfo
-	fullname := Sardir() + "/" + filePath
+	fullname := sarpath(filePath)
 	if info, err = os.Lstat(fullname); os.IsNotExist(err) {
 		return nil, err
 	}
-- 
2.43.0


From c550547fca7a15f13ffa3b7ee12f9ed344104a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:07 +0000
Subject: [PATCH 29/76] fix: never overwrite an existing file when receiving,
 and find the file when sending

The existence checks prefixed the directory twice, so they never saw the
file: receiving truncated existing files and sending always failed.
---
 fileio/fileio.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fileio/fileio.go b/fileio/fileio.go
index 9c6a809..c88a4cf 100644
--- a/fileio/fileio.go
+++ b/fileio/fileio.go
@@ -42,16 +42,16 @@ func FileOpen(fname string, ttype string) (*os.File, error) {
 	case "get", "take": // We are getting a remote file
 		// Open up to write to a local file
 		// Dont stomp on any existing file
-		if FileExists(fullname) {
+		if FileExists(fname) {
 			return nil, fmt.Errorf("file already exists:  %s", fullname)
 		}
 		// Create the file
-		if fp, err = os.Create(fullname); err == nil {
+		if fp, err = os.OpenFile(fullname, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0666); err == nil {
 			return fp, nil
 		}
 		return nil, err
 	case "getdir": // We are getting all the files from a remote directory
-		if FileExists(fullname) {
+		if FileExists(fname) {
 			return nil, fmt.Errorf("directory already exists: %s", fullname)
 		}
 		// Create the Directory
@@ -66,7 +66,7 @@ func FileOpen(fname string, ttype string) (*os.File, error) {
 		return nil, err
 	case "put", "give": // We are putting a local file to a remote system
 		// Open up to read from the local file
-		if !FileExists(fullname) {
+		if !FileExists(fname) {
 			return nil, fmt.Errorf("file does not exist: %s", fullname)
 		}
 		if fp, err = os.Open(fullname); err == nil {
-- 
2.43.0


From 303ccf30551cda508fe8fea69c085393e5c774ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:09 +0000
Subject: [PATCH 30/76] fix: delete the open file, not a file of that path
 below the saratoga directory

---
 fileio/fileio.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fileio/fileio.go b/fileio/fileio.go
index c88a4cf..3221989 100644
--- a/fileio/fileio.go
+++ b/fileio/fileio.go
@@ -153,9 +153,9 @@ func FileRm(fname string) error {
 func FileDelete(fp *os.File) error {
 
 	if fp != nil {
-		fname := fp.Name()
+		fname := fp.Name() // This is already the full path we opened
 		FileClose(fp)
-		return FileRm(fname)
+		return os.Remove(fname)
 	}
 	return fmt.Errorf("no existing open file to delete")
 }
-- 
2.43.0


From fdbd5e5f74f68befe58f15765370b785c59378ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:11 +0000
Subject: [PATCH 31/76] fix: report a seek that ended at another position

---
 fileio/fileio.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fileio/fileio.go b/fileio/fileio.go
index 3221989..fe840bb 100644
--- a/fileio/fileio.go
+++ b/fileio/fileio.go
@@ -95,9 +95,12 @@ func FileSeek(fp *os.File, pos uint64) error {
 		return fmt.Errorf("fileWrite: pos (%d) is > MaxUint64 (%d)", pos, sarflags.MaxInt64)
 	}
 	// Bad Seek
-	if npos, err = fp.Seek(ipos, origin); err != nil || npos != ipos {
+	if npos, err = fp.Seek(ipos, origin); err != nil {
 		return err
 	}
+	if npos != ipos {
+		return fmt.Errorf("fileSeek: at %d, should be %d", npos, ipos)
+	}
 	return nil
 }
 
-- 
2.43.0


From 7215aab7345e538a844f8667d56fdc8026cfe60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:13 +0000
Subject: [PATCH 32/76] fix: file metadata panicked on unreadable files and
 dangling links

---
 fileio/fileio.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fileio/fileio.go b/fileio/fileio.go
index fe840bb..e3c93f7 100644
--- a/fileio/fileio.go
+++ b/fileio/fileio.go
@@ -187,20 +187,20 @@ func FileMeta(filePath string) (*FileMetaData, error) {
 	var err error
 	var info os.FileInfo
 	fullname := sarpath(filePath)
-	if info, err = os.Lstat(fullname); os.IsNotExist(err) {
+	if info, err = os.Lstat(fullname); err != nil {
 		return nil, err
 	}
 	// Symbolic Links and Named Pipes are treated as "special files"
 	if info.Mode()&os.ModeSymlink == os.ModeSymlink {
 		fs.IsSymLink = true
-		fs.Origin, _ = os.Readlink(fs.Path)
 		var patherr error
 		if fs.Origin, patherr = os.Readlink(fullname); patherr != nil {
 			return nil, patherr
 		}
-		origstat, _ := os.Lstat(fs.Origin)
 		// Yes we can be a symbolic link to a directory so both are true
-		fs.IsDir = origstat.IsDir()
+		if origstat, staterr := os.Stat(fullname); staterr == nil {
+			fs.IsDir = origstat.IsDir()
+		}
 	} else {
 		fs.IsDir = info.IsDir()
 	}
-- 
2.43.0


From b015e7cdca2eedf166b3e2b5543ded9402dd0c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:33 +0000
Subject: [PATCH 33/76] fix: take the file type and size in metadata from the
 file in the saratoga directory

The directory entry and checksum describe the file there, the type and
descriptor came from a file of that name in the current directory.
---
 metadata/metadata.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index 67caf30..a46eb86 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -50,10 +50,11 @@ func statfile(fname string, header uint32) (string, error) {
 	var direntflags string
 	var err error
 
-	fi, err := os.Lstat(fname)
+	fm, err := fileio.FileMeta(fname)
 	if err != nil {
 		return "", err
 	}
+	fi := fm.Info
 	switch mode := fi.Mode(); {
 	case mode.IsRegular():
 		file = true
-- 
2.43.0


From 2586dc27bf57342e05836819c699280e49e40ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:33 +0000
Subject: [PATCH 34/76] fix: look up the type of a received request by the name
 of its flag

---
 trans/trans.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trans/trans.go b/trans/trans.go
index ebb2117..9a46c19 100644
--- a/trans/trans.go
+++ b/trans/trans.go
@@ -48,7 +48,7 @@ var Transfers = []Transfer{}
 // Create the transfer associated with the received request
 // Send status frame back via the tx channel upon failure or success
 func AddRxTran(g *gocui.Gui, r *request.Request, from *net.UDPAddr, tx chan interface{}) bool {
-	ttype := sarflags.GetStr(r.Header, "request")
+	ttype := sarflags.GetStr(r.Header, "reqtype")
 
 	// If a bad version received then send back a Status errcode to the initiator
 	var st status.Status
-- 
2.43.0


From 9c657105549537b0dfc9425fe30fa117c3c2597e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:33 +0000
Subject: [PATCH 35/76] fix: timestamp type of received requests was misspelt

---
 trans/trans.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trans/trans.go b/trans/trans.go
index 9a46c19..5ac2640 100644
--- a/trans/trans.go
+++ b/trans/trans.go
@@ -203,7 +203,7 @@ func AddRxTran(g *gocui.Gui, r *request.Request, from *net.UDPAddr, tx chan inte
 		tx <- st.Val(from)
 		return false
 	}
-	timetype := "epoch_2000_32"
+	timetype := "epoch2000_32"
 	ts := new(timestamp.Timestamp)
 	ts.Now(timetype)
 	dent := new(dirent.DirEnt)
-- 
2.43.0


From c329453a0a72bec181ef44d8195d65f6c2b67c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:33 +0000
Subject: [PATCH 36/76] fix: answer a request with a status for its session

---
 trans/trans.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trans/trans.go b/trans/trans.go
index 5ac2640..3c253df 100644
--- a/trans/trans.go
+++ b/trans/trans.go
@@ -52,7 +52,7 @@ func AddRxTran(g *gocui.Gui, r *request.Request, from *net.UDPAddr, tx chan inte
 
 	// If a bad version received then send back a Status errcode to the initiator
 	var st status.Status
-	sinfo := status.Sinfo{Session: 0, Progress: 0, Inrespto: 0, Holes: nil}
+	sinfo := status.Sinfo{Session: r.Session, Progress: 0, Inrespto: 0, Holes: nil}
 
 	if sarflags.GetStr(r.Header, "version") != "v1" {
 		if st.New("errcode=badrequest", &sinfo) != nil {
-- 
2.43.0


From 4d9fffb1f48eb7b63ab645522a9cedcff3f19805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:07 +0000
Subject: [PATCH 37/76] fix: the dispatcher waited for itself when answering a
 request

AddRxTran sends the status of a request on the unbuffered tx channel that
only the select loop calling it receives from, so the first request blocked
the node for ever.
---
 saratoga/saratoga.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/saratoga/saratoga.go b/saratoga/saratoga.go
index 28ec1ed..21c4dee 100644
--- a/saratoga/saratoga.go
+++ b/saratoga/saratoga.go
@@ -627,9 +627,12 @@ func main() {
 				pkt := rxv4.(request.Packet)
 				sarwin.PacketPrintln(g, "white_black", "Rx", pkt.Info.ShortPrint())
 				// We have received a request to send or receive a file or dir
-				if trans.AddRxTran(g, &pkt.Info, &pkt.Addr, txv4frame) {
-					sarwin.MsgPrintln(g, "yellow_black", "New transfer request from ", pkt.Addr.String())
-				}
+				// The status goes out on txv4frame, which only this loop reads, so do not wait for it here
+				go func() {
+					if trans.AddRxTran(g, &pkt.Info, &pkt.Addr, txv4frame) {
+						sarwin.MsgPrintln(g, "yellow_black", "New transfer request from ", pkt.Addr.String())
+					}
+				}()
 			case status.Packet:
 				sarwin.MsgPrintln(g, "white_black", "Received v4 Saratoga STATUS Frame")
 				pkt := rxv4.(status.Packet)
@@ -659,9 +662,12 @@ func main() {
 				sarwin.MsgPrintln(g, "white_black", "Received v6 Saratoga REQUEST Frame")
 				pkt := rxv6.(request.Packet)
 				sarwin.PacketPrintln(g, "white_black", "Rx", pkt.Info.ShortPrint())
-				if trans.AddRxTran(g, &pkt.Info, &pkt.Addr, txv6frame) {
-					sarwin.MsgPrintln(g, "yellow_black", "New transfer request from ", pkt.Addr.String())
-				}
+				// The status goes out on txv6frame, which only this loop reads, so do not wait for it here
+				go func() {
+					if trans.AddRxTran(g, &pkt.Info, &pkt.Addr, txv6frame) {
+						sarwin.MsgPrintln(g, "yellow_black", "New transfer request from ", pkt.Addr.String())
+					}
+				}()
 			case status.Packet:
 				sarwin.MsgPrintln(g, "white_black", "Received v6 Saratoga STATUS Frame")
 				pkt := rxv6.(status.Packet)
-- 
2.43.0


From d98891b75901ffb78fa0c4ee4c89c66d06c33acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:51 +0000
Subject: [PATCH 38/76] fix: search the peer table under its lock

The v4 and v6 beacons of a peer, or the peers command, could see the table
while it was being changed, and a peer could be added twice.
---
 beacon/beacon.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/beacon/beacon.go b/beacon/beacon.go
index 4b36466..ddaca96 100644
--- a/beacon/beacon.go
+++ b/beacon/beacon.go
@@ -366,11 +366,11 @@ func NewPeer(b *Beacon, from *net.UDPAddr) bool {
 	if from == nil {
 		return false
 	}
+	pmu.Lock()
+	defer pmu.Unlock()
 	// Scan through existing Peers and change if the peer exists
 	for p := range Peers {
 		if Peers[p].Addr == from.IP.String() { // Source Ip Address matches existing Peer
-			pmu.Lock()
-			defer pmu.Unlock()
 			// Has anything changed since the last beacon for this peer ?
 			if Peers[p].Freespace != b.Freespace ||
 				Peers[p].Eid != b.Eid ||
@@ -399,8 +399,6 @@ func NewPeer(b *Beacon, from *net.UDPAddr) bool {
 	newp.Cantx = sarflags.GetStr(b.Header, "txwilling")
 	newp.Created.Now("posix32_32")
 	newp.Updated = newp.Created
-	pmu.Lock()
-	defer pmu.Unlock()
 	Peers = append(Peers, *newp)
 	return true
 }
-- 
2.43.0


From 7f580a4cd61722d30142413f3fa8d622beb6c440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:51 +0000
Subject: [PATCH 39/76] fix: the peers command read the peer table without its
 lock

---
 beacon/beacon.go |  7 +++++++
 sarwin/sarwin.go | 47 ++++++++++++++++++++++++-----------------------
 2 files changed, 31 insertions(+), 23 deletions(-)

diff --git a/beacon/beacon.go b/beacon/beacon.go
index ddaca96..d21e566 100644
--- a/beacon/beacon.go
+++ b/beacon/beacon.go
@@ -402,3 +402,10 @@ func NewPeer(b *Beacon, from *net.UDPAddr) bool {
 	Peers = append(Peers, *newp)
 	return true
 }
+
+// PeerList - A copy of the current Peers
+func PeerList() []Peer {
+	pmu.Lock()
+	defer pmu.Unlock()
+	return append([]Peer(nil), Peers...)
+}
diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 8589490..6529732 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1805,31 +1805,32 @@ func cmdLs(g *gocui.Gui, args []string) {
 func cmdPeers(g *gocui.Gui, args []string) {
 	switch len(args) {
 	case 1:
-		if len(beacon.Peers) == 0 {
+		peers := beacon.PeerList()
+		if len(peers) == 0 {
 			MsgPrintln(g, "green_black", "No Peers")
 			return
 		}
 		// Table format
 		// Work out the max length of each field
 		var addrlen, eidlen, dcrelen, dmodlen, cantxlen, canrxlen int
-		for p := range beacon.Peers {
-			if len(beacon.Peers[p].Addr) > addrlen {
-				addrlen = len(beacon.Peers[p].Addr)
+		for p := range peers {
+			if len(peers[p].Addr) > addrlen {
+				addrlen = len(peers[p].Addr)
 			}
-			if len(beacon.Peers[p].Eid) > eidlen {
-				eidlen = len(beacon.Peers[p].Eid)
+			if len(peers[p].Eid) > eidlen {
+				eidlen = len(peers[p].Eid)
 			}
-			if len(beacon.Peers[p].Canrx) > canrxlen {
-				canrxlen = len(beacon.Peers[p].Canrx)
+			if len(peers[p].Canrx) > canrxlen {
+				canrxlen = len(peers[p].Canrx)
 			}
-			if len(beacon.Peers[p].Cantx) > cantxlen {
-				cantxlen = len(beacon.Peers[p].Cantx)
+			if len(peers[p].Cantx) > cantxlen {
+				cantxlen = len(peers[p].Cantx)
 			}
-			if len(beacon.Peers[p].Created.Print()) > dcrelen {
-				dcrelen = len(beacon.Peers[p].Created.Print())
+			if len(peers[p].Created.Print()) > dcrelen {
+				dcrelen = len(peers[p].Created.Print())
 			}
-			if len(beacon.Peers[p].Created.Print()) > dmodlen {
-				dmodlen = len(beacon.Peers[p].Updated.Print())
+			if len(peers[p].Updated.Print()) > dmodlen {
+				dmodlen = len(peers[p].Updated.Print())
 			}
 		}
 		if eidlen < 3 {
@@ -1851,15 +1852,15 @@ func cmdPeers(g *gocui.Gui, args []string) {
 		sfmt := fmt.Sprintf("|%%%ds|%%6s|%%%ds|%%3s|%%%ds|%%%ds|%%%ds|%%%ds|\n",
 			addrlen, eidlen, canrxlen, cantxlen, dcrelen, dmodlen)
 		var sslice sort.StringSlice
-		for key := range beacon.Peers {
-			pinfo := fmt.Sprintf(sfmt, beacon.Peers[key].Addr,
-				strconv.Itoa(int(beacon.Peers[key].Freespace/1024/1024)),
-				beacon.Peers[key].Eid,
-				beacon.Peers[key].Maxdesc,
-				beacon.Peers[key].Canrx,
-				beacon.Peers[key].Cantx,
-				beacon.Peers[key].Created.Print(),
-				beacon.Peers[key].Updated.Print())
+		for key := range peers {
+			pinfo := fmt.Sprintf(sfmt, peers[key].Addr,
+				strconv.Itoa(int(peers[key].Freespace/1024/1024)),
+				peers[key].Eid,
+				peers[key].Maxdesc,
+				peers[key].Canrx,
+				peers[key].Cantx,
+				peers[key].Created.Print(),
+				peers[key].Updated.Print())
 			sslice = append(sslice, pinfo)
 		}
 		sort.Sort(sslice)
-- 
2.43.0


From 4ab14a2333599cba7e55ae37e6cc13df7c3a5861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:51 +0000
Subject: [PATCH 40/76] fix: open the local file of a blind put

---
 fileio/fileio.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fileio/fileio.go b/fileio/fileio.go
index e3c93f7..0e4b440 100644
--- a/fileio/fileio.go
+++ b/fileio/fileio.go
@@ -64,7 +64,7 @@ func FileOpen(fname string, ttype string) (*os.File, error) {
 			}
 		}
 		return nil, err
-	case "put", "give": // We are putting a local file to a remote system
+	case "put", "putblind", "give": // We are putting a local file to a remote system
 		// Open up to read from the local file
 		if !FileExists(fname) {
 			return nil, fmt.Errorf("file does not exist: %s", fullname)
-- 
2.43.0


From a8e52a63c020b945ae144267f4d7e017fce83128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:51 +0000
Subject: [PATCH 41/76] fix: find and remove the right transfer, under the lock
 of the table

Remove deleted the last transfer whatever transfer it was called for, Lookup
returned a pointer to a copy so that changes to it were lost, and the table
was searched without its lock.
---
 sarwin/sarwin.go | 77 +++++++++++++++++++++++++++++-------------------
 1 file changed, 47 insertions(+), 30 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 6529732..4dc02b2 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -892,26 +892,51 @@ type Transfer struct {
 
 // Transfers - protected transfers in progress
 var Trmu sync.Mutex
-var Transfers = []Transfer{}
+var Transfers = []*Transfer{}
 
-// Lookup - Return a pointer to the transfer if we find it in Transfers, nil otherwise
-func Lookup(direction bool, session uint32, peer string) *Transfer {
-	for _, t := range Transfers {
+// find - Return the index of the transfer in Transfers, -1 if it is not there
+// Trmu must be held by the caller
+func find(direction bool, session uint32, peer string) int {
+	for i, t := range Transfers {
 		// Check if direction (Initiator or Responder), session # and IP address match in our current
-		// list of transfers (if so then return a pointer to it)
+		// list of transfers
 
 		if direction == t.Direction && session == t.Session && t.Peer.String() == peer {
-			return &t
+			return i
 		}
 	}
+	return -1
+}
+
+// remove - Remove a Transfer from the Transfers
+// Trmu must be held by the caller
+func (t *Transfer) remove() error {
+	if i := find(t.Direction, t.Session, t.Peer.String()); i >= 0 {
+		Transfers = append(Transfers[:i], Transfers[i+1:]...)
+		return nil
+	}
+	emsg := fmt.Sprintf("Cannot remove %s Transfer for session %d to %s",
+		Directions[t.Direction], t.Session, t.Peer.String())
+	return errors.New(emsg)
+}
+
+// Lookup - Return a pointer to the transfer if we find it in Transfers, nil otherwise
+func Lookup(direction bool, session uint32, peer string) *Transfer {
+	Trmu.Lock()
+	defer Trmu.Unlock()
+	if i := find(direction, session, peer); i >= 0 {
+		return Transfers[i]
+	}
 	return nil
 }
 
 // Lookup a host & session and return transfer pointer or nil if it does not exist
 func Match(addr string, session uint32) *Transfer {
+	Trmu.Lock()
+	defer Trmu.Unlock()
 	for i := len(Transfers) - 1; i >= 0; i-- {
-		if addr == Transfers[i].Conn.RemoteAddr().String() && session == Transfers[i].Session {
-			return &Transfers[i]
+		if addr == Transfers[i].Peer.String() && session == Transfers[i].Session {
+			return Transfers[i]
 		}
 	}
 	return nil
@@ -920,13 +945,16 @@ func Match(addr string, session uint32) *Transfer {
 // CNew - Add a new transfer to the Transfers list
 func NewInitiator(g *gocui.Gui, ttype string, peer *net.UDPAddr, fname string, c *sarflags.Cliflags) (*Transfer, error) {
 	// screen.Fprintln(g,  "red_black", "Addtran for ", ip.String(), " ", fname, " ", flags)
+	// Lock it as we are going to add a new transfer slice
+	Trmu.Lock()
+	defer Trmu.Unlock()
 	for _, i := range Transfers { // Don't add duplicates (ie dont try act on same fname)
 		// Make sure we have connections to all the current Transfers
 		if i.Conn == nil {
 			emsg := "No connection exists to peer: " + peer.String()
 			ErrPrintln(g, "red_black", emsg)
 			// Remove the transfer as we have no connection to a peer
-			if err := i.Remove(); err != nil {
+			if err := i.remove(); err != nil {
 				ErrPrintln(g, "red_black", "Can't remove transfer of", i.Session)
 			}
 			return nil, errors.New(emsg)
@@ -948,10 +976,6 @@ func NewInitiator(g *gocui.Gui, ttype string, peer *net.UDPAddr, fname string, c
 	}
 
 	// OK lets create the transfer
-
-	// Lock it as we are going to add a new transfer slice
-	Trmu.Lock()
-	defer Trmu.Unlock()
 	t := new(Transfer)
 	t.Direction = Initiator
 	t.Ttype = ttype
@@ -980,7 +1004,7 @@ func NewInitiator(g *gocui.Gui, ttype string, peer *net.UDPAddr, fname string, c
 	}
 	msg := fmt.Sprintf("Initiator Added %s Transfer to %s %s",
 		t.Ttype, t.Peer.String(), t.Filename)
-	Transfers = append(Transfers, *t)
+	Transfers = append(Transfers, t)
 	MsgPrintln(g, "green_black", msg)
 	return t, nil
 }
@@ -990,7 +1014,10 @@ func NewInitiator(g *gocui.Gui, ttype string, peer *net.UDPAddr, fname string, c
 func NewResponder(g *gocui.Gui, r request.Request, peer string) error {
 
 	var err error
-	if Lookup(Responder, r.Session, peer) != nil {
+	// Lock it as we are going to add a new transfer
+	Trmu.Lock()
+	defer Trmu.Unlock()
+	if find(Responder, r.Session, peer) >= 0 {
 		emsg := fmt.Sprintf("Transfer %s for session %d to %s is currently in progress, cannnot duplicate transfer",
 			Directions[Responder], r.Session, peer)
 		ErrPrintln(g, "red_black", emsg)
@@ -1009,13 +1036,10 @@ func NewResponder(g *gocui.Gui, r request.Request, peer string) error {
 	}
 
 	// Create the transfer record
-	Trmu.Lock()
-	defer Trmu.Unlock()
 	t := new(Transfer)
 
 	t.Conn = tc
 	t.Peer = udpaddr
-	// Lock it as we are going to add a new transfer
 	t.Direction = Responder // We are the Responder
 	t.Session = r.Session
 	// The Header flags set for the transfer
@@ -1080,7 +1104,7 @@ func NewResponder(g *gocui.Gui, r request.Request, peer string) error {
 
 	msg := fmt.Sprintf("Added %s Transfer to %s session %d",
 		Directions[t.Direction], peer, r.Session)
-	Transfers = append(Transfers, *t)
+	Transfers = append(Transfers, t)
 	MsgPrintln(g, "green_black", msg)
 	return nil
 }
@@ -1089,11 +1113,13 @@ func NewResponder(g *gocui.Gui, r request.Request, peer string) error {
 func Info(g *gocui.Gui, ttype string) {
 	var tinfo []Transfer
 
+	Trmu.Lock()
 	for i := range Transfers {
 		if ttype == "" || Transfers[i].Ttype == ttype {
-			tinfo = append(tinfo, Transfers[i])
+			tinfo = append(tinfo, *Transfers[i])
 		}
 	}
+	Trmu.Unlock()
 	if len(tinfo) > 0 {
 		var maxaddrlen, maxfname int // Work out the width for the table
 		for key := range tinfo {
@@ -1216,16 +1242,7 @@ func (t *Transfer) Change(g *gocui.Gui, m metadata.MetaData) error {
 func (t *Transfer) Remove() error {
 	Trmu.Lock()
 	defer Trmu.Unlock()
-
-	for i := len(Transfers) - 1; i >= 0; i-- {
-		if Lookup(t.Direction, t.Session, t.Peer.String()) != nil {
-			Transfers = append(Transfers[:i], Transfers[i+1:]...)
-			return nil
-		}
-	}
-	emsg := fmt.Sprintf("Cannot remove %s Transfer for session %d to %s",
-		Directions[t.Direction], t.Session, t.Peer.String())
-	return errors.New(emsg)
+	return t.remove()
 }
 
 // FmtPrint - String of relevant transfer info
-- 
2.43.0


From 609cd1c84bc38b865aa957e78d2c20dee824d692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:51 +0000
Subject: [PATCH 42/76] fix: do not register a transfer whose file or
 connection cannot be opened

---
 sarwin/sarwin.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 4dc02b2..7f2cda4 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -987,12 +987,15 @@ func NewInitiator(g *gocui.Gui, ttype string, peer *net.UDPAddr, fname string, c
 	// Dial the peer to create the connection
 	if t.Conn, err = net.DialUDP("udp", nil, peer); err != nil {
 		ErrPrintln(g, "red_black", "Cannot dial peer "+peer.String()+" "+err.Error())
+		return nil, err
 	}
 
 	// Open up the local for i/o
 	t.Filename = fname
 	if t.Fp, err = fileio.FileOpen(t.Filename, t.Ttype); err != nil {
 		ErrPrintln(g, "red_black", err)
+		t.Conn.Close()
+		return nil, err
 	}
 	if t.Filemeta, err = fileio.FileMeta(fname); err != nil {
 		ErrPrintln(g, "red_black", err)
@@ -1000,7 +1003,12 @@ func NewInitiator(g *gocui.Gui, ttype string, peer *net.UDPAddr, fname string, c
 
 	// Copy the FLAGS to t.cliflags
 	if t.Cliflags, err = c.CopyCliflags(); err != nil {
-		panic(err)
+		ErrPrintln(g, "red_black", err)
+		t.Conn.Close()
+		if t.Fp != nil {
+			t.Fp.Close()
+		}
+		return nil, err
 	}
 	msg := fmt.Sprintf("Initiator Added %s Transfer to %s %s",
 		t.Ttype, t.Peer.String(), t.Filename)
-- 
2.43.0


From b6f102b4c332bc6b803f994914574da170960b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:51 +0000
Subject: [PATCH 43/76] fix: transfers copied the operator settings without
 their lock

---
 sarwin/sarwin.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 7f2cda4..14a566a 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -979,7 +979,6 @@ func NewInitiator(g *gocui.Gui, ttype string, peer *net.UDPAddr, fname string, c
 	t := new(Transfer)
 	t.Direction = Initiator
 	t.Ttype = ttype
-	t.Tstamptype = c.Timestamp
 	t.Session = newsession()
 	t.Peer = peer
 
@@ -1002,7 +1001,10 @@ func NewInitiator(g *gocui.Gui, ttype string, peer *net.UDPAddr, fname string, c
 	}
 
 	// Copy the FLAGS to t.cliflags
-	if t.Cliflags, err = c.CopyCliflags(); err != nil {
+	sarflags.Climu.Lock()
+	t.Cliflags, err = c.CopyCliflags()
+	sarflags.Climu.Unlock()
+	if err != nil {
 		ErrPrintln(g, "red_black", err)
 		t.Conn.Close()
 		if t.Fp != nil {
@@ -1010,6 +1012,7 @@ func NewInitiator(g *gocui.Gui, ttype string, peer *net.UDPAddr, fname string, c
 		}
 		return nil, err
 	}
+	t.Tstamptype = t.Cliflags.Timestamp
 	msg := fmt.Sprintf("Initiator Added %s Transfer to %s %s",
 		t.Ttype, t.Peer.String(), t.Filename)
 	Transfers = append(Transfers, t)
@@ -1104,7 +1107,10 @@ func NewResponder(g *gocui.Gui, r request.Request, peer string) error {
 		return err
 	}
 	t.Curfills = nil
-	if t.Cliflags, err = sarflags.Cliflag.CopyCliflags(); err != nil {
+	sarflags.Climu.Lock()
+	t.Cliflags, err = sarflags.Cliflag.CopyCliflags()
+	sarflags.Climu.Unlock()
+	if err != nil {
 		t.Conn.Close()
 		return errors.New("cannot copy CLI flags for transfer")
 	}
-- 
2.43.0


From ab5b816aa6721800e55365e9c216d0d9723fdff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:51 +0000
Subject: [PATCH 44/76] fix: sending beacons kept the operator settings locked
 until the last one was sent

---
 sarwin/sarwin.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 14a566a..726b363 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1352,7 +1352,7 @@ func cmdBeacon(g *gocui.Gui, args []string) {
 			clibeacon.v4mcast = true
 			// Start up the beacon client sending count IPv4 beacons
 			if addr, err := sarnet.UDPAddress(sarflags.Cliflag.V4Multicast); err == nil {
-				sendbeacons(g, clibeacon, addr)
+				go sendbeacons(g, clibeacon, addr)
 			}
 			return
 		case "v6": // beacon v6
@@ -1362,7 +1362,7 @@ func cmdBeacon(g *gocui.Gui, args []string) {
 			clibeacon.v6mcast = true
 			if addr, err := sarnet.UDPAddress(sarflags.Cliflag.V6Multicast); err == nil {
 				// Start up the beacon client sending count IPv6 beacons
-				sendbeacons(g, clibeacon, addr)
+				go sendbeacons(g, clibeacon, addr)
 			}
 			return
 		default: // beacon <count> or beacon <ipaddr>
@@ -1370,7 +1370,7 @@ func cmdBeacon(g *gocui.Gui, args []string) {
 			if addr, err := sarnet.UDPAddress(args[1]); err == nil {
 				MsgPrintln(g, "green_black", "Sending ", clibeacon.count,
 					" beacons to ", addr.String())
-				sendbeacons(g, clibeacon, addr)
+				go sendbeacons(g, clibeacon, addr)
 				return
 			}
 			ErrPrintln(g, "red_black", "Invalid IP Address:", args[1])
@@ -1388,7 +1388,7 @@ func cmdBeacon(g *gocui.Gui, args []string) {
 		// Otherwise we have more args than 1 so send the beacon from the first arg
 		if addr, err := sarnet.UDPAddress(args[i]); err == nil {
 			MsgPrintln(g, "green_black", "Sending ", clibeacon.count, " beacons to ", addr.String())
-			sendbeacons(g, clibeacon, addr)
+			go sendbeacons(g, clibeacon, addr)
 			continue
 		}
 		ErrPrintln(g, "red_black", "Invalid IP Address:", args[i])
-- 
2.43.0


From ab4c5b2ee5607f2b2c7f3c4054371e3070753f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:51 +0000
Subject: [PATCH 45/76] fix: the ls command refused every use that its usage
 documents

---
 sarwin/sarwin.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 726b363..a289af8 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1819,12 +1819,11 @@ func cmdHome(g *gocui.Gui, args []string) {
 }
 
 func cmdLs(g *gocui.Gui, args []string) {
-	if len(args) != 0 {
-		ErrPrintln(g, "red_bblack", prusage("ls"))
+	if len(args) > 3 {
+		ErrPrintln(g, "red_black", prusage("ls"))
 		return
 	}
-	switch args[1] {
-	case "?":
+	if len(args) == 2 && args[1] == "?" {
 		MsgPrintln(g, "magenta_black", prhelp("ls"))
 		MsgPrintln(g, "green_black", prusage("ls"))
 		return
-- 
2.43.0


From 08193307a3c1b15b398a8808a712e87de2659db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:51 +0000
Subject: [PATCH 46/76] fix: a blank line or a line without prompt crashed the
 command line

---
 sarwin/sarwin.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index a289af8..0a5641d 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -585,7 +585,7 @@ func GetLine(g *gocui.Gui, v *gocui.View) error {
 		line, _ := v.Line(cy)
 
 		command := strings.SplitN(line, ":", 2)
-		if command[1] == "" { // We have just hit enter - do nothing
+		if len(command) < 2 || command[1] == "" { // We have just hit enter - do nothing
 			return nil
 		}
 		// Save the command into history
@@ -2536,6 +2536,9 @@ func Run(g *gocui.Gui, name string) bool {
 	// Get rid of leading and trailing whitespace
 	s := strings.TrimSpace(name)
 	vals := strings.Fields(s)
+	if len(vals) == 0 { // Nothing but whitespace
+		return true
+	}
 	// Lookup the cmd and index func to run via cmdhandler map
 	for key := range sarflags.Commands {
 		if key == vals[0] {
-- 
2.43.0


From 2ff7c8ff94a6075d36ee9ae077a1c5bf5825c0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:51 +0000
Subject: [PATCH 47/76] fix: txwilling on and off stored options the flag does
 not have

---
 sarwin/sarwin.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 0a5641d..2328240 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -2451,10 +2451,10 @@ func cmdTxwilling(g *gocui.Gui, args []string) {
 			MsgPrintln(g, "green_black", prusage("txwilling"))
 			return
 		case "on":
-			sarflags.Cliflag.Global["txwilling"] = "on"
+			sarflags.Cliflag.Global["txwilling"] = "yes"
 			return
 		case "off":
-			sarflags.Cliflag.Global["txwilling"] = "off"
+			sarflags.Cliflag.Global["txwilling"] = "no"
 			return
 		case "capable":
 			sarflags.Cliflag.Global["txwilling"] = "capable"
-- 
2.43.0


From fa0a3cc5b52f9f1d314e2e0970f089d5f4c0fe58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:51 +0000
Subject: [PATCH 48/76] fix: showing the metadata timeout looked at the request
 timeout

---
 sarwin/sarwin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 2328240..ddf0125 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -2242,7 +2242,7 @@ func cmdTimeout(g *gocui.Gui, args []string) {
 				MsgPrintln(g, "green_black", "request:", sarflags.Cliflag.Timeout.Request, " sec")
 			}
 		case "metadata":
-			if sarflags.Cliflag.Timeout.Request == 0 {
+			if sarflags.Cliflag.Timeout.Metadata == 0 {
 				MsgPrintln(g, "green_black", "metadata:No Timeout")
 			} else {
 				MsgPrintln(g, "green_black", "metadata:", sarflags.Cliflag.Timeout.Metadata, " sec")
-- 
2.43.0


From 54ec431e5a1f082ffe1ffda8f1ba5b68867ee3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:51 +0000
Subject: [PATCH 49/76] fix: list transfers and show usage by the names the
 commands have

---
 sarwin/sarwin.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index ddf0125..a51816f 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -847,7 +847,7 @@ func stpaylen(flags string) int {
 }
 
 // Ttypes - Transfer types
-var Ttypes = []string{"get", "getrm", "getdir", "put", "putblind", "putrm", "rm", "rmdir"}
+var Ttypes = []string{"get", "take", "getdir", "put", "putblind", "give", "delete"}
 
 // Transfer direction we are an initiator of a transfer or a respondant to a request for a transfer
 const Initiator bool = true
@@ -1660,7 +1660,7 @@ func cmdGetdir(g *gocui.Gui, args []string) {
 func cmdTake(g *gocui.Gui, args []string) {
 	switch len(args) {
 	case 1:
-		Info(g, "getrm")
+		Info(g, "take")
 		return
 	case 2:
 		if args[1] == "?" {
@@ -1947,8 +1947,8 @@ func cmdPut(g *gocui.Gui, args []string) {
 				close(errflag)
 				return
 			}
-			MsgPrintln(g, "magenta_black", prhelp("getrm"))
-			ErrPrintln(g, "green_black", prusage("getrm"))
+			MsgPrintln(g, "magenta_black", prhelp("put"))
+			ErrPrintln(g, "green_black", prusage("put"))
 			return
 		}
 		ErrPrintln(g, "green_black", "Invalid IP Address:", args[1])
@@ -2003,7 +2003,7 @@ func cmdGive(g *gocui.Gui, args []string) {
 
 	switch len(args) {
 	case 1:
-		Info(g, "putrm")
+		Info(g, "give")
 		return
 	case 2:
 		if args[1] == "?" {
@@ -2032,9 +2032,8 @@ func cmdGive(g *gocui.Gui, args []string) {
 			}
 			ErrPrintln(g, "green_black", "Invalid IP Address:", args[1])
 		}
-		ErrPrintln(g, "red_black", prusage("putblind"))
 	}
-	ErrPrintln(g, "red_black", prusage("putrm"))
+	ErrPrintln(g, "red_black", prusage("give"))
 }
 
 func cmdReqtstamp(g *gocui.Gui, args []string) {
@@ -2072,7 +2071,7 @@ func cmdDelete(g *gocui.Gui, args []string) {
 
 	switch len(args) {
 	case 1:
-		Info(g, "rm")
+		Info(g, "delete")
 		return
 	case 2:
 		if args[1] == "?" {
-- 
2.43.0


From a3be5067d08c8c35fe8538a94475fe4009121351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:51 +0000
Subject: [PATCH 50/76] fix: responder transfers used request types and flags
 that do not exist

---
 sarwin/sarwin.go | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index a51816f..939585a 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1074,37 +1074,29 @@ func NewResponder(g *gocui.Gui, r request.Request, peer string) error {
 	// flags
 	// property - normalfile, normaldirectory, specialfile, specialdirectory
 	// descriptor - d16, d32, d64, d128
-	// reliability - yes, no
 	var flags string
 
 	switch t.Ttype {
-	case "get", "getrm", "rm": // We are acting on a file local to this system
+	case "get", "take", "delete", "getdir": // We are acting on a file local to this system
 		// Find the local files metadata to get it's properties
 		if t.Filemeta, err = fileio.FileMeta(t.Filename); err != nil {
 			t.Conn.Close()
 			return err
 		}
 		if t.Filemeta.IsDir {
-			flags = sarflags.AddFlag("", "property", "normaldirectory")
-			flags = sarflags.AddFlag(flags, "reliability", "yes")
+			flags = sarflags.AddFlagD("", "property", "normaldirectory")
 		} else if t.Filemeta.IsRegular {
-			flags = sarflags.AddFlag("", "property", "normalfile")
-			flags = sarflags.AddFlag(flags, "reliability", "yes")
+			flags = sarflags.AddFlagD("", "property", "normalfile")
 		} else { // specialfile (no such thing as a "specialdirectory")
-			flags = sarflags.AddFlag("", "property", "specialfile")
-			flags = sarflags.AddFlag(flags, "reliability", "no")
+			flags = sarflags.AddFlagD("", "property", "specialfile")
 		}
-		flags = sarflags.AddFlag(flags, "descriptor", t.Descriptor)
-
-	case "put", "putrm": // FIX THIS!!!!!!! We are creating/deleting a file local to this system
-		flags = sarflags.AddFlag(flags, "reliability", "yes")
-	case "putblind": // We are putting a file onto this system
-		flags = sarflags.AddFlag(flags, "reliability", "no")
-	}
-	t.Dir = new(dirent.DirEnt)
-	if err = t.Dir.New(flags, t.Filename); err != nil {
-		t.Conn.Close()
-		return err
+		flags = sarflags.AddFlagD(flags, "descriptor", t.Descriptor)
+		t.Dir = new(dirent.DirEnt)
+		if err = t.Dir.New(flags, t.Filename); err != nil {
+			t.Conn.Close()
+			return err
+		}
+	case "put", "give": // The directory entry comes with the metadata from the peer
 	}
 	t.Curfills = nil
 	sarflags.Climu.Lock()
-- 
2.43.0


From 93a07131aefee4a179725abefe67e15178d0c851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:40 +0000
Subject: [PATCH 51/76] fix: metadata built without checksum kept the checksum
 of the previous use

---
 metadata/metadata.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index a46eb86..c1a633d 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -179,6 +179,7 @@ func (m *MetaData) New(flags string, info interface{}) error {
 		if checksum, err = fileio.Checksum(csumtype, fname); err != nil {
 			return err
 		}
+		m.Checksum = nil
 		csumlen := len(checksum)
 		if csumlen > 0 {
 			m.Checksum = make([]byte, len(checksum))
@@ -231,6 +232,7 @@ func (m *MetaData) Make(header uint32, info interface{}) error {
 		if checksum, err = fileio.Checksum(csumtype, fname); err != nil {
 			return err
 		}
+		m.Checksum = nil
 		csumlen := len(checksum)
 		if csumlen > 0 {
 			m.Checksum = make([]byte, len(checksum))
-- 
2.43.0


From ddd09409c562d4335285ea69a9eeaa6be5582e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:40 +0000
Subject: [PATCH 52/76] fix: timestamps with nanoseconds were wrong before 1970
 and after 2262

UnixNano is undefined outside 1678-2262 and its remainder is negative before 1970.
---
 timestamp/timestamp.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/timestamp/timestamp.go b/timestamp/timestamp.go
index 53a404f..3886258 100644
--- a/timestamp/timestamp.go
+++ b/timestamp/timestamp.go
@@ -54,19 +54,17 @@ func (t *Timestamp) New(flag string, ts time.Time) error {
 		t.nsecs = 0
 		t.local = ""
 	case "posix32_32":
-		nsecs := ts.UnixNano()
-		t.secs = uint64(nsecs / 1e9)
+		t.secs = uint64(ts.Unix())
 		t.ttype = flag
-		t.nsecs = uint64(nsecs % 1e9)
+		t.nsecs = uint64(ts.Nanosecond())
 		if t.secs > sarflags.MaxUint32 {
 			return errors.New("posix32_32:Seconds exceed 32 bits")
 		}
 		t.local = ""
 	case "posix64_32":
-		nsecs := ts.UnixNano()
-		t.secs = uint64(nsecs / 1e9)
+		t.secs = uint64(ts.Unix())
 		t.ttype = flag
-		t.nsecs = uint64(nsecs % 1e9)
+		t.nsecs = uint64(ts.Nanosecond())
 		if t.nsecs > sarflags.MaxUint32 {
 			return errors.New("posix64_32:Remainder exceed 32 bits")
 		}
-- 
2.43.0


From d7900a8531d8886d7dfd3086f50935b2179c2f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:48 +0000
Subject: [PATCH 53/76] fix: status frames refused the year 2000 timestamp type

---
 status/status.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/status/status.go b/status/status.go
index 8e9f14c..6bdb20e 100644
--- a/status/status.go
+++ b/status/status.go
@@ -94,7 +94,7 @@ func (s *Status) New(flags string, info interface{}) error {
 			}
 		// If we have not requested a timestamp (reqtstamp=no) but we have set the type to one of below then
 		// get the time and date and set (reqtstamp=yes)
-		case "localinterp", "posix32", "posix64", "posix32_32", "posix64_32":
+		case "localinterp", "posix32", "posix64", "posix32_32", "posix64_32", "epoch2000_32":
 			if err = s.Tstamp.Now(f[0]); err != nil {
 				return err
 			}
-- 
2.43.0


From c52f9eb5f4785b14d7bb6ef726e88be1d8cf0d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:39 +0000
Subject: [PATCH 54/76] fix: status flag with more than one value was accepted

---
 status/status.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/status/status.go b/status/status.go
index 6bdb20e..eaa87e3 100644
--- a/status/status.go
+++ b/status/status.go
@@ -74,6 +74,9 @@ func (s *Status) New(flags string, info interface{}) error {
 	flag := strings.Split(flags, ",") // The name=val of the flag
 	for fl := range flag {
 		f := strings.Split(flag[fl], "=") // f[0]=name f[1]=val
+		if len(f) > 2 {
+			return errors.New("Status.New: Malformed Flag " + flag[fl])
+		}
 		if len(f) == 1 {
 			f = append(f, "") // Timestamp types are given without a value
 		}
-- 
2.43.0


From 600a000b14c9699192e7353789b230d0a57bc458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:37 +0000
Subject: [PATCH 55/76] fix: answer an undecodable data frame for the session
 in the frame

---
 saratoga/saratoga.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/saratoga/saratoga.go b/saratoga/saratoga.go
index 21c4dee..45b13f0 100644
--- a/saratoga/saratoga.go
+++ b/saratoga/saratoga.go
@@ -289,17 +289,19 @@ func listen(g *gocui.Gui, conn *net.UDPConn, rx chan interface{}, tx chan interf
 			var rxerr error
 			sarwin.MsgPrintln(g, "white_black", "Data frame length is:", len(framebuf))
 			if rxerr = d.Decode(framebuf); rxerr != nil {
+				// The header decoded before the error may not include the session so take it from the frame
+				session := binary.BigEndian.Uint32(framebuf[4:8])
 				// Bad Packet send back a Status to the sender with current offset and session
 				var st status.Status
 				stheader := "descriptor=" + sarflags.GetStr(header, "descriptor") +
 					",metadatarecvd=no,allholes=yes,reqholes=requested,errcode=badpacket"
-				sinfo := status.Sinfo{Session: d.Session, Progress: d.Offset, Inrespto: 0, Holes: nil}
+				sinfo := status.Sinfo{Session: session, Progress: d.Offset, Inrespto: 0, Holes: nil}
 				if st.New(stheader, &sinfo) != nil {
 					sarwin.ErrPrintln(g, "red_black", "Cannot create badpacket status")
 					continue
 				}
 				sarwin.ErrPrintln(g, "red_black", "Bad Data:", rxerr, " from ",
-					sarnet.UDPinfo(remoteAddr), " session ", d.Session)
+					sarnet.UDPinfo(remoteAddr), " session ", session)
 				// Send a badpacket status back to the sender
 				tx <- st.Val(remoteAddr)
 				continue
-- 
2.43.0


From 211976ecf52fc7ea5d2bbbcba687ef23637b3dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:28 +0000
Subject: [PATCH 56/76] fix: send the queued status frames to the peer they
 answer

---
 saratoga/saratoga.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/saratoga/saratoga.go b/saratoga/saratoga.go
index 45b13f0..6b49e46 100644
--- a/saratoga/saratoga.go
+++ b/saratoga/saratoga.go
@@ -696,9 +696,12 @@ func main() {
 				pkt := txv4.(request.Packet)
 				sarwin.MsgPrintln(g, "blue_black", pkt.Info.ShortPrint())
 			case status.Packet:
-				sarwin.MsgPrintln(g, "blue_black", "Need to send v4 Saratoga STATUS Frame")
+				sarwin.MsgPrintln(g, "blue_black", "Sending v4 Saratoga STATUS Frame")
 				pkt := txv4.(status.Packet)
 				sarwin.MsgPrintln(g, "blue_black", pkt.Info.ShortPrint())
+				if err := pkt.Info.Send(v4mcastcon, &pkt.Addr); err != nil {
+					sarwin.ErrPrintln(g, "red_black", err.Error())
+				}
 			default:
 				sarwin.ErrPrintln(g, "red_black", "Need to send v4 Saratoga INVALID Frame")
 			}
@@ -721,9 +724,12 @@ func main() {
 				pkt := txv6.(request.Packet)
 				sarwin.MsgPrintln(g, "blue_black", pkt.Info.ShortPrint())
 			case status.Packet:
-				sarwin.MsgPrintln(g, "blue_black", "Need to send v6 Saratoga STATUS Frame")
+				sarwin.MsgPrintln(g, "blue_black", "Sending v6 Saratoga STATUS Frame")
 				pkt := txv6.(status.Packet)
 				sarwin.MsgPrintln(g, "blue_black", pkt.Info.ShortPrint())
+				if err := pkt.Info.Send(v6mcastcon, &pkt.Addr); err != nil {
+					sarwin.ErrPrintln(g, "red_black", err.Error())
+				}
 			default:
 				sarwin.ErrPrintln(g, "blue_black", "Need to send v6 Saratoga INVALID Frame")
 			}
-- 
2.43.0


From e8bc01f79232650ddb769d70ba6a2167f51a02f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:39 +0000
Subject: [PATCH 57/76] fix: do not register a second transfer for a session of
 the same peer

---
 trans/trans.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/trans/trans.go b/trans/trans.go
index 3c253df..f10534c 100644
--- a/trans/trans.go
+++ b/trans/trans.go
@@ -208,8 +208,6 @@ func AddRxTran(g *gocui.Gui, r *request.Request, from *net.UDPAddr, tx chan inte
 	ts.Now(timetype)
 	dent := new(dirent.DirEnt)
 
-	// Do some error checking to see that the transfer is not already underway
-
 	// Initialise the Transfer with the information we have in the request
 	t := Transfer{Peer: *from, Session: r.Session, Ttype: ttype,
 		Filename: r.Fname,
@@ -220,14 +218,28 @@ func AddRxTran(g *gocui.Gui, r *request.Request, from *net.UDPAddr, tx chan inte
 		Progress: 0, Inrespto: 0, CurFills: nil}
 
 	// Add the transfer to our current slice
+	errcode := "success"
 	Trmu.Lock()
-	Transfers = append(Transfers, t)
+	underway := false
+	for i := range Transfers {
+		// Session + peer is the unique key
+		if Transfers[i].Session == t.Session && Transfers[i].Peer.String() == t.Peer.String() {
+			underway = true
+			if Transfers[i].Ttype != t.Ttype {
+				errcode = "badrequest"
+			}
+			break
+		}
+	}
+	if !underway {
+		Transfers = append(Transfers, t)
+	}
 	Trmu.Unlock()
-	// Create STATUS and set errcode to "success"
-	if st.New("errcode=success", &sinfo) != nil {
-		sarwin.ErrPrintln(g, "red_black", "Cannot create success status")
+	// Create STATUS and set errcode to "success" or to "badrequest" if the session is in use by another transfer
+	if st.New("errcode="+errcode, &sinfo) != nil {
+		sarwin.ErrPrintln(g, "red_black", "Cannot create ", errcode, " status")
 		return false
 	}
 	tx <- st.Val(from)
-	return true
+	return !underway
 }
-- 
2.43.0


From 93c8448e0a2dae38f40bc2600bd2fd24ee84a935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:28 +0000
Subject: [PATCH 58/76] fix: take the type of a metadata's checksum from its
 header when no flag names it

---
 metadata/metadata.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index c1a633d..b29343d 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -121,8 +121,6 @@ func (m *MetaData) New(flags string, info interface{}) error {
 	if m.Header, err = sarflags.Set(m.Header, "frametype", "metadata"); err != nil {
 		return err
 	}
-	var csumtype string // Checksum type
-
 	// Grab the flags and set the frame header
 	flag := strings.Split(flags, ",") // The name=val of the flag
 	for fl := range flag {
@@ -143,7 +141,6 @@ func (m *MetaData) New(flags string, info interface{}) error {
 			if m.Header, err = sarflags.Set(m.Header, "csumlen", f[1]); err != nil {
 				return err
 			}
-			csumtype = f[1]
 		default:
 			return errors.New(f[0] + "invalid flag for MetaData Frame")
 		}
@@ -176,6 +173,7 @@ func (m *MetaData) New(flags string, info interface{}) error {
 		// Make sure we dont try and calc a checksum of a named pipe (it will wait forever)
 		var checksum []byte
 
+		csumtype := sarflags.GetStr(m.Header, "csumtype") // "none" if there was no csumtype flag
 		if checksum, err = fileio.Checksum(csumtype, fname); err != nil {
 			return err
 		}
-- 
2.43.0


From cd4548c36de27abc83c1c7cddc074eabee7aa547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:18 +0000
Subject: [PATCH 59/76] fix: NewResponder compares the resolved peer address so
 an address written differently cannot register twice

---
 sarwin/sarwin.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 939585a..5b0547a 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1028,16 +1028,16 @@ func NewResponder(g *gocui.Gui, r request.Request, peer string) error {
 	// Lock it as we are going to add a new transfer
 	Trmu.Lock()
 	defer Trmu.Unlock()
-	if find(Responder, r.Session, peer) >= 0 {
+	var udpaddr *net.UDPAddr
+	if udpaddr, err = net.ResolveUDPAddr("udp", peer); err != nil {
+		return err
+	}
+	if find(Responder, r.Session, udpaddr.String()) >= 0 {
 		emsg := fmt.Sprintf("Transfer %s for session %d to %s is currently in progress, cannnot duplicate transfer",
 			Directions[Responder], r.Session, peer)
 		ErrPrintln(g, "red_black", emsg)
 		return errors.New(emsg)
 	}
-	var udpaddr *net.UDPAddr
-	if udpaddr, err = net.ResolveUDPAddr("udp", peer); err != nil {
-		return err
-	}
 
 	var tc *net.UDPConn
 	// Dial the peer to create the connection
-- 
2.43.0


From d7cc0f1add1f7bdd74914eda69c1647fd0345182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:18 +0000
Subject: [PATCH 60/76] fix: the transfer listing shows the direction of each
 transfer

---
 sarwin/sarwin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 5b0547a..4b0f090 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1253,7 +1253,7 @@ func (t *Transfer) Remove() error {
 
 // FmtPrint - String of relevant transfer info
 func (t *Transfer) FmtPrint(sfmt string) string {
-	return fmt.Sprintf(sfmt, "Initiator",
+	return fmt.Sprintf(sfmt, Directions[t.Direction],
 		t.Ttype,
 		t.Peer.String(),
 		t.Filename)
-- 
2.43.0


From 19de449eafe895e0d9f38da25a94a71a23c66211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:25 +0000
Subject: [PATCH 61/76] fix: a configuration value of the wrong type is
 reported as an error

---
 sarflags/sarflags.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sarflags/sarflags.go b/sarflags/sarflags.go
index 82c5a0e..8ec55e5 100644
--- a/sarflags/sarflags.go
+++ b/sarflags/sarflags.go
@@ -318,8 +318,13 @@ func getmaxdesc() (desc string, err error) {
 
 // Read  in the JSON Config data
 // Set values to the filled out Cliflags structure in *Cliflags
-func (c *Cliflags) ReadConfig(fname string) error {
-	var err error
+func (c *Cliflags) ReadConfig(fname string) (err error) {
+	// A value of the wrong type makes the configuration invalid
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("invalid saratoga config file %s: %v", fname, r)
+		}
+	}()
 
 	// var cmu sync.Mutex
 	Flags = make(map[string]Flagtype)             // Setup the Flags global map
-- 
2.43.0


From b754015c434e479d54857c5423dbb85249cdda4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:06 +0000
Subject: [PATCH 62/76] fix: starting a take never overwrites an existing file

---
 sarwin/sarwin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 4b0f090..f948253 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -961,7 +961,7 @@ func NewInitiator(g *gocui.Gui, ttype string, peer *net.UDPAddr, fname string, c
 		}
 		// If the file currently exists on our system and we try to "get" it then we won;t allow that
 		// We cant overwrite an existing file on our system
-		if fileio.FileExists(fname) && (ttype == "get" || ttype == "getdelete" || ttype == "getdir") {
+		if fileio.FileExists(fname) && (ttype == "get" || ttype == "take" || ttype == "getdir") {
 			emsg := fmt.Sprintf("File %s already exists, cannot overwrite", fname)
 			ErrPrintln(g, "red_black", emsg)
 			return nil, errors.New(emsg)
-- 
2.43.0


From 2d89152f4cae40b25794e91be6ac9802c173fe55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:08 +0000
Subject: [PATCH 63/76] fix: switching off an unknown timeout is reported

---
 sarwin/sarwin.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index f948253..779c236 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -2322,6 +2322,8 @@ func cmdTimeout(g *gocui.Gui, args []string) {
 			case "transfer":
 				sarflags.Cliflag.Timeout.Transfer = 60
 				MsgPrintln(g, "green_black", "transfer:", sarflags.Cliflag.Timeout.Transfer, " sec")
+			default:
+				ErrPrintln(g, "red_black", prusage("timeout"))
 			}
 			return
 		}
-- 
2.43.0


From ceb77253bb43ecf3ac129f41b8d248d7808b2787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:10 +0000
Subject: [PATCH 64/76] fix: get reports an invalid peer address

---
 sarwin/sarwin.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 779c236..5124230 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1616,6 +1616,8 @@ func cmdGet(g *gocui.Gui, args []string) {
 			if _, err := NewInitiator(g, "get", udpad, args[2], sarflags.Cliflag); err != nil {
 				return
 			}
+		} else {
+			ErrPrintln(g, "green_black", "Invalid IP Address:", args[1])
 		}
 		return
 	}
-- 
2.43.0


From f6f1f52ce50bb33cbbcfa856b8bf64ae7f1e4c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:12 +0000
Subject: [PATCH 65/76] fix: peers with an unknown argument is reported

---
 sarwin/sarwin.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 5124230..8c2756f 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1904,10 +1904,8 @@ func cmdPeers(g *gocui.Gui, args []string) {
 			MsgPrintln(g, "green_black", prusage("peers"))
 			return
 		}
-	default:
-		MsgPrintln(g, "magenta_black", prhelp("peers"))
-		ErrPrintln(g, "red_black", prusage("peers"))
 	}
+	ErrPrintln(g, "red_black", prusage("peers"))
 }
 
 // Initiator _put_
-- 
2.43.0


From c70be9bd65dd126ba4bd7192b8629212936651c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:14 +0000
Subject: [PATCH 66/76] fix: rmtran takes the documented arguments

---
 sarwin/sarwin.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 8c2756f..5c450ac 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -2110,18 +2110,17 @@ func cmdRmtran(g *gocui.Gui, args []string) {
 			MsgPrintln(g, "green_black", prusage("rmtran"))
 			return
 		}
-	case 4:
-		ttype := args[1]
-		addr := args[2]
+	case 3: // rmtran <peer> <session>
+		addr := args[1]
 		// We are unsigned so Atoi does not cut it
-		if session, err := strconv.ParseUint(args[3], 10, 32); err == nil {
+		if session, err := strconv.ParseUint(args[2], 10, 32); err == nil {
 			if t := Match(addr, uint32(session)); t != nil {
 				if err := t.Remove(); err != nil {
 					MsgPrintln(g, "red_black", err.Error())
 				}
 				return
 			}
-			MsgPrintln(g, "red_black", "No such transfer:", ttype, " ", addr, " ", args[2])
+			MsgPrintln(g, "red_black", "No such transfer:", addr, " ", args[2])
 		}
 	}
 	ErrPrintln(g, "red_black", prusage("rmtran"))
-- 
2.43.0


From 239655a10e88b046957ae6effe38990f68d6115d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:40 +0000
Subject: [PATCH 67/76] fix: usage texts list the words the commands accept

---
 saratoga/saratoga.json | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/saratoga/saratoga.json b/saratoga/saratoga.json
index 9e8fc3f..928b265 100644
--- a/saratoga/saratoga.json
+++ b/saratoga/saratoga.json
@@ -141,7 +141,7 @@
 			"help" : "get a file from a peer and remove it from peer when successfully transferred"
 		},
 		"timeout" : {
-			"usage" : "timeout [metadata|request|transfer|status|dataframes] <secs|off>",
+			"usage" : "timeout [metadata|request|transfer|status|datacounter] <secs|off>",
 			"help" : "timeouts in secs for metadata, request frames, status receipts, transfer completion, status sent every dataframes"
 		},
 		"timestamp" : {
@@ -153,7 +153,7 @@
 			"help" : "show current or set to use local or universal time"
 		},
 		"tran" : {
-			"usage" : "tran [get|take|getdir|put|give|putblind|rm|rmdir]",
+			"usage" : "tran [get|take|getdir|put|give|putblind|delete]",
 			"help" : "list current active transfers of specific type or all"
 		},
 		"txwilling" : {
-- 
2.43.0


From 4fd98ffd470bd60e29a5dfc09528337abb282900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:46 +0000
Subject: [PATCH 68/76] fix: data frames no longer compare reqtstamp with
 timestamp types it cannot hold

---
 data/data.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/data/data.go b/data/data.go
index 4ae7d7c..0c7125d 100644
--- a/data/data.go
+++ b/data/data.go
@@ -131,10 +131,6 @@ func (d *Data) Make(header uint32, info interface{}) error {
 	switch tstamp {
 	case "no":
 		// Don't do anything it's already set to no
-	case "localinterp", "posix32", "posix64", "posix32_32", "posix64_32", "epoch2000_32":
-		if err = d.Tstamp.Now(tstamp); err != nil { // Set the timestamp to right now
-			return err
-		}
 	case "yes":
 		if err = d.Tstamp.Now("posix32"); err != nil { // Set the timestamp to right now
 			return err
-- 
2.43.0


From ef9d92d196fdfe5649957bae2fd8d123ad492796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:38 +0000
Subject: [PATCH 69/76] fix: the times in the peer table cannot run out of
 range unnoticed

---
 beacon/beacon.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beacon/beacon.go b/beacon/beacon.go
index d21e566..3d6603a 100644
--- a/beacon/beacon.go
+++ b/beacon/beacon.go
@@ -382,7 +382,7 @@ func NewPeer(b *Beacon, from *net.UDPAddr) bool {
 				Peers[p].Maxdesc = sarflags.GetStr(b.Header, "descriptor")
 				Peers[p].Canrx = sarflags.GetStr(b.Header, "rxwilling")
 				Peers[p].Cantx = sarflags.GetStr(b.Header, "txwilling")
-				Peers[p].Updated.Now("posix32_32") // Last updated now
+				Peers[p].Updated.Now("posix64_32") // Last updated now
 				return true
 			}
 			return false
@@ -397,7 +397,7 @@ func NewPeer(b *Beacon, from *net.UDPAddr) bool {
 	newp.Maxdesc = sarflags.GetStr(b.Header, "descriptor")
 	newp.Canrx = sarflags.GetStr(b.Header, "rxwilling")
 	newp.Cantx = sarflags.GetStr(b.Header, "txwilling")
-	newp.Created.Now("posix32_32")
+	newp.Created.Now("posix64_32")
 	newp.Updated = newp.Created
 	Peers = append(Peers, *newp)
 	return true
-- 
2.43.0


From b07e5b8ea60048523b0e3d174c0746ea41d056ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:38 +0000
Subject: [PATCH 70/76] fix: SetMulticastLoop reports that the socket cannot be
 examined

---
 sarnet/sarnet.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sarnet/sarnet.go b/sarnet/sarnet.go
index fa011c0..bbff2d2 100644
--- a/sarnet/sarnet.go
+++ b/sarnet/sarnet.go
@@ -100,7 +100,10 @@ func OutboundIP(typ string) net.IP {
 
 // SetMulticastLoop - Set the Multicast Loopback address OK for Rx Multicasts
 func SetMulticastLoop(conn net.PacketConn) error {
-	file, _ := conn.(*net.UDPConn).File()
+	file, err := conn.(*net.UDPConn).File()
+	if err != nil {
+		return err
+	}
 	fd := int(file.Fd())
 	addr := conn.LocalAddr().String()
 	if isIPv4(addr) {
-- 
2.43.0


From f5f59a39496b3ec719db63cad5dcba8bcc62d05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:38 +0000
Subject: [PATCH 71/76] fix: OutboundIP says why it cannot find the address of
 the host

---
 sarnet/sarnet.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sarnet/sarnet.go b/sarnet/sarnet.go
index bbff2d2..6b35d17 100644
--- a/sarnet/sarnet.go
+++ b/sarnet/sarnet.go
@@ -84,8 +84,14 @@ func RemoveUDPAddrValue(a []net.UDPAddr, val *net.UDPAddr) []net.UDPAddr {
 // OutboundIP - Get preferred outbound ip of this host
 // typ is "IPv4" or "IPv6"
 func OutboundIP(typ string) net.IP {
-	host, _ := os.Hostname()
-	addrs, _ := net.LookupIP(host)
+	host, err := os.Hostname()
+	if err != nil {
+		log.Fatal("getoutboundIP: ", err)
+	}
+	addrs, err := net.LookupIP(host)
+	if err != nil {
+		log.Fatal("getoutboundIP: ", err)
+	}
 	for _, addr := range addrs {
 		if ipv4 := addr.To4(); typ == "IPv4" && ipv4 != nil {
 			return ipv4
-- 
2.43.0


From 386f20b8c1fbfa2e16fdb7b5bf997348211ac699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:38 +0000
Subject: [PATCH 72/76] fix: interface addresses that cannot be listed are
 reported

---
 saratoga/saratoga.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/saratoga/saratoga.go b/saratoga/saratoga.go
index 6b49e46..5cd1128 100644
--- a/saratoga/saratoga.go
+++ b/saratoga/saratoga.go
@@ -513,14 +513,22 @@ func main() {
 	for _, ifi := range ifis {
 		if ifi.Name == os.Args[argnumb] {
 			sarwin.MsgPrintln(g, "green_black", ifi.Name, " MTU ", ifi.MTU, " ", ifi.Flags.String(), ":")
-			adrs, _ := ifi.Addrs()
+			adrs, err := ifi.Addrs()
+			if err != nil {
+				sarwin.ErrPrintln(g, "red_black", "Cannot list addresses of ", ifi.Name, ": ", err.Error())
+				adrs = nil
+			}
 			for _, adr := range adrs {
 				if strings.Contains(adr.Network(), "ip") {
 					sarwin.MsgPrintln(g, "green_black", "\t Unicast ", adr.String(), " ", adr.Network())
 				}
 			}
 			//
-			madrs, _ := ifi.MulticastAddrs()
+			madrs, err := ifi.MulticastAddrs()
+			if err != nil {
+				sarwin.ErrPrintln(g, "red_black", "Cannot list multicast addresses of ", ifi.Name, ": ", err.Error())
+				madrs = nil
+			}
 			for _, madr := range madrs {
 				if strings.Contains(madr.Network(), "ip") {
 					sarwin.MsgPrintln(g, "green_black", "Multicast ", madr.String(),
-- 
2.43.0


From 011d2100fac49051a03df6a696ddf1549b653e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:38 +0000
Subject: [PATCH 73/76] fix: beacons to an invalid multicast address are
 reported

---
 sarwin/sarwin.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 5c450ac..b2c3729 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1345,6 +1345,8 @@ func cmdBeacon(g *gocui.Gui, args []string) {
 			// Start up the beacon client sending count IPv4 beacons
 			if addr, err := sarnet.UDPAddress(sarflags.Cliflag.V4Multicast); err == nil {
 				go sendbeacons(g, clibeacon, addr)
+			} else {
+				ErrPrintln(g, "red_black", "Invalid multicast address:", sarflags.Cliflag.V4Multicast)
 			}
 			return
 		case "v6": // beacon v6
-- 
2.43.0


From d9e41be7f3a5aae600899d2c09cb926918548cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:38 +0000
Subject: [PATCH 74/76] fix: a transfer that cannot be timestamped is reported

---
 trans/trans.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trans/trans.go b/trans/trans.go
index f10534c..83db7f1 100644
--- a/trans/trans.go
+++ b/trans/trans.go
@@ -205,7 +205,9 @@ func AddRxTran(g *gocui.Gui, r *request.Request, from *net.UDPAddr, tx chan inte
 	}
 	timetype := "epoch2000_32"
 	ts := new(timestamp.Timestamp)
-	ts.Now(timetype)
+	if err := ts.Now(timetype); err != nil {
+		sarwin.ErrPrintln(g, "red_black", "Cannot timestamp transfer ", r.Session, ": ", err.Error())
+	}
 	dent := new(dirent.DirEnt)
 
 	// Initialise the Transfer with the information we have in the request
-- 
2.43.0


From c0153e493f854038432f59c717c5af0690d2eb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:03 +0000
Subject: [PATCH 75/76] fix: beacons to an invalid IPv6 multicast address are
 reported

---
 sarwin/sarwin.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index b2c3729..3a82b89 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1357,6 +1357,8 @@ func cmdBeacon(g *gocui.Gui, args []string) {
 			if addr, err := sarnet.UDPAddress(sarflags.Cliflag.V6Multicast); err == nil {
 				// Start up the beacon client sending count IPv6 beacons
 				go sendbeacons(g, clibeacon, addr)
+			} else {
+				ErrPrintln(g, "red_black", "Invalid multicast address:", sarflags.Cliflag.V6Multicast)
 			}
 			return
 		default: // beacon <count> or beacon <ipaddr>
-- 
2.43.0


From ec58f24539dcea97353212db910972c725aba517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:22 +0000
Subject: [PATCH 76/76] fix: the first of several addresses gets its beacons

---
 sarwin/sarwin.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 3a82b89..96fce07 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1374,7 +1374,11 @@ func cmdBeacon(g *gocui.Gui, args []string) {
 			return
 		}
 	}
-	for i := 2; i < len(args); i++ {
+	first := 1
+	if args[1] == "off" {
+		first = 2
+	}
+	for i := first; i < len(args); i++ {
 		if args[1] == "off" {
 			if addr, err := sarnet.UDPAddress(args[i]); err == nil {
 				clibeacon.hosts = sarnet.RemoveUDPAddrValue(clibeacon.hosts, addr)
-- 
2.43.0

