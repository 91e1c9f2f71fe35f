From b92cd3f282f5f89ef0bf152e116ef80f8d52d2ce Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:44:15 +0000
Subject: [PATCH 01/18] fix: don't leak the scanning goroutine when an exchange
 times out

ScanTimeout's goroutine sent its result on an unbuffered channel. After a
time-out nobody receives from it, so the goroutine stayed blocked for ever.
---
 libcomfo/conn.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libcomfo/conn.go b/libcomfo/conn.go
index 3d2542e..815d871 100644
--- a/libcomfo/conn.go
+++ b/libcomfo/conn.go
@@ -29,7 +29,9 @@ func WaitTimeout(wait <-chan bool, timeout *time.Timer) (success bool, err error
 // All output found on the way is returned.
 func ScanTimeout(scanner *bufio.Scanner, timer *time.Timer) (out []byte, err error) {
 
-	done := make(chan bool)
+	// Buffered, so the goroutine below can always deliver its result and exit,
+	// even if the timer expired and nobody is receiving anymore.
+	done := make(chan bool, 1)
 
 	// Advance the scanner past one delimiter
 	go func() { done <- scanner.Scan() }()
-- 
2.43.0


From d42641d9a593a4abe855127555ea174811e96415 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:44:15 +0000
Subject: [PATCH 02/18] fix: report end of stream and read errors instead of
 taking them for an ACK

ScanTimeout ignored the result of Scan(), so a closed or failing connection
looked like an empty token, which is what a valid acknowledgement looks like.
---
 libcomfo/conn.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libcomfo/conn.go b/libcomfo/conn.go
index 815d871..c64724b 100644
--- a/libcomfo/conn.go
+++ b/libcomfo/conn.go
@@ -37,10 +37,19 @@ func ScanTimeout(scanner *bufio.Scanner, timer *time.Timer) (out []byte, err err
 	go func() { done <- scanner.Scan() }()
 
 	// Wait for delimiter to appear, or time out
-	if _, err := WaitTimeout(done, timer); err != nil {
+	ok, err := WaitTimeout(done, timer)
+	if err != nil {
 		return out, err
 	}
 
+	// The stream ended or failed before a delimiter was found
+	if !ok {
+		if err := scanner.Err(); err != nil {
+			return out, err
+		}
+		return out, io.ErrUnexpectedEOF
+	}
+
 	// Return all characters found on the way to the delimiter
 	out = scanner.Bytes()
 
-- 
2.43.0


From b09c9334b8be34460a55d730abeae5a1033a2fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:44:16 +0000
Subject: [PATCH 03/18] fix: accept the control sequences of a reply only in
 their proper order

ReadPacket split the stream on any of the ACK, start and end sequences, so
a start or end sequence was taken for the unit's acknowledgement, and an ACK
for the start or end of a frame.
---
 libcomfo/conn.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/libcomfo/conn.go b/libcomfo/conn.go
index c64724b..d3d9850 100644
--- a/libcomfo/conn.go
+++ b/libcomfo/conn.go
@@ -62,7 +62,11 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 
 	scanner := bufio.NewScanner(conn)
 
-	// Split function for splitting a byte slice on ACK, start and end sequences.
+	// The control sequence the next scan looks for. A reply consists of
+	// an ACK, a start and an end sequence, in this order.
+	delim := ack
+
+	// Split function for splitting a byte slice on the expected sequence.
 	// Double 0x07 characters (escaped 0x07 values) are ignored here.
 	splitFunc := func(data []byte, atEOF bool) (advance int, token []byte, err error) {
 		for i := 0; i < len(data); i++ {
@@ -72,7 +76,7 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 				if i+1 < len(data) {
 					char := data[i+1]
 					switch char {
-					case ack, start, end:
+					case delim:
 						// Advance the pointer past the 2nd command character
 						return i + 2, data[:i], nil
 					default:
@@ -102,6 +106,7 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 	}
 
 	// Read second escape sequence (start)
+	delim = start
 	pr, err = ScanTimeout(scanner, timer)
 	if err != nil {
 		return out, err
@@ -112,7 +117,8 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 		return out, errScanInput
 	}
 
-	// Read second escape sequence (data + stop)
+	// Read third escape sequence (data + stop)
+	delim = end
 	pr, err = ScanTimeout(scanner, timer)
 	if err != nil {
 		return out, err
-- 
2.43.0


From 6ba47321db26241f6bbc27e96922689c68cb2f33 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:44:17 +0000
Subject: [PATCH 04/18] fix: reject an empty frame when a reply is expected

A start sequence followed directly by an end sequence was accepted without
any length or checksum verification.
---
 libcomfo/conn.go | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/libcomfo/conn.go b/libcomfo/conn.go
index d3d9850..99cdc13 100644
--- a/libcomfo/conn.go
+++ b/libcomfo/conn.go
@@ -125,19 +125,12 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 	}
 
 	// Abort on invalid input
-	if len(pr) > 0 && len(pr) < 4 {
+	if len(pr) < 4 {
 		return out, errTooShort
 	}
 
 	// Decode the payload
-	if len(pr) >= 4 {
-		out, err = UnmarshalPacket(pr)
-		if err != nil {
-			return out, err
-		}
-	}
-
-	return
+	return UnmarshalPacket(pr)
 }
 
 // WritePacket serializes a Packet into wire representation, wrapped
-- 
2.43.0


From bb7267d6ce4740b70b0c9b314817aebf5c6c7fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:45:10 +0000
Subject: [PATCH 05/18] fix: don't let SetFanProfile overwrite a concurrent
 SetFanProfiles

SetFanProfiles did not take the API mutex, so its command could be sent
between SetFanProfile reading the profiles and writing them back.
---
 libcomfo/api.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libcomfo/api.go b/libcomfo/api.go
index e182d93..ed03e2e 100644
--- a/libcomfo/api.go
+++ b/libcomfo/api.go
@@ -62,6 +62,10 @@ func SetFanProfile(mode uint8, speed uint8, conn io.ReadWriter) error {
 // Only away/low/mid/high's in and out fields are sent to the unit.
 func SetFanProfiles(fp *FanProfiles, conn io.ReadWriter) error {
 
+	// Lock API mutex, a concurrent SetFanProfile would overwrite this update
+	am.Lock()
+	defer am.Unlock()
+
 	return setQuery(fp, conn)
 }
 
-- 
2.43.0


From 0987ef3c6cdc58cbfe5de53360bb9ba4078e966a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:45:11 +0000
Subject: [PATCH 06/18] fix: reject fan readings that overflow the speed in RPM

Tachometer values below 29 yield more than 65535 rpm, which wrapped around.
---
 libcomfo/response_types.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libcomfo/response_types.go b/libcomfo/response_types.go
index 5734a01..d58bfb4 100644
--- a/libcomfo/response_types.go
+++ b/libcomfo/response_types.go
@@ -2,6 +2,7 @@ package libcomfo
 
 import (
 	"encoding/binary"
+	"math"
 	"strings"
 )
 
@@ -175,6 +176,11 @@ func (v *Fans) UnmarshalBinary(in []byte) error {
 		return errZeroValue
 	}
 
+	// Very low values yield speeds that do not fit the result
+	if 1875000/uint32(inSpeed) > math.MaxUint16 || 1875000/uint32(outSpeed) > math.MaxUint16 {
+		return errTooHigh
+	}
+
 	v.InPercent = uint8(in[0])
 	v.OutPercent = uint8(in[1])
 
-- 
2.43.0


From 454c6b6665a28ebea7f14a97e170f5dc019c7605 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:45:12 +0000
Subject: [PATCH 07/18] fix: make the device name valid UTF-8

Protobuf refuses to encode invalid UTF-8, so GetBootInfo failed for units
reporting other bytes in their name.
---
 libcomfo/response_types.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libcomfo/response_types.go b/libcomfo/response_types.go
index d58bfb4..81b6f92 100644
--- a/libcomfo/response_types.go
+++ b/libcomfo/response_types.go
@@ -34,7 +34,8 @@ type BootInfo struct {
 func (bi *BootInfo) New() Response { return &BootInfo{} }
 
 // UnmarshalBinary unmarshals the binary representation
-// into a BootInfo structure. Whitespace is trimmed from DeviceName.
+// into a BootInfo structure. Whitespace is trimmed from DeviceName,
+// bytes that are not valid UTF-8 are replaced.
 func (bi *BootInfo) UnmarshalBinary(in []byte) error {
 
 	if len(in) != 13 {
@@ -44,7 +45,7 @@ func (bi *BootInfo) UnmarshalBinary(in []byte) error {
 	bi.MajorVersion = in[0]
 	bi.MinorVersion = in[1]
 	bi.BetaVersion = in[2]
-	bi.DeviceName = strings.TrimSpace(string(in[3:]))
+	bi.DeviceName = strings.TrimSpace(strings.ToValidUTF8(string(in[3:]), "\uFFFD"))
 
 	return nil
 }
-- 
2.43.0


From 1aaebc947e55b095810b3d27cb7932f49df68fac Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:45:12 +0000
Subject: [PATCH 08/18] fix: release the profiles cache lock when looking up
 the target speed fails

---
 comfoserver/caches.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/comfoserver/caches.go b/comfoserver/caches.go
index 3e884ba..6fb3e7b 100644
--- a/comfoserver/caches.go
+++ b/comfoserver/caches.go
@@ -220,10 +220,10 @@ func (fc *FanCache) UpdatePoll(count int, tgtSpeed uint8) error {
 	// Look up the fan profile matching the target speed
 	fanProfilesCache.CacheLock.RLock() // Wait for any changes to the profile
 	inPct, outPct, err := fanProfilesCache.Lookup(tgtSpeed)
+	fanProfilesCache.CacheLock.RUnlock()
 	if err != nil {
 		return err
 	}
-	fanProfilesCache.CacheLock.RUnlock()
 
 	// Poll updates from the fan cache until desired result
 	for i := 0; i < count; i++ {
-- 
2.43.0


From 1d70495fecdb69a75a445694701cdcc4e614aa19 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:45:13 +0000
Subject: [PATCH 09/18] fix: don't answer a cache flush with success when the
 query failed

The caches' Update methods only logged their error, so FlushCache reported
success although the cache still held the old data.
---
 comfoserver/caches.go | 71 ++++++++++++++++++++++++-------------------
 1 file changed, 40 insertions(+), 31 deletions(-)

diff --git a/comfoserver/caches.go b/comfoserver/caches.go
index 6fb3e7b..7f3eda0 100644
--- a/comfoserver/caches.go
+++ b/comfoserver/caches.go
@@ -1,6 +1,7 @@
 package comfoserver
 
 import (
+	"errors"
 	"io"
 	"log/slog"
 	"sync"
@@ -68,13 +69,15 @@ type ErrorsCache struct {
 // UpdateCaches is a macro method to update all data caches of the unit.
 // This is run at startup and must populate fields that are not meant to be
 // refreshed continuously (eg. BootInfo).
-func UpdateCaches(force bool) {
-	bootInfoCache.Update(force)
-	bypassCache.Update(force)
-	tempCache.Update(force)
-	fanCache.Update(force)
-	fanProfilesCache.Update(force)
-	errorsCache.Update(force)
+func UpdateCaches(force bool) error {
+	return errors.Join(
+		bootInfoCache.Update(force),
+		bypassCache.Update(force),
+		tempCache.Update(force),
+		fanCache.Update(force),
+		fanProfilesCache.Update(force),
+		errorsCache.Update(force),
+	)
 }
 
 // FlushCaches manages forced cache flushes for all components and
@@ -82,23 +85,17 @@ func UpdateCaches(force bool) {
 func FlushCaches(cache CacheType) {
 	switch cache {
 	case BootInfo:
-		bootInfoCache.Update(true)
-		flushSuccess <- true
+		flushSuccess <- bootInfoCache.Update(true) == nil
 	case Bypass:
-		bypassCache.Update(true)
-		flushSuccess <- true
+		flushSuccess <- bypassCache.Update(true) == nil
 	case Fans:
-		fanCache.Update(true)
-		flushSuccess <- true
+		flushSuccess <- fanCache.Update(true) == nil
 	case Temps:
-		tempCache.Update(true)
-		flushSuccess <- true
+		flushSuccess <- tempCache.Update(true) == nil
 	case Profiles:
-		fanProfilesCache.Update(true)
-		flushSuccess <- true
+		flushSuccess <- fanProfilesCache.Update(true) == nil
 	case All:
-		UpdateCaches(true)
-		flushSuccess <- true
+		flushSuccess <- UpdateCaches(true) == nil
 	default:
 		flushSuccess <- false
 	}
@@ -107,7 +104,7 @@ func FlushCaches(cache CacheType) {
 // Update executes a libcomfo query to fetch boot (firmware) information
 // from the unit and sets LastUpdated on the cache object.
 // The force parameter ignores the staleness check and updates anyway.
-func (bc *BootInfoCache) Update(force bool) {
+func (bc *BootInfoCache) Update(force bool) error {
 
 	// Lock the cache object.
 	bc.CacheLock.Lock()
@@ -119,22 +116,24 @@ func (bc *BootInfoCache) Update(force bool) {
 	// Do not update cache if we're not forced to
 	// and if the update is not due yet.
 	if !force && !isStale(bc.LastUpdated, now) {
-		return
+		return nil
 	}
 
 	// Call out to the unit and update object.
 	if gb, err := libcomfo.GetBootloader(comfoConn); err == nil {
 		bc.BootInfo = gb
 		bc.LastUpdated = now
+		return nil
 	} else {
 		slog.Error("BootInfoCache.Update() - Updating boot info cache", "error", err)
+		return err
 	}
 }
 
 // Update executes a libcomfo query to fetch information about the unit's
 // heat exchanger bypass. It sets LastUpdated on the cache object.
 // The force parameter ignores the staleness check and updates anyway.
-func (bc *BypassCache) Update(force bool) {
+func (bc *BypassCache) Update(force bool) error {
 
 	// Lock the cache object.
 	bc.CacheLock.Lock()
@@ -146,22 +145,24 @@ func (bc *BypassCache) Update(force bool) {
 	// Do not update cache if we're not forced to
 	// and if the update is not due yet.
 	if !force && !isStale(bc.LastUpdated, now) {
-		return
+		return nil
 	}
 
 	// Call out to the unit and update object.
 	if gb, err := libcomfo.GetBypass(comfoConn); err == nil {
 		bc.Bypass = gb
 		bc.LastUpdated = now
+		return nil
 	} else {
 		slog.Error("BypassCache.Update() - Updating bypass cache", "error", err)
+		return err
 	}
 }
 
 // Update executes a libcomfo query to fetch temperature
 // data from the unit and sets LastUpdated on the cache object.
 // The force parameter ignores the staleness check and updates anyway.
-func (tc *TempCache) Update(force bool) {
+func (tc *TempCache) Update(force bool) error {
 
 	// Lock the cache object
 	tc.CacheLock.Lock()
@@ -173,22 +174,24 @@ func (tc *TempCache) Update(force bool) {
 	// Do not update cache if we're not forced to
 	// and if the update is not due yet.
 	if !force && !isStale(tc.LastUpdated, now) {
-		return
+		return nil
 	}
 
 	// Call out to the unit and update object
 	if gt, err := libcomfo.GetTemperatures(comfoConn); err == nil {
 		tc.Temps = gt
 		tc.LastUpdated = now
+		return nil
 	} else {
 		slog.Error("TempCache.Update() - Updating temperature cache", "error", err)
+		return err
 	}
 }
 
 // Update executes a libcomfo query to fetch fan speed
 // data from the unit and sets LastUpdated on the cache object.
 // The force parameter ignores the staleness check and updates anyway.
-func (fc *FanCache) Update(force bool) {
+func (fc *FanCache) Update(force bool) error {
 
 	// Lock the cache object
 	fc.CacheLock.Lock()
@@ -200,15 +203,17 @@ func (fc *FanCache) Update(force bool) {
 	// Do not update cache if we're not forced to
 	// and if the update is not due yet
 	if !force && !isStale(fc.LastUpdated, now) {
-		return
+		return nil
 	}
 
 	// Call out to the unit and update object
 	if gf, err := libcomfo.GetFans(comfoConn); err == nil {
 		fc.Fans = gf
 		fc.LastUpdated = now
+		return nil
 	} else {
 		slog.Error("FanCache.Update() - Updating fan cache", "error", err)
+		return err
 	}
 }
 
@@ -247,7 +252,7 @@ func (fc *FanCache) UpdatePoll(count int, tgtSpeed uint8) error {
 // Update executes a libcomfo query to fetch fan profiles
 // data from the unit and sets LastUpdated on the cache object.
 // The force parameter ignores the staleness check and updates anyway.
-func (fpc *FanProfilesCache) Update(force bool) {
+func (fpc *FanProfilesCache) Update(force bool) error {
 
 	// Lock the cache object
 	fpc.CacheLock.Lock()
@@ -259,22 +264,24 @@ func (fpc *FanProfilesCache) Update(force bool) {
 	// Do not update cache if we're not forced to
 	// and if the update is not due yet
 	if !force && !isStale(fpc.LastUpdated, now) {
-		return
+		return nil
 	}
 
 	// Call out to the unit and update object
 	if fp, err := libcomfo.GetFanProfiles(comfoConn); err == nil {
 		fpc.FanProfiles = fp
 		fpc.LastUpdated = now
+		return nil
 	} else {
 		slog.Error("FanProfilesCache.Update() - Updating fan profiles cache", "error", err)
+		return err
 	}
 }
 
 // Update executes a libcomfo query to fetch error states
 // from the unit and sets LastUpdated on the cache object.
 // The force parameter ignores the staleness check and updates anyway.
-func (ec *ErrorsCache) Update(force bool) {
+func (ec *ErrorsCache) Update(force bool) error {
 
 	// Lock the cache object
 	ec.CacheLock.Lock()
@@ -286,15 +293,17 @@ func (ec *ErrorsCache) Update(force bool) {
 	// Do not update cache if we're not forced to
 	// and if the update is not due yet
 	if !force && !isStale(ec.LastUpdated, now) {
-		return
+		return nil
 	}
 
 	// Call out to the unit and update object
 	if e, err := libcomfo.GetErrors(comfoConn); err == nil {
 		ec.Errors = e
 		ec.LastUpdated = now
+		return nil
 	} else {
 		slog.Error("Errors.Update() - Updating errors cache", "error", err)
+		return err
 	}
 }
 
-- 
2.43.0


From 8eb36dafe67ae07722ff1a7288b231bed58d876e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:45:14 +0000
Subject: [PATCH 10/18] fix: confirm a fan speed only with readings fetched
 after the change

When fetching the readings failed, UpdatePoll compared the ones from before
the change. It also read them without holding the cache's lock.
---
 comfoserver/caches.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/comfoserver/caches.go b/comfoserver/caches.go
index 7f3eda0..43d75dd 100644
--- a/comfoserver/caches.go
+++ b/comfoserver/caches.go
@@ -233,11 +233,15 @@ func (fc *FanCache) UpdatePoll(count int, tgtSpeed uint8) error {
 	// Poll updates from the fan cache until desired result
 	for i := 0; i < count; i++ {
 
-		fanCache.Update(true)
+		err := fanCache.Update(true)
 
-		// Return when target fan profile is in desired state
-		if fanCache.InPercent == inPct &&
-			fanCache.OutPercent == outPct {
+		fanCache.CacheLock.Lock()
+		curIn, curOut := fanCache.InPercent, fanCache.OutPercent
+		fanCache.CacheLock.Unlock()
+
+		// Return when target fan profile is in desired state,
+		// readings from before the update don't tell.
+		if err == nil && curIn == inPct && curOut == outPct {
 			return nil
 		}
 
-- 
2.43.0


From b431b75296a92420e1636377fa1bec07a78a7303 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:45:15 +0000
Subject: [PATCH 11/18] fix: hold the profiles cache lock while reading it in
 the fan setters

The cache worker writes the cache concurrently.
---
 comfoserver/server.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/comfoserver/server.go b/comfoserver/server.go
index 8c3f711..42b0f12 100644
--- a/comfoserver/server.go
+++ b/comfoserver/server.go
@@ -120,7 +120,9 @@ func (s *Server) SetFanSpeed(ctx context.Context, fst *rpc.FanSpeedTarget) (*rpc
 	defer fanLock.Unlock()
 
 	// Initialize speed values
+	fanProfilesCache.CacheLock.RLock()
 	origSpeed := fanProfilesCache.CurrentMode
+	fanProfilesCache.CacheLock.RUnlock()
 
 	// Apply action string to original speed.
 	// modifySpeed already returns a Twirp error, don't wrap.
@@ -193,16 +195,20 @@ func (s *Server) SetFanProfile(ctx context.Context, fpt *rpc.FanProfileTarget) (
 	fanLock.Lock()
 	defer fanLock.Unlock()
 
+	fanProfilesCache.CacheLock.RLock()
+	profiles := fanProfilesCache.FanProfiles
+	fanProfilesCache.CacheLock.RUnlock()
+
 	// Get original fan speed of selected mode into origSpeed
 	switch mode {
 	case 0:
-		origSpeed = fanProfilesCache.InAway
+		origSpeed = profiles.InAway
 	case 1:
-		origSpeed = fanProfilesCache.InLow
+		origSpeed = profiles.InLow
 	case 2:
-		origSpeed = fanProfilesCache.InMid
+		origSpeed = profiles.InMid
 	case 3:
-		origSpeed = fanProfilesCache.InHigh
+		origSpeed = profiles.InHigh
 	default:
 		panic(fmt.Sprintf("unknown fan profile %d", mode))
 	}
-- 
2.43.0


From 00db56c525005adabbe6f97b75ddbb36535c6470 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:45:15 +0000
Subject: [PATCH 12/18] fix: serialise SetComfortTemp from reading the cached
 temperature on

The cached value was read without the cache's lock and before taking tempLock,
so the decision could be based on a value another setter was just replacing.
---
 comfoserver/server.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/comfoserver/server.go b/comfoserver/server.go
index 42b0f12..f861dc9 100644
--- a/comfoserver/server.go
+++ b/comfoserver/server.go
@@ -72,7 +72,6 @@ func (s *Server) SetComfortTemp(ctx context.Context, ct *rpc.ComfortTarget) (*rp
 	var err error
 	var modified bool
 
-	origTemp := tempCache.Comfort
 	targetTemp := uint8(ct.ComfortTemp)
 
 	// Detect truncation
@@ -80,11 +79,15 @@ func (s *Server) SetComfortTemp(ctx context.Context, ct *rpc.ComfortTarget) (*rp
 		return nil, twirp.InvalidArgumentError("ComfortTemp", "is too large")
 	}
 
-	if uint8(origTemp) != targetTemp {
+	// Lock the temperature mutex before reading from the cache
+	tempLock.Lock()
+	defer tempLock.Unlock()
 
-		// Lock the temperature mutex
-		tempLock.Lock()
-		defer tempLock.Unlock()
+	tempCache.CacheLock.Lock()
+	origTemp := tempCache.Comfort
+	tempCache.CacheLock.Unlock()
+
+	if uint8(origTemp) != targetTemp {
 
 		err = libcomfo.SetComfort(targetTemp, comfoConn)
 		if err != nil {
-- 
2.43.0


From f8130d127eff69c124b4bd787205bd9309b86642 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:45:16 +0000
Subject: [PATCH 13/18] fix: compare the comfort temperature without wrapping
 negative values

The cached temperature can be as low as -20, which wraps around when converted
to uint8.
---
 comfoserver/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/comfoserver/server.go b/comfoserver/server.go
index f861dc9..1d064dc 100644
--- a/comfoserver/server.go
+++ b/comfoserver/server.go
@@ -87,7 +87,7 @@ func (s *Server) SetComfortTemp(ctx context.Context, ct *rpc.ComfortTarget) (*rp
 	origTemp := tempCache.Comfort
 	tempCache.CacheLock.Unlock()
 
-	if uint8(origTemp) != targetTemp {
+	if float32(origTemp) != float32(targetTemp) {
 
 		err = libcomfo.SetComfort(targetTemp, comfoConn)
 		if err != nil {
-- 
2.43.0


From 6f6ecb68152b971a7e86ce06379f4bd33676e51d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:45:17 +0000
Subject: [PATCH 14/18] fix: reject absolute fan speeds that don't fit a byte

Abs was truncated before the bounds check, eg. 257 set speed 1.
---
 comfoserver/helpers.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/comfoserver/helpers.go b/comfoserver/helpers.go
index 63cc4aa..f664597 100644
--- a/comfoserver/helpers.go
+++ b/comfoserver/helpers.go
@@ -23,7 +23,9 @@ func modifySpeed(baseSpeed uint8, target *rpc.FanSpeedTarget) (tgtSpeed uint8, e
 	}
 
 	// Determine Abs/Rel speed and target speed
-	if target.Abs != 0 {
+	if target.Abs > uint32(upperBound) {
+		return baseSpeed, twirp.InvalidArgumentError("FanSpeed", fmt.Sprintf("value '%v' out of range", target.Abs))
+	} else if target.Abs != 0 {
 		tgtSpeed = uint8(target.Abs)
 	} else if target.Rel {
 		tgtSpeed = baseSpeed + 1
-- 
2.43.0


From ee58fbc6092b5445ea141435a1251fd6828d61cb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:45:18 +0000
Subject: [PATCH 15/18] fix: reject profile modes and percentages that don't
 fit a byte

Both were truncated before their bounds checks, eg. mode 257 changed profile 1.
---
 comfoserver/server.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/comfoserver/server.go b/comfoserver/server.go
index 1d064dc..2231a51 100644
--- a/comfoserver/server.go
+++ b/comfoserver/server.go
@@ -169,11 +169,9 @@ func (s *Server) SetFanSpeed(ctx context.Context, fst *rpc.FanSpeedTarget) (*rpc
 func (s *Server) SetFanProfile(ctx context.Context, fpt *rpc.FanProfileTarget) (*rpc.FanProfileModified, error) {
 
 	start := time.Now()
-	mode := uint8(fpt.GetMode())
-	tgtSpeed := uint8(fpt.GetTargetSpeed())
 
 	// Make sure speed mode is valid (1-4).
-	if mode < 1 || mode > 4 {
+	if fpt.GetMode() < 1 || fpt.GetMode() > 4 {
 		return nil, twirp.InvalidArgumentError("Mode", "(profile) out of range, expected 1-4")
 	}
 
@@ -182,14 +180,15 @@ func (s *Server) SetFanProfile(ctx context.Context, fpt *rpc.FanProfileTarget) (
 	// as well as the fan profile ID with integers ranging 1-4.
 	// However, the serial protocol with the unit still expects 0-3 for modifying profiles,
 	// so decrease the mode ID by one here after checking the input above.
-	mode--
+	mode := uint8(fpt.GetMode()) - 1
 
 	// Make sure the target speed is within range (percent).
 	// The unit allows values as low as 0 to be set, but will never ramp the fan as low.
 	// In order to avoid discrepancies, require speeds to range between 15 and 100.
-	if tgtSpeed < 15 || tgtSpeed > 100 {
+	if fpt.GetTargetSpeed() < 15 || fpt.GetTargetSpeed() > 100 {
 		return nil, twirp.InvalidArgumentError("TargetSpeed", "out of range, expected 15-100 (percentage)")
 	}
+	tgtSpeed := uint8(fpt.GetTargetSpeed())
 
 	var modified bool
 	var origSpeed uint8
-- 
2.43.0


From 800e252b3d2d8c494e2cf2593b64a44b7d37a4ab Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:45:18 +0000
Subject: [PATCH 16/18] fix: use the event loop given to Comfo()

An explicitly given loop was ignored, all async methods failed with an
AttributeError.
---
 python/comfo/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/comfo/client.py b/python/comfo/client.py
index 679cc8c..d778e63 100644
--- a/python/comfo/client.py
+++ b/python/comfo/client.py
@@ -26,10 +26,12 @@ class Comfo:
 
         if loop is None:
             try:
-                self.loop = asyncio.get_running_loop()
+                loop = asyncio.get_running_loop()
             except RuntimeError:
                 pass
 
+        self.loop = loop
+
     def ping(self) -> bool:
         """Run a simple get query against the unit to verify connectivity."""
         self.get_bootinfo()
-- 
2.43.0


From eb45ed8d5a44e507162452dedcf07a5565a46a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:14 +0000
Subject: [PATCH 17/18] fix: leave time to answer an RPC that waits for the
 unit

An RPC that waits for fan readings to follow, or for several queries that
time out, was cut off by the HTTP server's write time-out and the client got
an empty reply instead of the error.
---
 comfo.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/comfo.go b/comfo.go
index b3dfc40..7049f45 100644
--- a/comfo.go
+++ b/comfo.go
@@ -60,9 +60,11 @@ func main() {
 	router := NewRouter()
 
 	srv := &http.Server{
-		Handler:      router,
-		Addr:         viper.GetString(configListen),
-		WriteTimeout: 5 * time.Second,
+		Handler: router,
+		Addr:    viper.GetString(configListen),
+		// Setting the fan speed takes up to 17 seconds before it's known to have
+		// failed, leave time to answer.
+		WriteTimeout: 30 * time.Second,
 		ReadTimeout:  5 * time.Second,
 	}
 
-- 
2.43.0


From de209a2e3ab8a08ee4a9f68b0e064658d3854cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:01 +0000
Subject: [PATCH 18/18] fix: don't take bytes within a packet for the end
 sequence

---
 libcomfo/conn.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/libcomfo/conn.go b/libcomfo/conn.go
index 99cdc13..eb2e8c1 100644
--- a/libcomfo/conn.go
+++ b/libcomfo/conn.go
@@ -77,6 +77,10 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 					char := data[i+1]
 					switch char {
 					case delim:
+						// The same bytes may occur within a packet
+						if delim == end && inPacket(data, i) {
+							continue
+						}
 						// Advance the pointer past the 2nd command character
 						return i + 2, data[:i], nil
 					default:
@@ -133,6 +137,21 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 	return UnmarshalPacket(pr)
 }
 
+// inPacket reports whether the escape character data[i] is part of the packet
+// data starts with, rather than of the sequence ending it. This is the case in
+// the packet's header, or when it completes an escaped 0x07 in the payload.
+func inPacket(data []byte, i int) bool {
+
+	// The header starts with the high byte of the command, always zero
+	if i <= lenOffset {
+		return data[0] == 0x00
+	}
+
+	// The payload ends where its length is reached, followed by the checksum
+	return i > dataOffset && data[i-1] == esc &&
+		len(unescapeData(data[dataOffset:i-1])) < int(data[lenOffset])
+}
+
 // WritePacket serializes a Packet into wire representation, wrapped
 // in start and end sequences, and writes to the given connection.
 func WritePacket(in Packet, conn io.Writer) (out bool, err error) {
-- 
2.43.0

