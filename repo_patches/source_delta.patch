From 5aa0b0a296405755c2655bfacbd9b181fbefe5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 01/32] fix: treat proprietary sentences with an empty or
 truncated msgId field as unknown

NMEAReader.parse() let an IndexError escape for e.g. '$PUBX*xx', '$PASHR,*xx'
or '$PQTMSN*xx', instead of treating the sentence as unknown.
---
 src/pynmeagps/nmeamessage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 6532411..8b0761b 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -330,7 +330,7 @@ class NMEAMessage:
                     dic = nms.NMEA_PAYLOADS_SET[key]
                 else:
                     dic = nmg.NMEA_PAYLOADS_GET[key]
-        except KeyError as err:  # unknown msgid
+        except (KeyError, IndexError) as err:  # unknown msgid or empty payload
             erm = f"Unknown msgID {key} msgmode {('GET', 'SET', 'POLL')[self._mode]}."
             if self._validate & nmt.VALMSGID:
                 raise nme.NMEAMessageError(erm) from err
-- 
2.43.0


From aade7624467690ba330d485a78ca75ceff041214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:34 +0000
Subject: [PATCH 02/32] fix: make proprietary POLL definitions held in
 NMEA_PAYLOADS_POLL reachable

UBX, ASHR, GRM, FUG, GPPADV and TNL poll definitions are published in
NMEA_PAYLOADS_POLL, but only NMEA_PAYLOADS_POLL_PROP was consulted.
---
 src/pynmeagps/nmeamessage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 8b0761b..f4ad976 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -364,7 +364,9 @@ class NMEAMessage:
             key = self._get_dict_qtmacknak(key, self._mode)
 
         if self._mode == nmt.POLL:
-            return nmpp.NMEA_PAYLOADS_POLL_PROP[key]
+            if key in nmpp.NMEA_PAYLOADS_POLL_PROP:
+                return nmpp.NMEA_PAYLOADS_POLL_PROP[key]
+            return nmp.NMEA_PAYLOADS_POLL[key]
         if self._mode == nmt.SET:
             return nmsp.NMEA_PAYLOADS_SET_PROP[key]
         return nmgp.NMEA_PAYLOADS_GET_PROP[key]
-- 
2.43.0


From f6461069d6679d5665b8e460bd92dc32c29c6192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:37 +0000
Subject: [PATCH 03/32] fix: find payload definitions whose message id includes
 lower case

The unconditional upper() made the published TNLGGKx definition, and any
user-defined id containing lower case characters, unreachable.
---
 src/pynmeagps/nmeamessage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index f4ad976..61dcb1d 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -317,7 +317,9 @@ class NMEAMessage:
                         f"P{key} message definitions must "
                         "include payload or msgId keyword arguments."
                     )
-            key = key.upper()
+            # some published and user-defined ids include lower case characters
+            if key not in nmt.NMEA_MSGIDS_PROP and key not in self._userdefined:
+                key = key.upper()
 
             if self._defsource == nmt.DEF_PROP:  # proprietary
                 dic = self._get_dict_prop(key, **kwargs)
-- 
2.43.0


From c0f74b864b4ed3644b17da6188d0982a28b5e7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:40 +0000
Subject: [PATCH 04/32] fix: keep the raw payload of PSSNSNC messages intact

Stripping the group delimiters from the payload itself (and from the
caller's list) meant serialize() returned content which no longer matched
the sentence or its checksum. Only strip them from the attribute values.
---
 src/pynmeagps/nmeamessage.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 61dcb1d..73de18e 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -240,11 +240,9 @@ class NMEAMessage:
             # all attribute values have been provided
             if self._streaming:
                 # remove group delimiters in proprietary PSSNSNC message
-                if self.identity == "PSSNSNC":
-                    self._payload[pindex] = (
-                        self._payload[pindex].replace("[", "").replace("]", "")
-                    )
                 val = self._payload[pindex]
+                if self.identity == "PSSNSNC":
+                    val = val.replace("[", "").replace("]", "")
                 val = self.str2val(val, att)
             # some attribute values have been provided,
             # the rest will be set to a nominal value
-- 
2.43.0


From b6490b57df3013a71733b357297a48332b158404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 05/32] fix: generate a checksum for messages without a payload
 definition

A message created from a payload list whose definition is unknown was
serialized with a literal '*None' checksum.
---
 src/pynmeagps/nmeamessage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 73de18e..bd0c6c4 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -128,7 +128,7 @@ class NMEAMessage:
             if pdict is None:  # definition not yet implemented
                 if "payload" in kwargs:
                     self._set_attribute_nominal(kwargs["payload"])
-                return
+                pdict = {}
             for key in pdict.keys():  # process each attribute in dict
                 pindex, gindex = self._set_attribute(
                     pindex, pdict, key, gindex, **kwargs
-- 
2.43.0


From f129727e4da120dd714c0138fc2f1e712de9674a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 06/32] fix: close the remaining ways of mutating an
 NMEAMessage

The payload list was shared with the caller (constructor argument and
payload property) and attributes could be deleted, so a message could be
changed after initialisation without its attributes or checksum following.
---
 src/pynmeagps/nmeamessage.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index bd0c6c4..7088187 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -122,7 +122,7 @@ class NMEAMessage:
         key = ""
 
         try:
-            self._payload = kwargs.get("payload", [])
+            self._payload = list(kwargs.get("payload", []))
             # self._checksum = kwargs.get("checksum", None)
             pdict = self._get_dict(**kwargs)  # get payload definition dict
             if pdict is None:  # definition not yet implemented
@@ -623,6 +623,21 @@ class NMEAMessage:
 
         super().__setattr__(name, value)
 
+    def __delattr__(self, name):
+        """
+        Override delattr to make object immutable after instantiation.
+
+        :param str name: attribute name
+        :raises: NMEAMessageError
+        """
+
+        if self._immutable:
+            raise nme.NMEAMessageError(
+                f"Object is immutable. Deletion of {name} not permitted after initialisation."
+            )
+
+        super().__delattr__(name)
+
     def serialize(self) -> bytes:
         """
         Serialize message.
@@ -698,7 +713,7 @@ class NMEAMessage:
         :rtype: list
         """
 
-        return self._payload
+        return list(self._payload)
 
     @property
     def checksum(self) -> str | NoneType:
-- 
2.43.0


From 78eb6e5907d079513d76d80eb9774f1fbaac826f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:20 +0000
Subject: [PATCH 07/32] fix: bound repeating groups by the content actually
 received

A sentence with a corrupt or hostile repeat count (e.g. PUBX,03,1000000000)
kept parse() looping for minutes after the payload was exhausted.
---
 src/pynmeagps/nmeamessage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 7088187..2c8c905 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -204,6 +204,8 @@ class NMEAMessage:
         # recursively process each group attribute,
         # incrementing the payload index and group index as we go
         for i in range(rng):
+            if self._streaming and pindex >= len(self._payload):
+                break  # no further content, regardless of stated number of repeats
             gindex[-1] = i + 1
             for key1 in attd.keys():
                 pindex, gindex = self._set_attribute(
-- 
2.43.0


From b795faf57ef950f5f97bf0007eaa796c97cc5700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:24 +0000
Subject: [PATCH 08/32] fix: parse DTL (ddmmyyyy) dates

str2val() did not handle the DTL attribute type, so no LR2 sentence with a
date could be parsed.
---
 src/pynmeagps/nmeamessage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 2c8c905..18dee6d 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -749,7 +749,7 @@ class NMEAMessage:
         elif att == nmt.DE:  # decimal
             if vals != "":
                 val = float(vals)
-        elif att in (nmt.DT, nmt.DM):  # date
+        elif att in (nmt.DT, nmt.DTL, nmt.DM):  # date
             val = date2utc(vals, att)
         elif att == nmt.IN:  # integer
             if vals != "":
-- 
2.43.0


From 2e1399a1ca24f90a4912c1a8e815b0d74e98b8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 09/32] fix: never use exponent notation in generated decimal
 fields

Small or large decimal attributes were written as e.g. '1e-05', which is not
a valid NMEA numeric field.
---
 src/pynmeagps/nmeamessage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 18dee6d..339ff14 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -12,6 +12,7 @@ Created on 04 Mar 2021
 
 import struct
 from datetime import datetime, timezone
+from decimal import Decimal
 from logging import getLogger
 from types import NoneType
 from typing import Any, Literal
@@ -783,6 +784,8 @@ class NMEAMessage:
             vals = str(val)
         elif att == nmt.DE:
             vals = str(val)
+            if isinstance(val, float) and "e" in vals:
+                vals = f"{Decimal(vals):f}"  # no exponents in NMEA
         elif att == nmt.IN:
             vals = str(val)
         elif att in (nmt.LA, nmt.LN):
-- 
2.43.0


From 10afd5d2018e41042b991398d60ebc6c478d2909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 10/32] fix: carry rounded minutes and seconds in degree
 conversions

ddd2dmm(), deg2dmm() and deg2dms() could return 60 minutes or 60 seconds
(e.g. '5260.00000' for 52.99999999999), and deg2dmm() and deg2dms() used
exponent notation for very small values, which dms2deg() rejects.
---
 src/pynmeagps/nmeahelpers.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 8abfaf5..0299b97 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -203,6 +203,8 @@ def ddd2dmm(degrees: float, att: Literal["LA", "LN"], hpmode: bool = False) -> s
     try:
         degrees = abs(degrees)
         degrees, minutes = divmod(degrees * 60, 60)
+        if round(degrees * 100 + minutes, 7 if hpmode else 5) % 100 >= 60:
+            degrees, minutes = degrees + 1, 0.0  # carry rounded minutes
         degrees = int(degrees * 100)
         if hpmode:
             if att == LA:
@@ -235,11 +237,16 @@ def deg2dmm(degrees: float, att: Literal["LA", "LN"]) -> str:
         negative = degrees < 0
         degrees = abs(degrees)
         degrees, minutes = divmod(degrees * 60, 60)
+        minutes = round(minutes, 7)
+        if minutes >= 60:  # carry rounded minutes
+            degrees, minutes = degrees + 1, 0.0
+        if 0 < minutes < 1e-4:  # avoid exponent notation
+            minutes = f"{minutes:.7f}".rstrip("0")
         if negative:
             sfx = "S" if att == LA else "W"
         else:
             sfx = "N" if att == LA else "E"
-        return f"{int(degrees)}\u00b0{round(minutes,7)}\u2032{sfx}"
+        return f"{int(degrees)}\u00b0{minutes}\u2032{sfx}"
     except (TypeError, ValueError):
         return ""
 
@@ -260,12 +267,17 @@ def deg2dms(degrees: float, att: Literal["LA", "LN"]) -> str:
         negative = degrees < 0
         degrees = abs(degrees)
         minutes, seconds = divmod(degrees * 3600, 60)
+        seconds = round(seconds, 5)
+        if seconds >= 60:  # carry rounded seconds
+            minutes, seconds = minutes + 1, 0.0
+        if 0 < seconds < 1e-4:  # avoid exponent notation
+            seconds = f"{seconds:.5f}".rstrip("0")
         degrees, minutes = divmod(minutes, 60)
         if negative:
             sfx = "S" if att == LA else "W"
         else:
             sfx = "N" if att == LA else "E"
-        return f"{int(degrees)}\u00b0{int(minutes)}\u2032{round(seconds,5)}\u2033{sfx}"
+        return f"{int(degrees)}\u00b0{int(minutes)}\u2032{seconds}\u2033{sfx}"
     except (TypeError, ValueError):
         return ""
 
-- 
2.43.0


From ee07fd184ca32b9300c43b7069caceee6f6001e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 11/32] fix: do not repeat the sign of negative altitudes in
 llh2iso6709

---
 src/pynmeagps/nmeahelpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 0299b97..0b432dd 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -658,7 +658,7 @@ def llh2iso6709(lat: float, lon: float, alt: float, crs: str = WGS84) -> str:
     """
 
     lati, loni, alti = ["-" if c < 0 else "+" for c in (lat, lon, alt)]
-    return f"{lati}{abs(lat)}{loni}{abs(lon)}{alti}{alt}CRS{crs}/"
+    return f"{lati}{abs(lat)}{loni}{abs(lon)}{alti}{abs(alt)}CRS{crs}/"
 
 
 def msgdesc(msgID: str) -> str:
-- 
2.43.0


From 9a868fbc9a45fb629d2593e77ee9f45eb689db77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:30 +0000
Subject: [PATCH 12/32] fix: avoid math domain error in haversine for antipodal
 coordinates

---
 src/pynmeagps/nmeahelpers.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 0b432dd..397595a 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -498,9 +498,8 @@ def haversine(
     """
 
     phi1, lambda1, phi2, lambda2 = [c * pi / 180 for c in (lat1, lon1, lat2, lon2)]
-    dist = radius * acos(
-        cos(phi2 - phi1) - cos(phi1) * cos(phi2) * (1 - cos(lambda2 - lambda1))
-    )
+    cosd = cos(phi2 - phi1) - cos(phi1) * cos(phi2) * (1 - cos(lambda2 - lambda1))
+    dist = radius * acos(max(-1.0, min(1.0, cosd)))  # allow for rounding
 
     return dist
 
-- 
2.43.0


From 6389a6955280a10ea2e6a47946f8ca584858dfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:33 +0000
Subject: [PATCH 13/32] fix: measure planar distance the short way across the
 antimeridian

---
 src/pynmeagps/nmeahelpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 397595a..51a995b 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -702,7 +702,8 @@ def planar(
     """
 
     phi1, lambda1, phi2, lambda2 = [c * pi / 180 for c in (lat1, lon1, lat2, lon2)]
-    dlambda = (lambda2 - lambda1) * cos(phi1)
+    dlambda = (lambda2 - lambda1 + pi) % (2 * pi) - pi  # allow for antimeridian
+    dlambda = dlambda * cos(phi1)
     dphi = phi2 - phi1
     dist = radius * sqrt(dlambda * dlambda + dphi * dphi)
 
-- 
2.43.0


From 0334f382035afd410f7a1bd928dbb35718fcc62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:36 +0000
Subject: [PATCH 14/32] fix: calculate checksum over the transmitted bytes

The checksum was calculated over unicode code points rather than the encoded
bytes, so valid sentences with non-ASCII text were rejected and generated
ones could carry a wrong (or more than two digit) checksum.
---
 src/pynmeagps/nmeahelpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 51a995b..751c9f0 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -133,8 +133,8 @@ def calc_checksum(content: str) -> str:
     """
 
     cksum = 0
-    for sub in content:
-        cksum ^= ord(sub)
+    for sub in content.encode("utf-8", "surrogatepass"):
+        cksum ^= sub
     return f"{cksum:02X}"
 
 
-- 
2.43.0


From ae9271c3919fd44fec883b00c87debca618d9b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:04 +0000
Subject: [PATCH 15/32] fix: derive week number and time of week from the same
 GNSS time

The week number ignored the leap second offset, so in the last seconds of
each UTC week utc2wnotow() returned tow values of 604800000 or more with the
previous week number. Float arithmetic also lost a millisecond at times.
---
 src/pynmeagps/nmeahelpers.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 751c9f0..1fec0d8 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -13,7 +13,7 @@ Created on 04 Mar 2021
 
 import re
 from datetime import datetime, timedelta, timezone
-from math import acos, asin, atan2, cos, floor, pi, sin, sqrt
+from math import acos, asin, atan2, cos, pi, sin, sqrt
 from types import NoneType
 from typing import Literal
 
@@ -785,10 +785,9 @@ def utc2wnotow(
         rollover = 1024
 
     ls = 0 if gnss == GLO else leapsecond(utc, gnss)
-    ts = ((utc - ep0).total_seconds() + ls) * 1000
-    wno = floor((utc - ep0).days / 7)
+    ts = (utc - ep0 + timedelta(seconds=ls)) // timedelta(milliseconds=1)
+    wno, tow = divmod(ts, 604800000)
     wnom = wno % rollover
-    tow = int(ts - wno * 604800000)
     return wnom if modwno else wno, tow, ls
 
 
-- 
2.43.0


From fe559b84edaa987166bb1930b450d6448cfbac04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 16/32] fix: apply the leap second offset effective at the UTC
 epoch in wnotow2utc

For the seconds after a leap second boundary in GNSS time which are still
before it in UTC, the offset that had not yet taken effect was applied.
---
 src/pynmeagps/nmeahelpers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 1fec0d8..221237e 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -854,7 +854,11 @@ def wnotow2utc(
     while True:
         utc = ep0 + timedelta(days=(wno + (i * rollover)) * 7, milliseconds=tow)
         if gnss != GLO:  # apply leapsecond offset
-            lps = leapsecond(utc, gnss) if ls is None else ls
+            if ls is None:  # leapsecond effective at resultant UTC epoch
+                lps = leapsecond(utc, gnss)
+                lps = leapsecond(utc - timedelta(seconds=lps), gnss)
+            else:
+                lps = ls
             utc -= timedelta(seconds=lps)
         if not autoroll:
             break
-- 
2.43.0


From 93695557a75f65cf2f249cf9d2932182b300c380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 17/32] fix: do not lose chunked data when a segment ends at a
 chunk terminator

If a received segment ended immediately before, or in the middle of, the CRLF
which terminates a chunk, the rest of the next segment was discarded.
---
 src/pynmeagps/socketwrapper.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pynmeagps/socketwrapper.py b/src/pynmeagps/socketwrapper.py
index 18358ed..68c7a5a 100644
--- a/src/pynmeagps/socketwrapper.py
+++ b/src/pynmeagps/socketwrapper.py
@@ -161,6 +161,9 @@ class SocketWrapper:
                 # premature end of length bytes
                 partial = length_bytes
                 break
+            if length_bytes == b"\r\n":
+                # terminator of chunk completed in previous segment
+                continue
             try:
                 chunk_length = int(length_bytes.strip(), 16)
             except ValueError:
@@ -184,10 +187,15 @@ class SocketWrapper:
                     # parser will discard data
                 chunks += chunk
 
-            instream.readline()
+            partial = instream.readline()
+            if partial[-1:] == b"\n":
+                partial = b""
             if chunk_length == 0:
                 # final chunk
                 break
+            if partial != b"":
+                # premature end of chunk terminator
+                break
 
         return chunks, partial
 
-- 
2.43.0


From 866fbcde1eb96cf3a92c629ff7b855a67cd618d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 18/32] fix: do not lose a valid NMEA sentence which follows a
 stray dollar byte

A non-NMEA byte 0x24 immediately before a sentence ('$$GNGLL...') was taken
as the header of an unknown protocol together with the sentence's own '$'.
---
 src/pynmeagps/nmeareader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pynmeagps/nmeareader.py b/src/pynmeagps/nmeareader.py
index 8721277..9177692 100644
--- a/src/pynmeagps/nmeareader.py
+++ b/src/pynmeagps/nmeareader.py
@@ -137,6 +137,8 @@ class NMEAReader:
                 if byte1 != b"\x24":  # not NMEA, discard and continue
                     continue
                 byte2 = self._read_bytes(1)  # read 2nd byte to confirm protocol
+                while byte2 == b"\x24" and not self._nmea_only:
+                    byte2 = self._read_bytes(1)  # skip duplicate 1st byte
                 bytehdr = byte1 + byte2
                 if bytehdr in NMEA_HDR:  # it's a NMEA message
                     byten = self._read_line()  # NMEA protocol is CRLF terminated
-- 
2.43.0


From 5060f1b85ff2e33688a28e88aa0b0a77e02ea1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:52 +0000
Subject: [PATCH 19/32] fix: make NMEAReader.read() safe to call from several
 threads

read() is documented as thread-safe, but two threads sharing a reader took
alternate pieces of the same sentence from the stream.
---
 src/pynmeagps/nmeareader.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/pynmeagps/nmeareader.py b/src/pynmeagps/nmeareader.py
index 9177692..8484699 100644
--- a/src/pynmeagps/nmeareader.py
+++ b/src/pynmeagps/nmeareader.py
@@ -27,6 +27,7 @@ Created on 4 Mar 2021
 
 from logging import getLogger
 from socket import socket
+from threading import RLock
 from types import FunctionType, NoneType
 from typing import Literal
 
@@ -96,6 +97,7 @@ class NMEAReader:
         self._mode = msgmode
         self._userdefined = userdefined
         self._logger = getLogger(__name__)
+        self._lock = RLock()
 
     def __iter__(self):
         """Iterator."""
@@ -127,6 +129,18 @@ class NMEAReader:
 
         """
 
+        with self._lock:  # one sentence at a time if reader is shared by threads
+            return self._read_message()
+
+    def _read_message(self) -> tuple[bytes | NoneType, NMEAMessage | NoneType]:
+        """
+        Read and parse next message from the stream buffer.
+
+        :return: tuple of (raw_data as bytes, parsed_data as NMEAMessage)
+        :rtype: tuple[bytes | NoneType, NMEAMessage | NoneType]
+
+        """
+
         parsing = True
         raw_data = None
         parsed_data = None
-- 
2.43.0


From fbc3ff25ba8c8ae56b611fd9829f0efd0233cf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 20/32] fix: accept attribute names containing underscores in
 indeterminate groups

Creating e.g. a PQTMSENMSG message from its 'sensor_info_01' attributes failed,
because groupsize() took everything after the first underscore as the index.
---
 src/pynmeagps/nmeahelpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 221237e..13cee21 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -469,8 +469,8 @@ def groupsize(**kwargs) -> int:
 
     idx = 0
     for a in kwargs:
-        ai = a.split("_", 1)
-        if len(ai) > 1:
+        ai = a.rsplit("_", 1)
+        if len(ai) > 1 and ai[1].isdigit():
             idx = max(idx, int(ai[1]))
     return idx
 
-- 
2.43.0


From 9a4ceae5f3b465c709c29c775df955808a81b993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 21/32] fix: recognise OK and ERROR responses to all Quectel
 QTM commands

Responses to QTMCFGUART, QTMCFGMSGRATE, QTMCFGPPS and QTMSN were not matched
against the OK / ERROR response layouts, so the error code was returned as
e.g. the port id.
---
 src/pynmeagps/nmeamessage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 339ff14..72a5f9a 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -349,6 +349,8 @@ class NMEAMessage:
         :rtype: dict
         """
 
+        if key[0:3] == "QTM":  # OK or ERROR response applies to any command
+            key = self._get_dict_qtmacknak(key, self._mode)
         if key == "QTMCFGGEOFENCE":
             key = self._get_dict_qtmcfggeofence(key, self._mode, **kwargs)
         elif key == "QTMCFGMSGRATE":
@@ -363,8 +365,6 @@ class NMEAMessage:
             key = self._get_dict_qtmsn(key, self._mode, **kwargs)
         elif key == "STMDRSENMSG":
             key = self._get_dict_stmdrsenmsg(key, self._mode, **kwargs)
-        elif key[0:3] == "QTM":
-            key = self._get_dict_qtmacknak(key, self._mode)
 
         if self._mode == nmt.POLL:
             if key in nmpp.NMEA_PAYLOADS_POLL_PROP:
-- 
2.43.0


From 4d5e82d2b3c0256976ed1d2b044efed9827a092c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 22/32] fix: make the published QTMCFGGEOFENCE_DIS response
 layout reachable

The 'geofence disabled' variant was only ever selected for SET messages.
---
 src/pynmeagps/nmeamessage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 72a5f9a..46a2900 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -497,6 +497,8 @@ class NMEAMessage:
         elif mode == nmt.GET:
             if (py and lp == 13) or (not py and l1):
                 key += "_POLY"
+            elif (py and lp == 3) or (not py and kwargs.get("geofencemode", 1) == 0):
+                key += "_DIS"
             elif lp in (1, 2):
                 key = self._get_dict_qtmacknak(key, mode)
         return key
-- 
2.43.0


From e32fa7758f61f78e2489f9baeedf9d249400b08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:10 +0000
Subject: [PATCH 23/32] fix: size an indeterminate group by its own attributes
 only

When creating a message, attributes of another group (or any other attribute
with a numeric suffix) were counted as repeats of the indeterminate group.
---
 src/pynmeagps/nmeamessage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 46a2900..3671f6c 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -199,7 +199,9 @@ class NMEAMessage:
             if self._streaming:
                 rng = self._calc_num_repeats(attd, self._payload, pindex, pindexend)
             else:
-                rng = groupsize(**kwargs)
+                rng = groupsize(
+                    **{k: v for k, v in kwargs.items() if k.rsplit("_", 1)[0] in attd}
+                )
         else:  # number of repeats is defined in named attribute
             rng = getattr(self, numr)
         # recursively process each group attribute,
-- 
2.43.0


From 6c5e6d2a45f56b232e389fa9a8d76e9f6f64f7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 24/32] fix: never use exponent notation in llh2iso6709

---
 src/pynmeagps/nmeahelpers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 13cee21..ca4eea2 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -13,6 +13,7 @@ Created on 04 Mar 2021
 
 import re
 from datetime import datetime, timedelta, timezone
+from decimal import Decimal
 from math import acos, asin, atan2, cos, pi, sin, sqrt
 from types import NoneType
 from typing import Literal
@@ -657,7 +658,9 @@ def llh2iso6709(lat: float, lon: float, alt: float, crs: str = WGS84) -> str:
     """
 
     lati, loni, alti = ["-" if c < 0 else "+" for c in (lat, lon, alt)]
-    return f"{lati}{abs(lat)}{loni}{abs(lon)}{alti}{abs(alt)}CRS{crs}/"
+    # ISO6709 does not support exponent notation
+    lat, lon, alt = [f"{Decimal(str(abs(c))):f}" for c in (lat, lon, alt)]
+    return f"{lati}{lat}{loni}{lon}{alti}{alt}CRS{crs}/"
 
 
 def msgdesc(msgID: str) -> str:
-- 
2.43.0


From d93d59dbcbf238bb745b98eefb5ebddb8c428c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:21 +0000
Subject: [PATCH 25/32] fix: zero-pad hex2str results of ten or more digits

---
 src/pynmeagps/nmeahelpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index ca4eea2..b97b747 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -516,7 +516,7 @@ def hex2str(num: int, padding: int = 0) -> str:
     :rtype: str
     """
 
-    pad = f"{padding:02d}" if padding else ""
+    pad = f"0{padding:d}" if padding else ""
     return f"{num:{pad}x}".upper()
 
 
-- 
2.43.0


From d346d323d9a9d0791aec6ad06d7a4ea22e15863e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:14 +0000
Subject: [PATCH 26/32] fix: deliver a sentence which follows a stray dollar
 byte in nmeaonly mode too

---
 src/pynmeagps/nmeareader.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pynmeagps/nmeareader.py b/src/pynmeagps/nmeareader.py
index 8484699..c35d658 100644
--- a/src/pynmeagps/nmeareader.py
+++ b/src/pynmeagps/nmeareader.py
@@ -97,6 +97,7 @@ class NMEAReader:
         self._mode = msgmode
         self._userdefined = userdefined
         self._logger = getLogger(__name__)
+        self._unread = b""  # 2nd byte of unknown header, if it may start a message
         self._lock = RLock()
 
     def __iter__(self):
@@ -147,12 +148,11 @@ class NMEAReader:
 
         while parsing:  # loop until end of valid NMEA message or EOF
             try:
-                byte1 = self._read_bytes(1)  # read 1st byte
+                byte1 = self._unread or self._read_bytes(1)  # read 1st byte
+                self._unread = b""
                 if byte1 != b"\x24":  # not NMEA, discard and continue
                     continue
                 byte2 = self._read_bytes(1)  # read 2nd byte to confirm protocol
-                while byte2 == b"\x24" and not self._nmea_only:
-                    byte2 = self._read_bytes(1)  # skip duplicate 1st byte
                 bytehdr = byte1 + byte2
                 if bytehdr in NMEA_HDR:  # it's a NMEA message
                     byten = self._read_line()  # NMEA protocol is CRLF terminated
@@ -165,6 +165,8 @@ class NMEAReader:
                     )
                     parsing = False
                 else:  # it's not a NMEA message (UBX or something else)
+                    if byte2 == byte1:  # may be 1st byte of next message
+                        self._unread = byte2
                     if self._nmea_only:  # raise error and quit
                         raise nme.NMEAParseError(f"Unknown protocol header {bytehdr}.")
 
-- 
2.43.0


From 7b9de861230c5a7f28df18ccf869c0c53a02be68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:02 +0000
Subject: [PATCH 27/32] fix: treat a chunk length which is negative or too
 large as invalid

---
 src/pynmeagps/socketwrapper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pynmeagps/socketwrapper.py b/src/pynmeagps/socketwrapper.py
index 68c7a5a..58573e8 100644
--- a/src/pynmeagps/socketwrapper.py
+++ b/src/pynmeagps/socketwrapper.py
@@ -15,6 +15,7 @@ Created on 12 Feb 2023
 import socket
 from io import BytesIO
 from logging import getLogger
+from sys import maxsize
 from zlib import MAX_WBITS, decompress
 from zlib import error as zlibError
 
@@ -166,6 +167,8 @@ class SocketWrapper:
                 continue
             try:
                 chunk_length = int(length_bytes.strip(), 16)
+                if not 0 <= chunk_length <= maxsize:
+                    raise ValueError(f"Invalid chunk length {chunk_length}")
             except ValueError:
                 # residual bytes at beginning of stream
                 break
-- 
2.43.0


From e8dca48f2211f6ad3839df7417db5f839ddac9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:08 +0000
Subject: [PATCH 28/32] fix: message keeps no reference to mutable attribute
 values

An attribute value given as a list was stored as is: changing the list
afterwards changed the attributes and string form of the message, which
is documented to be immutable.
---
 src/pynmeagps/nmeamessage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 3671f6c..09bf913 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -11,6 +11,7 @@ Created on 04 Mar 2021
 # pylint: disable=invalid-name, too-many-instance-attributes, too-many-positional-arguments
 
 import struct
+from collections.abc import Hashable
 from datetime import datetime, timezone
 from decimal import Decimal
 from logging import getLogger
@@ -266,6 +267,8 @@ class NMEAMessage:
                     val = kwargs.get(keyr, self.nomval(att, self.msgmode))
                 vals = self.val2str(val, att, self._hpnmeamode)
                 self._payload.append(vals)
+                if not isinstance(val, Hashable):
+                    val = vals  # don't keep reference to mutable object
 
         except (
             IndexError
-- 
2.43.0


From 7c9550505dd01680d290f849668b0fd2f5b313a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:38 +0000
Subject: [PATCH 29/32] fix: date2str zero-pads years before 1000

---
 src/pynmeagps/nmeahelpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index b97b747..c65f563 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -154,7 +154,8 @@ def date2str(dat: datetime.date, form: Literal["DT", "DTL", "DM"] = DT) -> str:
         if form == DM:
             dform = "%m%d%y"
         elif form == DTL:
-            dform = "%d%m%Y"
+            # %Y is not zero-padded on all platforms
+            return dat.strftime("%d%m") + f"{dat.year:04d}"
         else:
             dform = "%d%m%y"
         return dat.strftime(dform)
-- 
2.43.0


From 7f2d54586c27abb6cd6b70850b537644467b9fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:24 +0000
Subject: [PATCH 30/32] fix: wnotow2utc rolls over to the latest date also
 within the leap second difference of now

---
 src/pynmeagps/nmeahelpers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index c65f563..c235ab4 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -854,6 +854,7 @@ def wnotow2utc(
     wno = wno % rollover if modwno else wno
     tow %= 604800000
     current = datetime.now(timezone.utc)
+    latest = None
     i = 0
     while True:
         utc = ep0 + timedelta(days=(wno + (i * rollover)) * 7, milliseconds=tow)
@@ -864,9 +865,10 @@ def wnotow2utc(
             else:
                 lps = ls
             utc -= timedelta(seconds=lps)
-        if not autoroll:
+        if latest is not None and utc > current:
             break
-        if utc + timedelta(days=rollover * 7) > current:
+        latest = utc
+        if not autoroll:
             break
         i += 1
-    return utc
+    return latest
-- 
2.43.0


From a079cd7fe94e5227ba40d7528879076eb81a4834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:35 +0000
Subject: [PATCH 31/32] fix: arithmetic errors while setting attributes are
 reported as NMEATypeError

Decimal NaN as latitude or longitude raised decimal.InvalidOperation, and an
empty repeating group in a user-defined definition ZeroDivisionError.
---
 src/pynmeagps/nmeamessage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 09bf913..47771b8 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -143,7 +143,7 @@ class NMEAMessage:
 
         except (
             AttributeError,
-            OverflowError,
+            ArithmeticError,
             struct.error,
             TypeError,
             ValueError,
-- 
2.43.0


From e1ae09f8b89c274a3d5ef9181155508b2542caea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:12:37 +0000
Subject: [PATCH 32/32] fix: ids which differ in case from a published one are
 unknown

A sentence such as $GNgll... was rejected or labelled NOMINAL as unknown, but
decoded with the layout of GLL instead of nominal attributes.
---
 src/pynmeagps/nmeamessage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 47771b8..ac25f95 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -331,6 +331,8 @@ class NMEAMessage:
                 dic = self._get_dict_prop(key, **kwargs)
             elif self._defsource == nmt.DEF_USER:  # user defined
                 dic = self._userdefined[key]
+            elif self._defsource == nmt.DEF_UNKN:  # unrecognised, even if key isn't
+                raise KeyError(key)
             else:  # standard
                 if self._mode == nmt.POLL:
                     dic = nmp.NMEA_PAYLOADS_POLL[key]
-- 
2.43.0

