From 9e877ae9bf98f0d0296c4577f69f3b150e958a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 01/22] fix: rfc3164: report an error when the MSG part
 contains a not visible byte

The parser rejected such messages returning neither a message nor an error.
---
 rfc3164/machine.go    | 327 +++++++++++++++++++++++-------------------
 rfc3164/machine.go.rl |   8 +-
 2 files changed, 187 insertions(+), 148 deletions(-)

diff --git a/rfc3164/machine.go b/rfc3164/machine.go
index 6dd3d29..46a0389 100644
--- a/rfc3164/machine.go
+++ b/rfc3164/machine.go
@@ -924,6 +924,23 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto st373
 		}
 
+		m.err = fmt.Errorf(errParse, m.p)
+		(m.p)--
+
+		{
+			goto st373
+		}
+
+		goto st0
+	tr345:
+
+		m.err = fmt.Errorf(errParse, m.p)
+		(m.p)--
+
+		{
+			goto st373
+		}
+
 		goto st0
 	tr333:
 
@@ -1262,10 +1279,10 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 	stCase333:
 		if (m.data)[(m.p)] == 127 {
-			goto st0
+			goto tr345
 		}
 		if (m.data)[(m.p)] <= 31 {
-			goto st0
+			goto tr345
 		}
 		goto st333
 	tr43:
@@ -1280,11 +1297,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase334:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
-		case 91:
 			goto tr348
+		case 91:
+			goto tr349
 		case 127:
-			goto st0
+			goto tr345
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1292,7 +1309,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st335
 			}
 		default:
-			goto st0
+			goto tr345
 		}
 		goto st333
 	st335:
@@ -1302,11 +1319,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase335:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
-		case 91:
 			goto tr348
+		case 91:
+			goto tr349
 		case 127:
-			goto st0
+			goto tr345
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1314,7 +1331,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st336
 			}
 		default:
-			goto st0
+			goto tr345
 		}
 		goto st333
 	st336:
@@ -1324,11 +1341,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase336:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
-		case 91:
 			goto tr348
+		case 91:
+			goto tr349
 		case 127:
-			goto st0
+			goto tr345
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1336,7 +1353,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st337
 			}
 		default:
-			goto st0
+			goto tr345
 		}
 		goto st333
 	st337:
@@ -1346,11 +1363,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase337:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
-		case 91:
 			goto tr348
+		case 91:
+			goto tr349
 		case 127:
-			goto st0
+			goto tr345
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1358,7 +1375,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st338
 			}
 		default:
-			goto st0
+			goto tr345
 		}
 		goto st333
 	st338:
@@ -1368,11 +1385,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase338:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
-		case 91:
 			goto tr348
+		case 91:
+			goto tr349
 		case 127:
-			goto st0
+			goto tr345
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1380,7 +1397,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st339
 			}
 		default:
-			goto st0
+			goto tr345
 		}
 		goto st333
 	st339:
@@ -1390,11 +1407,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase339:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
-		case 91:
 			goto tr348
+		case 91:
+			goto tr349
 		case 127:
-			goto st0
+			goto tr345
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1402,7 +1419,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st340
 			}
 		default:
-			goto st0
+			goto tr345
 		}
 		goto st333
 	st340:
@@ -1412,11 +1429,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase340:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
-		case 91:
 			goto tr348
+		case 91:
+			goto tr349
 		case 127:
-			goto st0
+			goto tr345
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1424,7 +1441,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st341
 			}
 		default:
-			goto st0
+			goto tr345
 		}
 		goto st333
 	st341:
@@ -1434,11 +1451,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase341:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
-		case 91:
 			goto tr348
+		case 91:
+			goto tr349
 		case 127:
-			goto st0
+			goto tr345
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1446,7 +1463,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st342
 			}
 		default:
-			goto st0
+			goto tr345
 		}
 		goto st333
 	st342:
@@ -1456,11 +1473,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase342:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
-		case 91:
 			goto tr348
+		case 91:
+			goto tr349
 		case 127:
-			goto st0
+			goto tr345
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1468,7 +1485,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st343
 			}
 		default:
-			goto st0
+			goto tr345
 		}
 		goto st333
 	st343:
@@ -1478,11 +1495,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase343:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
-		case 91:
 			goto tr348
+		case 91:
+			goto tr349
 		case 127:
-			goto st0
+			goto tr345
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1490,7 +1507,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st344
 			}
 		default:
-			goto st0
+			goto tr345
 		}
 		goto st333
 	st344:
@@ -1500,11 +1517,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase344:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
-		case 91:
 			goto tr348
+		case 91:
+			goto tr349
 		case 127:
-			goto st0
+			goto tr345
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1512,7 +1529,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st345
 			}
 		default:
-			goto st0
+			goto tr345
 		}
 		goto st333
 	st345:
@@ -1522,11 +1539,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase345:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
-		case 91:
 			goto tr348
+		case 91:
+			goto tr349
 		case 127:
-			goto st0
+			goto tr345
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1534,7 +1551,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st346
 			}
 		default:
-			goto st0
+			goto tr345
 		}
 		goto st333
 	st346:
@@ -1544,11 +1561,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase346:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
-		case 91:
 			goto tr348
+		case 91:
+			goto tr349
 		case 127:
-			goto st0
+			goto tr345
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1556,7 +1573,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st347
 			}
 		default:
-			goto st0
+			goto tr345
 		}
 		goto st333
 	st347:
@@ -1566,11 +1583,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase347:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
-		case 91:
 			goto tr348
+		case 91:
+			goto tr349
 		case 127:
-			goto st0
+			goto tr345
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1578,7 +1595,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st348
 			}
 		default:
-			goto st0
+			goto tr345
 		}
 		goto st333
 	st348:
@@ -1588,11 +1605,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase348:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
-		case 91:
 			goto tr348
+		case 91:
+			goto tr349
 		case 127:
-			goto st0
+			goto tr345
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1600,7 +1617,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st349
 			}
 		default:
-			goto st0
+			goto tr345
 		}
 		goto st333
 	st349:
@@ -1610,11 +1627,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase349:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
-		case 91:
 			goto tr348
+		case 91:
+			goto tr349
 		case 127:
-			goto st0
+			goto tr345
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1622,7 +1639,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st350
 			}
 		default:
-			goto st0
+			goto tr345
 		}
 		goto st333
 	st350:
@@ -1632,11 +1649,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase350:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
-		case 91:
 			goto tr348
+		case 91:
+			goto tr349
 		case 127:
-			goto st0
+			goto tr345
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1644,7 +1661,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st351
 			}
 		default:
-			goto st0
+			goto tr345
 		}
 		goto st333
 	st351:
@@ -1654,11 +1671,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase351:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
-		case 91:
 			goto tr348
+		case 91:
+			goto tr349
 		case 127:
-			goto st0
+			goto tr345
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1666,7 +1683,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st352
 			}
 		default:
-			goto st0
+			goto tr345
 		}
 		goto st333
 	st352:
@@ -1676,11 +1693,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase352:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
-		case 91:
 			goto tr348
+		case 91:
+			goto tr349
 		case 127:
-			goto st0
+			goto tr345
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1688,7 +1705,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st353
 			}
 		default:
-			goto st0
+			goto tr345
 		}
 		goto st333
 	st353:
@@ -1698,11 +1715,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase353:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
-		case 91:
 			goto tr348
+		case 91:
+			goto tr349
 		case 127:
-			goto st0
+			goto tr345
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1710,7 +1727,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st354
 			}
 		default:
-			goto st0
+			goto tr345
 		}
 		goto st333
 	st354:
@@ -1720,11 +1737,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase354:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
-		case 91:
 			goto tr348
+		case 91:
+			goto tr349
 		case 127:
-			goto st0
+			goto tr345
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1732,7 +1749,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st355
 			}
 		default:
-			goto st0
+			goto tr345
 		}
 		goto st333
 	st355:
@@ -1742,11 +1759,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase355:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
-		case 91:
 			goto tr348
+		case 91:
+			goto tr349
 		case 127:
-			goto st0
+			goto tr345
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1754,7 +1771,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st356
 			}
 		default:
-			goto st0
+			goto tr345
 		}
 		goto st333
 	st356:
@@ -1764,11 +1781,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase356:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
-		case 91:
 			goto tr348
+		case 91:
+			goto tr349
 		case 127:
-			goto st0
+			goto tr345
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1776,7 +1793,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st357
 			}
 		default:
-			goto st0
+			goto tr345
 		}
 		goto st333
 	st357:
@@ -1786,11 +1803,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase357:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
-		case 91:
 			goto tr348
+		case 91:
+			goto tr349
 		case 127:
-			goto st0
+			goto tr345
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1798,7 +1815,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st358
 			}
 		default:
-			goto st0
+			goto tr345
 		}
 		goto st333
 	st358:
@@ -1808,11 +1825,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase358:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
-		case 91:
 			goto tr348
+		case 91:
+			goto tr349
 		case 127:
-			goto st0
+			goto tr345
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1820,7 +1837,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st359
 			}
 		default:
-			goto st0
+			goto tr345
 		}
 		goto st333
 	st359:
@@ -1830,11 +1847,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase359:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
-		case 91:
 			goto tr348
+		case 91:
+			goto tr349
 		case 127:
-			goto st0
+			goto tr345
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1842,7 +1859,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st360
 			}
 		default:
-			goto st0
+			goto tr345
 		}
 		goto st333
 	st360:
@@ -1852,11 +1869,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase360:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
-		case 91:
 			goto tr348
+		case 91:
+			goto tr349
 		case 127:
-			goto st0
+			goto tr345
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1864,7 +1881,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st361
 			}
 		default:
-			goto st0
+			goto tr345
 		}
 		goto st333
 	st361:
@@ -1874,11 +1891,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase361:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
-		case 91:
 			goto tr348
+		case 91:
+			goto tr349
 		case 127:
-			goto st0
+			goto tr345
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1886,7 +1903,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st362
 			}
 		default:
-			goto st0
+			goto tr345
 		}
 		goto st333
 	st362:
@@ -1896,11 +1913,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase362:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
-		case 91:
 			goto tr348
+		case 91:
+			goto tr349
 		case 127:
-			goto st0
+			goto tr345
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1908,7 +1925,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st363
 			}
 		default:
-			goto st0
+			goto tr345
 		}
 		goto st333
 	st363:
@@ -1918,11 +1935,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase363:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
-		case 91:
 			goto tr348
+		case 91:
+			goto tr349
 		case 127:
-			goto st0
+			goto tr345
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1930,7 +1947,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st364
 			}
 		default:
-			goto st0
+			goto tr345
 		}
 		goto st333
 	st364:
@@ -1940,11 +1957,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase364:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
-		case 91:
 			goto tr348
+		case 91:
+			goto tr349
 		case 127:
-			goto st0
+			goto tr345
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1952,7 +1969,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st365
 			}
 		default:
-			goto st0
+			goto tr345
 		}
 		goto st333
 	st365:
@@ -1962,17 +1979,17 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase365:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
-		case 91:
 			goto tr348
+		case 91:
+			goto tr349
 		case 127:
-			goto st0
+			goto tr345
 		}
 		if (m.data)[(m.p)] <= 31 {
-			goto st0
+			goto tr345
 		}
 		goto st333
-	tr347:
+	tr348:
 
 		output.tag = string(m.text())
 
@@ -1986,10 +2003,10 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 32:
 			goto st367
 		case 127:
-			goto st0
+			goto tr345
 		}
 		if (m.data)[(m.p)] <= 31 {
-			goto st0
+			goto tr345
 		}
 		goto st333
 	st367:
@@ -1998,13 +2015,13 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 	stCase367:
 		if (m.data)[(m.p)] == 127 {
-			goto st0
+			goto tr345
 		}
 		if (m.data)[(m.p)] <= 31 {
-			goto st0
+			goto tr345
 		}
 		goto tr42
-	tr348:
+	tr349:
 
 		output.tag = string(m.text())
 
@@ -2016,15 +2033,15 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase368:
 		switch (m.data)[(m.p)] {
 		case 93:
-			goto tr381
+			goto tr382
 		case 127:
-			goto tr380
+			goto tr381
 		}
 		if (m.data)[(m.p)] <= 31 {
-			goto tr380
+			goto tr381
 		}
 		goto tr48
-	tr380:
+	tr381:
 
 		m.pb = m.p
 
@@ -2094,7 +2111,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase369:
 		switch (m.data)[(m.p)] {
 		case 93:
-			goto tr383
+			goto tr384
 		case 127:
 			goto st23
 		}
@@ -2102,7 +2119,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto st23
 		}
 		goto st369
-	tr383:
+	tr384:
 
 		output.content = string(m.text())
 
@@ -2114,7 +2131,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		m.pb = m.p
 
 		goto st370
-	tr381:
+	tr382:
 
 		m.pb = m.p
 
@@ -2130,7 +2147,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 58:
 			goto st371
 		case 93:
-			goto tr383
+			goto tr384
 		case 127:
 			goto st23
 		}
@@ -2147,7 +2164,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 32:
 			goto st372
 		case 93:
-			goto tr383
+			goto tr384
 		case 127:
 			goto st23
 		}
@@ -7218,9 +7235,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 					goto st373
 				}
 
-			case 22:
+			case 26:
 
-				m.err = fmt.Errorf(errTag, m.p)
+				m.err = fmt.Errorf(errParse, m.p)
 				(m.p)--
 
 				{
@@ -7243,6 +7260,22 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 					goto st373
 				}
 
+			case 22:
+
+				m.err = fmt.Errorf(errTag, m.p)
+				(m.p)--
+
+				{
+					goto st373
+				}
+
+				m.err = fmt.Errorf(errParse, m.p)
+				(m.p)--
+
+				{
+					goto st373
+				}
+
 			}
 		}
 
diff --git a/rfc3164/machine.go.rl b/rfc3164/machine.go.rl
index 4d13817..3ac7245 100644
--- a/rfc3164/machine.go.rl
+++ b/rfc3164/machine.go.rl
@@ -129,6 +129,12 @@ action err_content {
 	fgoto fail;
 }
 
+action err_parse {
+	m.err = fmt.Errorf(errParse, m.p)
+	fhold;
+	fgoto fail;
+}
+
 pri = ('<' prival >mark %from(set_prival) $err(err_prival) '>') @err(err_pri);
 
 timestamp = (datemmm sp datemday sp hhmmss) >mark %set_timestamp @err(err_timestamp);
@@ -152,7 +158,7 @@ contentval = !alnum @err(err_contentstart) >mark print* %set_content @err(err_co
 
 content = '[' contentval ']'; # todo(leodido) > support ':' and ' ' too. Also they have to match?
 
-mex = visible+ >mark %set_message;
+mex = visible+ >mark %set_message $err(err_parse);
 
 msg = (tag content? ':' sp)? mex;
 
-- 
2.43.0


From 2da3a222df50edee37ee50dd00fe179e54fb3b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 02/22] fix: rfc3164: set the priority only when it is within
 angle brackets

In best effort mode an unterminated or out of range PRI was resulting in a
partial message having a prefix of the digits as priority.
---
 rfc3164/machine.go    | 28 +++++++++-------------------
 rfc3164/machine.go.rl |  2 +-
 2 files changed, 10 insertions(+), 20 deletions(-)

diff --git a/rfc3164/machine.go b/rfc3164/machine.go
index 46a0389..6f855aa 100644
--- a/rfc3164/machine.go
+++ b/rfc3164/machine.go
@@ -981,14 +981,16 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof3
 		}
 	stCase3:
+		if (m.data)[(m.p)] == 62 {
+			goto tr6
+		}
+		goto tr2
+	tr6:
 
 		output.priority = uint8(common.UnsafeUTF8DecimalCodePointsToInt(m.text()))
 		output.prioritySet = true
 
-		if (m.data)[(m.p)] == 62 {
-			goto st4
-		}
-		goto tr2
+		goto st4
 	st4:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof4
@@ -6009,15 +6011,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof330
 		}
 	stCase330:
-
-		output.priority = uint8(common.UnsafeUTF8DecimalCodePointsToInt(m.text()))
-		output.prioritySet = true
-
 		switch (m.data)[(m.p)] {
 		case 57:
 			goto st332
 		case 62:
-			goto st4
+			goto tr6
 		}
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 56 {
 			goto st331
@@ -6033,12 +6031,8 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof331
 		}
 	stCase331:
-
-		output.priority = uint8(common.UnsafeUTF8DecimalCodePointsToInt(m.text()))
-		output.prioritySet = true
-
 		if (m.data)[(m.p)] == 62 {
-			goto st4
+			goto tr6
 		}
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			goto st3
@@ -6049,12 +6043,8 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof332
 		}
 	stCase332:
-
-		output.priority = uint8(common.UnsafeUTF8DecimalCodePointsToInt(m.text()))
-		output.prioritySet = true
-
 		if (m.data)[(m.p)] == 62 {
-			goto st4
+			goto tr6
 		}
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 49 {
 			goto st3
diff --git a/rfc3164/machine.go.rl b/rfc3164/machine.go.rl
index 3ac7245..9f32aa5 100644
--- a/rfc3164/machine.go.rl
+++ b/rfc3164/machine.go.rl
@@ -135,7 +135,7 @@ action err_parse {
 	fgoto fail;
 }
 
-pri = ('<' prival >mark %from(set_prival) $err(err_prival) '>') @err(err_pri);
+pri = ('<' prival >mark %set_prival $err(err_prival) '>') @err(err_pri);
 
 timestamp = (datemmm sp datemday sp hhmmss) >mark %set_timestamp @err(err_timestamp);
 
-- 
2.43.0


From cc51d3d5c5088acf2ba1bba77c6ebac52eb424d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 03/22] fix: rfc3164: detect the tag and the content only when
 followed by a colon, a space and the message

Otherwise the MSG part is not splitted: before it was losing its first
characters, resulting in wrong appname, procid, and message values.
---
 rfc3164/machine.go    | 1354 ++++++++++++++++++-----------------------
 rfc3164/machine.go.rl |   32 +-
 2 files changed, 633 insertions(+), 753 deletions(-)

diff --git a/rfc3164/machine.go b/rfc3164/machine.go
index 6f855aa..dab3d43 100644
--- a/rfc3164/machine.go
+++ b/rfc3164/machine.go
@@ -21,9 +21,9 @@ var (
 )
 
 const start int = 1
-const firstFinal int = 333
+const firstFinal int = 329
 
-const enFail int = 373
+const enFail int = 366
 const enMain int = 1
 
 type machine struct {
@@ -31,6 +31,7 @@ type machine struct {
 	cs         int
 	p, pe, eof int
 	pb         int
+	msgat      int
 	err        error
 	bestEffort bool
 	yyyy       int
@@ -98,10 +99,12 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	m.data = input
 	m.p = 0
 	m.pb = 0
+	m.msgat = 0
 	m.pe = len(input)
 	m.eof = len(input)
 	m.err = nil
 	output := &syslogMessage{}
+	var tag, content []byte
 
 	{
 		m.cs = start
@@ -159,6 +162,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto stCase21
 		case 22:
 			goto stCase22
+		case 329:
+			goto stCase329
+		case 330:
+			goto stCase330
+		case 331:
+			goto stCase331
+		case 332:
+			goto stCase332
 		case 333:
 			goto stCase333
 		case 334:
@@ -225,12 +236,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto stCase364
 		case 365:
 			goto stCase365
-		case 366:
-			goto stCase366
-		case 367:
-			goto stCase367
-		case 368:
-			goto stCase368
 		case 23:
 			goto stCase23
 		case 24:
@@ -239,14 +244,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto stCase25
 		case 26:
 			goto stCase26
-		case 369:
-			goto stCase369
-		case 370:
-			goto stCase370
-		case 371:
-			goto stCase371
-		case 372:
-			goto stCase372
 		case 27:
 			goto stCase27
 		case 28:
@@ -851,16 +848,8 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto stCase327
 		case 328:
 			goto stCase328
-		case 329:
-			goto stCase329
-		case 330:
-			goto stCase330
-		case 331:
-			goto stCase331
-		case 332:
-			goto stCase332
-		case 373:
-			goto stCase373
+		case 366:
+			goto stCase366
 		}
 		goto stOut
 	stCase1:
@@ -874,7 +863,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		(m.p)--
 
 		{
-			goto st373
+			goto st366
 		}
 
 		goto st0
@@ -884,14 +873,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		(m.p)--
 
 		{
-			goto st373
+			goto st366
 		}
 
 		m.err = fmt.Errorf(errPri, m.p)
 		(m.p)--
 
 		{
-			goto st373
+			goto st366
 		}
 
 		goto st0
@@ -901,7 +890,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		(m.p)--
 
 		{
-			goto st373
+			goto st366
 		}
 
 		goto st0
@@ -911,7 +900,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		(m.p)--
 
 		{
-			goto st373
+			goto st366
 		}
 
 		goto st0
@@ -921,34 +910,51 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		(m.p)--
 
 		{
-			goto st373
+			goto st366
 		}
 
 		m.err = fmt.Errorf(errParse, m.p)
 		(m.p)--
 
 		{
-			goto st373
+			goto st366
+		}
+
+		goto st0
+	tr327:
+
+		m.err = fmt.Errorf(errRFC3339, m.p)
+		(m.p)--
+
+		{
+			goto st366
 		}
 
 		goto st0
-	tr345:
+	tr339:
 
 		m.err = fmt.Errorf(errParse, m.p)
 		(m.p)--
 
 		{
-			goto st373
+			goto st366
 		}
 
 		goto st0
-	tr333:
+	tr376:
 
-		m.err = fmt.Errorf(errRFC3339, m.p)
+		m.err = fmt.Errorf(errContent, m.p)
+		(m.p)--
+
+		{
+			goto st366
+		}
+
+		m.err = fmt.Errorf(errParse, m.p)
 		(m.p)--
 
 		{
-			goto st373
+			goto st366
 		}
 
 		goto st0
@@ -1039,7 +1045,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 112:
 			goto st6
 		case 117:
-			goto st284
+			goto st280
 		}
 		goto tr7
 	st6:
@@ -1069,10 +1075,10 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 32:
 			goto st9
 		case 51:
-			goto st283
+			goto st279
 		}
 		if 49 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 50 {
-			goto st282
+			goto st278
 		}
 		goto tr7
 	st9:
@@ -1099,7 +1105,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 	stCase11:
 		if (m.data)[(m.p)] == 50 {
-			goto st281
+			goto st277
 		}
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 49 {
 			goto st12
@@ -1184,7 +1190,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			(m.p)--
 
 			{
-				goto st373
+				goto st366
 			}
 		} else {
 			if m.timezone != nil {
@@ -1198,14 +1204,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 
 		goto st20
-	tr341:
+	tr335:
 
 		if t, e := time.Parse(time.RFC3339, string(m.text())); e != nil {
 			m.err = fmt.Errorf("%s [col %d]", e, m.p)
 			(m.p)--
 
 			{
-				goto st373
+				goto st366
 			}
 		} else {
 			output.timestamp = t
@@ -1236,7 +1242,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto tr39
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
-			goto st27
+			goto st23
 		}
 		goto tr37
 	tr39:
@@ -1272,26 +1278,124 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		goto tr42
 	tr42:
 
-		m.pb = m.p
+		m.msgat = m.p
 
-		goto st333
-	st333:
+		goto st329
+	tr375:
+
+		output.tag = string(tag)
+		output.content = string(content)
+
+		m.msgat = m.p
+
+		goto st329
+	st329:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof333
+			goto _testEof329
 		}
-	stCase333:
+	stCase329:
 		if (m.data)[(m.p)] == 127 {
-			goto tr345
+			goto tr339
 		}
 		if (m.data)[(m.p)] <= 31 {
-			goto tr345
+			goto tr339
 		}
-		goto st333
+		goto st329
 	tr43:
 
 		m.pb = m.p
 
-		goto st334
+		m.msgat = m.p
+
+		goto st330
+	st330:
+		if (m.p)++; (m.p) == (m.pe) {
+			goto _testEof330
+		}
+	stCase330:
+		switch (m.data)[(m.p)] {
+		case 58:
+			goto tr342
+		case 91:
+			goto tr343
+		case 127:
+			goto tr339
+		}
+		switch {
+		case (m.data)[(m.p)] > 31:
+			if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
+				goto st331
+			}
+		default:
+			goto tr339
+		}
+		goto st329
+	st331:
+		if (m.p)++; (m.p) == (m.pe) {
+			goto _testEof331
+		}
+	stCase331:
+		switch (m.data)[(m.p)] {
+		case 58:
+			goto tr342
+		case 91:
+			goto tr343
+		case 127:
+			goto tr339
+		}
+		switch {
+		case (m.data)[(m.p)] > 31:
+			if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
+				goto st332
+			}
+		default:
+			goto tr339
+		}
+		goto st329
+	st332:
+		if (m.p)++; (m.p) == (m.pe) {
+			goto _testEof332
+		}
+	stCase332:
+		switch (m.data)[(m.p)] {
+		case 58:
+			goto tr342
+		case 91:
+			goto tr343
+		case 127:
+			goto tr339
+		}
+		switch {
+		case (m.data)[(m.p)] > 31:
+			if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
+				goto st333
+			}
+		default:
+			goto tr339
+		}
+		goto st329
+	st333:
+		if (m.p)++; (m.p) == (m.pe) {
+			goto _testEof333
+		}
+	stCase333:
+		switch (m.data)[(m.p)] {
+		case 58:
+			goto tr342
+		case 91:
+			goto tr343
+		case 127:
+			goto tr339
+		}
+		switch {
+		case (m.data)[(m.p)] > 31:
+			if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
+				goto st334
+			}
+		default:
+			goto tr339
+		}
+		goto st329
 	st334:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof334
@@ -1299,11 +1403,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase334:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr348
+			goto tr342
 		case 91:
-			goto tr349
+			goto tr343
 		case 127:
-			goto tr345
+			goto tr339
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1311,9 +1415,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st335
 			}
 		default:
-			goto tr345
+			goto tr339
 		}
-		goto st333
+		goto st329
 	st335:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof335
@@ -1321,11 +1425,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase335:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr348
+			goto tr342
 		case 91:
-			goto tr349
+			goto tr343
 		case 127:
-			goto tr345
+			goto tr339
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1333,9 +1437,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st336
 			}
 		default:
-			goto tr345
+			goto tr339
 		}
-		goto st333
+		goto st329
 	st336:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof336
@@ -1343,11 +1447,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase336:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr348
+			goto tr342
 		case 91:
-			goto tr349
+			goto tr343
 		case 127:
-			goto tr345
+			goto tr339
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1355,9 +1459,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st337
 			}
 		default:
-			goto tr345
+			goto tr339
 		}
-		goto st333
+		goto st329
 	st337:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof337
@@ -1365,11 +1469,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase337:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr348
+			goto tr342
 		case 91:
-			goto tr349
+			goto tr343
 		case 127:
-			goto tr345
+			goto tr339
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1377,9 +1481,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st338
 			}
 		default:
-			goto tr345
+			goto tr339
 		}
-		goto st333
+		goto st329
 	st338:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof338
@@ -1387,11 +1491,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase338:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr348
+			goto tr342
 		case 91:
-			goto tr349
+			goto tr343
 		case 127:
-			goto tr345
+			goto tr339
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1399,9 +1503,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st339
 			}
 		default:
-			goto tr345
+			goto tr339
 		}
-		goto st333
+		goto st329
 	st339:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof339
@@ -1409,11 +1513,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase339:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr348
+			goto tr342
 		case 91:
-			goto tr349
+			goto tr343
 		case 127:
-			goto tr345
+			goto tr339
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1421,9 +1525,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st340
 			}
 		default:
-			goto tr345
+			goto tr339
 		}
-		goto st333
+		goto st329
 	st340:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof340
@@ -1431,11 +1535,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase340:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr348
+			goto tr342
 		case 91:
-			goto tr349
+			goto tr343
 		case 127:
-			goto tr345
+			goto tr339
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1443,9 +1547,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st341
 			}
 		default:
-			goto tr345
+			goto tr339
 		}
-		goto st333
+		goto st329
 	st341:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof341
@@ -1453,11 +1557,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase341:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr348
+			goto tr342
 		case 91:
-			goto tr349
+			goto tr343
 		case 127:
-			goto tr345
+			goto tr339
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1465,9 +1569,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st342
 			}
 		default:
-			goto tr345
+			goto tr339
 		}
-		goto st333
+		goto st329
 	st342:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof342
@@ -1475,11 +1579,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase342:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr348
+			goto tr342
 		case 91:
-			goto tr349
+			goto tr343
 		case 127:
-			goto tr345
+			goto tr339
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1487,9 +1591,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st343
 			}
 		default:
-			goto tr345
+			goto tr339
 		}
-		goto st333
+		goto st329
 	st343:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof343
@@ -1497,11 +1601,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase343:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr348
+			goto tr342
 		case 91:
-			goto tr349
+			goto tr343
 		case 127:
-			goto tr345
+			goto tr339
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1509,9 +1613,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st344
 			}
 		default:
-			goto tr345
+			goto tr339
 		}
-		goto st333
+		goto st329
 	st344:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof344
@@ -1519,11 +1623,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase344:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr348
+			goto tr342
 		case 91:
-			goto tr349
+			goto tr343
 		case 127:
-			goto tr345
+			goto tr339
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1531,9 +1635,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st345
 			}
 		default:
-			goto tr345
+			goto tr339
 		}
-		goto st333
+		goto st329
 	st345:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof345
@@ -1541,11 +1645,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase345:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr348
+			goto tr342
 		case 91:
-			goto tr349
+			goto tr343
 		case 127:
-			goto tr345
+			goto tr339
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1553,9 +1657,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st346
 			}
 		default:
-			goto tr345
+			goto tr339
 		}
-		goto st333
+		goto st329
 	st346:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof346
@@ -1563,11 +1667,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase346:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr348
+			goto tr342
 		case 91:
-			goto tr349
+			goto tr343
 		case 127:
-			goto tr345
+			goto tr339
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1575,9 +1679,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st347
 			}
 		default:
-			goto tr345
+			goto tr339
 		}
-		goto st333
+		goto st329
 	st347:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof347
@@ -1585,11 +1689,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase347:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr348
+			goto tr342
 		case 91:
-			goto tr349
+			goto tr343
 		case 127:
-			goto tr345
+			goto tr339
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1597,9 +1701,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st348
 			}
 		default:
-			goto tr345
+			goto tr339
 		}
-		goto st333
+		goto st329
 	st348:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof348
@@ -1607,11 +1711,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase348:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr348
+			goto tr342
 		case 91:
-			goto tr349
+			goto tr343
 		case 127:
-			goto tr345
+			goto tr339
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1619,9 +1723,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st349
 			}
 		default:
-			goto tr345
+			goto tr339
 		}
-		goto st333
+		goto st329
 	st349:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof349
@@ -1629,11 +1733,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase349:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr348
+			goto tr342
 		case 91:
-			goto tr349
+			goto tr343
 		case 127:
-			goto tr345
+			goto tr339
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1641,9 +1745,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st350
 			}
 		default:
-			goto tr345
+			goto tr339
 		}
-		goto st333
+		goto st329
 	st350:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof350
@@ -1651,11 +1755,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase350:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr348
+			goto tr342
 		case 91:
-			goto tr349
+			goto tr343
 		case 127:
-			goto tr345
+			goto tr339
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1663,9 +1767,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st351
 			}
 		default:
-			goto tr345
+			goto tr339
 		}
-		goto st333
+		goto st329
 	st351:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof351
@@ -1673,11 +1777,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase351:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr348
+			goto tr342
 		case 91:
-			goto tr349
+			goto tr343
 		case 127:
-			goto tr345
+			goto tr339
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1685,9 +1789,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st352
 			}
 		default:
-			goto tr345
+			goto tr339
 		}
-		goto st333
+		goto st329
 	st352:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof352
@@ -1695,11 +1799,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase352:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr348
+			goto tr342
 		case 91:
-			goto tr349
+			goto tr343
 		case 127:
-			goto tr345
+			goto tr339
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1707,9 +1811,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st353
 			}
 		default:
-			goto tr345
+			goto tr339
 		}
-		goto st333
+		goto st329
 	st353:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof353
@@ -1717,11 +1821,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase353:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr348
+			goto tr342
 		case 91:
-			goto tr349
+			goto tr343
 		case 127:
-			goto tr345
+			goto tr339
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1729,9 +1833,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st354
 			}
 		default:
-			goto tr345
+			goto tr339
 		}
-		goto st333
+		goto st329
 	st354:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof354
@@ -1739,11 +1843,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase354:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr348
+			goto tr342
 		case 91:
-			goto tr349
+			goto tr343
 		case 127:
-			goto tr345
+			goto tr339
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1751,9 +1855,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st355
 			}
 		default:
-			goto tr345
+			goto tr339
 		}
-		goto st333
+		goto st329
 	st355:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof355
@@ -1761,11 +1865,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase355:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr348
+			goto tr342
 		case 91:
-			goto tr349
+			goto tr343
 		case 127:
-			goto tr345
+			goto tr339
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1773,9 +1877,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st356
 			}
 		default:
-			goto tr345
+			goto tr339
 		}
-		goto st333
+		goto st329
 	st356:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof356
@@ -1783,11 +1887,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase356:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr348
+			goto tr342
 		case 91:
-			goto tr349
+			goto tr343
 		case 127:
-			goto tr345
+			goto tr339
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1795,9 +1899,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st357
 			}
 		default:
-			goto tr345
+			goto tr339
 		}
-		goto st333
+		goto st329
 	st357:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof357
@@ -1805,11 +1909,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase357:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr348
+			goto tr342
 		case 91:
-			goto tr349
+			goto tr343
 		case 127:
-			goto tr345
+			goto tr339
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1817,9 +1921,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st358
 			}
 		default:
-			goto tr345
+			goto tr339
 		}
-		goto st333
+		goto st329
 	st358:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof358
@@ -1827,11 +1931,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase358:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr348
+			goto tr342
 		case 91:
-			goto tr349
+			goto tr343
 		case 127:
-			goto tr345
+			goto tr339
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1839,9 +1943,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st359
 			}
 		default:
-			goto tr345
+			goto tr339
 		}
-		goto st333
+		goto st329
 	st359:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof359
@@ -1849,11 +1953,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase359:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr348
+			goto tr342
 		case 91:
-			goto tr349
+			goto tr343
 		case 127:
-			goto tr345
+			goto tr339
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1861,9 +1965,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st360
 			}
 		default:
-			goto tr345
+			goto tr339
 		}
-		goto st333
+		goto st329
 	st360:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof360
@@ -1871,11 +1975,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase360:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr348
+			goto tr342
 		case 91:
-			goto tr349
+			goto tr343
 		case 127:
-			goto tr345
+			goto tr339
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1883,9 +1987,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st361
 			}
 		default:
-			goto tr345
+			goto tr339
 		}
-		goto st333
+		goto st329
 	st361:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof361
@@ -1893,87 +1997,75 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase361:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr348
+			goto tr342
 		case 91:
-			goto tr349
+			goto tr343
 		case 127:
-			goto tr345
+			goto tr339
 		}
-		switch {
-		case (m.data)[(m.p)] > 31:
-			if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
-				goto st362
-			}
-		default:
-			goto tr345
+		if (m.data)[(m.p)] <= 31 {
+			goto tr339
 		}
-		goto st333
+		goto st329
+	tr342:
+
+		tag = m.text()
+
+		goto st362
 	st362:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof362
 		}
 	stCase362:
 		switch (m.data)[(m.p)] {
-		case 58:
-			goto tr348
-		case 91:
-			goto tr349
+		case 32:
+			goto st363
 		case 127:
-			goto tr345
+			goto tr339
 		}
-		switch {
-		case (m.data)[(m.p)] > 31:
-			if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
-				goto st363
-			}
-		default:
-			goto tr345
+		if (m.data)[(m.p)] <= 31 {
+			goto tr339
 		}
-		goto st333
+		goto st329
 	st363:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof363
 		}
 	stCase363:
-		switch (m.data)[(m.p)] {
-		case 58:
-			goto tr348
-		case 91:
-			goto tr349
-		case 127:
-			goto tr345
+		if (m.data)[(m.p)] == 127 {
+			goto tr339
 		}
-		switch {
-		case (m.data)[(m.p)] > 31:
-			if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
-				goto st364
-			}
-		default:
-			goto tr345
+		if (m.data)[(m.p)] <= 31 {
+			goto tr339
 		}
-		goto st333
+		goto tr375
+	tr343:
+
+		tag = m.text()
+
+		m.pb = m.p + 1
+
+		goto st364
 	st364:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof364
 		}
 	stCase364:
 		switch (m.data)[(m.p)] {
-		case 58:
-			goto tr348
-		case 91:
-			goto tr349
+		case 93:
+			goto tr378
 		case 127:
-			goto tr345
+			goto tr376
 		}
-		switch {
-		case (m.data)[(m.p)] > 31:
-			if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
-				goto st365
-			}
-		default:
-			goto tr345
+		if (m.data)[(m.p)] <= 31 {
+			goto tr376
 		}
-		goto st333
+		goto st364
+	tr378:
+
+		content = m.text()
+
+		goto st365
 	st365:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof365
@@ -1981,224 +2073,72 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase365:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr348
-		case 91:
-			goto tr349
-		case 127:
-			goto tr345
-		}
-		if (m.data)[(m.p)] <= 31 {
-			goto tr345
-		}
-		goto st333
-	tr348:
-
-		output.tag = string(m.text())
-
-		goto st366
-	st366:
-		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof366
-		}
-	stCase366:
-		switch (m.data)[(m.p)] {
-		case 32:
-			goto st367
-		case 127:
-			goto tr345
-		}
-		if (m.data)[(m.p)] <= 31 {
-			goto tr345
-		}
-		goto st333
-	st367:
-		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof367
-		}
-	stCase367:
-		if (m.data)[(m.p)] == 127 {
-			goto tr345
-		}
-		if (m.data)[(m.p)] <= 31 {
-			goto tr345
-		}
-		goto tr42
-	tr349:
-
-		output.tag = string(m.text())
-
-		goto st368
-	st368:
-		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof368
-		}
-	stCase368:
-		switch (m.data)[(m.p)] {
-		case 93:
-			goto tr382
+			goto st362
 		case 127:
-			goto tr381
+			goto tr339
 		}
 		if (m.data)[(m.p)] <= 31 {
-			goto tr381
+			goto tr339
 		}
-		goto tr48
-	tr381:
-
-		m.pb = m.p
-
-		goto st23
+		goto st329
 	st23:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof23
 		}
 	stCase23:
-		if (m.data)[(m.p)] == 93 {
-			goto tr45
+		if (m.data)[(m.p)] == 32 {
+			goto tr39
 		}
-		goto st23
-	tr45:
-
-		output.content = string(m.text())
-
-		goto st24
+		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
+			goto st24
+		}
+		goto tr37
 	st24:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof24
 		}
 	stCase24:
-		switch (m.data)[(m.p)] {
-		case 58:
+		if (m.data)[(m.p)] == 32 {
+			goto tr39
+		}
+		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st25
-		case 93:
-			goto tr45
 		}
-		goto st23
+		goto tr37
 	st25:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof25
 		}
 	stCase25:
-		switch (m.data)[(m.p)] {
-		case 32:
+		if (m.data)[(m.p)] == 32 {
+			goto tr39
+		}
+		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st26
-		case 93:
-			goto tr45
 		}
-		goto st23
+		goto tr37
 	st26:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof26
 		}
 	stCase26:
-		switch (m.data)[(m.p)] {
-		case 93:
-			goto tr49
-		case 127:
-			goto st23
+		if (m.data)[(m.p)] == 32 {
+			goto tr39
 		}
-		if (m.data)[(m.p)] <= 31 {
-			goto st23
+		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
+			goto st27
 		}
-		goto tr48
-	tr48:
-
-		m.pb = m.p
-
-		goto st369
-	st369:
+		goto tr37
+	st27:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof369
+			goto _testEof27
 		}
-	stCase369:
-		switch (m.data)[(m.p)] {
-		case 93:
-			goto tr384
-		case 127:
-			goto st23
+	stCase27:
+		if (m.data)[(m.p)] == 32 {
+			goto tr39
 		}
-		if (m.data)[(m.p)] <= 31 {
-			goto st23
-		}
-		goto st369
-	tr384:
-
-		output.content = string(m.text())
-
-		goto st370
-	tr49:
-
-		output.content = string(m.text())
-
-		m.pb = m.p
-
-		goto st370
-	tr382:
-
-		m.pb = m.p
-
-		output.content = string(m.text())
-
-		goto st370
-	st370:
-		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof370
-		}
-	stCase370:
-		switch (m.data)[(m.p)] {
-		case 58:
-			goto st371
-		case 93:
-			goto tr384
-		case 127:
-			goto st23
-		}
-		if (m.data)[(m.p)] <= 31 {
-			goto st23
-		}
-		goto st369
-	st371:
-		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof371
-		}
-	stCase371:
-		switch (m.data)[(m.p)] {
-		case 32:
-			goto st372
-		case 93:
-			goto tr384
-		case 127:
-			goto st23
-		}
-		if (m.data)[(m.p)] <= 31 {
-			goto st23
-		}
-		goto st369
-	st372:
-		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof372
-		}
-	stCase372:
-		switch (m.data)[(m.p)] {
-		case 93:
-			goto tr49
-		case 127:
-			goto st23
-		}
-		if (m.data)[(m.p)] <= 31 {
-			goto st23
-		}
-		goto tr48
-	st27:
-		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof27
-		}
-	stCase27:
-		if (m.data)[(m.p)] == 32 {
-			goto tr39
-		}
-		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
-			goto st28
+		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
+			goto st28
 		}
 		goto tr37
 	st28:
@@ -5185,62 +5125,55 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if (m.data)[(m.p)] == 32 {
 			goto tr39
 		}
-		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
-			goto st277
-		}
 		goto tr37
 	st277:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof277
 		}
 	stCase277:
-		if (m.data)[(m.p)] == 32 {
-			goto tr39
-		}
-		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
-			goto st278
+		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 51 {
+			goto st13
 		}
-		goto tr37
+		goto tr7
 	st278:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof278
 		}
 	stCase278:
-		if (m.data)[(m.p)] == 32 {
-			goto tr39
-		}
-		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
-			goto st279
+		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
+			goto st10
 		}
-		goto tr37
+		goto tr7
 	st279:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof279
 		}
 	stCase279:
-		if (m.data)[(m.p)] == 32 {
-			goto tr39
-		}
-		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
-			goto st280
+		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 49 {
+			goto st10
 		}
-		goto tr37
+		goto tr7
 	st280:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof280
 		}
 	stCase280:
-		if (m.data)[(m.p)] == 32 {
-			goto tr39
+		if (m.data)[(m.p)] == 103 {
+			goto st7
 		}
-		goto tr37
+		goto tr7
+	tr9:
+
+		m.pb = m.p
+
+		goto st281
 	st281:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof281
 		}
 	stCase281:
-		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 51 {
-			goto st13
+		if (m.data)[(m.p)] == 101 {
+			goto st282
 		}
 		goto tr7
 	st282:
@@ -5248,17 +5181,22 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof282
 		}
 	stCase282:
-		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-			goto st10
+		if (m.data)[(m.p)] == 99 {
+			goto st7
 		}
 		goto tr7
+	tr10:
+
+		m.pb = m.p
+
+		goto st283
 	st283:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof283
 		}
 	stCase283:
-		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 49 {
-			goto st10
+		if (m.data)[(m.p)] == 101 {
+			goto st284
 		}
 		goto tr7
 	st284:
@@ -5266,11 +5204,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof284
 		}
 	stCase284:
-		if (m.data)[(m.p)] == 103 {
+		if (m.data)[(m.p)] == 98 {
 			goto st7
 		}
 		goto tr7
-	tr9:
+	tr11:
 
 		m.pb = m.p
 
@@ -5280,8 +5218,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof285
 		}
 	stCase285:
-		if (m.data)[(m.p)] == 101 {
+		switch (m.data)[(m.p)] {
+		case 97:
 			goto st286
+		case 117:
+			goto st287
 		}
 		goto tr7
 	st286:
@@ -5289,57 +5230,60 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof286
 		}
 	stCase286:
-		if (m.data)[(m.p)] == 99 {
+		if (m.data)[(m.p)] == 110 {
 			goto st7
 		}
 		goto tr7
-	tr10:
-
-		m.pb = m.p
-
-		goto st287
 	st287:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof287
 		}
 	stCase287:
-		if (m.data)[(m.p)] == 101 {
-			goto st288
+		switch (m.data)[(m.p)] {
+		case 108:
+			goto st7
+		case 110:
+			goto st7
 		}
 		goto tr7
+	tr12:
+
+		m.pb = m.p
+
+		goto st288
 	st288:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof288
 		}
 	stCase288:
-		if (m.data)[(m.p)] == 98 {
-			goto st7
+		if (m.data)[(m.p)] == 97 {
+			goto st289
 		}
 		goto tr7
-	tr11:
-
-		m.pb = m.p
-
-		goto st289
 	st289:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof289
 		}
 	stCase289:
 		switch (m.data)[(m.p)] {
-		case 97:
-			goto st290
-		case 117:
-			goto st291
+		case 114:
+			goto st7
+		case 121:
+			goto st7
 		}
 		goto tr7
+	tr13:
+
+		m.pb = m.p
+
+		goto st290
 	st290:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof290
 		}
 	stCase290:
-		if (m.data)[(m.p)] == 110 {
-			goto st7
+		if (m.data)[(m.p)] == 111 {
+			goto st291
 		}
 		goto tr7
 	st291:
@@ -5347,14 +5291,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof291
 		}
 	stCase291:
-		switch (m.data)[(m.p)] {
-		case 108:
-			goto st7
-		case 110:
+		if (m.data)[(m.p)] == 118 {
 			goto st7
 		}
 		goto tr7
-	tr12:
+	tr14:
 
 		m.pb = m.p
 
@@ -5364,7 +5305,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof292
 		}
 	stCase292:
-		if (m.data)[(m.p)] == 97 {
+		if (m.data)[(m.p)] == 99 {
 			goto st293
 		}
 		goto tr7
@@ -5373,14 +5314,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof293
 		}
 	stCase293:
-		switch (m.data)[(m.p)] {
-		case 114:
-			goto st7
-		case 121:
+		if (m.data)[(m.p)] == 116 {
 			goto st7
 		}
 		goto tr7
-	tr13:
+	tr15:
 
 		m.pb = m.p
 
@@ -5390,7 +5328,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof294
 		}
 	stCase294:
-		if (m.data)[(m.p)] == 111 {
+		if (m.data)[(m.p)] == 101 {
 			goto st295
 		}
 		goto tr7
@@ -5399,11 +5337,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof295
 		}
 	stCase295:
-		if (m.data)[(m.p)] == 118 {
+		if (m.data)[(m.p)] == 112 {
 			goto st7
 		}
 		goto tr7
-	tr14:
+	tr16:
 
 		m.pb = m.p
 
@@ -5413,52 +5351,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof296
 		}
 	stCase296:
-		if (m.data)[(m.p)] == 99 {
-			goto st297
-		}
-		goto tr7
-	st297:
-		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof297
-		}
-	stCase297:
-		if (m.data)[(m.p)] == 116 {
-			goto st7
-		}
-		goto tr7
-	tr15:
-
-		m.pb = m.p
-
-		goto st298
-	st298:
-		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof298
-		}
-	stCase298:
-		if (m.data)[(m.p)] == 101 {
-			goto st299
-		}
-		goto tr7
-	st299:
-		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof299
-		}
-	stCase299:
-		if (m.data)[(m.p)] == 112 {
-			goto st7
-		}
-		goto tr7
-	tr16:
-
-		m.pb = m.p
-
-		goto st300
-	st300:
-		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof300
-		}
-	stCase300:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5467,14 +5359,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 569 {
-			goto st301
+			goto st297
 		}
 		goto st0
-	st301:
+	st297:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof301
+			goto _testEof297
 		}
-	stCase301:
+	stCase297:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5483,14 +5375,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 569 {
-			goto st302
+			goto st298
 		}
 		goto st0
-	st302:
+	st298:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof302
+			goto _testEof298
 		}
-	stCase302:
+	stCase298:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5499,14 +5391,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 569 {
-			goto st303
+			goto st299
 		}
 		goto st0
-	st303:
+	st299:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof303
+			goto _testEof299
 		}
-	stCase303:
+	stCase299:
 		_widec = int16((m.data)[(m.p)])
 		if 45 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 45 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5515,14 +5407,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if _widec == 557 {
-			goto st304
+			goto st300
 		}
 		goto st0
-	st304:
+	st300:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof304
+			goto _testEof300
 		}
-	stCase304:
+	stCase300:
 		_widec = int16((m.data)[(m.p)])
 		switch {
 		case (m.data)[(m.p)] > 48:
@@ -5540,16 +5432,16 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 		switch _widec {
 		case 560:
-			goto st305
+			goto st301
 		case 561:
-			goto st329
+			goto st325
 		}
 		goto st0
-	st305:
+	st301:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof305
+			goto _testEof301
 		}
-	stCase305:
+	stCase301:
 		_widec = int16((m.data)[(m.p)])
 		if 49 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5558,14 +5450,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 561 <= _widec && _widec <= 569 {
-			goto st306
+			goto st302
 		}
 		goto st0
-	st306:
+	st302:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof306
+			goto _testEof302
 		}
-	stCase306:
+	stCase302:
 		_widec = int16((m.data)[(m.p)])
 		if 45 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 45 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5574,14 +5466,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if _widec == 557 {
-			goto st307
+			goto st303
 		}
 		goto st0
-	st307:
+	st303:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof307
+			goto _testEof303
 		}
-	stCase307:
+	stCase303:
 		_widec = int16((m.data)[(m.p)])
 		switch {
 		case (m.data)[(m.p)] < 49:
@@ -5606,19 +5498,19 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 		switch _widec {
 		case 560:
-			goto st308
+			goto st304
 		case 563:
-			goto st328
+			goto st324
 		}
 		if 561 <= _widec && _widec <= 562 {
-			goto st327
+			goto st323
 		}
 		goto st0
-	st308:
+	st304:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof308
+			goto _testEof304
 		}
-	stCase308:
+	stCase304:
 		_widec = int16((m.data)[(m.p)])
 		if 49 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5627,14 +5519,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 561 <= _widec && _widec <= 569 {
-			goto st309
+			goto st305
 		}
 		goto st0
-	st309:
+	st305:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof309
+			goto _testEof305
 		}
-	stCase309:
+	stCase305:
 		_widec = int16((m.data)[(m.p)])
 		if 84 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 84 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5643,14 +5535,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if _widec == 596 {
-			goto st310
+			goto st306
 		}
 		goto st0
-	st310:
+	st306:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof310
+			goto _testEof306
 		}
-	stCase310:
+	stCase306:
 		_widec = int16((m.data)[(m.p)])
 		switch {
 		case (m.data)[(m.p)] > 49:
@@ -5667,17 +5559,17 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if _widec == 562 {
-			goto st326
+			goto st322
 		}
 		if 560 <= _widec && _widec <= 561 {
-			goto st311
+			goto st307
 		}
 		goto st0
-	st311:
+	st307:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof311
+			goto _testEof307
 		}
-	stCase311:
+	stCase307:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5686,14 +5578,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 569 {
-			goto st312
+			goto st308
 		}
 		goto st0
-	st312:
+	st308:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof312
+			goto _testEof308
 		}
-	stCase312:
+	stCase308:
 		_widec = int16((m.data)[(m.p)])
 		if 58 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 58 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5702,14 +5594,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if _widec == 570 {
-			goto st313
+			goto st309
 		}
 		goto st0
-	st313:
+	st309:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof313
+			goto _testEof309
 		}
-	stCase313:
+	stCase309:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 53 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5718,14 +5610,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 565 {
-			goto st314
+			goto st310
 		}
 		goto st0
-	st314:
+	st310:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof314
+			goto _testEof310
 		}
-	stCase314:
+	stCase310:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5734,14 +5626,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 569 {
-			goto st315
+			goto st311
 		}
 		goto st0
-	st315:
+	st311:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof315
+			goto _testEof311
 		}
-	stCase315:
+	stCase311:
 		_widec = int16((m.data)[(m.p)])
 		if 58 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 58 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5750,14 +5642,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if _widec == 570 {
-			goto st316
+			goto st312
 		}
 		goto st0
-	st316:
+	st312:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof316
+			goto _testEof312
 		}
-	stCase316:
+	stCase312:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 53 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5766,14 +5658,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 565 {
-			goto st317
+			goto st313
 		}
 		goto st0
-	st317:
+	st313:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof317
+			goto _testEof313
 		}
-	stCase317:
+	stCase313:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5782,14 +5674,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 569 {
-			goto st318
+			goto st314
 		}
 		goto st0
-	st318:
+	st314:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof318
+			goto _testEof314
 		}
-	stCase318:
+	stCase314:
 		_widec = int16((m.data)[(m.p)])
 		switch {
 		case (m.data)[(m.p)] < 45:
@@ -5814,18 +5706,18 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 		switch _widec {
 		case 555:
-			goto st319
+			goto st315
 		case 557:
-			goto st319
+			goto st315
 		case 602:
-			goto st324
+			goto st320
 		}
-		goto tr333
-	st319:
+		goto tr327
+	st315:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof319
+			goto _testEof315
 		}
-	stCase319:
+	stCase315:
 		_widec = int16((m.data)[(m.p)])
 		switch {
 		case (m.data)[(m.p)] > 49:
@@ -5842,17 +5734,17 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if _widec == 562 {
-			goto st325
+			goto st321
 		}
 		if 560 <= _widec && _widec <= 561 {
-			goto st320
+			goto st316
 		}
-		goto tr333
-	st320:
+		goto tr327
+	st316:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof320
+			goto _testEof316
 		}
-	stCase320:
+	stCase316:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5861,14 +5753,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 569 {
-			goto st321
+			goto st317
 		}
-		goto tr333
-	st321:
+		goto tr327
+	st317:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof321
+			goto _testEof317
 		}
-	stCase321:
+	stCase317:
 		_widec = int16((m.data)[(m.p)])
 		if 58 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 58 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5877,14 +5769,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if _widec == 570 {
-			goto st322
+			goto st318
 		}
-		goto tr333
-	st322:
+		goto tr327
+	st318:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof322
+			goto _testEof318
 		}
-	stCase322:
+	stCase318:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 53 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5893,14 +5785,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 565 {
-			goto st323
+			goto st319
 		}
-		goto tr333
-	st323:
+		goto tr327
+	st319:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof323
+			goto _testEof319
 		}
-	stCase323:
+	stCase319:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5909,23 +5801,23 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 569 {
-			goto st324
+			goto st320
 		}
-		goto tr333
-	st324:
+		goto tr327
+	st320:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof324
+			goto _testEof320
 		}
-	stCase324:
+	stCase320:
 		if (m.data)[(m.p)] == 32 {
-			goto tr341
+			goto tr335
 		}
 		goto st0
-	st325:
+	st321:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof325
+			goto _testEof321
 		}
-	stCase325:
+	stCase321:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 51 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5934,14 +5826,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 563 {
-			goto st321
+			goto st317
 		}
-		goto tr333
-	st326:
+		goto tr327
+	st322:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof326
+			goto _testEof322
 		}
-	stCase326:
+	stCase322:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 51 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5950,14 +5842,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 563 {
-			goto st312
+			goto st308
 		}
 		goto st0
-	st327:
+	st323:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof327
+			goto _testEof323
 		}
-	stCase327:
+	stCase323:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5966,14 +5858,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 569 {
-			goto st309
+			goto st305
 		}
 		goto st0
-	st328:
+	st324:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof328
+			goto _testEof324
 		}
-	stCase328:
+	stCase324:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 49 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5982,14 +5874,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 561 {
-			goto st309
+			goto st305
 		}
 		goto st0
-	st329:
+	st325:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof329
+			goto _testEof325
 		}
-	stCase329:
+	stCase325:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 50 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5998,39 +5890,39 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 562 {
-			goto st306
+			goto st302
 		}
 		goto st0
 	tr4:
 
 		m.pb = m.p
 
-		goto st330
-	st330:
+		goto st326
+	st326:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof330
+			goto _testEof326
 		}
-	stCase330:
+	stCase326:
 		switch (m.data)[(m.p)] {
 		case 57:
-			goto st332
+			goto st328
 		case 62:
 			goto tr6
 		}
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 56 {
-			goto st331
+			goto st327
 		}
 		goto tr2
 	tr5:
 
 		m.pb = m.p
 
-		goto st331
-	st331:
+		goto st327
+	st327:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof331
+			goto _testEof327
 		}
-	stCase331:
+	stCase327:
 		if (m.data)[(m.p)] == 62 {
 			goto tr6
 		}
@@ -6038,11 +5930,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto st3
 		}
 		goto tr2
-	st332:
+	st328:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof332
+			goto _testEof328
 		}
-	stCase332:
+	stCase328:
 		if (m.data)[(m.p)] == 62 {
 			goto tr6
 		}
@@ -6050,18 +5942,18 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto st3
 		}
 		goto tr2
-	st373:
+	st366:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof373
+			goto _testEof366
 		}
-	stCase373:
+	stCase366:
 		switch (m.data)[(m.p)] {
 		case 10:
 			goto st0
 		case 13:
 			goto st0
 		}
-		goto st373
+		goto st366
 	stOut:
 	_testEof2:
 		m.cs = 2
@@ -6126,6 +6018,18 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	_testEof22:
 		m.cs = 22
 		goto _testEof
+	_testEof329:
+		m.cs = 329
+		goto _testEof
+	_testEof330:
+		m.cs = 330
+		goto _testEof
+	_testEof331:
+		m.cs = 331
+		goto _testEof
+	_testEof332:
+		m.cs = 332
+		goto _testEof
 	_testEof333:
 		m.cs = 333
 		goto _testEof
@@ -6225,15 +6129,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	_testEof365:
 		m.cs = 365
 		goto _testEof
-	_testEof366:
-		m.cs = 366
-		goto _testEof
-	_testEof367:
-		m.cs = 367
-		goto _testEof
-	_testEof368:
-		m.cs = 368
-		goto _testEof
 	_testEof23:
 		m.cs = 23
 		goto _testEof
@@ -6246,18 +6141,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	_testEof26:
 		m.cs = 26
 		goto _testEof
-	_testEof369:
-		m.cs = 369
-		goto _testEof
-	_testEof370:
-		m.cs = 370
-		goto _testEof
-	_testEof371:
-		m.cs = 371
-		goto _testEof
-	_testEof372:
-		m.cs = 372
-		goto _testEof
 	_testEof27:
 		m.cs = 27
 		goto _testEof
@@ -7164,20 +7047,8 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	_testEof328:
 		m.cs = 328
 		goto _testEof
-	_testEof329:
-		m.cs = 329
-		goto _testEof
-	_testEof330:
-		m.cs = 330
-		goto _testEof
-	_testEof331:
-		m.cs = 331
-		goto _testEof
-	_testEof332:
-		m.cs = 332
-		goto _testEof
-	_testEof373:
-		m.cs = 373
+	_testEof366:
+		m.cs = 366
 		goto _testEof
 
 	_testEof:
@@ -7185,9 +7056,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 		if (m.p) == (m.eof) {
 			switch m.cs {
-			case 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 365, 366, 367, 368, 369, 370, 371, 372:
+			case 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 365:
 
-				output.message = string(m.text())
+				output.message = string(m.data[m.msgat:m.p])
 
 			case 1:
 
@@ -7195,59 +7066,50 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				(m.p)--
 
 				{
-					goto st373
+					goto st366
 				}
 
-			case 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 281, 282, 283, 284, 285, 286, 287, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299:
+			case 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 277, 278, 279, 280, 281, 282, 283, 284, 285, 286, 287, 288, 289, 290, 291, 292, 293, 294, 295:
 
 				m.err = fmt.Errorf(errTimestamp, m.p)
 				(m.p)--
 
 				{
-					goto st373
+					goto st366
 				}
 
-			case 318, 319, 320, 321, 322, 323, 325:
+			case 314, 315, 316, 317, 318, 319, 321:
 
 				m.err = fmt.Errorf(errRFC3339, m.p)
 				(m.p)--
 
 				{
-					goto st373
+					goto st366
 				}
 
-			case 20, 21, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 261, 262, 263, 264, 265, 266, 267, 268, 269, 270, 271, 272, 273, 274, 275, 276, 277, 278, 279, 280:
+			case 20, 21, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 261, 262, 263, 264, 265, 266, 267, 268, 269, 270, 271, 272, 273, 274, 275, 276:
 
 				m.err = fmt.Errorf(errHostname, m.p)
 				(m.p)--
 
 				{
-					goto st373
-				}
-
-			case 26:
-
-				m.err = fmt.Errorf(errParse, m.p)
-				(m.p)--
-
-				{
-					goto st373
+					goto st366
 				}
 
-			case 2, 3, 330, 331, 332:
+			case 2, 3, 326, 327, 328:
 
 				m.err = fmt.Errorf(errPrival, m.p)
 				(m.p)--
 
 				{
-					goto st373
+					goto st366
 				}
 
 				m.err = fmt.Errorf(errPri, m.p)
 				(m.p)--
 
 				{
-					goto st373
+					goto st366
 				}
 
 			case 22:
@@ -7256,14 +7118,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				(m.p)--
 
 				{
-					goto st373
+					goto st366
 				}
 
 				m.err = fmt.Errorf(errParse, m.p)
 				(m.p)--
 
 				{
-					goto st373
+					goto st366
 				}
 
 			}
diff --git a/rfc3164/machine.go.rl b/rfc3164/machine.go.rl
index 9f32aa5..a6aafae 100644
--- a/rfc3164/machine.go.rl
+++ b/rfc3164/machine.go.rl
@@ -32,6 +32,14 @@ action mark {
 	m.pb = m.p
 }
 
+action markcontent {
+	m.pb = m.p + 1
+}
+
+action markmsg {
+	m.msgat = m.p
+}
+
 action set_prival {
 	output.priority = uint8(common.UnsafeUTF8DecimalCodePointsToInt(m.text()))
 	output.prioritySet = true
@@ -69,16 +77,22 @@ action set_hostname {
 	output.hostname = string(m.text())
 }
 
+# The part before ": " can be told to be a tag only when the message following it starts (see set_tagcontent)
 action set_tag {
-	output.tag = string(m.text())
+	tag = m.text()
 }
 
 action set_content {
-	output.content = string(m.text())
+	content = m.text()
+}
+
+action set_tagcontent {
+	output.tag = string(tag)
+	output.content = string(content)
 }
 
 action set_message {
-	output.message = string(m.text())
+	output.message = string(m.data[m.msgat:m.p])
 }
 
 action err_prival {
@@ -154,13 +168,14 @@ tag = (print -- [ :\[]){1,32} >mark %set_tag @err(err_tag);
 visible = print | 0x80..0xFF;
 
 # The first not alphanumeric character starts the content (usually containing a PID) part of the message part
-contentval = !alnum @err(err_contentstart) >mark print* %set_content @err(err_content);
+contentval = (visible - csb)* %set_content $err(err_content);
 
-content = '[' contentval ']'; # todo(leodido) > support ':' and ' ' too. Also they have to match?
+content = '[' @markcontent contentval ']'; # todo(leodido) > support ':' and ' ' too. Also they have to match?
 
-mex = visible+ >mark %set_message $err(err_parse);
+# Note that when what precedes ": " is not a tag (with an optional content) the message is the whole part
+mex = visible+ >markmsg %set_message $err(err_parse);
 
-msg = (tag content? ':' sp)? mex;
+msg = (tag content? ':' sp (mex >set_tagcontent)) | mex;
 
 fail := (any - [\n\r])* @err{ fgoto main; };
 
@@ -175,6 +190,7 @@ type machine struct {
 	cs           int
 	p, pe, eof   int
 	pb           int
+	msgat        int
 	err          error
 	bestEffort   bool
 	yyyy         int
@@ -248,10 +264,12 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	m.data = input
 	m.p = 0
 	m.pb = 0
+	m.msgat = 0
 	m.pe = len(input)
 	m.eof = len(input)
 	m.err = nil
 	output := &syslogMessage{}
+	var tag, content []byte
 
 	%% write init;
 	%% write exec;
-- 
2.43.0


From 731669d53fcd465a8b9b3dfa16475c2441915697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 04/22] fix: rfc5424: best effort mode returns the whole
 version when the input ends with it

Only the first digit of the version was retained.
---
 rfc5424/machine.go    | 36 ++++++++++++++++++------------------
 rfc5424/machine.go.rl |  2 +-
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/rfc5424/machine.go b/rfc5424/machine.go
index ddd4a7c..bd0bd8c 100644
--- a/rfc5424/machine.go
+++ b/rfc5424/machine.go
@@ -11924,6 +11924,24 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 
 				output.message = string(m.text())
 
+			case 591, 592:
+
+				output.version = uint16(common.UnsafeUTF8DecimalCodePointsToInt(m.text()))
+
+				m.err = fmt.Errorf(ErrVersion+ColumnPositionTemplate, m.p)
+				(m.p)--
+
+				{
+					goto st614
+				}
+
+				m.err = fmt.Errorf(ErrParse+ColumnPositionTemplate, m.p)
+				(m.p)--
+
+				{
+					goto st614
+				}
+
 			case 18, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94:
 
 				if _, ok := output.structuredData[string(m.text())]; ok {
@@ -11982,24 +12000,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 					goto st614
 				}
 
-			case 591, 592:
-
-				m.err = fmt.Errorf(ErrVersion+ColumnPositionTemplate, m.p)
-				(m.p)--
-
-				{
-					goto st614
-				}
-
-				output.version = uint16(common.UnsafeUTF8DecimalCodePointsToInt(m.text()))
-
-				m.err = fmt.Errorf(ErrParse+ColumnPositionTemplate, m.p)
-				(m.p)--
-
-				{
-					goto st614
-				}
-
 			case 53, 54, 56:
 
 				m.err = fmt.Errorf(ErrEscape+ColumnPositionTemplate, m.p)
diff --git a/rfc5424/machine.go.rl b/rfc5424/machine.go.rl
index f0b9c82..0823be8 100644
--- a/rfc5424/machine.go.rl
+++ b/rfc5424/machine.go.rl
@@ -265,7 +265,7 @@ nilvalue = '-';
 
 pri = ('<' prival >mark %from(set_prival) $err(err_prival) '>') @err(err_pri);
 
-version = (nonzerodigit digit{0,2} <err(err_version)) >mark %from(set_version) %eof(set_version) @err(err_version);
+version = (nonzerodigit digit{0,2} %eof(set_version) <err(err_version)) >mark %from(set_version) @err(err_version);
 
 timestamp = (nilvalue | (fulldate >mark 'T' fulltime %set_timestamp %err(set_timestamp))) @err(err_timestamp);
 
-- 
2.43.0


From 1411e35d2421e2689d3f7c1a2eb026deda7a82e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 05/22] fix: rfc5424: best effort mode retains complete
 structured data elements and parameters

An error at the beginning of a structured data element (parameter) was
discarding the element (parameter) preceding it.
---
 rfc5424/machine.go    | 22 ++++++++++++++++++----
 rfc5424/machine.go.rl |  9 +++++++--
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/rfc5424/machine.go b/rfc5424/machine.go
index bd0bd8c..03508fa 100644
--- a/rfc5424/machine.go
+++ b/rfc5424/machine.go
@@ -1974,6 +1974,13 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 
 		output.structuredData = map[string]map[string]string{}
 
+		m.currentelem = ""
+
+		goto st17
+	tr634:
+
+		m.currentelem = ""
+
 		goto st17
 	st17:
 		if (m.p)++; (m.p) == (m.pe) {
@@ -2040,6 +2047,15 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			m.currentelem = id
 		}
 
+		m.currentparam = ""
+		m.backslashat = []int{}
+
+		goto st19
+	tr98:
+
+		m.currentparam = ""
+		m.backslashat = []int{}
+
 		goto st19
 	st19:
 		if (m.p)++; (m.p) == (m.pe) {
@@ -2064,8 +2080,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		goto tr42
 	tr43:
 
-		m.backslashat = []int{}
-
 		m.pb = m.p
 
 		goto st20
@@ -2846,7 +2860,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase55:
 		switch (m.data)[(m.p)] {
 		case 32:
-			goto st19
+			goto tr98
 		case 93:
 			goto st606
 		}
@@ -2878,7 +2892,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 32:
 			goto st604
 		case 91:
-			goto st17
+			goto tr634
 		}
 		goto tr633
 	tr79:
diff --git a/rfc5424/machine.go.rl b/rfc5424/machine.go.rl
index 0823be8..0fd2ca4 100644
--- a/rfc5424/machine.go.rl
+++ b/rfc5424/machine.go.rl
@@ -128,7 +128,12 @@ action set_id {
 	}
 }
 
+action ini_sdelement {
+	m.currentelem = ""
+}
+
 action ini_sdparam {
+	m.currentparam = ""
 	m.backslashat = []int{}
 }
 
@@ -289,12 +294,12 @@ paramvalue = (utf8charwodelims* escapes*)+ >mark %set_paramvalue;
 
 paramname = sdname >mark %set_paramname;
 
-sdparam = (paramname '=' dq paramvalue dq) >ini_sdparam $err(err_sdparam);
+sdparam = (paramname '=' dq paramvalue dq) $err(err_sdparam);
 
 # (note) > finegrained semantics of section 6.3.2 not represented here since not so useful for parsing goal
 sdid = sdname >mark %set_id %err(set_id) $err(err_sdid);
 
-sdelement = ('[' sdid (sp sdparam)* ']');
+sdelement = ('[' >ini_sdelement sdid (sp >ini_sdparam sdparam)* ']');
 
 structureddata = nilvalue | sdelement+ >ini_elements $err(err_structureddata);
 
-- 
2.43.0


From dc7b89b675ecbb11bf8f3521b614033beea06b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 06/22] fix: common: EscapeBytes does not corrupt non US-ASCII
 characters

---
 common/functions.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/common/functions.go b/common/functions.go
index ce2880c..a93d806 100644
--- a/common/functions.go
+++ b/common/functions.go
@@ -30,12 +30,13 @@ func RemoveBytes(data []byte, positions []int, offset int) []byte {
 // EscapeBytes adds a backslash to \, ], " characters.
 func EscapeBytes(value string) string {
 	res := ""
-	for i, c := range value {
+	for i := 0; i < len(value); i++ {
+		c := value[i]
 		// todo(leodido): generalize byte codes (the function should ideally accept a byte slice containing byte codes to escape)
 		if c == 92 || c == 93 || c == 34 {
 			res += `\`
 		}
-		res += string(value[i])
+		res += value[i : i+1]
 	}
 
 	return res
-- 
2.43.0


From d20c60d3801334921b696b42d602d61f0d86d6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 07/22] fix: rfc5424: do not share the builder state between
 messages

Setting structured data parameters was using package variables, so building
distinct messages concurrently was a data race mixing their parameters.
---
 rfc5424/builder.go    | 40 +++++++++++++++++++++-------------------
 rfc5424/builder.go.rl | 35 +++++++++++++++++++----------------
 2 files changed, 40 insertions(+), 35 deletions(-)

diff --git a/rfc5424/builder.go b/rfc5424/builder.go
index 4aa3baa..23b3f0c 100644
--- a/rfc5424/builder.go
+++ b/rfc5424/builder.go
@@ -61,10 +61,16 @@ func (e entrypoint) translate() int {
 	}
 }
 
-var currentid string
-var currentparamname string
-
 func (sm *SyslogMessage) set(from entrypoint, value string) *SyslogMessage {
+	sm.run(from, value)
+
+	return sm
+}
+
+// run executes the state machine from the given entrypoint.
+//
+// Notice that it does not set structured data param names and values: it outputs them when they are valid.
+func (sm *SyslogMessage) run(from entrypoint, value string) (out string, ok bool) {
 	data := []byte(value)
 	p := 0
 	pb := 0
@@ -9209,9 +9215,8 @@ func (sm *SyslogMessage) set(from entrypoint, value string) *SyslogMessage {
 
 			case 550, 551, 552, 553, 554, 555, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581:
 
-				// Assuming SD map already exists, contains currentid key (set from outside)
-				elements := *sm.StructuredData
-				elements[currentid][string(data[pb:p])] = ""
+				out = string(data[pb:p])
+				ok = true
 
 			case 583:
 
@@ -9221,9 +9226,8 @@ func (sm *SyslogMessage) set(from entrypoint, value string) *SyslogMessage {
 				if len(backslashes) > 0 {
 					text = common.RemoveBytes(text, backslashes, pb)
 				}
-				// Assuming SD map already exists, contains currentid key and currentparamname key (set from outside)
-				elements := *sm.StructuredData
-				elements[currentid][currentparamname] = string(text)
+				out = string(text)
+				ok = true
 
 			case 53:
 
@@ -9241,9 +9245,8 @@ func (sm *SyslogMessage) set(from entrypoint, value string) *SyslogMessage {
 				if len(backslashes) > 0 {
 					text = common.RemoveBytes(text, backslashes, pb)
 				}
-				// Assuming SD map already exists, contains currentid key and currentparamname key (set from outside)
-				elements := *sm.StructuredData
-				elements[currentid][currentparamname] = string(text)
+				out = string(text)
+				ok = true
 
 			case 52:
 
@@ -9261,7 +9264,7 @@ func (sm *SyslogMessage) set(from entrypoint, value string) *SyslogMessage {
 		}
 	}
 
-	return sm
+	return out, ok
 }
 
 // SetPriority set the priority value and the computed facility and severity codes accordingly.
@@ -9330,12 +9333,11 @@ func (sm *SyslogMessage) SetParameter(id string, name string, value string) Buil
 	if sm.StructuredData != nil {
 		elements := *sm.StructuredData
 		if _, ok := elements[id]; ok {
-			currentid = id
-			sm.set(sdpn, name)
-			// We can assign parameter value iff the given parameter key exists
-			if _, ok := elements[id][name]; ok {
-				currentparamname = name
-				sm.set(sdpv, value)
+			if pn, ok := sm.run(sdpn, name); ok {
+				elements[id][pn] = ""
+				if pv, ok := sm.run(sdpv, value); ok {
+					elements[id][pn] = pv
+				}
 			}
 		}
 	}
diff --git a/rfc5424/builder.go.rl b/rfc5424/builder.go.rl
index 3eaccf2..15cdfc7 100644
--- a/rfc5424/builder.go.rl
+++ b/rfc5424/builder.go.rl
@@ -62,9 +62,8 @@ action set_sdid {
 }
 
 action set_sdpn {
-    // Assuming SD map already exists, contains currentid key (set from outside)
-    elements := *sm.StructuredData
-    elements[currentid][string(data[pb:p])] = ""
+    out = string(data[pb:p])
+    ok = true
 }
 
 action markslash {
@@ -78,9 +77,8 @@ action set_sdpv {
     if len(backslashes) > 0 {
         text = common.RemoveBytes(text, backslashes, pb)
     }
-    // Assuming SD map already exists, contains currentid key and currentparamname key (set from outside)
-    elements := *sm.StructuredData
-    elements[currentid][currentparamname] = string(text)
+    out = string(text)
+    ok = true
 }
 
 action set_msg {
@@ -151,10 +149,16 @@ func (e entrypoint) translate() int {
     }
 }
 
-var currentid string
-var currentparamname string
-
 func (sm *SyslogMessage) set(from entrypoint, value string) *SyslogMessage {
+    sm.run(from, value)
+
+    return sm
+}
+
+// run executes the state machine from the given entrypoint.
+//
+// Notice that it does not set structured data param names and values: it outputs them when they are valid.
+func (sm *SyslogMessage) run(from entrypoint, value string) (out string, ok bool) {
     data := []byte(value)
     p := 0
     pb := 0
@@ -164,7 +168,7 @@ func (sm *SyslogMessage) set(from entrypoint, value string) *SyslogMessage {
     backslashes := []int{}
     %% write exec;
 
-    return sm
+    return out, ok
 }
 
 // SetPriority set the priority value and the computed facility and severity codes accordingly.
@@ -233,12 +237,11 @@ func (sm *SyslogMessage) SetParameter(id string, name string, value string) Buil
     if sm.StructuredData != nil {
         elements := *sm.StructuredData
         if _, ok := elements[id]; ok {
-            currentid = id
-            sm.set(sdpn, name)
-            // We can assign parameter value iff the given parameter key exists
-            if _, ok := elements[id][name]; ok {
-                currentparamname = name
-                sm.set(sdpv, value)
+            if pn, ok := sm.run(sdpn, name); ok {
+                elements[id][pn] = ""
+                if pv, ok := sm.run(sdpv, value); ok {
+                    elements[id][pn] = pv
+                }
             }
         }
     }
-- 
2.43.0


From e697c9e16bd3729718b4f363dbc1d101fca366a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 08/22] fix: rfc5424: builder ignores structured data
 parameters having an invalid value

A not valid value was emptying the parameter already set, or was creating an
empty parameter.
---
 rfc5424/builder.go    | 3 +--
 rfc5424/builder.go.rl | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/rfc5424/builder.go b/rfc5424/builder.go
index 23b3f0c..e5c97b2 100644
--- a/rfc5424/builder.go
+++ b/rfc5424/builder.go
@@ -9329,12 +9329,11 @@ func (sm *SyslogMessage) SetParameter(id string, name string, value string) Buil
 	// Create an element with the given id (or re-use the existing one)
 	sm.set(sdid, id)
 
-	// We can create parameter iff the given element id exists
+	// We can create parameter iff the given element id exists, and both its name and its value are valid
 	if sm.StructuredData != nil {
 		elements := *sm.StructuredData
 		if _, ok := elements[id]; ok {
 			if pn, ok := sm.run(sdpn, name); ok {
-				elements[id][pn] = ""
 				if pv, ok := sm.run(sdpv, value); ok {
 					elements[id][pn] = pv
 				}
diff --git a/rfc5424/builder.go.rl b/rfc5424/builder.go.rl
index 15cdfc7..ae8bb86 100644
--- a/rfc5424/builder.go.rl
+++ b/rfc5424/builder.go.rl
@@ -233,12 +233,11 @@ func (sm *SyslogMessage) SetParameter(id string, name string, value string) Buil
     // Create an element with the given id (or re-use the existing one)
     sm.set(sdid, id)
 
-    // We can create parameter iff the given element id exists
+    // We can create parameter iff the given element id exists, and both its name and its value are valid
     if sm.StructuredData != nil {
         elements := *sm.StructuredData
         if _, ok := elements[id]; ok {
             if pn, ok := sm.run(sdpn, name); ok {
-                elements[id][pn] = ""
                 if pv, ok := sm.run(sdpv, value); ok {
                     elements[id][pn] = pv
                 }
-- 
2.43.0


From 7feea534f41c11db63f62d1e46a05992abf8d559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 09/22] fix: rfc5424: builder does not overwrite an existing
 structured data parameter

As documented, when the parameter already exists the operation is discarded.
---
 rfc5424/builder.go    | 4 +++-
 rfc5424/builder.go.rl | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/rfc5424/builder.go b/rfc5424/builder.go
index e5c97b2..84a4f64 100644
--- a/rfc5424/builder.go
+++ b/rfc5424/builder.go
@@ -9335,7 +9335,9 @@ func (sm *SyslogMessage) SetParameter(id string, name string, value string) Buil
 		if _, ok := elements[id]; ok {
 			if pn, ok := sm.run(sdpn, name); ok {
 				if pv, ok := sm.run(sdpv, value); ok {
-					elements[id][pn] = pv
+					if _, exists := elements[id][pn]; !exists {
+						elements[id][pn] = pv
+					}
 				}
 			}
 		}
diff --git a/rfc5424/builder.go.rl b/rfc5424/builder.go.rl
index ae8bb86..dc47e4a 100644
--- a/rfc5424/builder.go.rl
+++ b/rfc5424/builder.go.rl
@@ -239,7 +239,9 @@ func (sm *SyslogMessage) SetParameter(id string, name string, value string) Buil
         if _, ok := elements[id]; ok {
             if pn, ok := sm.run(sdpn, name); ok {
                 if pv, ok := sm.run(sdpv, value); ok {
-                    elements[id][pn] = pv
+                    if _, exists := elements[id][pn]; !exists {
+                        elements[id][pn] = pv
+                    }
                 }
             }
         }
-- 
2.43.0


From 81a7280a3c607563db3e9cc0bc7582025ecda1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 10/22] fix: octetcounting: MSGLEN contains digits only and
 does not start with zero

---
 octetcounting/scanner.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/octetcounting/scanner.go b/octetcounting/scanner.go
index 7e5f2bb..4f01450 100644
--- a/octetcounting/scanner.go
+++ b/octetcounting/scanner.go
@@ -18,12 +18,12 @@ var lt = byte(60)
 
 // isDigit returns true if the byte represents a number in [0,9]
 func isDigit(ch byte) bool {
-	return (ch >= 47 && ch <= 57)
+	return (ch >= 48 && ch <= 57)
 }
 
 // isNonZeroDigit returns true if the byte represents a number in ]0,9]
 func isNonZeroDigit(ch byte) bool {
-	return (ch >= 48 && ch <= 57)
+	return (ch >= 49 && ch <= 57)
 }
 
 // Scanner represents the lexical scanner for octet counting transport.
-- 
2.43.0


From 2f392f038973e3c97228785c333adb5fb1265b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:39 +0000
Subject: [PATCH 11/22] fix: octetcounting: messages having a length
 overflowing int are too long

---
 octetcounting/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/octetcounting/parser.go b/octetcounting/parser.go
index cbdbaac..ee6e6b0 100644
--- a/octetcounting/parser.go
+++ b/octetcounting/parser.go
@@ -86,7 +86,8 @@ func (p *parser) run() {
 			break
 		}
 
-		if int(p.s.msglen) > p.maxMessageLength {
+		// Comparing unsigned integers since MSGLEN could overflow int
+		if p.maxMessageLength < 0 || p.s.msglen > uint64(p.maxMessageLength) {
 			p.emit(&syslog.Result{
 				Error: fmt.Errorf("message too long to parse. was size %d, max length %d", p.s.msglen, p.maxMessageLength),
 			})
-- 
2.43.0


From c760866e3f12160a5b8e50b1929161af59d822cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 12/22] fix: octetcounting: do not handle the NUL byte as the
 end of the stream

---
 octetcounting/scanner.go | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/octetcounting/scanner.go b/octetcounting/scanner.go
index 4f01450..42f0da4 100644
--- a/octetcounting/scanner.go
+++ b/octetcounting/scanner.go
@@ -7,9 +7,6 @@ import (
 	"strconv"
 )
 
-// eof represents a marker byte for the end of the reader
-var eof = byte(0)
-
 // ws represents the whitespace
 var ws = byte(32)
 
@@ -41,13 +38,10 @@ func NewScanner(r io.Reader, maxLength int) *Scanner {
 }
 
 // read reads the next byte from the buffered reader
-// it returns the byte(0) if an error occurs (or io.EOF is returned)
-func (s *Scanner) read() byte {
+// it returns false if an error occurs (or io.EOF is returned)
+func (s *Scanner) read() (byte, bool) {
 	b, err := s.r.ReadByte()
-	if err != nil {
-		return eof
-	}
-	return b
+	return b, err == nil
 }
 
 // unread places the previously read byte back on the reader
@@ -58,7 +52,13 @@ func (s *Scanner) unread() {
 // Scan returns the next token.
 func (s *Scanner) Scan() (tok Token) {
 	// Read the next byte.
-	b := s.read()
+	b, ok := s.read()
+	if !ok {
+		s.ready = false
+		return Token{
+			typ: EOF,
+		}
+	}
 
 	if isNonZeroDigit(b) {
 		s.unread()
@@ -68,11 +68,6 @@ func (s *Scanner) Scan() (tok Token) {
 
 	// Otherwise read the individual character
 	switch b {
-	case eof:
-		s.ready = false
-		return Token{
-			typ: EOF,
-		}
 	case ws:
 		s.ready = true
 		return Token{
@@ -95,12 +90,14 @@ func (s *Scanner) Scan() (tok Token) {
 func (s *Scanner) scanMsgLen() Token {
 	// Create a buffer and read the current character into it
 	var buf bytes.Buffer
-	buf.WriteByte(s.read())
+	if b, ok := s.read(); ok {
+		buf.WriteByte(b)
+	}
 
 	// Read every subsequent digit character into the buffer
 	// Non-digit characters and EOF will cause the loop to exit
 	for {
-		if b := s.read(); b == eof {
+		if b, ok := s.read(); !ok {
 			break
 		} else if !isDigit(b) {
 			s.unread()
-- 
2.43.0


From ec3f898d30e16d03bddb233e02374ed604d91a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 13/22] fix: nontransparent: parsing a stream does not emit
 messages of the previous stream

---
 nontransparent/parser.go    | 5 +++++
 nontransparent/parser.go.rl | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/nontransparent/parser.go b/nontransparent/parser.go
index c587202..18aa819 100644
--- a/nontransparent/parser.go
+++ b/nontransparent/parser.go
@@ -255,6 +255,11 @@ func (m *machine) WithListener(f syslog.ParserListener) {
 //
 // It stops parsing when an error regarding RFC 6587 is found.
 func (m *machine) Parse(reader io.Reader) {
+	// Forget about the previously parsed stream
+	m.candidate = nil
+	m.lastChunk = nil
+	m.readError = nil
+
 	r := parser.ArbitraryReader(reader, m.trailer)
 	parser.New(r, m, parser.WithStart(1)).Parse()
 }
diff --git a/nontransparent/parser.go.rl b/nontransparent/parser.go.rl
index 1dde434..1b62178 100644
--- a/nontransparent/parser.go.rl
+++ b/nontransparent/parser.go.rl
@@ -146,6 +146,11 @@ func (m *machine) WithListener(f syslog.ParserListener) {
 //
 // It stops parsing when an error regarding RFC 6587 is found.
 func (m *machine) Parse(reader io.Reader) {
+    // Forget about the previously parsed stream
+    m.candidate = nil
+    m.lastChunk = nil
+    m.readError = nil
+
     r := parser.ArbitraryReader(reader, m.trailer)
     parser.New(r, m, parser.WithStart(%%{ write start; }%%)).Parse()
 }
-- 
2.43.0


From f9f5e77a61bf4b70f7aeec66e03494d44aaabd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 14/22] fix: rfc3164: report an error for each rejected
 timestamp

An incomplete RFC3339 timestamp, or a timestamp not followed by a space, was
rejected returning neither a message nor an error.
---
 rfc3164/machine.go    | 1470 ++++++++++++++++++++++-------------------
 rfc3164/machine.go.rl |    4 +-
 2 files changed, 800 insertions(+), 674 deletions(-)

diff --git a/rfc3164/machine.go b/rfc3164/machine.go
index dab3d43..352e8c8 100644
--- a/rfc3164/machine.go
+++ b/rfc3164/machine.go
@@ -866,6 +866,13 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto st366
 		}
 
+		m.err = fmt.Errorf(errParse, m.p)
+		(m.p)--
+
+		{
+			goto st366
+		}
+
 		goto st0
 	tr2:
 
@@ -883,6 +890,13 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto st366
 		}
 
+		m.err = fmt.Errorf(errParse, m.p)
+		(m.p)--
+
+		{
+			goto st366
+		}
+
 		goto st0
 	tr7:
 
@@ -893,8 +907,49 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto st366
 		}
 
+		m.err = fmt.Errorf(errRFC3339, m.p)
+		(m.p)--
+
+		{
+			goto st366
+		}
+
+		m.err = fmt.Errorf(errParse, m.p)
+		(m.p)--
+
+		{
+			goto st366
+		}
+
 		goto st0
-	tr37:
+	tr17:
+
+		m.err = fmt.Errorf(errTimestamp, m.p)
+		(m.p)--
+
+		{
+			goto st366
+		}
+
+		m.err = fmt.Errorf(errParse, m.p)
+		(m.p)--
+
+		{
+			goto st366
+		}
+
+		goto st0
+	tr36:
+
+		m.err = fmt.Errorf(errParse, m.p)
+		(m.p)--
+
+		{
+			goto st366
+		}
+
+		goto st0
+	tr38:
 
 		m.err = fmt.Errorf(errHostname, m.p)
 		(m.p)--
@@ -903,8 +958,15 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto st366
 		}
 
+		m.err = fmt.Errorf(errParse, m.p)
+		(m.p)--
+
+		{
+			goto st366
+		}
+
 		goto st0
-	tr41:
+	tr42:
 
 		m.err = fmt.Errorf(errTag, m.p)
 		(m.p)--
@@ -921,7 +983,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 
 		goto st0
-	tr327:
+	tr306:
 
 		m.err = fmt.Errorf(errRFC3339, m.p)
 		(m.p)--
@@ -930,9 +992,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto st366
 		}
 
-		goto st0
-	tr339:
-
 		m.err = fmt.Errorf(errParse, m.p)
 		(m.p)--
 
@@ -1047,7 +1106,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 117:
 			goto st280
 		}
-		goto tr7
+		goto tr17
 	st6:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof6
@@ -1056,7 +1115,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if (m.data)[(m.p)] == 114 {
 			goto st7
 		}
-		goto tr7
+		goto tr17
 	st7:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof7
@@ -1065,7 +1124,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if (m.data)[(m.p)] == 32 {
 			goto st8
 		}
-		goto tr7
+		goto tr17
 	st8:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof8
@@ -1080,7 +1139,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 49 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 50 {
 			goto st278
 		}
-		goto tr7
+		goto tr17
 	st9:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof9
@@ -1089,7 +1148,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 49 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			goto st10
 		}
-		goto tr7
+		goto tr17
 	st10:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof10
@@ -1098,7 +1157,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if (m.data)[(m.p)] == 32 {
 			goto st11
 		}
-		goto tr7
+		goto tr17
 	st11:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof11
@@ -1110,7 +1169,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 49 {
 			goto st12
 		}
-		goto tr7
+		goto tr17
 	st12:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof12
@@ -1119,7 +1178,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			goto st13
 		}
-		goto tr7
+		goto tr17
 	st13:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof13
@@ -1128,7 +1187,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if (m.data)[(m.p)] == 58 {
 			goto st14
 		}
-		goto tr7
+		goto tr17
 	st14:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof14
@@ -1137,7 +1196,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 53 {
 			goto st15
 		}
-		goto tr7
+		goto tr17
 	st15:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof15
@@ -1146,7 +1205,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			goto st16
 		}
-		goto tr7
+		goto tr17
 	st16:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof16
@@ -1155,7 +1214,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if (m.data)[(m.p)] == 58 {
 			goto st17
 		}
-		goto tr7
+		goto tr17
 	st17:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof17
@@ -1164,7 +1223,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 53 {
 			goto st18
 		}
-		goto tr7
+		goto tr17
 	st18:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof18
@@ -1173,17 +1232,17 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			goto st19
 		}
-		goto tr7
+		goto tr17
 	st19:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof19
 		}
 	stCase19:
 		if (m.data)[(m.p)] == 32 {
-			goto tr35
+			goto tr37
 		}
-		goto st0
-	tr35:
+		goto tr36
+	tr37:
 
 		if t, e := time.Parse(time.Stamp, string(m.text())); e != nil {
 			m.err = fmt.Errorf("%s [col %d]", e, m.p)
@@ -1204,7 +1263,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 
 		goto st20
-	tr335:
+	tr336:
 
 		if t, e := time.Parse(time.RFC3339, string(m.text())); e != nil {
 			m.err = fmt.Errorf("%s [col %d]", e, m.p)
@@ -1225,10 +1284,10 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 	stCase20:
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
-			goto tr38
+			goto tr39
 		}
-		goto tr37
-	tr38:
+		goto tr38
+	tr39:
 
 		m.pb = m.p
 
@@ -1239,13 +1298,13 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 	stCase21:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st23
 		}
-		goto tr37
-	tr39:
+		goto tr38
+	tr40:
 
 		output.hostname = string(m.text())
 
@@ -1256,27 +1315,27 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 	stCase22:
 		if (m.data)[(m.p)] == 127 {
-			goto tr41
+			goto tr42
 		}
 		switch {
 		case (m.data)[(m.p)] < 33:
 			if (m.data)[(m.p)] <= 31 {
-				goto tr41
+				goto tr42
 			}
 		case (m.data)[(m.p)] > 57:
 			switch {
 			case (m.data)[(m.p)] > 90:
 				if 92 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
-					goto tr43
+					goto tr44
 				}
 			case (m.data)[(m.p)] >= 59:
-				goto tr43
+				goto tr44
 			}
 		default:
-			goto tr43
+			goto tr44
 		}
-		goto tr42
-	tr42:
+		goto tr43
+	tr43:
 
 		m.msgat = m.p
 
@@ -1295,13 +1354,13 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 	stCase329:
 		if (m.data)[(m.p)] == 127 {
-			goto tr339
+			goto tr36
 		}
 		if (m.data)[(m.p)] <= 31 {
-			goto tr339
+			goto tr36
 		}
 		goto st329
-	tr43:
+	tr44:
 
 		m.pb = m.p
 
@@ -1319,7 +1378,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 91:
 			goto tr343
 		case 127:
-			goto tr339
+			goto tr36
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1327,7 +1386,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st331
 			}
 		default:
-			goto tr339
+			goto tr36
 		}
 		goto st329
 	st331:
@@ -1341,7 +1400,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 91:
 			goto tr343
 		case 127:
-			goto tr339
+			goto tr36
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1349,7 +1408,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st332
 			}
 		default:
-			goto tr339
+			goto tr36
 		}
 		goto st329
 	st332:
@@ -1363,7 +1422,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 91:
 			goto tr343
 		case 127:
-			goto tr339
+			goto tr36
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1371,7 +1430,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st333
 			}
 		default:
-			goto tr339
+			goto tr36
 		}
 		goto st329
 	st333:
@@ -1385,7 +1444,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 91:
 			goto tr343
 		case 127:
-			goto tr339
+			goto tr36
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1393,7 +1452,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st334
 			}
 		default:
-			goto tr339
+			goto tr36
 		}
 		goto st329
 	st334:
@@ -1407,7 +1466,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 91:
 			goto tr343
 		case 127:
-			goto tr339
+			goto tr36
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1415,7 +1474,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st335
 			}
 		default:
-			goto tr339
+			goto tr36
 		}
 		goto st329
 	st335:
@@ -1429,7 +1488,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 91:
 			goto tr343
 		case 127:
-			goto tr339
+			goto tr36
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1437,7 +1496,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st336
 			}
 		default:
-			goto tr339
+			goto tr36
 		}
 		goto st329
 	st336:
@@ -1451,7 +1510,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 91:
 			goto tr343
 		case 127:
-			goto tr339
+			goto tr36
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1459,7 +1518,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st337
 			}
 		default:
-			goto tr339
+			goto tr36
 		}
 		goto st329
 	st337:
@@ -1473,7 +1532,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 91:
 			goto tr343
 		case 127:
-			goto tr339
+			goto tr36
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1481,7 +1540,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st338
 			}
 		default:
-			goto tr339
+			goto tr36
 		}
 		goto st329
 	st338:
@@ -1495,7 +1554,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 91:
 			goto tr343
 		case 127:
-			goto tr339
+			goto tr36
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1503,7 +1562,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st339
 			}
 		default:
-			goto tr339
+			goto tr36
 		}
 		goto st329
 	st339:
@@ -1517,7 +1576,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 91:
 			goto tr343
 		case 127:
-			goto tr339
+			goto tr36
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1525,7 +1584,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st340
 			}
 		default:
-			goto tr339
+			goto tr36
 		}
 		goto st329
 	st340:
@@ -1539,7 +1598,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 91:
 			goto tr343
 		case 127:
-			goto tr339
+			goto tr36
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1547,7 +1606,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st341
 			}
 		default:
-			goto tr339
+			goto tr36
 		}
 		goto st329
 	st341:
@@ -1561,7 +1620,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 91:
 			goto tr343
 		case 127:
-			goto tr339
+			goto tr36
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1569,7 +1628,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st342
 			}
 		default:
-			goto tr339
+			goto tr36
 		}
 		goto st329
 	st342:
@@ -1583,7 +1642,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 91:
 			goto tr343
 		case 127:
-			goto tr339
+			goto tr36
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1591,7 +1650,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st343
 			}
 		default:
-			goto tr339
+			goto tr36
 		}
 		goto st329
 	st343:
@@ -1605,7 +1664,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 91:
 			goto tr343
 		case 127:
-			goto tr339
+			goto tr36
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1613,7 +1672,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st344
 			}
 		default:
-			goto tr339
+			goto tr36
 		}
 		goto st329
 	st344:
@@ -1627,7 +1686,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 91:
 			goto tr343
 		case 127:
-			goto tr339
+			goto tr36
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1635,7 +1694,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st345
 			}
 		default:
-			goto tr339
+			goto tr36
 		}
 		goto st329
 	st345:
@@ -1649,7 +1708,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 91:
 			goto tr343
 		case 127:
-			goto tr339
+			goto tr36
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1657,7 +1716,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st346
 			}
 		default:
-			goto tr339
+			goto tr36
 		}
 		goto st329
 	st346:
@@ -1671,7 +1730,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 91:
 			goto tr343
 		case 127:
-			goto tr339
+			goto tr36
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1679,7 +1738,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st347
 			}
 		default:
-			goto tr339
+			goto tr36
 		}
 		goto st329
 	st347:
@@ -1693,7 +1752,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 91:
 			goto tr343
 		case 127:
-			goto tr339
+			goto tr36
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1701,7 +1760,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st348
 			}
 		default:
-			goto tr339
+			goto tr36
 		}
 		goto st329
 	st348:
@@ -1715,7 +1774,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 91:
 			goto tr343
 		case 127:
-			goto tr339
+			goto tr36
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1723,7 +1782,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st349
 			}
 		default:
-			goto tr339
+			goto tr36
 		}
 		goto st329
 	st349:
@@ -1737,7 +1796,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 91:
 			goto tr343
 		case 127:
-			goto tr339
+			goto tr36
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1745,7 +1804,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st350
 			}
 		default:
-			goto tr339
+			goto tr36
 		}
 		goto st329
 	st350:
@@ -1759,7 +1818,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 91:
 			goto tr343
 		case 127:
-			goto tr339
+			goto tr36
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1767,7 +1826,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st351
 			}
 		default:
-			goto tr339
+			goto tr36
 		}
 		goto st329
 	st351:
@@ -1781,7 +1840,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 91:
 			goto tr343
 		case 127:
-			goto tr339
+			goto tr36
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1789,7 +1848,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st352
 			}
 		default:
-			goto tr339
+			goto tr36
 		}
 		goto st329
 	st352:
@@ -1803,7 +1862,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 91:
 			goto tr343
 		case 127:
-			goto tr339
+			goto tr36
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1811,7 +1870,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st353
 			}
 		default:
-			goto tr339
+			goto tr36
 		}
 		goto st329
 	st353:
@@ -1825,7 +1884,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 91:
 			goto tr343
 		case 127:
-			goto tr339
+			goto tr36
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1833,7 +1892,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st354
 			}
 		default:
-			goto tr339
+			goto tr36
 		}
 		goto st329
 	st354:
@@ -1847,7 +1906,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 91:
 			goto tr343
 		case 127:
-			goto tr339
+			goto tr36
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1855,7 +1914,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st355
 			}
 		default:
-			goto tr339
+			goto tr36
 		}
 		goto st329
 	st355:
@@ -1869,7 +1928,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 91:
 			goto tr343
 		case 127:
-			goto tr339
+			goto tr36
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1877,7 +1936,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st356
 			}
 		default:
-			goto tr339
+			goto tr36
 		}
 		goto st329
 	st356:
@@ -1891,7 +1950,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 91:
 			goto tr343
 		case 127:
-			goto tr339
+			goto tr36
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1899,7 +1958,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st357
 			}
 		default:
-			goto tr339
+			goto tr36
 		}
 		goto st329
 	st357:
@@ -1913,7 +1972,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 91:
 			goto tr343
 		case 127:
-			goto tr339
+			goto tr36
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1921,7 +1980,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st358
 			}
 		default:
-			goto tr339
+			goto tr36
 		}
 		goto st329
 	st358:
@@ -1935,7 +1994,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 91:
 			goto tr343
 		case 127:
-			goto tr339
+			goto tr36
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1943,7 +2002,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st359
 			}
 		default:
-			goto tr339
+			goto tr36
 		}
 		goto st329
 	st359:
@@ -1957,7 +2016,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 91:
 			goto tr343
 		case 127:
-			goto tr339
+			goto tr36
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1965,7 +2024,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st360
 			}
 		default:
-			goto tr339
+			goto tr36
 		}
 		goto st329
 	st360:
@@ -1979,7 +2038,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 91:
 			goto tr343
 		case 127:
-			goto tr339
+			goto tr36
 		}
 		switch {
 		case (m.data)[(m.p)] > 31:
@@ -1987,7 +2046,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				goto st361
 			}
 		default:
-			goto tr339
+			goto tr36
 		}
 		goto st329
 	st361:
@@ -2001,10 +2060,10 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 91:
 			goto tr343
 		case 127:
-			goto tr339
+			goto tr36
 		}
 		if (m.data)[(m.p)] <= 31 {
-			goto tr339
+			goto tr36
 		}
 		goto st329
 	tr342:
@@ -2021,10 +2080,10 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 32:
 			goto st363
 		case 127:
-			goto tr339
+			goto tr36
 		}
 		if (m.data)[(m.p)] <= 31 {
-			goto tr339
+			goto tr36
 		}
 		goto st329
 	st363:
@@ -2033,10 +2092,10 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 	stCase363:
 		if (m.data)[(m.p)] == 127 {
-			goto tr339
+			goto tr36
 		}
 		if (m.data)[(m.p)] <= 31 {
-			goto tr339
+			goto tr36
 		}
 		goto tr375
 	tr343:
@@ -2075,10 +2134,10 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 58:
 			goto st362
 		case 127:
-			goto tr339
+			goto tr36
 		}
 		if (m.data)[(m.p)] <= 31 {
-			goto tr339
+			goto tr36
 		}
 		goto st329
 	st23:
@@ -2087,3045 +2146,3045 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 	stCase23:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st24
 		}
-		goto tr37
+		goto tr38
 	st24:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof24
 		}
 	stCase24:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st25
 		}
-		goto tr37
+		goto tr38
 	st25:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof25
 		}
 	stCase25:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st26
 		}
-		goto tr37
+		goto tr38
 	st26:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof26
 		}
 	stCase26:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st27
 		}
-		goto tr37
+		goto tr38
 	st27:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof27
 		}
 	stCase27:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st28
 		}
-		goto tr37
+		goto tr38
 	st28:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof28
 		}
 	stCase28:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st29
 		}
-		goto tr37
+		goto tr38
 	st29:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof29
 		}
 	stCase29:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st30
 		}
-		goto tr37
+		goto tr38
 	st30:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof30
 		}
 	stCase30:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st31
 		}
-		goto tr37
+		goto tr38
 	st31:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof31
 		}
 	stCase31:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st32
 		}
-		goto tr37
+		goto tr38
 	st32:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof32
 		}
 	stCase32:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st33
 		}
-		goto tr37
+		goto tr38
 	st33:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof33
 		}
 	stCase33:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st34
 		}
-		goto tr37
+		goto tr38
 	st34:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof34
 		}
 	stCase34:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st35
 		}
-		goto tr37
+		goto tr38
 	st35:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof35
 		}
 	stCase35:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st36
 		}
-		goto tr37
+		goto tr38
 	st36:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof36
 		}
 	stCase36:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st37
 		}
-		goto tr37
+		goto tr38
 	st37:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof37
 		}
 	stCase37:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st38
 		}
-		goto tr37
+		goto tr38
 	st38:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof38
 		}
 	stCase38:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st39
 		}
-		goto tr37
+		goto tr38
 	st39:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof39
 		}
 	stCase39:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st40
 		}
-		goto tr37
+		goto tr38
 	st40:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof40
 		}
 	stCase40:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st41
 		}
-		goto tr37
+		goto tr38
 	st41:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof41
 		}
 	stCase41:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st42
 		}
-		goto tr37
+		goto tr38
 	st42:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof42
 		}
 	stCase42:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st43
 		}
-		goto tr37
+		goto tr38
 	st43:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof43
 		}
 	stCase43:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st44
 		}
-		goto tr37
+		goto tr38
 	st44:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof44
 		}
 	stCase44:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st45
 		}
-		goto tr37
+		goto tr38
 	st45:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof45
 		}
 	stCase45:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st46
 		}
-		goto tr37
+		goto tr38
 	st46:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof46
 		}
 	stCase46:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st47
 		}
-		goto tr37
+		goto tr38
 	st47:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof47
 		}
 	stCase47:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st48
 		}
-		goto tr37
+		goto tr38
 	st48:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof48
 		}
 	stCase48:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st49
 		}
-		goto tr37
+		goto tr38
 	st49:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof49
 		}
 	stCase49:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st50
 		}
-		goto tr37
+		goto tr38
 	st50:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof50
 		}
 	stCase50:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st51
 		}
-		goto tr37
+		goto tr38
 	st51:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof51
 		}
 	stCase51:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st52
 		}
-		goto tr37
+		goto tr38
 	st52:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof52
 		}
 	stCase52:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st53
 		}
-		goto tr37
+		goto tr38
 	st53:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof53
 		}
 	stCase53:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st54
 		}
-		goto tr37
+		goto tr38
 	st54:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof54
 		}
 	stCase54:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st55
 		}
-		goto tr37
+		goto tr38
 	st55:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof55
 		}
 	stCase55:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st56
 		}
-		goto tr37
+		goto tr38
 	st56:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof56
 		}
 	stCase56:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st57
 		}
-		goto tr37
+		goto tr38
 	st57:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof57
 		}
 	stCase57:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st58
 		}
-		goto tr37
+		goto tr38
 	st58:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof58
 		}
 	stCase58:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st59
 		}
-		goto tr37
+		goto tr38
 	st59:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof59
 		}
 	stCase59:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st60
 		}
-		goto tr37
+		goto tr38
 	st60:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof60
 		}
 	stCase60:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st61
 		}
-		goto tr37
+		goto tr38
 	st61:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof61
 		}
 	stCase61:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st62
 		}
-		goto tr37
+		goto tr38
 	st62:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof62
 		}
 	stCase62:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st63
 		}
-		goto tr37
+		goto tr38
 	st63:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof63
 		}
 	stCase63:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st64
 		}
-		goto tr37
+		goto tr38
 	st64:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof64
 		}
 	stCase64:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st65
 		}
-		goto tr37
+		goto tr38
 	st65:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof65
 		}
 	stCase65:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st66
 		}
-		goto tr37
+		goto tr38
 	st66:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof66
 		}
 	stCase66:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st67
 		}
-		goto tr37
+		goto tr38
 	st67:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof67
 		}
 	stCase67:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st68
 		}
-		goto tr37
+		goto tr38
 	st68:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof68
 		}
 	stCase68:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st69
 		}
-		goto tr37
+		goto tr38
 	st69:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof69
 		}
 	stCase69:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st70
 		}
-		goto tr37
+		goto tr38
 	st70:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof70
 		}
 	stCase70:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st71
 		}
-		goto tr37
+		goto tr38
 	st71:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof71
 		}
 	stCase71:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st72
 		}
-		goto tr37
+		goto tr38
 	st72:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof72
 		}
 	stCase72:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st73
 		}
-		goto tr37
+		goto tr38
 	st73:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof73
 		}
 	stCase73:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st74
 		}
-		goto tr37
+		goto tr38
 	st74:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof74
 		}
 	stCase74:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st75
 		}
-		goto tr37
+		goto tr38
 	st75:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof75
 		}
 	stCase75:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st76
 		}
-		goto tr37
+		goto tr38
 	st76:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof76
 		}
 	stCase76:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st77
 		}
-		goto tr37
+		goto tr38
 	st77:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof77
 		}
 	stCase77:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st78
 		}
-		goto tr37
+		goto tr38
 	st78:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof78
 		}
 	stCase78:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st79
 		}
-		goto tr37
+		goto tr38
 	st79:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof79
 		}
 	stCase79:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st80
 		}
-		goto tr37
+		goto tr38
 	st80:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof80
 		}
 	stCase80:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st81
 		}
-		goto tr37
+		goto tr38
 	st81:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof81
 		}
 	stCase81:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st82
 		}
-		goto tr37
+		goto tr38
 	st82:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof82
 		}
 	stCase82:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st83
 		}
-		goto tr37
+		goto tr38
 	st83:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof83
 		}
 	stCase83:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st84
 		}
-		goto tr37
+		goto tr38
 	st84:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof84
 		}
 	stCase84:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st85
 		}
-		goto tr37
+		goto tr38
 	st85:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof85
 		}
 	stCase85:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st86
 		}
-		goto tr37
+		goto tr38
 	st86:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof86
 		}
 	stCase86:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st87
 		}
-		goto tr37
+		goto tr38
 	st87:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof87
 		}
 	stCase87:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st88
 		}
-		goto tr37
+		goto tr38
 	st88:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof88
 		}
 	stCase88:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st89
 		}
-		goto tr37
+		goto tr38
 	st89:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof89
 		}
 	stCase89:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st90
 		}
-		goto tr37
+		goto tr38
 	st90:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof90
 		}
 	stCase90:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st91
 		}
-		goto tr37
+		goto tr38
 	st91:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof91
 		}
 	stCase91:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st92
 		}
-		goto tr37
+		goto tr38
 	st92:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof92
 		}
 	stCase92:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st93
 		}
-		goto tr37
+		goto tr38
 	st93:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof93
 		}
 	stCase93:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st94
 		}
-		goto tr37
+		goto tr38
 	st94:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof94
 		}
 	stCase94:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st95
 		}
-		goto tr37
+		goto tr38
 	st95:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof95
 		}
 	stCase95:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st96
 		}
-		goto tr37
+		goto tr38
 	st96:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof96
 		}
 	stCase96:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st97
 		}
-		goto tr37
+		goto tr38
 	st97:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof97
 		}
 	stCase97:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st98
 		}
-		goto tr37
+		goto tr38
 	st98:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof98
 		}
 	stCase98:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st99
 		}
-		goto tr37
+		goto tr38
 	st99:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof99
 		}
 	stCase99:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st100
 		}
-		goto tr37
+		goto tr38
 	st100:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof100
 		}
 	stCase100:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st101
 		}
-		goto tr37
+		goto tr38
 	st101:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof101
 		}
 	stCase101:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st102
 		}
-		goto tr37
+		goto tr38
 	st102:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof102
 		}
 	stCase102:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st103
 		}
-		goto tr37
+		goto tr38
 	st103:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof103
 		}
 	stCase103:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st104
 		}
-		goto tr37
+		goto tr38
 	st104:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof104
 		}
 	stCase104:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st105
 		}
-		goto tr37
+		goto tr38
 	st105:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof105
 		}
 	stCase105:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st106
 		}
-		goto tr37
+		goto tr38
 	st106:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof106
 		}
 	stCase106:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st107
 		}
-		goto tr37
+		goto tr38
 	st107:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof107
 		}
 	stCase107:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st108
 		}
-		goto tr37
+		goto tr38
 	st108:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof108
 		}
 	stCase108:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st109
 		}
-		goto tr37
+		goto tr38
 	st109:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof109
 		}
 	stCase109:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st110
 		}
-		goto tr37
+		goto tr38
 	st110:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof110
 		}
 	stCase110:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st111
 		}
-		goto tr37
+		goto tr38
 	st111:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof111
 		}
 	stCase111:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st112
 		}
-		goto tr37
+		goto tr38
 	st112:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof112
 		}
 	stCase112:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st113
 		}
-		goto tr37
+		goto tr38
 	st113:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof113
 		}
 	stCase113:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st114
 		}
-		goto tr37
+		goto tr38
 	st114:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof114
 		}
 	stCase114:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st115
 		}
-		goto tr37
+		goto tr38
 	st115:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof115
 		}
 	stCase115:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st116
 		}
-		goto tr37
+		goto tr38
 	st116:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof116
 		}
 	stCase116:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st117
 		}
-		goto tr37
+		goto tr38
 	st117:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof117
 		}
 	stCase117:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st118
 		}
-		goto tr37
+		goto tr38
 	st118:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof118
 		}
 	stCase118:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st119
 		}
-		goto tr37
+		goto tr38
 	st119:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof119
 		}
 	stCase119:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st120
 		}
-		goto tr37
+		goto tr38
 	st120:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof120
 		}
 	stCase120:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st121
 		}
-		goto tr37
+		goto tr38
 	st121:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof121
 		}
 	stCase121:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st122
 		}
-		goto tr37
+		goto tr38
 	st122:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof122
 		}
 	stCase122:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st123
 		}
-		goto tr37
+		goto tr38
 	st123:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof123
 		}
 	stCase123:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st124
 		}
-		goto tr37
+		goto tr38
 	st124:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof124
 		}
 	stCase124:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st125
 		}
-		goto tr37
+		goto tr38
 	st125:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof125
 		}
 	stCase125:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st126
 		}
-		goto tr37
+		goto tr38
 	st126:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof126
 		}
 	stCase126:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st127
 		}
-		goto tr37
+		goto tr38
 	st127:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof127
 		}
 	stCase127:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st128
 		}
-		goto tr37
+		goto tr38
 	st128:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof128
 		}
 	stCase128:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st129
 		}
-		goto tr37
+		goto tr38
 	st129:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof129
 		}
 	stCase129:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st130
 		}
-		goto tr37
+		goto tr38
 	st130:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof130
 		}
 	stCase130:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st131
 		}
-		goto tr37
+		goto tr38
 	st131:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof131
 		}
 	stCase131:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st132
 		}
-		goto tr37
+		goto tr38
 	st132:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof132
 		}
 	stCase132:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st133
 		}
-		goto tr37
+		goto tr38
 	st133:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof133
 		}
 	stCase133:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st134
 		}
-		goto tr37
+		goto tr38
 	st134:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof134
 		}
 	stCase134:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st135
 		}
-		goto tr37
+		goto tr38
 	st135:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof135
 		}
 	stCase135:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st136
 		}
-		goto tr37
+		goto tr38
 	st136:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof136
 		}
 	stCase136:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st137
 		}
-		goto tr37
+		goto tr38
 	st137:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof137
 		}
 	stCase137:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st138
 		}
-		goto tr37
+		goto tr38
 	st138:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof138
 		}
 	stCase138:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st139
 		}
-		goto tr37
+		goto tr38
 	st139:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof139
 		}
 	stCase139:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st140
 		}
-		goto tr37
+		goto tr38
 	st140:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof140
 		}
 	stCase140:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st141
 		}
-		goto tr37
+		goto tr38
 	st141:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof141
 		}
 	stCase141:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st142
 		}
-		goto tr37
+		goto tr38
 	st142:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof142
 		}
 	stCase142:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st143
 		}
-		goto tr37
+		goto tr38
 	st143:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof143
 		}
 	stCase143:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st144
 		}
-		goto tr37
+		goto tr38
 	st144:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof144
 		}
 	stCase144:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st145
 		}
-		goto tr37
+		goto tr38
 	st145:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof145
 		}
 	stCase145:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st146
 		}
-		goto tr37
+		goto tr38
 	st146:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof146
 		}
 	stCase146:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st147
 		}
-		goto tr37
+		goto tr38
 	st147:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof147
 		}
 	stCase147:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st148
 		}
-		goto tr37
+		goto tr38
 	st148:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof148
 		}
 	stCase148:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st149
 		}
-		goto tr37
+		goto tr38
 	st149:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof149
 		}
 	stCase149:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st150
 		}
-		goto tr37
+		goto tr38
 	st150:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof150
 		}
 	stCase150:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st151
 		}
-		goto tr37
+		goto tr38
 	st151:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof151
 		}
 	stCase151:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st152
 		}
-		goto tr37
+		goto tr38
 	st152:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof152
 		}
 	stCase152:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st153
 		}
-		goto tr37
+		goto tr38
 	st153:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof153
 		}
 	stCase153:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st154
 		}
-		goto tr37
+		goto tr38
 	st154:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof154
 		}
 	stCase154:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st155
 		}
-		goto tr37
+		goto tr38
 	st155:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof155
 		}
 	stCase155:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st156
 		}
-		goto tr37
+		goto tr38
 	st156:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof156
 		}
 	stCase156:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st157
 		}
-		goto tr37
+		goto tr38
 	st157:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof157
 		}
 	stCase157:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st158
 		}
-		goto tr37
+		goto tr38
 	st158:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof158
 		}
 	stCase158:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st159
 		}
-		goto tr37
+		goto tr38
 	st159:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof159
 		}
 	stCase159:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st160
 		}
-		goto tr37
+		goto tr38
 	st160:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof160
 		}
 	stCase160:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st161
 		}
-		goto tr37
+		goto tr38
 	st161:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof161
 		}
 	stCase161:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st162
 		}
-		goto tr37
+		goto tr38
 	st162:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof162
 		}
 	stCase162:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st163
 		}
-		goto tr37
+		goto tr38
 	st163:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof163
 		}
 	stCase163:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st164
 		}
-		goto tr37
+		goto tr38
 	st164:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof164
 		}
 	stCase164:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st165
 		}
-		goto tr37
+		goto tr38
 	st165:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof165
 		}
 	stCase165:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st166
 		}
-		goto tr37
+		goto tr38
 	st166:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof166
 		}
 	stCase166:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st167
 		}
-		goto tr37
+		goto tr38
 	st167:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof167
 		}
 	stCase167:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st168
 		}
-		goto tr37
+		goto tr38
 	st168:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof168
 		}
 	stCase168:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st169
 		}
-		goto tr37
+		goto tr38
 	st169:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof169
 		}
 	stCase169:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st170
 		}
-		goto tr37
+		goto tr38
 	st170:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof170
 		}
 	stCase170:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st171
 		}
-		goto tr37
+		goto tr38
 	st171:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof171
 		}
 	stCase171:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st172
 		}
-		goto tr37
+		goto tr38
 	st172:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof172
 		}
 	stCase172:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st173
 		}
-		goto tr37
+		goto tr38
 	st173:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof173
 		}
 	stCase173:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st174
 		}
-		goto tr37
+		goto tr38
 	st174:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof174
 		}
 	stCase174:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st175
 		}
-		goto tr37
+		goto tr38
 	st175:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof175
 		}
 	stCase175:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st176
 		}
-		goto tr37
+		goto tr38
 	st176:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof176
 		}
 	stCase176:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st177
 		}
-		goto tr37
+		goto tr38
 	st177:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof177
 		}
 	stCase177:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st178
 		}
-		goto tr37
+		goto tr38
 	st178:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof178
 		}
 	stCase178:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st179
 		}
-		goto tr37
+		goto tr38
 	st179:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof179
 		}
 	stCase179:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st180
 		}
-		goto tr37
+		goto tr38
 	st180:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof180
 		}
 	stCase180:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st181
 		}
-		goto tr37
+		goto tr38
 	st181:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof181
 		}
 	stCase181:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st182
 		}
-		goto tr37
+		goto tr38
 	st182:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof182
 		}
 	stCase182:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st183
 		}
-		goto tr37
+		goto tr38
 	st183:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof183
 		}
 	stCase183:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st184
 		}
-		goto tr37
+		goto tr38
 	st184:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof184
 		}
 	stCase184:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st185
 		}
-		goto tr37
+		goto tr38
 	st185:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof185
 		}
 	stCase185:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st186
 		}
-		goto tr37
+		goto tr38
 	st186:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof186
 		}
 	stCase186:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st187
 		}
-		goto tr37
+		goto tr38
 	st187:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof187
 		}
 	stCase187:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st188
 		}
-		goto tr37
+		goto tr38
 	st188:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof188
 		}
 	stCase188:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st189
 		}
-		goto tr37
+		goto tr38
 	st189:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof189
 		}
 	stCase189:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st190
 		}
-		goto tr37
+		goto tr38
 	st190:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof190
 		}
 	stCase190:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st191
 		}
-		goto tr37
+		goto tr38
 	st191:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof191
 		}
 	stCase191:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st192
 		}
-		goto tr37
+		goto tr38
 	st192:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof192
 		}
 	stCase192:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st193
 		}
-		goto tr37
+		goto tr38
 	st193:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof193
 		}
 	stCase193:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st194
 		}
-		goto tr37
+		goto tr38
 	st194:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof194
 		}
 	stCase194:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st195
 		}
-		goto tr37
+		goto tr38
 	st195:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof195
 		}
 	stCase195:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st196
 		}
-		goto tr37
+		goto tr38
 	st196:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof196
 		}
 	stCase196:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st197
 		}
-		goto tr37
+		goto tr38
 	st197:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof197
 		}
 	stCase197:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st198
 		}
-		goto tr37
+		goto tr38
 	st198:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof198
 		}
 	stCase198:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st199
 		}
-		goto tr37
+		goto tr38
 	st199:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof199
 		}
 	stCase199:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st200
 		}
-		goto tr37
+		goto tr38
 	st200:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof200
 		}
 	stCase200:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st201
 		}
-		goto tr37
+		goto tr38
 	st201:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof201
 		}
 	stCase201:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st202
 		}
-		goto tr37
+		goto tr38
 	st202:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof202
 		}
 	stCase202:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st203
 		}
-		goto tr37
+		goto tr38
 	st203:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof203
 		}
 	stCase203:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st204
 		}
-		goto tr37
+		goto tr38
 	st204:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof204
 		}
 	stCase204:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st205
 		}
-		goto tr37
+		goto tr38
 	st205:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof205
 		}
 	stCase205:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st206
 		}
-		goto tr37
+		goto tr38
 	st206:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof206
 		}
 	stCase206:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st207
 		}
-		goto tr37
+		goto tr38
 	st207:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof207
 		}
 	stCase207:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st208
 		}
-		goto tr37
+		goto tr38
 	st208:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof208
 		}
 	stCase208:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st209
 		}
-		goto tr37
+		goto tr38
 	st209:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof209
 		}
 	stCase209:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st210
 		}
-		goto tr37
+		goto tr38
 	st210:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof210
 		}
 	stCase210:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st211
 		}
-		goto tr37
+		goto tr38
 	st211:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof211
 		}
 	stCase211:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st212
 		}
-		goto tr37
+		goto tr38
 	st212:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof212
 		}
 	stCase212:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st213
 		}
-		goto tr37
+		goto tr38
 	st213:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof213
 		}
 	stCase213:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st214
 		}
-		goto tr37
+		goto tr38
 	st214:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof214
 		}
 	stCase214:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st215
 		}
-		goto tr37
+		goto tr38
 	st215:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof215
 		}
 	stCase215:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st216
 		}
-		goto tr37
+		goto tr38
 	st216:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof216
 		}
 	stCase216:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st217
 		}
-		goto tr37
+		goto tr38
 	st217:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof217
 		}
 	stCase217:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st218
 		}
-		goto tr37
+		goto tr38
 	st218:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof218
 		}
 	stCase218:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st219
 		}
-		goto tr37
+		goto tr38
 	st219:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof219
 		}
 	stCase219:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st220
 		}
-		goto tr37
+		goto tr38
 	st220:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof220
 		}
 	stCase220:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st221
 		}
-		goto tr37
+		goto tr38
 	st221:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof221
 		}
 	stCase221:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st222
 		}
-		goto tr37
+		goto tr38
 	st222:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof222
 		}
 	stCase222:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st223
 		}
-		goto tr37
+		goto tr38
 	st223:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof223
 		}
 	stCase223:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st224
 		}
-		goto tr37
+		goto tr38
 	st224:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof224
 		}
 	stCase224:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st225
 		}
-		goto tr37
+		goto tr38
 	st225:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof225
 		}
 	stCase225:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st226
 		}
-		goto tr37
+		goto tr38
 	st226:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof226
 		}
 	stCase226:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st227
 		}
-		goto tr37
+		goto tr38
 	st227:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof227
 		}
 	stCase227:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st228
 		}
-		goto tr37
+		goto tr38
 	st228:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof228
 		}
 	stCase228:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st229
 		}
-		goto tr37
+		goto tr38
 	st229:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof229
 		}
 	stCase229:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st230
 		}
-		goto tr37
+		goto tr38
 	st230:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof230
 		}
 	stCase230:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st231
 		}
-		goto tr37
+		goto tr38
 	st231:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof231
 		}
 	stCase231:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st232
 		}
-		goto tr37
+		goto tr38
 	st232:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof232
 		}
 	stCase232:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st233
 		}
-		goto tr37
+		goto tr38
 	st233:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof233
 		}
 	stCase233:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st234
 		}
-		goto tr37
+		goto tr38
 	st234:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof234
 		}
 	stCase234:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st235
 		}
-		goto tr37
+		goto tr38
 	st235:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof235
 		}
 	stCase235:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st236
 		}
-		goto tr37
+		goto tr38
 	st236:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof236
 		}
 	stCase236:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st237
 		}
-		goto tr37
+		goto tr38
 	st237:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof237
 		}
 	stCase237:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st238
 		}
-		goto tr37
+		goto tr38
 	st238:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof238
 		}
 	stCase238:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st239
 		}
-		goto tr37
+		goto tr38
 	st239:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof239
 		}
 	stCase239:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st240
 		}
-		goto tr37
+		goto tr38
 	st240:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof240
 		}
 	stCase240:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st241
 		}
-		goto tr37
+		goto tr38
 	st241:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof241
 		}
 	stCase241:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st242
 		}
-		goto tr37
+		goto tr38
 	st242:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof242
 		}
 	stCase242:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st243
 		}
-		goto tr37
+		goto tr38
 	st243:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof243
 		}
 	stCase243:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st244
 		}
-		goto tr37
+		goto tr38
 	st244:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof244
 		}
 	stCase244:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st245
 		}
-		goto tr37
+		goto tr38
 	st245:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof245
 		}
 	stCase245:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st246
 		}
-		goto tr37
+		goto tr38
 	st246:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof246
 		}
 	stCase246:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st247
 		}
-		goto tr37
+		goto tr38
 	st247:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof247
 		}
 	stCase247:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st248
 		}
-		goto tr37
+		goto tr38
 	st248:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof248
 		}
 	stCase248:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st249
 		}
-		goto tr37
+		goto tr38
 	st249:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof249
 		}
 	stCase249:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st250
 		}
-		goto tr37
+		goto tr38
 	st250:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof250
 		}
 	stCase250:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st251
 		}
-		goto tr37
+		goto tr38
 	st251:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof251
 		}
 	stCase251:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st252
 		}
-		goto tr37
+		goto tr38
 	st252:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof252
 		}
 	stCase252:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st253
 		}
-		goto tr37
+		goto tr38
 	st253:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof253
 		}
 	stCase253:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st254
 		}
-		goto tr37
+		goto tr38
 	st254:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof254
 		}
 	stCase254:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st255
 		}
-		goto tr37
+		goto tr38
 	st255:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof255
 		}
 	stCase255:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st256
 		}
-		goto tr37
+		goto tr38
 	st256:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof256
 		}
 	stCase256:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st257
 		}
-		goto tr37
+		goto tr38
 	st257:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof257
 		}
 	stCase257:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st258
 		}
-		goto tr37
+		goto tr38
 	st258:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof258
 		}
 	stCase258:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st259
 		}
-		goto tr37
+		goto tr38
 	st259:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof259
 		}
 	stCase259:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st260
 		}
-		goto tr37
+		goto tr38
 	st260:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof260
 		}
 	stCase260:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st261
 		}
-		goto tr37
+		goto tr38
 	st261:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof261
 		}
 	stCase261:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st262
 		}
-		goto tr37
+		goto tr38
 	st262:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof262
 		}
 	stCase262:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st263
 		}
-		goto tr37
+		goto tr38
 	st263:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof263
 		}
 	stCase263:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st264
 		}
-		goto tr37
+		goto tr38
 	st264:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof264
 		}
 	stCase264:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st265
 		}
-		goto tr37
+		goto tr38
 	st265:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof265
 		}
 	stCase265:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st266
 		}
-		goto tr37
+		goto tr38
 	st266:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof266
 		}
 	stCase266:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st267
 		}
-		goto tr37
+		goto tr38
 	st267:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof267
 		}
 	stCase267:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st268
 		}
-		goto tr37
+		goto tr38
 	st268:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof268
 		}
 	stCase268:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st269
 		}
-		goto tr37
+		goto tr38
 	st269:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof269
 		}
 	stCase269:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st270
 		}
-		goto tr37
+		goto tr38
 	st270:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof270
 		}
 	stCase270:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st271
 		}
-		goto tr37
+		goto tr38
 	st271:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof271
 		}
 	stCase271:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st272
 		}
-		goto tr37
+		goto tr38
 	st272:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof272
 		}
 	stCase272:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st273
 		}
-		goto tr37
+		goto tr38
 	st273:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof273
 		}
 	stCase273:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st274
 		}
-		goto tr37
+		goto tr38
 	st274:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof274
 		}
 	stCase274:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st275
 		}
-		goto tr37
+		goto tr38
 	st275:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof275
 		}
 	stCase275:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st276
 		}
-		goto tr37
+		goto tr38
 	st276:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof276
 		}
 	stCase276:
 		if (m.data)[(m.p)] == 32 {
-			goto tr39
+			goto tr40
 		}
-		goto tr37
+		goto tr38
 	st277:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof277
@@ -5134,7 +5193,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 51 {
 			goto st13
 		}
-		goto tr7
+		goto tr17
 	st278:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof278
@@ -5143,7 +5202,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			goto st10
 		}
-		goto tr7
+		goto tr17
 	st279:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof279
@@ -5152,7 +5211,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 49 {
 			goto st10
 		}
-		goto tr7
+		goto tr17
 	st280:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof280
@@ -5161,7 +5220,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if (m.data)[(m.p)] == 103 {
 			goto st7
 		}
-		goto tr7
+		goto tr17
 	tr9:
 
 		m.pb = m.p
@@ -5175,7 +5234,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if (m.data)[(m.p)] == 101 {
 			goto st282
 		}
-		goto tr7
+		goto tr17
 	st282:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof282
@@ -5184,7 +5243,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if (m.data)[(m.p)] == 99 {
 			goto st7
 		}
-		goto tr7
+		goto tr17
 	tr10:
 
 		m.pb = m.p
@@ -5198,7 +5257,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if (m.data)[(m.p)] == 101 {
 			goto st284
 		}
-		goto tr7
+		goto tr17
 	st284:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof284
@@ -5207,7 +5266,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if (m.data)[(m.p)] == 98 {
 			goto st7
 		}
-		goto tr7
+		goto tr17
 	tr11:
 
 		m.pb = m.p
@@ -5224,7 +5283,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 117:
 			goto st287
 		}
-		goto tr7
+		goto tr17
 	st286:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof286
@@ -5233,7 +5292,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if (m.data)[(m.p)] == 110 {
 			goto st7
 		}
-		goto tr7
+		goto tr17
 	st287:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof287
@@ -5245,7 +5304,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 110:
 			goto st7
 		}
-		goto tr7
+		goto tr17
 	tr12:
 
 		m.pb = m.p
@@ -5259,7 +5318,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if (m.data)[(m.p)] == 97 {
 			goto st289
 		}
-		goto tr7
+		goto tr17
 	st289:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof289
@@ -5271,7 +5330,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 121:
 			goto st7
 		}
-		goto tr7
+		goto tr17
 	tr13:
 
 		m.pb = m.p
@@ -5285,7 +5344,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if (m.data)[(m.p)] == 111 {
 			goto st291
 		}
-		goto tr7
+		goto tr17
 	st291:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof291
@@ -5294,7 +5353,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if (m.data)[(m.p)] == 118 {
 			goto st7
 		}
-		goto tr7
+		goto tr17
 	tr14:
 
 		m.pb = m.p
@@ -5308,7 +5367,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if (m.data)[(m.p)] == 99 {
 			goto st293
 		}
-		goto tr7
+		goto tr17
 	st293:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof293
@@ -5317,7 +5376,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if (m.data)[(m.p)] == 116 {
 			goto st7
 		}
-		goto tr7
+		goto tr17
 	tr15:
 
 		m.pb = m.p
@@ -5331,7 +5390,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if (m.data)[(m.p)] == 101 {
 			goto st295
 		}
-		goto tr7
+		goto tr17
 	st295:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof295
@@ -5340,7 +5399,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if (m.data)[(m.p)] == 112 {
 			goto st7
 		}
-		goto tr7
+		goto tr17
 	tr16:
 
 		m.pb = m.p
@@ -5361,7 +5420,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 560 <= _widec && _widec <= 569 {
 			goto st297
 		}
-		goto st0
+		goto tr306
 	st297:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof297
@@ -5377,7 +5436,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 560 <= _widec && _widec <= 569 {
 			goto st298
 		}
-		goto st0
+		goto tr306
 	st298:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof298
@@ -5393,7 +5452,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 560 <= _widec && _widec <= 569 {
 			goto st299
 		}
-		goto st0
+		goto tr306
 	st299:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof299
@@ -5409,7 +5468,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if _widec == 557 {
 			goto st300
 		}
-		goto st0
+		goto tr306
 	st300:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof300
@@ -5436,7 +5495,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 561:
 			goto st325
 		}
-		goto st0
+		goto tr306
 	st301:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof301
@@ -5452,7 +5511,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 561 <= _widec && _widec <= 569 {
 			goto st302
 		}
-		goto st0
+		goto tr306
 	st302:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof302
@@ -5468,7 +5527,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if _widec == 557 {
 			goto st303
 		}
-		goto st0
+		goto tr306
 	st303:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof303
@@ -5505,7 +5564,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 561 <= _widec && _widec <= 562 {
 			goto st323
 		}
-		goto st0
+		goto tr306
 	st304:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof304
@@ -5521,7 +5580,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 561 <= _widec && _widec <= 569 {
 			goto st305
 		}
-		goto st0
+		goto tr306
 	st305:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof305
@@ -5537,7 +5596,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if _widec == 596 {
 			goto st306
 		}
-		goto st0
+		goto tr306
 	st306:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof306
@@ -5564,7 +5623,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 560 <= _widec && _widec <= 561 {
 			goto st307
 		}
-		goto st0
+		goto tr306
 	st307:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof307
@@ -5580,7 +5639,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 560 <= _widec && _widec <= 569 {
 			goto st308
 		}
-		goto st0
+		goto tr306
 	st308:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof308
@@ -5596,7 +5655,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if _widec == 570 {
 			goto st309
 		}
-		goto st0
+		goto tr306
 	st309:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof309
@@ -5612,7 +5671,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 560 <= _widec && _widec <= 565 {
 			goto st310
 		}
-		goto st0
+		goto tr306
 	st310:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof310
@@ -5628,7 +5687,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 560 <= _widec && _widec <= 569 {
 			goto st311
 		}
-		goto st0
+		goto tr306
 	st311:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof311
@@ -5644,7 +5703,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if _widec == 570 {
 			goto st312
 		}
-		goto st0
+		goto tr306
 	st312:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof312
@@ -5660,7 +5719,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 560 <= _widec && _widec <= 565 {
 			goto st313
 		}
-		goto st0
+		goto tr306
 	st313:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof313
@@ -5676,7 +5735,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 560 <= _widec && _widec <= 569 {
 			goto st314
 		}
-		goto st0
+		goto tr306
 	st314:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof314
@@ -5712,7 +5771,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 602:
 			goto st320
 		}
-		goto tr327
+		goto tr306
 	st315:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof315
@@ -5739,7 +5798,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 560 <= _widec && _widec <= 561 {
 			goto st316
 		}
-		goto tr327
+		goto tr306
 	st316:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof316
@@ -5755,7 +5814,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 560 <= _widec && _widec <= 569 {
 			goto st317
 		}
-		goto tr327
+		goto tr306
 	st317:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof317
@@ -5771,7 +5830,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if _widec == 570 {
 			goto st318
 		}
-		goto tr327
+		goto tr306
 	st318:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof318
@@ -5787,7 +5846,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 560 <= _widec && _widec <= 565 {
 			goto st319
 		}
-		goto tr327
+		goto tr306
 	st319:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof319
@@ -5803,16 +5862,16 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 560 <= _widec && _widec <= 569 {
 			goto st320
 		}
-		goto tr327
+		goto tr306
 	st320:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof320
 		}
 	stCase320:
 		if (m.data)[(m.p)] == 32 {
-			goto tr335
+			goto tr336
 		}
-		goto st0
+		goto tr36
 	st321:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof321
@@ -5828,7 +5887,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 560 <= _widec && _widec <= 563 {
 			goto st317
 		}
-		goto tr327
+		goto tr306
 	st322:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof322
@@ -5844,7 +5903,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 560 <= _widec && _widec <= 563 {
 			goto st308
 		}
-		goto st0
+		goto tr306
 	st323:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof323
@@ -5860,7 +5919,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 560 <= _widec && _widec <= 569 {
 			goto st305
 		}
-		goto st0
+		goto tr306
 	st324:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof324
@@ -5876,7 +5935,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 560 <= _widec && _widec <= 561 {
 			goto st305
 		}
-		goto st0
+		goto tr306
 	st325:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof325
@@ -5892,7 +5951,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 560 <= _widec && _widec <= 562 {
 			goto st302
 		}
-		goto st0
+		goto tr306
 	tr4:
 
 		m.pb = m.p
@@ -7060,6 +7119,15 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 
 				output.message = string(m.data[m.msgat:m.p])
 
+			case 19, 320:
+
+				m.err = fmt.Errorf(errParse, m.p)
+				(m.p)--
+
+				{
+					goto st366
+				}
+
 			case 1:
 
 				m.err = fmt.Errorf(errPri, m.p)
@@ -7069,7 +7137,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 					goto st366
 				}
 
-			case 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 277, 278, 279, 280, 281, 282, 283, 284, 285, 286, 287, 288, 289, 290, 291, 292, 293, 294, 295:
+				m.err = fmt.Errorf(errParse, m.p)
+				(m.p)--
+
+				{
+					goto st366
+				}
+
+			case 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 277, 278, 279, 280, 281, 282, 283, 284, 285, 286, 287, 288, 289, 290, 291, 292, 293, 294, 295:
 
 				m.err = fmt.Errorf(errTimestamp, m.p)
 				(m.p)--
@@ -7078,7 +7153,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 					goto st366
 				}
 
-			case 314, 315, 316, 317, 318, 319, 321:
+				m.err = fmt.Errorf(errParse, m.p)
+				(m.p)--
+
+				{
+					goto st366
+				}
+
+			case 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 321, 322, 323, 324, 325:
 
 				m.err = fmt.Errorf(errRFC3339, m.p)
 				(m.p)--
@@ -7087,6 +7169,13 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 					goto st366
 				}
 
+				m.err = fmt.Errorf(errParse, m.p)
+				(m.p)--
+
+				{
+					goto st366
+				}
+
 			case 20, 21, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 261, 262, 263, 264, 265, 266, 267, 268, 269, 270, 271, 272, 273, 274, 275, 276:
 
 				m.err = fmt.Errorf(errHostname, m.p)
@@ -7096,6 +7185,29 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 					goto st366
 				}
 
+				m.err = fmt.Errorf(errParse, m.p)
+				(m.p)--
+
+				{
+					goto st366
+				}
+
+			case 22:
+
+				m.err = fmt.Errorf(errTag, m.p)
+				(m.p)--
+
+				{
+					goto st366
+				}
+
+				m.err = fmt.Errorf(errParse, m.p)
+				(m.p)--
+
+				{
+					goto st366
+				}
+
 			case 2, 3, 326, 327, 328:
 
 				m.err = fmt.Errorf(errPrival, m.p)
@@ -7112,9 +7224,23 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 					goto st366
 				}
 
-			case 22:
+				m.err = fmt.Errorf(errParse, m.p)
+				(m.p)--
 
-				m.err = fmt.Errorf(errTag, m.p)
+				{
+					goto st366
+				}
+
+			case 4:
+
+				m.err = fmt.Errorf(errTimestamp, m.p)
+				(m.p)--
+
+				{
+					goto st366
+				}
+
+				m.err = fmt.Errorf(errRFC3339, m.p)
 				(m.p)--
 
 				{
diff --git a/rfc3164/machine.go.rl b/rfc3164/machine.go.rl
index a6aafae..a403694 100644
--- a/rfc3164/machine.go.rl
+++ b/rfc3164/machine.go.rl
@@ -153,7 +153,7 @@ pri = ('<' prival >mark %set_prival $err(err_prival) '>') @err(err_pri);
 
 timestamp = (datemmm sp datemday sp hhmmss) >mark %set_timestamp @err(err_timestamp);
 
-rfc3339 = fulldate >mark 'T' hhmmss timeoffset %set_rfc3339 @err(err_rfc3339);
+rfc3339 = (fulldate 'T' hhmmss timeoffset) >mark %set_rfc3339 @err(err_rfc3339);
 
 # note > RFC 3164 says "The Domain Name MUST NOT be included in the HOSTNAME field"
 # note > this could mean that the we may need to create and to use a labelrange = graph{1,63} here if we want the parser to be stricter.
@@ -179,7 +179,7 @@ msg = (tag content? ':' sp (mex >set_tagcontent)) | mex;
 
 fail := (any - [\n\r])* @err{ fgoto main; };
 
-main := pri (timestamp | (rfc3339 when { m.rfc3339 })) sp hostname sp msg;
+main := (pri (timestamp | (rfc3339 when { m.rfc3339 })) sp hostname sp msg) $err(err_parse);
 
 }%%
 
-- 
2.43.0


From 7ff5c1d12d60a00350c9bb99a7758b40021aa654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:06 +0000
Subject: [PATCH 15/22] fix: octetcounting: any maximum message length works,
 also the very large ones

---
 octetcounting/scanner.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/octetcounting/scanner.go b/octetcounting/scanner.go
index 42f0da4..16163f5 100644
--- a/octetcounting/scanner.go
+++ b/octetcounting/scanner.go
@@ -30,8 +30,14 @@ type Scanner struct {
 	ready  bool
 }
 
+// maxBufferedLength is the length of the longest messages the buffer of a Scanner can contain.
+const maxBufferedLength = 65536
+
 // NewScanner returns a pointer to a new instance of Scanner.
 func NewScanner(r io.Reader, maxLength int) *Scanner {
+	if maxLength > maxBufferedLength {
+		maxLength = maxBufferedLength
+	}
 	return &Scanner{
 		r: bufio.NewReaderSize(r, maxLength+20), // max uint64 is 19 characters + a space
 	}
@@ -119,7 +125,24 @@ func (s *Scanner) scanMsgLen() Token {
 func (s *Scanner) scanSyslogMsg() Token {
 	// Check the reader contains almost MSGLEN characters
 	n := int(s.msglen)
+	// Messages not fitting into the buffer are collected out of it, but their last piece
+	var head []byte
+	for n > s.r.Size() {
+		b, err := s.r.Peek(s.r.Size())
+		head = append(head, b...)
+		if err != nil {
+			return Token{
+				typ: EOF,
+				lit: head,
+			}
+		}
+		s.r.Discard(len(b))
+		n -= len(b)
+	}
 	b, err := s.r.Peek(n)
+	if head != nil {
+		b = append(head, b...)
+	}
 	if err != nil {
 		return Token{
 			typ: EOF,
-- 
2.43.0


From 714f0fc548809c77438cc7588391d604fdcee993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:32 +0000
Subject: [PATCH 16/22] fix: WithBestEffort method of the stream parsers works
 also when the parser exists already

---
 nontransparent/parser.go    | 4 ++++
 nontransparent/parser.go.rl | 4 ++++
 octetcounting/parser.go     | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/nontransparent/parser.go b/nontransparent/parser.go
index 18aa819..4608e4c 100644
--- a/nontransparent/parser.go
+++ b/nontransparent/parser.go
@@ -242,6 +242,10 @@ func WithTrailer(t TrailerType) syslog.ParserOption {
 // The generic options uses it.
 func (m *machine) WithBestEffort() {
 	m.bestEffort = true
+	// Also when the internal parser already exists
+	if m.internal != nil {
+		m.internal.WithBestEffort()
+	}
 }
 
 // WithListener implements the syslog.Parser interface.
diff --git a/nontransparent/parser.go.rl b/nontransparent/parser.go.rl
index 1b62178..cc65361 100644
--- a/nontransparent/parser.go.rl
+++ b/nontransparent/parser.go.rl
@@ -133,6 +133,10 @@ func WithTrailer(t TrailerType) syslog.ParserOption {
 // The generic options uses it.
 func (m *machine) WithBestEffort() {
     m.bestEffort = true
+    // Also when the internal parser already exists
+    if m.internal != nil {
+        m.internal.WithBestEffort()
+    }
 }
 
 // WithListener implements the syslog.Parser interface.
diff --git a/octetcounting/parser.go b/octetcounting/parser.go
index ee6e6b0..7ff8484 100644
--- a/octetcounting/parser.go
+++ b/octetcounting/parser.go
@@ -57,6 +57,10 @@ func (p *parser) HasBestEffort() bool {
 // The generic options uses it.
 func (p *parser) WithBestEffort() {
 	p.bestEffort = true
+	// Also when the internal parser already exists
+	if p.internal != nil {
+		p.internal.WithBestEffort()
+	}
 }
 
 // WithListener implements the syslog.Parser interface.
-- 
2.43.0


From 192a6892fb222190d6f2d7d9f21188b7abfde9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 17/22] fix: rfc5424: best effort does not lose a complete
 parameter when the error is in another one with the same name

---
 rfc5424/machine.go    | 30 +++++++++++++++---------------
 rfc5424/machine.go.rl | 15 ++++++++++-----
 2 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/rfc5424/machine.go b/rfc5424/machine.go
index 03508fa..74001cb 100644
--- a/rfc5424/machine.go
+++ b/rfc5424/machine.go
@@ -65,6 +65,7 @@ type machine struct {
 	err          error
 	currentelem  string
 	currentparam string
+	currentvalue string
 	msgat        int
 	backslashat  []int
 	bestEffort   bool
@@ -1592,9 +1593,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		goto st0
 	tr42:
 
-		if len(output.structuredData) > 0 {
-			delete(output.structuredData[m.currentelem], m.currentparam)
-		}
 		m.err = fmt.Errorf(ErrSdParam+ColumnPositionTemplate, m.p)
 		(m.p)--
 
@@ -1619,9 +1617,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto st614
 		}
 
-		if len(output.structuredData) > 0 {
-			delete(output.structuredData[m.currentelem], m.currentparam)
-		}
 		m.err = fmt.Errorf(ErrSdParam+ColumnPositionTemplate, m.p)
 		(m.p)--
 
@@ -2053,6 +2048,10 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		goto st19
 	tr98:
 
+		if output.hasElements {
+			output.structuredData[m.currentelem][m.currentparam] = m.currentvalue
+		}
+
 		m.currentparam = ""
 		m.backslashat = []int{}
 
@@ -2833,7 +2832,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			if len(m.backslashat) > 0 {
 				text = common.RemoveBytes(text, m.backslashat, m.pb)
 			}
-			output.structuredData[m.currentelem][m.currentparam] = string(text)
+			m.currentvalue = string(text)
 		}
 
 		goto st55
@@ -2849,7 +2848,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			if len(m.backslashat) > 0 {
 				text = common.RemoveBytes(text, m.backslashat, m.pb)
 			}
-			output.structuredData[m.currentelem][m.currentparam] = string(text)
+			m.currentvalue = string(text)
 		}
 
 		goto st55
@@ -2862,7 +2861,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 32:
 			goto tr98
 		case 93:
-			goto st606
+			goto tr99
 		}
 		goto tr42
 	tr41:
@@ -2882,6 +2881,13 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			m.currentelem = id
 		}
 
+		goto st606
+	tr99:
+
+		if output.hasElements {
+			output.structuredData[m.currentelem][m.currentparam] = m.currentvalue
+		}
+
 		goto st606
 	st606:
 		if (m.p)++; (m.p) == (m.pe) {
@@ -11913,9 +11919,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 
 			case 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 55, 57, 58, 59, 60, 61, 62, 63:
 
-				if len(output.structuredData) > 0 {
-					delete(output.structuredData[m.currentelem], m.currentparam)
-				}
 				m.err = fmt.Errorf(ErrSdParam+ColumnPositionTemplate, m.p)
 				(m.p)--
 
@@ -12023,9 +12026,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 					goto st614
 				}
 
-				if len(output.structuredData) > 0 {
-					delete(output.structuredData[m.currentelem], m.currentparam)
-				}
 				m.err = fmt.Errorf(ErrSdParam+ColumnPositionTemplate, m.p)
 				(m.p)--
 
diff --git a/rfc5424/machine.go.rl b/rfc5424/machine.go.rl
index 0fd2ca4..9342d06 100644
--- a/rfc5424/machine.go.rl
+++ b/rfc5424/machine.go.rl
@@ -156,7 +156,14 @@ action set_paramvalue {
 		if len(m.backslashat) > 0 {
 			text = common.RemoveBytes(text, m.backslashat, m.pb)
 		}
-		output.structuredData[m.currentelem][m.currentparam] = string(text)
+		m.currentvalue = string(text)
+	}
+}
+
+# A param is complete only when what follows it starts
+action set_param {
+	if output.hasElements {
+		output.structuredData[m.currentelem][m.currentparam] = m.currentvalue
 	}
 }
 
@@ -229,9 +236,6 @@ action err_sdid {
 }
 
 action err_sdparam {
-	if len(output.structuredData) > 0 {
-		delete(output.structuredData[m.currentelem], m.currentparam)
-	}
 	m.err = fmt.Errorf(ErrSdParam + ColumnPositionTemplate, m.p)
 	fhold;
 	fgoto fail;
@@ -294,7 +298,7 @@ paramvalue = (utf8charwodelims* escapes*)+ >mark %set_paramvalue;
 
 paramname = sdname >mark %set_paramname;
 
-sdparam = (paramname '=' dq paramvalue dq) $err(err_sdparam);
+sdparam = (paramname '=' dq paramvalue dq) %set_param $err(err_sdparam);
 
 # (note) > finegrained semantics of section 6.3.2 not represented here since not so useful for parsing goal
 sdid = sdname >mark %set_id %err(set_id) $err(err_sdid);
@@ -328,6 +332,7 @@ type machine struct {
 	err          error
 	currentelem  string
 	currentparam string
+	currentvalue string
 	msgat        int
 	backslashat  []int
 	bestEffort 	 bool
-- 
2.43.0


From 6bf9abd3c6726a5870bf2f1ad9cbcdb27a5e0218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:40 +0000
Subject: [PATCH 18/22] fix: rfc3164: the year strategy applies to each
 message, not once when the parser is made

A parser made with the current year strategy went on with the year in
which it was made after the new year.
---
 rfc3164/machine.go    | 14 ++++++++++----
 rfc3164/machine.go.rl | 14 ++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/rfc3164/machine.go b/rfc3164/machine.go
index 352e8c8..171d77b 100644
--- a/rfc3164/machine.go
+++ b/rfc3164/machine.go
@@ -34,7 +34,7 @@ type machine struct {
 	msgat      int
 	err        error
 	bestEffort bool
-	yyyy       int
+	year       YearOperator
 	rfc3339    bool
 	loc        *time.Location
 	timezone   *time.Location
@@ -61,9 +61,11 @@ func (m *machine) HasBestEffort() bool {
 	return m.bestEffort
 }
 
-// WithYear sets the year for the Stamp timestamp of the RFC 3164 syslog message.
+// WithYear sets the strategy to obtain the year for the Stamp timestamp of the RFC 3164 syslog messages.
+//
+// It applies when a message is parsed: the year may change during the life of the machine.
 func (m *machine) WithYear(o YearOperator) {
-	m.yyyy = YearOperation{o}.Operate()
+	m.year = o
 }
 
 // WithTimezone sets the time zone for the Stamp timestamp of the RFC 3164 syslog message.
@@ -1255,7 +1257,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			if m.timezone != nil {
 				t, _ = time.ParseInLocation(time.Stamp, string(m.text()), m.timezone)
 			}
-			output.timestamp = t.AddDate(m.yyyy, 0, 0)
+			year := 0
+			if m.year != nil {
+				year = YearOperation{m.year}.Operate()
+			}
+			output.timestamp = t.AddDate(year, 0, 0)
 			if m.loc != nil {
 				output.timestamp = output.timestamp.In(m.loc)
 			}
diff --git a/rfc3164/machine.go.rl b/rfc3164/machine.go.rl
index a403694..c3ed346 100644
--- a/rfc3164/machine.go.rl
+++ b/rfc3164/machine.go.rl
@@ -54,7 +54,11 @@ action set_timestamp {
 		if m.timezone != nil {
 			t, _ = time.ParseInLocation(time.Stamp, string(m.text()), m.timezone)
 		}
-		output.timestamp = t.AddDate(m.yyyy, 0, 0)
+		year := 0
+		if m.year != nil {
+			year = YearOperation{m.year}.Operate()
+		}
+		output.timestamp = t.AddDate(year, 0, 0)
 		if m.loc != nil {
 			output.timestamp = output.timestamp.In(m.loc)
 		}
@@ -193,7 +197,7 @@ type machine struct {
 	msgat        int
 	err          error
 	bestEffort   bool
-	yyyy         int
+	year         YearOperator
 	rfc3339      bool
 	loc          *time.Location
 	timezone     *time.Location
@@ -226,9 +230,11 @@ func (m *machine) HasBestEffort() bool {
 	return m.bestEffort
 }
 
-// WithYear sets the year for the Stamp timestamp of the RFC 3164 syslog message.
+// WithYear sets the strategy to obtain the year for the Stamp timestamp of the RFC 3164 syslog messages.
+//
+// It applies when a message is parsed: the year may change during the life of the machine.
 func (m *machine) WithYear(o YearOperator) {
-	m.yyyy = YearOperation{o}.Operate()
+	m.year = o
 }
 
 // WithTimezone sets the time zone for the Stamp timestamp of the RFC 3164 syslog message.
-- 
2.43.0


From 1f15f6a58093b4e4af2dbf19ba701a1547115097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:51 +0000
Subject: [PATCH 19/22] fix: rfc5424: a message whose structured data elements
 were all deleted is serialized with '-'

It was serialized with nothing in the place of the structured data, which
is not a syslog message.
---
 rfc5424/builder.go    | 2 +-
 rfc5424/builder.go.rl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rfc5424/builder.go b/rfc5424/builder.go
index 84a4f64..8e2b63d 100644
--- a/rfc5424/builder.go
+++ b/rfc5424/builder.go
@@ -9380,7 +9380,7 @@ func (sm *SyslogMessage) String() (string, error) {
 	if sm.MsgID != nil {
 		mid = *sm.MsgID
 	}
-	if sm.StructuredData != nil {
+	if sm.StructuredData != nil && len(*sm.StructuredData) > 0 {
 		// Sort element identifiers
 		identifiers := make([]string, 0)
 		for k := range *sm.StructuredData {
diff --git a/rfc5424/builder.go.rl b/rfc5424/builder.go.rl
index dc47e4a..a4a5582 100644
--- a/rfc5424/builder.go.rl
+++ b/rfc5424/builder.go.rl
@@ -284,7 +284,7 @@ func (sm *SyslogMessage) String() (string, error) {
     if sm.MsgID != nil {
         mid = *sm.MsgID
     }
-    if sm.StructuredData != nil {
+    if sm.StructuredData != nil && len(*sm.StructuredData) > 0 {
         // Sort element identifiers
         identifiers := make([]string, 0)
         for k, _ := range *sm.StructuredData {
-- 
2.43.0


From 8bf9489033e887a42b77693a328a3bb8650632d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:37 +0000
Subject: [PATCH 20/22] fix: common: escaping and unescaping take time
 proportional to the size

Both were quadratic: parsing or serializing a parameter value of one
megabyte with many escapes took minutes.
---
 common/functions.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/common/functions.go b/common/functions.go
index a93d806..ae90f4d 100644
--- a/common/functions.go
+++ b/common/functions.go
@@ -1,5 +1,9 @@
 package common
 
+import (
+	"strings"
+)
+
 // UnsafeUTF8DecimalCodePointsToInt converts a slice containing
 // a series of UTF-8 decimal code points into their integer rapresentation.
 //
@@ -17,29 +21,33 @@ func UnsafeUTF8DecimalCodePointsToInt(chars []uint8) int {
 }
 
 // RemoveBytes removes byte at given positions from data byte slice, starting from the given offset.
+//
+// It assumes that the positions are in ascending order.
 func RemoveBytes(data []byte, positions []int, offset int) []byte {
 	// We need a copy here to not modify original data
-	cp := append([]byte(nil), data...)
-	for i, pos := range positions {
-		at := pos - i - offset
-		cp = append(cp[:at], cp[(at+1):]...)
+	cp := make([]byte, 0, len(data))
+	from := 0
+	for _, pos := range positions {
+		at := pos - offset
+		cp = append(cp, data[from:at]...)
+		from = at + 1
 	}
-	return cp
+	return append(cp, data[from:]...)
 }
 
 // EscapeBytes adds a backslash to \, ], " characters.
 func EscapeBytes(value string) string {
-	res := ""
+	var res strings.Builder
 	for i := 0; i < len(value); i++ {
 		c := value[i]
 		// todo(leodido): generalize byte codes (the function should ideally accept a byte slice containing byte codes to escape)
 		if c == 92 || c == 93 || c == 34 {
-			res += `\`
+			res.WriteByte(92)
 		}
-		res += value[i : i+1]
+		res.WriteByte(c)
 	}
 
-	return res
+	return res.String()
 }
 
 // InBetween tells whether value is into [min, max] range.
-- 
2.43.0


From dbf40b6f09befe7bc183902a67c9ce7624c70149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:37 +0000
Subject: [PATCH 21/22] fix: rfc5424: serializing takes time proportional to
 the size of the structured data

It was quadratic: a message with some ten thousand elements took tens of
seconds.
---
 rfc5424/builder.go    | 10 ++++++----
 rfc5424/builder.go.rl | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/rfc5424/builder.go b/rfc5424/builder.go
index 8e2b63d..414c248 100644
--- a/rfc5424/builder.go
+++ b/rfc5424/builder.go
@@ -3,6 +3,7 @@ package rfc5424
 import (
 	"fmt"
 	"sort"
+	"strings"
 	"time"
 
 	"github.com/influxdata/go-syslog/v3/common"
@@ -9388,9 +9389,9 @@ func (sm *SyslogMessage) String() (string, error) {
 		}
 		sort.Strings(identifiers)
 
-		sd = ""
+		var b strings.Builder
 		for _, id := range identifiers {
-			sd += fmt.Sprintf("[%s", id)
+			b.WriteString(fmt.Sprintf("[%s", id))
 
 			// Sort parameter names
 			params := (*sm.StructuredData)[id]
@@ -9401,10 +9402,11 @@ func (sm *SyslogMessage) String() (string, error) {
 			sort.Strings(names)
 
 			for _, name := range names {
-				sd += fmt.Sprintf(" %s=\"%s\"", name, common.EscapeBytes(params[name]))
+				b.WriteString(fmt.Sprintf(" %s=\"%s\"", name, common.EscapeBytes(params[name])))
 			}
-			sd += "]"
+			b.WriteString("]")
 		}
+		sd = b.String()
 	}
 	if sm.Message != nil {
 		m = " " + *sm.Message
diff --git a/rfc5424/builder.go.rl b/rfc5424/builder.go.rl
index a4a5582..6861781 100644
--- a/rfc5424/builder.go.rl
+++ b/rfc5424/builder.go.rl
@@ -3,6 +3,7 @@ package rfc5424
 import (
     "time"
     "sort"
+    "strings"
     "fmt"
 
     "github.com/influxdata/go-syslog/v3/common"
@@ -292,9 +293,9 @@ func (sm *SyslogMessage) String() (string, error) {
         }
         sort.Strings(identifiers)
 
-        sd = ""
+        var b strings.Builder
         for _, id := range identifiers {
-            sd += fmt.Sprintf("[%s", id)
+            b.WriteString(fmt.Sprintf("[%s", id))
 
             // Sort parameter names
             params := (*sm.StructuredData)[id]
@@ -305,10 +306,11 @@ func (sm *SyslogMessage) String() (string, error) {
             sort.Strings(names)
 
             for _, name := range names {
-                sd += fmt.Sprintf(" %s=\"%s\"", name, common.EscapeBytes(params[name]))
+                b.WriteString(fmt.Sprintf(" %s=\"%s\"", name, common.EscapeBytes(params[name])))
             }
-            sd += "]"
+            b.WriteString("]")
         }
+        sd = b.String()
     }
     if sm.Message != nil {
         m = " " + *sm.Message
-- 
2.43.0


From 2d36996e8b3c7977c78b3f6c9c9472bf725e2b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:23 +0000
Subject: [PATCH 22/22] fix: octetcounting: the scanner took a length which
 overflows int for another one

On 32 bit platforms only.
---
 octetcounting/scanner.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/octetcounting/scanner.go b/octetcounting/scanner.go
index 16163f5..d452dde 100644
--- a/octetcounting/scanner.go
+++ b/octetcounting/scanner.go
@@ -124,10 +124,10 @@ func (s *Scanner) scanMsgLen() Token {
 
 func (s *Scanner) scanSyslogMsg() Token {
 	// Check the reader contains almost MSGLEN characters
-	n := int(s.msglen)
+	n := s.msglen // Not an int, which MSGLEN could overflow
 	// Messages not fitting into the buffer are collected out of it, but their last piece
 	var head []byte
-	for n > s.r.Size() {
+	for n > uint64(s.r.Size()) {
 		b, err := s.r.Peek(s.r.Size())
 		head = append(head, b...)
 		if err != nil {
@@ -137,9 +137,9 @@ func (s *Scanner) scanSyslogMsg() Token {
 			}
 		}
 		s.r.Discard(len(b))
-		n -= len(b)
+		n -= uint64(len(b))
 	}
-	b, err := s.r.Peek(n)
+	b, err := s.r.Peek(int(n))
 	if head != nil {
 		b = append(head, b...)
 	}
@@ -150,7 +150,7 @@ func (s *Scanner) scanSyslogMsg() Token {
 		}
 	}
 	// Advance the reader of MSGLEN characters
-	s.r.Discard(n)
+	s.r.Discard(int(n))
 
 	// Reset status
 	s.ready = false
-- 
2.43.0

