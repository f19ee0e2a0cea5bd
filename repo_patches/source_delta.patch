From 83eb2d0d6f5ee16538832e30125134b85187eb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:51:53 +0000
Subject: [PATCH 01/28] fix: unfold lines regardless of how the reader splits
 the data

Folds that were split over several reads of the underlying reader, or that
reached the end of the destination buffer, were left in the data or removed
along with neighbouring bytes. Buffer the data read and only pass on a CR or
CRLF once it is known not to start a fold.
---
 unfolder.go | 102 +++++++++++++++++++---------------------------------
 1 file changed, 37 insertions(+), 65 deletions(-)

diff --git a/unfolder.go b/unfolder.go
index 70fa7b3..f235369 100644
--- a/unfolder.go
+++ b/unfolder.go
@@ -6,78 +6,50 @@ import (
 )
 
 type unfolder struct {
-	r      io.Reader
-	bufLen int
-	buf    [2]byte
+	r    io.Reader
+	err  error
+	data []byte // data that has been read, but not yet unfolded
+	buf  [4096]byte
 }
 
 func (u *unfolder) Read(p []byte) (int, error) {
-	var (
-		m, n int
-		err  error
-	)
-	q := p
-	if u.bufLen > 0 {
-		n = copy(p, u.buf[:u.bufLen])
-		if n > 0 {
-			u.buf[0] = u.buf[1]
-			u.bufLen -= n
-			p = p[n:]
-			m += n
+	for {
+		if n := u.unfold(p); n > 0 || len(p) == 0 {
+			return n, nil
+		} else if u.err != nil {
+			return 0, u.err
 		}
-	}
-	for len(p) > 0 && err == nil {
-		n, err = u.r.Read(p)
-		m += n
-		p = p[:n]
-		var toRead int
-		for {
-			pos := bytes.Index(p, eol[:])
-			if pos == -1 {
-				break
-			}
-			copy(p[pos:], p[pos+3:])
-			p = p[pos:]
-			toRead += 3
+
+		var n int
+
+		m := copy(u.buf[:], u.data)
+		n, u.err = u.r.Read(u.buf[m:])
+		u.data = u.buf[:m+n]
+
+		if n == 0 && u.err == nil {
+			return 0, nil
 		}
-		p = p[len(p)-toRead:]
-		m -= toRead
 	}
-	q = q[:m]
-	for err == nil {
-		if lq := len(q); lq > 0 && q[lq-1] == '\r' {
-			u.bufLen, err = u.r.Read(u.buf[:])
-			if u.bufLen < 2 {
-				break
-			}
-			if u.buf[0] == '\n' && u.buf[1] == ' ' {
-				m--
-				if err == nil {
-					n, err = u.r.Read(q[lq-1:])
-					m += n
-					u.bufLen = 0
-				}
-			} else {
-				break
-			}
-		} else if lq > 1 && q[lq-2] == '\r' && q[lq-1] == '\n' {
-			u.bufLen, err = u.r.Read(u.buf[:1])
-			if u.bufLen < 1 {
-				break
-			}
-			if u.buf[0] == ' ' {
-				m -= 2
-				if err == nil {
-					n, err = u.Read(q[lq-2:])
-					m += n
-					u.bufLen = 0
-				}
-			} else {
-				break
-			}
-		} else {
+}
+
+// unfold copies data into p, removing folds. Data that could be the start of a
+// fold is only copied once it is known not to be.
+func (u *unfolder) unfold(p []byte) int {
+	n := 0
+
+	for n < len(p) && len(u.data) > 0 {
+		if bytes.HasPrefix(u.data, eol[:]) {
+			u.data = u.data[len(eol):]
+
+			continue
+		} else if u.err == nil && bytes.HasPrefix(eol[:], u.data) {
 			break
 		}
+
+		p[n] = u.data[0]
+		u.data = u.data[1:]
+		n++
 	}
-	return m, err
+
+	return n
 }
-- 
2.43.0


From 7d2108f8c0cb28716ff959a0e80609febb0e986a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:51:54 +0000
Subject: [PATCH 02/28] fix: unfold lines that are folded with a tab

RFC 5545 allows a fold to be a CRLF followed by either a space or a
horizontal tab.
---
 unfolder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unfolder.go b/unfolder.go
index f235369..6761c24 100644
--- a/unfolder.go
+++ b/unfolder.go
@@ -38,11 +38,11 @@ func (u *unfolder) unfold(p []byte) int {
 	n := 0
 
 	for n < len(p) && len(u.data) > 0 {
-		if bytes.HasPrefix(u.data, eol[:]) {
+		if bytes.HasPrefix(u.data, eol[:2]) && len(u.data) > 2 && (u.data[2] == ' ' || u.data[2] == '\t') {
 			u.data = u.data[len(eol):]
 
 			continue
-		} else if u.err == nil && bytes.HasPrefix(eol[:], u.data) {
+		} else if u.err == nil && bytes.HasPrefix(eol[:2], u.data) {
 			break
 		}
 
-- 
2.43.0


From c4285496483b033b6df42806ba9034417f64afb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:11 +0000
Subject: [PATCH 03/28] fix: correct the caret encoding of param values

Encoding a param containing a newline, caret or double-quote never moved past
that character and looped forever, and decoding repeated the escaped character
(or replaced it by a second caret when it was not a known escape).
---
 genParams.sh | 5 ++++-
 params.go    | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/genParams.sh b/genParams.sh
index 5c0ab1f..2ac02e7 100755
--- a/genParams.sh
+++ b/genParams.sh
@@ -343,7 +343,7 @@ Loop:
 			break Loop
 		case '^':
 			t.Accept("^")
-			switch t.Next() {
+			switch c := t.Next(); c {
 			case -1:
 				d = append(d, '^')
 				break Loop
@@ -358,6 +358,7 @@ Loop:
 				l := utf8.EncodeRune(ru[:], c)
 				d = append(d, ru[:l]...)
 			}
+			t.Get()
 		}
 	}
 	return string(d)
@@ -380,6 +381,8 @@ Loop:
 		case '"':
 			d = append(d, '^', '\'')
 		}
+		t.Next()
+		t.Get()
 	}
 	return d
 }
diff --git a/params.go b/params.go
index f5d83ba..5cb997f 100644
--- a/params.go
+++ b/params.go
@@ -1194,7 +1194,7 @@ Loop:
 			break Loop
 		case '^':
 			t.Accept("^")
-			switch t.Next() {
+			switch c := t.Next(); c {
 			case -1:
 				d = append(d, '^')
 				break Loop
@@ -1209,6 +1209,7 @@ Loop:
 				l := utf8.EncodeRune(ru[:], c)
 				d = append(d, ru[:l]...)
 			}
+			t.Get()
 		}
 	}
 	return string(d)
@@ -1231,6 +1232,8 @@ Loop:
 		case '"':
 			d = append(d, '^', '\'')
 		}
+		t.Next()
+		t.Get()
 	}
 	return d
 }
-- 
2.43.0


From af75a5c74c26ddf70e1adfd34a25505b05cee092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:36 +0000
Subject: [PATCH 04/28] fix: accept finite floats when validating

The check was inverted, so any calendar with a GEO property could not be
encoded unless the coordinates were infinite or not a number.
---
 types.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/types.go b/types.go
index da1d385..c25cc50 100644
--- a/types.go
+++ b/types.go
@@ -421,7 +421,7 @@ func (f Float) encode(w writer) {
 func (f Float) valid() error {
 	d := float64(f)
 
-	if !math.IsNaN(d) && !math.IsInf(d, 0) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		return ErrInvalidFloat
 	}
 
@@ -463,13 +463,13 @@ func (t TFloat) encode(w writer) {
 func (t TFloat) valid() error {
 	d := float64(t[0])
 
-	if !math.IsNaN(d) && !math.IsInf(d, 0) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		return ErrInvalidFloat
 	}
 
 	d = float64(t[1])
 
-	if !math.IsNaN(d) && !math.IsInf(d, 0) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		return ErrInvalidFloat
 	}
 
-- 
2.43.0


From 849d9f20722085a84a661b9c7be274d2b41bedc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:44 +0000
Subject: [PATCH 05/28] fix: reject infinite and NaN floats when decoding

strconv.ParseFloat accepts "Inf" and "NaN", which are not iCalendar float
values and which Encode refuses to write.
---
 types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types.go b/types.go
index c25cc50..c1ef3a4 100644
--- a/types.go
+++ b/types.go
@@ -406,7 +406,7 @@ func (f *Float) decode(_ map[string]string, data string) error {
 
 	*f = Float(cf)
 
-	return nil
+	return f.valid()
 }
 
 func (f Float) aencode(w writer) {
@@ -446,7 +446,7 @@ func (t *TFloat) decode(_ map[string]string, data string) error {
 		return fmt.Errorf("error parsing TFloat[1]: %w", err)
 	}
 
-	return nil
+	return t.valid()
 }
 
 func (t TFloat) aencode(w writer) {
-- 
2.43.0


From 4531a683b52fdc64f48f244a4c15d7bbadaa1255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:53 +0000
Subject: [PATCH 06/28] fix: quote URI and calendar address params

ALTREP, DELEGATED-FROM, DELEGATED-TO and URI must be quoted, and are rejected
by Decode when they are not, but were written without quotes.
---
 genParams.sh | 14 ++++++++++++--
 params.go    | 24 ++++++++++++++++--------
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/genParams.sh b/genParams.sh
index 2ac02e7..d017818 100755
--- a/genParams.sh
+++ b/genParams.sh
@@ -143,7 +143,11 @@ source "comments.sh";
 			if [ ! -z "$vType" ]; then
 				echo "$indent	var q $vType";
 				echo;
-				echo "$indent	if err := q.decode(nil, ${vName}.Data); err != nil {";
+				if $doubleQuote; then
+					echo "$indent	if err := q.decode(nil, decode6868(${vName}.Data)); err != nil {";
+				else
+					echo "$indent	if err := q.decode(nil, ${vName}.Data); err != nil {";
+				fi;
 				echo "$indent		return fmt.Errorf(errDecodingType, c$type, err)";
 				echo "$indent	}";
 				echo;
@@ -232,7 +236,13 @@ source "comments.sh";
 			if [ ! -z "$vType" ]; then
 				echo "$indent	q := $vType($vName)";
 				echo;
-				echo "$indent	q.encode(w)";
+				if $doubleQuote; then
+					echo "$indent	w.WriteString(\"\\\"\")";
+					echo "$indent	w.Write(encode6868(q.String()))";
+					echo "$indent	w.WriteString(\"\\\"\")";
+				else
+					echo "$indent	q.encode(w)";
+				fi;
 			elif [ ${#choices[@]} -eq 1 ]; then
 				echo "$indent	w.WriteString(\"${choices[0]}\")";
 				freeChoice=true;
diff --git a/params.go b/params.go
index 5cb997f..017f548 100644
--- a/params.go
+++ b/params.go
@@ -26,7 +26,7 @@ func (t *ParamAlternativeRepresentation) decode(vs []parser.Token) error {
 
 	var q URI
 
-	if err := q.decode(nil, vs[0].Data); err != nil {
+	if err := q.decode(nil, decode6868(vs[0].Data)); err != nil {
 		return fmt.Errorf(errDecodingType, cAlternativeRepresentation, err)
 	}
 
@@ -44,7 +44,9 @@ func (t ParamAlternativeRepresentation) encode(w writer) {
 
 	q := URI(t)
 
-	q.encode(w)
+	w.WriteString("\"")
+	w.Write(encode6868(q.String()))
+	w.WriteString("\"")
 }
 
 func (t ParamAlternativeRepresentation) valid() error {
@@ -170,7 +172,7 @@ func (t *ParamDelegator) decode(vs []parser.Token) error {
 
 		var q CalendarAddress
 
-		if err := q.decode(nil, v.Data); err != nil {
+		if err := q.decode(nil, decode6868(v.Data)); err != nil {
 			return fmt.Errorf(errDecodingType, cDelegator, err)
 		}
 
@@ -194,7 +196,9 @@ func (t ParamDelegator) encode(w writer) {
 
 		q := CalendarAddress(v)
 
-		q.encode(w)
+		w.WriteString("\"")
+		w.Write(encode6868(q.String()))
+		w.WriteString("\"")
 	}
 }
 
@@ -219,7 +223,7 @@ func (t *ParamDelagatee) decode(vs []parser.Token) error {
 
 		var q CalendarAddress
 
-		if err := q.decode(nil, v.Data); err != nil {
+		if err := q.decode(nil, decode6868(v.Data)); err != nil {
 			return fmt.Errorf(errDecodingType, cDelagatee, err)
 		}
 
@@ -243,7 +247,9 @@ func (t ParamDelagatee) encode(w writer) {
 
 		q := CalendarAddress(v)
 
-		q.encode(w)
+		w.WriteString("\"")
+		w.Write(encode6868(q.String()))
+		w.WriteString("\"")
 	}
 }
 
@@ -1066,7 +1072,7 @@ func (t *ParamURI) decode(vs []parser.Token) error {
 
 	var q URI
 
-	if err := q.decode(nil, vs[0].Data); err != nil {
+	if err := q.decode(nil, decode6868(vs[0].Data)); err != nil {
 		return fmt.Errorf(errDecodingType, cURI, err)
 	}
 
@@ -1084,7 +1090,9 @@ func (t ParamURI) encode(w writer) {
 
 	q := URI(t)
 
-	q.encode(w)
+	w.WriteString("\"")
+	w.Write(encode6868(q.String()))
+	w.WriteString("\"")
 }
 
 func (t ParamURI) valid() error {
-- 
2.43.0


From 644b165418a4ffe60a1e0f86e74f50ba09b38d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:53:24 +0000
Subject: [PATCH 07/28] fix: decode the LAST-MODIFIED property

The sections looked for a LAST-MOD property, so LAST-MODIFIED, which is what
Encode writes, was silently dropped.
---
 sections.gen | 8 ++++----
 sections.go  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/sections.gen b/sections.gen
index dba53b9..06d4903 100644
--- a/sections.gen
+++ b/sections.gen
@@ -14,7 +14,7 @@ VEVENT
 	CREATED
 	DESCRIPTION
 	GEO
-	LAST-MOD
+	LAST-MODIFIED
 	LOCATION
 	ORGANIZER
 	PRIORITY
@@ -48,7 +48,7 @@ VTODO
 	DESCRIPTION
 	DTSTART
 	GEO
-	LAST-MOD
+	LAST-MODIFIED
 	LOCATION
 	ORGANIZER
 	PERCENT-COMPLETE
@@ -79,7 +79,7 @@ VJOURNAL
 	CLASS
 	CREATED
 	DTSTART
-	LAST-MOD
+	LAST-MODIFIED
 	ORGANIZER
 	RECURRENCE-ID
 	SEQUENCE
@@ -112,7 +112,7 @@ VFREEBUSY
 	*REQUEST-STATUS
 VTIMEZONE
 	!TZID
-	LAST-MOD
+	LAST-MODIFIED
 	TZURL
 	*BEGIN:STANDARD
 	*BEGIN:DAYLIGHT
diff --git a/sections.go b/sections.go
index 741a87a..deddf38 100644
--- a/sections.go
+++ b/sections.go
@@ -327,7 +327,7 @@ Loop:
 			if err := s.Geo.decode(params, value); err != nil {
 				return fmt.Errorf(errDecodingProp, cEvent, cGeo, err)
 			}
-		case "LAST-MOD":
+		case "LAST-MODIFIED":
 			if s.LastModified != nil {
 				return fmt.Errorf(errMultiple, cEvent, cLastModified)
 			}
@@ -1013,7 +1013,7 @@ Loop:
 			if err := s.Geo.decode(params, value); err != nil {
 				return fmt.Errorf(errDecodingProp, cTodo, cGeo, err)
 			}
-		case "LAST-MOD":
+		case "LAST-MODIFIED":
 			if s.LastModified != nil {
 				return fmt.Errorf(errMultiple, cTodo, cLastModified)
 			}
@@ -1648,7 +1648,7 @@ Loop:
 			if err := s.DateTimeStart.decode(params, value); err != nil {
 				return fmt.Errorf(errDecodingProp, cJournal, cDateTimeStart, err)
 			}
-		case "LAST-MOD":
+		case "LAST-MODIFIED":
 			if s.LastModified != nil {
 				return fmt.Errorf(errMultiple, cJournal, cLastModified)
 			}
@@ -2398,7 +2398,7 @@ Loop:
 			if err := s.TimezoneID.decode(params, value); err != nil {
 				return fmt.Errorf(errDecodingProp, cTimezone, cTimezoneID, err)
 			}
-		case "LAST-MOD":
+		case "LAST-MODIFIED":
 			if s.LastModified != nil {
 				return fmt.Errorf(errMultiple, cTimezone, cLastModified)
 			}
-- 
2.43.0


From 7bcdac7554570281722271fe46de849cca90baeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:53:36 +0000
Subject: [PATCH 08/28] fix: require DURATION and REPEAT to be used together

The check for email and URI alarms was inverted: it rejected alarms with both
or neither of the properties and accepted alarms with only one of them.
---
 genSections.sh | 2 +-
 sections.go    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/genSections.sh b/genSections.sh
index 1ef7da9..0b6e3ef 100755
--- a/genSections.sh
+++ b/genSections.sh
@@ -244,7 +244,7 @@ function printSection() {
 					echo -n " &&";
 				fi;
 				if $first; then
-					echo -n " t == (s.$(getName "$r") == nil)";
+					echo -n " t != (s.$(getName "$r") == nil)";
 					second=true;
 				else
 					echo -n " t := s.$(getName "$r") == nil;";
diff --git a/sections.go b/sections.go
index deddf38..5119466 100644
--- a/sections.go
+++ b/sections.go
@@ -3681,7 +3681,7 @@ Loop:
 		return fmt.Errorf(errDecodingType, cAlarmEmail, ErrRequirementNotMet)
 	}
 
-	if t := s.Duration == nil; t == (s.Repeat == nil) {
+	if t := s.Duration == nil; t != (s.Repeat == nil) {
 		return fmt.Errorf(errDecodingType, cAlarmEmail, ErrRequirementNotMet)
 	}
 
@@ -4001,7 +4001,7 @@ Loop:
 		return fmt.Errorf(errDecodingType, cAlarmURI, ErrRequirementNotMet)
 	}
 
-	if t := s.Duration == nil; t == (s.Repeat == nil) {
+	if t := s.Duration == nil; t != (s.Repeat == nil) {
 		return fmt.Errorf(errDecodingType, cAlarmURI, ErrRequirementNotMet)
 	}
 
-- 
2.43.0


From a30854e9abebe0646ba990522e13514d11d9499f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:53:48 +0000
Subject: [PATCH 09/28] fix: check the section requirements when validating

Encode wrote sections that Decode rejects with ErrRequirementNotMet, such as
an event with both an end and a duration or a timezone without any rules.
---
 genSections.sh | 119 ++++++++++++++++++++++++++-----------------------
 sections.go    |  40 +++++++++++++++++
 2 files changed, 102 insertions(+), 57 deletions(-)

diff --git a/genSections.sh b/genSections.sh
index 0b6e3ef..840601c 100755
--- a/genSections.sh
+++ b/genSections.sh
@@ -17,6 +17,66 @@ function addToSection() {
 	fi;
 }
 
+function printRequirements() {
+	for req in "${requirements[@]}"; do
+		first=false;
+		declare second=false;
+		echo -n "	if";
+		reqs=( $req );
+		typ=${reqs[0]};
+		reqs[0]="";
+		reqs=( ${reqs[@]} );
+		if [ "$typ" = "AND" ]; then
+			for r in ${reqs[@]}; do
+				if $second; then
+					echo -n " &&";
+				fi;
+				if $first; then
+					echo -n " t != (s.$(getName "$r") == nil)";
+					second=true;
+				else
+					echo -n " t := s.$(getName "$r") == nil;";
+					first=true;
+				fi;
+			done;
+		elif [ "$typ" = "OR" ]; then
+			for r in ${reqs[@]}; do
+				if $first; then
+					echo -n " &&";
+				fi;
+				first=true;
+				echo -n " s.$(getName "$r") == nil";
+			done;
+		elif [ "$typ" = "ONE" ]; then
+			for r in ${reqs[@]}; do
+				if $first; then
+					echo -n " &&";
+				fi;
+				first=true;
+				echo -n " s.$(getName "$r") != nil";
+			done;
+		elif [ "$typ" = "ERGO" ]; then
+			for r in ${reqs[@]}; do
+				if $second; then
+					echo -n " || ";
+				fi;
+				if $first; then
+					echo -n "s.$(getName "$r") == nil";
+					second=true;
+				else
+					echo -n " s.$(getName "$r") != nil && (";
+					first=true;
+				fi;
+			done;
+			echo -n ")";
+		fi;
+		echo " {";
+		echo "		return fmt.Errorf($1, c$sName, ErrRequirementNotMet)";
+		echo "	}";
+		echo;
+	done;
+}
+
 function printSection() {
 	declare sName="$(getName $sectionName)";
 
@@ -230,63 +290,7 @@ function printSection() {
 	fi;
 
 	# check other requirements
-	for req in "${requirements[@]}"; do
-		first=false;
-		declare second=false;
-		echo -n "	if";
-		reqs=( $req );
-		typ=${reqs[0]};
-		reqs[0]="";
-		reqs=( ${reqs[@]} );
-		if [ "$typ" = "AND" ]; then
-			for r in ${reqs[@]}; do
-				if $second; then
-					echo -n " &&";
-				fi;
-				if $first; then
-					echo -n " t != (s.$(getName "$r") == nil)";
-					second=true;
-				else
-					echo -n " t := s.$(getName "$r") == nil;";
-					first=true;
-				fi;
-			done;
-		elif [ "$typ" = "OR" ]; then
-			for r in ${reqs[@]}; do
-				if $first; then
-					echo -n " &&";
-				fi;
-				first=true;
-				echo -n " s.$(getName "$r") == nil";
-			done;
-		elif [ "$typ" = "ONE" ]; then
-			for r in ${reqs[@]}; do
-				if $first; then
-					echo -n " &&";
-				fi;
-				first=true;
-				echo -n " s.$(getName "$r") != nil";
-			done;
-		elif [ "$typ" = "ERGO" ]; then
-			for r in ${reqs[@]}; do
-				if $second; then
-					echo -n " || ";
-				fi;
-				if $first; then
-					echo -n "s.$(getName "$r") == nil";
-					second=true;
-				else
-					echo -n " s.$(getName "$r") != nil && (";
-					first=true;
-				fi;
-			done;
-			echo -n ")";
-		fi;
-		echo " {";
-		echo "		return fmt.Errorf(errDecodingType, c$sName, ErrRequirementNotMet)";
-		echo "	}";
-		echo;
-	done;
+	printRequirements "errDecodingType";
 
 	# end of decoder
 	echo "	return nil";
@@ -358,6 +362,7 @@ function printSection() {
 		fi;
 		echo;
 	done;
+	printRequirements "errValidatingType";
 	echo "	return nil";
 	echo "}";
 	echo;
diff --git a/sections.go b/sections.go
index 5119466..da948eb 100644
--- a/sections.go
+++ b/sections.go
@@ -864,6 +864,10 @@ func (s *Event) valid() error {
 		}
 	}
 
+	if s.DateTimeEnd != nil && s.Duration != nil {
+		return fmt.Errorf(errValidatingType, cEvent, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -1544,6 +1548,14 @@ func (s *Todo) valid() error {
 		}
 	}
 
+	if s.Duration != nil && (s.DateTimeStart == nil) {
+		return fmt.Errorf(errValidatingType, cTodo, ErrRequirementNotMet)
+	}
+
+	if s.Due != nil && s.Duration != nil {
+		return fmt.Errorf(errValidatingType, cTodo, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -2490,6 +2502,10 @@ func (s *Timezone) valid() error {
 		}
 	}
 
+	if s.Standard == nil && s.Daylight == nil {
+		return fmt.Errorf(errValidatingType, cTimezone, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -3163,6 +3179,10 @@ func (s *AlarmAudio) valid() error {
 		}
 	}
 
+	if s.GeoLocation != nil && (s.Proximity == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmAudio, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -3475,6 +3495,10 @@ func (s *AlarmDisplay) valid() error {
 		}
 	}
 
+	if s.GeoLocation != nil && (s.Proximity == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmDisplay, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -3828,6 +3852,14 @@ func (s *AlarmEmail) valid() error {
 		}
 	}
 
+	if s.GeoLocation != nil && (s.Proximity == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmEmail, ErrRequirementNotMet)
+	}
+
+	if t := s.Duration == nil; t != (s.Repeat == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmEmail, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -4128,6 +4160,14 @@ func (s *AlarmURI) valid() error {
 		}
 	}
 
+	if s.GeoLocation != nil && (s.Proximity == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmURI, ErrRequirementNotMet)
+	}
+
+	if t := s.Duration == nil; t != (s.Repeat == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmURI, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From baeaa4a80e7b86c3c445136956512078ecace5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:54:15 +0000
Subject: [PATCH 10/28] fix: treat empty lists as unset in the section
 requirements

A timezone with empty, but non-nil, lists of rules was encoded although
Decode rejects the result.
---
 genSections.sh | 24 ++++++++++++++++++------
 sections.go    | 20 ++++++++++----------
 2 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/genSections.sh b/genSections.sh
index 840601c..465c789 100755
--- a/genSections.sh
+++ b/genSections.sh
@@ -17,6 +17,18 @@ function addToSection() {
 	fi;
 }
 
+function isUnset() {
+	declare name="$(getName "$1")";
+	for tline in "${currSection[@]}"; do
+		aline=( $tline ); # 0:name 1:KEYWORD 2:required 3:multiple 4:section 5:requiredAlso 6:requiredInstead
+		if [ "${aline[0]}" = "$name" ] && ${aline[3]}; then
+			echo -n "len(s.$name) $2 0";
+			return;
+		fi;
+	done;
+	echo -n "s.$name $2 nil";
+}
+
 function printRequirements() {
 	for req in "${requirements[@]}"; do
 		first=false;
@@ -32,10 +44,10 @@ function printRequirements() {
 					echo -n " &&";
 				fi;
 				if $first; then
-					echo -n " t != (s.$(getName "$r") == nil)";
+					echo -n " t != ($(isUnset "$r" "=="))";
 					second=true;
 				else
-					echo -n " t := s.$(getName "$r") == nil;";
+					echo -n " t := $(isUnset "$r" "==");";
 					first=true;
 				fi;
 			done;
@@ -45,7 +57,7 @@ function printRequirements() {
 					echo -n " &&";
 				fi;
 				first=true;
-				echo -n " s.$(getName "$r") == nil";
+				echo -n " $(isUnset "$r" "==")";
 			done;
 		elif [ "$typ" = "ONE" ]; then
 			for r in ${reqs[@]}; do
@@ -53,7 +65,7 @@ function printRequirements() {
 					echo -n " &&";
 				fi;
 				first=true;
-				echo -n " s.$(getName "$r") != nil";
+				echo -n " $(isUnset "$r" "!=")";
 			done;
 		elif [ "$typ" = "ERGO" ]; then
 			for r in ${reqs[@]}; do
@@ -61,10 +73,10 @@ function printRequirements() {
 					echo -n " || ";
 				fi;
 				if $first; then
-					echo -n "s.$(getName "$r") == nil";
+					echo -n "$(isUnset "$r" "==")";
 					second=true;
 				else
-					echo -n " s.$(getName "$r") != nil && (";
+					echo -n " $(isUnset "$r" "!=") && (";
 					first=true;
 				fi;
 			done;
diff --git a/sections.go b/sections.go
index da948eb..455bdf1 100644
--- a/sections.go
+++ b/sections.go
@@ -2443,7 +2443,7 @@ Loop:
 		return fmt.Errorf(errDecodingType, cTimezone, ErrMissingRequired)
 	}
 
-	if s.Standard == nil && s.Daylight == nil {
+	if len(s.Standard) == 0 && len(s.Daylight) == 0 {
 		return fmt.Errorf(errDecodingType, cTimezone, ErrRequirementNotMet)
 	}
 
@@ -2502,7 +2502,7 @@ func (s *Timezone) valid() error {
 		}
 	}
 
-	if s.Standard == nil && s.Daylight == nil {
+	if len(s.Standard) == 0 && len(s.Daylight) == 0 {
 		return fmt.Errorf(errValidatingType, cTimezone, ErrRequirementNotMet)
 	}
 
@@ -3042,7 +3042,7 @@ Loop:
 		return fmt.Errorf(errDecodingType, cAlarmAudio, ErrMissingRequired)
 	}
 
-	if s.GeoLocation != nil && (s.Proximity == nil) {
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
 		return fmt.Errorf(errDecodingType, cAlarmAudio, ErrRequirementNotMet)
 	}
 
@@ -3179,7 +3179,7 @@ func (s *AlarmAudio) valid() error {
 		}
 	}
 
-	if s.GeoLocation != nil && (s.Proximity == nil) {
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
 		return fmt.Errorf(errValidatingType, cAlarmAudio, ErrRequirementNotMet)
 	}
 
@@ -3363,7 +3363,7 @@ Loop:
 		return fmt.Errorf(errDecodingType, cAlarmDisplay, ErrMissingRequired)
 	}
 
-	if s.GeoLocation != nil && (s.Proximity == nil) {
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
 		return fmt.Errorf(errDecodingType, cAlarmDisplay, ErrRequirementNotMet)
 	}
 
@@ -3495,7 +3495,7 @@ func (s *AlarmDisplay) valid() error {
 		}
 	}
 
-	if s.GeoLocation != nil && (s.Proximity == nil) {
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
 		return fmt.Errorf(errValidatingType, cAlarmDisplay, ErrRequirementNotMet)
 	}
 
@@ -3701,7 +3701,7 @@ Loop:
 		return fmt.Errorf(errDecodingType, cAlarmEmail, ErrMissingRequired)
 	}
 
-	if s.GeoLocation != nil && (s.Proximity == nil) {
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
 		return fmt.Errorf(errDecodingType, cAlarmEmail, ErrRequirementNotMet)
 	}
 
@@ -3852,7 +3852,7 @@ func (s *AlarmEmail) valid() error {
 		}
 	}
 
-	if s.GeoLocation != nil && (s.Proximity == nil) {
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
 		return fmt.Errorf(errValidatingType, cAlarmEmail, ErrRequirementNotMet)
 	}
 
@@ -4029,7 +4029,7 @@ Loop:
 		return fmt.Errorf(errDecodingType, cAlarmURI, ErrMissingRequired)
 	}
 
-	if s.GeoLocation != nil && (s.Proximity == nil) {
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
 		return fmt.Errorf(errDecodingType, cAlarmURI, ErrRequirementNotMet)
 	}
 
@@ -4160,7 +4160,7 @@ func (s *AlarmURI) valid() error {
 		}
 	}
 
-	if s.GeoLocation != nil && (s.Proximity == nil) {
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
 		return fmt.Errorf(errValidatingType, cAlarmURI, ErrRequirementNotMet)
 	}
 
-- 
2.43.0


From ca06928498c3b545eecddb6145ccddeb20d73038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:54:51 +0000
Subject: [PATCH 11/28] fix: do not panic on input that ends inside an alarm

---
 sections_alarm.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sections_alarm.go b/sections_alarm.go
index 4944994..ec8cd84 100644
--- a/sections_alarm.go
+++ b/sections_alarm.go
@@ -43,6 +43,8 @@ Loop:
 		ph, err := t.GetPhrase()
 		if err != nil {
 			return err
+		} else if ph.Type == parser.PhraseDone {
+			return io.ErrUnexpectedEOF
 		}
 
 		pt = append(pt, ph)
-- 
2.43.0


From 84d050c09a9f45eb15315732cacacd962fb9cfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:54:58 +0000
Subject: [PATCH 12/28] fix: reject a second action in an alarm after an
 unknown one

Only actions that are known set the alarm type, so the check for multiple
actions did not see the others.
---
 sections_alarm.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sections_alarm.go b/sections_alarm.go
index ec8cd84..269895d 100644
--- a/sections_alarm.go
+++ b/sections_alarm.go
@@ -68,6 +68,8 @@ Loop:
 				a.AlarmType = new(AlarmURI)
 			case "NONE":
 				a.AlarmType = new(AlarmNone)
+			default:
+				return ErrMissingAlarmAction
 			}
 		case "END":
 			break Loop
-- 
2.43.0


From 96004ac2c4d022bd8f7048f0d9a4b1fcf87cbaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:55:13 +0000
Subject: [PATCH 13/28] fix: do not recurse when skipping unknown sections

The stack could be exhausted, ending the program, by an input with enough
nested unknown sections.
---
 genSections.sh | 16 +++++++++-------
 sections.go    | 16 +++++++++-------
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/genSections.sh b/genSections.sh
index 465c789..4171ce3 100755
--- a/genSections.sh
+++ b/genSections.sh
@@ -451,7 +451,9 @@ OFS="$IFS";
 	cat <<HEREDOC
 // decodeDummy reads unknown sections, discarding the data.
 func decodeDummy(t tokeniser, n string) error {
-	for {
+	open := []string{n}
+
+	for len(open) > 0 {
 		p, err := t.GetPhrase()
 		if err != nil {
 			return err
@@ -461,17 +463,17 @@ func decodeDummy(t tokeniser, n string) error {
 
 		switch strings.ToUpper(p.Data[0].Data) {
 		case "BEGIN":
-			if err := decodeDummy(t, p.Data[len(p.Data)-1].Data); err != nil {
-				return err
-			}
+			open = append(open, p.Data[len(p.Data)-1].Data)
 		case "END":
-			if strings.ToUpper(p.Data[len(p.Data)-1].Data) == n {
-				return nil
+			if strings.ToUpper(p.Data[len(p.Data)-1].Data) != open[len(open)-1] {
+				return ErrInvalidEnd
 			}
 
-			return ErrInvalidEnd
+			open = open[:len(open)-1]
 		}
 	}
+
+	return nil
 }
 
 // Errors.
diff --git a/sections.go b/sections.go
index 455bdf1..bef8efb 100644
--- a/sections.go
+++ b/sections.go
@@ -4214,7 +4214,9 @@ func (s *AlarmNone) valid() error {
 
 // decodeDummy reads unknown sections, discarding the data.
 func decodeDummy(t tokeniser, n string) error {
-	for {
+	open := []string{n}
+
+	for len(open) > 0 {
 		p, err := t.GetPhrase()
 		if err != nil {
 			return err
@@ -4224,17 +4226,17 @@ func decodeDummy(t tokeniser, n string) error {
 
 		switch strings.ToUpper(p.Data[0].Data) {
 		case "BEGIN":
-			if err := decodeDummy(t, p.Data[len(p.Data)-1].Data); err != nil {
-				return err
-			}
+			open = append(open, p.Data[len(p.Data)-1].Data)
 		case "END":
-			if strings.ToUpper(p.Data[len(p.Data)-1].Data) == n {
-				return nil
+			if strings.ToUpper(p.Data[len(p.Data)-1].Data) != open[len(open)-1] {
+				return ErrInvalidEnd
 			}
 
-			return ErrInvalidEnd
+			open = open[:len(open)-1]
 		}
 	}
+
+	return nil
 }
 
 // Errors.
-- 
2.43.0


From 471db103b188bdc9a7d0e3f1194df14deb5b5bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:55:30 +0000
Subject: [PATCH 14/28] fix: ignore case in section ends, alarm actions and
 binary encodings

Names and enumerated values are case-insensitive, and are treated as such
everywhere else.
---
 genSections.sh    |  6 +++---
 sections.go       | 28 ++++++++++++++--------------
 sections_alarm.go |  5 +++--
 types.go          |  2 +-
 4 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/genSections.sh b/genSections.sh
index 4171ce3..7f32d59 100755
--- a/genSections.sh
+++ b/genSections.sh
@@ -262,9 +262,9 @@ function printSection() {
 	done;
 	echo "		case \"END\":";
 	if [ "${sectionName:0:6}" = "VALARM" ]; then
-		echo "			if value != \"VALARM\" {";
+		echo "			if strings.ToUpper(value) != \"VALARM\" {";
 	else
-		echo "			if value != \"$sectionName\" {";
+		echo "			if strings.ToUpper(value) != \"$sectionName\" {";
 	fi;
 	echo "				return fmt.Errorf(errDecodingType, c$sName, ErrInvalidEnd)";
 	echo "			}";
@@ -463,7 +463,7 @@ func decodeDummy(t tokeniser, n string) error {
 
 		switch strings.ToUpper(p.Data[0].Data) {
 		case "BEGIN":
-			open = append(open, p.Data[len(p.Data)-1].Data)
+			open = append(open, strings.ToUpper(p.Data[len(p.Data)-1].Data))
 		case "END":
 			if strings.ToUpper(p.Data[len(p.Data)-1].Data) != open[len(open)-1] {
 				return ErrInvalidEnd
diff --git a/sections.go b/sections.go
index bef8efb..85af7e9 100644
--- a/sections.go
+++ b/sections.go
@@ -106,7 +106,7 @@ Loop:
 				return fmt.Errorf(errDecodingProp, cCalendar, cProductID, err)
 			}
 		case "END":
-			if value != "VCALENDAR" {
+			if strings.ToUpper(value) != "VCALENDAR" {
 				return fmt.Errorf(errDecodingType, cCalendar, ErrInvalidEnd)
 			}
 
@@ -538,7 +538,7 @@ Loop:
 
 			s.RecurrenceDateTimes = append(s.RecurrenceDateTimes, e)
 		case "END":
-			if value != "VEVENT" {
+			if strings.ToUpper(value) != "VEVENT" {
 				return fmt.Errorf(errDecodingType, cEvent, ErrInvalidEnd)
 			}
 
@@ -1218,7 +1218,7 @@ Loop:
 
 			s.RecurrenceDateTimes = append(s.RecurrenceDateTimes, e)
 		case "END":
-			if value != "VTODO" {
+			if strings.ToUpper(value) != "VTODO" {
 				return fmt.Errorf(errDecodingType, cTodo, ErrInvalidEnd)
 			}
 
@@ -1829,7 +1829,7 @@ Loop:
 
 			s.RecurrenceDateTimes = append(s.RecurrenceDateTimes, e)
 		case "END":
-			if value != "VJOURNAL" {
+			if strings.ToUpper(value) != "VJOURNAL" {
 				return fmt.Errorf(errDecodingType, cJournal, ErrInvalidEnd)
 			}
 
@@ -2227,7 +2227,7 @@ Loop:
 
 			s.RequestStatus = append(s.RequestStatus, e)
 		case "END":
-			if value != "VFREEBUSY" {
+			if strings.ToUpper(value) != "VFREEBUSY" {
 				return fmt.Errorf(errDecodingType, cFreeBusy, ErrInvalidEnd)
 			}
 
@@ -2431,7 +2431,7 @@ Loop:
 				return fmt.Errorf(errDecodingProp, cTimezone, cTimezoneURL, err)
 			}
 		case "END":
-			if value != "VTIMEZONE" {
+			if strings.ToUpper(value) != "VTIMEZONE" {
 				return fmt.Errorf(errDecodingType, cTimezone, ErrInvalidEnd)
 			}
 
@@ -2608,7 +2608,7 @@ Loop:
 
 			s.TimezoneName = append(s.TimezoneName, e)
 		case "END":
-			if value != "STANDARD" {
+			if strings.ToUpper(value) != "STANDARD" {
 				return fmt.Errorf(errDecodingType, cStandard, ErrInvalidEnd)
 			}
 
@@ -2787,7 +2787,7 @@ Loop:
 
 			s.TimezoneName = append(s.TimezoneName, e)
 		case "END":
-			if value != "DAYLIGHT" {
+			if strings.ToUpper(value) != "DAYLIGHT" {
 				return fmt.Errorf(errDecodingType, cDaylight, ErrInvalidEnd)
 			}
 
@@ -3030,7 +3030,7 @@ Loop:
 				return fmt.Errorf(errDecodingProp, cAlarmAudio, cDefaultAlarm, err)
 			}
 		case "END":
-			if value != "VALARM" {
+			if strings.ToUpper(value) != "VALARM" {
 				return fmt.Errorf(errDecodingType, cAlarmAudio, ErrInvalidEnd)
 			}
 
@@ -3351,7 +3351,7 @@ Loop:
 				return fmt.Errorf(errDecodingProp, cAlarmDisplay, cDefaultAlarm, err)
 			}
 		case "END":
-			if value != "VALARM" {
+			if strings.ToUpper(value) != "VALARM" {
 				return fmt.Errorf(errDecodingType, cAlarmDisplay, ErrInvalidEnd)
 			}
 
@@ -3689,7 +3689,7 @@ Loop:
 				return fmt.Errorf(errDecodingProp, cAlarmEmail, cDefaultAlarm, err)
 			}
 		case "END":
-			if value != "VALARM" {
+			if strings.ToUpper(value) != "VALARM" {
 				return fmt.Errorf(errDecodingType, cAlarmEmail, ErrInvalidEnd)
 			}
 
@@ -4017,7 +4017,7 @@ Loop:
 				return fmt.Errorf(errDecodingProp, cAlarmURI, cDefaultAlarm, err)
 			}
 		case "END":
-			if value != "VALARM" {
+			if strings.ToUpper(value) != "VALARM" {
 				return fmt.Errorf(errDecodingType, cAlarmURI, ErrInvalidEnd)
 			}
 
@@ -4195,7 +4195,7 @@ Loop:
 				}
 			}
 		case "END":
-			if value != "VALARM" {
+			if strings.ToUpper(value) != "VALARM" {
 				return fmt.Errorf(errDecodingType, cAlarmNone, ErrInvalidEnd)
 			}
 
@@ -4226,7 +4226,7 @@ func decodeDummy(t tokeniser, n string) error {
 
 		switch strings.ToUpper(p.Data[0].Data) {
 		case "BEGIN":
-			open = append(open, p.Data[len(p.Data)-1].Data)
+			open = append(open, strings.ToUpper(p.Data[len(p.Data)-1].Data))
 		case "END":
 			if strings.ToUpper(p.Data[len(p.Data)-1].Data) != open[len(open)-1] {
 				return ErrInvalidEnd
diff --git a/sections_alarm.go b/sections_alarm.go
index 269895d..4a283e0 100644
--- a/sections_alarm.go
+++ b/sections_alarm.go
@@ -3,6 +3,7 @@ package ics
 import (
 	"errors"
 	"io"
+	"strings"
 
 	"vimagination.zapto.org/parser"
 )
@@ -49,7 +50,7 @@ Loop:
 
 		pt = append(pt, ph)
 
-		switch ph.Data[0].Data {
+		switch strings.ToUpper(ph.Data[0].Data) {
 		case "BEGIN":
 			return ErrInvalidStructure
 		case "ACTION":
@@ -57,7 +58,7 @@ Loop:
 				return ErrInvalidStructure
 			}
 
-			switch ph.Data[len(ph.Data)-1].Data {
+			switch strings.ToUpper(ph.Data[len(ph.Data)-1].Data) {
 			case "AUDIO":
 				a.AlarmType = new(AlarmAudio)
 			case "DISPLAY":
diff --git a/types.go b/types.go
index c1ef3a4..02678fa 100644
--- a/types.go
+++ b/types.go
@@ -20,7 +20,7 @@ const dateTimeFormat = "20060102T150405Z"
 type Binary []byte
 
 func (b *Binary) decode(params map[string]string, data string) error {
-	if params["ENCODING"] != "BASE64" {
+	if strings.ToUpper(params["ENCODING"]) != "BASE64" {
 		return ErrInvalidEncoding
 	}
 
-- 
2.43.0


From 3b88ed5b85b912b8378a33e5fb3fc61939e48108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:55:39 +0000
Subject: [PATCH 15/28] fix: do not panic on a BYDAY value of a sign and a
 single digit

---
 types.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/types.go b/types.go
index 02678fa..896395f 100644
--- a/types.go
+++ b/types.go
@@ -788,10 +788,10 @@ func (r *Recur) decode(params map[string]string, data string) error {
 					neg = true
 					numCheck = false
 					day = day[1:]
+				}
 
-					if len(day) < 2 {
-						return ErrInvalidRecur
-					}
+				if len(day) < 2 {
+					return ErrInvalidRecur
 				}
 
 				var num int8
-- 
2.43.0


From d6f725e9c69542da9e85d3ebaf43eb630647ba5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:55:47 +0000
Subject: [PATCH 16/28] fix: compare the locations of a period by name

Each time.LoadLocation call returns a new Location, so a decoded period with a
TZID could never be encoded.
---
 types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types.go b/types.go
index 896395f..be506a6 100644
--- a/types.go
+++ b/types.go
@@ -554,7 +554,7 @@ func (p Period) valid() error {
 		if p.Duration.Negative {
 			return ErrInvalidPeriodDuration
 		}
-	} else if !p.End.After(p.Start.Time) || p.Start.Location() != p.End.Location() {
+	} else if !p.End.After(p.Start.Time) || p.Start.Location().String() != p.End.Location().String() {
 		return ErrInvalidPeriodEnd
 	}
 
-- 
2.43.0


From 1e050a3ceb45dc771af7e0143923c69281c863ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:56:53 +0000
Subject: [PATCH 17/28] fix: validate the day occurrences, count and until of
 recurrence rules

Occurrences outside of the allowed range were written and then rejected by
Decode, and the until time was silently dropped when there was also a count.
---
 types.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/types.go b/types.go
index be506a6..a8d77c1 100644
--- a/types.go
+++ b/types.go
@@ -1167,6 +1167,10 @@ func (r *Recur) valid() error {
 		return ErrInvalidRecurFrequency
 	}
 
+	if r.Count != 0 && !r.Until.IsZero() {
+		return ErrInvalidRecur
+	}
+
 	for _, second := range r.BySecond {
 		if second > 60 {
 			return ErrInvalidRecurBySecond
@@ -1191,6 +1195,10 @@ func (r *Recur) valid() error {
 		default:
 			return ErrInvalidRecurByDay
 		}
+
+		if day.Occurrence > 53 || day.Occurrence < -53 {
+			return ErrInvalidRecurByDay
+		}
 	}
 
 	for _, monthDay := range r.ByMonthDay {
-- 
2.43.0


From 18a2ef36f744d3efb5f429596d98101402c45bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:57:00 +0000
Subject: [PATCH 18/28] fix: reject durations that mix weeks with other units

Only the weeks were written, silently dropping the rest of the duration.
---
 types.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/types.go b/types.go
index a8d77c1..4bd433a 100644
--- a/types.go
+++ b/types.go
@@ -391,7 +391,11 @@ func (d Duration) encode(w writer) {
 	w.Write(data)
 }
 
-func (Duration) valid() error {
+func (d Duration) valid() error {
+	if d.Weeks != 0 && (d.Days != 0 || d.Hours != 0 || d.Minutes != 0 || d.Seconds != 0) {
+		return ErrInvalidDuration
+	}
+
 	return nil
 }
 
@@ -551,7 +555,7 @@ func (p Period) valid() error {
 	if p.Start.IsZero() {
 		return ErrInvalidPeriodStart
 	} else if p.End.IsZero() {
-		if p.Duration.Negative {
+		if p.Duration.Negative || p.Duration.valid() != nil {
 			return ErrInvalidPeriodDuration
 		}
 	} else if !p.End.After(p.Start.Time) || p.Start.Location().String() != p.End.Location().String() {
-- 
2.43.0


From 9a1177ff5dd4850ecf5689648de47503ed360879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:57:06 +0000
Subject: [PATCH 19/28] fix: reject UTC offsets that do not fit into two digits
 of hours

They were written as a different offset.
---
 types.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index 4bd433a..0ced2e1 100644
--- a/types.go
+++ b/types.go
@@ -1573,7 +1573,11 @@ func (u UTCOffset) encode(w writer) {
 	w.Write(b)
 }
 
-func (UTCOffset) valid() error {
+func (u UTCOffset) valid() error {
+	if u <= -360000 || u >= 360000 {
+		return ErrInvalidOffset
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 641a6a38d73668c8f39d714b8f150c4c7e1b4c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:57:12 +0000
Subject: [PATCH 20/28] fix: reject URIs that cannot be decoded

The opaque part and the query of a URL are written as they are, so line breaks
in them added lines to the output.
---
 types.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/types.go b/types.go
index 0ced2e1..94e1b43 100644
--- a/types.go
+++ b/types.go
@@ -111,8 +111,10 @@ func (c CalendarAddress) encode(w writer) {
 	w.WriteString(c.URL.String())
 }
 
-func (CalendarAddress) valid() error {
-	return nil
+func (c CalendarAddress) valid() error {
+	_, err := url.Parse(c.String())
+
+	return err
 }
 
 // Date is a Calendar Data.
@@ -1473,8 +1475,10 @@ func (u URI) encode(w writer) {
 	w.WriteString(u.URL.String())
 }
 
-func (URI) valid() error {
-	return nil
+func (u URI) valid() error {
+	_, err := url.Parse(u.String())
+
+	return err
 }
 
 // UTCOffset contains the offset from UTC to local time.
-- 
2.43.0


From ad34886365e3eab4145020012704bdef9b018c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:57:23 +0000
Subject: [PATCH 21/28] fix: match the whole of a format type

The expression was neither anchored nor repeated, so anything containing a
slash, including line breaks, was accepted, and the encoded value was not
decoded the way it is encoded.
---
 genParams.sh | 6 ++++--
 params.gen   | 2 +-
 params.go    | 8 +++++---
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/genParams.sh b/genParams.sh
index d017818..e0bf6be 100755
--- a/genParams.sh
+++ b/genParams.sh
@@ -189,11 +189,13 @@ source "comments.sh";
 						echo "	*t = Param$type(decode6868(${vName}.Data))";
 					fi;
 				else
-					echo "$indent	if !regex${type}.MatchString(${vName}.Data) {";
+					echo "$indent	d := decode6868(${vName}.Data)";
+					echo;
+					echo "$indent	if !regex${type}.MatchString(d) {";
 					echo "$indent		return fmt.Errorf(errDecodingType, c$type, ErrInvalidParam)";
 					echo "$indent	}";
 					echo;
-					echo "$indent	*t = Param$type(${vName}.Data)";
+					echo "$indent	*t = Param$type(d)";
 				fi;
 			fi;
 			if $multiple; then
diff --git a/params.gen b/params.gen
index e13a9e3..2808471 100644
--- a/params.gen
+++ b/params.gen
@@ -5,7 +5,7 @@ DELEGATED-FROM=*"!CalendarAddress
 DELEGATED-TO=*"!CalendarAddress
 DIR="
 ENCODING=8BIT|BASE64
-FMTTYPE=~[A-Za-z0-9!#$&.+-^_]/[A-Za-z0-9!#$&.+-^_]
+FMTTYPE=~^[A-Za-z0-9!#$&.+^_-]+/[A-Za-z0-9!#$&.+^_-]+$
 FBTYPE=?FREE|BUSY|BUSY-UNAVAILABLE|BUSY-TENTATIVE
 LANGUAGE='
 MEMBER=*"
diff --git a/params.go b/params.go
index 017f548..8c4a0d5 100644
--- a/params.go
+++ b/params.go
@@ -373,11 +373,13 @@ func (t *ParamFormatType) decode(vs []parser.Token) error {
 		return fmt.Errorf(errDecodingType, cFormatType, ErrInvalidParam)
 	}
 
-	if !regexFormatType.MatchString(vs[0].Data) {
+	d := decode6868(vs[0].Data)
+
+	if !regexFormatType.MatchString(d) {
 		return fmt.Errorf(errDecodingType, cFormatType, ErrInvalidParam)
 	}
 
-	*t = ParamFormatType(vs[0].Data)
+	*t = ParamFormatType(d)
 
 	return nil
 }
@@ -1247,7 +1249,7 @@ Loop:
 }
 
 func init() {
-	regexFormatType = regexp.MustCompile("[A-Za-z0-9!#$&.+-^_]/[A-Za-z0-9!#$&.+-^_]")
+	regexFormatType = regexp.MustCompile("^[A-Za-z0-9!#$&.+^_-]+/[A-Za-z0-9!#$&.+^_-]+$")
 }
 
 // Errors.
-- 
2.43.0


From 269d1b191097be157d37cabd59e33a2fa2bd5ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:57:30 +0000
Subject: [PATCH 22/28] fix: keep a backslash at the end of a text as it is

It was followed by a replacement character.
---
 types.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/types.go b/types.go
index 94e1b43..8464daf 100644
--- a/types.go
+++ b/types.go
@@ -1284,6 +1284,8 @@ Loop:
 				d = append(d, ',')
 			case 'N', 'n':
 				d = append(d, '\n')
+			case -1:
+				d = append(d, '\\')
 			default:
 				d = append(d, '\\')
 				l := utf8.EncodeRune(ru[:], c)
-- 
2.43.0


From f19f279fdf5209896dd332792f69797fd212ac9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:57:37 +0000
Subject: [PATCH 23/28] fix: write times in locations without a name in UTC

time.Parse creates such locations for offsets. They were written with an empty
TZID, which is read as UTC, moving the time by the offset.
---
 types.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index 8464daf..38a7c36 100644
--- a/types.go
+++ b/types.go
@@ -197,6 +197,7 @@ func (d DateTime) aencode(w writer) {
 
 func (d DateTime) encode(w writer) {
 	b := make([]byte, 0, 16)
+	d.Time = withName(d.Time)
 
 	switch d.Location() {
 	case time.UTC:
@@ -1431,6 +1432,7 @@ func (t Time) aencode(w writer) {
 
 func (t Time) encode(w writer) {
 	b := make([]byte, 0, 7)
+	t.Time = withName(t.Time)
 
 	switch t.Location() {
 	case time.UTC:
@@ -1587,8 +1589,18 @@ func (u UTCOffset) valid() error {
 	return nil
 }
 
+// withName converts times in a location that has no name, and so cannot be
+// written as a TZID, to UTC.
+func withName(t time.Time) time.Time {
+	if t.Location().String() == "" {
+		return t.UTC()
+	}
+
+	return t
+}
+
 func writeTimezone(w writer, t time.Time) {
-	switch l := t.Location(); l {
+	switch l := withName(t).Location(); l {
 	case time.UTC, time.Local:
 	default:
 		w.WriteString(";TZID=")
-- 
2.43.0


From 2c74abd2e9b464000c1a46b719702f78920d6f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:57:44 +0000
Subject: [PATCH 24/28] fix: reject times with a year that does not have four
 digits

They were written with more digits, or a sign, and could not be read back.
---
 types.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/types.go b/types.go
index 38a7c36..b5540b4 100644
--- a/types.go
+++ b/types.go
@@ -145,7 +145,7 @@ func (d Date) encode(w writer) {
 }
 
 func (d Date) valid() error {
-	if d.IsZero() {
+	if d.IsZero() || !validYear(d.Time) {
 		return ErrInvalidTime
 	}
 
@@ -212,7 +212,7 @@ func (d DateTime) encode(w writer) {
 }
 
 func (d DateTime) valid() error {
-	if d.IsZero() {
+	if d.IsZero() || !validYear(withName(d.Time)) {
 		return ErrInvalidTime
 	}
 
@@ -555,13 +555,13 @@ func (p Period) encode(w writer) {
 }
 
 func (p Period) valid() error {
-	if p.Start.IsZero() {
+	if p.Start.valid() != nil {
 		return ErrInvalidPeriodStart
 	} else if p.End.IsZero() {
 		if p.Duration.Negative || p.Duration.valid() != nil {
 			return ErrInvalidPeriodDuration
 		}
-	} else if !p.End.After(p.Start.Time) || p.Start.Location().String() != p.End.Location().String() {
+	} else if p.End.valid() != nil || !p.End.After(p.Start.Time) || p.Start.Location().String() != p.End.Location().String() {
 		return ErrInvalidPeriodEnd
 	}
 
@@ -1174,7 +1174,7 @@ func (r *Recur) valid() error {
 		return ErrInvalidRecurFrequency
 	}
 
-	if r.Count != 0 && !r.Until.IsZero() {
+	if !r.Until.IsZero() && (r.Count != 0 || !validYear(withName(r.Until))) {
 		return ErrInvalidRecur
 	}
 
@@ -1599,6 +1599,11 @@ func withName(t time.Time) time.Time {
 	return t
 }
 
+// validYear determines whether the year of a time can be written.
+func validYear(t time.Time) bool {
+	return t.Year() >= 0 && t.Year() <= 9999
+}
+
 func writeTimezone(w writer, t time.Time) {
 	switch l := withName(t).Location(); l {
 	case time.UTC, time.Local:
-- 
2.43.0


From f327a27536ce3492cbbf74a3c43a29af562f31cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:57:51 +0000
Subject: [PATCH 25/28] fix: reject periods that do not end after they start
 when decoding

Encode refuses to write them.
---
 types.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/types.go b/types.go
index b5540b4..17eae03 100644
--- a/types.go
+++ b/types.go
@@ -528,13 +528,11 @@ func (p *Period) decode(params map[string]string, data string) error {
 		if err = p.Duration.decode(params, data[i+1:]); err != nil {
 			return fmt.Errorf("error while decoding Period: %w", err)
 		}
-
-		return nil
 	} else if err = p.End.decode(params, data[i+1:]); err != nil {
 		return fmt.Errorf("error while decoding Period End: %w", err)
 	}
 
-	return nil
+	return p.valid()
 }
 
 func (p Period) aencode(w writer) {
-- 
2.43.0


From 981dd94bcb7a1175856c0d912ad55d946cce4a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:02:55 +0000
Subject: [PATCH 26/28] fix: reject parameters without a name

A content line such as ';=value:' was accepted with an empty parameter name.
---
 tokeniser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tokeniser.go b/tokeniser.go
index 262fe04..6976ca4 100644
--- a/tokeniser.go
+++ b/tokeniser.go
@@ -70,7 +70,7 @@ func parseParamName(t *parser.Tokeniser) (parser.Token, parser.TokenFunc) {
 	t.Accept(";")
 	t.Get()
 
-	if t.AcceptRun(ianaToken) != '=' {
+	if t.AcceptRun(ianaToken) != '=' || t.Len() == 0 {
 		t.Err = ErrInvalidContentLineParamName
 
 		return t.Error()
-- 
2.43.0


From 3ea8788e06b0f2ad27a91615f19236b5648847c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:03:17 +0000
Subject: [PATCH 27/28] fix: reject durations with a second time designator

In 'PT1H2MT3H' the later time part silently replaced the earlier one.
---
 types.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types.go b/types.go
index 17eae03..46b72f6 100644
--- a/types.go
+++ b/types.go
@@ -242,6 +242,10 @@ func (d *Duration) decode(_ map[string]string, data string) error {
 
 	for t.Peek() != -1 {
 		if t.Accept("T") {
+			if level > 1 {
+				return ErrInvalidDuration
+			}
+
 			level = 1
 		}
 
-- 
2.43.0


From b57a3e7ce068b6eecebee533e0afae8a97c14d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:16:25 +0000
Subject: [PATCH 28/28] fix: reject periods that start and end within the same
 second

Times are written in whole seconds, so Encode wrote such a period with an
end equal to its start, which Decode rejects.
---
 types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types.go b/types.go
index 46b72f6..80f0073 100644
--- a/types.go
+++ b/types.go
@@ -563,7 +563,7 @@ func (p Period) valid() error {
 		if p.Duration.Negative || p.Duration.valid() != nil {
 			return ErrInvalidPeriodDuration
 		}
-	} else if p.End.valid() != nil || !p.End.After(p.Start.Time) || p.Start.Location().String() != p.End.Location().String() {
+	} else if p.End.valid() != nil || p.End.Unix() <= p.Start.Unix() || p.Start.Location().String() != p.End.Location().String() {
 		return ErrInvalidPeriodEnd
 	}
 
-- 
2.43.0

