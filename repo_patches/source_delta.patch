From a245029fbfd2283d49943c0d647fc16b89a4b174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:54 +0000
Subject: [PATCH 01/19] fix: rfc3164: return an error for every rejected input

Inputs refused at a point without an error action (eg., a control character in
the message part, or the end of the input right after the timestamp) made Parse
return a nil message (or, in best effort mode, a partial one) and a nil error.
---
 rfc3164/machine.go    | 4 ++++
 rfc3164/machine.go.rl | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/rfc3164/machine.go b/rfc3164/machine.go
index 6dd3d29..152f8f7 100644
--- a/rfc3164/machine.go
+++ b/rfc3164/machine.go
@@ -7252,6 +7252,10 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	}
 
 	if m.cs < firstFinal || m.cs == enFail {
+		if m.err == nil {
+			// No error action has been executed for the point where the parser has stopped
+			m.err = fmt.Errorf(errParse, m.p)
+		}
 		if m.bestEffort && output.minimal() {
 			// An error occurred but partial parsing is on and partial message is minimally valid
 			return output.export(), m.err
diff --git a/rfc3164/machine.go.rl b/rfc3164/machine.go.rl
index 4d13817..1368f87 100644
--- a/rfc3164/machine.go.rl
+++ b/rfc3164/machine.go.rl
@@ -251,6 +251,10 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	%% write exec;
 
 	if m.cs < first_final || m.cs == en_fail {
+		if m.err == nil {
+			// No error action has been executed for the point where the parser has stopped
+			m.err = fmt.Errorf(errParse, m.p)
+		}
 		if m.bestEffort && output.minimal() {
 			// An error occurred but partial parsing is on and partial message is minimally valid
 			return output.export(), m.err
-- 
2.43.0


From 73985b7b4b269969774542f9e8b5fc0c88023e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 02/19] fix: common: keep multi-byte characters when escaping
 parameter values

EscapeBytes emitted only the (Latin-1 decoded) first byte of every multi-byte
character, so String() corrupted non-ASCII structured data values.
---
 common/functions.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/common/functions.go b/common/functions.go
index ce2880c..bcd6d44 100644
--- a/common/functions.go
+++ b/common/functions.go
@@ -30,12 +30,14 @@ func RemoveBytes(data []byte, positions []int, offset int) []byte {
 // EscapeBytes adds a backslash to \, ], " characters.
 func EscapeBytes(value string) string {
 	res := ""
-	for i, c := range value {
+	// Note that it goes byte by byte, so to copy multi-byte characters verbatim
+	for i := 0; i < len(value); i++ {
+		c := value[i]
 		// todo(leodido): generalize byte codes (the function should ideally accept a byte slice containing byte codes to escape)
 		if c == 92 || c == 93 || c == 34 {
 			res += `\`
 		}
-		res += string(value[i])
+		res += value[i : i+1]
 	}
 
 	return res
-- 
2.43.0


From 6ede70c0fbac90895704a6ed5f7bb9ebfd404c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 03/19] fix: rfc5424: do not share builder state between
 messages

The element id and parameter name being set were kept in package variables, so
goroutines building unrelated messages raced and could panic or mix them up.
---
 rfc5424/builder.go    | 23 +++++++++--------------
 rfc5424/builder.go.rl | 19 +++++++------------
 2 files changed, 16 insertions(+), 26 deletions(-)

diff --git a/rfc5424/builder.go b/rfc5424/builder.go
index 4aa3baa..3485d2d 100644
--- a/rfc5424/builder.go
+++ b/rfc5424/builder.go
@@ -61,10 +61,7 @@ func (e entrypoint) translate() int {
 	}
 }
 
-var currentid string
-var currentparamname string
-
-func (sm *SyslogMessage) set(from entrypoint, value string) *SyslogMessage {
+func (sm *SyslogMessage) set(from entrypoint, value string, path ...string) *SyslogMessage {
 	data := []byte(value)
 	p := 0
 	pb := 0
@@ -9209,9 +9206,9 @@ func (sm *SyslogMessage) set(from entrypoint, value string) *SyslogMessage {
 
 			case 550, 551, 552, 553, 554, 555, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581:
 
-				// Assuming SD map already exists, contains currentid key (set from outside)
+				// Assuming SD map already exists, contains the element id key, ie. path[0]
 				elements := *sm.StructuredData
-				elements[currentid][string(data[pb:p])] = ""
+				elements[path[0]][string(data[pb:p])] = ""
 
 			case 583:
 
@@ -9221,9 +9218,9 @@ func (sm *SyslogMessage) set(from entrypoint, value string) *SyslogMessage {
 				if len(backslashes) > 0 {
 					text = common.RemoveBytes(text, backslashes, pb)
 				}
-				// Assuming SD map already exists, contains currentid key and currentparamname key (set from outside)
+				// Assuming SD map already exists, contains the element id key and the parameter name key, ie. path[0] and path[1]
 				elements := *sm.StructuredData
-				elements[currentid][currentparamname] = string(text)
+				elements[path[0]][path[1]] = string(text)
 
 			case 53:
 
@@ -9241,9 +9238,9 @@ func (sm *SyslogMessage) set(from entrypoint, value string) *SyslogMessage {
 				if len(backslashes) > 0 {
 					text = common.RemoveBytes(text, backslashes, pb)
 				}
-				// Assuming SD map already exists, contains currentid key and currentparamname key (set from outside)
+				// Assuming SD map already exists, contains the element id key and the parameter name key, ie. path[0] and path[1]
 				elements := *sm.StructuredData
-				elements[currentid][currentparamname] = string(text)
+				elements[path[0]][path[1]] = string(text)
 
 			case 52:
 
@@ -9330,12 +9327,10 @@ func (sm *SyslogMessage) SetParameter(id string, name string, value string) Buil
 	if sm.StructuredData != nil {
 		elements := *sm.StructuredData
 		if _, ok := elements[id]; ok {
-			currentid = id
-			sm.set(sdpn, name)
+			sm.set(sdpn, name, id)
 			// We can assign parameter value iff the given parameter key exists
 			if _, ok := elements[id][name]; ok {
-				currentparamname = name
-				sm.set(sdpv, value)
+				sm.set(sdpv, value, id, name)
 			}
 		}
 	}
diff --git a/rfc5424/builder.go.rl b/rfc5424/builder.go.rl
index 3eaccf2..3511175 100644
--- a/rfc5424/builder.go.rl
+++ b/rfc5424/builder.go.rl
@@ -62,9 +62,9 @@ action set_sdid {
 }
 
 action set_sdpn {
-    // Assuming SD map already exists, contains currentid key (set from outside)
+    // Assuming SD map already exists, contains the element id key, ie. path[0]
     elements := *sm.StructuredData
-    elements[currentid][string(data[pb:p])] = ""
+    elements[path[0]][string(data[pb:p])] = ""
 }
 
 action markslash {
@@ -78,9 +78,9 @@ action set_sdpv {
     if len(backslashes) > 0 {
         text = common.RemoveBytes(text, backslashes, pb)
     }
-    // Assuming SD map already exists, contains currentid key and currentparamname key (set from outside)
+    // Assuming SD map already exists, contains the element id key and the parameter name key, ie. path[0] and path[1]
     elements := *sm.StructuredData
-    elements[currentid][currentparamname] = string(text)
+    elements[path[0]][path[1]] = string(text)
 }
 
 action set_msg {
@@ -151,10 +151,7 @@ func (e entrypoint) translate() int {
     }
 }
 
-var currentid string
-var currentparamname string
-
-func (sm *SyslogMessage) set(from entrypoint, value string) *SyslogMessage {
+func (sm *SyslogMessage) set(from entrypoint, value string, path ...string) *SyslogMessage {
     data := []byte(value)
     p := 0
     pb := 0
@@ -233,12 +230,10 @@ func (sm *SyslogMessage) SetParameter(id string, name string, value string) Buil
     if sm.StructuredData != nil {
         elements := *sm.StructuredData
         if _, ok := elements[id]; ok {
-            currentid = id
-            sm.set(sdpn, name)
+            sm.set(sdpn, name, id)
             // We can assign parameter value iff the given parameter key exists
             if _, ok := elements[id][name]; ok {
-                currentparamname = name
-                sm.set(sdpv, value)
+                sm.set(sdpv, value, id, name)
             }
         }
     }
-- 
2.43.0


From c9e43cd8a2deadb34e678bc8a77932a7973f5a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 04/19] fix: rfc5424: keep the current parameter when its new
 value is not valid

SetParameter reset an existing parameter to the empty string (or created an
empty one) when the given value does not match the grammar, while the builder
API is meant to ignore such values.
---
 rfc5424/builder.go    | 6 ++++++
 rfc5424/builder.go.rl | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/rfc5424/builder.go b/rfc5424/builder.go
index 3485d2d..476722d 100644
--- a/rfc5424/builder.go
+++ b/rfc5424/builder.go
@@ -9327,10 +9327,16 @@ func (sm *SyslogMessage) SetParameter(id string, name string, value string) Buil
 	if sm.StructuredData != nil {
 		elements := *sm.StructuredData
 		if _, ok := elements[id]; ok {
+			previous, existing := elements[id][name]
 			sm.set(sdpn, name, id)
 			// We can assign parameter value iff the given parameter key exists
 			if _, ok := elements[id][name]; ok {
+				// Only a valid value (re-)sets the parameter, otherwise what was there stays as it was
+				delete(elements[id], name)
 				sm.set(sdpv, value, id, name)
+				if _, ok := elements[id][name]; !ok && existing {
+					elements[id][name] = previous
+				}
 			}
 		}
 	}
diff --git a/rfc5424/builder.go.rl b/rfc5424/builder.go.rl
index 3511175..6063842 100644
--- a/rfc5424/builder.go.rl
+++ b/rfc5424/builder.go.rl
@@ -230,10 +230,16 @@ func (sm *SyslogMessage) SetParameter(id string, name string, value string) Buil
     if sm.StructuredData != nil {
         elements := *sm.StructuredData
         if _, ok := elements[id]; ok {
+            previous, existing := elements[id][name]
             sm.set(sdpn, name, id)
             // We can assign parameter value iff the given parameter key exists
             if _, ok := elements[id][name]; ok {
+                // Only a valid value (re-)sets the parameter, otherwise what was there stays as it was
+                delete(elements[id], name)
                 sm.set(sdpv, value, id, name)
+                if _, ok := elements[id][name]; !ok && existing {
+                    elements[id][name] = previous
+                }
             }
         }
     }
-- 
2.43.0


From 23a294ec7888f11b705ac993c8af23c2a2546efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 05/19] fix: rfc5424: best effort mode does not lose complete
 structured data parameters

An error found past a complete parameter (eg., on the following parameter name)
removed that parameter from the partial message. Parameters are now stored once
complete - ie., when their delimiter is found.
---
 rfc5424/machine.go    | 31 +++++++++++++++----------------
 rfc5424/machine.go.rl | 12 +++++++-----
 2 files changed, 22 insertions(+), 21 deletions(-)

diff --git a/rfc5424/machine.go b/rfc5424/machine.go
index ddd4a7c..9bc5adc 100644
--- a/rfc5424/machine.go
+++ b/rfc5424/machine.go
@@ -65,6 +65,7 @@ type machine struct {
 	err          error
 	currentelem  string
 	currentparam string
+	currentvalue string
 	msgat        int
 	backslashat  []int
 	bestEffort   bool
@@ -1592,9 +1593,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		goto st0
 	tr42:
 
-		if len(output.structuredData) > 0 {
-			delete(output.structuredData[m.currentelem], m.currentparam)
-		}
 		m.err = fmt.Errorf(ErrSdParam+ColumnPositionTemplate, m.p)
 		(m.p)--
 
@@ -1619,9 +1617,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto st614
 		}
 
-		if len(output.structuredData) > 0 {
-			delete(output.structuredData[m.currentelem], m.currentparam)
-		}
 		m.err = fmt.Errorf(ErrSdParam+ColumnPositionTemplate, m.p)
 		(m.p)--
 
@@ -2040,6 +2035,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			m.currentelem = id
 		}
 
+		goto st19
+	tr98:
+
+		output.structuredData[m.currentelem][m.currentparam] = m.currentvalue
+
 		goto st19
 	st19:
 		if (m.p)++; (m.p) == (m.pe) {
@@ -2819,7 +2819,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			if len(m.backslashat) > 0 {
 				text = common.RemoveBytes(text, m.backslashat, m.pb)
 			}
-			output.structuredData[m.currentelem][m.currentparam] = string(text)
+			m.currentvalue = string(text)
 		}
 
 		goto st55
@@ -2835,7 +2835,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			if len(m.backslashat) > 0 {
 				text = common.RemoveBytes(text, m.backslashat, m.pb)
 			}
-			output.structuredData[m.currentelem][m.currentparam] = string(text)
+			m.currentvalue = string(text)
 		}
 
 		goto st55
@@ -2846,9 +2846,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase55:
 		switch (m.data)[(m.p)] {
 		case 32:
-			goto st19
+			goto tr98
 		case 93:
-			goto st606
+			goto tr99
 		}
 		goto tr42
 	tr41:
@@ -2868,6 +2868,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			m.currentelem = id
 		}
 
+		goto st606
+	tr99:
+
+		output.structuredData[m.currentelem][m.currentparam] = m.currentvalue
+
 		goto st606
 	st606:
 		if (m.p)++; (m.p) == (m.pe) {
@@ -11899,9 +11904,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 
 			case 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 55, 57, 58, 59, 60, 61, 62, 63:
 
-				if len(output.structuredData) > 0 {
-					delete(output.structuredData[m.currentelem], m.currentparam)
-				}
 				m.err = fmt.Errorf(ErrSdParam+ColumnPositionTemplate, m.p)
 				(m.p)--
 
@@ -12009,9 +12011,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 					goto st614
 				}
 
-				if len(output.structuredData) > 0 {
-					delete(output.structuredData[m.currentelem], m.currentparam)
-				}
 				m.err = fmt.Errorf(ErrSdParam+ColumnPositionTemplate, m.p)
 				(m.p)--
 
diff --git a/rfc5424/machine.go.rl b/rfc5424/machine.go.rl
index f0b9c82..3673e6a 100644
--- a/rfc5424/machine.go.rl
+++ b/rfc5424/machine.go.rl
@@ -151,10 +151,14 @@ action set_paramvalue {
 		if len(m.backslashat) > 0 {
 			text = common.RemoveBytes(text, m.backslashat, m.pb)
 		}
-		output.structuredData[m.currentelem][m.currentparam] = string(text)
+		m.currentvalue = string(text)
 	}
 }
 
+action set_param {
+	output.structuredData[m.currentelem][m.currentparam] = m.currentvalue
+}
+
 action set_msg {
 	output.message = string(m.text())
 }
@@ -224,9 +228,6 @@ action err_sdid {
 }
 
 action err_sdparam {
-	if len(output.structuredData) > 0 {
-		delete(output.structuredData[m.currentelem], m.currentparam)
-	}
 	m.err = fmt.Errorf(ErrSdParam + ColumnPositionTemplate, m.p)
 	fhold;
 	fgoto fail;
@@ -289,7 +290,7 @@ paramvalue = (utf8charwodelims* escapes*)+ >mark %set_paramvalue;
 
 paramname = sdname >mark %set_paramname;
 
-sdparam = (paramname '=' dq paramvalue dq) >ini_sdparam $err(err_sdparam);
+sdparam = (paramname '=' dq paramvalue dq) >ini_sdparam %set_param $err(err_sdparam);
 
 # (note) > finegrained semantics of section 6.3.2 not represented here since not so useful for parsing goal
 sdid = sdname >mark %set_id %err(set_id) $err(err_sdid);
@@ -323,6 +324,7 @@ type machine struct {
 	err          error
 	currentelem  string
 	currentparam string
+	currentvalue string
 	msgat        int
 	backslashat  []int
 	bestEffort 	 bool
-- 
2.43.0


From 3c02a3854e99b8e6c7f6e79bdd89d83ad39516d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 06/19] fix: rfc5424: best effort mode does not lose complete
 structured data elements

An invalid structured data element id removed the previous (complete) element
from the partial message.
---
 rfc5424/machine.go    | 9 ++++++++-
 rfc5424/machine.go.rl | 6 +++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/rfc5424/machine.go b/rfc5424/machine.go
index 9bc5adc..c85a77e 100644
--- a/rfc5424/machine.go
+++ b/rfc5424/machine.go
@@ -1969,6 +1969,13 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 
 		output.structuredData = map[string]map[string]string{}
 
+		m.currentelem = ""
+
+		goto st17
+	tr634:
+
+		m.currentelem = ""
+
 		goto st17
 	st17:
 		if (m.p)++; (m.p) == (m.pe) {
@@ -2883,7 +2890,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 32:
 			goto st604
 		case 91:
-			goto st17
+			goto tr634
 		}
 		goto tr633
 	tr79:
diff --git a/rfc5424/machine.go.rl b/rfc5424/machine.go.rl
index 3673e6a..2249910 100644
--- a/rfc5424/machine.go.rl
+++ b/rfc5424/machine.go.rl
@@ -114,6 +114,10 @@ action ini_elements {
 	output.structuredData = map[string]map[string]string{}
 }
 
+action ini_element {
+	m.currentelem = ""
+}
+
 action set_id {
 	if _, ok := output.structuredData[string(m.text())]; ok {
 		// As per RFC5424 section 6.3.2 SD-ID MUST NOT exist more than once in a message
@@ -295,7 +299,7 @@ sdparam = (paramname '=' dq paramvalue dq) >ini_sdparam %set_param $err(err_sdpa
 # (note) > finegrained semantics of section 6.3.2 not represented here since not so useful for parsing goal
 sdid = sdname >mark %set_id %err(set_id) $err(err_sdid);
 
-sdelement = ('[' sdid (sp sdparam)* ']');
+sdelement = ('[' @ini_element sdid (sp sdparam)* ']');
 
 structureddata = nilvalue | sdelement+ >ini_elements $err(err_structureddata);
 
-- 
2.43.0


From 5eec44ff3ed731e72d748791c4e1a194a63a0eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 07/19] fix: octetcounting: message length digits are 0-9, and
 1-9 for the first one

A slash was taken as a digit (making the message length unparsable, thus 0) and
a message length was allowed to start with a zero.
---
 octetcounting/scanner.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/octetcounting/scanner.go b/octetcounting/scanner.go
index 7e5f2bb..4f01450 100644
--- a/octetcounting/scanner.go
+++ b/octetcounting/scanner.go
@@ -18,12 +18,12 @@ var lt = byte(60)
 
 // isDigit returns true if the byte represents a number in [0,9]
 func isDigit(ch byte) bool {
-	return (ch >= 47 && ch <= 57)
+	return (ch >= 48 && ch <= 57)
 }
 
 // isNonZeroDigit returns true if the byte represents a number in ]0,9]
 func isNonZeroDigit(ch byte) bool {
-	return (ch >= 48 && ch <= 57)
+	return (ch >= 49 && ch <= 57)
 }
 
 // Scanner represents the lexical scanner for octet counting transport.
-- 
2.43.0


From 22a22aa041a4192197bd3b41e37da0019768352e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 08/19] fix: octetcounting: a NUL octet is not the end of the
 stream

The scanner took NUL octets as EOF: a NUL where a message length is expected
made the parser stop without reporting anything, dropping the rest of the stream.
---
 octetcounting/scanner.go | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/octetcounting/scanner.go b/octetcounting/scanner.go
index 4f01450..32b6590 100644
--- a/octetcounting/scanner.go
+++ b/octetcounting/scanner.go
@@ -7,9 +7,6 @@ import (
 	"strconv"
 )
 
-// eof represents a marker byte for the end of the reader
-var eof = byte(0)
-
 // ws represents the whitespace
 var ws = byte(32)
 
@@ -41,13 +38,10 @@ func NewScanner(r io.Reader, maxLength int) *Scanner {
 }
 
 // read reads the next byte from the buffered reader
-// it returns the byte(0) if an error occurs (or io.EOF is returned)
-func (s *Scanner) read() byte {
+// it tells whether a byte has been read or not because of an error (or because io.EOF is returned)
+func (s *Scanner) read() (byte, bool) {
 	b, err := s.r.ReadByte()
-	if err != nil {
-		return eof
-	}
-	return b
+	return b, err == nil
 }
 
 // unread places the previously read byte back on the reader
@@ -58,7 +52,13 @@ func (s *Scanner) unread() {
 // Scan returns the next token.
 func (s *Scanner) Scan() (tok Token) {
 	// Read the next byte.
-	b := s.read()
+	b, ok := s.read()
+	if !ok {
+		s.ready = false
+		return Token{
+			typ: EOF,
+		}
+	}
 
 	if isNonZeroDigit(b) {
 		s.unread()
@@ -68,11 +68,6 @@ func (s *Scanner) Scan() (tok Token) {
 
 	// Otherwise read the individual character
 	switch b {
-	case eof:
-		s.ready = false
-		return Token{
-			typ: EOF,
-		}
 	case ws:
 		s.ready = true
 		return Token{
@@ -95,12 +90,13 @@ func (s *Scanner) Scan() (tok Token) {
 func (s *Scanner) scanMsgLen() Token {
 	// Create a buffer and read the current character into it
 	var buf bytes.Buffer
-	buf.WriteByte(s.read())
+	first, _ := s.read()
+	buf.WriteByte(first)
 
 	// Read every subsequent digit character into the buffer
 	// Non-digit characters and EOF will cause the loop to exit
 	for {
-		if b := s.read(); b == eof {
+		if b, ok := s.read(); !ok {
 			break
 		} else if !isDigit(b) {
 			s.unread()
-- 
2.43.0


From 30d0102ea38aa4fc7d3dcae29bff14c6708432d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 09/19] fix: octetcounting: huge message lengths are too long,
 too

Message lengths from 2^63 on became negative when compared to the maximum one.
---
 octetcounting/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/octetcounting/parser.go b/octetcounting/parser.go
index cbdbaac..8cf14e9 100644
--- a/octetcounting/parser.go
+++ b/octetcounting/parser.go
@@ -86,7 +86,7 @@ func (p *parser) run() {
 			break
 		}
 
-		if int(p.s.msglen) > p.maxMessageLength {
+		if size := int(p.s.msglen); size < 0 || size > p.maxMessageLength {
 			p.emit(&syslog.Result{
 				Error: fmt.Errorf("message too long to parse. was size %d, max length %d", p.s.msglen, p.maxMessageLength),
 			})
-- 
2.43.0


From 11b73435f0cce0c2e15e6590b6d707a4d428b7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 10/19] fix: nontransparent: do not report again the last
 message of the previous stream

Reusing a parser on another stream started from the candidate message and from
the reading error left there by the previous one.
---
 nontransparent/parser.go    | 2 ++
 nontransparent/parser.go.rl | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/nontransparent/parser.go b/nontransparent/parser.go
index c587202..5035fee 100644
--- a/nontransparent/parser.go
+++ b/nontransparent/parser.go
@@ -255,6 +255,8 @@ func (m *machine) WithListener(f syslog.ParserListener) {
 //
 // It stops parsing when an error regarding RFC 6587 is found.
 func (m *machine) Parse(reader io.Reader) {
+	// Forget about what the previous stream left behind, if any
+	m.candidate, m.lastChunk, m.readError = nil, nil, nil
 	r := parser.ArbitraryReader(reader, m.trailer)
 	parser.New(r, m, parser.WithStart(1)).Parse()
 }
diff --git a/nontransparent/parser.go.rl b/nontransparent/parser.go.rl
index 1dde434..eb75a02 100644
--- a/nontransparent/parser.go.rl
+++ b/nontransparent/parser.go.rl
@@ -146,6 +146,8 @@ func (m *machine) WithListener(f syslog.ParserListener) {
 //
 // It stops parsing when an error regarding RFC 6587 is found.
 func (m *machine) Parse(reader io.Reader) {
+    // Forget about what the previous stream left behind, if any
+    m.candidate, m.lastChunk, m.readError = nil, nil, nil
     r := parser.ArbitraryReader(reader, m.trailer)
     parser.New(r, m, parser.WithStart(%%{ write start; }%%)).Parse()
 }
-- 
2.43.0


From a32de9707690eaed9164faf1c9c6e3668d500efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 11/19] fix: nontransparent: a leading invalid line does not
 swallow the whole stream

When the first line did not start with '<' (eg., a blank one) the parser never
reported anything about it, and it ignored everything that came after.
Now it reports an error for it and goes on with the following messages.
---
 nontransparent/parser.go    | 40 +++++++++++++++++++++++++++++++++----
 nontransparent/parser.go.rl |  4 +++-
 2 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/nontransparent/parser.go b/nontransparent/parser.go
index 5035fee..2d2948b 100644
--- a/nontransparent/parser.go
+++ b/nontransparent/parser.go
@@ -46,15 +46,47 @@ func (m *machine) Exec(s *parser.State) (int, int) {
 		}
 		goto stOut
 	stCase1:
-		if data[p] == 60 {
-			goto tr0
+		_widec = int16(data[p])
+		switch {
+		case data[p] > 0:
+			if 10 <= data[p] && data[p] <= 10 {
+				_widec = 256 + (int16(data[p]) - 0)
+				if m.trailertyp == LF {
+					_widec += 256
+				}
+			}
+		default:
+			_widec = 768 + (int16(data[p]) - 0)
+			if m.trailertyp == NUL {
+				_widec += 256
+			}
+		}
+		switch _widec {
+		case 60:
+			goto tr2
+		case 266:
+			goto st2
+		case 522:
+			goto tr3
+		case 768:
+			goto st2
+		case 1024:
+			goto tr3
+		}
+		switch {
+		case _widec > 9:
+			if 11 <= _widec {
+				goto st2
+			}
+		case _widec >= 1:
+			goto st2
 		}
 		goto st0
 	stCase0:
 	st0:
 		cs = 0
 		goto _out
-	tr0:
+	tr2:
 
 		if len(m.candidate) > 0 {
 			m.process()
@@ -128,7 +160,7 @@ func (m *machine) Exec(s *parser.State) (int, int) {
 		}
 		switch _widec {
 		case 60:
-			goto tr0
+			goto tr2
 		case 266:
 			goto st2
 		case 522:
diff --git a/nontransparent/parser.go.rl b/nontransparent/parser.go.rl
index eb75a02..4a2cdea 100644
--- a/nontransparent/parser.go.rl
+++ b/nontransparent/parser.go.rl
@@ -30,7 +30,9 @@ t = 10 when { m.trailertyp == LF } |
 
 main :=
     start: (
-        '<' >on_init (any)* -> trailer
+        '<' >on_init (any)* -> trailer |
+        (any - '<') (any)* -> trailer |
+        '' -> trailer
     ),
     trailer: (
         t >on_trailer -> final |
-- 
2.43.0


From 7d1e54cd6c4ab93a93703b454c0f913b246c7ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 12/19] fix: rfc3164: best effort mode does not take a
 truncated priority as a valid one

The priority was stored digit by digit, so the partial message for an input
like <34 or <192> was valid, with priority 3 and 19 respectively.
It is now stored when its closing angle bracket is found.
---
 rfc3164/machine.go    | 28 +++++++++-------------------
 rfc3164/machine.go.rl |  2 +-
 2 files changed, 10 insertions(+), 20 deletions(-)

diff --git a/rfc3164/machine.go b/rfc3164/machine.go
index 152f8f7..5c40750 100644
--- a/rfc3164/machine.go
+++ b/rfc3164/machine.go
@@ -964,14 +964,16 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof3
 		}
 	stCase3:
+		if (m.data)[(m.p)] == 62 {
+			goto tr6
+		}
+		goto tr2
+	tr6:
 
 		output.priority = uint8(common.UnsafeUTF8DecimalCodePointsToInt(m.text()))
 		output.prioritySet = true
 
-		if (m.data)[(m.p)] == 62 {
-			goto st4
-		}
-		goto tr2
+		goto st4
 	st4:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof4
@@ -5992,15 +5994,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof330
 		}
 	stCase330:
-
-		output.priority = uint8(common.UnsafeUTF8DecimalCodePointsToInt(m.text()))
-		output.prioritySet = true
-
 		switch (m.data)[(m.p)] {
 		case 57:
 			goto st332
 		case 62:
-			goto st4
+			goto tr6
 		}
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 56 {
 			goto st331
@@ -6016,12 +6014,8 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof331
 		}
 	stCase331:
-
-		output.priority = uint8(common.UnsafeUTF8DecimalCodePointsToInt(m.text()))
-		output.prioritySet = true
-
 		if (m.data)[(m.p)] == 62 {
-			goto st4
+			goto tr6
 		}
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			goto st3
@@ -6032,12 +6026,8 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof332
 		}
 	stCase332:
-
-		output.priority = uint8(common.UnsafeUTF8DecimalCodePointsToInt(m.text()))
-		output.prioritySet = true
-
 		if (m.data)[(m.p)] == 62 {
-			goto st4
+			goto tr6
 		}
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 49 {
 			goto st3
diff --git a/rfc3164/machine.go.rl b/rfc3164/machine.go.rl
index 1368f87..df6cd30 100644
--- a/rfc3164/machine.go.rl
+++ b/rfc3164/machine.go.rl
@@ -129,7 +129,7 @@ action err_content {
 	fgoto fail;
 }
 
-pri = ('<' prival >mark %from(set_prival) $err(err_prival) '>') @err(err_pri);
+pri = ('<' prival >mark $err(err_prival) '>' @set_prival) @err(err_pri);
 
 timestamp = (datemmm sp datemday sp hhmmss) >mark %set_timestamp @err(err_timestamp);
 
-- 
2.43.0


From 1c93aa0c59f4383c30f2e82fb3dd0cf064479631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 13/19] fix: rfc5424: best effort mode reports the whole
 version of a message truncated right after it

---
 rfc5424/machine.go    | 36 ++++++++++++++++++------------------
 rfc5424/machine.go.rl |  2 +-
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/rfc5424/machine.go b/rfc5424/machine.go
index c85a77e..0f0c656 100644
--- a/rfc5424/machine.go
+++ b/rfc5424/machine.go
@@ -11933,6 +11933,24 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 
 				output.message = string(m.text())
 
+			case 591, 592:
+
+				output.version = uint16(common.UnsafeUTF8DecimalCodePointsToInt(m.text()))
+
+				m.err = fmt.Errorf(ErrVersion+ColumnPositionTemplate, m.p)
+				(m.p)--
+
+				{
+					goto st614
+				}
+
+				m.err = fmt.Errorf(ErrParse+ColumnPositionTemplate, m.p)
+				(m.p)--
+
+				{
+					goto st614
+				}
+
 			case 18, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94:
 
 				if _, ok := output.structuredData[string(m.text())]; ok {
@@ -11991,24 +12009,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 					goto st614
 				}
 
-			case 591, 592:
-
-				m.err = fmt.Errorf(ErrVersion+ColumnPositionTemplate, m.p)
-				(m.p)--
-
-				{
-					goto st614
-				}
-
-				output.version = uint16(common.UnsafeUTF8DecimalCodePointsToInt(m.text()))
-
-				m.err = fmt.Errorf(ErrParse+ColumnPositionTemplate, m.p)
-				(m.p)--
-
-				{
-					goto st614
-				}
-
 			case 53, 54, 56:
 
 				m.err = fmt.Errorf(ErrEscape+ColumnPositionTemplate, m.p)
diff --git a/rfc5424/machine.go.rl b/rfc5424/machine.go.rl
index 2249910..c4f6330 100644
--- a/rfc5424/machine.go.rl
+++ b/rfc5424/machine.go.rl
@@ -270,7 +270,7 @@ nilvalue = '-';
 
 pri = ('<' prival >mark %from(set_prival) $err(err_prival) '>') @err(err_pri);
 
-version = (nonzerodigit digit{0,2} <err(err_version)) >mark %from(set_version) %eof(set_version) @err(err_version);
+version = (nonzerodigit digit{0,2} %eof(set_version) <err(err_version)) >mark %from(set_version) @err(err_version);
 
 timestamp = (nilvalue | (fulldate >mark 'T' fulltime %set_timestamp %err(set_timestamp))) @err(err_timestamp);
 
-- 
2.43.0


From 90beee2583bdbec397ed13e516e65251707d6b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 14/19] fix: rfc3164: brackets and colons in the text no longer
 cut it or forge a tag

A square bracket after a word (eg., 'eth0[up link', 'a[b] c') moved the
beginning of the message, thus losing its first part, and let the control
characters in. A colon after a word not followed by a space and some text
reported both that word as tag and the whole text as message.
---
 rfc3164/machine.go    | 1167 +++++++++++++++++++----------------------
 rfc3164/machine.go.rl |   31 +-
 2 files changed, 551 insertions(+), 647 deletions(-)

diff --git a/rfc3164/machine.go b/rfc3164/machine.go
index 5c40750..2aa89c9 100644
--- a/rfc3164/machine.go
+++ b/rfc3164/machine.go
@@ -21,9 +21,9 @@ var (
 )
 
 const start int = 1
-const firstFinal int = 333
+const firstFinal int = 329
 
-const enFail int = 373
+const enFail int = 367
 const enMain int = 1
 
 type machine struct {
@@ -31,6 +31,9 @@ type machine struct {
 	cs         int
 	p, pe, eof int
 	pb         int
+	msgat      int
+	tag        string
+	content    string
 	err        error
 	bestEffort bool
 	yyyy       int
@@ -159,6 +162,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto stCase21
 		case 22:
 			goto stCase22
+		case 329:
+			goto stCase329
+		case 330:
+			goto stCase330
+		case 331:
+			goto stCase331
+		case 332:
+			goto stCase332
 		case 333:
 			goto stCase333
 		case 334:
@@ -227,10 +238,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto stCase365
 		case 366:
 			goto stCase366
-		case 367:
-			goto stCase367
-		case 368:
-			goto stCase368
 		case 23:
 			goto stCase23
 		case 24:
@@ -239,14 +246,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto stCase25
 		case 26:
 			goto stCase26
-		case 369:
-			goto stCase369
-		case 370:
-			goto stCase370
-		case 371:
-			goto stCase371
-		case 372:
-			goto stCase372
 		case 27:
 			goto stCase27
 		case 28:
@@ -851,16 +850,8 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto stCase327
 		case 328:
 			goto stCase328
-		case 329:
-			goto stCase329
-		case 330:
-			goto stCase330
-		case 331:
-			goto stCase331
-		case 332:
-			goto stCase332
-		case 373:
-			goto stCase373
+		case 367:
+			goto stCase367
 		}
 		goto stOut
 	stCase1:
@@ -874,7 +865,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		(m.p)--
 
 		{
-			goto st373
+			goto st367
 		}
 
 		goto st0
@@ -884,14 +875,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		(m.p)--
 
 		{
-			goto st373
+			goto st367
 		}
 
 		m.err = fmt.Errorf(errPri, m.p)
 		(m.p)--
 
 		{
-			goto st373
+			goto st367
 		}
 
 		goto st0
@@ -901,7 +892,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		(m.p)--
 
 		{
-			goto st373
+			goto st367
 		}
 
 		goto st0
@@ -911,7 +902,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		(m.p)--
 
 		{
-			goto st373
+			goto st367
 		}
 
 		goto st0
@@ -921,17 +912,17 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		(m.p)--
 
 		{
-			goto st373
+			goto st367
 		}
 
 		goto st0
-	tr333:
+	tr327:
 
 		m.err = fmt.Errorf(errRFC3339, m.p)
 		(m.p)--
 
 		{
-			goto st373
+			goto st367
 		}
 
 		goto st0
@@ -1022,7 +1013,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 112:
 			goto st6
 		case 117:
-			goto st284
+			goto st280
 		}
 		goto tr7
 	st6:
@@ -1052,10 +1043,10 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 32:
 			goto st9
 		case 51:
-			goto st283
+			goto st279
 		}
 		if 49 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 50 {
-			goto st282
+			goto st278
 		}
 		goto tr7
 	st9:
@@ -1082,7 +1073,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 	stCase11:
 		if (m.data)[(m.p)] == 50 {
-			goto st281
+			goto st277
 		}
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 49 {
 			goto st12
@@ -1167,7 +1158,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			(m.p)--
 
 			{
-				goto st373
+				goto st367
 			}
 		} else {
 			if m.timezone != nil {
@@ -1181,14 +1172,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 
 		goto st20
-	tr341:
+	tr335:
 
 		if t, e := time.Parse(time.RFC3339, string(m.text())); e != nil {
 			m.err = fmt.Errorf("%s [col %d]", e, m.p)
 			(m.p)--
 
 			{
-				goto st373
+				goto st367
 			}
 		} else {
 			output.timestamp = t
@@ -1219,7 +1210,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto tr39
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
-			goto st27
+			goto st23
 		}
 		goto tr37
 	tr39:
@@ -1255,26 +1246,127 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		goto tr42
 	tr42:
 
-		m.pb = m.p
+		m.msgat = m.p
 
-		goto st333
-	st333:
+		goto st329
+	tr374:
+
+		// Only now the tag is known to be a tag, since it is followed by a colon, a space, and some text
+		output.tag = m.tag
+		output.content = m.content
+
+		m.msgat = m.p
+
+		goto st329
+	st329:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof333
+			goto _testEof329
 		}
-	stCase333:
+	stCase329:
 		if (m.data)[(m.p)] == 127 {
 			goto st0
 		}
 		if (m.data)[(m.p)] <= 31 {
 			goto st0
 		}
-		goto st333
+		goto st329
 	tr43:
 
+		m.msgat = m.p
+
+		m.content = ""
+
 		m.pb = m.p
 
-		goto st334
+		goto st330
+	st330:
+		if (m.p)++; (m.p) == (m.pe) {
+			goto _testEof330
+		}
+	stCase330:
+		switch (m.data)[(m.p)] {
+		case 58:
+			goto tr341
+		case 91:
+			goto tr342
+		case 127:
+			goto st0
+		}
+		switch {
+		case (m.data)[(m.p)] > 31:
+			if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
+				goto st331
+			}
+		default:
+			goto st0
+		}
+		goto st329
+	st331:
+		if (m.p)++; (m.p) == (m.pe) {
+			goto _testEof331
+		}
+	stCase331:
+		switch (m.data)[(m.p)] {
+		case 58:
+			goto tr341
+		case 91:
+			goto tr342
+		case 127:
+			goto st0
+		}
+		switch {
+		case (m.data)[(m.p)] > 31:
+			if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
+				goto st332
+			}
+		default:
+			goto st0
+		}
+		goto st329
+	st332:
+		if (m.p)++; (m.p) == (m.pe) {
+			goto _testEof332
+		}
+	stCase332:
+		switch (m.data)[(m.p)] {
+		case 58:
+			goto tr341
+		case 91:
+			goto tr342
+		case 127:
+			goto st0
+		}
+		switch {
+		case (m.data)[(m.p)] > 31:
+			if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
+				goto st333
+			}
+		default:
+			goto st0
+		}
+		goto st329
+	st333:
+		if (m.p)++; (m.p) == (m.pe) {
+			goto _testEof333
+		}
+	stCase333:
+		switch (m.data)[(m.p)] {
+		case 58:
+			goto tr341
+		case 91:
+			goto tr342
+		case 127:
+			goto st0
+		}
+		switch {
+		case (m.data)[(m.p)] > 31:
+			if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
+				goto st334
+			}
+		default:
+			goto st0
+		}
+		goto st329
 	st334:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof334
@@ -1282,9 +1374,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase334:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1296,7 +1388,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st335:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof335
@@ -1304,9 +1396,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase335:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1318,7 +1410,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st336:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof336
@@ -1326,9 +1418,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase336:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1340,7 +1432,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st337:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof337
@@ -1348,9 +1440,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase337:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1362,7 +1454,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st338:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof338
@@ -1370,9 +1462,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase338:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1384,7 +1476,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st339:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof339
@@ -1392,9 +1484,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase339:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1406,7 +1498,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st340:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof340
@@ -1414,9 +1506,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase340:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1428,7 +1520,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st341:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof341
@@ -1436,9 +1528,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase341:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1450,7 +1542,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st342:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof342
@@ -1458,9 +1550,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase342:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1472,7 +1564,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st343:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof343
@@ -1480,9 +1572,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase343:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1494,7 +1586,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st344:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof344
@@ -1502,9 +1594,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase344:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1516,7 +1608,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st345:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof345
@@ -1524,9 +1616,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase345:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1538,7 +1630,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st346:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof346
@@ -1546,9 +1638,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase346:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1560,7 +1652,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st347:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof347
@@ -1568,9 +1660,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase347:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1582,7 +1674,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st348:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof348
@@ -1590,9 +1682,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase348:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1604,7 +1696,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st349:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof349
@@ -1612,9 +1704,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase349:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1626,7 +1718,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st350:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof350
@@ -1634,9 +1726,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase350:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1648,7 +1740,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st351:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof351
@@ -1656,9 +1748,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase351:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1670,7 +1762,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st352:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof352
@@ -1678,9 +1770,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase352:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1692,7 +1784,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st353:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof353
@@ -1700,9 +1792,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase353:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1714,7 +1806,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st354:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof354
@@ -1722,9 +1814,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase354:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1736,7 +1828,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st355:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof355
@@ -1744,9 +1836,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase355:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1758,7 +1850,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st356:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof356
@@ -1766,9 +1858,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase356:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1780,7 +1872,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st357:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof357
@@ -1788,9 +1880,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase357:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1802,7 +1894,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st358:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof358
@@ -1810,9 +1902,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase358:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1824,7 +1916,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st359:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof359
@@ -1832,9 +1924,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase359:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1846,7 +1938,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st360:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof360
@@ -1854,9 +1946,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase360:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1868,7 +1960,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st361:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof361
@@ -1876,107 +1968,98 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase361:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
-		switch {
-		case (m.data)[(m.p)] > 31:
-			if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
-				goto st362
-			}
-		default:
+		if (m.data)[(m.p)] <= 31 {
 			goto st0
 		}
-		goto st333
+		goto st329
+	tr341:
+
+		m.tag = string(m.text())
+
+		goto st362
 	st362:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof362
 		}
 	stCase362:
 		switch (m.data)[(m.p)] {
-		case 58:
-			goto tr347
-		case 91:
-			goto tr348
+		case 32:
+			goto st363
 		case 127:
 			goto st0
 		}
-		switch {
-		case (m.data)[(m.p)] > 31:
-			if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
-				goto st363
-			}
-		default:
+		if (m.data)[(m.p)] <= 31 {
 			goto st0
 		}
-		goto st333
+		goto st329
 	st363:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof363
 		}
 	stCase363:
-		switch (m.data)[(m.p)] {
-		case 58:
-			goto tr347
-		case 91:
-			goto tr348
-		case 127:
+		if (m.data)[(m.p)] == 127 {
 			goto st0
 		}
-		switch {
-		case (m.data)[(m.p)] > 31:
-			if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
-				goto st364
-			}
-		default:
+		if (m.data)[(m.p)] <= 31 {
 			goto st0
 		}
-		goto st333
+		goto tr374
+	tr342:
+
+		m.tag = string(m.text())
+
+		goto st364
 	st364:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof364
 		}
 	stCase364:
 		switch (m.data)[(m.p)] {
-		case 58:
-			goto tr347
-		case 91:
-			goto tr348
+		case 93:
+			goto tr376
 		case 127:
 			goto st0
 		}
-		switch {
-		case (m.data)[(m.p)] > 31:
-			if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
-				goto st365
-			}
-		default:
+		if (m.data)[(m.p)] <= 31 {
 			goto st0
 		}
-		goto st333
+		goto tr375
+	tr375:
+
+		m.pb = m.p
+
+		goto st365
 	st365:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof365
 		}
 	stCase365:
 		switch (m.data)[(m.p)] {
-		case 58:
-			goto tr347
-		case 91:
-			goto tr348
+		case 93:
+			goto tr378
 		case 127:
 			goto st0
 		}
 		if (m.data)[(m.p)] <= 31 {
 			goto st0
 		}
-		goto st333
-	tr347:
+		goto st365
+	tr376:
+
+		m.pb = m.p
+
+		m.content = string(m.text())
+
+		goto st366
+	tr378:
 
-		output.tag = string(m.text())
+		m.content = string(m.text())
 
 		goto st366
 	st366:
@@ -1985,193 +2068,63 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 	stCase366:
 		switch (m.data)[(m.p)] {
-		case 32:
-			goto st367
+		case 58:
+			goto st362
 		case 127:
 			goto st0
 		}
 		if (m.data)[(m.p)] <= 31 {
 			goto st0
 		}
-		goto st333
-	st367:
-		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof367
-		}
-	stCase367:
-		if (m.data)[(m.p)] == 127 {
-			goto st0
-		}
-		if (m.data)[(m.p)] <= 31 {
-			goto st0
-		}
-		goto tr42
-	tr348:
-
-		output.tag = string(m.text())
-
-		goto st368
-	st368:
-		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof368
-		}
-	stCase368:
-		switch (m.data)[(m.p)] {
-		case 93:
-			goto tr381
-		case 127:
-			goto tr380
-		}
-		if (m.data)[(m.p)] <= 31 {
-			goto tr380
-		}
-		goto tr48
-	tr380:
-
-		m.pb = m.p
-
-		goto st23
+		goto st329
 	st23:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof23
 		}
 	stCase23:
-		if (m.data)[(m.p)] == 93 {
-			goto tr45
+		if (m.data)[(m.p)] == 32 {
+			goto tr39
 		}
-		goto st23
-	tr45:
-
-		output.content = string(m.text())
-
-		goto st24
+		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
+			goto st24
+		}
+		goto tr37
 	st24:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof24
 		}
 	stCase24:
-		switch (m.data)[(m.p)] {
-		case 58:
+		if (m.data)[(m.p)] == 32 {
+			goto tr39
+		}
+		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st25
-		case 93:
-			goto tr45
 		}
-		goto st23
+		goto tr37
 	st25:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof25
 		}
 	stCase25:
-		switch (m.data)[(m.p)] {
-		case 32:
+		if (m.data)[(m.p)] == 32 {
+			goto tr39
+		}
+		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st26
-		case 93:
-			goto tr45
 		}
-		goto st23
+		goto tr37
 	st26:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof26
 		}
 	stCase26:
-		switch (m.data)[(m.p)] {
-		case 93:
-			goto tr49
-		case 127:
-			goto st23
-		}
-		if (m.data)[(m.p)] <= 31 {
-			goto st23
-		}
-		goto tr48
-	tr48:
-
-		m.pb = m.p
-
-		goto st369
-	st369:
-		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof369
-		}
-	stCase369:
-		switch (m.data)[(m.p)] {
-		case 93:
-			goto tr383
-		case 127:
-			goto st23
-		}
-		if (m.data)[(m.p)] <= 31 {
-			goto st23
-		}
-		goto st369
-	tr383:
-
-		output.content = string(m.text())
-
-		goto st370
-	tr49:
-
-		output.content = string(m.text())
-
-		m.pb = m.p
-
-		goto st370
-	tr381:
-
-		m.pb = m.p
-
-		output.content = string(m.text())
-
-		goto st370
-	st370:
-		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof370
-		}
-	stCase370:
-		switch (m.data)[(m.p)] {
-		case 58:
-			goto st371
-		case 93:
-			goto tr383
-		case 127:
-			goto st23
-		}
-		if (m.data)[(m.p)] <= 31 {
-			goto st23
-		}
-		goto st369
-	st371:
-		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof371
-		}
-	stCase371:
-		switch (m.data)[(m.p)] {
-		case 32:
-			goto st372
-		case 93:
-			goto tr383
-		case 127:
-			goto st23
-		}
-		if (m.data)[(m.p)] <= 31 {
-			goto st23
-		}
-		goto st369
-	st372:
-		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof372
-		}
-	stCase372:
-		switch (m.data)[(m.p)] {
-		case 93:
-			goto tr49
-		case 127:
-			goto st23
+		if (m.data)[(m.p)] == 32 {
+			goto tr39
 		}
-		if (m.data)[(m.p)] <= 31 {
-			goto st23
+		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
+			goto st27
 		}
-		goto tr48
+		goto tr37
 	st27:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof27
@@ -5168,62 +5121,55 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if (m.data)[(m.p)] == 32 {
 			goto tr39
 		}
-		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
-			goto st277
-		}
 		goto tr37
 	st277:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof277
 		}
 	stCase277:
-		if (m.data)[(m.p)] == 32 {
-			goto tr39
-		}
-		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
-			goto st278
+		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 51 {
+			goto st13
 		}
-		goto tr37
+		goto tr7
 	st278:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof278
 		}
 	stCase278:
-		if (m.data)[(m.p)] == 32 {
-			goto tr39
-		}
-		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
-			goto st279
+		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
+			goto st10
 		}
-		goto tr37
+		goto tr7
 	st279:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof279
 		}
 	stCase279:
-		if (m.data)[(m.p)] == 32 {
-			goto tr39
-		}
-		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
-			goto st280
+		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 49 {
+			goto st10
 		}
-		goto tr37
+		goto tr7
 	st280:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof280
 		}
 	stCase280:
-		if (m.data)[(m.p)] == 32 {
-			goto tr39
+		if (m.data)[(m.p)] == 103 {
+			goto st7
 		}
-		goto tr37
+		goto tr7
+	tr9:
+
+		m.pb = m.p
+
+		goto st281
 	st281:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof281
 		}
 	stCase281:
-		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 51 {
-			goto st13
+		if (m.data)[(m.p)] == 101 {
+			goto st282
 		}
 		goto tr7
 	st282:
@@ -5231,17 +5177,22 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof282
 		}
 	stCase282:
-		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-			goto st10
+		if (m.data)[(m.p)] == 99 {
+			goto st7
 		}
 		goto tr7
+	tr10:
+
+		m.pb = m.p
+
+		goto st283
 	st283:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof283
 		}
 	stCase283:
-		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 49 {
-			goto st10
+		if (m.data)[(m.p)] == 101 {
+			goto st284
 		}
 		goto tr7
 	st284:
@@ -5249,11 +5200,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof284
 		}
 	stCase284:
-		if (m.data)[(m.p)] == 103 {
+		if (m.data)[(m.p)] == 98 {
 			goto st7
 		}
 		goto tr7
-	tr9:
+	tr11:
 
 		m.pb = m.p
 
@@ -5263,8 +5214,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof285
 		}
 	stCase285:
-		if (m.data)[(m.p)] == 101 {
+		switch (m.data)[(m.p)] {
+		case 97:
 			goto st286
+		case 117:
+			goto st287
 		}
 		goto tr7
 	st286:
@@ -5272,57 +5226,60 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof286
 		}
 	stCase286:
-		if (m.data)[(m.p)] == 99 {
+		if (m.data)[(m.p)] == 110 {
 			goto st7
 		}
 		goto tr7
-	tr10:
-
-		m.pb = m.p
-
-		goto st287
 	st287:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof287
 		}
 	stCase287:
-		if (m.data)[(m.p)] == 101 {
-			goto st288
+		switch (m.data)[(m.p)] {
+		case 108:
+			goto st7
+		case 110:
+			goto st7
 		}
 		goto tr7
+	tr12:
+
+		m.pb = m.p
+
+		goto st288
 	st288:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof288
 		}
 	stCase288:
-		if (m.data)[(m.p)] == 98 {
-			goto st7
+		if (m.data)[(m.p)] == 97 {
+			goto st289
 		}
 		goto tr7
-	tr11:
-
-		m.pb = m.p
-
-		goto st289
 	st289:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof289
 		}
 	stCase289:
 		switch (m.data)[(m.p)] {
-		case 97:
-			goto st290
-		case 117:
-			goto st291
+		case 114:
+			goto st7
+		case 121:
+			goto st7
 		}
 		goto tr7
+	tr13:
+
+		m.pb = m.p
+
+		goto st290
 	st290:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof290
 		}
 	stCase290:
-		if (m.data)[(m.p)] == 110 {
-			goto st7
+		if (m.data)[(m.p)] == 111 {
+			goto st291
 		}
 		goto tr7
 	st291:
@@ -5330,14 +5287,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof291
 		}
 	stCase291:
-		switch (m.data)[(m.p)] {
-		case 108:
-			goto st7
-		case 110:
+		if (m.data)[(m.p)] == 118 {
 			goto st7
 		}
 		goto tr7
-	tr12:
+	tr14:
 
 		m.pb = m.p
 
@@ -5347,7 +5301,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof292
 		}
 	stCase292:
-		if (m.data)[(m.p)] == 97 {
+		if (m.data)[(m.p)] == 99 {
 			goto st293
 		}
 		goto tr7
@@ -5356,14 +5310,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof293
 		}
 	stCase293:
-		switch (m.data)[(m.p)] {
-		case 114:
-			goto st7
-		case 121:
+		if (m.data)[(m.p)] == 116 {
 			goto st7
 		}
 		goto tr7
-	tr13:
+	tr15:
 
 		m.pb = m.p
 
@@ -5373,7 +5324,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof294
 		}
 	stCase294:
-		if (m.data)[(m.p)] == 111 {
+		if (m.data)[(m.p)] == 101 {
 			goto st295
 		}
 		goto tr7
@@ -5382,11 +5333,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof295
 		}
 	stCase295:
-		if (m.data)[(m.p)] == 118 {
+		if (m.data)[(m.p)] == 112 {
 			goto st7
 		}
 		goto tr7
-	tr14:
+	tr16:
 
 		m.pb = m.p
 
@@ -5396,52 +5347,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof296
 		}
 	stCase296:
-		if (m.data)[(m.p)] == 99 {
-			goto st297
-		}
-		goto tr7
-	st297:
-		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof297
-		}
-	stCase297:
-		if (m.data)[(m.p)] == 116 {
-			goto st7
-		}
-		goto tr7
-	tr15:
-
-		m.pb = m.p
-
-		goto st298
-	st298:
-		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof298
-		}
-	stCase298:
-		if (m.data)[(m.p)] == 101 {
-			goto st299
-		}
-		goto tr7
-	st299:
-		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof299
-		}
-	stCase299:
-		if (m.data)[(m.p)] == 112 {
-			goto st7
-		}
-		goto tr7
-	tr16:
-
-		m.pb = m.p
-
-		goto st300
-	st300:
-		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof300
-		}
-	stCase300:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5450,14 +5355,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 569 {
-			goto st301
+			goto st297
 		}
 		goto st0
-	st301:
+	st297:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof301
+			goto _testEof297
 		}
-	stCase301:
+	stCase297:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5466,14 +5371,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 569 {
-			goto st302
+			goto st298
 		}
 		goto st0
-	st302:
+	st298:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof302
+			goto _testEof298
 		}
-	stCase302:
+	stCase298:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5482,14 +5387,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 569 {
-			goto st303
+			goto st299
 		}
 		goto st0
-	st303:
+	st299:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof303
+			goto _testEof299
 		}
-	stCase303:
+	stCase299:
 		_widec = int16((m.data)[(m.p)])
 		if 45 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 45 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5498,14 +5403,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if _widec == 557 {
-			goto st304
+			goto st300
 		}
 		goto st0
-	st304:
+	st300:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof304
+			goto _testEof300
 		}
-	stCase304:
+	stCase300:
 		_widec = int16((m.data)[(m.p)])
 		switch {
 		case (m.data)[(m.p)] > 48:
@@ -5523,16 +5428,16 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 		switch _widec {
 		case 560:
-			goto st305
+			goto st301
 		case 561:
-			goto st329
+			goto st325
 		}
 		goto st0
-	st305:
+	st301:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof305
+			goto _testEof301
 		}
-	stCase305:
+	stCase301:
 		_widec = int16((m.data)[(m.p)])
 		if 49 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5541,14 +5446,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 561 <= _widec && _widec <= 569 {
-			goto st306
+			goto st302
 		}
 		goto st0
-	st306:
+	st302:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof306
+			goto _testEof302
 		}
-	stCase306:
+	stCase302:
 		_widec = int16((m.data)[(m.p)])
 		if 45 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 45 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5557,14 +5462,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if _widec == 557 {
-			goto st307
+			goto st303
 		}
 		goto st0
-	st307:
+	st303:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof307
+			goto _testEof303
 		}
-	stCase307:
+	stCase303:
 		_widec = int16((m.data)[(m.p)])
 		switch {
 		case (m.data)[(m.p)] < 49:
@@ -5589,19 +5494,19 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 		switch _widec {
 		case 560:
-			goto st308
+			goto st304
 		case 563:
-			goto st328
+			goto st324
 		}
 		if 561 <= _widec && _widec <= 562 {
-			goto st327
+			goto st323
 		}
 		goto st0
-	st308:
+	st304:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof308
+			goto _testEof304
 		}
-	stCase308:
+	stCase304:
 		_widec = int16((m.data)[(m.p)])
 		if 49 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5610,14 +5515,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 561 <= _widec && _widec <= 569 {
-			goto st309
+			goto st305
 		}
 		goto st0
-	st309:
+	st305:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof309
+			goto _testEof305
 		}
-	stCase309:
+	stCase305:
 		_widec = int16((m.data)[(m.p)])
 		if 84 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 84 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5626,14 +5531,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if _widec == 596 {
-			goto st310
+			goto st306
 		}
 		goto st0
-	st310:
+	st306:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof310
+			goto _testEof306
 		}
-	stCase310:
+	stCase306:
 		_widec = int16((m.data)[(m.p)])
 		switch {
 		case (m.data)[(m.p)] > 49:
@@ -5650,17 +5555,17 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if _widec == 562 {
-			goto st326
+			goto st322
 		}
 		if 560 <= _widec && _widec <= 561 {
-			goto st311
+			goto st307
 		}
 		goto st0
-	st311:
+	st307:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof311
+			goto _testEof307
 		}
-	stCase311:
+	stCase307:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5669,14 +5574,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 569 {
-			goto st312
+			goto st308
 		}
 		goto st0
-	st312:
+	st308:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof312
+			goto _testEof308
 		}
-	stCase312:
+	stCase308:
 		_widec = int16((m.data)[(m.p)])
 		if 58 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 58 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5685,14 +5590,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if _widec == 570 {
-			goto st313
+			goto st309
 		}
 		goto st0
-	st313:
+	st309:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof313
+			goto _testEof309
 		}
-	stCase313:
+	stCase309:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 53 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5701,14 +5606,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 565 {
-			goto st314
+			goto st310
 		}
 		goto st0
-	st314:
+	st310:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof314
+			goto _testEof310
 		}
-	stCase314:
+	stCase310:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5717,14 +5622,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 569 {
-			goto st315
+			goto st311
 		}
 		goto st0
-	st315:
+	st311:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof315
+			goto _testEof311
 		}
-	stCase315:
+	stCase311:
 		_widec = int16((m.data)[(m.p)])
 		if 58 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 58 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5733,14 +5638,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if _widec == 570 {
-			goto st316
+			goto st312
 		}
 		goto st0
-	st316:
+	st312:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof316
+			goto _testEof312
 		}
-	stCase316:
+	stCase312:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 53 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5749,14 +5654,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 565 {
-			goto st317
+			goto st313
 		}
 		goto st0
-	st317:
+	st313:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof317
+			goto _testEof313
 		}
-	stCase317:
+	stCase313:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5765,14 +5670,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 569 {
-			goto st318
+			goto st314
 		}
 		goto st0
-	st318:
+	st314:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof318
+			goto _testEof314
 		}
-	stCase318:
+	stCase314:
 		_widec = int16((m.data)[(m.p)])
 		switch {
 		case (m.data)[(m.p)] < 45:
@@ -5797,18 +5702,18 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 		switch _widec {
 		case 555:
-			goto st319
+			goto st315
 		case 557:
-			goto st319
+			goto st315
 		case 602:
-			goto st324
+			goto st320
 		}
-		goto tr333
-	st319:
+		goto tr327
+	st315:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof319
+			goto _testEof315
 		}
-	stCase319:
+	stCase315:
 		_widec = int16((m.data)[(m.p)])
 		switch {
 		case (m.data)[(m.p)] > 49:
@@ -5825,17 +5730,17 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if _widec == 562 {
-			goto st325
+			goto st321
 		}
 		if 560 <= _widec && _widec <= 561 {
-			goto st320
+			goto st316
 		}
-		goto tr333
-	st320:
+		goto tr327
+	st316:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof320
+			goto _testEof316
 		}
-	stCase320:
+	stCase316:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5844,14 +5749,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 569 {
-			goto st321
+			goto st317
 		}
-		goto tr333
-	st321:
+		goto tr327
+	st317:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof321
+			goto _testEof317
 		}
-	stCase321:
+	stCase317:
 		_widec = int16((m.data)[(m.p)])
 		if 58 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 58 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5860,14 +5765,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if _widec == 570 {
-			goto st322
+			goto st318
 		}
-		goto tr333
-	st322:
+		goto tr327
+	st318:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof322
+			goto _testEof318
 		}
-	stCase322:
+	stCase318:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 53 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5876,14 +5781,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 565 {
-			goto st323
+			goto st319
 		}
-		goto tr333
-	st323:
+		goto tr327
+	st319:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof323
+			goto _testEof319
 		}
-	stCase323:
+	stCase319:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5892,23 +5797,23 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 569 {
-			goto st324
+			goto st320
 		}
-		goto tr333
-	st324:
+		goto tr327
+	st320:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof324
+			goto _testEof320
 		}
-	stCase324:
+	stCase320:
 		if (m.data)[(m.p)] == 32 {
-			goto tr341
+			goto tr335
 		}
 		goto st0
-	st325:
+	st321:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof325
+			goto _testEof321
 		}
-	stCase325:
+	stCase321:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 51 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5917,14 +5822,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 563 {
-			goto st321
+			goto st317
 		}
-		goto tr333
-	st326:
+		goto tr327
+	st322:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof326
+			goto _testEof322
 		}
-	stCase326:
+	stCase322:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 51 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5933,14 +5838,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 563 {
-			goto st312
+			goto st308
 		}
 		goto st0
-	st327:
+	st323:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof327
+			goto _testEof323
 		}
-	stCase327:
+	stCase323:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5949,14 +5854,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 569 {
-			goto st309
+			goto st305
 		}
 		goto st0
-	st328:
+	st324:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof328
+			goto _testEof324
 		}
-	stCase328:
+	stCase324:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 49 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5965,14 +5870,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 561 {
-			goto st309
+			goto st305
 		}
 		goto st0
-	st329:
+	st325:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof329
+			goto _testEof325
 		}
-	stCase329:
+	stCase325:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 50 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5981,39 +5886,39 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 562 {
-			goto st306
+			goto st302
 		}
 		goto st0
 	tr4:
 
 		m.pb = m.p
 
-		goto st330
-	st330:
+		goto st326
+	st326:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof330
+			goto _testEof326
 		}
-	stCase330:
+	stCase326:
 		switch (m.data)[(m.p)] {
 		case 57:
-			goto st332
+			goto st328
 		case 62:
 			goto tr6
 		}
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 56 {
-			goto st331
+			goto st327
 		}
 		goto tr2
 	tr5:
 
 		m.pb = m.p
 
-		goto st331
-	st331:
+		goto st327
+	st327:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof331
+			goto _testEof327
 		}
-	stCase331:
+	stCase327:
 		if (m.data)[(m.p)] == 62 {
 			goto tr6
 		}
@@ -6021,11 +5926,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto st3
 		}
 		goto tr2
-	st332:
+	st328:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof332
+			goto _testEof328
 		}
-	stCase332:
+	stCase328:
 		if (m.data)[(m.p)] == 62 {
 			goto tr6
 		}
@@ -6033,18 +5938,18 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto st3
 		}
 		goto tr2
-	st373:
+	st367:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof373
+			goto _testEof367
 		}
-	stCase373:
+	stCase367:
 		switch (m.data)[(m.p)] {
 		case 10:
 			goto st0
 		case 13:
 			goto st0
 		}
-		goto st373
+		goto st367
 	stOut:
 	_testEof2:
 		m.cs = 2
@@ -6109,6 +6014,18 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	_testEof22:
 		m.cs = 22
 		goto _testEof
+	_testEof329:
+		m.cs = 329
+		goto _testEof
+	_testEof330:
+		m.cs = 330
+		goto _testEof
+	_testEof331:
+		m.cs = 331
+		goto _testEof
+	_testEof332:
+		m.cs = 332
+		goto _testEof
 	_testEof333:
 		m.cs = 333
 		goto _testEof
@@ -6211,12 +6128,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	_testEof366:
 		m.cs = 366
 		goto _testEof
-	_testEof367:
-		m.cs = 367
-		goto _testEof
-	_testEof368:
-		m.cs = 368
-		goto _testEof
 	_testEof23:
 		m.cs = 23
 		goto _testEof
@@ -6229,18 +6140,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	_testEof26:
 		m.cs = 26
 		goto _testEof
-	_testEof369:
-		m.cs = 369
-		goto _testEof
-	_testEof370:
-		m.cs = 370
-		goto _testEof
-	_testEof371:
-		m.cs = 371
-		goto _testEof
-	_testEof372:
-		m.cs = 372
-		goto _testEof
 	_testEof27:
 		m.cs = 27
 		goto _testEof
@@ -7147,20 +7046,8 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	_testEof328:
 		m.cs = 328
 		goto _testEof
-	_testEof329:
-		m.cs = 329
-		goto _testEof
-	_testEof330:
-		m.cs = 330
-		goto _testEof
-	_testEof331:
-		m.cs = 331
-		goto _testEof
-	_testEof332:
-		m.cs = 332
-		goto _testEof
-	_testEof373:
-		m.cs = 373
+	_testEof367:
+		m.cs = 367
 		goto _testEof
 
 	_testEof:
@@ -7168,9 +7055,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 		if (m.p) == (m.eof) {
 			switch m.cs {
-			case 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 365, 366, 367, 368, 369, 370, 371, 372:
+			case 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 365, 366:
 
-				output.message = string(m.text())
+				output.message = string(m.data[m.msgat:m.p])
 
 			case 1:
 
@@ -7178,34 +7065,34 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				(m.p)--
 
 				{
-					goto st373
+					goto st367
 				}
 
-			case 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 281, 282, 283, 284, 285, 286, 287, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299:
+			case 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 277, 278, 279, 280, 281, 282, 283, 284, 285, 286, 287, 288, 289, 290, 291, 292, 293, 294, 295:
 
 				m.err = fmt.Errorf(errTimestamp, m.p)
 				(m.p)--
 
 				{
-					goto st373
+					goto st367
 				}
 
-			case 318, 319, 320, 321, 322, 323, 325:
+			case 314, 315, 316, 317, 318, 319, 321:
 
 				m.err = fmt.Errorf(errRFC3339, m.p)
 				(m.p)--
 
 				{
-					goto st373
+					goto st367
 				}
 
-			case 20, 21, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 261, 262, 263, 264, 265, 266, 267, 268, 269, 270, 271, 272, 273, 274, 275, 276, 277, 278, 279, 280:
+			case 20, 21, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 261, 262, 263, 264, 265, 266, 267, 268, 269, 270, 271, 272, 273, 274, 275, 276:
 
 				m.err = fmt.Errorf(errHostname, m.p)
 				(m.p)--
 
 				{
-					goto st373
+					goto st367
 				}
 
 			case 22:
@@ -7214,23 +7101,23 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				(m.p)--
 
 				{
-					goto st373
+					goto st367
 				}
 
-			case 2, 3, 330, 331, 332:
+			case 2, 3, 326, 327, 328:
 
 				m.err = fmt.Errorf(errPrival, m.p)
 				(m.p)--
 
 				{
-					goto st373
+					goto st367
 				}
 
 				m.err = fmt.Errorf(errPri, m.p)
 				(m.p)--
 
 				{
-					goto st373
+					goto st367
 				}
 
 			}
diff --git a/rfc3164/machine.go.rl b/rfc3164/machine.go.rl
index df6cd30..1630a48 100644
--- a/rfc3164/machine.go.rl
+++ b/rfc3164/machine.go.rl
@@ -69,16 +69,30 @@ action set_hostname {
 	output.hostname = string(m.text())
 }
 
+action markmsg {
+	m.msgat = m.p
+}
+
 action set_tag {
-	output.tag = string(m.text())
+	m.tag = string(m.text())
+}
+
+action ini_content {
+	m.content = ""
 }
 
 action set_content {
-	output.content = string(m.text())
+	m.content = string(m.text())
+}
+
+action commit_tag {
+	// Only now the tag is known to be a tag, since it is followed by a colon, a space, and some text
+	output.tag = m.tag
+	output.content = m.content
 }
 
 action set_message {
-	output.message = string(m.text())
+	output.message = string(m.data[m.msgat:m.p])
 }
 
 action err_prival {
@@ -147,14 +161,14 @@ tag = (print -- [ :\[]){1,32} >mark %set_tag @err(err_tag);
 
 visible = print | 0x80..0xFF;
 
-# The first not alphanumeric character starts the content (usually containing a PID) part of the message part
-contentval = !alnum @err(err_contentstart) >mark print* %set_content @err(err_content);
+# The content (usually a PID) goes from the opening square bracket to the first closing one
+contentval = (visible - csb)* >mark %set_content;
 
 content = '[' contentval ']'; # todo(leodido) > support ':' and ' ' too. Also they have to match?
 
-mex = visible+ >mark %set_message;
+mex = visible+ >markmsg %set_message;
 
-msg = (tag content? ':' sp)? mex;
+msg = mex | (tag >ini_content content? ':' sp (mex >commit_tag));
 
 fail := (any - [\n\r])* @err{ fgoto main; };
 
@@ -169,6 +183,9 @@ type machine struct {
 	cs           int
 	p, pe, eof   int
 	pb           int
+	msgat        int
+	tag          string
+	content      string
 	err          error
 	bestEffort   bool
 	yyyy         int
-- 
2.43.0


From f28710e00fc2d44b14a025e5648237069771579f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:10 +0000
Subject: [PATCH 15/19] fix: octet counting with a large maximum message length

The buffer of the scanner was as large as the maximum: maxima near the
largest int overflowed (every message longer than 16 bytes was reported
as truncated), others made the allocation panic. Limit the buffer, and
collect the messages that do not fit in it.
---
 octetcounting/scanner.go | 43 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/octetcounting/scanner.go b/octetcounting/scanner.go
index 32b6590..3e11982 100644
--- a/octetcounting/scanner.go
+++ b/octetcounting/scanner.go
@@ -13,6 +13,9 @@ var ws = byte(32)
 // lt represents the "<" character
 var lt = byte(60)
 
+// maxBuffered is the maximum length of the messages which are buffered as a whole
+const maxBuffered = 64 * 1024
+
 // isDigit returns true if the byte represents a number in [0,9]
 func isDigit(ch byte) bool {
 	return (ch >= 48 && ch <= 57)
@@ -28,12 +31,19 @@ type Scanner struct {
 	r      *bufio.Reader
 	msglen uint64
 	ready  bool
+	limit  int
 }
 
 // NewScanner returns a pointer to a new instance of Scanner.
 func NewScanner(r io.Reader, maxLength int) *Scanner {
+	limit := maxLength
+	if maxLength > maxBuffered {
+		maxLength = maxBuffered
+	}
 	return &Scanner{
 		r: bufio.NewReaderSize(r, maxLength+20), // max uint64 is 19 characters + a space
+
+		limit: limit,
 	}
 }
 
@@ -118,6 +128,9 @@ func (s *Scanner) scanMsgLen() Token {
 func (s *Scanner) scanSyslogMsg() Token {
 	// Check the reader contains almost MSGLEN characters
 	n := int(s.msglen)
+	if n > s.r.Size() && n <= s.limit {
+		return s.scanLargeSyslogMsg(n)
+	}
 	b, err := s.r.Peek(n)
 	if err != nil {
 		return Token{
@@ -138,3 +151,33 @@ func (s *Scanner) scanSyslogMsg() Token {
 		lit: b,
 	}
 }
+
+// scanLargeSyslogMsg scans a message that does not fit in the buffer of the reader
+func (s *Scanner) scanLargeSyslogMsg(n int) Token {
+	var buf []byte
+	for len(buf) < n {
+		size := n - len(buf)
+		if size > s.r.Size() {
+			size = s.r.Size()
+		}
+		b, err := s.r.Peek(size)
+		buf = append(buf, b...)
+		s.r.Discard(len(b))
+		if err != nil {
+			return Token{
+				typ: EOF,
+				lit: buf,
+			}
+		}
+	}
+
+	// Reset status
+	s.ready = false
+	s.msglen = 0
+
+	// Return SYSLOGMSG token
+	return Token{
+		typ: SYSLOGMSG,
+		lit: buf,
+	}
+}
-- 
2.43.0


From 647444af52c3ae8c6de429f67c895851999051bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:20 +0000
Subject: [PATCH 16/19] fix: common: escape a value in linear time

Appending to a string byte by byte copies what has been escaped so far
each time: rendering a message with a value of 1 MB took minutes.
---
 common/functions.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/common/functions.go b/common/functions.go
index bcd6d44..fcb40d6 100644
--- a/common/functions.go
+++ b/common/functions.go
@@ -1,5 +1,9 @@
 package common
 
+import (
+	"strings"
+)
+
 // UnsafeUTF8DecimalCodePointsToInt converts a slice containing
 // a series of UTF-8 decimal code points into their integer rapresentation.
 //
@@ -29,18 +33,18 @@ func RemoveBytes(data []byte, positions []int, offset int) []byte {
 
 // EscapeBytes adds a backslash to \, ], " characters.
 func EscapeBytes(value string) string {
-	res := ""
+	var res strings.Builder
 	// Note that it goes byte by byte, so to copy multi-byte characters verbatim
 	for i := 0; i < len(value); i++ {
 		c := value[i]
 		// todo(leodido): generalize byte codes (the function should ideally accept a byte slice containing byte codes to escape)
 		if c == 92 || c == 93 || c == 34 {
-			res += `\`
+			res.WriteByte('\\')
 		}
-		res += value[i : i+1]
+		res.WriteByte(c)
 	}
 
-	return res
+	return res.String()
 }
 
 // InBetween tells whether value is into [min, max] range.
-- 
2.43.0


From f07b97810f4af195c12be1662eb49581ee10cfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:21 +0000
Subject: [PATCH 17/19] fix: common: remove bytes in linear time

Moving the rest of the value at each removal made parsing (and setting)
a value with many escapes take time quadratic in its size.
---
 common/functions.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/common/functions.go b/common/functions.go
index fcb40d6..ee48020 100644
--- a/common/functions.go
+++ b/common/functions.go
@@ -23,12 +23,14 @@ func UnsafeUTF8DecimalCodePointsToInt(chars []uint8) int {
 // RemoveBytes removes byte at given positions from data byte slice, starting from the given offset.
 func RemoveBytes(data []byte, positions []int, offset int) []byte {
 	// We need a copy here to not modify original data
-	cp := append([]byte(nil), data...)
-	for i, pos := range positions {
-		at := pos - i - offset
-		cp = append(cp[:at], cp[(at+1):]...)
+	cp := append([]byte(nil), data...)[:0]
+	from := 0
+	for _, pos := range positions {
+		at := pos - offset
+		cp = append(cp, data[from:at]...)
+		from = at + 1
 	}
-	return cp
+	return append(cp, data[from:]...)
 }
 
 // EscapeBytes adds a backslash to \, ], " characters.
-- 
2.43.0


From ebe6788a74a9d19a126f38b2344df0577abde2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:39 +0000
Subject: [PATCH 18/19] fix: rfc5424: render structured data in linear time

Appending to the rendering of the structured data copied it each time:
time was quadratic in the number of elements and parameters.
---
 rfc5424/builder.go    | 10 ++++++----
 rfc5424/builder.go.rl | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/rfc5424/builder.go b/rfc5424/builder.go
index 476722d..e16307b 100644
--- a/rfc5424/builder.go
+++ b/rfc5424/builder.go
@@ -3,6 +3,7 @@ package rfc5424
 import (
 	"fmt"
 	"sort"
+	"strings"
 	"time"
 
 	"github.com/influxdata/go-syslog/v3/common"
@@ -9386,9 +9387,9 @@ func (sm *SyslogMessage) String() (string, error) {
 		}
 		sort.Strings(identifiers)
 
-		sd = ""
+		var b strings.Builder
 		for _, id := range identifiers {
-			sd += fmt.Sprintf("[%s", id)
+			fmt.Fprintf(&b, "[%s", id)
 
 			// Sort parameter names
 			params := (*sm.StructuredData)[id]
@@ -9399,10 +9400,11 @@ func (sm *SyslogMessage) String() (string, error) {
 			sort.Strings(names)
 
 			for _, name := range names {
-				sd += fmt.Sprintf(" %s=\"%s\"", name, common.EscapeBytes(params[name]))
+				fmt.Fprintf(&b, " %s=\"%s\"", name, common.EscapeBytes(params[name]))
 			}
-			sd += "]"
+			b.WriteString("]")
 		}
+		sd = b.String()
 	}
 	if sm.Message != nil {
 		m = " " + *sm.Message
diff --git a/rfc5424/builder.go.rl b/rfc5424/builder.go.rl
index 6063842..df82b52 100644
--- a/rfc5424/builder.go.rl
+++ b/rfc5424/builder.go.rl
@@ -3,6 +3,7 @@ package rfc5424
 import (
     "time"
     "sort"
+    "strings"
     "fmt"
 
     "github.com/influxdata/go-syslog/v3/common"
@@ -289,9 +290,9 @@ func (sm *SyslogMessage) String() (string, error) {
         }
         sort.Strings(identifiers)
 
-        sd = ""
+        var b strings.Builder
         for _, id := range identifiers {
-            sd += fmt.Sprintf("[%s", id)
+            fmt.Fprintf(&b, "[%s", id)
 
             // Sort parameter names
             params := (*sm.StructuredData)[id]
@@ -302,10 +303,11 @@ func (sm *SyslogMessage) String() (string, error) {
             sort.Strings(names)
 
             for _, name := range names {
-                sd += fmt.Sprintf(" %s=\"%s\"", name, common.EscapeBytes(params[name]))
+                fmt.Fprintf(&b, " %s=\"%s\"", name, common.EscapeBytes(params[name]))
             }
-            sd += "]"
+            b.WriteString("]")
         }
+        sd = b.String()
     }
     if sm.Message != nil {
         m = " " + *sm.Message
-- 
2.43.0


From 62580ebc2ecbb5dd5444f870205f669d71b367ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:00 +0000
Subject: [PATCH 19/19] fix: non-transparent parser never returned when the
 reader failed with bufio.ErrBufferFull

The buffered reading underneath took the error of the reader for its own full buffer condition, and read again, forever.
---
 nontransparent/parser.go    | 19 ++++++++++++++++++-
 nontransparent/parser.go.rl | 19 ++++++++++++++++++-
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/nontransparent/parser.go b/nontransparent/parser.go
index 2d2948b..e9fb80d 100644
--- a/nontransparent/parser.go
+++ b/nontransparent/parser.go
@@ -1,6 +1,7 @@
 package nontransparent
 
 import (
+	"errors"
 	"io"
 
 	syslog "github.com/influxdata/go-syslog/v3"
@@ -289,10 +290,26 @@ func (m *machine) WithListener(f syslog.ParserListener) {
 func (m *machine) Parse(reader io.Reader) {
 	// Forget about what the previous stream left behind, if any
 	m.candidate, m.lastChunk, m.readError = nil, nil, nil
-	r := parser.ArbitraryReader(reader, m.trailer)
+	r := parser.ArbitraryReader(&source{reader}, m.trailer)
 	parser.New(r, m, parser.WithStart(1)).Parse()
 }
 
+// source is the reader from which the stream is read.
+//
+// It keeps only the text of the errors of the wrapped reader.
+// Otherwise the buffered reading could take one of them for its own (ie., bufio.ErrBufferFull), and go on reading forever.
+type source struct {
+	io.Reader
+}
+
+func (s *source) Read(p []byte) (int, error) {
+	n, err := s.Reader.Read(p)
+	if err != nil && err != io.EOF {
+		err = errors.New(err.Error())
+	}
+	return n, err
+}
+
 func (m *machine) process() {
 	lastByte := len(m.candidate) - 1
 	if m.candidate[lastByte] == m.trailer {
diff --git a/nontransparent/parser.go.rl b/nontransparent/parser.go.rl
index 4a2cdea..d45dee6 100644
--- a/nontransparent/parser.go.rl
+++ b/nontransparent/parser.go.rl
@@ -1,6 +1,7 @@
 package nontransparent
 
 import (
+    "errors"
     "io"
 
     parser "github.com/leodido/ragel-machinery/parser"
@@ -150,10 +151,26 @@ func (m *machine) WithListener(f syslog.ParserListener) {
 func (m *machine) Parse(reader io.Reader) {
     // Forget about what the previous stream left behind, if any
     m.candidate, m.lastChunk, m.readError = nil, nil, nil
-    r := parser.ArbitraryReader(reader, m.trailer)
+    r := parser.ArbitraryReader(&source{reader}, m.trailer)
     parser.New(r, m, parser.WithStart(%%{ write start; }%%)).Parse()
 }
 
+// source is the reader from which the stream is read.
+//
+// It keeps only the text of the errors of the wrapped reader.
+// Otherwise the buffered reading could take one of them for its own (ie., bufio.ErrBufferFull), and go on reading forever.
+type source struct {
+    io.Reader
+}
+
+func (s *source) Read(p []byte) (int, error) {
+    n, err := s.Reader.Read(p)
+    if err != nil && err != io.EOF {
+        err = errors.New(err.Error())
+    }
+    return n, err
+}
+
 func (m *machine) process() {
     lastByte := len(m.candidate) - 1
     if m.candidate[lastByte] == m.trailer {
-- 
2.43.0

