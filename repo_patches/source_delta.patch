From 6de968cf8e1d845c522503aee0ca73b7c47f4b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:11 +0000
Subject: [PATCH 01/12] fix: accept the RFC 2141 identifiers made of a "u" and
 other two chars

The check for the reserved "urn" identifier only looked for its first char, and
for a colon 3 chars ahead. Thus identifiers like "uci", and "u" followed by a
specific string with a colon at that place, were rejected.
---
 machine.go    | 4 +++-
 machine.go.rl | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/machine.go b/machine.go
index aec1ba6..01bcf4e 100644
--- a/machine.go
+++ b/machine.go
@@ -2,6 +2,7 @@ package urn
 
 import (
 	"fmt"
+	"strings"
 
 	scimschema "github.com/leodido/go-urn/scim/schema"
 )
@@ -4360,7 +4361,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 			// Throw an error when:
 			// - we are entering here matching the the prefix in the namespace identifier part
 			// - looking ahead (3 chars) we find a colon
-			if pos := m.p + 3; pos < m.pe && m.data[pos] == 58 && output.prefix != "" {
+			// - those 3 chars actually are the prefix
+			if pos := m.p + 3; pos < m.pe && m.data[pos] == 58 && output.prefix != "" && strings.EqualFold(string(m.data[m.p:pos]), "urn") {
 				m.err = fmt.Errorf(errNoUrnWithinID, pos)
 				(m.p)--
 
diff --git a/machine.go.rl b/machine.go.rl
index 0a17421..63289ec 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -2,6 +2,7 @@ package urn
 
 import (
     "fmt"
+    "strings"
 
     scimschema "github.com/leodido/go-urn/scim/schema"
 )
@@ -50,7 +51,8 @@ action throw_pre_urn_err {
         // Throw an error when:
         // - we are entering here matching the the prefix in the namespace identifier part
         // - looking ahead (3 chars) we find a colon
-        if pos := m.p + 3; pos < m.pe && m.data[pos] == 58 && output.prefix != "" {
+        // - those 3 chars actually are the prefix
+        if pos := m.p + 3; pos < m.pe && m.data[pos] == 58 && output.prefix != "" && strings.EqualFold(string(m.data[m.p:pos]), "urn") {
             m.err = fmt.Errorf(errNoUrnWithinID, pos)
             fhold;
             fgoto fail;
-- 
2.43.0


From 541b607da01e3aa456f4813af1cb1999d14c7a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:13 +0000
Subject: [PATCH 02/12] fix: report an error whenever the parsing fails

Malformed RFC 8141 components (eg., "urn:ab:x?", "urn:ab:x#a#b") made the
machine stop without an error: (nil, nil) for the machine, and (nil, true) for
the Parse function.
---
 machine.go    | 5 +++++
 machine.go.rl | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/machine.go b/machine.go
index 01bcf4e..0314e39 100644
--- a/machine.go
+++ b/machine.go
@@ -25,6 +25,7 @@ var (
 	err8141QComponentStart = "expecting only one q-component (starting with the ?= sequence) [col %d]"
 	err8141MalformedRComp  = "expecting a non-empty r-component containing alnum, hex, or others ([~&()+,-.:=@;$_!*'] or [/?] but not at its beginning) [col %d]"
 	err8141MalformedQComp  = "expecting a non-empty q-component containing alnum, hex, or others ([~&()+,-.:=@;$_!*'] or [/?] but not at its beginning) [col %d]"
+	errUnexpected          = "unexpected character, or unexpected end of the input [col %d]"
 )
 var _toStateActions []byte = []byte{
 	0, 0, 0, 0, 0, 0, 0, 0,
@@ -5028,6 +5029,10 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 	}
 
 	if m.cs < firstFinal || m.cs == enFail {
+		// The machine can also stop without going through an error action
+		if m.err == nil {
+			m.err = fmt.Errorf(errUnexpected, m.p)
+		}
 		return nil, m.err
 	}
 
diff --git a/machine.go.rl b/machine.go.rl
index 63289ec..f6cee2c 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -25,6 +25,7 @@ var (
     err8141QComponentStart = "expecting only one q-component (starting with the ?= sequence) [col %d]"
     err8141MalformedRComp  = "expecting a non-empty r-component containing alnum, hex, or others ([~&()+,-.:=@;$_!*'] or [/?] but not at its beginning) [col %d]"
     err8141MalformedQComp  = "expecting a non-empty q-component containing alnum, hex, or others ([~&()+,-.:=@;$_!*'] or [/?] but not at its beginning) [col %d]"
+    errUnexpected          = "unexpected character, or unexpected end of the input [col %d]"
 )
 
 %%{
@@ -368,6 +369,10 @@ func (m *machine) Parse(input []byte) (*URN, error) {
     %% write exec;
 
     if m.cs < first_final || m.cs == en_fail {
+        // The machine can also stop without going through an error action
+        if m.err == nil {
+            m.err = fmt.Errorf(errUnexpected, m.p)
+        }
         return nil, m.err
     }
 
-- 
2.43.0


From f39c40e752c66e9a6d5c67fa7f480fc4870106ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:15 +0000
Subject: [PATCH 03/12] fix: make the Default parsing mode behave as
 DefaultParsingMode

WithParsingMode(Default) left the machine without a start state, so that it
refused every input (without an error).
---
 machine.go    | 3 +++
 machine.go.rl | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/machine.go b/machine.go
index 0314e39..5728fb4 100644
--- a/machine.go
+++ b/machine.go
@@ -5040,6 +5040,9 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 }
 
 func (m *machine) WithParsingMode(x ParsingMode) {
+	if x == Default {
+		x = DefaultParsingMode
+	}
 	m.parsingMode = x
 	switch m.parsingMode {
 	case RFC2141Only:
diff --git a/machine.go.rl b/machine.go.rl
index f6cee2c..dfe56ae 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -380,6 +380,9 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 }
 
 func (m *machine) WithParsingMode(x ParsingMode) {
+    if x == Default {
+        x = DefaultParsingMode
+    }
     m.parsingMode = x
     switch m.parsingMode {
         case RFC2141Only:
-- 
2.43.0


From b0beeb0f0a12a06a104ba5d0c6f41fe5137c5652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:17 +0000
Subject: [PATCH 04/12] fix: do not overwrite the prefix with the begin of the
 identifier

In the RFC 8141 mode "urn:URN-7:x" was reassembled into "URN:URN-7:x".
---
 machine.go    | 5 ++++-
 machine.go.rl | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/machine.go b/machine.go
index 5728fb4..1f4bdd1 100644
--- a/machine.go
+++ b/machine.go
@@ -4161,7 +4161,10 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		goto _again
 	f2:
 
-		output.prefix = string(m.text())
+		// Do not let an identifier starting with "urn" replace the prefix
+		if output.prefix == "" {
+			output.prefix = string(m.text())
+		}
 
 		goto _again
 	f6:
diff --git a/machine.go.rl b/machine.go.rl
index dfe56ae..78ef907 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -44,7 +44,10 @@ action tolower {
 }
 
 action set_pre {
-    output.prefix = string(m.text())
+    // Do not let an identifier starting with "urn" replace the prefix
+    if output.prefix == "" {
+        output.prefix = string(m.text())
+    }
 }
 
 action throw_pre_urn_err {
-- 
2.43.0


From 06c0dbcbad503c54fda6354c8f370d17c1aba2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:19 +0000
Subject: [PATCH 05/12] fix: make the normalization idempotent

Normalizing (or comparing) the result of Normalize lost the specific string.
---
 urn.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/urn.go b/urn.go
index 894d625..f9c94a9 100644
--- a/urn.go
+++ b/urn.go
@@ -38,6 +38,7 @@ func (u *URN) Normalize() *URN {
 		prefix: "urn",
 		ID:     strings.ToLower(u.ID),
 		SS:     u.norm,
+		norm:   u.norm,
 		// rComponent: u.rComponent,
 		// qComponent: u.qComponent,
 		// fComponent: u.fComponent,
-- 
2.43.0


From 797cb7588eb41c68c9bc121b4baccdd84f7c10ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:21 +0000
Subject: [PATCH 06/12] fix: normalize also the URNs not coming from parsing

URNs built from their exported fields lost the specific string when normalized,
thus Equal was true whatever their specific strings.
---
 urn.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/urn.go b/urn.go
index f9c94a9..936dc4a 100644
--- a/urn.go
+++ b/urn.go
@@ -34,17 +34,36 @@ type URN struct {
 //
 // Which means: lowercase prefix, lowercase namespace identifier, and immutate namespace specific string chars (except <hex> tokens which are lowercased).
 func (u *URN) Normalize() *URN {
+	norm := u.norm
+	if norm == "" {
+		// The URN does not come from parsing
+		norm = lowerHex(u.SS)
+	}
+
 	return &URN{
 		prefix: "urn",
 		ID:     strings.ToLower(u.ID),
-		SS:     u.norm,
-		norm:   u.norm,
+		SS:     norm,
+		norm:   norm,
 		// rComponent: u.rComponent,
 		// qComponent: u.qComponent,
 		// fComponent: u.fComponent,
 	}
 }
 
+// lowerHex lowercases the <hex> tokens of a namespace specific string.
+func lowerHex(ss string) string {
+	res := []byte(ss)
+	for i := 0; i+2 < len(res); i++ {
+		if res[i] == '%' {
+			copy(res[i+1:i+3], strings.ToLower(ss[i+1:i+3]))
+			i += 2
+		}
+	}
+
+	return string(res)
+}
+
 // Equal checks the lexical equivalence of the current URN with another one.
 func (u *URN) Equal(x *URN) bool {
 	if x == nil {
-- 
2.43.0


From ac1886df9dfd0921571e8ee8fdfe938e29b49ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:23 +0000
Subject: [PATCH 07/12] fix: do not write into the buffer to parse

Lowering the hex chars in place made concurrent parsing of the same buffer a
data race, and parsing of a read-only buffer a fault.
---
 machine.go    | 55 +++++----------------------------------------------
 machine.go.rl | 11 +----------
 urn.go        | 16 +++++++++++++++
 3 files changed, 22 insertions(+), 60 deletions(-)

diff --git a/machine.go b/machine.go
index 1f4bdd1..2ee57d8 100644
--- a/machine.go
+++ b/machine.go
@@ -4174,16 +4174,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		goto _again
 	f38:
 
-		output.SS = string(m.text())
-		// Iterate upper letters lowering them
-		for _, i := range output.tolower {
-			m.data[m.pb+i] = m.data[m.pb+i] + 32
-		}
-		output.norm = string(m.text())
-		// Revert the buffer to the original
-		for _, i := range output.tolower {
-			m.data[m.pb+i] = m.data[m.pb+i] - 32
-		}
+		output.setSS(m.text())
 
 		goto _again
 	f0:
@@ -4750,31 +4741,13 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 
 			case 34:
 
-				output.SS = string(m.text())
-				// Iterate upper letters lowering them
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] + 32
-				}
-				output.norm = string(m.text())
-				// Revert the buffer to the original
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] - 32
-				}
+				output.setSS(m.text())
 
 				output.kind = RFC2141
 
 			case 38:
 
-				output.SS = string(m.text())
-				// Iterate upper letters lowering them
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] + 32
-				}
-				output.norm = string(m.text())
-				// Revert the buffer to the original
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] - 32
-				}
+				output.setSS(m.text())
 
 				output.kind = RFC8141
 
@@ -4962,16 +4935,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 
 				output.scim.Name = string(m.data[output.scim.pos:m.p])
 
-				output.SS = string(m.text())
-				// Iterate upper letters lowering them
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] + 32
-				}
-				output.norm = string(m.text())
-				// Revert the buffer to the original
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] - 32
-				}
+				output.setSS(m.text())
 
 				output.kind = RFC7643
 
@@ -4979,16 +4943,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 
 				output.scim.Other = string(m.data[output.scim.pos:m.p])
 
-				output.SS = string(m.text())
-				// Iterate upper letters lowering them
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] + 32
-				}
-				output.norm = string(m.text())
-				// Revert the buffer to the original
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] - 32
-				}
+				output.setSS(m.text())
 
 				output.kind = RFC7643
 
diff --git a/machine.go.rl b/machine.go.rl
index 78ef907..90ffe93 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -69,16 +69,7 @@ action set_nid {
 }
 
 action set_nss {
-    output.SS = string(m.text())
-    // Iterate upper letters lowering them
-    for _, i := range output.tolower {
-        m.data[m.pb+i] = m.data[m.pb+i] + 32
-    }
-    output.norm = string(m.text())
-    // Revert the buffer to the original
-    for _, i := range output.tolower {
-        m.data[m.pb+i] = m.data[m.pb+i] - 32
-    }
+    output.setSS(m.text())
 }
 
 action err_pre {
diff --git a/urn.go b/urn.go
index 936dc4a..db93760 100644
--- a/urn.go
+++ b/urn.go
@@ -30,6 +30,22 @@ type URN struct {
 	tolower    []int
 }
 
+// setSS sets the namespace specific string, and its normalized version.
+//
+// It works on a copy of the text since this belongs to the caller of Parse.
+func (u *URN) setSS(text []byte) {
+	u.SS = string(text)
+	u.norm = u.SS
+	if len(u.tolower) > 0 {
+		norm := []byte(u.SS)
+		// Iterate upper letters lowering them
+		for _, i := range u.tolower {
+			norm[i] += 32
+		}
+		u.norm = string(norm)
+	}
+}
+
 // Normalize turns the receiving URN into its norm version.
 //
 // Which means: lowercase prefix, lowercase namespace identifier, and immutate namespace specific string chars (except <hex> tokens which are lowercased).
-- 
2.43.0


From 5c27aeaece5959b41e23ee41ebcf6e15efef42d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:24 +0000
Subject: [PATCH 08/12] fix: do not panic when marshaling the zero URN8141

---
 urn8141.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/urn8141.go b/urn8141.go
index da4dd06..9457c4a 100644
--- a/urn8141.go
+++ b/urn8141.go
@@ -12,6 +12,10 @@ type URN8141 struct {
 }
 
 func (u URN8141) MarshalJSON() ([]byte, error) {
+	if u.URN == nil {
+		return []byte("null"), nil
+	}
+
 	return json.Marshal(u.String())
 }
 
-- 
2.43.0


From 5d913c7e7a30f12548c043ccd0a2656e3a491863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:44 +0000
Subject: [PATCH 09/12] fix: compare the whole URNs when checking their lexical
 equivalence

A SCIM URN and the very same URN parsed per RFC 2141 (or RFC 8141) were not
equal because of their different identifiers.
---
 urn.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/urn.go b/urn.go
index db93760..171ff89 100644
--- a/urn.go
+++ b/urn.go
@@ -88,7 +88,8 @@ func (u *URN) Equal(x *URN) bool {
 	nu := u.Normalize()
 	nx := x.Normalize()
 
-	return nu.prefix == nx.prefix && nu.ID == nx.ID && nu.SS == nx.SS
+	// The same URN can be split in different ways depending on its kind
+	return nu.prefix == nx.prefix && nu.ID+":"+nu.SS == nx.ID+":"+nx.SS
 }
 
 // String reassembles the URN into a valid URN string.
-- 
2.43.0


From 363b8fa0338436fa4cbd84b87996b5c7708b6b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 10/12] fix: do not copy the r-component at each of its
 question marks

Every "?" within a r-component made a copy of all of it so far, thus parsing
took quadratic time and memory.
---
 machine.go    | 12 ++++++++----
 machine.go.rl |  6 +++++-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/machine.go b/machine.go
index 2ee57d8..7521c94 100644
--- a/machine.go
+++ b/machine.go
@@ -148,6 +148,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 	output := &URN{
 		tolower: []int{},
 	}
+	// Matched again, each time longer, at every "?": copy it only once at the end
+	var rComponent []byte
 	{
 		if (m.p) == (m.pe) {
 			goto _testEof
@@ -4296,7 +4298,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		goto _again
 	f42:
 
-		output.rComponent = string(m.text())
+		rComponent = m.text()
 
 		goto _again
 	f48:
@@ -4541,7 +4543,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		}
 		output.rStart = true
 
-		output.rComponent = string(m.text())
+		rComponent = m.text()
 
 		goto _again
 	f31:
@@ -4884,7 +4886,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 
 			case 42:
 
-				output.rComponent = string(m.text())
+				rComponent = m.text()
 
 				output.kind = RFC8141
 
@@ -4959,7 +4961,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				}
 				output.rStart = true
 
-				output.rComponent = string(m.text())
+				rComponent = m.text()
 
 				output.kind = RFC8141
 
@@ -4994,6 +4996,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		return nil, m.err
 	}
 
+	output.rComponent = string(rComponent)
+
 	return output, nil
 }
 
diff --git a/machine.go.rl b/machine.go.rl
index 90ffe93..c8d2e5e 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -211,7 +211,7 @@ action rfc8141_type {
 }
 
 action set_r_component {
-    output.rComponent = string(m.text())
+    rComponent = m.text()
 }
 
 action set_q_component {
@@ -359,6 +359,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
     output := &URN{
         tolower: []int{},
     }
+    // Matched again, each time longer, at every "?": copy it only once at the end
+    var rComponent []byte
 
     %% write exec;
 
@@ -370,6 +372,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
         return nil, m.err
     }
 
+    output.rComponent = string(rComponent)
+
     return output, nil
 }
 
-- 
2.43.0


From be65d0e86a6c43212e8be05385a65f85db88022b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:18 +0000
Subject: [PATCH 11/12] fix: do not break the bytes after a percent which are
 not ASCII letters

---
 urn.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/urn.go b/urn.go
index 171ff89..de1ef79 100644
--- a/urn.go
+++ b/urn.go
@@ -72,7 +72,11 @@ func lowerHex(ss string) string {
 	res := []byte(ss)
 	for i := 0; i+2 < len(res); i++ {
 		if res[i] == '%' {
-			copy(res[i+1:i+3], strings.ToLower(ss[i+1:i+3]))
+			for j := i + 1; j <= i+2; j++ {
+				if 'A' <= res[j] && res[j] <= 'Z' {
+					res[j] += 'a' - 'A'
+				}
+			}
 			i += 2
 		}
 	}
-- 
2.43.0


From 26bc70b494d4337a4d2cee39642dbba6a1dade04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:16 +0000
Subject: [PATCH 12/12] fix: normalize the current specific string of a URN
 whose fields changed

The normalized specific string was computed when parsing only, so that
Normalize and Equal of a URN whose exported SS field was set afterwards
still worked on the text before.
---
 urn.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/urn.go b/urn.go
index de1ef79..060d09b 100644
--- a/urn.go
+++ b/urn.go
@@ -20,6 +20,7 @@ type URN struct {
 	ID         string // Namespace identifier (NID)
 	SS         string // Namespace specific string (NSS)
 	norm       string // Normalized namespace specific string
+	normOf     string // Namespace specific string that norm is for
 	kind       Kind
 	scim       *SCIM
 	rComponent string // RFC8141
@@ -36,6 +37,7 @@ type URN struct {
 func (u *URN) setSS(text []byte) {
 	u.SS = string(text)
 	u.norm = u.SS
+	u.normOf = u.SS
 	if len(u.tolower) > 0 {
 		norm := []byte(u.SS)
 		// Iterate upper letters lowering them
@@ -51,8 +53,8 @@ func (u *URN) setSS(text []byte) {
 // Which means: lowercase prefix, lowercase namespace identifier, and immutate namespace specific string chars (except <hex> tokens which are lowercased).
 func (u *URN) Normalize() *URN {
 	norm := u.norm
-	if norm == "" {
-		// The URN does not come from parsing
+	if norm == "" || u.normOf != u.SS {
+		// The URN does not come from parsing, or it changed since then
 		norm = lowerHex(u.SS)
 	}
 
@@ -61,6 +63,7 @@ func (u *URN) Normalize() *URN {
 		ID:     strings.ToLower(u.ID),
 		SS:     norm,
 		norm:   norm,
+		normOf: norm,
 		// rComponent: u.rComponent,
 		// qComponent: u.qComponent,
 		// fComponent: u.fComponent,
-- 
2.43.0

