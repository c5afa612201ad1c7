From 18568693c82809b6c640c77dd24be6290297261c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:03 +0000
Subject: [PATCH 01/57] fix: Parse of non-UTF-8 documents must not reuse the
 caller's buffer

The conversion buffer was built on doc[:0], so converting overwrote the
document being parsed. One byte of the converted document was skipped as
well, which shifted every Content slice and panicked when nothing follows
the XML declaration; an encoding declared after the root element made the
recorded offsets meaningless.
---
 xmltree/xmltree.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/xmltree/xmltree.go b/xmltree/xmltree.go
index 47567f4..1a0fc14 100644
--- a/xmltree/xmltree.go
+++ b/xmltree/xmltree.go
@@ -214,8 +214,12 @@ func Parse(doc []byte) (*Element, error) {
 	// stream. If the source document is not utf8, the position may be
 	// incorrect and cause invalid data or a run-time panic. So we copy
 	// the utf8 conversion to an internal buffer.
-	utf8buf := bytes.NewBuffer(doc[:0])
+	data := doc
+	root := new(Element)
 	d.CharsetReader = func(label string, r io.Reader) (io.Reader, error) {
+		if root.Name.Local != "" {
+			return nil, errors.New("xmltree: encoding declared after the start of the document")
+		}
 		utf8input, err := charset.NewReaderLabel(label, r)
 		if err != nil {
 			return nil, err
@@ -224,16 +228,16 @@ func Parse(doc []byte) (*Element, error) {
 		// parsed the <?xml?> header. To be able to index
 		// into the document, we need to account for this.
 		padding := make([]byte, int(d.InputOffset()))
-		utf8buf.Write(padding)
+		utf8buf := bytes.NewBuffer(padding)
 
 		_, err = io.Copy(utf8buf, utf8input)
 		if err != nil {
 			return nil, err
 		}
-		return bytes.NewReader(utf8buf.Bytes()[len(padding)+1:]), nil
+		data = utf8buf.Bytes()
+		return bytes.NewReader(data[len(padding):]), nil
 	}
 	scanner := scanner{Decoder: d}
-	root := new(Element)
 
 	for scanner.scan() {
 		if start, ok := scanner.tok.(xml.StartElement); ok {
@@ -244,7 +248,7 @@ func Parse(doc []byte) (*Element, error) {
 	if scanner.err != nil {
 		return nil, scanner.err
 	}
-	if err := root.parse(&scanner, utf8buf.Bytes(), 0); err != nil {
+	if err := root.parse(&scanner, data, 0); err != nil {
 		return nil, err
 	}
 	return root, nil
-- 
2.43.0


From 10915f6995ce8b160a21d84af31f1bd9042f5ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:31 +0000
Subject: [PATCH 02/57] fix: escape attribute values and namespace names when
 marshaling

---
 xmltree/marshal.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/xmltree/marshal.go b/xmltree/marshal.go
index ca949fe..a2a288b 100644
--- a/xmltree/marshal.go
+++ b/xmltree/marshal.go
@@ -11,17 +11,24 @@ import (
 // prefixes in attribute names. Therefore we add .Name.Space verbatim
 // instead of trying to resolve it. One consequence is this is that we cannot
 // rename prefixes without some work.
-var tagTmpl = template.Must(template.New("Marshal XML tags").Parse(
+var tagTmpl = template.Must(template.New("Marshal XML tags").Funcs(template.FuncMap{"escape": escape}).Parse(
 	`{{define "start" -}}
 	<{{.Scope.Prefix .Name -}}
-	{{range .StartElement.Attr}} {{$.Scope.Prefix .Name -}}="{{.Value}}"{{end -}}
-	{{range .NS }} xmlns{{ if .Local }}:{{ .Local }}{{end}}="{{ .Space }}"{{end -}}
+	{{range .StartElement.Attr}} {{$.Scope.Prefix .Name -}}="{{escape .Value}}"{{end -}}
+	{{range .NS }} xmlns{{ if .Local }}:{{ .Local }}{{end}}="{{ escape .Space }}"{{end -}}
 	{{if or .Children .Content}}>{{else}} />{{end}}
 	{{- end}}
 
 	{{define "end" -}}
 	</{{.Prefix .Name}}>{{end}}`))
 
+// escape returns the XML equivalent of s, suitable for use between quotes.
+func escape(s string) (string, error) {
+	var buf bytes.Buffer
+	err := xml.EscapeText(&buf, []byte(s))
+	return buf.String(), err
+}
+
 // Marshal produces the XML encoding of an Element as a self-contained
 // document. The xmltree package may adjust the declarations of XML
 // namespaces if the Element has been modified, or is part of a larger scope,
-- 
2.43.0


From 43bf3d873d86e646e69d85c95fe306863a6409b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:33 +0000
Subject: [PATCH 03/57] fix: Encode returns every error encountered writing

Errors from writing character data, indentation, line breaks and the
cycle comment were dropped.
---
 xmltree/marshal.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/xmltree/marshal.go b/xmltree/marshal.go
index a2a288b..957711b 100644
--- a/xmltree/marshal.go
+++ b/xmltree/marshal.go
@@ -94,8 +94,8 @@ func (e *encoder) encode(el, parent *Element, visited map[*Element]struct{}) err
 	}
 	if _, ok := visited[el]; ok {
 		// We have a cycle. Leave a comment, but no error
-		e.w.Write([]byte("<!-- cycle detected -->"))
-		return nil
+		_, err := e.w.Write([]byte("<!-- cycle detected -->"))
+		return err
 	}
 	scope := diffScope(parent, el)
 	if err := e.encodeOpenTag(el, scope, len(visited)); err != nil {
@@ -103,7 +103,9 @@ func (e *encoder) encode(el, parent *Element, visited map[*Element]struct{}) err
 	}
 	if len(el.Children) == 0 {
 		if len(el.Content) > 0 {
-			e.w.Write(el.Content)
+			if _, err := e.w.Write(el.Content); err != nil {
+				return err
+			}
 		} else {
 			return nil
 		}
@@ -143,7 +145,9 @@ func diffScope(parent, child *Element) Scope {
 func (e *encoder) encodeOpenTag(el *Element, scope Scope, depth int) error {
 	if e.pretty {
 		for i := 0; i < depth; i++ {
-			io.WriteString(e.w, e.indent)
+			if _, err := io.WriteString(e.w, e.indent); err != nil {
+				return err
+			}
 		}
 	}
 	var tag = struct {
@@ -155,7 +159,9 @@ func (e *encoder) encodeOpenTag(el *Element, scope Scope, depth int) error {
 	}
 	if e.pretty {
 		if len(el.Children) > 0 || len(el.Content) == 0 {
-			io.WriteString(e.w, "\n")
+			if _, err := io.WriteString(e.w, "\n"); err != nil {
+				return err
+			}
 		}
 	}
 	return nil
@@ -165,7 +171,9 @@ func (e *encoder) encodeCloseTag(el *Element, depth int) error {
 	if e.pretty {
 		for i := 0; i < depth; i++ {
 			if len(el.Children) > 0 {
-				io.WriteString(e.w, e.indent)
+				if _, err := io.WriteString(e.w, e.indent); err != nil {
+					return err
+				}
 			}
 		}
 	}
@@ -173,7 +181,9 @@ func (e *encoder) encodeCloseTag(el *Element, depth int) error {
 		return err
 	}
 	if e.pretty {
-		io.WriteString(e.w, "\n")
+		if _, err := io.WriteString(e.w, "\n"); err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 97ec0a19f6efbe68430b56142af43c169a07fdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:35 +0000
Subject: [PATCH 04/57] fix: JoinScope must not write into the outer scope's
 backing array

Two scopes joined from the same outer scope could share (and overwrite)
its spare capacity.
---
 xmltree/xmltree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmltree/xmltree.go b/xmltree/xmltree.go
index 1a0fc14..1ba3b6c 100644
--- a/xmltree/xmltree.go
+++ b/xmltree/xmltree.go
@@ -71,7 +71,7 @@ func (el *Element) Attr(space, local string) string {
 // prefixes using the returned scope, the prefix list in the argument
 // Scope is searched before that of the receiver Scope.
 func (outer *Scope) JoinScope(inner *Scope) *Scope {
-	return &Scope{append(outer.ns, inner.ns...)}
+	return &Scope{append(outer.ns[:len(outer.ns):len(outer.ns)], inner.ns...)}
 }
 
 // Unmarshal parses the XML encoding of the Element and stores the result
-- 
2.43.0


From cce1e0db95e1b0ae15a5aea05f3a5472626cffe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:37 +0000
Subject: [PATCH 05/57] fix: Prefix returns names that resolve back to the same
 namespace

A prefix that is redeclared further in was used for the outer namespace,
and the empty string was returned for a namespace with no prefix, where
the documentation promises an unqualified name.
---
 xmltree/xmltree.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/xmltree/xmltree.go b/xmltree/xmltree.go
index 1ba3b6c..11fd1cf 100644
--- a/xmltree/xmltree.go
+++ b/xmltree/xmltree.go
@@ -116,12 +116,20 @@ func (scope *Scope) ResolveNS(qname string) (xml.Name, bool) {
 	case "xmlns":
 		return xml.Name{Space: xmlNamespaceURI, Local: local}, true
 	}
+	if space, ok := scope.lookup(prefix); ok {
+		return xml.Name{Space: space, Local: local}, true
+	}
+	return xml.Name{Space: prefix, Local: local}, false
+}
+
+// lookup finds the namespace of the innermost declaration of prefix.
+func (scope *Scope) lookup(prefix string) (space string, ok bool) {
 	for i := len(scope.ns) - 1; i >= 0; i-- {
 		if scope.ns[i].Local == prefix {
-			return xml.Name{Space: scope.ns[i].Space, Local: local}, true
+			return scope.ns[i].Space, true
 		}
 	}
-	return xml.Name{Space: prefix, Local: local}, false
+	return "", false
 }
 
 // ResolveDefault is like Resolve, but allows for the default namespace to
@@ -149,6 +157,11 @@ func (scope *Scope) Prefix(name xml.Name) (qname string) {
 	}
 	for i := len(scope.ns) - 1; i >= 0; i-- {
 		if scope.ns[i].Space == name.Space {
+			// The prefix may have been redeclared for another
+			// namespace further in.
+			if space, _ := scope.lookup(scope.ns[i].Local); space != name.Space {
+				continue
+			}
 			if scope.ns[i].Local == "" {
 				// Favor default NS if there is an extra
 				// qualified NS declaration
@@ -158,6 +171,9 @@ func (scope *Scope) Prefix(name xml.Name) (qname string) {
 			}
 		}
 	}
+	if qname == "" {
+		return name.Local
+	}
 	return qname
 }
 
-- 
2.43.0


From 5be3a9259578b1b65934507f108ad46b963159b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:14 +0000
Subject: [PATCH 06/57] fix: Equal is symmetric in its arguments' attributes

Attributes present only in the first element were ignored.
---
 xmltree/compare.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/xmltree/compare.go b/xmltree/compare.go
index 4e31dbd..c50ffde 100644
--- a/xmltree/compare.go
+++ b/xmltree/compare.go
@@ -48,12 +48,9 @@ func equalElement(a, b *Element) bool {
 	if a.Name != b.Name {
 		return false
 	}
-	attrs := make(map[xml.Name]string)
-	for _, a := range a.StartElement.Attr {
-		if a.Name.Space == "xmlns" || a.Name.Local == "xmlns" {
-			continue
-		}
-		attrs[a.Name] = a.Value
+	attrs := attrMap(a)
+	if len(attrs) != len(attrMap(b)) {
+		return false
 	}
 
 	for _, a := range b.StartElement.Attr {
@@ -66,3 +63,14 @@ func equalElement(a, b *Element) bool {
 	}
 	return true
 }
+
+func attrMap(el *Element) map[xml.Name]string {
+	attrs := make(map[xml.Name]string)
+	for _, a := range el.StartElement.Attr {
+		if a.Name.Space == "xmlns" || a.Name.Local == "xmlns" {
+			continue
+		}
+		attrs[a.Name] = a.Value
+	}
+	return attrs
+}
-- 
2.43.0


From 8e921757146c18ac3d09a817ee2606d8a1a7b5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:17 +0000
Subject: [PATCH 07/57] fix: Equal ignores sub-element order without reordering
 its arguments

The children of both arguments were sorted in place, and sub-elements with
the same name were still compared in document order.
---
 xmltree/compare.go | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/xmltree/compare.go b/xmltree/compare.go
index c50ffde..e5bde8d 100644
--- a/xmltree/compare.go
+++ b/xmltree/compare.go
@@ -3,7 +3,6 @@ package xmltree
 import (
 	"bytes"
 	"encoding/xml"
-	"sort"
 )
 
 // Equal returns true if two xmltree.Elements are equal, ignoring
@@ -12,14 +11,6 @@ func Equal(a, b *Element) bool {
 	return equal(a, b, 0)
 }
 
-type byName []Element
-
-func (l byName) Len() int { return len(l) }
-func (l byName) Less(i, j int) bool {
-	return l[i].Name.Space+l[i].Name.Local < l[j].Name.Space+l[j].Name.Local
-}
-func (l byName) Swap(i, j int) { l[i], l[j] = l[j], l[i] }
-
 func equal(a, b *Element, depth int) bool {
 	const maxDepth = 1000
 	if depth > maxDepth {
@@ -34,12 +25,18 @@ func equal(a, b *Element, depth int) bool {
 	if len(a.Children) == 0 {
 		return bytes.Equal(bytes.TrimSpace(a.Content), bytes.TrimSpace(b.Content))
 	}
-	sort.Sort(byName(a.Children))
-	sort.Sort(byName(b.Children))
+	// Sub-elements may appear in any order; pair each of them with a
+	// distinct equal sub-element of b, leaving both trees as they are.
+	matched := make([]bool, len(b.Children))
+Children:
 	for i := range a.Children {
-		if !equal(&a.Children[i], &b.Children[i], depth+1) {
-			return false
+		for j := range b.Children {
+			if !matched[j] && equal(&a.Children[i], &b.Children[j], depth+1) {
+				matched[j] = true
+				continue Children
+			}
 		}
+		return false
 	}
 	return true
 }
-- 
2.43.0


From 34999d53f81352646dd384bdc69717b0a9ba0610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:32 +0000
Subject: [PATCH 08/57] fix: Normalize must not write past the end of the
 caller's slice

Appending the standard schemas to the variadic argument stored them in the
spare capacity of a slice passed as docs...
---
 xsd/parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 0e1ac4f..14052f8 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -90,7 +90,7 @@ func Imports(data []byte) ([]Ref, error) {
 // number of trees returned by Normalize may not equal the
 // number of arguments.
 func Normalize(docs ...[]byte) ([]*xmltree.Element, error) {
-	docs = append(docs, StandardSchema...)
+	docs = append(docs[:len(docs):len(docs)], StandardSchema...)
 	result := make([]*xmltree.Element, 0, len(docs))
 
 	for _, data := range docs {
-- 
2.43.0


From 837363dafbfc11b80cc91d672ab31b6b1cf407ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:34 +0000
Subject: [PATCH 09/57] fix: look for circular references before walking the
 tree to unpack groups

A group that refers to itself made unpackGroups recurse until the stack
was exhausted.
---
 xsd/parse.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 14052f8..d8a5bb8 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -389,12 +389,14 @@ func flattenRef(schema []*xmltree.Element) error {
 		*el = *deref(el, real)
 	})
 	for ns, doc := range schema {
-		unpackGroups(doc)
 		if hasCycle(doc, nil) {
 			return fmt.Errorf("cycle detected after flattening references "+
 				"in schema %d:\n%s", ns, xmltree.MarshalIndent(doc, "", "  "))
 		}
 	}
+	for _, doc := range schema {
+		unpackGroups(doc)
+	}
 	return nil
 }
 
-- 
2.43.0


From 3df66166dce3cfd8d021611ba090807fffade6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:36 +0000
Subject: [PATCH 10/57] fix: keep documentation that follows another child of
 an annotation

After skipping e.g. <appinfo>, its end was decoded as documentation, which
consumed or lost the elements that follow.
---
 xsd/xsd.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xsd/xsd.go b/xsd/xsd.go
index fb84c36..fc09481 100644
--- a/xsd/xsd.go
+++ b/xsd/xsd.go
@@ -273,6 +273,7 @@ Loop:
 				if err := d.Skip(); err != nil {
 					return err
 				}
+				continue
 			}
 			var frag []byte
 			if err := d.DecodeElement(&frag, &tok); err != nil {
-- 
2.43.0


From 0a56b2a6ef11fdfa3f682a2fe81d20378a569a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:55 +0000
Subject: [PATCH 11/57] fix: keep the types of every schema that shares a
 target namespace

Parsed schemas were indexed by target namespace, so a second document for
the same namespace replaced the types of the first.
---
 xsd/parse.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index d8a5bb8..557cd15 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -135,7 +135,7 @@ func Normalize(docs ...[]byte) ([]*xmltree.Element, error) {
 func Parse(docs ...[]byte) ([]Schema, error) {
 	var (
 		result = make([]Schema, 0, len(docs))
-		parsed = make(map[string]Schema, len(docs))
+		parsed = make([]Schema, 0, len(docs))
 		types  = make(map[xml.Name]Type)
 	)
 
@@ -150,7 +150,7 @@ func Parse(docs ...[]byte) ([]Schema, error) {
 		if err := s.parse(root); err != nil {
 			return nil, err
 		}
-		parsed[tns] = s
+		parsed = append(parsed, s)
 	}
 
 	for _, s := range parsed {
@@ -159,8 +159,8 @@ func Parse(docs ...[]byte) ([]Schema, error) {
 		}
 	}
 
-	for _, root := range schema {
-		s := parsed[root.Attr("", "targetNamespace")]
+	for i, root := range schema {
+		s := parsed[i]
 		if err := s.resolvePartialTypes(types); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 6d34f17840f33200f17b5657196acf2c07f9afe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:57 +0000
Subject: [PATCH 12/57] fix: report a missing namespace when another one has
 several schemas

The number of selected schemas was compared with the number of requested
namespaces; several schemas for one namespace hid the absence of another.
---
 xsdgen/cli.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/xsdgen/cli.go b/xsdgen/cli.go
index 0274086..4ee2fbe 100644
--- a/xsdgen/cli.go
+++ b/xsdgen/cli.go
@@ -34,17 +34,17 @@ func (cfg *Config) GenCode(data ...[]byte) (*Code, error) {
 			}
 		}
 	}
-	if len(primaries) < len(cfg.namespaces) {
-		missing := make([]string, 0, len(cfg.namespaces)-len(primaries))
-		have := make(map[string]bool)
-		for _, schema := range primaries {
-			have[schema.TargetNS] = true
-		}
-		for _, ns := range cfg.namespaces {
-			if !have[ns] {
-				missing = append(missing, ns)
-			}
+	missing := make([]string, 0, len(cfg.namespaces))
+	have := make(map[string]bool)
+	for _, schema := range primaries {
+		have[schema.TargetNS] = true
+	}
+	for _, ns := range cfg.namespaces {
+		if !have[ns] {
+			missing = append(missing, ns)
 		}
+	}
+	if len(missing) > 0 {
 		return nil, fmt.Errorf("could not find schema for %q", strings.Join(missing, ", "))
 	}
 	cfg.addStandardHelpers()
-- 
2.43.0


From bbd1500da7c78ebcce766c50dfa4d01f9e399d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:59 +0000
Subject: [PATCH 13/57] fix: GenAST returns the error from reading its input
 files

The error was overwritten, so a missing file produced an empty package.
---
 xsdgen/cli.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xsdgen/cli.go b/xsdgen/cli.go
index 4ee2fbe..02e7729 100644
--- a/xsdgen/cli.go
+++ b/xsdgen/cli.go
@@ -55,6 +55,9 @@ func (cfg *Config) GenCode(data ...[]byte) (*Code, error) {
 // associated methods based on a set of XML schema.
 func (cfg *Config) GenAST(files ...string) (*ast.File, error) {
 	data, err := cfg.readFiles(files...)
+	if err != nil {
+		return nil, err
+	}
 	code, err := cfg.GenCode(data...)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From d5bb5d516d3240b591f806a2feed4fda34496477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:14 +0000
Subject: [PATCH 14/57] fix: read each imported schema file once

Following imports between documents that import each other never ended.
---
 xsdgen/cli.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/xsdgen/cli.go b/xsdgen/cli.go
index 02e7729..52a737a 100644
--- a/xsdgen/cli.go
+++ b/xsdgen/cli.go
@@ -65,9 +65,19 @@ func (cfg *Config) GenAST(files ...string) (*ast.File, error) {
 	return code.GenAST()
 }
 
-func (cfg *Config) readFiles(files ...string) ([][]byte,error) {
+func (cfg *Config) readFiles(files ...string) ([][]byte, error) {
+	return cfg.readNewFiles(make(map[string]bool), files...)
+}
+
+// readNewFiles reads files, and those they import if so configured,
+// leaving out any that are already in the seen set.
+func (cfg *Config) readNewFiles(seen map[string]bool, files ...string) ([][]byte, error) {
 	data := make([][]byte, 0, len(files))
 	for _, filename := range files {
+		if seen[filename] {
+			continue
+		}
+		seen[filename] = true
 		b, err := ioutil.ReadFile(filename)
 		if err != nil {
 			return nil, err
@@ -82,7 +92,7 @@ func (cfg *Config) readFiles(files ...string) ([][]byte,error) {
 			for _, r := range importedRefs {
 				importedFiles = append(importedFiles, r.Location)
 			}
-			referencedData, err := cfg.readFiles(importedFiles...)
+			referencedData, err := cfg.readNewFiles(seen, importedFiles...)
 			if err != nil {
 				return nil, fmt.Errorf("error reading imported files: %v", err)
 			}
-- 
2.43.0


From 659ea1ea604c66b6a63373e2f4325f86cff08474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:16 +0000
Subject: [PATCH 15/57] fix: keep dateTime bounds of types derived from other
 simple types

The parsed bound was overwritten with the zero value from the failed
attempt to parse it as a date.
---
 xsd/parse.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 557cd15..6381a2d 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -990,11 +990,10 @@ func parseMinMaxRestriction(el *xmltree.Element, base Type) (time.Time, float64)
 		// The base of the linked type is unknown, try to parse dates and decimals
 		d, err := time.Parse("2006-01-02", el.Attr("", "value"))
 		if err != nil {
-			d, err := time.Parse(time.RFC3339, el.Attr("", "value"))
+			d, err = time.Parse(time.RFC3339, el.Attr("", "value"))
 			if err != nil {
 				decimal = parseDecimal(el.Attr("", "value"))
 			}
-			date = d
 		}
 		date = d
 	} else {
-- 
2.43.0


From addb9634d5cd437fe76ebbdb3ff07411f58cec9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:44 +0000
Subject: [PATCH 16/57] fix: resolve the types of all schemas before looking at
 their bases

Parse panicked when a type was derived from a type of a schema that comes
later, which is itself derived from a third type.
---
 xsd/parse.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 6381a2d..f578be7 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -159,11 +159,16 @@ func Parse(docs ...[]byte) ([]Schema, error) {
 		}
 	}
 
-	for i, root := range schema {
-		s := parsed[i]
+	// Resolve every schema first; the steps that follow look at the types
+	// of other schemas.
+	for _, s := range parsed {
 		if err := s.resolvePartialTypes(types); err != nil {
 			return nil, err
 		}
+	}
+
+	for i, root := range schema {
+		s := parsed[i]
 		err := s.addElementTypeAliases(root, types)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 8453fce9b8be9c1b6120c9b0d257805b4c43abf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:46 +0000
Subject: [PATCH 17/57] fix: reject types that are not derived from a built-in
 type

A type without content, or one derived from itself, ended up with a chain
of bases that is nil or circular, although it is documented to end in a
Builtin. Users of the chain panicked or did not terminate.
---
 xsd/parse.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/xsd/parse.go b/xsd/parse.go
index f578be7..da0b634 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -166,6 +166,14 @@ func Parse(docs ...[]byte) ([]Schema, error) {
 			return nil, err
 		}
 	}
+	for _, s := range parsed {
+		for name, t := range s.Types {
+			if !endsInBuiltin(t) {
+				return nil, fmt.Errorf("type %s in namespace %s is not derived from a built-in type",
+					name.Local, name.Space)
+			}
+		}
+	}
 
 	for i, root := range schema {
 		s := parsed[i]
@@ -1103,6 +1111,21 @@ func (s *Schema) resolvePartialTypes(types map[xml.Name]Type) error {
 	return nil
 }
 
+// endsInBuiltin reports whether following the base of t, and of the types it
+// derives from, leads to a Builtin. It does not if a type has no base, or is
+// derived from itself.
+func endsInBuiltin(t Type) bool {
+	seen := make(map[Type]bool)
+	for t != nil && !seen[t] {
+		if _, ok := t.(Builtin); ok {
+			return true
+		}
+		seen[t] = true
+		t = Base(t)
+	}
+	return false
+}
+
 func (s *Schema) lookupType(name linkedType, ext map[xml.Name]Type) (Type, bool) {
 	if b, err := ParseBuiltin(xml.Name(name)); err == nil {
 		return b, true
-- 
2.43.0


From c513c4a91b199589894365ec1263d8a55e2ba8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:48 +0000
Subject: [PATCH 18/57] fix: flatten each complex type once

Types that refer to themselves were flattened again for every reference,
up to a depth of 1000; with two such references this never finished.
---
 xsdgen/xsdgen.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 0604c4d..e2a8b0b 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -110,7 +110,7 @@ func (c *Code) NameOf(name xml.Name) string {
 		return "NOTFOUND" + name.Local
 	}
 
-	switch b := c.cfg.flatten1(t, func(xsd.Type) {}, 0).(type) {
+	switch b := c.cfg.flatten1(t, func(xsd.Type) {}, make(map[xsd.Type]bool)).(type) {
 	case xsd.Builtin:
 		return c.NameOf(b.Name())
 	}
@@ -371,6 +371,7 @@ func (cfg *Config) flatten(types map[xml.Name]xsd.Type) []xsd.Type {
 	push := func(t xsd.Type) {
 		result = append(result, t)
 	}
+	seen := make(map[xsd.Type]bool)
 	for _, t := range types {
 		if xsd.XMLName(t).Local == "_self" {
 			continue
@@ -384,7 +385,7 @@ func (cfg *Config) flatten(types map[xml.Name]xsd.Type) []xsd.Type {
 				continue
 			}
 		}
-		if t := cfg.flatten1(t, push, 0); t != nil {
+		if t := cfg.flatten1(t, push, seen); t != nil {
 			push(t)
 		}
 	}
@@ -402,11 +403,9 @@ func dedup(types []xsd.Type) (unique []xsd.Type) {
 	return unique
 }
 
-func (cfg *Config) flatten1(t xsd.Type, push func(xsd.Type), depth int) xsd.Type {
-	const maxDepth = 1000
-	if depth > maxDepth {
-		return t
-	}
+// Complex types are added to the seen set when their fields are flattened,
+// so that this is done once for each type, however often it is referred to.
+func (cfg *Config) flatten1(t xsd.Type, push func(xsd.Type), seen map[xsd.Type]bool) xsd.Type {
 	switch t := t.(type) {
 	case *xsd.SimpleType:
 		var (
@@ -480,28 +479,33 @@ func (cfg *Config) flatten1(t xsd.Type, push func(xsd.Type), depth int) xsd.Type
 				case xsd.Builtin:
 					return b
 				case *xsd.SimpleType:
-					return cfg.flatten1(t.Base, push, depth+1)
+					return cfg.flatten1(t.Base, push, seen)
 				}
 			}
 		}
+		if seen[t] {
+			return t
+		}
+		seen[t] = true
+
 		// We can flatten a struct field if its type does not
 		// need additional methods for unmarshalling.
 		for i, el := range t.Elements {
-			el.Type = cfg.flatten1(el.Type, push, depth+1)
+			el.Type = cfg.flatten1(el.Type, push, seen)
 			t.Elements[i] = el
 			push(el.Type)
 			cfg.debugf("element %s %T(%s): %v", el.Name.Local, t,
 				xsd.XMLName(t).Local, xsd.XMLName(el.Type))
 		}
 		for i, attr := range t.Attributes {
-			attr.Type = cfg.flatten1(attr.Type, push, depth+1)
+			attr.Type = cfg.flatten1(attr.Type, push, seen)
 			t.Attributes[i] = attr
 			push(attr.Type)
 			cfg.debugf("attribute %s %T(%s): %v", attr.Name.Local, t,
 				xsd.XMLName(t).Local, xsd.XMLName(attr.Type))
 		}
 
-		t.Base = cfg.flatten1(t.Base, push, depth+1)
+		t.Base = cfg.flatten1(t.Base, push, seen)
 
 		// We expand all complexTypes to merge all of the fields from
 		// their ancestors, so generated code has no dependencies
-- 
2.43.0


From 0437e19582b7bdb23f03fe2a1ee19a0dc9e9aa25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:28 +0000
Subject: [PATCH 19/57] fix: generate a valid MarshalText method for lists of
 booleans

---
 xsdgen/xsdgen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index e2a8b0b..70d1b6f 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -1100,7 +1100,7 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 		`, s.name)
 	case xsd.Boolean:
 		marshalFn = marshalFn.Body(`
-			result := make([][]byte
+			result := make([][]byte, 0, len(*x))
 			for _, b := range *x {
 				if b {
 					result = append(result, []byte("1"))
-- 
2.43.0


From 2f79ec73abe8e8952780d5821fbf8c4b12606e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:29 +0000
Subject: [PATCH 20/57] fix: generate valid methods for lists of unsignedLong

---
 xsdgen/xsdgen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 70d1b6f..8e3b359 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -1076,13 +1076,13 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 		marshalFn = marshalFn.Body(`
 			result := make([][]byte, 0, len(*x))
 			for _, v := range *x {
-				result = append(result, []byte(strconv.FormatUInt(v, 10)))
+				result = append(result, []byte(strconv.FormatUint(v, 10)))
 			}
 			return bytes.Join(result, []byte(" ")), nil
 		`)
 		unmarshalFn = unmarshalFn.Body(`
 			for _, v := range strings.Fields(string(text)) {
-				if i, err := strconv.ParseInt(v, 10, 64); err != nil {
+				if i, err := strconv.ParseUint(v, 10, 64); err != nil {
 					return err
 				} else {
 					*x = append(*x, i)
-- 
2.43.0


From b12f7cacaae7313922c2a347561df48bba9a2756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:31 +0000
Subject: [PATCH 21/57] fix: report lists of QNames as unsupported

A QName maps to xml.Name; the methods generated for lists of them treated
it as a string and did not compile.
---
 xsdgen/xsdgen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 8e3b359..826b506 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -964,7 +964,7 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 	}
 
 	switch base.(xsd.Builtin) {
-	case xsd.ID, xsd.NCName, xsd.NMTOKEN, xsd.Name, xsd.QName, xsd.ENTITY, xsd.AnyURI, xsd.Language, xsd.String, xsd.Token, xsd.XMLLang, xsd.XMLSpace, xsd.XMLBase, xsd.XMLId, xsd.Duration, xsd.NormalizedString, xsd.AnySimpleType:
+	case xsd.ID, xsd.NCName, xsd.NMTOKEN, xsd.Name, xsd.ENTITY, xsd.AnyURI, xsd.Language, xsd.String, xsd.Token, xsd.XMLLang, xsd.XMLSpace, xsd.XMLBase, xsd.XMLId, xsd.Duration, xsd.NormalizedString, xsd.AnySimpleType:
 		marshalFn = marshalFn.Body(`
 			result := make([][]byte, 0, len(*x))
 			for _, v := range *x {
-- 
2.43.0


From d870c99b7958f9d9c7fc765775cca3f470a2e6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:33 +0000
Subject: [PATCH 22/57] fix: generate valid methods for lists of dates and
 times

The generated methods did not compile, and would have used RFC 3339 text
where the schema type has its own format.
---
 xsdgen/xsdgen.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 826b506..a3fa0f7 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -979,26 +979,32 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 			return nil
 		`)
 	case xsd.Date, xsd.DateTime, xsd.GDay, xsd.GMonth, xsd.GMonthDay, xsd.GYear, xsd.GYearMonth, xsd.Time:
+		helper, ok := cfg.helperTypes[xsd.XMLName(base)]
+		if !ok {
+			return nil, fmt.Errorf("no helper type for %v", base)
+		}
+		s.helperTypes = append(s.helperTypes, xsd.XMLName(helper.xsdType))
 		marshalFn = marshalFn.Body(`
 			result := make([][]byte, 0, len(*x))
 			for _, v := range *x {
-				if b, err := v.MarshalText(); err != nil {
-					return result, err
+				if b, err := %s(v).MarshalText(); err != nil {
+					return nil, err
 				} else {
 					result = append(result, b)
 				}
 			}
-			return bytes.Join(result, []byte(" "))
-		`)
+			return bytes.Join(result, []byte(" ")), nil
+		`, helper.name)
 		unmarshalFn = unmarshalFn.Body(`
 			for _, v := range bytes.Fields(text) {
 				var t %s
 				if err := t.UnmarshalText(v); err != nil {
 					return err
 				}
-				*x = append(*x, t)
+				*x = append(*x, %s(t))
 			}
-		`, builtinExpr(base.(xsd.Builtin)).(*ast.Ident).Name)
+			return nil
+		`, helper.name, builtinExpr(base.(xsd.Builtin)).(*ast.Ident).Name)
 	case xsd.Long:
 		marshalFn = marshalFn.Body(`
 			result := make([][]byte, 0, len(*x))
-- 
2.43.0


From e63212dc88ad11714246bdced706f2bac6b8924b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:58 +0000
Subject: [PATCH 23/57] fix: treat xs:byte as a signed number, also in lists

xs:byte ranges from -128 to 127, but was mapped to Go's byte. Lists of
bytes used the text itself as the values.
---
 xsdgen/builtin.go |  2 +-
 xsdgen/xsdgen.go  | 36 ++++++++++++++++++++++++++++++++----
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/xsdgen/builtin.go b/xsdgen/builtin.go
index 1b968e2..759623f 100644
--- a/xsdgen/builtin.go
+++ b/xsdgen/builtin.go
@@ -47,7 +47,7 @@ var builtinTbl = []ast.Expr{
 	xsd.AnyURI:        &ast.Ident{Name: "string"},
 	xsd.Base64Binary:  &ast.ArrayType{Elt: &ast.Ident{Name: "byte"}},
 	xsd.Boolean:       &ast.Ident{Name: "bool"},
-	xsd.Byte:          &ast.Ident{Name: "byte"},
+	xsd.Byte:          &ast.Ident{Name: "int8"},
 	xsd.Date:          &ast.Ident{Name: "time.Time"},
 	xsd.DateTime:      &ast.Ident{Name: "time.Time"},
 	xsd.Decimal:       &ast.Ident{Name: "float64"},
diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index a3fa0f7..8d753be 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -1096,14 +1096,42 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 			}
 			return nil
 		`)
-	case xsd.Byte, xsd.UnsignedByte:
+	case xsd.Byte:
 		marshalFn = marshalFn.Body(`
-			return []byte(*x), nil
+			result := make([][]byte, 0, len(*x))
+			for _, v := range *x {
+				result = append(result, []byte(strconv.FormatInt(int64(v), 10)))
+			}
+			return bytes.Join(result, []byte(" ")), nil
 		`)
 		unmarshalFn = unmarshalFn.Body(`
-			*x = %s(text)
+			for _, v := range strings.Fields(string(text)) {
+				if i, err := strconv.ParseInt(v, 10, 8); err != nil {
+					return err
+				} else {
+					*x = append(*x, int8(i))
+				}
+			}
 			return nil
-		`, s.name)
+		`)
+	case xsd.UnsignedByte:
+		marshalFn = marshalFn.Body(`
+			result := make([][]byte, 0, len(*x))
+			for _, v := range *x {
+				result = append(result, []byte(strconv.FormatUint(uint64(v), 10)))
+			}
+			return bytes.Join(result, []byte(" ")), nil
+		`)
+		unmarshalFn = unmarshalFn.Body(`
+			for _, v := range strings.Fields(string(text)) {
+				if i, err := strconv.ParseUint(v, 10, 8); err != nil {
+					return err
+				} else {
+					*x = append(*x, byte(i))
+				}
+			}
+			return nil
+		`)
 	case xsd.Boolean:
 		marshalFn = marshalFn.Body(`
 			result := make([][]byte, 0, len(*x))
-- 
2.43.0


From 19afa2c024479c0bb6396a9e9919e08a8f9c7412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:00 +0000
Subject: [PATCH 24/57] fix: map the xml: built-in types to string

The last types of the table had no entry, so using them was an error.
---
 xsdgen/builtin.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xsdgen/builtin.go b/xsdgen/builtin.go
index 759623f..f148dbb 100644
--- a/xsdgen/builtin.go
+++ b/xsdgen/builtin.go
@@ -7,7 +7,7 @@ import (
 )
 
 func builtinExpr(b xsd.Builtin) ast.Expr {
-	if int(b) > len(builtinTbl) || b < 0 {
+	if int(b) >= len(builtinTbl) || b < 0 {
 		return nil
 	}
 	return builtinTbl[b]
@@ -79,4 +79,8 @@ var builtinTbl = []ast.Expr{
 	xsd.UnsignedInt:        &ast.Ident{Name: "uint"},
 	xsd.UnsignedLong:       &ast.Ident{Name: "uint64"},
 	xsd.UnsignedShort:      &ast.Ident{Name: "uint"},
+	xsd.XMLLang:            &ast.Ident{Name: "string"},
+	xsd.XMLSpace:           &ast.Ident{Name: "string"},
+	xsd.XMLBase:            &ast.Ident{Name: "string"},
+	xsd.XMLId:              &ast.Ident{Name: "string"},
 }
-- 
2.43.0


From 0201623611f10747be915eb8fd376119234f6609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:01 +0000
Subject: [PATCH 25/57] fix: quote default values in generated comments

A default value containing a line break ended the comment and was compiled
as part of the generated method.
---
 xsdgen/xsdgen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 8d753be..a725ca3 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -823,7 +823,7 @@ func (cfg *Config) genComplexTypeMethods(t *xsd.ComplexType, overrides []fieldOv
 			{{range .Overrides}}
 			overlay.{{.FieldName}} = (*{{.ToType}})(&overlay.T.{{.FieldName}})
 			{{if .DefaultValue -}}
-			// overlay.{{.FieldName}} = {{.DefaultValue}}
+			// overlay.{{.FieldName}} = {{.DefaultValue | printf "%q"}}
 			{{end -}}
 			{{end}}
 
-- 
2.43.0


From 9f568fe1d039d26551ac55f229a7ab35fa356e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:58 +0000
Subject: [PATCH 26/57] fix: quote schema names in the struct tags and strings
 of generated code

A namespace or name containing a quote ended the literal it was copied to;
what follows it was compiled as Go source.
---
 internal/gen/gen.go |  1 +
 xsdgen/config.go    |  4 ++--
 xsdgen/xsdgen.go    | 10 +++++-----
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/internal/gen/gen.go b/internal/gen/gen.go
index e0ecd90..ed25a78 100644
--- a/internal/gen/gen.go
+++ b/internal/gen/gen.go
@@ -30,6 +30,7 @@ var genFuncMap = template.FuncMap{
 	"split":    strings.Split,
 	"join":     strings.Join,
 	"sanitize": Sanitize,
+	"quote":    func(s string) string { return String(s).Value },
 }
 
 // TypeDecl generates a type declaration with the given name.
diff --git a/xsdgen/config.go b/xsdgen/config.go
index a2bf601..1eee3f5 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -851,9 +851,9 @@ func (cfg *Config) soapArrayToSlice(s spec) spec {
 				Name: xml.Name{"", "xmlns:ns1"},
 				Value: %[4]q,
 			})
-			output.ArrayType = "ns1:%[5]s[]"
+			output.ArrayType = %[5]q
 			return e.EncodeElement(&output, start)
-		`, itemType, xmltag.Space, xmltag.Local, baseType.Space, baseType.Local).Decl()
+		`, itemType, xmltag.Space, xmltag.Local, baseType.Space, "ns1:"+baseType.Local+"[]").Decl()
 	if err != nil {
 		cfg.logf("error generating MarshalXML method of %s: %v", s.name, err)
 		return s
diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index a725ca3..b46f0b3 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -688,7 +688,7 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 		if el.Nillable || el.Optional {
 			options = ",omitempty"
 		}
-		tag := fmt.Sprintf(`xml:"%s %s%s"`, el.Name.Space, el.Name.Local, options)
+		tag := fmt.Sprintf("xml:%q", el.Name.Space+" "+el.Name.Local+options)
 		base, err := cfg.expr(el.Type)
 		if err != nil {
 			return nil, fmt.Errorf("%s element %s: %v", t.Name.Local, el.Name.Local, err)
@@ -743,9 +743,9 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 		}
 		var tag string
 		if qualified {
-			tag = fmt.Sprintf(`xml:"%s %s,attr%s"`, attr.Name.Space, attr.Name.Local, options)
+			tag = fmt.Sprintf("xml:%q", attr.Name.Space+" "+attr.Name.Local+",attr"+options)
 		} else {
-			tag = fmt.Sprintf(`xml:"%s,attr%s"`, attr.Name.Local, options)
+			tag = fmt.Sprintf("xml:%q", attr.Name.Local+",attr"+options)
 		}
 		base, err := cfg.expr(attr.Type)
 		if err != nil {
@@ -816,7 +816,7 @@ func (cfg *Config) genComplexTypeMethods(t *xsd.ComplexType, overrides []fieldOv
 			var overlay struct{
 				*T
 				{{range .Overrides}}
-				{{.FieldName}} *{{.ToType}} `+"`{{.Tag}}`"+`
+				{{.FieldName}} *{{.ToType}} {{quote .Tag}}
 				{{end}}
 			}
 			overlay.T = (*T)(t)
@@ -856,7 +856,7 @@ func (cfg *Config) genComplexTypeMethods(t *xsd.ComplexType, overrides []fieldOv
 			var layout struct{
 				*T
 				{{- range .Overrides}}
-				{{.FieldName}} *{{.ToType}}`+"`{{.Tag}}`"+`
+				{{.FieldName}} *{{.ToType}} {{quote .Tag}}
 				{{end -}}
 			}
 			layout.T = (*T)(t)
-- 
2.43.0


From 6b9777fc55d5f6788ada3ce87268c9a5f419c1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:00 +0000
Subject: [PATCH 27/57] fix: keep characters that end an identifier out of
 generated names

The name of a type or element was printed as it appears in the schema, so
a name with punctuation could add declarations to the generated source.
---
 internal/gen/gen.go | 12 ++++++++++++
 xsdgen/config.go    |  2 +-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/gen/gen.go b/internal/gen/gen.go
index ed25a78..27dab6c 100644
--- a/internal/gen/gen.go
+++ b/internal/gen/gen.go
@@ -21,6 +21,7 @@ import (
 	"strconv"
 	"strings"
 	"text/template"
+	"unicode"
 
 	"golang.org/x/tools/imports"
 )
@@ -61,6 +62,17 @@ func Sanitize(name string) string {
 	return name
 }
 
+// Ident removes the characters of name that are not allowed in
+// a Go identifier.
+func Ident(name string) string {
+	return strings.Map(func(r rune) rune {
+		if r == '_' || unicode.IsLetter(r) || unicode.IsDigit(r) {
+			return r
+		}
+		return -1
+	}, name)
+}
+
 // ToString converts the expression to a Go source string.
 func ToString(expr ast.Expr) (string, error) {
 	var buf bytes.Buffer
diff --git a/xsdgen/config.go b/xsdgen/config.go
index 1eee3f5..8e2d432 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -474,7 +474,7 @@ func (cfg *Config) public(name xml.Name) string {
 	if cfg.nameTransform != nil {
 		name = cfg.nameTransform(name)
 	}
-	return strings.Title(name.Local)
+	return gen.Ident(strings.Title(name.Local))
 }
 
 //
-- 
2.43.0


From 63c340f8176a332f85218cc71d2bcdd028034eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:26 +0000
Subject: [PATCH 28/57] fix: quote WSDL names in the struct tags and
 identifiers of generated code

Names of messages and parts, and the target namespace, were copied to the
generated source as they appear in the WSDL document.
---
 internal/gen/gen.go |  4 ++++
 wsdlgen/wsdlgen.go  | 30 ++++++++++++++++++------------
 xsdgen/config.go    |  8 ++++----
 3 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/internal/gen/gen.go b/internal/gen/gen.go
index 27dab6c..c57b796 100644
--- a/internal/gen/gen.go
+++ b/internal/gen/gen.go
@@ -7,6 +7,7 @@ package gen // import "aqwari.net/xml/internal/gen"
 import (
 	"bufio"
 	"bytes"
+	"encoding/xml"
 	"errors"
 	"fmt"
 	"go/ast"
@@ -32,6 +33,9 @@ var genFuncMap = template.FuncMap{
 	"join":     strings.Join,
 	"sanitize": Sanitize,
 	"quote":    func(s string) string { return String(s).Value },
+	"tag": func(name xml.Name) string {
+		return String(fmt.Sprintf("xml:%q", name.Space+" "+name.Local)).Value
+	},
 }
 
 // TypeDecl generates a type declaration with the given name.
diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index 2dc8b2d..c85b59b 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -205,12 +205,12 @@ func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
 		Args(args...).
 		BodyTmpl(`
 			var input struct {
-				XMLName struct{} `+"`"+`xml:"{{.MsgName.Space}} {{.MsgName.Local}}"`+"`"+`
+				XMLName struct{} {{tag .MsgName}}
 				Args struct {
 					{{ range .InputFields -}}
-					{{.Name}} {{.Type}} `+"`"+`xml:"{{.XMLName.Space}} {{.XMLName.Local}}"`+"`"+`
+					{{.Name}} {{.Type}} {{tag .XMLName}}
 					{{ end -}}
-				}`+"`xml:\"{{.InputName.Space}} {{.InputName.Local}}\"`"+`
+				} {{tag .InputName}}
 			}
 			
 			{{- range .InputFields }}
@@ -218,12 +218,12 @@ func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
 			{{ end }}
 			
 			var output struct {
-				XMLName struct{} `+"`"+`xml:"{{.MsgName.Space}} {{.MsgName.Local}}"`+"`"+`
+				XMLName struct{} {{tag .MsgName}}
 				Args struct {
 					{{ range .OutputFields -}}
-					{{.Name}} {{.Type}} `+"`"+`xml:"{{.XMLName.Space}} {{.XMLName.Local}}"`+"`"+`
+					{{.Name}} {{.Type}} {{tag .XMLName}}
 					{{ end -}}
-				}`+"`xml:\"{{.OutputName.Space}} {{.OutputName.Local}}\"`"+`
+				} {{tag .OutputName}}
 			}
 			
 			err := c.do(ctx, {{.Method|printf "%q"}}, {{.Address|printf "%q"}}, {{.SOAPAction|printf "%q"}}, &input, &output)
@@ -265,6 +265,12 @@ func exposeType(typ string) string {
 	return typ
 }
 
+// publicName turns a name from the WSDL document into an exported
+// Go identifier.
+func publicName(name string) string {
+	return gen.Ident(strings.Title(name))
+}
+
 func (p *printer) getPartType(part wsdl.Part) (string, error) {
 	if part.Type.Local != "" {
 		return p.code.NameOf(part.Type), nil
@@ -297,13 +303,13 @@ func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output w
 			return args, err
 		}
 		inputType := exposeType(typ)
-		vname := gen.Sanitize(part.Name)
+		vname := gen.Sanitize(gen.Ident(part.Name))
 		if vname == typ {
 			vname += "_"
 		}
 		args.input = append(args.input, vname+" "+inputType)
 		args.InputFields = append(args.InputFields, field{
-			Name:       strings.Title(part.Name),
+			Name:       publicName(part.Name),
 			Type:       typ,
 			PublicType: exposeType(typ),
 			XMLName:    xml.Name{p.wsdl.TargetNS, part.Name},
@@ -311,10 +317,10 @@ func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output w
 		})
 	}
 	if len(args.input) > p.maxArgs {
-		args.InputType = strings.Title(args.InputName.Local)
+		args.InputType = publicName(args.InputName.Local)
 		args.input = []string{"v " + args.InputName.Local}
 		for i, v := range input.Parts {
-			args.InputFields[i].InputArg = "v." + strings.Title(v.Name)
+			args.InputFields[i].InputArg = "v." + publicName(v.Name)
 		}
 	}
 	args.OutputName = output.Name
@@ -326,13 +332,13 @@ func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output w
 		outputType := exposeType(typ)
 		args.output = append(args.output, outputType)
 		args.OutputFields = append(args.OutputFields, field{
-			Name:    strings.Title(part.Name),
+			Name:    publicName(part.Name),
 			Type:    typ,
 			XMLName: xml.Name{p.wsdl.TargetNS, part.Name},
 		})
 	}
 	if len(args.output) > p.maxReturns {
-		args.ReturnType = strings.Title(args.OutputName.Local)
+		args.ReturnType = publicName(args.OutputName.Local)
 		args.ReturnFields = make([]field, len(args.OutputFields))
 		for i, v := range args.OutputFields {
 			args.ReturnFields[i] = field{
diff --git a/xsdgen/config.go b/xsdgen/config.go
index 8e2d432..7a73aa0 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -844,16 +844,16 @@ func (cfg *Config) soapArrayToSlice(s spec) spec {
 		Body(`
 			var output struct {
 				ArrayType string `+"`xml:\"http://schemas.xmlsoap.org/wsdl/ arrayType,attr\"`"+`
-				Items []%[1]s `+"`xml:\"%[2]s %[3]s\"`"+`
+				Items []%[1]s %[2]s
 			}
 			output.Items = []%[1]s(a)
 			start.Attr = append(start.Attr, xml.Attr {
 				Name: xml.Name{"", "xmlns:ns1"},
-				Value: %[4]q,
+				Value: %[3]q,
 			})
-			output.ArrayType = %[5]q
+			output.ArrayType = %[4]q
 			return e.EncodeElement(&output, start)
-		`, itemType, xmltag.Space, xmltag.Local, baseType.Space, "ns1:"+baseType.Local+"[]").Decl()
+		`, itemType, gen.String(fmt.Sprintf("xml:%q", xmltag.Space+" "+xmltag.Local)).Value, baseType.Space, "ns1:"+baseType.Local+"[]").Decl()
 	if err != nil {
 		cfg.logf("error generating MarshalXML method of %s: %v", s.name, err)
 		return s
-- 
2.43.0


From 5aed8f8a058b6dc31a308268fbfbf68f62568b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:46 +0000
Subject: [PATCH 29/57] fix: placeholders for types that have no Go name are
 valid identifiers

---
 xsdgen/xsdgen.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index b46f0b3..a467449 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -99,7 +99,7 @@ func (c *Code) NameOf(name xml.Name) string {
 	if b, err := xsd.ParseBuiltin(name); err == nil {
 		s, err := gen.ToString(builtinExpr(b))
 		if err != nil {
-			return "ERROR" + name.Local
+			return "ERROR" + gen.Ident(name.Local)
 		}
 		c.names[name] = s
 		return s
@@ -107,7 +107,7 @@ func (c *Code) NameOf(name xml.Name) string {
 
 	t, ok := c.types[name]
 	if !ok {
-		return "NOTFOUND" + name.Local
+		return "NOTFOUND" + gen.Ident(name.Local)
 	}
 
 	switch b := c.cfg.flatten1(t, func(xsd.Type) {}, make(map[xsd.Type]bool)).(type) {
@@ -118,7 +118,7 @@ func (c *Code) NameOf(name xml.Name) string {
 	specs, err := c.cfg.genTypeSpec(t)
 	if err != nil {
 		c.cfg.logf("error generating type for %s: %s", name.Local, err)
-		return "ERROR" + name.Local
+		return "ERROR" + gen.Ident(name.Local)
 	}
 
 	// memoize them for later
@@ -128,7 +128,7 @@ func (c *Code) NameOf(name xml.Name) string {
 	if s, ok := c.names[name]; ok {
 		return s
 	}
-	return "NOTFOUND" + name.Local
+	return "NOTFOUND" + gen.Ident(name.Local)
 }
 
 func (cfg *Config) gen(primaries, deps []xsd.Schema) (*Code, error) {
-- 
2.43.0


From 7965e8f6c54538eed84e48f1a87cf14d75c01283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:48 +0000
Subject: [PATCH 30/57] fix: OnlyPorts limits code generation to the chosen
 ports

The filter was never consulted, and reverting the option rejected all ports
instead of restoring the previous choice.
---
 wsdlgen/config.go  | 21 +++++++++++++--------
 wsdlgen/wsdlgen.go |  3 +++
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/wsdlgen/config.go b/wsdlgen/config.go
index d05bf2c..1fe2ebc 100644
--- a/wsdlgen/config.go
+++ b/wsdlgen/config.go
@@ -68,16 +68,21 @@ var DefaultOptions = []Option{
 // code for. Any other ports will not have types or methods present in
 // the generated output.
 func OnlyPorts(ports ...string) Option {
-	return func(cfg *Config) Option {
-		cfg.portFilter = func(p wsdl.Port) bool {
-			for _, name := range ports {
-				if name == p.Name {
-					return true
-				}
+	return replacePortFilter(func(p wsdl.Port) bool {
+		for _, name := range ports {
+			if name == p.Name {
+				return true
 			}
-			return false
 		}
-		return OnlyPorts()
+		return false
+	})
+}
+
+func replacePortFilter(fn func(wsdl.Port) bool) Option {
+	return func(cfg *Config) Option {
+		prev := cfg.portFilter
+		cfg.portFilter = fn
+		return replacePortFilter(prev)
 	}
 }
 
diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index c85b59b..eff548a 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -142,6 +142,9 @@ func (cfg *Config) genAST(def *wsdl.Definition, code *xsdgen.Code) (*ast.File, e
 func (p *printer) genAST() (*ast.File, error) {
 	p.addHelpers()
 	for _, port := range p.wsdl.Ports {
+		if p.portFilter != nil && !p.portFilter(port) {
+			continue
+		}
 		if err := p.port(port); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 20b9df244a643e4a854f9b06b632713f51ebff06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:17 +0000
Subject: [PATCH 31/57] fix: operations above the output threshold return the
 wrapper struct

The generated method declared the wrapper struct as its result but returned
the individual values, which did not compile.
---
 wsdlgen/wsdlgen.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index eff548a..008a559 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -231,14 +231,14 @@ func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
 			
 			err := c.do(ctx, {{.Method|printf "%q"}}, {{.Address|printf "%q"}}, {{.SOAPAction|printf "%q"}}, &input, &output)
 			
-			{{ if .OutputFields -}}
-			return {{ range .OutputFields }}{{.Type}}(output.Args.{{.Name}}), {{ end }} err
-			{{- else if .ReturnType -}}
+			{{ if .ReturnType -}}
 			var result {{ .ReturnType }}
 			{{ range .ReturnFields -}}
 			result.{{.Name}} = {{.Type}}(output.Args.{{.InputArg}})
 			{{ end -}}
 			return result, err
+			{{- else if .OutputFields -}}
+			return {{ range .OutputFields }}{{.Type}}(output.Args.{{.Name}}), {{ end }} err
 			{{- else -}}
 			return err
 			{{- end -}}
-- 
2.43.0


From 1101cad4bd911771513138e9e021be4ef96d5baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:19 +0000
Subject: [PATCH 32/57] fix: operations above the input threshold take the
 declared wrapper struct

The parameter used the name of the message, the type is declared with its
exported form.
---
 wsdlgen/wsdlgen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index 008a559..030953b 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -321,7 +321,7 @@ func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output w
 	}
 	if len(args.input) > p.maxArgs {
 		args.InputType = publicName(args.InputName.Local)
-		args.input = []string{"v " + args.InputName.Local}
+		args.input = []string{"v " + args.InputType}
 		for i, v := range input.Parts {
 			args.InputFields[i].InputArg = "v." + publicName(v.Name)
 		}
-- 
2.43.0


From c85e85e3802e0b7cb6c91f0f2ea1a526b1559290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:20 +0000
Subject: [PATCH 33/57] fix: reverting the wsdlgen log options restores the
 xsdgen ones too

---
 wsdlgen/config.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/wsdlgen/config.go b/wsdlgen/config.go
index 1fe2ebc..ed7452b 100644
--- a/wsdlgen/config.go
+++ b/wsdlgen/config.go
@@ -112,8 +112,12 @@ func LogLevel(level int) Option {
 	return func(cfg *Config) Option {
 		prev := cfg.loglevel
 		cfg.loglevel = level
-		cfg.xsdgen.Option(xsdgen.LogLevel(level))
-		return LogLevel(prev)
+		xsdprev := cfg.xsdgen.Option(xsdgen.LogLevel(level))
+		return func(cfg *Config) Option {
+			redo := LogLevel(prev)(cfg)
+			cfg.xsdgen.Option(xsdprev)
+			return redo
+		}
 	}
 }
 
@@ -123,8 +127,12 @@ func LogOutput(dest Logger) Option {
 	return func(cfg *Config) Option {
 		prev := cfg.logger
 		cfg.logger = dest
-		cfg.xsdgen.Option(xsdgen.LogOutput(dest))
-		return LogOutput(prev)
+		xsdprev := cfg.xsdgen.Option(xsdgen.LogOutput(dest))
+		return func(cfg *Config) Option {
+			redo := LogOutput(prev)(cfg)
+			cfg.xsdgen.Option(xsdprev)
+			return redo
+		}
 	}
 }
 
-- 
2.43.0


From a122a83c0c5290cbc48680a0b7393e9bc3b81482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:22 +0000
Subject: [PATCH 34/57] fix: reverting AllowType restores the previous set of
 types

Reverting the only AllowType left an empty set, so no types were generated;
reverting a repeated AllowType also reverted the first.
---
 xsdgen/config.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/xsdgen/config.go b/xsdgen/config.go
index 7a73aa0..780c466 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -199,14 +199,19 @@ func OnlyTypes(patterns ...string) Option {
 // dependent types, will be generated.
 func AllowType(name xml.Name) Option {
 	return func(cfg *Config) Option {
-		if cfg.allowTypes == nil {
-			cfg.allowTypes = make(map[xml.Name]bool)
-		}
-		cfg.allowTypes[name] = true
-		return func(cfg *Config) Option {
-			delete(cfg.allowTypes, name)
-			return AllowType(name)
+		allow := map[xml.Name]bool{name: true}
+		for k, v := range cfg.allowTypes {
+			allow[k] = v
 		}
+		return replaceAllowTypes(allow)(cfg)
+	}
+}
+
+func replaceAllowTypes(types map[xml.Name]bool) Option {
+	return func(cfg *Config) Option {
+		prev := cfg.allowTypes
+		cfg.allowTypes = types
+		return replaceAllowTypes(prev)
 	}
 }
 
-- 
2.43.0


From 82c227b451d576050697fb9d3739c91f11efa6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:08 +0000
Subject: [PATCH 35/57] fix: generate the same source every time

Types were processed in map iteration order. When two of them ended up with
the same name, as anonymous types named after their element do, the one
that was kept varied between runs.
---
 xsdgen/xsdgen.go | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index a467449..e0daf90 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -29,6 +29,22 @@ func rangeMap(m orderedStringMap, fn func(string)) {
 	}
 }
 
+// sortedNames returns the names of types, in an order that depends on
+// nothing else.
+func sortedNames(types map[xml.Name]xsd.Type) []xml.Name {
+	names := make([]xml.Name, 0, len(types))
+	for name := range types {
+		names = append(names, name)
+	}
+	sort.Slice(names, func(i, j int) bool {
+		if names[i].Space != names[j].Space {
+			return names[i].Space < names[j].Space
+		}
+		return names[i].Local < names[j].Local
+	})
+	return names
+}
+
 type errorList []error
 
 func (l errorList) Error() string {
@@ -160,8 +176,8 @@ func (cfg *Config) gen(primaries, deps []xsd.Schema) (*Code, error) {
 			prev := primary.Types
 			primary.Types = all
 
-			for name, t := range prev {
-				if t := cfg.preprocessType(primary, t); t != nil {
+			for _, name := range sortedNames(prev) {
+				if t := cfg.preprocessType(primary, prev[name]); t != nil {
 					prev[name] = t
 				}
 			}
@@ -196,12 +212,13 @@ func (cfg *Config) gen(primaries, deps []xsd.Schema) (*Code, error) {
 
 	if cfg.postprocessType != nil {
 		cfg.debugf("running user-defined post-processing functions")
-		for name, s := range code.decls {
-			code.decls[name] = cfg.postprocessType(s)
-		}
+		rangeMap(code.decls, func(name string) {
+			code.decls[name] = cfg.postprocessType(code.decls[name])
+		})
 	}
 
-	for t, s := range code.decls {
+	rangeMap(code.decls, func(t string) {
+		s := code.decls[t]
 		cfg.debugf("processing dependencies for type %v", t)
 		for _, dep := range s.helperTypes {
 			if h, ok := cfg.helperTypes[dep]; ok {
@@ -209,7 +226,7 @@ func (cfg *Config) gen(primaries, deps []xsd.Schema) (*Code, error) {
 				delete(cfg.helperTypes, dep)
 			}
 		}
-	}
+	})
 	rangeMap(code.decls, func(t string) {
 		s := code.decls[t]
 		for _, dep := range s.helperFuncs {
@@ -372,7 +389,8 @@ func (cfg *Config) flatten(types map[xml.Name]xsd.Type) []xsd.Type {
 		result = append(result, t)
 	}
 	seen := make(map[xsd.Type]bool)
-	for _, t := range types {
+	for _, name := range sortedNames(types) {
+		t := types[name]
 		if xsd.XMLName(t).Local == "_self" {
 			continue
 		}
-- 
2.43.0


From dbee9903ab07b475321b3f0326cd6c828c12d8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:10 +0000
Subject: [PATCH 36/57] fix: FindType returns the same type every time

When several types carry the same name, the one returned depended on map
iteration order, and so did the source generated for SOAP arrays of it.
---
 xsd/xsd.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/xsd/xsd.go b/xsd/xsd.go
index fc09481..6b0360d 100644
--- a/xsd/xsd.go
+++ b/xsd/xsd.go
@@ -19,6 +19,7 @@ import (
 	"fmt"
 	"io"
 	"regexp"
+	"sort"
 	"time"
 
 	"aqwari.net/xml/xmltree"
@@ -115,8 +116,18 @@ type Schema struct {
 // a Schema's top-level types are derived from. FindType will return nil if
 // a type could not be found with the given name.
 func (s *Schema) FindType(name xml.Name) Type {
-	for _, t := range s.Types {
-		if t := findType(t, name); t != nil {
+	names := make([]xml.Name, 0, len(s.Types))
+	for k := range s.Types {
+		names = append(names, k)
+	}
+	sort.Slice(names, func(i, j int) bool {
+		if names[i].Space != names[j].Space {
+			return names[i].Space < names[j].Space
+		}
+		return names[i].Local < names[j].Local
+	})
+	for _, k := range names {
+		if t := findType(s.Types[k], name); t != nil {
 			return t
 		}
 	}
-- 
2.43.0


From c3450542413d45fd80955ea68deadbb4d43a16c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:20 +0000
Subject: [PATCH 37/57] fix: use the soapAction of SOAP 1.2 bindings

Ports with a SOAP 1.2 address were recognised, but the action of their
operations was left empty.
---
 wsdl/wsdl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wsdl/wsdl.go b/wsdl/wsdl.go
index 0f5de91..4e6b78e 100644
--- a/wsdl/wsdl.go
+++ b/wsdl/wsdl.go
@@ -188,6 +188,9 @@ func parseOperations(targetNS string, root, port *xmltree.Element) []Operation {
 					for _, soapOp := range el.Search(soapNS, "operation") {
 						oper.SOAPAction = soapOp.Attr("", "soapAction")
 					}
+					for _, soapOp := range el.Search(soap12NS, "operation") {
+						oper.SOAPAction = soapOp.Attr("", "soapAction")
+					}
 				}
 				ops = append(ops, oper)
 			}
-- 
2.43.0


From 0a33925603c48cb82e0dba45e883a5ec122fbc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:25 +0000
Subject: [PATCH 38/57] fix: SOAP arrays derived from a type without attributes
 must not panic

---
 xsdgen/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsdgen/config.go b/xsdgen/config.go
index 780c466..909949e 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -546,7 +546,7 @@ func (cfg *Config) parseSOAPArrayType(s xsd.Schema, t xsd.Type) xsd.Type {
 		return c
 	}
 	base := *basep
-	base.Attributes = make([]xsd.Attribute, 0, len(basep.Attributes)-1)
+	base.Attributes = make([]xsd.Attribute, 0, len(basep.Attributes))
 	for _, v := range basep.Attributes {
 		if v.Name.Local != "arrayType" {
 			base.Attributes = append(base.Attributes, v)
-- 
2.43.0


From 1bef20e147f183f7f9535de88843f8c2c82611ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:38 +0000
Subject: [PATCH 39/57] fix: TagKey returns the tag of fields that have one

---
 internal/gen/gen.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/gen/gen.go b/internal/gen/gen.go
index c57b796..82dc0bf 100644
--- a/internal/gen/gen.go
+++ b/internal/gen/gen.go
@@ -435,10 +435,14 @@ func ExprString(expr ast.Expr) string {
 // TagKey gets the struct tag item with the
 // given key.
 func TagKey(field *ast.Field, key string) string {
-	if field.Tag != nil {
+	if field.Tag == nil {
 		return ""
 	}
-	return reflect.StructTag(field.Tag.Value).Get(key)
+	tag, err := strconv.Unquote(field.Tag.Value)
+	if err != nil {
+		return ""
+	}
+	return reflect.StructTag(tag).Get(key)
 }
 
 // FormattedSource converts an abstract syntax tree to
-- 
2.43.0


From 8ba54cb39a6b901e77be765231463002abbc0176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:02 +0000
Subject: [PATCH 40/57] fix: UseFieldNames must not give two types the same
 name

---
 xsdgen/config.go | 45 ++++++++++++++++++---------------------------
 1 file changed, 18 insertions(+), 27 deletions(-)

diff --git a/xsdgen/config.go b/xsdgen/config.go
index 909949e..55c0193 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -319,40 +319,31 @@ func useFieldNames(s xsd.Schema, t xsd.Type) xsd.Type {
 	if !ok {
 		return t
 	}
-	for _, el := range c.Elements {
-		switch base := el.Type.(type) {
+	// Different types must not end up with the same name.
+	rename := func(t xsd.Type, name xml.Name) {
+		if _, inuse := used[name]; inuse {
+			return
+		}
+		switch t := t.(type) {
 		case *xsd.SimpleType:
-			if !base.Anonymous {
-				break
+			if t.Anonymous {
+				t.Name = name
+				t.Anonymous = false
+				used[name] = struct{}{}
 			}
-			base.Name = el.Name
-			base.Anonymous = false
 		case *xsd.ComplexType:
-			if !base.Anonymous {
-				break
-			}
-			if _, inuse := used[el.Name]; inuse {
-				break
+			if t.Anonymous {
+				t.Name = name
+				t.Anonymous = false
+				used[name] = struct{}{}
 			}
-			base.Name = el.Name
-			base.Anonymous = false
 		}
 	}
+	for _, el := range c.Elements {
+		rename(el.Type, el.Name)
+	}
 	for _, attr := range c.Attributes {
-		switch base := attr.Type.(type) {
-		case *xsd.SimpleType:
-			if !base.Anonymous {
-				break
-			}
-			base.Name = attr.Name
-			base.Anonymous = false
-		case *xsd.ComplexType:
-			if !base.Anonymous {
-				break
-			}
-			base.Name = attr.Name
-			base.Anonymous = false
-		}
+		rename(attr.Type, attr.Name)
 	}
 	return t
 }
-- 
2.43.0


From 2151918408a4504d86aa1d0e462701c36909761a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:33 +0000
Subject: [PATCH 41/57] fix: documents that declare different types of one name
 must not panic

---
 xsdgen/xsdgen.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index e0daf90..a826a39 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -321,7 +321,11 @@ func (cfg *Config) expandComplexTypes(types []xsd.Type) []xsd.Type {
 	}
 
 	graph.Flatten(func(i int) {
-		c := alltypes[i].(*xsd.ComplexType)
+		c, ok := alltypes[i].(*xsd.ComplexType)
+		if !ok {
+			// Another document declares a type of this name.
+			return
+		}
 		b, ok := c.Base.(*xsd.ComplexType)
 		if !ok {
 			return
-- 
2.43.0


From 9094993d493ff479b65b653469fa29fbb8ea2e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:02 +0000
Subject: [PATCH 42/57] fix: generating code does not change the configured
 namespaces

---
 xsdgen/cli.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/xsdgen/cli.go b/xsdgen/cli.go
index 52a737a..a134bfa 100644
--- a/xsdgen/cli.go
+++ b/xsdgen/cli.go
@@ -17,29 +17,32 @@ import (
 // data. If succesful, the returned *Code value can be used to
 // lookup identifiers and generate Go code.
 func (cfg *Config) GenCode(data ...[]byte) (*Code, error) {
-	if len(cfg.namespaces) == 0 {
-		cfg.Option(Namespaces(lookupTargetNS(data...)...))
-		cfg.debugf("setting namespaces to %q", cfg.namespaces)
+	// Namespaces found in one set of documents must not become an option
+	// of those that follow.
+	namespaces := cfg.namespaces
+	if len(namespaces) == 0 {
+		namespaces = lookupTargetNS(data...)
+		cfg.debugf("setting namespaces to %q", namespaces)
 	}
 	deps, err := xsd.Parse(data...)
 	if err != nil {
 		return nil, err
 	}
-	primaries := make([]xsd.Schema, 0, len(cfg.namespaces))
+	primaries := make([]xsd.Schema, 0, len(namespaces))
 	for _, s := range deps {
-		for _, ns := range cfg.namespaces {
+		for _, ns := range namespaces {
 			if s.TargetNS == ns {
 				primaries = append(primaries, s)
 				break
 			}
 		}
 	}
-	missing := make([]string, 0, len(cfg.namespaces))
+	missing := make([]string, 0, len(namespaces))
 	have := make(map[string]bool)
 	for _, schema := range primaries {
 		have[schema.TargetNS] = true
 	}
-	for _, ns := range cfg.namespaces {
+	for _, ns := range namespaces {
 		if !have[ns] {
 			missing = append(missing, ns)
 		}
-- 
2.43.0


From fbe723845a988f87dda86d2a749c4ae610827a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:58 +0000
Subject: [PATCH 43/57] fix: report message parts whose type has no Go name

---
 wsdlgen/wsdlgen.go |  4 ++--
 xsdgen/xsdgen.go   | 31 +++++++++++++++++++++----------
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index 030953b..7c2f0b6 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -276,7 +276,7 @@ func publicName(name string) string {
 
 func (p *printer) getPartType(part wsdl.Part) (string, error) {
 	if part.Type.Local != "" {
-		return p.code.NameOf(part.Type), nil
+		return p.code.LookupName(part.Type)
 	}
 	if part.Element.Local != "" {
 		doc, ok := p.code.DocType(part.Element.Space)
@@ -286,7 +286,7 @@ func (p *printer) getPartType(part wsdl.Part) (string, error) {
 		}
 		for _, el := range doc.Elements {
 			if el.Name == part.Element {
-				return p.code.NameOf(xsd.XMLName(el.Type)), nil
+				return p.code.LookupName(xsd.XMLName(el.Type))
 			}
 		}
 	}
diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index a826a39..56859ad 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -104,37 +104,48 @@ func (c *Code) DocType(targetNS string) (*xsd.ComplexType, bool) {
 }
 
 // NameOf returns the Go identifier associated with the canonical
-// XML type.
+// XML type. If there is none, a placeholder is returned; use the
+// LookupName method to detect this.
 func (c *Code) NameOf(name xml.Name) string {
+	id, err := c.LookupName(name)
+	if err != nil {
+		c.cfg.logf("%v", err)
+		return "NOTFOUND" + gen.Ident(name.Local)
+	}
+	return id
+}
+
+// LookupName is like NameOf, but returns an error if there is no Go
+// identifier for the canonical XML type.
+func (c *Code) LookupName(name xml.Name) (string, error) {
 	c.cfg.debugf("looking up Go name for %v", name)
 	if id, ok := c.names[name]; ok {
 		c.cfg.debugf("%v -> %s", name, id)
-		return id
+		return id, nil
 	}
 
 	if b, err := xsd.ParseBuiltin(name); err == nil {
 		s, err := gen.ToString(builtinExpr(b))
 		if err != nil {
-			return "ERROR" + gen.Ident(name.Local)
+			return "", err
 		}
 		c.names[name] = s
-		return s
+		return s, nil
 	}
 
 	t, ok := c.types[name]
 	if !ok {
-		return "NOTFOUND" + gen.Ident(name.Local)
+		return "", fmt.Errorf("could not find type %s in namespace %s", name.Local, name.Space)
 	}
 
 	switch b := c.cfg.flatten1(t, func(xsd.Type) {}, make(map[xsd.Type]bool)).(type) {
 	case xsd.Builtin:
-		return c.NameOf(b.Name())
+		return c.LookupName(b.Name())
 	}
 
 	specs, err := c.cfg.genTypeSpec(t)
 	if err != nil {
-		c.cfg.logf("error generating type for %s: %s", name.Local, err)
-		return "ERROR" + gen.Ident(name.Local)
+		return "", fmt.Errorf("error generating type for %s: %v", name.Local, err)
 	}
 
 	// memoize them for later
@@ -142,9 +153,9 @@ func (c *Code) NameOf(name xml.Name) string {
 		c.names[xsd.XMLName(s.xsdType)] = s.name
 	}
 	if s, ok := c.names[name]; ok {
-		return s
+		return s, nil
 	}
-	return "NOTFOUND" + gen.Ident(name.Local)
+	return "", fmt.Errorf("no code was generated for type %s in namespace %s", name.Local, name.Space)
 }
 
 func (cfg *Config) gen(primaries, deps []xsd.Schema) (*Code, error) {
-- 
2.43.0


From 382241b17fb5e2eaae7152b283e971137a9f5d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:41 +0000
Subject: [PATCH 44/57] fix: the schema of built-in types lacks unsignedShort
 and anySimpleType

---
 xsd/standard-schema.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/xsd/standard-schema.go b/xsd/standard-schema.go
index 1955850..0746489 100644
--- a/xsd/standard-schema.go
+++ b/xsd/standard-schema.go
@@ -1416,8 +1416,10 @@ var builtinSchema = Schema{
 }
 
 func init() {
-	builtinSchema.Types = make(map[xml.Name]Type, int(UnsignedShort))
-	for i := AnyType; i < UnsignedShort; i++ {
-		builtinSchema.Types[i.Name()] = i
+	builtinSchema.Types = make(map[xml.Name]Type, int(AnySimpleType)+1)
+	for i := AnyType; i <= AnySimpleType; i++ {
+		if name := i.Name(); name.Space == schemaNS {
+			builtinSchema.Types[name] = i
+		}
 	}
 }
-- 
2.43.0


From 6d31c89fccefcbfc639dd1ebcfb7d22f087d4715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:43 +0000
Subject: [PATCH 45/57] fix: calls to Parse return the same schema of built-in
 types

---
 xsd/parse.go           |  2 +-
 xsd/standard-schema.go | 13 ++++++-------
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index da0b634..fe88663 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -184,7 +184,7 @@ func Parse(docs ...[]byte) ([]Schema, error) {
 		s.propagateMixedAttr()
 		result = append(result, s)
 	}
-	result = append(result, builtinSchema)
+	result = append(result, builtinSchema())
 	return result, nil
 }
 
diff --git a/xsd/standard-schema.go b/xsd/standard-schema.go
index 0746489..d4b7b7c 100644
--- a/xsd/standard-schema.go
+++ b/xsd/standard-schema.go
@@ -1411,15 +1411,14 @@ constructs, e.g.
 </xs:schema>
 `)
 
-var builtinSchema = Schema{
-	TargetNS: schemaNS,
-}
-
-func init() {
-	builtinSchema.Types = make(map[xml.Name]Type, int(AnySimpleType)+1)
+// builtinSchema returns a new Schema containing the built-in types. It is
+// never shared, as the caller may change it.
+func builtinSchema() Schema {
+	types := make(map[xml.Name]Type, int(AnySimpleType)+1)
 	for i := AnyType; i <= AnySimpleType; i++ {
 		if name := i.Name(); name.Space == schemaNS {
-			builtinSchema.Types[name] = i
+			types[name] = i
 		}
 	}
+	return Schema{TargetNS: schemaNS, Types: types}
 }
-- 
2.43.0


From 1af15f964c799c19b9da040ddaee0dbb074edcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:15 +0000
Subject: [PATCH 46/57] fix: generating code does not fix the default package
 name and comment

---
 wsdlgen/wsdlgen.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index 7c2f0b6..4a196b0 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -91,12 +91,6 @@ func (cfg *Config) GenAST(files ...string) (*ast.File, error) {
 	if len(files) == 0 {
 		return nil, errors.New("must provide at least one file name")
 	}
-	if cfg.pkgName == "" {
-		cfg.pkgName = "ws"
-	}
-	if cfg.pkgHeader == "" {
-		cfg.pkgHeader = fmt.Sprintf("Package %s", cfg.pkgName)
-	}
 	docs := make([][]byte, 0, len(files))
 	for _, filename := range files {
 		if data, err := ioutil.ReadFile(filename); err != nil {
@@ -128,8 +122,15 @@ func (cfg *Config) genAST(def *wsdl.Definition, code *xsdgen.Code) (*ast.File, e
 	if err != nil {
 		return nil, err
 	}
-	file.Name = ast.NewIdent(cfg.pkgName)
-	file = gen.PackageDoc(file, cfg.pkgHeader, "\n", def.Doc)
+	pkgName, pkgHeader := cfg.pkgName, cfg.pkgHeader
+	if pkgName == "" {
+		pkgName = "ws"
+	}
+	if pkgHeader == "" {
+		pkgHeader = fmt.Sprintf("Package %s", pkgName)
+	}
+	file.Name = ast.NewIdent(pkgName)
+	file = gen.PackageDoc(file, pkgHeader, "\n", def.Doc)
 	p := &printer{
 		Config: cfg,
 		wsdl:   def,
-- 
2.43.0


From 916f8cceaa9d7ac8925d3e38d9ad7fba1fe9bbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:21 +0000
Subject: [PATCH 47/57] fix: do not take prefixed attributes named xmlns for
 namespace declarations

---
 xmltree/compare.go | 4 ++--
 xmltree/xmltree.go | 8 +++++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/xmltree/compare.go b/xmltree/compare.go
index e5bde8d..6cf5642 100644
--- a/xmltree/compare.go
+++ b/xmltree/compare.go
@@ -51,7 +51,7 @@ func equalElement(a, b *Element) bool {
 	}
 
 	for _, a := range b.StartElement.Attr {
-		if a.Name.Space == "xmlns" || a.Name.Local == "xmlns" {
+		if isNSDecl(a) {
 			continue
 		}
 		if v, ok := attrs[a.Name]; !ok || v != a.Value {
@@ -64,7 +64,7 @@ func equalElement(a, b *Element) bool {
 func attrMap(el *Element) map[xml.Name]string {
 	attrs := make(map[xml.Name]string)
 	for _, a := range el.StartElement.Attr {
-		if a.Name.Space == "xmlns" || a.Name.Local == "xmlns" {
+		if isNSDecl(a) {
 			continue
 		}
 		attrs[a.Name] = a.Value
diff --git a/xmltree/xmltree.go b/xmltree/xmltree.go
index 11fd1cf..8f208cd 100644
--- a/xmltree/xmltree.go
+++ b/xmltree/xmltree.go
@@ -177,13 +177,19 @@ func (scope *Scope) Prefix(name xml.Name) (qname string) {
 	return qname
 }
 
+// isNSDecl reports whether attr declares a namespace. An attribute called
+// xmlns that has a prefix does not.
+func isNSDecl(attr xml.Attr) bool {
+	return attr.Name.Space == "xmlns" || attr.Name.Space == "" && attr.Name.Local == "xmlns"
+}
+
 func (scope *Scope) pushNS(tag xml.StartElement) []xml.Attr {
 	var ns []xml.Name
 	var newAttrs []xml.Attr
 	for _, attr := range tag.Attr {
 		if attr.Name.Space == "xmlns" {
 			ns = append(ns, xml.Name{attr.Value, attr.Name.Local})
-		} else if attr.Name.Local == "xmlns" {
+		} else if isNSDecl(attr) {
 			ns = append(ns, xml.Name{attr.Value, ""})
 		} else {
 			newAttrs = append(newAttrs, attr)
-- 
2.43.0


From ca06a0f457918fa554e8debc70775dbe87b6c7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:17 +0000
Subject: [PATCH 48/57] fix: MarshalIndent ignored its prefix

---
 xmltree/marshal.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xmltree/marshal.go b/xmltree/marshal.go
index 957711b..579c609 100644
--- a/xmltree/marshal.go
+++ b/xmltree/marshal.go
@@ -144,6 +144,9 @@ func diffScope(parent, child *Element) Scope {
 
 func (e *encoder) encodeOpenTag(el *Element, scope Scope, depth int) error {
 	if e.pretty {
+		if _, err := io.WriteString(e.w, e.prefix); err != nil {
+			return err
+		}
 		for i := 0; i < depth; i++ {
 			if _, err := io.WriteString(e.w, e.indent); err != nil {
 				return err
@@ -169,6 +172,11 @@ func (e *encoder) encodeOpenTag(el *Element, scope Scope, depth int) error {
 
 func (e *encoder) encodeCloseTag(el *Element, depth int) error {
 	if e.pretty {
+		if len(el.Children) > 0 {
+			if _, err := io.WriteString(e.w, e.prefix); err != nil {
+				return err
+			}
+		}
 		for i := 0; i < depth; i++ {
 			if len(el.Children) > 0 {
 				if _, err := io.WriteString(e.w, e.indent); err != nil {
-- 
2.43.0


From e823db301893f96f51571a64e6663cb528979d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:30 +0000
Subject: [PATCH 49/57] fix: two fields of a generated struct could have the
 same name

The names of wildcard and character data fields were not reserved, and
numbering gave up after a thousand equal names.
---
 xsdgen/xsdgen.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 56859ad..c9a81b7 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -593,18 +593,16 @@ type nameGenerator struct {
 }
 
 func (gen *nameGenerator) unique(name string) ast.Expr {
-	const maxDupNames = 1000
 	if _, ok := gen.taken[name]; ok {
-		for i := 0; i < maxDupNames; i++ {
+		for i := 0; ; i++ {
 			unique := name + strconv.Itoa(i)
 			if _, ok := gen.taken[unique]; !ok {
 				gen.taken[unique] = struct{}{}
 				return ast.NewIdent(unique)
 			}
 		}
-	} else {
-		gen.taken[name] = struct{}{}
 	}
+	gen.taken[name] = struct{}{}
 	return ast.NewIdent(name)
 }
 
@@ -654,7 +652,7 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 		case *xsd.SimpleType:
 			cfg.debugf("complexType %[1]s extends simpleType %[2]s. Naming"+
 				" the chardata struct field after %[2]s", t.Name.Local, b.Name.Local)
-			fields = append(fields, expr, expr, gen.String(`xml:",chardata"`))
+			fields = append(fields, namegen.unique(cfg.public(b.Name)), expr, gen.String(`xml:",chardata"`))
 		case xsd.Builtin:
 			if b == xsd.AnyType {
 				// extending anyType doesn't really make sense, but
@@ -726,18 +724,20 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 		if err != nil {
 			return nil, fmt.Errorf("%s element %s: %v", t.Name.Local, el.Name.Local, err)
 		}
-		name := namegen.element(el.Name)
+		var name ast.Expr
 		if el.Wildcard {
 			tag = `xml:",any"`
 			if el.Plural {
-				name = ast.NewIdent("Items")
+				name = namegen.unique("Items")
 			} else {
-				name = ast.NewIdent("Item")
+				name = namegen.unique("Item")
 			}
 			if b, ok := el.Type.(xsd.Builtin); ok && b == xsd.AnyType {
 				cfg.debugf("complexType %s: defaulting wildcard element to []string", t.Name.Local)
 				base = builtinExpr(xsd.String)
 			}
+		} else {
+			name = namegen.element(el.Name)
 		}
 		if el.Plural {
 			base = &ast.ArrayType{Elt: base}
-- 
2.43.0


From 1c03e930cf0cc7aeed3867ff6daf123c56479f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:03 +0000
Subject: [PATCH 50/57] fix: methods generated for repeated dates and defaults
 did not compile

Repeated elements of types that need conversion were converted as if they
were single ones, and a type, or a field with a conversion, called T clashed
with the type declared in the methods.
---
 xsdgen/xsdgen.go | 61 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 51 insertions(+), 10 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index c9a81b7..87f4cd5 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -585,6 +585,8 @@ type fieldOverride struct {
 	DefaultValue     string
 	Type             xsd.Type
 	Tag              string
+	// Values of the field must be converted one by one.
+	Plural bool
 }
 
 type nameGenerator struct {
@@ -752,6 +754,8 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 				}
 				helperTypes = append(helperTypes, xsd.XMLName(h.xsdType))
 				typeName = h.name
+			} else if el.Plural {
+				typeName = "[]" + typeName
 			}
 			overrides = append(overrides, fieldOverride{
 				DefaultValue: el.Default,
@@ -760,6 +764,7 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 				Tag:          tag,
 				ToType:       typeName,
 				Type:         el.Type,
+				Plural:       el.Plural && nonTrivialBuiltin(el.Type),
 			})
 		}
 	}
@@ -836,31 +841,61 @@ func (cfg *Config) genComplexTypeMethods(t *xsd.ComplexType, overrides []fieldOv
 	var data struct {
 		Overrides []fieldOverride
 		Type      string
+		// The name of a type without the methods of Type
+		T      string
+		Plural bool
 	}
 	data.Overrides = overrides
 	data.Type = cfg.public(t.Name)
+	for _, v := range overrides {
+		data.Plural = data.Plural || v.Plural
+	}
+	data.T = "T"
+	for clash := true; clash; {
+		clash = data.T == data.Type
+		for _, v := range overrides {
+			if data.T == v.FieldName || data.T == strings.TrimPrefix(v.ToType, "[]") {
+				clash = true
+			}
+		}
+		if clash {
+			data.T += "_"
+		}
+	}
 
 	unmarshal, err = gen.Func("UnmarshalXML").
 		Receiver("t *"+data.Type).
 		Args("d *xml.Decoder", "start xml.StartElement").
 		Returns("error").
 		BodyTmpl(`
-			type T {{.Type}}
+			type {{.T}} {{.Type}}
 			var overlay struct{
-				*T
+				*{{.T}}
 				{{range .Overrides}}
-				{{.FieldName}} *{{.ToType}} {{quote .Tag}}
+				{{.FieldName}} {{if .Plural}}[]{{else}}*{{end}}{{.ToType}} {{quote .Tag}}
 				{{end}}
 			}
-			overlay.T = (*T)(t)
+			overlay.{{.T}} = (*{{.T}})(t)
 			{{range .Overrides}}
-			overlay.{{.FieldName}} = (*{{.ToType}})(&overlay.T.{{.FieldName}})
+			{{if not .Plural -}}
+			overlay.{{.FieldName}} = (*{{.ToType}})(&overlay.{{$.T}}.{{.FieldName}})
+			{{end -}}
 			{{if .DefaultValue -}}
 			// overlay.{{.FieldName}} = {{.DefaultValue | printf "%q"}}
 			{{end -}}
 			{{end}}
 
+			{{if not .Plural -}}
 			return d.DecodeElement(&overlay, &start)
+			{{- else -}}
+			err := d.DecodeElement(&overlay, &start)
+			{{- range .Overrides}}{{if .Plural}}
+			for _, v := range overlay.{{.FieldName}} {
+				overlay.{{$.T}}.{{.FieldName}} = append(overlay.{{$.T}}.{{.FieldName}}, ({{.FromType}})(v))
+			}
+			{{- end}}{{end}}
+			return err
+			{{- end}}
 		`, data).Decl()
 	if err != nil {
 		return nil, nil, err
@@ -885,16 +920,22 @@ func (cfg *Config) genComplexTypeMethods(t *xsd.ComplexType, overrides []fieldOv
 		Args("e *xml.Encoder", "start xml.StartElement").
 		Returns("error").
 		BodyTmpl(`
-			type T {{.Type}}
+			type {{.T}} {{.Type}}
 			var layout struct{
-				*T
+				*{{.T}}
 				{{- range .Overrides}}
-				{{.FieldName}} *{{.ToType}} {{quote .Tag}}
+				{{.FieldName}} {{if .Plural}}[]{{else}}*{{end}}{{.ToType}} {{quote .Tag}}
 				{{end -}}
 			}
-			layout.T = (*T)(t)
+			layout.{{.T}} = (*{{.T}})(t)
 			{{- range .Overrides}}
-			layout.{{.FieldName}} = (*{{.ToType}})(&layout.T.{{.FieldName}})
+			{{if .Plural -}}
+			for _, v := range layout.{{$.T}}.{{.FieldName}} {
+				layout.{{.FieldName}} = append(layout.{{.FieldName}}, ({{.ToType}})(v))
+			}
+			{{else -}}
+			layout.{{.FieldName}} = (*{{.ToType}})(&layout.{{$.T}}.{{.FieldName}})
+			{{end -}}
 			{{end -}}
 
 			return e.EncodeElement(layout, start)
-- 
2.43.0


From 4cb29069d3df493d49bd89c3cfcbc9a8a3ae7b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:03 +0000
Subject: [PATCH 51/57] fix: lists of IDREF and positiveInteger were rejected

---
 xsdgen/xsdgen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 87f4cd5..36468b5 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -1038,7 +1038,7 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 	}
 
 	switch base.(xsd.Builtin) {
-	case xsd.ID, xsd.NCName, xsd.NMTOKEN, xsd.Name, xsd.ENTITY, xsd.AnyURI, xsd.Language, xsd.String, xsd.Token, xsd.XMLLang, xsd.XMLSpace, xsd.XMLBase, xsd.XMLId, xsd.Duration, xsd.NormalizedString, xsd.AnySimpleType:
+	case xsd.ID, xsd.IDREF, xsd.NCName, xsd.NMTOKEN, xsd.Name, xsd.ENTITY, xsd.AnyURI, xsd.Language, xsd.String, xsd.Token, xsd.XMLLang, xsd.XMLSpace, xsd.XMLBase, xsd.XMLId, xsd.Duration, xsd.NormalizedString, xsd.AnySimpleType:
 		marshalFn = marshalFn.Body(`
 			result := make([][]byte, 0, len(*x))
 			for _, v := range *x {
@@ -1116,7 +1116,7 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 			}
 			return nil
 		`)
-	case xsd.Int, xsd.Integer, xsd.NegativeInteger, xsd.NonNegativeInteger, xsd.NonPositiveInteger, xsd.Short:
+	case xsd.Int, xsd.Integer, xsd.NegativeInteger, xsd.NonNegativeInteger, xsd.NonPositiveInteger, xsd.PositiveInteger, xsd.Short:
 		marshalFn = marshalFn.Body(`
 			result := make([][]byte, 0, len(*x))
 			for _, v := range *x {
-- 
2.43.0


From f10128a4c074b6913a2084a1c565bc308e524834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:37 +0000
Subject: [PATCH 52/57] fix: SOAP arrays of dates were declared with two sets
 of methods

---
 xsdgen/config.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xsdgen/config.go b/xsdgen/config.go
index 55c0193..d512014 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -739,6 +739,10 @@ func (cfg *Config) soapArrayToSlice(s spec) spec {
 	if len(str.Fields.List) != 1 {
 		return s
 	}
+	if len(s.methods) > 0 {
+		// The items are converted by methods of the struct.
+		return s
+	}
 	slice, ok := str.Fields.List[0].Type.(*ast.ArrayType)
 	if !ok {
 		return s
-- 
2.43.0


From 3e03f9ac971c4c2c8a2fbaadee4980df3642ac50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:19 +0000
Subject: [PATCH 53/57] fix: parameters of generated functions may hide
 identifiers that the function uses

---
 wsdlgen/wsdlgen.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index 4a196b0..54724d4 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -16,6 +16,7 @@ import (
 	"go/ast"
 	"io/ioutil"
 	"strings"
+	"unicode"
 
 	"aqwari.net/xml/internal/gen"
 	"aqwari.net/xml/wsdl"
@@ -275,6 +276,10 @@ func publicName(name string) string {
 	return gen.Ident(strings.Title(name))
 }
 
+func notInIdent(r rune) bool {
+	return r != '_' && !unicode.IsLetter(r) && !unicode.IsDigit(r)
+}
+
 func (p *printer) getPartType(part wsdl.Part) (string, error) {
 	if part.Type.Local != "" {
 		return p.code.LookupName(part.Type)
@@ -301,6 +306,24 @@ func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output w
 	args.SOAPAction = op.SOAPAction
 	args.MsgName = op.Name
 	args.InputName = input.Name
+
+	// identifiers that the body of the function uses, and that its
+	// parameters must not hide.
+	used := map[string]bool{
+		"c": true, "ctx": true, "err": true,
+		"input": true, "output": true, "result": true,
+	}
+	for _, parts := range [][]wsdl.Part{input.Parts, output.Parts} {
+		for _, part := range parts {
+			typ, err := p.getPartType(part)
+			if err != nil {
+				return args, err
+			}
+			for _, id := range strings.FieldsFunc(typ, notInIdent) {
+				used[id] = true
+			}
+		}
+	}
 	for _, part := range input.Parts {
 		typ, err := p.getPartType(part)
 		if err != nil {
@@ -308,9 +331,10 @@ func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output w
 		}
 		inputType := exposeType(typ)
 		vname := gen.Sanitize(gen.Ident(part.Name))
-		if vname == typ {
+		for used[vname] {
 			vname += "_"
 		}
+		used[vname] = true
 		args.input = append(args.input, vname+" "+inputType)
 		args.InputFields = append(args.InputFields, field{
 			Name:       publicName(part.Name),
-- 
2.43.0


From b51d67b6f1772fa7d6c0123a7ad5d423c4178e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:22 +0000
Subject: [PATCH 54/57] fix: strings with a quote and a carriage return or byte
 order mark were quoted with backticks

---
 internal/gen/gen.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/gen/gen.go b/internal/gen/gen.go
index 82dc0bf..37f2ea7 100644
--- a/internal/gen/gen.go
+++ b/internal/gen/gen.go
@@ -137,9 +137,10 @@ func FieldList(fields ...string) (*ast.FieldList, error) {
 }
 
 // String generates a literal string. If the string contains a double
-// quote, backticks are used for quoting instead.
+// quote, and can be quoted with backticks unchanged, backticks are
+// used for quoting instead.
 func String(s string) *ast.BasicLit {
-	if strings.Contains(s, "\"") && !strings.Contains(s, "`") {
+	if strings.Contains(s, "\"") && strconv.CanBackquote(s) {
 		return &ast.BasicLit{Kind: token.STRING, Value: "`" + s + "`"}
 	}
 	return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(s)}
-- 
2.43.0


From b14312f81f1f167784fe2fc09888fc5c327c7019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:39 +0000
Subject: [PATCH 55/57] fix: references got the default type, and those within
 groups were not resolved

---
 xsd/parse.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index fe88663..3b72e8a 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -377,6 +377,10 @@ func flattenRef(schema []*xmltree.Element) error {
 		depends = new(dependency.Graph)
 		index   = indexSchema(schema)
 	)
+	ids := make(map[*xmltree.Element]int, len(index.eltByID))
+	for id, el := range index.eltByID {
+		ids[el] = id
+	}
 	for id, el := range index.eltByID {
 		if el.Attr("", "ref") == "" {
 			continue
@@ -387,6 +391,13 @@ func flattenRef(schema []*xmltree.Element) error {
 				el.Attr("", "ref"), el)
 		} else {
 			depends.Add(id, dep)
+			// references within the target are copied with it, so they
+			// must be flattened first.
+			for _, sub := range index.eltByID[dep].Flatten() {
+				if sub.Attr("", "ref") != "" {
+					depends.Add(dep, ids[sub])
+				}
+			}
 		}
 	}
 	depends.Flatten(func(id int) {
@@ -597,9 +608,10 @@ func attributeDefaultType(root *xmltree.Element) {
 	var (
 		isAttr    = isElem(schemaNS, "attribute")
 		hasNoType = hasAttrValue("", "type", "")
+		hasNoRef  = hasAttrValue("", "ref", "")
 		anyType   = xml.Name{Space: schemaNS, Local: "anySimpleType"}
 	)
-	for _, el := range root.SearchFunc(and(isAttr, hasNoType)) {
+	for _, el := range root.SearchFunc(and(isAttr, hasNoType, hasNoRef)) {
 		el.SetAttr("", "type", el.Prefix(anyType))
 	}
 }
@@ -613,9 +625,10 @@ func elementDefaultType(root *xmltree.Element) {
 	var (
 		isElement = isElem(schemaNS, "element")
 		hasNoType = hasAttrValue("", "type", "")
+		hasNoRef  = hasAttrValue("", "ref", "")
 		anyType   = xml.Name{Space: schemaNS, Local: "anyType"}
 	)
-	for _, el := range root.SearchFunc(and(isElement, hasNoType)) {
+	for _, el := range root.SearchFunc(and(isElement, hasNoType, hasNoRef)) {
 		el.SetAttr("", "type", el.Prefix(anyType))
 	}
 }
-- 
2.43.0


From 8fe6c8b544e33aa43049371c18e8def115af7bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:57 +0000
Subject: [PATCH 56/57] fix: groups within groups were not unpacked

---
 xsd/parse.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 3b72e8a..9096cad 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -469,7 +469,11 @@ func unpackGroups(doc *xmltree.Element) {
 	isGroup := or(isElem(schemaNS, "group"), isElem(schemaNS, "attributeGroup"))
 	hasGroups := hasChild(isGroup)
 
-	for _, el := range doc.SearchFunc(hasGroups) {
+	// Children of a group are copied to its parent, so groups within
+	// groups must be unpacked first.
+	elts := doc.SearchFunc(hasGroups)
+	for i := len(elts) - 1; i >= 0; i-- {
+		el := elts[i]
 		children := make([]xmltree.Element, 0, len(el.Children))
 		for _, c := range el.Children {
 			if isGroup(&c) {
-- 
2.43.0


From 941faaea9f998cf2e68c3a87299cbb1a6b5f1b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:21 +0000
Subject: [PATCH 57/57] fix: anonymous types were skipped, left in place or
 named twice

---
 xsd/parse.go | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 9096cad..323e4ee 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -229,6 +229,9 @@ func copyEltNamesToAnonTypes(root *xmltree.Element) {
 		hasAttr("", "name"),
 		hasAnonymousType)
 
+	// Adding to root.Children may move the elements that are searched,
+	// so it must wait until they have all been seen.
+	var types []xmltree.Element
 	for _, el := range root.SearchFunc(eltWithAnonType) {
 		// Make sure we can use this element's name
 		xmlname := el.ResolveDefault(el.Attr("", "name"), tns)
@@ -245,10 +248,11 @@ func copyEltNamesToAnonTypes(root *xmltree.Element) {
 
 			el.Children = append(el.Children[:i], el.Children[i+1:]...)
 			el.Content = nil
-			root.Children = append(root.Children, t)
+			types = append(types, t)
 			break
 		}
 	}
+	root.Children = append(root.Children, types...)
 }
 
 // Inside a <xs:choice>, set all children to optional
@@ -307,7 +311,8 @@ func nameAnonymousTypes(root *xmltree.Element, typeCounter *int) error {
 		accum      bool
 	)
 	targetNS := root.Attr("", "targetNamespace")
-	for _, el := range root.SearchFunc(hasAnonymousType) {
+	elts := root.SearchFunc(hasAnonymousType)
+	for _, el := range elts {
 		if el.Name.Space != schemaNS {
 			continue
 		}
@@ -328,10 +333,10 @@ func nameAnonymousTypes(root *xmltree.Element, typeCounter *int) error {
 			return fmt.Errorf("Did not expect <%s> to have an anonymous type",
 				el.Prefix(el.Name))
 		}
-		for i := 0; i < len(el.Children); i++ {
-			t := el.Children[i]
+		for i := range el.Children {
+			t := &el.Children[i]
 
-			if !isAnonymousType(&t) {
+			if !isAnonymousType(t) {
 				continue
 			}
 			*typeCounter++
@@ -345,14 +350,27 @@ func nameAnonymousTypes(root *xmltree.Element, typeCounter *int) error {
 				qname = el.Attr("", updateAttr) + " " + qname
 			}
 			el.SetAttr("", updateAttr, qname)
-			el.Children = append(el.Children[:i], el.Children[i+1:]...)
-			el.Content = nil
-			root.Children = append(root.Children, t)
 			if !accum {
 				break
 			}
 		}
 	}
+	// Removing a type from its parent moves the siblings that follow,
+	// so the types are removed last to first.
+	var types []xmltree.Element
+	for i := len(elts) - 1; i >= 0; i-- {
+		el := elts[i]
+		for j := len(el.Children) - 1; j >= 0; j-- {
+			if t := el.Children[j]; isType(&t) && t.Attr("", "_isAnonymous") == "true" {
+				types = append(types, t)
+				el.Children = append(el.Children[:j], el.Children[j+1:]...)
+				el.Content = nil
+			}
+		}
+	}
+	for i := len(types) - 1; i >= 0; i-- {
+		root.Children = append(root.Children, types[i])
+	}
 	return nil
 }
 
-- 
2.43.0

