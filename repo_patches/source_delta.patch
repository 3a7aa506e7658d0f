From 9f32a2723b186eafb06ad9eca0dfd7e6e12b25fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 01/76] fix: do not overwrite the caller's document bytes when
 replacing or decrypting XFA objects

---
 forms/xfa/xfa_utils.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/forms/xfa/xfa_utils.go b/forms/xfa/xfa_utils.go
index 3881dcc..0714ac5 100644
--- a/forms/xfa/xfa_utils.go
+++ b/forms/xfa/xfa_utils.go
@@ -267,7 +267,8 @@ func findAndDecryptAcroForm(pdfBytes []byte, acroFormObjNum int, encryptInfo *ty
 				decryptedContent = objContent
 			} else {
 				// Reconstruct: object header + decrypted dictionary + "stream" + stream data + "endstream" + "endobj"
-				objectHeader := objContent[:dataStart]
+				// (full slice expression: appending must not write into pdfBytes)
+				objectHeader := objContent[:dataStart:dataStart]
 				streamAndRest := objContent[streamKeywordPos:]
 				decryptedContent = append(objectHeader, decryptedDict...)
 				decryptedContent = append(decryptedContent, streamAndRest...)
@@ -386,7 +387,7 @@ func findAndDecryptAcroForm(pdfBytes []byte, acroFormObjNum int, encryptInfo *ty
 						}
 						decryptedContent = objContent
 					} else {
-						objectHeader := objContent[:dataStart]
+						objectHeader := objContent[:dataStart:dataStart]
 						decryptedContent = append(objectHeader, decryptedData...)
 					}
 				}
@@ -402,7 +403,7 @@ func findAndDecryptAcroForm(pdfBytes []byte, acroFormObjNum int, encryptInfo *ty
 				} else {
 					// Reconstruct: object header (if exists) + decrypted content + "endobj" (if exists)
 					if objKeywordPos != -1 {
-						objectHeader := objContent[:dataStart]
+						objectHeader := objContent[:dataStart:dataStart]
 						decryptedContent = append(objectHeader, decryptedData...)
 						decryptedContent = append(decryptedContent, []byte("endobj")...)
 					} else {
@@ -909,7 +910,11 @@ func ReplaceStreamInPDF(pdfBytes []byte, streamObjNum int, newStream []byte, ver
 	beforeLength := pdfBytes[:lengthStart]
 	betweenLengthAndStream := pdfBytes[lengthEnd:streamStart]
 
-	result := append(beforeLength, []byte(newLength)...)
+	// Build the result in fresh memory: appending to a sub-slice of pdfBytes would
+	// overwrite the caller's document in place.
+	result := make([]byte, 0, len(pdfBytes)+len(newLength)+len(newStream))
+	result = append(result, beforeLength...)
+	result = append(result, newLength...)
 	result = append(result, betweenLengthAndStream...)
 	result = append(result, newStream...)
 	result = append(result, afterStream...)
-- 
2.43.0


From 2e94f30ab151a23162cb1417aba8197f34a68bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 02/76] fix: keep stream entries out of the caller's dictionary
 in AddStreamObject/SetStreamObject

---
 core/write/writer.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/core/write/writer.go b/core/write/writer.go
index cde6981..3805fcd 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -30,6 +30,15 @@ type PDFObject struct {
 // Dictionary represents a PDF dictionary
 type Dictionary map[string]interface{}
 
+// clone returns a shallow copy of the dictionary (never nil)
+func (d Dictionary) clone() Dictionary {
+	c := make(Dictionary, len(d)+2)
+	for k, v := range d {
+		c[k] = v
+	}
+	return c
+}
+
 // PDFWriter builds PDF files from scratch
 type PDFWriter struct {
 	objects         map[int]*PDFObject
@@ -101,6 +110,7 @@ func (w *PDFWriter) AddStreamObject(dict Dictionary, data []byte, compress bool)
 	objNum := w.nextObjNum
 	w.nextObjNum++
 
+	dict = dict.clone() // the entries below must not show up in the caller's dictionary
 	streamData := data
 	if compress && len(data) > 0 {
 		var buf bytes.Buffer
@@ -137,6 +147,7 @@ func (w *PDFWriter) SetObject(objNum int, content []byte) {
 
 // SetStreamObject sets a stream object at a specific number
 func (w *PDFWriter) SetStreamObject(objNum int, dict Dictionary, data []byte, compress bool) {
+	dict = dict.clone() // the entries below must not show up in the caller's dictionary
 	streamData := data
 	if compress && len(data) > 0 {
 		var buf bytes.Buffer
-- 
2.43.0


From 4b22816992550904c00a9f7e7ccff8f4864b9ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 03/76] fix: serialise a snapshot so that Write and Bytes do
 not change the document

---
 core/write/writer.go | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/core/write/writer.go b/core/write/writer.go
index 3805fcd..fdd3f9b 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -30,8 +30,11 @@ type PDFObject struct {
 // Dictionary represents a PDF dictionary
 type Dictionary map[string]interface{}
 
-// clone returns a shallow copy of the dictionary (never nil)
+// clone returns a shallow copy of the dictionary
 func (d Dictionary) clone() Dictionary {
+	if d == nil {
+		return nil
+	}
 	c := make(Dictionary, len(d)+2)
 	for k, v := range d {
 		c[k] = v
@@ -111,6 +114,9 @@ func (w *PDFWriter) AddStreamObject(dict Dictionary, data []byte, compress bool)
 	w.nextObjNum++
 
 	dict = dict.clone() // the entries below must not show up in the caller's dictionary
+	if dict == nil {
+		dict = Dictionary{}
+	}
 	streamData := data
 	if compress && len(data) > 0 {
 		var buf bytes.Buffer
@@ -148,6 +154,9 @@ func (w *PDFWriter) SetObject(objNum int, content []byte) {
 // SetStreamObject sets a stream object at a specific number
 func (w *PDFWriter) SetStreamObject(objNum int, dict Dictionary, data []byte, compress bool) {
 	dict = dict.clone() // the entries below must not show up in the caller's dictionary
+	if dict == nil {
+		dict = Dictionary{}
+	}
 	streamData := data
 	if compress && len(data) > 0 {
 		var buf bytes.Buffer
@@ -264,8 +273,27 @@ func (w *PDFWriter) SetEncryptRef(objNum int) {
 	w.encryptRef = fmt.Sprintf("%d 0 R", objNum)
 }
 
-// Write outputs the complete PDF to the given writer
+// Write outputs the complete PDF to the given writer.
+// It works on a copy of the object table, so writing does not change the document
+// and may be repeated.
 func (w *PDFWriter) Write(out io.Writer) error {
+	return w.snapshot().write(out)
+}
+
+// snapshot returns a copy of the writer that write may modify freely
+func (w *PDFWriter) snapshot() *PDFWriter {
+	c := *w
+	c.objects = make(map[int]*PDFObject, len(w.objects))
+	for num, obj := range w.objects {
+		o := *obj
+		o.Dict = obj.Dict.clone()
+		c.objects[num] = &o
+	}
+	return &c
+}
+
+// write lays out and emits the document; it updates the receiver on the way
+func (w *PDFWriter) write(out io.Writer) error {
 	// Update catalog with outlines before writing
 	if w.outlinesRef != "" {
 		w.updateCatalogWithOutlines()
-- 
2.43.0


From cb1e40348a168995b1ea4318ecbe063bdd244688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 04/76] fix: SimplePDFBuilder.Bytes no longer adds a catalog on
 every call

---
 core/write/page.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/core/write/page.go b/core/write/page.go
index b1e192d..6e972f1 100644
--- a/core/write/page.go
+++ b/core/write/page.go
@@ -164,10 +164,9 @@ func (pb *PageBuilder) Build(pagesObjNum int) int {
 
 // SimplePDFBuilder provides a high-level API for creating simple PDFs
 type SimplePDFBuilder struct {
-	writer        *PDFWriter
-	pages         []int
-	pagesObjNum   int
-	catalogObjNum int
+	writer      *PDFWriter
+	pages       []int
+	pagesObjNum int
 }
 
 // NewSimplePDFBuilder creates a new simple PDF builder
@@ -209,15 +208,23 @@ func (b *SimplePDFBuilder) Bytes() ([]byte, error) {
 	}
 	kids += "]"
 
+	// Complete a copy of the document, so that calling Bytes again (or adding more
+	// pages) does not leave an extra catalog behind
+	w := b.writer.snapshot()
+	pagesObjNum := b.pagesObjNum
+	if pagesObjNum == 0 {
+		pagesObjNum = w.nextObjNum
+	}
+
 	// Create/update Pages object
 	pagesDict := fmt.Sprintf("<</Type/Pages/Kids%s/Count %d>>", kids, len(b.pages))
-	b.writer.SetObject(b.pagesObjNum, []byte(pagesDict))
+	w.SetObject(pagesObjNum, []byte(pagesDict))
 
 	// Create Catalog
-	b.catalogObjNum = b.writer.AddObject([]byte(fmt.Sprintf("<</Type/Catalog/Pages %d 0 R>>", b.pagesObjNum)))
-	b.writer.SetRoot(b.catalogObjNum)
+	catalogObjNum := w.AddObject([]byte(fmt.Sprintf("<</Type/Catalog/Pages %d 0 R>>", pagesObjNum)))
+	w.SetRoot(catalogObjNum)
 
-	return b.writer.Bytes()
+	return w.Bytes()
 }
 
 // SetBookmarks sets bookmarks for the document
-- 
2.43.0


From 3a8974ac2fb53dc766cfc5d9b3bad24bcd155197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 05/76] fix: DeletePages and RotateAllPages leave the document
 unchanged when they fail

---
 core/manipulate/deletion.go | 15 ++++++++++++++-
 core/manipulate/rotation.go |  6 +++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/core/manipulate/deletion.go b/core/manipulate/deletion.go
index b807e63..3eb8dc0 100644
--- a/core/manipulate/deletion.go
+++ b/core/manipulate/deletion.go
@@ -107,14 +107,27 @@ func (m *PDFManipulator) DeletePage(pageNumber int) error {
 func (m *PDFManipulator) DeletePages(pageNumbers []int) error {
 	// Sort in descending order to avoid index shifts
 	// (delete from end to beginning)
+	// Work on a copy so that a failure part-way leaves the document unchanged
+	work := *m
+	work.objects = m.copyObjects()
 	for i := len(pageNumbers) - 1; i >= 0; i-- {
-		if err := m.DeletePage(pageNumbers[i]); err != nil {
+		if err := work.DeletePage(pageNumbers[i]); err != nil {
 			return fmt.Errorf("failed to delete page %d: %w", pageNumbers[i], err)
 		}
 	}
+	m.objects = work.objects
 	return nil
 }
 
+// copyObjects returns a copy of the object table (the contents are shared, they are never edited in place)
+func (m *PDFManipulator) copyObjects() map[int][]byte {
+	objects := make(map[int][]byte, len(m.objects))
+	for objNum, content := range m.objects {
+		objects[objNum] = content
+	}
+	return objects
+}
+
 // findParentPagesObject finds the Pages object that contains the given page object
 func (m *PDFManipulator) findParentPagesObject(pageObjNum int) (int, error) {
 	// Get all Pages objects (intermediate nodes in page tree)
diff --git a/core/manipulate/rotation.go b/core/manipulate/rotation.go
index c411a5e..a65e3f7 100644
--- a/core/manipulate/rotation.go
+++ b/core/manipulate/rotation.go
@@ -64,12 +64,16 @@ func (m *PDFManipulator) RotateAllPages(angle int) error {
 		return fmt.Errorf("failed to get page objects: %w", err)
 	}
 
+	// Work on a copy so that a failure part-way leaves the document unchanged
+	work := *m
+	work.objects = m.copyObjects()
 	for i := range pageObjNums {
 		pageNumber := i + 1
-		if err := m.RotatePage(pageNumber, angle); err != nil {
+		if err := work.RotatePage(pageNumber, angle); err != nil {
 			return fmt.Errorf("failed to rotate page %d: %w", pageNumber, err)
 		}
 	}
+	m.objects = work.objects
 
 	return nil
 }
-- 
2.43.0


From c4820a3fa17b1c3efe3a68916bb21284cdc75bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 06/76] fix: SetupEncryptionWithPasswords changes nothing when
 it fails

---
 core/write/encryption_helper.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/write/encryption_helper.go b/core/write/encryption_helper.go
index 87016ec..e3006cc 100644
--- a/core/write/encryption_helper.go
+++ b/core/write/encryption_helper.go
@@ -10,16 +10,16 @@ import (
 // Returns the encryption dictionary object number
 func (w *PDFWriter) SetupEncryptionWithPasswords(userPassword, ownerPassword []byte, permissions int32, encryptMetadata bool) (int, error) {
 	// Generate file ID if not already set
-	if len(w.fileID) == 0 {
-		fileID := make([]byte, 16)
+	fileID := w.fileID
+	if len(fileID) == 0 {
+		fileID = make([]byte, 16)
 		if _, err := rand.Read(fileID); err != nil {
 			return 0, fmt.Errorf("failed to generate file ID: %v", err)
 		}
-		w.fileID = fileID
 	}
 
 	// Setup AES-256 encryption
-	encrypt, err := SetupAES256Encryption(userPassword, ownerPassword, w.fileID, permissions, encryptMetadata)
+	encrypt, err := SetupAES256Encryption(userPassword, ownerPassword, fileID, permissions, encryptMetadata)
 	if err != nil {
 		return 0, fmt.Errorf("failed to setup encryption: %v", err)
 	}
@@ -28,7 +28,7 @@ func (w *PDFWriter) SetupEncryptionWithPasswords(userPassword, ownerPassword []b
 	encryptDict := CreateEncryptionDictionary(encrypt)
 	encryptObjNum := w.AddObject(encryptDict)
 	w.SetEncryptRef(encryptObjNum)
-	w.SetEncryption(encrypt, w.fileID)
+	w.SetEncryption(encrypt, fileID)
 
 	return encryptObjNum, nil
 }
-- 
2.43.0


From 9cc7655816d528903b4050e7bc43011116c31803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 07/76] fix: AddWatermark validates its options before drawing
 and accepts a nil colour

---
 core/write/watermark.go | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/core/write/watermark.go b/core/write/watermark.go
index 9718a13..ef6fd39 100644
--- a/core/write/watermark.go
+++ b/core/write/watermark.go
@@ -41,6 +41,19 @@ func (pb *PageBuilder) AddWatermark(options *WatermarkOptions) error {
 		options = DefaultWatermarkOptions()
 	}
 
+	// Reject unusable options before anything is added to the page
+	if options.ImageName != "" {
+		if _, exists := pb.images[options.ImageName]; !exists {
+			return fmt.Errorf("image %q not found in page resources", options.ImageName)
+		}
+	} else if options.Text == "" {
+		return fmt.Errorf("watermark text cannot be empty")
+	}
+	color := options.Color
+	if color == nil {
+		color = DefaultWatermarkOptions().Color
+	}
+
 	// Save graphics state
 	pb.content.SaveState()
 
@@ -51,12 +64,12 @@ func (pb *PageBuilder) AddWatermark(options *WatermarkOptions) error {
 		// Full ExtGState support would require adding it to resources
 		opacity := options.Opacity
 		pb.content.SetFillColorRGB(
-			options.Color.R*opacity,
-			options.Color.G*opacity,
-			options.Color.B*opacity,
+			color.R*opacity,
+			color.G*opacity,
+			color.B*opacity,
 		)
 	} else {
-		pb.content.SetFillColorRGB(options.Color.R, options.Color.G, options.Color.B)
+		pb.content.SetFillColorRGB(color.R, color.G, color.B)
 	}
 
 	// Calculate center if not specified
@@ -82,11 +95,6 @@ func (pb *PageBuilder) AddWatermark(options *WatermarkOptions) error {
 
 	if options.ImageName != "" {
 		// Image watermark
-		// Add image to resources if not already added
-		if _, exists := pb.images[options.ImageName]; !exists {
-			return fmt.Errorf("image %q not found in page resources", options.ImageName)
-		}
-
 		// Draw image centered using Do operator
 		// Scale and position the image
 		// For simplicity, scale to reasonable size and center
@@ -96,10 +104,6 @@ func (pb *PageBuilder) AddWatermark(options *WatermarkOptions) error {
 		pb.content.DrawImage(options.ImageName)
 	} else {
 		// Text watermark
-		if options.Text == "" {
-			return fmt.Errorf("watermark text cannot be empty")
-		}
-
 		// Add font if not already added
 		fontName := pb.AddStandardFont(options.FontName)
 
-- 
2.43.0


From 95202d7be1667364719505bd29d1e169e45824fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 08/76] fix: wrap causes with %w so that callers can inspect
 them

---
 content/extract/metadata.go            |  2 +-
 core/encrypt/key_derivation.go         |  6 ++---
 core/encrypt/parser.go                 |  2 +-
 core/manipulate/manipulate.go          |  2 +-
 core/parse/document_parser.go          | 10 +++----
 core/parse/filters.go                  |  2 +-
 core/parse/get_object.go               |  2 +-
 core/parse/incremental.go              |  6 ++---
 core/parse/object_stream.go            |  6 ++---
 core/parse/xref_stream.go              |  2 +-
 core/write/encryption_helper.go        |  4 +--
 core/write/encryption_v5.go            | 30 ++++++++++-----------
 core/write/image.go                    |  4 +--
 core/write/object_stream.go            |  4 +--
 core/write/writer.go                   |  4 +--
 core/write/xfa_builder.go              |  6 ++---
 core/write/xref_stream.go              |  4 +--
 forms/xfa/parse_then_decrypt.go        |  4 +--
 forms/xfa/stream.go                    | 36 +++++++++++++-------------
 forms/xfa/xfa.go                       | 14 +++++-----
 forms/xfa/xfa_config_translator.go     | 20 +++++++-------
 forms/xfa/xfa_connection_translator.go |  8 +++---
 forms/xfa/xfa_datasets_translator.go   | 10 +++----
 forms/xfa/xfa_form_translator.go       | 10 +++----
 forms/xfa/xfa_locale_translator.go     |  8 +++---
 forms/xfa/xfa_stylesheet_translator.go |  8 +++---
 forms/xfa/xfa_utils.go                 | 10 +++----
 27 files changed, 112 insertions(+), 112 deletions(-)

diff --git a/content/extract/metadata.go b/content/extract/metadata.go
index c9fea03..545f760 100644
--- a/content/extract/metadata.go
+++ b/content/extract/metadata.go
@@ -49,7 +49,7 @@ func parseObjectRef(ref string) (int, error) {
 	}
 	objNum, err := strconv.Atoi(parts[0])
 	if err != nil {
-		return 0, fmt.Errorf("invalid object number in reference: %s", ref)
+		return 0, fmt.Errorf("invalid object number in reference: %s: %w", ref, err)
 	}
 	return objNum, nil
 }
diff --git a/core/encrypt/key_derivation.go b/core/encrypt/key_derivation.go
index bbbb6cb..33d408f 100644
--- a/core/encrypt/key_derivation.go
+++ b/core/encrypt/key_derivation.go
@@ -418,7 +418,7 @@ func UnwrapUserKeyV5(passwordKey []byte, encrypt *types.PDFEncryption, verbose b
 	// Create AES cipher
 	block, err := aes.NewCipher(unwrapKey)
 	if err != nil {
-		return nil, fmt.Errorf("failed to create AES cipher: %v", err)
+		return nil, fmt.Errorf("failed to create AES cipher: %w", err)
 	}
 
 	// ECB mode - decrypt each 16-byte block independently
@@ -466,7 +466,7 @@ func UnwrapOwnerKeyV5(ownerPasswordKey []byte, encrypt *types.PDFEncryption, ver
 
 	block, err := aes.NewCipher(unwrapKey)
 	if err != nil {
-		return nil, fmt.Errorf("failed to create AES cipher: %v", err)
+		return nil, fmt.Errorf("failed to create AES cipher: %w", err)
 	}
 
 	if len(encrypt.OE)%16 != 0 {
@@ -540,7 +540,7 @@ func ComputeUValueV5(password []byte, passwordKey []byte, encrypt *types.PDFEncr
 	encryptKey := passwordKey[:16]
 	block, err := aes.NewCipher(encryptKey)
 	if err != nil {
-		return nil, fmt.Errorf("failed to create AES cipher: %v", err)
+		return nil, fmt.Errorf("failed to create AES cipher: %w", err)
 	}
 
 	// Encrypt hash (32 bytes) in 2 blocks of 16 bytes each (ECB mode)
diff --git a/core/encrypt/parser.go b/core/encrypt/parser.go
index 648ec59..65ed182 100644
--- a/core/encrypt/parser.go
+++ b/core/encrypt/parser.go
@@ -28,7 +28,7 @@ func ParseEncryptionDictionary(pdfBytes []byte, verbose bool) (*types.PDFEncrypt
 
 	encryptObjNum, err = strconv.Atoi(pdfStr[encryptMatch[2]:encryptMatch[3]])
 	if err != nil {
-		return nil, fmt.Errorf("invalid Encrypt object number: %v", err)
+		return nil, fmt.Errorf("invalid Encrypt object number: %w", err)
 	}
 
 	if verbose {
diff --git a/core/manipulate/manipulate.go b/core/manipulate/manipulate.go
index e84543f..b50ad48 100644
--- a/core/manipulate/manipulate.go
+++ b/core/manipulate/manipulate.go
@@ -108,7 +108,7 @@ func parseObjectRef(ref string) (int, error) {
 	}
 	objNum, err := strconv.Atoi(parts[0])
 	if err != nil {
-		return 0, fmt.Errorf("invalid object number in reference: %s", ref)
+		return 0, fmt.Errorf("invalid object number in reference: %s: %w", ref, err)
 	}
 	return objNum, nil
 }
diff --git a/core/parse/document_parser.go b/core/parse/document_parser.go
index 86c6a30..b6c8eee 100644
--- a/core/parse/document_parser.go
+++ b/core/parse/document_parser.go
@@ -22,7 +22,7 @@ func ParsePDFDocument(pdfBytes []byte) (*PDFDocument, error) {
 	// Parse header
 	header, err := ParsePDFHeader(pdfBytes)
 	if err != nil {
-		return nil, fmt.Errorf("failed to parse header: %v", err)
+		return nil, fmt.Errorf("failed to parse header: %w", err)
 	}
 	doc.Header = header
 
@@ -142,7 +142,7 @@ func parseRevision(pdfBytes []byte, revNum int, eofOffset int, doc *PDFDocument)
 	// Parse xref data
 	xref, err := ParseXRefDataRaw(pdfBytes, startXRef)
 	if err != nil {
-		return nil, fmt.Errorf("failed to parse xref: %v", err)
+		return nil, fmt.Errorf("failed to parse xref: %w", err)
 	}
 	rev.XRef = xref
 
@@ -151,7 +151,7 @@ func parseRevision(pdfBytes []byte, revNum int, eofOffset int, doc *PDFDocument)
 	if err != nil {
 		// Trailer parsing is optional for xref streams
 		if xref.Type != XRefTypeStream {
-			return nil, fmt.Errorf("failed to parse trailer: %v", err)
+			return nil, fmt.Errorf("failed to parse trailer: %w", err)
 		}
 	}
 	rev.Trailer = trailer
@@ -294,7 +294,7 @@ func parseXRefStreamRaw(pdfBytes []byte, startXRef int64, xref *XRefData) (*XRef
 	// Parse the complete object
 	obj, err := ParseRawObject(pdfBytes, objNum, objGen, startXRef)
 	if err != nil {
-		return nil, fmt.Errorf("failed to parse xref stream object: %v", err)
+		return nil, fmt.Errorf("failed to parse xref stream object: %w", err)
 	}
 
 	xref.StreamObject = obj
@@ -303,7 +303,7 @@ func parseXRefStreamRaw(pdfBytes []byte, startXRef int64, xref *XRefData) (*XRef
 	// Parse the xref entries from the stream using existing parser
 	result, err := ParseXRefStreamFull(pdfBytes, startXRef, false)
 	if err != nil {
-		return nil, fmt.Errorf("failed to parse xref stream entries: %v", err)
+		return nil, fmt.Errorf("failed to parse xref stream entries: %w", err)
 	}
 
 	// Convert to XRefEntry format
diff --git a/core/parse/filters.go b/core/parse/filters.go
index 46d3933..902c29d 100644
--- a/core/parse/filters.go
+++ b/core/parse/filters.go
@@ -31,7 +31,7 @@ func DecodeFilter(data []byte, filterName string) ([]byte, error) {
 func DecodeFlateDecode(data []byte) ([]byte, error) {
 	reader, err := zlib.NewReader(bytes.NewReader(data))
 	if err != nil {
-		return nil, fmt.Errorf("zlib error: %v", err)
+		return nil, fmt.Errorf("zlib error: %w", err)
 	}
 	defer reader.Close()
 
diff --git a/core/parse/get_object.go b/core/parse/get_object.go
index cd95cd7..0a1f709 100644
--- a/core/parse/get_object.go
+++ b/core/parse/get_object.go
@@ -113,7 +113,7 @@ func GetObject(pdfBytes []byte, objNum int, encryptInfo *types.PDFEncryption, ve
 	// Find where the object is located
 	loc, err := FindObjectLocation(pdfBytes, objNum, verbose)
 	if err != nil {
-		return nil, fmt.Errorf("object %d not found: %v", objNum, err)
+		return nil, fmt.Errorf("object %d not found: %w", objNum, err)
 	}
 
 	if !loc.IsDirect {
diff --git a/core/parse/incremental.go b/core/parse/incremental.go
index 22737ba..ecb3078 100644
--- a/core/parse/incremental.go
+++ b/core/parse/incremental.go
@@ -49,12 +49,12 @@ func (p *incrementalParser) parse() error {
 	// Find the last startxref
 	lastStartXRef, err := p.findLastStartXRef()
 	if err != nil {
-		return fmt.Errorf("failed to find startxref: %v", err)
+		return fmt.Errorf("failed to find startxref: %w", err)
 	}
 
 	// Parse xref sections by following /Prev chain
 	if err := p.parseXRefChain(lastStartXRef); err != nil {
-		return fmt.Errorf("failed to parse xref chain: %v", err)
+		return fmt.Errorf("failed to parse xref chain: %w", err)
 	}
 
 	// Merge all sections (earlier sections first, later ones override)
@@ -118,7 +118,7 @@ func (p *incrementalParser) findLastStartXRef() (int64, error) {
 
 	offset, err := strconv.ParseInt(match[1], 10, 64)
 	if err != nil {
-		return 0, fmt.Errorf("invalid startxref value: %s", match[1])
+		return 0, fmt.Errorf("invalid startxref value: %s: %w", match[1], err)
 	}
 
 	if p.verbose {
diff --git a/core/parse/object_stream.go b/core/parse/object_stream.go
index 2eff238..c7a6f03 100644
--- a/core/parse/object_stream.go
+++ b/core/parse/object_stream.go
@@ -135,7 +135,7 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 	}
 
 	if err != nil {
-		return nil, fmt.Errorf("error decompressing xref stream: %v", err)
+		return nil, fmt.Errorf("error decompressing xref stream: %w", err)
 	}
 
 	// Check for predictor (PNG filter)
@@ -328,7 +328,7 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 	if encryptInfo != nil {
 		decrypted, err := encrypt.DecryptObject(streamData, streamObjNum, 0, encryptInfo)
 		if err != nil {
-			return nil, fmt.Errorf("failed to decrypt object stream: %v", err)
+			return nil, fmt.Errorf("failed to decrypt object stream: %w", err)
 		}
 		streamData = decrypted
 	}
@@ -349,7 +349,7 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 		decompressed, err = io.ReadAll(flateReader)
 		flateReader.Close()
 		if err != nil {
-			return nil, fmt.Errorf("failed to decompress object stream: %v", err)
+			return nil, fmt.Errorf("failed to decompress object stream: %w", err)
 		}
 	}
 
diff --git a/core/parse/xref_stream.go b/core/parse/xref_stream.go
index ced4bbf..29aafa5 100644
--- a/core/parse/xref_stream.go
+++ b/core/parse/xref_stream.go
@@ -141,7 +141,7 @@ func ParseXRefStreamWithEncryption(pdfBytes []byte, startXRef int64, encryptInfo
 	}
 
 	if err != nil {
-		return nil, fmt.Errorf("error decompressing xref stream (tried zlib and deflate): %v", err)
+		return nil, fmt.Errorf("error decompressing xref stream (tried zlib and deflate): %w", err)
 	}
 
 	// Parse decompressed stream data
diff --git a/core/write/encryption_helper.go b/core/write/encryption_helper.go
index e3006cc..cf7e798 100644
--- a/core/write/encryption_helper.go
+++ b/core/write/encryption_helper.go
@@ -14,14 +14,14 @@ func (w *PDFWriter) SetupEncryptionWithPasswords(userPassword, ownerPassword []b
 	if len(fileID) == 0 {
 		fileID = make([]byte, 16)
 		if _, err := rand.Read(fileID); err != nil {
-			return 0, fmt.Errorf("failed to generate file ID: %v", err)
+			return 0, fmt.Errorf("failed to generate file ID: %w", err)
 		}
 	}
 
 	// Setup AES-256 encryption
 	encrypt, err := SetupAES256Encryption(userPassword, ownerPassword, fileID, permissions, encryptMetadata)
 	if err != nil {
-		return 0, fmt.Errorf("failed to setup encryption: %v", err)
+		return 0, fmt.Errorf("failed to setup encryption: %w", err)
 	}
 
 	// Create encryption dictionary object
diff --git a/core/write/encryption_v5.go b/core/write/encryption_v5.go
index 3b86c18..df250ef 100644
--- a/core/write/encryption_v5.go
+++ b/core/write/encryption_v5.go
@@ -24,25 +24,25 @@ func SetupAES256Encryption(userPassword, ownerPassword []byte, fileID []byte, pe
 	// Derive user password key
 	userPasswordKey, err := deriveEncryptionKeyV5(userPassword, fileID8)
 	if err != nil {
-		return nil, fmt.Errorf("failed to derive user password key: %v", err)
+		return nil, fmt.Errorf("failed to derive user password key: %w", err)
 	}
 
 	// Derive owner password key
 	ownerPasswordKey, err := deriveEncryptionKeyV5(ownerPassword, fileID8)
 	if err != nil {
-		return nil, fmt.Errorf("failed to derive owner password key: %v", err)
+		return nil, fmt.Errorf("failed to derive owner password key: %w", err)
 	}
 
 	// Generate random user encryption key (32 bytes for AES-256)
 	userEncryptionKey := make([]byte, 32)
 	if _, err := rand.Read(userEncryptionKey); err != nil {
-		return nil, fmt.Errorf("failed to generate encryption key: %v", err)
+		return nil, fmt.Errorf("failed to generate encryption key: %w", err)
 	}
 
 	// Generate random owner encryption key (32 bytes)
 	ownerEncryptionKey := make([]byte, 32)
 	if _, err := rand.Read(ownerEncryptionKey); err != nil {
-		return nil, fmt.Errorf("failed to generate owner encryption key: %v", err)
+		return nil, fmt.Errorf("failed to generate owner encryption key: %w", err)
 	}
 
 	// Generate random salts
@@ -52,41 +52,41 @@ func SetupAES256Encryption(userPassword, ownerPassword []byte, fileID []byte, pe
 	ownerKeySalt := make([]byte, 8)
 
 	if _, err := rand.Read(validationSalt); err != nil {
-		return nil, fmt.Errorf("failed to generate validation salt: %v", err)
+		return nil, fmt.Errorf("failed to generate validation salt: %w", err)
 	}
 	if _, err := rand.Read(userKeySalt); err != nil {
-		return nil, fmt.Errorf("failed to generate user key salt: %v", err)
+		return nil, fmt.Errorf("failed to generate user key salt: %w", err)
 	}
 	if _, err := rand.Read(ownerValidationSalt); err != nil {
-		return nil, fmt.Errorf("failed to generate owner validation salt: %v", err)
+		return nil, fmt.Errorf("failed to generate owner validation salt: %w", err)
 	}
 	if _, err := rand.Read(ownerKeySalt); err != nil {
-		return nil, fmt.Errorf("failed to generate owner key salt: %v", err)
+		return nil, fmt.Errorf("failed to generate owner key salt: %w", err)
 	}
 
 	// Compute U value (user password validation)
 	uValue, err := computeUValueV5(userPassword, userPasswordKey, validationSalt, userKeySalt)
 	if err != nil {
-		return nil, fmt.Errorf("failed to compute U value: %v", err)
+		return nil, fmt.Errorf("failed to compute U value: %w", err)
 	}
 
 	// Compute O value (owner password validation)
 	// For V5, O value uses the U value (48 bytes), not the user encryption key
 	oValue, err := computeOValueV5(ownerPassword, ownerPasswordKey, ownerValidationSalt, ownerKeySalt, uValue)
 	if err != nil {
-		return nil, fmt.Errorf("failed to compute O value: %v", err)
+		return nil, fmt.Errorf("failed to compute O value: %w", err)
 	}
 
 	// Wrap user encryption key with user password key
 	ueValue, err := wrapKeyV5(userEncryptionKey, userPasswordKey)
 	if err != nil {
-		return nil, fmt.Errorf("failed to wrap user encryption key: %v", err)
+		return nil, fmt.Errorf("failed to wrap user encryption key: %w", err)
 	}
 
 	// Wrap user encryption key with owner password key (OE contains user key wrapped with owner key)
 	oeValue, err := wrapKeyV5(userEncryptionKey, ownerPasswordKey)
 	if err != nil {
-		return nil, fmt.Errorf("failed to wrap user encryption key with owner key: %v", err)
+		return nil, fmt.Errorf("failed to wrap user encryption key with owner key: %w", err)
 	}
 
 	encrypt := &types.PDFEncryption{
@@ -140,7 +140,7 @@ func computeUValueV5(password, passwordKey, validationSalt, userKeySalt []byte)
 	encryptKey := passwordKey[:16]
 	block, err := aes.NewCipher(encryptKey)
 	if err != nil {
-		return nil, fmt.Errorf("failed to create AES cipher: %v", err)
+		return nil, fmt.Errorf("failed to create AES cipher: %w", err)
 	}
 
 	// Encrypt hash (32 bytes) in 2 blocks of 16 bytes each (ECB mode)
@@ -171,7 +171,7 @@ func computeOValueV5(ownerPassword, ownerPasswordKey, ownerValidationSalt, owner
 	encryptKey := ownerPasswordKey[:16]
 	block, err := aes.NewCipher(encryptKey)
 	if err != nil {
-		return nil, fmt.Errorf("failed to create AES cipher: %v", err)
+		return nil, fmt.Errorf("failed to create AES cipher: %w", err)
 	}
 
 	// Encrypt hash (32 bytes) in 2 blocks
@@ -209,7 +209,7 @@ func wrapKeyV5(key, wrappingKey []byte) ([]byte, error) {
 	// Encrypt in ECB mode (each 16-byte block independently)
 	block, err := aes.NewCipher(wrapKey)
 	if err != nil {
-		return nil, fmt.Errorf("failed to create AES cipher: %v", err)
+		return nil, fmt.Errorf("failed to create AES cipher: %w", err)
 	}
 
 	wrapped := make([]byte, len(padded))
diff --git a/core/write/image.go b/core/write/image.go
index c4f5b58..7c2a8b2 100644
--- a/core/write/image.go
+++ b/core/write/image.go
@@ -28,7 +28,7 @@ func (w *PDFWriter) AddJPEGImage(jpegData []byte, name string) (*ImageInfo, erro
 	// Parse JPEG header to get dimensions and color info
 	width, height, colorSpace, err := parseJPEGHeader(jpegData)
 	if err != nil {
-		return nil, fmt.Errorf("invalid JPEG: %v", err)
+		return nil, fmt.Errorf("invalid JPEG: %w", err)
 	}
 
 	// Create image XObject dictionary
@@ -69,7 +69,7 @@ func (w *PDFWriter) AddImage(imgData []byte, name string) (*ImageInfo, error) {
 	// Decode image
 	img, format, err := image.Decode(bytes.NewReader(imgData))
 	if err != nil {
-		return nil, fmt.Errorf("failed to decode image: %v", err)
+		return nil, fmt.Errorf("failed to decode image: %w", err)
 	}
 
 	// If it's a JPEG, use the direct embedding method
diff --git a/core/write/object_stream.go b/core/write/object_stream.go
index e0bbd26..9bb1a65 100644
--- a/core/write/object_stream.go
+++ b/core/write/object_stream.go
@@ -132,10 +132,10 @@ func (w *PDFWriter) createObjectStreams() (map[int]struct {
 	var compressed bytes.Buffer
 	zw := zlib.NewWriter(&compressed)
 	if _, err := zw.Write(streamData.Bytes()); err != nil {
-		return nil, nil, fmt.Errorf("failed to compress object stream: %v", err)
+		return nil, nil, fmt.Errorf("failed to compress object stream: %w", err)
 	}
 	if err := zw.Close(); err != nil {
-		return nil, nil, fmt.Errorf("failed to close zlib writer: %v", err)
+		return nil, nil, fmt.Errorf("failed to close zlib writer: %w", err)
 	}
 	compressedData := compressed.Bytes()
 
diff --git a/core/write/writer.go b/core/write/writer.go
index fdd3f9b..45c867c 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -309,7 +309,7 @@ func (w *PDFWriter) write(out io.Writer) error {
 	// This may add new object stream objects to w.objects
 	objStreamMap, _, err := w.createObjectStreams()
 	if err != nil {
-		return fmt.Errorf("failed to create object streams: %v", err)
+		return fmt.Errorf("failed to create object streams: %w", err)
 	}
 
 	// Collect and sort object numbers (after object streams are created)
@@ -380,7 +380,7 @@ func (w *PDFWriter) write(out io.Writer) error {
 		// Write cross-reference stream
 		xrefPos, err = w.writeXRefStream(&buf, positions, objStreamMap)
 		if err != nil {
-			return fmt.Errorf("failed to write xref stream: %v", err)
+			return fmt.Errorf("failed to write xref stream: %w", err)
 		}
 
 		// Write trailer (xref streams still need a trailer with /Root, /Info, etc.)
diff --git a/core/write/xfa_builder.go b/core/write/xfa_builder.go
index c61467d..40797de 100644
--- a/core/write/xfa_builder.go
+++ b/core/write/xfa_builder.go
@@ -91,7 +91,7 @@ func (b *XFABuilder) BuildFromOriginal(originalPDF []byte, updatedStreams map[st
 	// Parse the original PDF structure
 	objects, err := parseAllObjects(originalPDF, encryptInfo, b.verbose)
 	if err != nil {
-		return nil, fmt.Errorf("failed to parse original PDF: %v", err)
+		return nil, fmt.Errorf("failed to parse original PDF: %w", err)
 	}
 
 	if b.verbose {
@@ -376,13 +376,13 @@ func findXFAStreamMap(pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose
 
 	acroFormObjNum, err := strconv.Atoi(acroFormMatch[1])
 	if err != nil {
-		return result, fmt.Errorf("invalid AcroForm object number")
+		return result, fmt.Errorf("invalid AcroForm object number: %w", err)
 	}
 
 	// Get the AcroForm object using proper parser (handles object streams)
 	acroFormData, err := parse.GetObject(pdfBytes, acroFormObjNum, encryptInfo, false)
 	if err != nil {
-		return result, fmt.Errorf("failed to get AcroForm object: %v", err)
+		return result, fmt.Errorf("failed to get AcroForm object: %w", err)
 	}
 
 	// Find XFA array in AcroForm content
diff --git a/core/write/xref_stream.go b/core/write/xref_stream.go
index d482a2d..2058e49 100644
--- a/core/write/xref_stream.go
+++ b/core/write/xref_stream.go
@@ -125,10 +125,10 @@ func (w *PDFWriter) writeXRefStream(buf *bytes.Buffer, positions map[int]int64,
 	var compressed bytes.Buffer
 	zw := zlib.NewWriter(&compressed)
 	if _, err := zw.Write(streamData); err != nil {
-		return 0, fmt.Errorf("failed to compress xref stream: %v", err)
+		return 0, fmt.Errorf("failed to compress xref stream: %w", err)
 	}
 	if err := zw.Close(); err != nil {
-		return 0, fmt.Errorf("failed to close zlib writer: %v", err)
+		return 0, fmt.Errorf("failed to close zlib writer: %w", err)
 	}
 	compressedData := compressed.Bytes()
 
diff --git a/forms/xfa/parse_then_decrypt.go b/forms/xfa/parse_then_decrypt.go
index 68c0f60..a150d8c 100644
--- a/forms/xfa/parse_then_decrypt.go
+++ b/forms/xfa/parse_then_decrypt.go
@@ -170,7 +170,7 @@ func parseObjectStructure(pdfBytes []byte, objNum, genNum int, objOffset int64,
 			// Try decrypting in chunks (for alignment) - uses existing function from xfa_utils.go
 			decryptedDict, err = decryptInChunks(dictContent, objNum, genNum, encryptInfo, verbose)
 			if err != nil {
-				return nil, fmt.Errorf("failed to decrypt dictionary: %v", err)
+				return nil, fmt.Errorf("failed to decrypt dictionary: %w", err)
 			}
 		}
 		dictContent = decryptedDict
@@ -195,7 +195,7 @@ func parseObjectStructure(pdfBytes []byte, objNum, genNum int, objOffset int64,
 			streamData := pdfBytes[streamDataStart:streamDataEnd]
 			decryptedStream, err := encrypt.DecryptObject(streamData, objNum, genNum, encryptInfo)
 			if err != nil {
-				return nil, fmt.Errorf("failed to decrypt stream data: %v", err)
+				return nil, fmt.Errorf("failed to decrypt stream data: %w", err)
 			}
 			result = append(result, decryptedStream...)
 		} else {
diff --git a/forms/xfa/stream.go b/forms/xfa/stream.go
index 6836489..6d46399 100644
--- a/forms/xfa/stream.go
+++ b/forms/xfa/stream.go
@@ -149,7 +149,7 @@ func readObjectHeader(stream *PDFStream) (int, int, error) {
 	// Read object number
 	idnumBytes, err := readUntilWhitespace(stream)
 	if err != nil {
-		return 0, 0, fmt.Errorf("failed to read object number: %v", err)
+		return 0, 0, fmt.Errorf("failed to read object number: %w", err)
 	}
 
 	// Skip whitespace
@@ -162,7 +162,7 @@ func readObjectHeader(stream *PDFStream) (int, int, error) {
 	skipOverWhitespace(stream) // Skip the space to get to generation number
 	genBytes, err := readUntilWhitespace(stream)
 	if err != nil {
-		return 0, 0, fmt.Errorf("failed to read generation number: %v", err)
+		return 0, 0, fmt.Errorf("failed to read generation number: %w", err)
 	}
 
 	// Skip whitespace (PyPDF line 552)
@@ -174,7 +174,7 @@ func readObjectHeader(stream *PDFStream) (int, int, error) {
 	// Read "obj" keyword (3 bytes) - PyPDF line 556: _obj = stream.read(3)
 	objBytes, err := stream.Read(3)
 	if err != nil {
-		return 0, 0, fmt.Errorf("failed to read 'obj' keyword: %v", err)
+		return 0, 0, fmt.Errorf("failed to read 'obj' keyword: %w", err)
 	}
 	if !bytes.Equal(objBytes, []byte("obj")) {
 		return 0, 0, fmt.Errorf("expected 'obj' keyword, got %q", string(objBytes))
@@ -187,12 +187,12 @@ func readObjectHeader(stream *PDFStream) (int, int, error) {
 
 	idnum, err := strconv.Atoi(string(idnumBytes))
 	if err != nil {
-		return 0, 0, fmt.Errorf("invalid object number: %v", err)
+		return 0, 0, fmt.Errorf("invalid object number: %w", err)
 	}
 
 	generation, err := strconv.Atoi(string(genBytes))
 	if err != nil {
-		return 0, 0, fmt.Errorf("invalid generation number: %v", err)
+		return 0, 0, fmt.Errorf("invalid generation number: %w", err)
 	}
 
 	return idnum, generation, nil
@@ -230,7 +230,7 @@ func ReadObjectFromXRef(pdfBytes []byte, objNum, genNum int, xrefOffset int64, e
 	// First, try reading header at xref offset (PyPDF line 425)
 	_, err := stream.Seek(xrefOffset, 0)
 	if err != nil {
-		return nil, fmt.Errorf("failed to seek to xref offset: %v", err)
+		return nil, fmt.Errorf("failed to seek to xref offset: %w", err)
 	}
 
 	idnum, generation, err := readObjectHeader(stream)
@@ -255,11 +255,11 @@ func ReadObjectFromXRef(pdfBytes []byte, objNum, genNum int, xrefOffset int64, e
 			}
 			_, err = stream.Seek(int64(headerOffset), 0)
 			if err != nil {
-				return nil, fmt.Errorf("failed to seek to found header: %v", err)
+				return nil, fmt.Errorf("failed to seek to found header: %w", err)
 			}
 			idnum, generation, err = readObjectHeader(stream)
 			if err != nil {
-				return nil, fmt.Errorf("failed to read header at found offset: %v", err)
+				return nil, fmt.Errorf("failed to read header at found offset: %w", err)
 			}
 		} else {
 			// Fallback: search entire file with regex (PyPDF lines 432-452)
@@ -277,7 +277,7 @@ func ReadObjectFromXRef(pdfBytes []byte, objNum, genNum int, xrefOffset int64, e
 				// The structure markers might still be parseable
 				_, err = stream.Seek(xrefOffset, 0)
 				if err != nil {
-					return nil, fmt.Errorf("object header not found and cannot seek to xref: %v", err)
+					return nil, fmt.Errorf("object header not found and cannot seek to xref: %w", err)
 				}
 				// We'll try to parse the dictionary structure even without the header
 				// Set idnum/generation from parameters
@@ -289,7 +289,7 @@ func ReadObjectFromXRef(pdfBytes []byte, objNum, genNum int, xrefOffset int64, e
 			}
 			_, err = stream.Seek(int64(offset), 0)
 			if err != nil {
-				return nil, fmt.Errorf("failed to seek to found offset: %v", err)
+				return nil, fmt.Errorf("failed to seek to found offset: %w", err)
 			}
 			idnum, generation, err = readObjectHeader(stream)
 			if err != nil {
@@ -300,7 +300,7 @@ func ReadObjectFromXRef(pdfBytes []byte, objNum, genNum int, xrefOffset int64, e
 				}
 				_, err = stream.Seek(xrefOffset, 0)
 				if err != nil {
-					return nil, fmt.Errorf("failed to seek back to xref offset: %v", err)
+					return nil, fmt.Errorf("failed to seek back to xref offset: %w", err)
 				}
 				idnum = objNum
 				generation = genNum
@@ -369,7 +369,7 @@ func ReadObjectFromXRef(pdfBytes []byte, objNum, genNum int, xrefOffset int64, e
 				if err != nil {
 					decrypted, err = decryptInChunks(objContent, objNum, generation, encryptInfo, verbose)
 					if err != nil {
-						return nil, fmt.Errorf("failed to decrypt object: %v", err)
+						return nil, fmt.Errorf("failed to decrypt object: %w", err)
 					}
 				}
 
@@ -413,7 +413,7 @@ func ReadObjectFromXRef(pdfBytes []byte, objNum, genNum int, xrefOffset int64, e
 			if err != nil {
 				decrypted, err = decryptInChunks(objContent, objNum, generation, encryptInfo, verbose)
 				if err != nil {
-					return nil, fmt.Errorf("failed to decrypt object: %v", err)
+					return nil, fmt.Errorf("failed to decrypt object: %w", err)
 				}
 			}
 			objContent = decrypted
@@ -431,7 +431,7 @@ func ReadObjectFromXRef(pdfBytes []byte, objNum, genNum int, xrefOffset int64, e
 	// Parse the dictionary from raw bytes (structure markers like "<<" are in plaintext)
 	parsedDict, _, err := parseDictionaryFromStream(stream, pdfBytes, verbose)
 	if err != nil {
-		return nil, fmt.Errorf("failed to parse dictionary: %v", err)
+		return nil, fmt.Errorf("failed to parse dictionary: %w", err)
 	}
 
 	// Step 5: Decrypt the parsed dictionary's values (PyPDF lines 482-490)
@@ -439,7 +439,7 @@ func ReadObjectFromXRef(pdfBytes []byte, objNum, genNum int, xrefOffset int64, e
 	if encryptInfo != nil {
 		decryptedDict, err := decryptParsedDictionary(parsedDict, objNum, generation, encryptInfo, verbose)
 		if err != nil {
-			return nil, fmt.Errorf("failed to decrypt dictionary values: %v", err)
+			return nil, fmt.Errorf("failed to decrypt dictionary values: %w", err)
 		}
 		parsedDict = decryptedDict
 	}
@@ -498,7 +498,7 @@ func parseDictionaryFromStream(stream *PDFStream, pdfBytes []byte, verbose bool)
 	// Read "<<" marker (PyPDF line 549-557)
 	tmp, err := stream.Read(2)
 	if err != nil {
-		return nil, 0, fmt.Errorf("failed to read dictionary start: %v", err)
+		return nil, 0, fmt.Errorf("failed to read dictionary start: %w", err)
 	}
 	if !bytes.Equal(tmp, []byte("<<")) {
 		return nil, 0, fmt.Errorf("dictionary must begin with '<<', got %q", tmp)
@@ -530,7 +530,7 @@ func parseDictionaryFromStream(stream *PDFStream, pdfBytes []byte, verbose bool)
 				stream.Seek(int64(keyStart+endPos+2), 0)
 				break
 			}
-			return nil, 0, fmt.Errorf("failed to read dictionary key: %v", err)
+			return nil, 0, fmt.Errorf("failed to read dictionary key: %w", err)
 		}
 
 		// Skip whitespace
@@ -539,7 +539,7 @@ func parseDictionaryFromStream(stream *PDFStream, pdfBytes []byte, verbose bool)
 		// Read value (could be any PDF object)
 		valueBytes, err := readPDFObject(stream, pdfBytes)
 		if err != nil {
-			return nil, 0, fmt.Errorf("failed to read dictionary value for key %q: %v", string(keyBytes), err)
+			return nil, 0, fmt.Errorf("failed to read dictionary value for key %q: %w", string(keyBytes), err)
 		}
 
 		entries = append(entries, ParsedDictEntry{
diff --git a/forms/xfa/xfa.go b/forms/xfa/xfa.go
index dc62dfc..4b5f185 100644
--- a/forms/xfa/xfa.go
+++ b/forms/xfa/xfa.go
@@ -134,7 +134,7 @@ func ExtractAllXFAStreams(pdfBytes []byte, encryptInfo *types.PDFEncryption, ver
 		// AcroForm is an indirect reference
 		acroFormObjNum, err = strconv.Atoi(pdfStr[acroFormMatch[2]:acroFormMatch[3]])
 		if err != nil {
-			return nil, fmt.Errorf("invalid AcroForm object number: %v", err)
+			return nil, fmt.Errorf("invalid AcroForm object number: %w", err)
 		}
 
 		if verbose {
@@ -311,7 +311,7 @@ func FindXFADatasetsStream(pdfBytes []byte, encryptInfo *types.PDFEncryption, ve
 	// Extract all XFA streams
 	streams, err := ExtractAllXFAStreams(pdfBytes, encryptInfo, verbose)
 	if err != nil {
-		return nil, 0, fmt.Errorf("failed to extract XFA streams: %v", err)
+		return nil, 0, fmt.Errorf("failed to extract XFA streams: %w", err)
 	}
 
 	// Return datasets stream if found
@@ -432,7 +432,7 @@ func UpdateXFAInPDF(pdfBytes []byte, formData types.FormData, encryptInfo *types
 	// Find XFA datasets stream
 	datasetsStream, streamObjNum, err := FindXFADatasetsStream(pdfBytes, encryptInfo, verbose)
 	if err != nil {
-		return nil, fmt.Errorf("error finding XFA datasets stream: %v", err)
+		return nil, fmt.Errorf("error finding XFA datasets stream: %w", err)
 	}
 
 	if verbose {
@@ -443,7 +443,7 @@ func UpdateXFAInPDF(pdfBytes []byte, formData types.FormData, encryptInfo *types
 	// Decompress if needed and parse XML
 	xfaXML, wasCompressed, err := DecompressStream(datasetsStream)
 	if err != nil {
-		return nil, fmt.Errorf("error decompressing stream: %v", err)
+		return nil, fmt.Errorf("error decompressing stream: %w", err)
 	}
 
 	if verbose {
@@ -453,7 +453,7 @@ func UpdateXFAInPDF(pdfBytes []byte, formData types.FormData, encryptInfo *types
 	// Update field values in XFA XML
 	updatedXML, err := UpdateXFAValues(string(xfaXML), formData, verbose)
 	if err != nil {
-		return nil, fmt.Errorf("error updating XFA values: %v", err)
+		return nil, fmt.Errorf("error updating XFA values: %w", err)
 	}
 
 	// Re-compress if it was compressed
@@ -461,7 +461,7 @@ func UpdateXFAInPDF(pdfBytes []byte, formData types.FormData, encryptInfo *types
 	if wasCompressed {
 		compressed, err := CompressStream(updatedStream)
 		if err != nil {
-			return nil, fmt.Errorf("error compressing stream: %v", err)
+			return nil, fmt.Errorf("error compressing stream: %w", err)
 		}
 		updatedStream = compressed
 		if verbose {
@@ -472,7 +472,7 @@ func UpdateXFAInPDF(pdfBytes []byte, formData types.FormData, encryptInfo *types
 	// Update PDF with new stream
 	updatedPDF, err := ReplaceStreamInPDF(pdfBytes, streamObjNum, updatedStream, verbose)
 	if err != nil {
-		return nil, fmt.Errorf("error replacing stream: %v", err)
+		return nil, fmt.Errorf("error replacing stream: %w", err)
 	}
 
 	return updatedPDF, nil
diff --git a/forms/xfa/xfa_config_translator.go b/forms/xfa/xfa_config_translator.go
index 955022a..db5bf7f 100644
--- a/forms/xfa/xfa_config_translator.go
+++ b/forms/xfa/xfa_config_translator.go
@@ -270,55 +270,55 @@ func ConfigToXFA(config *types.XFAConfig, verbose bool) (string, error) {
 	// Start config element
 	configStart := xml.StartElement{Name: xml.Name{Local: "config"}}
 	if err := enc.EncodeToken(configStart); err != nil {
-		return "", fmt.Errorf("failed to encode config start: %v", err)
+		return "", fmt.Errorf("failed to encode config start: %w", err)
 	}
 
 	// Encode present section
 	if config.Present != nil {
 		if err := encodeConfigPresent(enc, config.Present); err != nil {
-			return "", fmt.Errorf("failed to encode present: %v", err)
+			return "", fmt.Errorf("failed to encode present: %w", err)
 		}
 	}
 
 	// Encode validate section
 	if config.Validate != nil {
 		if err := encodeConfigValidate(enc, config.Validate); err != nil {
-			return "", fmt.Errorf("failed to encode validate: %v", err)
+			return "", fmt.Errorf("failed to encode validate: %w", err)
 		}
 	}
 
 	// Encode submit section
 	if config.Submit != nil {
 		if err := encodeConfigSubmit(enc, config.Submit); err != nil {
-			return "", fmt.Errorf("failed to encode submit: %v", err)
+			return "", fmt.Errorf("failed to encode submit: %w", err)
 		}
 	}
 
 	// Encode destination section
 	if config.Destination != nil {
 		if err := encodeConfigDestination(enc, config.Destination); err != nil {
-			return "", fmt.Errorf("failed to encode destination: %v", err)
+			return "", fmt.Errorf("failed to encode destination: %w", err)
 		}
 	}
 
 	// Encode acrobat section
 	if config.Acrobat != nil {
 		if err := encodeConfigAcrobat(enc, config.Acrobat); err != nil {
-			return "", fmt.Errorf("failed to encode acrobat: %v", err)
+			return "", fmt.Errorf("failed to encode acrobat: %w", err)
 		}
 	}
 
 	// Encode common section
 	if config.Common != nil {
 		if err := encodeConfigCommon(enc, config.Common); err != nil {
-			return "", fmt.Errorf("failed to encode common: %v", err)
+			return "", fmt.Errorf("failed to encode common: %w", err)
 		}
 	}
 
 	// Encode output section
 	if config.Output != nil {
 		if err := encodeConfigOutput(enc, config.Output); err != nil {
-			return "", fmt.Errorf("failed to encode output: %v", err)
+			return "", fmt.Errorf("failed to encode output: %w", err)
 		}
 	}
 
@@ -340,11 +340,11 @@ func ConfigToXFA(config *types.XFAConfig, verbose bool) (string, error) {
 
 	// End config element
 	if err := enc.EncodeToken(configStart.End()); err != nil {
-		return "", fmt.Errorf("failed to encode config end: %v", err)
+		return "", fmt.Errorf("failed to encode config end: %w", err)
 	}
 
 	if err := enc.Flush(); err != nil {
-		return "", fmt.Errorf("failed to flush encoder: %v", err)
+		return "", fmt.Errorf("failed to flush encoder: %w", err)
 	}
 
 	result := buf.String()
diff --git a/forms/xfa/xfa_connection_translator.go b/forms/xfa/xfa_connection_translator.go
index 4d2bea0..ed6b3b0 100644
--- a/forms/xfa/xfa_connection_translator.go
+++ b/forms/xfa/xfa_connection_translator.go
@@ -225,23 +225,23 @@ func ConnectionSetToXFA(connectionSet *types.XFAConnectionSet, verbose bool) (st
 	// Start connectionSet element
 	connectionSetStart := xml.StartElement{Name: xml.Name{Local: "connectionSet"}}
 	if err := enc.EncodeToken(connectionSetStart); err != nil {
-		return "", fmt.Errorf("failed to encode connectionSet start: %v", err)
+		return "", fmt.Errorf("failed to encode connectionSet start: %w", err)
 	}
 
 	// Encode connections
 	for _, connection := range connectionSet.Connections {
 		if err := encodeConnection(enc, connection); err != nil {
-			return "", fmt.Errorf("failed to encode connection %s: %v", connection.Name, err)
+			return "", fmt.Errorf("failed to encode connection %s: %w", connection.Name, err)
 		}
 	}
 
 	// End connectionSet element
 	if err := enc.EncodeToken(connectionSetStart.End()); err != nil {
-		return "", fmt.Errorf("failed to encode connectionSet end: %v", err)
+		return "", fmt.Errorf("failed to encode connectionSet end: %w", err)
 	}
 
 	if err := enc.Flush(); err != nil {
-		return "", fmt.Errorf("failed to flush encoder: %v", err)
+		return "", fmt.Errorf("failed to flush encoder: %w", err)
 	}
 
 	result := buf.String()
diff --git a/forms/xfa/xfa_datasets_translator.go b/forms/xfa/xfa_datasets_translator.go
index 473a443..cd192d3 100644
--- a/forms/xfa/xfa_datasets_translator.go
+++ b/forms/xfa/xfa_datasets_translator.go
@@ -182,30 +182,30 @@ func DatasetsToXFA(datasets *types.XFADatasets, verbose bool) (string, error) {
 	// Start data element
 	dataStart := xml.StartElement{Name: xml.Name{Local: "data"}}
 	if err := enc.EncodeToken(dataStart); err != nil {
-		return "", fmt.Errorf("failed to encode data start: %v", err)
+		return "", fmt.Errorf("failed to encode data start: %w", err)
 	}
 
 	// Encode top-level fields
 	for name, value := range datasets.Fields {
 		if err := encodeField(enc, name, value); err != nil {
-			return "", fmt.Errorf("failed to encode field %s: %v", name, err)
+			return "", fmt.Errorf("failed to encode field %s: %w", name, err)
 		}
 	}
 
 	// Encode groups
 	for _, group := range datasets.Groups {
 		if err := encodeFieldGroup(enc, group); err != nil {
-			return "", fmt.Errorf("failed to encode group %s: %v", group.Name, err)
+			return "", fmt.Errorf("failed to encode group %s: %w", group.Name, err)
 		}
 	}
 
 	// End data element
 	if err := enc.EncodeToken(dataStart.End()); err != nil {
-		return "", fmt.Errorf("failed to encode data end: %v", err)
+		return "", fmt.Errorf("failed to encode data end: %w", err)
 	}
 
 	if err := enc.Flush(); err != nil {
-		return "", fmt.Errorf("failed to flush encoder: %v", err)
+		return "", fmt.Errorf("failed to flush encoder: %w", err)
 	}
 
 	result := buf.String()
diff --git a/forms/xfa/xfa_form_translator.go b/forms/xfa/xfa_form_translator.go
index 10499b5..90541dc 100644
--- a/forms/xfa/xfa_form_translator.go
+++ b/forms/xfa/xfa_form_translator.go
@@ -20,7 +20,7 @@ func ParseXFAForm(xfaXML string, verbose bool) (*types.FormSchema, error) {
 	// Parse XFA XML structure
 	xfaData, err := parseXFAStructure(xfaXML, verbose)
 	if err != nil {
-		return nil, fmt.Errorf("failed to parse XFA structure: %v", err)
+		return nil, fmt.Errorf("failed to parse XFA structure: %w", err)
 	}
 
 	// Convert to FormSchema
@@ -90,13 +90,13 @@ func FormToXFA(formSchema *types.FormSchema, verbose bool) (string, error) {
 		})
 	}
 	if err := enc.EncodeToken(templateStart); err != nil {
-		return "", fmt.Errorf("failed to encode template start: %v", err)
+		return "", fmt.Errorf("failed to encode template start: %w", err)
 	}
 
 	// Convert questions to fields
 	for _, question := range formSchema.Questions {
 		if err := encodeQuestionAsField(enc, question); err != nil {
-			return "", fmt.Errorf("failed to encode question %s: %v", question.ID, err)
+			return "", fmt.Errorf("failed to encode question %s: %w", question.ID, err)
 		}
 	}
 
@@ -111,11 +111,11 @@ func FormToXFA(formSchema *types.FormSchema, verbose bool) (string, error) {
 
 	// End template element
 	if err := enc.EncodeToken(templateStart.End()); err != nil {
-		return "", fmt.Errorf("failed to encode template end: %v", err)
+		return "", fmt.Errorf("failed to encode template end: %w", err)
 	}
 
 	if err := enc.Flush(); err != nil {
-		return "", fmt.Errorf("failed to flush encoder: %v", err)
+		return "", fmt.Errorf("failed to flush encoder: %w", err)
 	}
 
 	result := buf.String()
diff --git a/forms/xfa/xfa_locale_translator.go b/forms/xfa/xfa_locale_translator.go
index d90a3f7..ad2edd4 100644
--- a/forms/xfa/xfa_locale_translator.go
+++ b/forms/xfa/xfa_locale_translator.go
@@ -259,23 +259,23 @@ func LocaleSetToXFA(localeSet *types.XFALocaleSet, verbose bool) (string, error)
 	localeSetStart.Attr = attrs
 
 	if err := enc.EncodeToken(localeSetStart); err != nil {
-		return "", fmt.Errorf("failed to encode localeSet start: %v", err)
+		return "", fmt.Errorf("failed to encode localeSet start: %w", err)
 	}
 
 	// Encode locales
 	for _, locale := range localeSet.Locales {
 		if err := encodeLocale(enc, locale); err != nil {
-			return "", fmt.Errorf("failed to encode locale %s: %v", locale.Code, err)
+			return "", fmt.Errorf("failed to encode locale %s: %w", locale.Code, err)
 		}
 	}
 
 	// End localeSet element
 	if err := enc.EncodeToken(localeSetStart.End()); err != nil {
-		return "", fmt.Errorf("failed to encode localeSet end: %v", err)
+		return "", fmt.Errorf("failed to encode localeSet end: %w", err)
 	}
 
 	if err := enc.Flush(); err != nil {
-		return "", fmt.Errorf("failed to flush encoder: %v", err)
+		return "", fmt.Errorf("failed to flush encoder: %w", err)
 	}
 
 	result := buf.String()
diff --git a/forms/xfa/xfa_stylesheet_translator.go b/forms/xfa/xfa_stylesheet_translator.go
index fcc2517..19c07bd 100644
--- a/forms/xfa/xfa_stylesheet_translator.go
+++ b/forms/xfa/xfa_stylesheet_translator.go
@@ -297,23 +297,23 @@ func StylesheetToXFA(stylesheet *types.XFAStylesheet, verbose bool) (string, err
 	// Start stylesheet element
 	stylesheetStart := xml.StartElement{Name: xml.Name{Local: "stylesheet"}}
 	if err := enc.EncodeToken(stylesheetStart); err != nil {
-		return "", fmt.Errorf("failed to encode stylesheet start: %v", err)
+		return "", fmt.Errorf("failed to encode stylesheet start: %w", err)
 	}
 
 	// Encode styles
 	for _, style := range stylesheet.Styles {
 		if err := encodeStyle(enc, style); err != nil {
-			return "", fmt.Errorf("failed to encode style %s: %v", style.Name, err)
+			return "", fmt.Errorf("failed to encode style %s: %w", style.Name, err)
 		}
 	}
 
 	// End stylesheet element
 	if err := enc.EncodeToken(stylesheetStart.End()); err != nil {
-		return "", fmt.Errorf("failed to encode stylesheet end: %v", err)
+		return "", fmt.Errorf("failed to encode stylesheet end: %w", err)
 	}
 
 	if err := enc.Flush(); err != nil {
-		return "", fmt.Errorf("failed to flush encoder: %v", err)
+		return "", fmt.Errorf("failed to flush encoder: %w", err)
 	}
 
 	result := buf.String()
diff --git a/forms/xfa/xfa_utils.go b/forms/xfa/xfa_utils.go
index 0714ac5..c1d1a9b 100644
--- a/forms/xfa/xfa_utils.go
+++ b/forms/xfa/xfa_utils.go
@@ -179,7 +179,7 @@ func findAndDecryptAcroForm(pdfBytes []byte, acroFormObjNum int, encryptInfo *ty
 	// Find the AcroForm object
 	objIndex, err := parse.FindObjectByNumber(pdfBytes, acroFormObjNum, encryptInfo, verbose)
 	if err != nil {
-		return nil, fmt.Errorf("AcroForm object %d not found: %v", acroFormObjNum, err)
+		return nil, fmt.Errorf("AcroForm object %d not found: %w", acroFormObjNum, err)
 	}
 
 	// Find object boundaries using incremental parsing
@@ -517,7 +517,7 @@ func decryptInChunks(encryptedData []byte, objNum, genNum int, encryptInfo *type
 		// If no valid decryption found, try direct decryption anyway
 		decrypted, err := encrypt.DecryptObject(encryptedData, objNum, genNum, encryptInfo)
 		if err != nil {
-			return nil, fmt.Errorf("failed to decrypt: %v", err)
+			return nil, fmt.Errorf("failed to decrypt: %w", err)
 		}
 		return decrypted, nil
 	}
@@ -525,7 +525,7 @@ func decryptInChunks(encryptedData []byte, objNum, genNum int, encryptInfo *type
 	// For RC4 or no encryption, decrypt directly
 	decrypted, err := encrypt.DecryptObject(encryptedData, objNum, genNum, encryptInfo)
 	if err != nil {
-		return nil, fmt.Errorf("failed to decrypt: %v", err)
+		return nil, fmt.Errorf("failed to decrypt: %w", err)
 	}
 	return decrypted, nil
 }
@@ -706,7 +706,7 @@ func extractStreamFromPDF(pdfBytes []byte, streamObjNum int, encryptInfo *types.
 	// Find the stream object using incremental parser (finds non-encrypted markers)
 	streamObjIndex, err := parse.FindObjectByNumber(pdfBytes, streamObjNum, encryptInfo, verbose)
 	if err != nil {
-		return nil, 0, fmt.Errorf("stream object %d not found: %v", streamObjNum, err)
+		return nil, 0, fmt.Errorf("stream object %d not found: %w", streamObjNum, err)
 	}
 
 	// Find object boundaries using incremental parsing
@@ -791,7 +791,7 @@ func extractStreamFromPDF(pdfBytes []byte, streamObjNum int, encryptInfo *types.
 		// Use the extracted generation number instead of hardcoded 0
 		decryptedStream, err := encrypt.DecryptObject(streamContent, streamObjNum, genNum, encryptInfo)
 		if err != nil {
-			return nil, 0, fmt.Errorf("error decrypting stream data for object %d (gen %d): %v", streamObjNum, genNum, err)
+			return nil, 0, fmt.Errorf("error decrypting stream data for object %d (gen %d): %w", streamObjNum, genNum, err)
 		}
 		streamContent = decryptedStream
 		if verbose {
-- 
2.43.0


From c905dad641be0fef0f7ce8b8de9028463c789623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:32 +0000
Subject: [PATCH 09/76] fix: list parsed objects and cross-reference entries in
 object order

---
 core/parse/api.go             |  9 +++------
 core/parse/document_parser.go |  8 ++++++--
 core/parse/parser.go          |  3 ++-
 internal/sorted/keys.go       | 17 +++++++++++++++++
 4 files changed, 28 insertions(+), 9 deletions(-)
 create mode 100644 internal/sorted/keys.go

diff --git a/core/parse/api.go b/core/parse/api.go
index 5e78d64..6926bb8 100644
--- a/core/parse/api.go
+++ b/core/parse/api.go
@@ -29,6 +29,7 @@ package parse
 
 import (
 	"github.com/benedoc-inc/pdfer/core/encrypt"
+	"github.com/benedoc-inc/pdfer/internal/sorted"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -263,13 +264,9 @@ func (p *PDF) ObjectCount() int {
 	return len(p.xref.Objects)
 }
 
-// Objects returns a list of all object numbers in the PDF
+// Objects returns a list of all object numbers in the PDF, in ascending order
 func (p *PDF) Objects() []int {
-	result := make([]int, 0, len(p.xref.Objects))
-	for objNum := range p.xref.Objects {
-		result = append(result, objNum)
-	}
-	return result
+	return sorted.Keys(p.xref.Objects)
 }
 
 // HasObject returns true if the object exists
diff --git a/core/parse/document_parser.go b/core/parse/document_parser.go
index b6c8eee..3f8e414 100644
--- a/core/parse/document_parser.go
+++ b/core/parse/document_parser.go
@@ -6,6 +6,8 @@ import (
 	"fmt"
 	"regexp"
 	"strconv"
+
+	"github.com/benedoc-inc/pdfer/internal/sorted"
 )
 
 // ParsePDFDocument parses a complete PDF preserving all raw bytes for reconstruction
@@ -307,7 +309,8 @@ func parseXRefStreamRaw(pdfBytes []byte, startXRef int64, xref *XRefData) (*XRef
 	}
 
 	// Convert to XRefEntry format
-	for objNum, offset := range result.Objects {
+	for _, objNum := range sorted.Keys(result.Objects) {
+		offset := result.Objects[objNum]
 		xref.Entries = append(xref.Entries, XRefEntry{
 			ObjectNum: objNum,
 			Offset:    offset,
@@ -315,7 +318,8 @@ func parseXRefStreamRaw(pdfBytes []byte, startXRef int64, xref *XRefData) (*XRef
 		})
 	}
 
-	for objNum, streamEntry := range result.ObjectStreams {
+	for _, objNum := range sorted.Keys(result.ObjectStreams) {
+		streamEntry := result.ObjectStreams[objNum]
 		xref.Entries = append(xref.Entries, XRefEntry{
 			ObjectNum:      objNum,
 			InUse:          true,
diff --git a/core/parse/parser.go b/core/parse/parser.go
index 01296fe..9db3ade 100644
--- a/core/parse/parser.go
+++ b/core/parse/parser.go
@@ -8,6 +8,7 @@ import (
 	"strconv"
 	"strings"
 
+	"github.com/benedoc-inc/pdfer/internal/sorted"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -243,7 +244,7 @@ func ParseTraditionalXRefTable(pdfBytes []byte, startXRef int64) (map[int]int64,
 func GetSampleObjectNumbers(objMap map[int]int64, max int) []int {
 	result := make([]int, 0, max)
 	count := 0
-	for objNum := range objMap {
+	for _, objNum := range sorted.Keys(objMap) {
 		if count >= max {
 			break
 		}
diff --git a/internal/sorted/keys.go b/internal/sorted/keys.go
new file mode 100644
index 0000000..263fb9f
--- /dev/null
+++ b/internal/sorted/keys.go
@@ -0,0 +1,17 @@
+// Package sorted helps to iterate over maps in a fixed order.
+package sorted
+
+import (
+	"cmp"
+	"slices"
+)
+
+// Keys returns the keys of m in ascending order.
+func Keys[M ~map[K]V, K cmp.Ordered, V any](m M) []K {
+	keys := make([]K, 0, len(m))
+	for k := range m {
+		keys = append(keys, k)
+	}
+	slices.Sort(keys)
+	return keys
+}
-- 
2.43.0


From 966c9819e9b7f2c2228b1c2858b6df551385831a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:48 +0000
Subject: [PATCH 10/76] fix: write dictionaries, object streams and metadata in
 a fixed order

---
 core/write/metadata.go      | 14 +++++++++-----
 core/write/object_stream.go |  5 ++++-
 core/write/page.go          |  7 +++++--
 core/write/xfa_builder.go   |  4 +++-
 4 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/core/write/metadata.go b/core/write/metadata.go
index 5d40597..00223f1 100644
--- a/core/write/metadata.go
+++ b/core/write/metadata.go
@@ -5,6 +5,7 @@ import (
 	"strings"
 	"time"
 
+	"github.com/benedoc-inc/pdfer/internal/sorted"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -49,7 +50,8 @@ func (w *PDFWriter) SetMetadata(metadata *types.DocumentMetadata) int {
 	}
 
 	// Add custom fields
-	for key, value := range metadata.Custom {
+	for _, key := range sorted.Keys(metadata.Custom) {
+		value := metadata.Custom[key]
 		if key != "" && value != "" {
 			// Ensure key starts with /
 			if !strings.HasPrefix(key, "/") {
@@ -73,7 +75,8 @@ func (w *PDFWriter) SetMetadataFields(fields map[string]string) int {
 		Custom: make(map[string]string),
 	}
 
-	for key, value := range fields {
+	for _, key := range sorted.Keys(fields) {
+		value := fields[key]
 		switch strings.ToLower(key) {
 		case "title":
 			metadata.Title = value
@@ -145,9 +148,9 @@ func formatPDFDate(dateStr string) string {
 		}
 	}
 
-	// If parsing failed, use current time
+	// Keep a date in an unknown format as the caller wrote it
 	if err != nil {
-		t = time.Now()
+		return escapePDFStringForMetadata(dateStr)
 	}
 
 	// Format as PDF date: D:YYYYMMDDHHmmSSOHH'mm
@@ -186,7 +189,8 @@ func NewMetadataFromFields(fields map[string]string) *types.DocumentMetadata {
 		Custom: make(map[string]string),
 	}
 
-	for key, value := range fields {
+	for _, key := range sorted.Keys(fields) {
+		value := fields[key]
 		switch strings.ToLower(key) {
 		case "title":
 			metadata.Title = value
diff --git a/core/write/object_stream.go b/core/write/object_stream.go
index 9bb1a65..6819112 100644
--- a/core/write/object_stream.go
+++ b/core/write/object_stream.go
@@ -6,6 +6,8 @@ import (
 	"fmt"
 	"strconv"
 	"strings"
+
+	"github.com/benedoc-inc/pdfer/internal/sorted"
 )
 
 // objectStreamGroup represents a group of objects to be stored in an object stream
@@ -27,7 +29,8 @@ func (w *PDFWriter) createObjectStreams() (map[int]struct {
 	// Group non-stream objects into object streams
 	// For simplicity, put all eligible objects into one stream (can be optimized later)
 	var eligibleObjs []int
-	for objNum, obj := range w.objects {
+	for _, objNum := range sorted.Keys(w.objects) {
+		obj := w.objects[objNum]
 		if obj.IsFree {
 			continue
 		}
diff --git a/core/write/page.go b/core/write/page.go
index 6e972f1..586dc9e 100644
--- a/core/write/page.go
+++ b/core/write/page.go
@@ -4,6 +4,7 @@ package write
 import (
 	"fmt"
 
+	"github.com/benedoc-inc/pdfer/internal/sorted"
 	"github.com/benedoc-inc/pdfer/resources/font"
 	"github.com/benedoc-inc/pdfer/types"
 )
@@ -137,7 +138,8 @@ func (pb *PageBuilder) Build(pagesObjNum int) int {
 	// Add fonts
 	if len(pb.fonts) > 0 {
 		resources += "/Font<<"
-		for name, objNum := range pb.fonts {
+		for _, name := range sorted.Keys(pb.fonts) {
+			objNum := pb.fonts[name]
 			resources += fmt.Sprintf("/%s %d 0 R", name, objNum)
 		}
 		resources += ">>"
@@ -146,7 +148,8 @@ func (pb *PageBuilder) Build(pagesObjNum int) int {
 	// Add images as XObjects
 	if len(pb.images) > 0 {
 		resources += "/XObject<<"
-		for name, objNum := range pb.images {
+		for _, name := range sorted.Keys(pb.images) {
+			objNum := pb.images[name]
 			resources += fmt.Sprintf("/%s %d 0 R", name, objNum)
 		}
 		resources += ">>"
diff --git a/core/write/xfa_builder.go b/core/write/xfa_builder.go
index 40797de..1bead3f 100644
--- a/core/write/xfa_builder.go
+++ b/core/write/xfa_builder.go
@@ -10,6 +10,7 @@ import (
 	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/internal/sorted"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -114,7 +115,8 @@ func (b *XFABuilder) BuildFromOriginal(originalPDF []byte, updatedStreams map[st
 	}
 
 	// Update stream objects with new data
-	for streamName, newData := range updatedStreams {
+	for _, streamName := range sorted.Keys(updatedStreams) {
+		newData := updatedStreams[streamName]
 		if objNum, ok := xfaStreamMap[streamName]; ok {
 			if obj, objOk := objects[objNum]; objOk {
 				// Compress the new data
-- 
2.43.0


From 53d6466984ca86fbc44122c0d60034a89dcc5491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 11/76] fix: report images, fonts and differences in a fixed
 order

---
 content/extract/extract.go |  7 +++++--
 content/extract/images.go  |  7 +++++--
 core/compare/compare.go    | 34 +++++++++++++++++++++++-----------
 3 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/content/extract/extract.go b/content/extract/extract.go
index 581cb88..eca4df5 100644
--- a/content/extract/extract.go
+++ b/content/extract/extract.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/internal/sorted"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -82,7 +83,8 @@ func ExtractContent(pdfBytes []byte, password []byte, verbose bool) (*types.Cont
 			}
 		}
 	}
-	for _, img := range imageMap {
+	for _, key := range sorted.Keys(imageMap) {
+		img := imageMap[key]
 		doc.Images = append(doc.Images, img)
 	}
 
@@ -97,7 +99,8 @@ func ExtractContent(pdfBytes []byte, password []byte, verbose bool) (*types.Cont
 			}
 		}
 	}
-	for _, font := range fontMap {
+	for _, key := range sorted.Keys(fontMap) {
+		font := fontMap[key]
 		doc.Fonts = append(doc.Fonts, font)
 	}
 
diff --git a/content/extract/images.go b/content/extract/images.go
index 31336e6..045bb24 100644
--- a/content/extract/images.go
+++ b/content/extract/images.go
@@ -9,6 +9,7 @@ import (
 	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/internal/sorted"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -236,7 +237,8 @@ func ExtractAllImages(pdfBytes []byte, password []byte, verbose bool) ([]types.I
 	}
 
 	// Extract full image data with binary for each unique image
-	for name, objNum := range imageObjNumMap {
+	for _, name := range sorted.Keys(imageObjNumMap) {
+		objNum := imageObjNumMap[name]
 		image, err := extractImageData(objNum, pdf, verbose)
 		if err != nil {
 			if verbose {
@@ -259,7 +261,8 @@ func ExtractAllImages(pdfBytes []byte, password []byte, verbose bool) ([]types.I
 	// Also add any images we found but couldn't get object numbers for (metadata only)
 	for _, page := range doc.Pages {
 		if page.Resources != nil {
-			for name, image := range page.Resources.Images {
+			for _, name := range sorted.Keys(page.Resources.Images) {
+				image := page.Resources.Images[name]
 				imageID := "/" + name
 				if !imageMap[imageID] {
 					allImages = append(allImages, image)
diff --git a/core/compare/compare.go b/core/compare/compare.go
index cff114e..889ad79 100644
--- a/core/compare/compare.go
+++ b/core/compare/compare.go
@@ -7,6 +7,7 @@ import (
 
 	"github.com/benedoc-inc/pdfer/content/extract"
 	"github.com/benedoc-inc/pdfer/forms"
+	"github.com/benedoc-inc/pdfer/internal/sorted"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -568,7 +569,8 @@ func compareGraphics(g1, g2 []types.Graphic) *GraphicDiff {
 	}
 
 	// Remaining in g1Map are removed
-	for _, g := range g1Map {
+	for _, key := range sorted.Keys(g1Map) {
+		g := g1Map[key]
 		diff.Removed = append(diff.Removed, g)
 	}
 
@@ -603,7 +605,8 @@ func compareImagesWithBinary(img1, img2 []types.ImageRef, resources1, resources2
 
 	// Extract images from PDF1
 	if resources1 != nil {
-		for name, img := range resources1.Images {
+		for _, name := range sorted.Keys(resources1.Images) {
+			img := resources1.Images[name]
 			imageID := "/" + name
 			// Get full image data with binary
 			fullImg, err := getImageWithBinary(imageID, pdf1Bytes, &img)
@@ -618,7 +621,8 @@ func compareImagesWithBinary(img1, img2 []types.ImageRef, resources1, resources2
 
 	// Extract images from PDF2
 	if resources2 != nil {
-		for name, img := range resources2.Images {
+		for _, name := range sorted.Keys(resources2.Images) {
+			img := resources2.Images[name]
 			imageID := "/" + name
 			// Get full image data with binary
 			fullImg, err := getImageWithBinary(imageID, pdf2Bytes, &img)
@@ -814,7 +818,8 @@ func compareAnnotations(a1, a2 []types.Annotation) *AnnotationDiff {
 	}
 
 	// Remaining in a1Map are removed
-	for _, a := range a1Map {
+	for _, key := range sorted.Keys(a1Map) {
+		a := a1Map[key]
 		diff.Removed = append(diff.Removed, a)
 	}
 
@@ -878,7 +883,8 @@ func compareForms(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verb
 	if err1 != nil && err2 == nil {
 		// PDF1 has no form, PDF2 has form - all fields in PDF2 are "added"
 		values2 := form2.GetValues()
-		for name, value := range values2 {
+		for _, name := range sorted.Keys(values2) {
+			value := values2[name]
 			diff.Added = append(diff.Added, FormFieldChange{
 				FieldName: name,
 				NewValue:  value,
@@ -890,7 +896,8 @@ func compareForms(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verb
 	if err1 == nil && err2 != nil {
 		// PDF1 has form, PDF2 has no form - all fields in PDF1 are "removed"
 		values1 := form1.GetValues()
-		for name, value := range values1 {
+		for _, name := range sorted.Keys(values1) {
+			value := values1[name]
 			diff.Removed = append(diff.Removed, FormFieldChange{
 				FieldName: name,
 				OldValue:  value,
@@ -908,13 +915,15 @@ func compareForms(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verb
 		// If form types differ, treat all fields as changed
 		values1 := form1.GetValues()
 		values2 := form2.GetValues()
-		for name, value := range values1 {
+		for _, name := range sorted.Keys(values1) {
+			value := values1[name]
 			diff.Removed = append(diff.Removed, FormFieldChange{
 				FieldName: name,
 				OldValue:  value,
 			})
 		}
-		for name, value := range values2 {
+		for _, name := range sorted.Keys(values2) {
+			value := values2[name]
 			diff.Added = append(diff.Added, FormFieldChange{
 				FieldName: name,
 				NewValue:  value,
@@ -929,7 +938,8 @@ func compareForms(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verb
 
 	// Find added, removed, and modified fields
 	// Fields in PDF2 but not in PDF1
-	for name, value := range values2 {
+	for _, name := range sorted.Keys(values2) {
+		value := values2[name]
 		if _, exists := values1[name]; !exists {
 			diff.Added = append(diff.Added, FormFieldChange{
 				FieldName: name,
@@ -939,7 +949,8 @@ func compareForms(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verb
 	}
 
 	// Fields in PDF1 but not in PDF2
-	for name, value := range values1 {
+	for _, name := range sorted.Keys(values1) {
+		value := values1[name]
 		if _, exists := values2[name]; !exists {
 			diff.Removed = append(diff.Removed, FormFieldChange{
 				FieldName: name,
@@ -949,7 +960,8 @@ func compareForms(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verb
 	}
 
 	// Fields in both - check if values changed
-	for name, value1 := range values1 {
+	for _, name := range sorted.Keys(values1) {
+		value1 := values1[name]
 		if value2, exists := values2[name]; exists {
 			if !valuesEqual(value1, value2) {
 				diff.Modified = append(diff.Modified, FormFieldChange{
-- 
2.43.0


From 5cbb5e7fc508ab813807d8336aa50a5265241f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:23 +0000
Subject: [PATCH 12/76] fix: fill and validate form fields in name order, keep
 the document when one field fails

---
 forms/acroform/fill_streams.go | 29 +++++++++++++++++------------
 forms/acroform/validation.go   |  7 +++++--
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/forms/acroform/fill_streams.go b/forms/acroform/fill_streams.go
index 154e026..cd4ce04 100644
--- a/forms/acroform/fill_streams.go
+++ b/forms/acroform/fill_streams.go
@@ -8,6 +8,7 @@ import (
 	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/internal/sorted"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -48,7 +49,8 @@ func FillFormFieldsWithStreams(pdfBytes []byte, formData types.FormData, passwor
 	// Track updates per stream
 	streamUpdates := make(map[int][]StreamObjectUpdate)
 
-	for fieldName, value := range formData {
+	for _, fieldName := range sorted.Keys(formData) {
+		value := formData[fieldName]
 		field := acroForm.FindFieldByName(fieldName)
 		if field == nil {
 			if verbose {
@@ -66,9 +68,10 @@ func FillFormFieldsWithStreams(pdfBytes []byte, formData types.FormData, passwor
 				fmt.Printf("Warning: Cannot access object %d: %v, trying direct replacement\n", field.ObjectNum, objErr)
 			}
 			// Try direct replacement
-			var fillErr error
-			result, fillErr = FillFieldValue(result, field, value, encryptInfo, verbose)
-			if fillErr != nil && verbose {
+			filled, fillErr := FillFieldValue(result, field, value, encryptInfo, verbose)
+			if fillErr == nil {
+				result = filled
+			} else if verbose {
 				fmt.Printf("Warning: Failed to fill field '%s': %v\n", fieldName, fillErr)
 			}
 			continue
@@ -122,22 +125,23 @@ func FillFormFieldsWithStreams(pdfBytes []byte, formData types.FormData, passwor
 					fmt.Printf("Warning: Could not find stream for object %d, using direct replacement\n", field.ObjectNum)
 				}
 				// Fall back to direct replacement
-				var fillErr error
-				result, fillErr = FillFieldValue(result, field, value, encryptInfo, verbose)
-				if fillErr != nil && verbose {
+				filled, fillErr := FillFieldValue(result, field, value, encryptInfo, verbose)
+				if fillErr == nil {
+					result = filled
+				} else if verbose {
 					fmt.Printf("Warning: Failed to fill field '%s': %v\n", fieldName, fillErr)
 				}
 			}
 		} else {
 			// Direct object - use simple replacement
-			var fillErr error
-			result, fillErr = FillFieldValue(result, field, value, encryptInfo, verbose)
+			filled, fillErr := FillFieldValue(result, field, value, encryptInfo, verbose)
 			if fillErr != nil {
 				if verbose {
 					fmt.Printf("Warning: Failed to fill field '%s': %v\n", fieldName, fillErr)
 				}
 				continue
 			}
+			result = filled
 		}
 
 		if verbose {
@@ -146,13 +150,13 @@ func FillFormFieldsWithStreams(pdfBytes []byte, formData types.FormData, passwor
 	}
 
 	// Rebuild object streams that were modified
-	for streamObjNum, updates := range streamUpdates {
+	for _, streamObjNum := range sorted.Keys(streamUpdates) {
+		updates := streamUpdates[streamObjNum]
 		if verbose {
 			fmt.Printf("Rebuilding object stream %d with %d updates\n", streamObjNum, len(updates))
 		}
 
-		var rebuildErr error
-		result, rebuildErr = RebuildObjectStream(result, streamObjNum, updates, encryptInfo, verbose)
+		rebuilt, rebuildErr := RebuildObjectStream(result, streamObjNum, updates, encryptInfo, verbose)
 		if rebuildErr != nil {
 			if verbose {
 				fmt.Printf("Warning: Failed to rebuild object stream %d: %v\n", streamObjNum, rebuildErr)
@@ -160,6 +164,7 @@ func FillFormFieldsWithStreams(pdfBytes []byte, formData types.FormData, passwor
 			// Continue with other streams
 			continue
 		}
+		result = rebuilt
 
 		if verbose {
 			fmt.Printf("Successfully rebuilt object stream %d\n", streamObjNum)
diff --git a/forms/acroform/validation.go b/forms/acroform/validation.go
index d984078..43cf7a4 100644
--- a/forms/acroform/validation.go
+++ b/forms/acroform/validation.go
@@ -6,6 +6,7 @@ import (
 	"regexp"
 	"strconv"
 
+	"github.com/benedoc-inc/pdfer/internal/sorted"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -171,7 +172,8 @@ func validateSignatureField(field *Field, value interface{}) error {
 func ValidateFormData(acroForm *AcroForm, formData types.FormData) []error {
 	var errors []error
 
-	for fieldName, value := range formData {
+	for _, fieldName := range sorted.Keys(formData) {
+		value := formData[fieldName]
 		field := acroForm.FindFieldByName(fieldName)
 		if field == nil {
 			errors = append(errors, fmt.Errorf("field '%s' not found in form", fieldName))
@@ -305,7 +307,8 @@ func ValidateFormSchema(schema *types.FormSchema, formData types.FormData) []err
 	}
 
 	// Validate provided values
-	for fieldName, value := range formData {
+	for _, fieldName := range sorted.Keys(formData) {
+		value := formData[fieldName]
 		question, found := questionsByName[fieldName]
 		if !found {
 			errors = append(errors, fmt.Errorf("field '%s' not found in schema", fieldName))
-- 
2.43.0


From bd589766fbac6489d772033056fd37fbb91d0df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:29 +0000
Subject: [PATCH 13/76] fix: write XFA properties and ToUnicode maps in a fixed
 order

---
 forms/xfa/xfa.go                       | 4 +++-
 forms/xfa/xfa_config_translator.go     | 4 +++-
 forms/xfa/xfa_connection_translator.go | 7 +++++--
 forms/xfa/xfa_datasets_translator.go   | 7 +++++--
 forms/xfa/xfa_form_translator.go       | 4 +++-
 forms/xfa/xfa_stylesheet_translator.go | 4 +++-
 resources/font/pdf.go                  | 5 ++++-
 7 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/forms/xfa/xfa.go b/forms/xfa/xfa.go
index 4b5f185..24606b1 100644
--- a/forms/xfa/xfa.go
+++ b/forms/xfa/xfa.go
@@ -12,6 +12,7 @@ import (
 	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/internal/sorted"
 	"github.com/benedoc-inc/pdfer/types"
 	"github.com/benedoc-inc/pdfer/core/write"
 )
@@ -512,7 +513,8 @@ func UpdateXFAValues(xfaXML string, formData types.FormData, verbose bool) (stri
 func UpdateXFAFieldValues(xfaXML string, formData types.FormData, verbose bool) (string, error) {
 	resultXML := xfaXML
 
-	for fieldName, newValue := range formData {
+	for _, fieldName := range sorted.Keys(formData) {
+		newValue := formData[fieldName]
 		// Find field in XFA XML
 		fieldPattern := fmt.Sprintf(`<field name="%s"`, fieldName)
 		fieldIndex := strings.Index(resultXML, fieldPattern)
diff --git a/forms/xfa/xfa_config_translator.go b/forms/xfa/xfa_config_translator.go
index db5bf7f..8762dcb 100644
--- a/forms/xfa/xfa_config_translator.go
+++ b/forms/xfa/xfa_config_translator.go
@@ -8,6 +8,7 @@ import (
 	"strconv"
 	"strings"
 
+	"github.com/benedoc-inc/pdfer/internal/sorted"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -324,7 +325,8 @@ func ConfigToXFA(config *types.XFAConfig, verbose bool) (string, error) {
 
 	// Encode additional properties
 	if config.Properties != nil {
-		for key, value := range config.Properties {
+		for _, key := range sorted.Keys(config.Properties) {
+			value := config.Properties[key]
 			elemStart := xml.StartElement{Name: xml.Name{Local: key}}
 			if err := enc.EncodeToken(elemStart); err != nil {
 				return "", err
diff --git a/forms/xfa/xfa_connection_translator.go b/forms/xfa/xfa_connection_translator.go
index ed6b3b0..2609c92 100644
--- a/forms/xfa/xfa_connection_translator.go
+++ b/forms/xfa/xfa_connection_translator.go
@@ -7,6 +7,7 @@ import (
 	"log"
 	"strings"
 
+	"github.com/benedoc-inc/pdfer/internal/sorted"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -276,7 +277,8 @@ func encodeConnection(enc *xml.Encoder, connection types.XFAConnection) error {
 
 	// Encode properties
 	if connection.Properties != nil {
-		for key, value := range connection.Properties {
+		for _, key := range sorted.Keys(connection.Properties) {
+			value := connection.Properties[key]
 			elemStart := xml.StartElement{Name: xml.Name{Local: key}}
 			if err := enc.EncodeToken(elemStart); err != nil {
 				return err
@@ -317,7 +319,8 @@ func encodeDataDescription(enc *xml.Encoder, desc *types.XFADataDescription) err
 
 	// Encode properties
 	if desc.Properties != nil {
-		for key, value := range desc.Properties {
+		for _, key := range sorted.Keys(desc.Properties) {
+			value := desc.Properties[key]
 			elemStart := xml.StartElement{Name: xml.Name{Local: key}}
 			if err := enc.EncodeToken(elemStart); err != nil {
 				return err
diff --git a/forms/xfa/xfa_datasets_translator.go b/forms/xfa/xfa_datasets_translator.go
index cd192d3..bf3d526 100644
--- a/forms/xfa/xfa_datasets_translator.go
+++ b/forms/xfa/xfa_datasets_translator.go
@@ -8,6 +8,7 @@ import (
 	"strconv"
 	"strings"
 
+	"github.com/benedoc-inc/pdfer/internal/sorted"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -186,7 +187,8 @@ func DatasetsToXFA(datasets *types.XFADatasets, verbose bool) (string, error) {
 	}
 
 	// Encode top-level fields
-	for name, value := range datasets.Fields {
+	for _, name := range sorted.Keys(datasets.Fields) {
+		value := datasets.Fields[name]
 		if err := encodeField(enc, name, value); err != nil {
 			return "", fmt.Errorf("failed to encode field %s: %w", name, err)
 		}
@@ -259,7 +261,8 @@ func encodeFieldGroup(enc *xml.Encoder, group types.XFAFieldGroup) error {
 	}
 
 	// Encode fields in group
-	for name, value := range group.Fields {
+	for _, name := range sorted.Keys(group.Fields) {
+		value := group.Fields[name]
 		if err := encodeField(enc, name, value); err != nil {
 			return err
 		}
diff --git a/forms/xfa/xfa_form_translator.go b/forms/xfa/xfa_form_translator.go
index 90541dc..fbfccfb 100644
--- a/forms/xfa/xfa_form_translator.go
+++ b/forms/xfa/xfa_form_translator.go
@@ -8,6 +8,7 @@ import (
 	"strconv"
 	"strings"
 
+	"github.com/benedoc-inc/pdfer/internal/sorted"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -169,7 +170,8 @@ func encodeQuestionAsField(enc *xml.Encoder, question types.Question) error {
 
 	// Add layout properties
 	if question.Properties != nil {
-		for key, val := range question.Properties {
+		for _, key := range sorted.Keys(question.Properties) {
+			val := question.Properties[key]
 			if key == "x" || key == "y" || key == "w" || key == "h" {
 				fieldStart.Attr = append(fieldStart.Attr, xml.Attr{
 					Name:  xml.Name{Local: key},
diff --git a/forms/xfa/xfa_stylesheet_translator.go b/forms/xfa/xfa_stylesheet_translator.go
index 19c07bd..112665b 100644
--- a/forms/xfa/xfa_stylesheet_translator.go
+++ b/forms/xfa/xfa_stylesheet_translator.go
@@ -8,6 +8,7 @@ import (
 	"strconv"
 	"strings"
 
+	"github.com/benedoc-inc/pdfer/internal/sorted"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -382,7 +383,8 @@ func encodeStyle(enc *xml.Encoder, style types.XFAStyle) error {
 	}
 
 	// Encode other properties
-	for key, value := range style.Properties {
+	for _, key := range sorted.Keys(style.Properties) {
+		value := style.Properties[key]
 		if key != "font" && key != "border" && key != "margin" && key != "padding" && key != "position" && key != "size" {
 			elemStart := xml.StartElement{Name: xml.Name{Local: key}}
 			if err := enc.EncodeToken(elemStart); err != nil {
diff --git a/resources/font/pdf.go b/resources/font/pdf.go
index 038a41d..6a06523 100644
--- a/resources/font/pdf.go
+++ b/resources/font/pdf.go
@@ -7,6 +7,8 @@ import (
 	"encoding/hex"
 	"fmt"
 	"sort"
+
+	"github.com/benedoc-inc/pdfer/internal/sorted"
 )
 
 // FontObjects represents the PDF objects needed for an embedded font
@@ -177,7 +179,8 @@ func (f *Font) createToUnicodeCMapData(glyphs []uint16) []byte {
 
 	// Create reverse mapping: glyph ID -> Unicode
 	glyphToUnicode := make(map[uint16][]rune)
-	for unicode, gid := range glyphMap {
+	for _, unicode := range sorted.Keys(glyphMap) {
+		gid := glyphMap[unicode]
 		glyphToUnicode[gid] = append(glyphToUnicode[gid], unicode)
 	}
 
-- 
2.43.0


From d33b40ea4f2ff56f6e3fae4f29cf73eeeb5e215a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:48 +0000
Subject: [PATCH 14/76] fix: do not log password hashes and computed
 verification values

---
 core/encrypt/decrypt.go        |  5 +----
 core/encrypt/key_derivation.go | 11 ++++-------
 2 files changed, 5 insertions(+), 11 deletions(-)

diff --git a/core/encrypt/decrypt.go b/core/encrypt/decrypt.go
index cbb5758..ea86e7c 100644
--- a/core/encrypt/decrypt.go
+++ b/core/encrypt/decrypt.go
@@ -130,10 +130,7 @@ func DecryptPDF(pdfBytes []byte, password []byte, verbose bool) ([]byte, *types.
 			if uMatch {
 				log.Printf("U value matches! Password verified")
 			} else {
-				log.Printf("U value mismatch - computed: %x (first 16), stored: %x (first 16)",
-					uValue[:min(16, len(uValue))], encrypt.U[:min(16, len(encrypt.U))])
-				log.Printf("Full computed U: %x", uValue)
-				log.Printf("Full stored U: %x", encrypt.U)
+				log.Printf("U value mismatch - computed %d bytes, stored %d bytes", len(uValue), len(encrypt.U))
 			}
 		}
 
diff --git a/core/encrypt/key_derivation.go b/core/encrypt/key_derivation.go
index 33d408f..0ad8928 100644
--- a/core/encrypt/key_derivation.go
+++ b/core/encrypt/key_derivation.go
@@ -158,7 +158,7 @@ func ComputeUValue(encryptKey []byte, encrypt *types.PDFEncryption, fileID []byt
 		cipher.XORKeyStream(encrypted, hashed[:16])
 
 		if verbose {
-			log.Printf("After first RC4 encryption: %x", encrypted)
+			log.Printf("Completed first RC4 encryption (%d bytes)", len(encrypted))
 		}
 
 		// For revision 3-4, do 19 additional iterations (not 16)
@@ -173,7 +173,7 @@ func ComputeUValue(encryptKey []byte, encrypt *types.PDFEncryption, fileID []byt
 		}
 
 		if verbose {
-			log.Printf("After 19 RC4 iterations: %x", encrypted)
+			log.Printf("Completed 19 RC4 iterations (%d bytes)", len(encrypted))
 		}
 
 		// Append 16 bytes of arbitrary padding to make 32 bytes total
@@ -529,7 +529,7 @@ func ComputeUValueV5(password []byte, passwordKey []byte, encrypt *types.PDFEncr
 	hashed := hash.Sum(nil)
 
 	if verbose {
-		log.Printf("V5 U computation: password=%d bytes, validation_salt=%x, hash=%x", len(password), validationSalt, hashed)
+		log.Printf("V5 U computation: password=%d bytes, validation_salt=%x, hash=%d bytes", len(password), validationSalt, len(hashed))
 	}
 
 	// Step 2: Encrypt the hash with AES-128 ECB using first 16 bytes of password-derived key
@@ -558,8 +558,7 @@ func ComputeUValueV5(password []byte, passwordKey []byte, encrypt *types.PDFEncr
 	}
 
 	if verbose {
-		log.Printf("V5 U value computed: validation_salt=%x, encrypted_hash=%x, user_key_salt=%x",
-			result[:8], result[8:40], result[40:48])
+		log.Printf("V5 U value computed: %d bytes", len(result))
 	}
 
 	return result, nil
@@ -590,8 +589,6 @@ func VerifyUValueV5(password []byte, passwordKey []byte, encrypt *types.PDFEncry
 			log.Printf("V5 U value verification: PASSED")
 		} else {
 			log.Printf("V5 U value verification: FAILED")
-			log.Printf("  Stored encrypted hash:   %x", storedEncryptedHash)
-			log.Printf("  Computed encrypted hash: %x", computedEncryptedHash)
 		}
 	}
 
-- 
2.43.0


From 975df841516f5e633a5952714d64ed53a0303bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:25 +0000
Subject: [PATCH 15/76] fix: verify the owner password against the stored O
 value before accepting it

---
 core/encrypt/decrypt.go        | 25 +++++++++++++------------
 core/encrypt/key_derivation.go | 33 +++++++++++++++++++++++++++++++++
 2 files changed, 46 insertions(+), 12 deletions(-)

diff --git a/core/encrypt/decrypt.go b/core/encrypt/decrypt.go
index ea86e7c..35373cc 100644
--- a/core/encrypt/decrypt.go
+++ b/core/encrypt/decrypt.go
@@ -55,19 +55,20 @@ func DecryptPDF(pdfBytes []byte, password []byte, verbose bool) ([]byte, *types.
 			}
 			ownerPasswordKey, err2 := DeriveOwnerKeyV5(password, encrypt, fileID, verbose)
 			if err2 == nil {
-				// For owner password, we need to verify differently
-				// Owner password verification involves unwrapping /OE and checking if it works
-				ownerKey, err2 := UnwrapOwnerKeyV5(ownerPasswordKey, encrypt, verbose)
-				if err2 == nil {
-					// If unwrapping succeeded, owner password is correct
-					// The unwrapped owner key is the user encryption key
-					encryptKey = ownerKey
-					encrypt.EncryptKey = encryptKey
-					if verbose {
-						log.Printf("Owner password verified via /OE unwrapping")
-						log.Printf("Unwrapped encryption key (length: %d)", len(encryptKey))
+				// Verify the owner password against the stored O value before unwrapping /OE
+				oMatch, err2 := VerifyOValueV5(password, ownerPasswordKey, encrypt, verbose)
+				if err2 == nil && oMatch {
+					ownerKey, err2 := UnwrapOwnerKeyV5(ownerPasswordKey, encrypt, verbose)
+					if err2 == nil {
+						// The unwrapped owner key is the user encryption key
+						encryptKey = ownerKey
+						encrypt.EncryptKey = encryptKey
+						if verbose {
+							log.Printf("Owner password verified via O value")
+							log.Printf("Unwrapped encryption key (length: %d)", len(encryptKey))
+						}
+						uMatch = true
 					}
-					uMatch = true
 				}
 			}
 		}
diff --git a/core/encrypt/key_derivation.go b/core/encrypt/key_derivation.go
index 0ad8928..cf382ea 100644
--- a/core/encrypt/key_derivation.go
+++ b/core/encrypt/key_derivation.go
@@ -594,3 +594,36 @@ func VerifyUValueV5(password []byte, passwordKey []byte, encrypt *types.PDFEncry
 
 	return match, nil
 }
+
+// VerifyOValueV5 verifies an owner password by comparing the computed O value with the stored O value.
+// The O value holds the validation salt (8 bytes), the encrypted SHA-256 hash of
+// owner password + validation salt + U value (32 bytes), and the owner key salt (8 bytes).
+func VerifyOValueV5(ownerPassword []byte, ownerPasswordKey []byte, encrypt *types.PDFEncryption, verbose bool) (bool, error) {
+	if len(encrypt.U) < 48 || len(encrypt.O) < 48 {
+		return false, fmt.Errorf("U or O value too short for V5: %d and %d bytes (expected at least 48)", len(encrypt.U), len(encrypt.O))
+	}
+	if len(ownerPasswordKey) < 16 {
+		return false, fmt.Errorf("owner password key too short: %d bytes (need at least 16 for AES-128)", len(ownerPasswordKey))
+	}
+
+	hash := sha256.New()
+	hash.Write(ownerPassword)
+	hash.Write(encrypt.O[:8])
+	hash.Write(encrypt.U[:48])
+	hashed := hash.Sum(nil)
+
+	block, err := aes.NewCipher(ownerPasswordKey[:16])
+	if err != nil {
+		return false, fmt.Errorf("failed to create AES cipher: %w", err)
+	}
+	computed := make([]byte, 32)
+	block.Encrypt(computed[:16], hashed[:16])
+	block.Encrypt(computed[16:], hashed[16:])
+
+	match := bytes.Equal(computed, encrypt.O[8:40])
+	if verbose {
+		log.Printf("V5 O value verification: match=%v", match)
+	}
+
+	return match, nil
+}
-- 
2.43.0


From 8b8939391dc78ecbbdd2d81ef6b3cfc4d7b9b4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:35 +0000
Subject: [PATCH 16/76] fix: an invalid encryption dictionary is an error, not
 an unencrypted document

---
 core/encrypt/parser.go | 6 +++++-
 core/parse/api.go      | 7 +++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/core/encrypt/parser.go b/core/encrypt/parser.go
index 65ed182..a61b2b9 100644
--- a/core/encrypt/parser.go
+++ b/core/encrypt/parser.go
@@ -2,6 +2,7 @@ package encrypt
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"log"
 	"regexp"
@@ -11,6 +12,9 @@ import (
 	"github.com/benedoc-inc/pdfer/types"
 )
 
+// ErrNotEncrypted is returned by ParseEncryptionDictionary for a document without an /Encrypt entry
+var ErrNotEncrypted = errors.New("/Encrypt dictionary not found")
+
 // ParseEncryptionDictionary parses the /Encrypt dictionary from PDF
 func ParseEncryptionDictionary(pdfBytes []byte, verbose bool) (*types.PDFEncryption, error) {
 	pdfStr := string(pdfBytes)
@@ -23,7 +27,7 @@ func ParseEncryptionDictionary(pdfBytes []byte, verbose bool) (*types.PDFEncrypt
 	var err error
 
 	if encryptMatch == nil {
-		return nil, fmt.Errorf("/Encrypt dictionary not found")
+		return nil, ErrNotEncrypted
 	}
 
 	encryptObjNum, err = strconv.Atoi(pdfStr[encryptMatch[2]:encryptMatch[3]])
diff --git a/core/parse/api.go b/core/parse/api.go
index 6926bb8..06197e8 100644
--- a/core/parse/api.go
+++ b/core/parse/api.go
@@ -28,6 +28,7 @@
 package parse
 
 import (
+	"errors"
 	"github.com/benedoc-inc/pdfer/core/encrypt"
 	"github.com/benedoc-inc/pdfer/internal/sorted"
 	"github.com/benedoc-inc/pdfer/types"
@@ -120,8 +121,10 @@ func (p *PDF) handleEncryption() error {
 	// Try to parse encryption dictionary
 	enc, err := encrypt.ParseEncryptionDictionary(p.raw, p.opts.Verbose)
 	if err != nil {
-		// No encryption or parse error - assume unencrypted
-		return nil
+		if errors.Is(err, encrypt.ErrNotEncrypted) {
+			return nil
+		}
+		return types.WrapError(types.ErrCodeDecryptionFailed, "invalid encryption dictionary", err)
 	}
 
 	if enc != nil {
-- 
2.43.0


From 20771c421dd3e4c202600cdd4f1941e8b5747bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:47 +0000
Subject: [PATCH 17/76] fix: XFA form operations verify the password and
 decrypt instead of ignoring encryption

---
 forms/forms.go | 56 +++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 42 insertions(+), 14 deletions(-)

diff --git a/forms/forms.go b/forms/forms.go
index bd30a45..e871742 100644
--- a/forms/forms.go
+++ b/forms/forms.go
@@ -3,6 +3,9 @@
 package forms
 
 import (
+	"bytes"
+
+	"github.com/benedoc-inc/pdfer/core/encrypt"
 	"github.com/benedoc-inc/pdfer/forms/acroform"
 	"github.com/benedoc-inc/pdfer/forms/xfa"
 	"github.com/benedoc-inc/pdfer/types"
@@ -79,18 +82,15 @@ func (w *XFAFormWrapper) Schema() *types.FormSchema {
 }
 
 func (w *XFAFormWrapper) Fill(pdfBytes []byte, data types.FormData, password []byte, verbose bool) ([]byte, error) {
-	// Get encryption info if needed
-	var encryptInfo *types.PDFEncryption
-	if len(password) > 0 || len(w.password) > 0 {
-		pwd := password
-		if len(pwd) == 0 {
-			pwd = w.password
-		}
-		// Parse encryption if PDF is encrypted
-		// For now, use the XFA update function
-		return xfa.UpdateXFAInPDF(pdfBytes, data, encryptInfo, verbose)
+	pwd := password
+	if len(pwd) == 0 {
+		pwd = w.password
 	}
-	return xfa.UpdateXFAInPDF(pdfBytes, data, nil, verbose)
+	encryptInfo, err := openEncryption(pdfBytes, pwd, verbose)
+	if err != nil {
+		return nil, err
+	}
+	return xfa.UpdateXFAInPDF(pdfBytes, data, encryptInfo, verbose)
 }
 
 func (w *XFAFormWrapper) Validate(data types.FormData) []error {
@@ -106,8 +106,26 @@ func (w *XFAFormWrapper) GetValues() map[string]interface{} {
 	return make(map[string]interface{})
 }
 
+// openEncryption verifies the password of an encrypted PDF and returns its encryption;
+// for an unencrypted PDF it returns nil
+func openEncryption(pdfBytes []byte, password []byte, verbose bool) (*types.PDFEncryption, error) {
+	if !bytes.Contains(pdfBytes, []byte("/Encrypt")) {
+		return nil, nil
+	}
+	_, encryptInfo, err := encrypt.DecryptPDF(pdfBytes, password, verbose)
+	if err != nil {
+		return nil, types.WrapError(types.ErrCodeDecryptionFailed, "failed to decrypt PDF", err)
+	}
+	return encryptInfo, nil
+}
+
 // Detect detects the form type in a PDF
 func Detect(pdfBytes []byte, password []byte, verbose bool) (FormType, error) {
+	encryptInfo, err := openEncryption(pdfBytes, password, verbose)
+	if err != nil {
+		return FormTypeUnknown, err
+	}
+
 	// Try AcroForm first
 	acroForm, err := acroform.ExtractAcroForm(pdfBytes, password, verbose)
 	if err == nil && acroForm != nil && len(acroForm.Fields) > 0 {
@@ -115,7 +133,7 @@ func Detect(pdfBytes []byte, password []byte, verbose bool) (FormType, error) {
 	}
 
 	// Try XFA
-	streams, err := xfa.ExtractAllXFAStreams(pdfBytes, nil, verbose)
+	streams, err := xfa.ExtractAllXFAStreams(pdfBytes, encryptInfo, verbose)
 	if err == nil && streams.Template != nil && len(streams.Template.Data) > 0 {
 		return FormTypeXFA, nil
 	}
@@ -126,6 +144,11 @@ func Detect(pdfBytes []byte, password []byte, verbose bool) (FormType, error) {
 // Extract extracts and returns a unified Form interface
 // It automatically detects whether the PDF contains AcroForm or XFA forms
 func Extract(pdfBytes []byte, password []byte, verbose bool) (Form, error) {
+	encryptInfo, err := openEncryption(pdfBytes, password, verbose)
+	if err != nil {
+		return nil, err
+	}
+
 	// Try AcroForm first
 	acroForm, err := acroform.ExtractAcroForm(pdfBytes, password, verbose)
 	if err == nil && acroForm != nil && len(acroForm.Fields) > 0 {
@@ -137,7 +160,7 @@ func Extract(pdfBytes []byte, password []byte, verbose bool) (Form, error) {
 	}
 
 	// Try XFA
-	streams, err := xfa.ExtractAllXFAStreams(pdfBytes, nil, verbose)
+	streams, err := xfa.ExtractAllXFAStreams(pdfBytes, encryptInfo, verbose)
 	if err == nil && streams.Template != nil && len(streams.Template.Data) > 0 {
 		// Parse XFA form
 		formSchema, err := xfa.ParseXFAForm(string(streams.Template.Data), verbose)
@@ -169,7 +192,12 @@ func ExtractAcroForm(pdfBytes []byte, password []byte, verbose bool) (*acroform.
 // ExtractXFA extracts XFA form data (type-specific)
 // Returns the FormSchema and Datasets separately
 func ExtractXFA(pdfBytes []byte, password []byte, verbose bool) (*types.FormSchema, *types.XFADatasets, error) {
-	streams, err := xfa.ExtractAllXFAStreams(pdfBytes, nil, verbose)
+	encryptInfo, err := openEncryption(pdfBytes, password, verbose)
+	if err != nil {
+		return nil, nil, err
+	}
+
+	streams, err := xfa.ExtractAllXFAStreams(pdfBytes, encryptInfo, verbose)
 	if err != nil {
 		return nil, nil, err
 	}
-- 
2.43.0


From 6d0755a469ef1f17fd878ab7628e52cada6628f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:49 +0000
Subject: [PATCH 18/76] fix: report XFA packets that cannot be parsed

---
 forms/forms.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/forms/forms.go b/forms/forms.go
index e871742..702ed49 100644
--- a/forms/forms.go
+++ b/forms/forms.go
@@ -170,7 +170,10 @@ func Extract(pdfBytes []byte, password []byte, verbose bool) (Form, error) {
 
 		var datasets *types.XFADatasets
 		if streams.Datasets != nil {
-			datasets, _ = xfa.ParseXFADatasets(string(streams.Datasets.Data), verbose)
+			datasets, err = xfa.ParseXFADatasets(string(streams.Datasets.Data), verbose)
+			if err != nil {
+				return nil, types.WrapError(types.ErrCodeInvalidForm, "failed to parse XFA datasets", err)
+			}
 		}
 
 		return &XFAFormWrapper{
@@ -206,10 +209,16 @@ func ExtractXFA(pdfBytes []byte, password []byte, verbose bool) (*types.FormSche
 	var datasets *types.XFADatasets
 
 	if streams.Template != nil {
-		formSchema, _ = xfa.ParseXFAForm(string(streams.Template.Data), verbose)
+		formSchema, err = xfa.ParseXFAForm(string(streams.Template.Data), verbose)
+		if err != nil {
+			return nil, nil, types.WrapError(types.ErrCodeInvalidForm, "failed to parse XFA form", err)
+		}
 	}
 	if streams.Datasets != nil {
-		datasets, _ = xfa.ParseXFADatasets(string(streams.Datasets.Data), verbose)
+		datasets, err = xfa.ParseXFADatasets(string(streams.Datasets.Data), verbose)
+		if err != nil {
+			return nil, nil, types.WrapError(types.ErrCodeInvalidForm, "failed to parse XFA datasets", err)
+		}
 	}
 
 	return formSchema, datasets, nil
-- 
2.43.0


From 7ca516250f3bda4b1f03ba71aea159753eff21e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:42 +0000
Subject: [PATCH 19/76] fix: report a failed decompression when rebuilding an
 object stream

---
 forms/acroform/stream_rebuild.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/forms/acroform/stream_rebuild.go b/forms/acroform/stream_rebuild.go
index c07a6c8..409bdac 100644
--- a/forms/acroform/stream_rebuild.go
+++ b/forms/acroform/stream_rebuild.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"compress/zlib"
 	"fmt"
+	"io"
 	"regexp"
 	"strconv"
 	"strings"
@@ -155,15 +156,17 @@ func parseObjectStream(streamObjData []byte, encryptInfo *types.PDFEncryption, v
 	}
 
 	// Decompress
-	var decompressed bytes.Buffer
 	zr, err := zlib.NewReader(bytes.NewReader(streamData))
 	if err != nil {
 		return nil, nil, fmt.Errorf("failed to create zlib reader: %w", err)
 	}
-	decompressed.ReadFrom(zr)
+	decompressed, err := io.ReadAll(zr)
 	zr.Close()
+	if err != nil {
+		return nil, nil, fmt.Errorf("failed to decompress stream: %w", err)
+	}
 
-	return dict, decompressed.Bytes(), nil
+	return dict, decompressed, nil
 }
 
 // parseStreamDict parses a stream dictionary string
-- 
2.43.0


From dee4bd7ef583fcef41a8b18d31ca1ddec16173d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:42 +0000
Subject: [PATCH 20/76] fix: report RC4 cipher construction failures in
 ComputeUValue

---
 core/encrypt/key_derivation.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/encrypt/key_derivation.go b/core/encrypt/key_derivation.go
index cf382ea..601871b 100644
--- a/core/encrypt/key_derivation.go
+++ b/core/encrypt/key_derivation.go
@@ -168,7 +168,10 @@ func ComputeUValue(encryptKey []byte, encrypt *types.PDFEncryption, fileID []byt
 			for j := 0; j < len(encryptKey); j++ {
 				newKey[j] = encryptKey[j] ^ byte(i)
 			}
-			cipher, _ := rc4.NewCipher(newKey)
+			cipher, err := rc4.NewCipher(newKey)
+			if err != nil {
+				return nil, err
+			}
 			cipher.XORKeyStream(encrypted, encrypted)
 		}
 
-- 
2.43.0


From d5a88f3b0e5982893ed89fcf48ad3ccd69df88d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:42 +0000
Subject: [PATCH 21/76] fix: ExtractToDirectory reports images it could not
 write

---
 content/extract/directory.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/content/extract/directory.go b/content/extract/directory.go
index b35130a..57d49f8 100644
--- a/content/extract/directory.go
+++ b/content/extract/directory.go
@@ -157,10 +157,7 @@ func ExtractToDirectory(pdfBytes []byte, password []byte, outputDir string, verb
 
 		// Write image data
 		if err := os.WriteFile(filepath, img.Data, 0644); err != nil {
-			if verbose {
-				fmt.Printf("Warning: failed to write image %s: %v\n", filename, err)
-			}
-			continue
+			return nil, fmt.Errorf("failed to write image %s: %w", filename, err)
 		}
 
 		imageRef := ImageReference{
-- 
2.43.0


From 81602e5b31324858c8abb1a741fc14ee6d1107b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:42 +0000
Subject: [PATCH 22/76] fix: content that fails to decompress is not presented
 as page content

---
 content/extract/images.go    | 10 +++-------
 content/extract/pages.go     | 12 +++++++-----
 content/extract/resources.go |  1 +
 3 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/content/extract/images.go b/content/extract/images.go
index 045bb24..089dc4f 100644
--- a/content/extract/images.go
+++ b/content/extract/images.go
@@ -113,14 +113,10 @@ func extractImageData(imageObjNum int, pdf *parse.PDF, verbose bool) (*types.Ima
 				if strings.Contains(filter, "FlateDecode") {
 					// Decompress FlateDecode
 					decompressed, err := parse.DecodeFlateDecode(streamData)
-					if err == nil {
-						image.Data = decompressed
-					} else {
-						if verbose {
-							fmt.Printf("Warning: failed to decompress FlateDecode image: %v\n", err)
-						}
-						image.Data = streamData
+					if err != nil {
+						return nil, fmt.Errorf("failed to decompress FlateDecode image %d: %w", imageObjNum, err)
 					}
+					image.Data = decompressed
 				} else if strings.Contains(filter, "DCTDecode") {
 					// DCTDecode (JPEG) - data is already JPEG, no decompression needed
 					image.Data = streamData
diff --git a/content/extract/pages.go b/content/extract/pages.go
index 7523801..06bb08e 100644
--- a/content/extract/pages.go
+++ b/content/extract/pages.go
@@ -278,12 +278,14 @@ func extractPage(pdfBytes []byte, pdf *parse.PDF, pageObjNum int, pageStr string
 						if isCompressed {
 							// Use parse.DecodeFlateDecode which handles both zlib and raw deflate
 							decompressed, err := parse.DecodeFlateDecode(streamData)
-							if err == nil {
-								contentStr = string(decompressed)
-							} else {
-								// Fallback to raw if decompression fails
-								contentStr = string(streamData)
+							if err != nil {
+								// Compressed bytes are not page content
+								if verbose {
+									fmt.Printf("Warning: failed to decompress content stream %d: %v\n", contentObjNum, err)
+								}
+								continue
 							}
+							contentStr = string(decompressed)
 						} else {
 							contentStr = string(streamData)
 						}
diff --git a/content/extract/resources.go b/content/extract/resources.go
index ae9a6dc..4e55d6a 100644
--- a/content/extract/resources.go
+++ b/content/extract/resources.go
@@ -593,6 +593,7 @@ func extractStreamData(objNum int, pdf *parse.PDF, verbose bool) string {
 		if verbose {
 			fmt.Printf("Warning: failed to decompress stream %d: %v\n", objNum, err)
 		}
+		return ""
 	}
 
 	return string(streamData)
-- 
2.43.0


From 3d072020f72b5183efd1adbdbda85f1a86866e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:42 +0000
Subject: [PATCH 23/76] fix: XFA streams that fail to decompress are reported

---
 forms/xfa/xfa.go | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/forms/xfa/xfa.go b/forms/xfa/xfa.go
index 24606b1..db7d6b3 100644
--- a/forms/xfa/xfa.go
+++ b/forms/xfa/xfa.go
@@ -86,10 +86,7 @@ func extractStreamDataFromObject(objData []byte, objNum int, encryptInfo *types.
 		if err == nil {
 			return decompressed, nil
 		}
-		// Return raw data if decompression fails
-		if verbose {
-			log.Printf("Decompression failed for object %d, returning raw stream data", objNum)
-		}
+		return nil, fmt.Errorf("failed to decompress stream of object %d: %w", objNum, err)
 	}
 
 	return streamData, nil
@@ -251,19 +248,13 @@ func ExtractAllXFAStreams(pdfBytes []byte, encryptInfo *types.PDFEncryption, ver
 		// Extract stream data from the object
 		streamData, err := extractStreamDataFromObject(objData, objNum, encryptInfo, verbose)
 		if err != nil {
-			if verbose {
-				log.Printf("Failed to extract stream data from object %d: %v", objNum, err)
-			}
-			continue
+			return nil, fmt.Errorf("failed to extract %s stream: %w", streamName, err)
 		}
 
 		// Decompress if needed
 		decompressed, wasCompressed, err := DecompressStream(streamData)
 		if err != nil {
-			if verbose {
-				log.Printf("Failed to decompress stream %s: %v", streamName, err)
-			}
-			decompressed = streamData // Use as-is if decompression fails
+			return nil, fmt.Errorf("failed to decompress %s stream: %w", streamName, err)
 		}
 
 		streamInfo := &XFAStreamInfo{
-- 
2.43.0


From 8db3fb2711d91ed4d4585d8d05fe4c805a0efc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:59 +0000
Subject: [PATCH 24/76] fix: a stream that cannot be decrypted is an error, not
 plain content

---
 core/encrypt/decrypt.go  |  7 +++--
 core/parse/get_object.go | 60 +++++++++++++++++++++-------------------
 2 files changed, 36 insertions(+), 31 deletions(-)

diff --git a/core/encrypt/decrypt.go b/core/encrypt/decrypt.go
index 35373cc..0d33222 100644
--- a/core/encrypt/decrypt.go
+++ b/core/encrypt/decrypt.go
@@ -197,7 +197,7 @@ func DecryptPDFObjects(pdfBytes []byte, encrypt *types.PDFEncryption, verbose bo
 // Algorithm 1 from ISO 32000-1:2008
 // Implementation copied EXACTLY from PyPDF's _make_crypt_filter (lines 914-935) and CryptAES.decrypt (lines 73-88)
 func DecryptObject(objBytes []byte, objNum, genNum int, encrypt *types.PDFEncryption) ([]byte, error) {
-	if encrypt == nil || len(encrypt.EncryptKey) == 0 {
+	if encrypt == nil {
 		// Not encrypted
 		return objBytes, nil
 	}
@@ -220,6 +220,9 @@ func DecryptObject(objBytes []byte, objNum, genNum int, encrypt *types.PDFEncryp
 	if encrypt.V > 1 {
 		n = encrypt.KeyLength // KeyLength is already in bytes (converted from bits in parser)
 	}
+	if n < 0 || n > len(encrypt.EncryptKey) {
+		return nil, types.NewPDFErrorf(types.ErrCodeDecryptionFailed, "encryption key has %d bytes, %d needed", len(encrypt.EncryptKey), n)
+	}
 
 	// PyPDF line 918: key = self._key
 	// PyPDF line 920: key_data = key[:n] + pack1 + pack2
@@ -298,5 +301,5 @@ func DecryptObject(objBytes []byte, objNum, genNum int, encrypt *types.PDFEncryp
 		return decrypted[:len(decrypted)-paddingLen], nil
 	}
 
-	return objBytes, nil
+	return nil, types.NewPDFErrorf(types.ErrCodeUnsupportedCrypto, "unsupported encryption version %d", encrypt.V)
 }
diff --git a/core/parse/get_object.go b/core/parse/get_object.go
index 0a1f709..d305710 100644
--- a/core/parse/get_object.go
+++ b/core/parse/get_object.go
@@ -202,7 +202,7 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 		content = content[:endstreamPos+len("endstream")]
 
 		// Decrypt stream data if needed
-		if encryptInfo != nil {
+		if encryptInfo != nil && !storedUnencrypted(content[:streamStart], encryptInfo) {
 			// Get /Length from dictionary for exact stream data size
 			dictPart := content[:streamStart]
 			lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
@@ -239,38 +239,31 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 				log.Printf("Decrypting stream: %d bytes (from /Length %d), objNum=%d, genNum=%d", len(streamData), streamLength, objNum, genNum)
 			}
 			decryptedStream, err := encrypt.DecryptObject(streamData, objNum, genNum, encryptInfo)
-			if err == nil {
-				if verbose {
-					log.Printf("Decryption successful: %d -> %d bytes", len(streamData), len(decryptedStream))
-				}
-				// Update /Length in the dictionary to reflect decrypted size
-				newLength := fmt.Sprintf("/Length %d", len(decryptedStream))
-				dictPart = lengthPattern.ReplaceAll(dictPart, []byte(newLength))
-
-				// Reconstruct content with updated dictionary and decrypted stream
-				newContent := make([]byte, 0, len(dictPart)+len(decryptedStream)+20)
-				newContent = append(newContent, dictPart...)
-				newContent = append(newContent, []byte("stream\n")...)
-				newContent = append(newContent, decryptedStream...)
-				newContent = append(newContent, []byte("\nendstream")...)
-				content = newContent
+			if err != nil {
+				return nil, fmt.Errorf("failed to decrypt stream of object %d: %w", objNum, err)
+			}
+			if verbose {
+				log.Printf("Decryption successful: %d -> %d bytes", len(streamData), len(decryptedStream))
+			}
+			// Update /Length in the dictionary to reflect decrypted size
+			newLength := fmt.Sprintf("/Length %d", len(decryptedStream))
+			dictPart = lengthPattern.ReplaceAll(dictPart, []byte(newLength))
+
+			// Reconstruct content with updated dictionary and decrypted stream
+			newContent := make([]byte, 0, len(dictPart)+len(decryptedStream)+20)
+			newContent = append(newContent, dictPart...)
+			newContent = append(newContent, []byte("stream\n")...)
+			newContent = append(newContent, decryptedStream...)
+			newContent = append(newContent, []byte("\nendstream")...)
+			content = newContent
 
-				if verbose {
-					log.Printf("Reconstructed content: %d bytes, new dict: %s", len(content), string(dictPart[:min(100, len(dictPart))]))
-				}
-			} else if verbose {
-				log.Printf("Decryption failed: %v", err)
+			if verbose {
+				log.Printf("Reconstructed content: %d bytes, new dict: %s", len(content), string(dictPart[:min(100, len(dictPart))]))
 			}
 		}
-	} else if encryptInfo != nil {
-		// Not a stream - decrypt string values in dictionary
-		// For now, just decrypt the entire content (simplified approach)
-		// TODO: Parse dictionary properly and decrypt only string values
-		decrypted, err := encrypt.DecryptObject(content, objNum, genNum, encryptInfo)
-		if err == nil {
-			content = decrypted
-		}
 	}
+	// The structure of other objects is never encrypted. Their strings are returned as stored.
+	// TODO: Parse dictionary properly and decrypt the string values
 
 	// Reconstruct full object
 	result := fmt.Sprintf("%d %d obj\n", objNum, genNum)
@@ -282,3 +275,12 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 
 	return []byte(result), nil
 }
+
+// storedUnencrypted reports whether a stream with this dictionary is not encrypted although the document is:
+// cross-reference streams never are, metadata is not when the document says so.
+func storedUnencrypted(dict []byte, encryptInfo *types.PDFEncryption) bool {
+	if regexp.MustCompile(`/Type\s*/XRef\b`).Match(dict) {
+		return true
+	}
+	return !encryptInfo.EncryptMetadata && regexp.MustCompile(`/Type\s*/Metadata\b`).Match(dict)
+}
-- 
2.43.0


From 898b17477fa58281cd83de059aa371ed5a72fe43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:59 +0000
Subject: [PATCH 25/76] fix: writing an encrypted document fails instead of
 emitting a stream in plaintext

---
 core/write/writer.go | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/core/write/writer.go b/core/write/writer.go
index 45c867c..c1ee0ec 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -8,6 +8,7 @@ import (
 	"crypto/cipher"
 	"crypto/md5"
 	"crypto/rand"
+	"crypto/rc4"
 	"fmt"
 	"io"
 	"sort"
@@ -347,14 +348,16 @@ func (w *PDFWriter) write(out io.Writer) error {
 
 			// Encrypt stream if needed
 			streamData := obj.Stream
-			if w.encryptInfo != nil {
+			metadata := obj.Dict["Type"] == "/Metadata" || obj.Dict["/Type"] == "/Metadata"
+			if w.encryptInfo != nil && (w.encryptInfo.EncryptMetadata || !metadata) {
 				encrypted, err := w.encryptStream(streamData, objNum, obj.Generation)
-				if err == nil {
-					streamData = encrypted
-					// Update length in dictionary
-					obj.Dict["Length"] = len(streamData)
-					content = w.formatDictionary(obj.Dict)
+				if err != nil {
+					return fmt.Errorf("failed to encrypt stream object %d: %w", objNum, err)
 				}
+				streamData = encrypted
+				// Update length in dictionary
+				obj.Dict["Length"] = len(streamData)
+				content = w.formatDictionary(obj.Dict)
 			}
 
 			buf.Write(content)
@@ -519,7 +522,7 @@ func (w *PDFWriter) formatValue(value interface{}) string {
 
 // encryptStream encrypts stream data using the PDF's encryption settings
 func (w *PDFWriter) encryptStream(data []byte, objNum, genNum int) ([]byte, error) {
-	if w.encryptInfo == nil || len(w.encryptInfo.EncryptKey) == 0 {
+	if w.encryptInfo == nil {
 		return data, nil
 	}
 
@@ -528,9 +531,12 @@ func (w *PDFWriter) encryptStream(data []byte, objNum, genNum int) ([]byte, erro
 	pack2 := []byte{byte(genNum & 0xff), byte((genNum >> 8) & 0xff)}
 
 	n := w.encryptInfo.KeyLength
-	if n == 0 {
+	if n == 0 || w.encryptInfo.V == 1 {
 		n = 5
 	}
+	if n < 0 || n > len(w.encryptInfo.EncryptKey) {
+		return nil, fmt.Errorf("encryption key has %d bytes, %d needed", len(w.encryptInfo.EncryptKey), n)
+	}
 
 	keyData := make([]byte, n+5)
 	copy(keyData, w.encryptInfo.EncryptKey[:n])
@@ -580,8 +586,17 @@ func (w *PDFWriter) encryptStream(data []byte, objNum, genNum int) ([]byte, erro
 	}
 
 	// RC4 encryption (V1, V2)
-	// Not implemented for now
-	return data, nil
+	if w.encryptInfo.V == 1 || w.encryptInfo.V == 2 {
+		rc4Cipher, err := rc4.NewCipher(keyHash.Sum(nil)[:min(n+5, 16)])
+		if err != nil {
+			return nil, err
+		}
+		encrypted := make([]byte, len(data))
+		rc4Cipher.XORKeyStream(encrypted, data)
+		return encrypted, nil
+	}
+
+	return nil, fmt.Errorf("unsupported encryption version %d", w.encryptInfo.V)
 }
 
 // Bytes returns the complete PDF as a byte slice
-- 
2.43.0


From f6780c625d8ad439b8fed4917ed07cbcda560a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:36 +0000
Subject: [PATCH 26/76] fix: cross-reference stream offsets near the end of the
 document are checked

---
 core/parse/object_stream.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/parse/object_stream.go b/core/parse/object_stream.go
index c7a6f03..4d52118 100644
--- a/core/parse/object_stream.go
+++ b/core/parse/object_stream.go
@@ -36,6 +36,9 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 	}
 
 	// The xref stream object should be at startXRef
+	if startXRef < 0 || startXRef > int64(len(pdfBytes)) {
+		return nil, fmt.Errorf("xref stream offset %d outside the document", startXRef)
+	}
 	xrefSection := pdfBytes[startXRef:]
 	xrefStr := string(xrefSection[:min(500, len(xrefSection))])
 
@@ -47,7 +50,7 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 		if startXRef > 100 {
 			searchStart = startXRef - 100
 		}
-		searchSection := pdfBytes[searchStart : startXRef+500]
+		searchSection := pdfBytes[searchStart:min(startXRef+500, int64(len(pdfBytes)))]
 		searchStr := string(searchSection)
 		objMatch = objPattern.FindStringSubmatch(searchStr)
 		if objMatch == nil {
-- 
2.43.0


From b5e8171ca8477bf44a9ccc6e4d562302316929af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:36 +0000
Subject: [PATCH 27/76] fix: rebuilt and merged documents no longer contain
 every object header twice

---
 core/manipulate/manipulate.go | 16 +++++++++++++++-
 core/manipulate/merging.go    |  2 +-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/core/manipulate/manipulate.go b/core/manipulate/manipulate.go
index b50ad48..88b7e30 100644
--- a/core/manipulate/manipulate.go
+++ b/core/manipulate/manipulate.go
@@ -1,6 +1,7 @@
 package manipulate
 
 import (
+	"bytes"
 	"fmt"
 	"regexp"
 	"strconv"
@@ -42,7 +43,7 @@ func NewPDFManipulator(pdfBytes []byte, password []byte, verbose bool) (*PDFMani
 			}
 			continue
 		}
-		objects[objNum] = obj
+		objects[objNum] = objectContent(obj)
 	}
 
 	return &PDFManipulator{
@@ -54,6 +55,19 @@ func NewPDFManipulator(pdfBytes []byte, password []byte, verbose bool) (*PDFMani
 	}, nil
 }
 
+// objectHeaderPattern matches the header of an indirect object ("5 0 obj")
+var objectHeaderPattern = regexp.MustCompile(`^\s*\d+\s+\d+\s+obj\b\s*`)
+
+// objectContent returns an object without the header and the endobj keyword around it;
+// the writer adds its own.
+func objectContent(obj []byte) []byte {
+	header := objectHeaderPattern.Find(obj)
+	if header == nil {
+		return obj
+	}
+	return bytes.TrimSpace(bytes.TrimSuffix(bytes.TrimSpace(obj[len(header):]), []byte("endobj")))
+}
+
 // Rebuild rebuilds the PDF with modified objects and returns the new PDF bytes
 func (m *PDFManipulator) Rebuild() ([]byte, error) {
 	return m.rebuildPDF()
diff --git a/core/manipulate/merging.go b/core/manipulate/merging.go
index b1fc310..4c0a32f 100644
--- a/core/manipulate/merging.go
+++ b/core/manipulate/merging.go
@@ -58,7 +58,7 @@ func MergePDFs(pdfBytesList [][]byte, passwords [][]byte, verbose bool) ([]byte,
 			objNumMap[objNum] = newObjNum
 
 			// Update object references in the content
-			updatedObj := updateObjectReferences(obj, objNumMap, pdfIdx == 0)
+			updatedObj := updateObjectReferences(objectContent(obj), objNumMap, pdfIdx == 0)
 
 			writer.SetObject(newObjNum, updatedObj)
 
-- 
2.43.0


From 4d8abe507eb362a53f697154070f923f0e93a6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:36 +0000
Subject: [PATCH 28/76] fix: streams given as raw object content are encrypted
 like all others

---
 core/manipulate/manipulate.go |  4 +-
 core/write/writer.go          | 96 +++++++++++++++++++++++++++++++++--
 2 files changed, 95 insertions(+), 5 deletions(-)

diff --git a/core/manipulate/manipulate.go b/core/manipulate/manipulate.go
index 88b7e30..262412c 100644
--- a/core/manipulate/manipulate.go
+++ b/core/manipulate/manipulate.go
@@ -7,6 +7,7 @@ import (
 	"strconv"
 	"strings"
 
+	"github.com/benedoc-inc/pdfer/core/encrypt"
 	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/core/write"
 )
@@ -108,7 +109,8 @@ func (m *PDFManipulator) rebuildPDF() ([]byte, error) {
 
 	// Set encryption if present
 	if m.pdf.IsEncrypted() {
-		m.writer.SetEncryption(m.pdf.Encryption(), nil) // fileID will be regenerated
+		// The key of the document was derived from its file ID
+		m.writer.SetEncryption(m.pdf.Encryption(), encrypt.ExtractFileID(m.pdfBytes, false))
 	}
 
 	return m.writer.Bytes()
diff --git a/core/write/writer.go b/core/write/writer.go
index c1ee0ec..44ec239 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -11,6 +11,7 @@ import (
 	"crypto/rc4"
 	"fmt"
 	"io"
+	"regexp"
 	"sort"
 	"strconv"
 	"strings"
@@ -348,8 +349,7 @@ func (w *PDFWriter) write(out io.Writer) error {
 
 			// Encrypt stream if needed
 			streamData := obj.Stream
-			metadata := obj.Dict["Type"] == "/Metadata" || obj.Dict["/Type"] == "/Metadata"
-			if w.encryptInfo != nil && (w.encryptInfo.EncryptMetadata || !metadata) {
+			if w.encryptInfo != nil && !storedUnencrypted(content, w.encryptInfo) {
 				encrypted, err := w.encryptStream(streamData, objNum, obj.Generation)
 				if err != nil {
 					return fmt.Errorf("failed to encrypt stream object %d: %w", objNum, err)
@@ -365,11 +365,14 @@ func (w *PDFWriter) write(out io.Writer) error {
 			buf.Write(streamData)
 			buf.WriteString("\nendstream")
 		} else if obj.Content != nil {
-			// Encrypt content if needed (for non-stream objects like strings in dicts)
-			content := obj.Content
+			// Encrypt the stream of an object given as raw content
 			// Note: For non-stream objects, encryption is more complex
 			// (need to encrypt individual strings, not the whole object)
 			// For simplicity, we skip encryption of non-stream content here
+			content, err := w.encryptContent(obj.Content, objNum, obj.Generation)
+			if err != nil {
+				return fmt.Errorf("failed to encrypt stream object %d: %w", objNum, err)
+			}
 			buf.Write(content)
 		}
 
@@ -520,6 +523,91 @@ func (w *PDFWriter) formatValue(value interface{}) string {
 	}
 }
 
+// Raw object content that holds a stream: dictionary, "stream" keyword with line end, body
+var (
+	rawStreamPattern   = regexp.MustCompile(`>>\s*stream(\r\n|\n|\r)`)
+	lengthPattern      = regexp.MustCompile(`/Length\s+(\d+)(\s+\d+\s+R)?`)
+	unencryptedPattern = regexp.MustCompile(`/Type\s*/XRef\b`)
+	metadataPattern    = regexp.MustCompile(`/Type\s*/Metadata\b`)
+)
+
+// storedUnencrypted reports whether a stream with this dictionary is not encrypted although the document is:
+// cross-reference streams never are, metadata is not when the document says so.
+func storedUnencrypted(dict []byte, encryptInfo *types.PDFEncryption) bool {
+	return unencryptedPattern.Match(dict) || (!encryptInfo.EncryptMetadata && metadataPattern.Match(dict))
+}
+
+// encryptContent encrypts the stream body of an object given as raw content. Content without a stream is
+// returned as it is.
+func (w *PDFWriter) encryptContent(content []byte, objNum, genNum int) ([]byte, error) {
+	if w.encryptInfo == nil {
+		return content, nil
+	}
+	keyword := rawStreamPattern.FindIndex(content)
+	if keyword == nil {
+		return content, nil
+	}
+	dict := content[:keyword[0]+len(">>")]
+	if storedUnencrypted(dict, w.encryptInfo) {
+		return content, nil
+	}
+	body := content[keyword[1]:]
+	end := bytes.LastIndex(body, []byte("endstream"))
+	if end == -1 {
+		return nil, fmt.Errorf("endstream not found")
+	}
+	body = body[:end]
+	length := lengthPattern.FindSubmatch(dict)
+	if length == nil {
+		return nil, fmt.Errorf("stream without /Length")
+	}
+	declared, err := strconv.Atoi(string(length[1]))
+	if length[2] == nil && err == nil && declared <= len(body) {
+		body = body[:declared]
+	} else {
+		body = trimEOL(body)
+	}
+	encrypted, err := w.encryptStream(body, objNum, genNum)
+	if err != nil {
+		return nil, err
+	}
+
+	return rawStream(dict, encrypted), nil
+}
+
+// rawStream puts an object with a stream together, with the dictionary's /Length adjusted to the data
+func rawStream(dict, data []byte) []byte {
+	var out bytes.Buffer
+	if length := lengthPattern.FindIndex(dict); length != nil {
+		out.Write(dict[:length[0]])
+		fmt.Fprintf(&out, "/Length %d", len(data))
+		out.Write(dict[length[1]:])
+	} else {
+		out.Write(bytes.TrimSuffix(dict, []byte(">>")))
+		fmt.Fprintf(&out, "/Length %d>>", len(data))
+	}
+	out.WriteString("\nstream\n")
+	out.Write(data)
+	out.WriteString("\nendstream")
+	return out.Bytes()
+}
+
+// trimEOL removes the line end that separates stream data from the endstream keyword
+func trimEOL(data []byte) []byte {
+	data, found := bytes.CutSuffix(data, []byte("\n"))
+	if found || bytes.HasSuffix(data, []byte("\r")) {
+		data = bytes.TrimSuffix(data, []byte("\r"))
+	}
+	return data
+}
+
+// EncryptStream encrypts the stream data of one object for a document with the given encryption,
+// nil for a document that is not encrypted
+func EncryptStream(data []byte, objNum, genNum int, encryptInfo *types.PDFEncryption) ([]byte, error) {
+	w := PDFWriter{encryptInfo: encryptInfo}
+	return w.encryptStream(data, objNum, genNum)
+}
+
 // encryptStream encrypts stream data using the PDF's encryption settings
 func (w *PDFWriter) encryptStream(data []byte, objNum, genNum int) ([]byte, error) {
 	if w.encryptInfo == nil {
-- 
2.43.0


From f0fe8a622d62f7c521aa5ce09b2545464620f261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:36 +0000
Subject: [PATCH 29/76] fix: a stream object with an empty stream keeps its
 dictionary and stream keywords

---
 core/write/writer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/write/writer.go b/core/write/writer.go
index 44ec239..ede69ab 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -343,8 +343,8 @@ func (w *PDFWriter) write(out io.Writer) error {
 		buf.WriteString(fmt.Sprintf("%d %d obj\n", objNum, obj.Generation))
 
 		// Write content
-		if obj.Stream != nil {
-			// Stream object
+		if obj.Stream != nil || (obj.Dict != nil && obj.Content == nil) {
+			// Stream object (possibly with an empty stream)
 			content := w.formatDictionary(obj.Dict)
 
 			// Encrypt stream if needed
-- 
2.43.0


From fa66a2a11e45b2ffe1b6101f48ee577906526546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:36 +0000
Subject: [PATCH 30/76] fix: rebuilding an XFA document keeps other streams and
 encrypts each stream exactly once

---
 core/write/xfa_builder.go | 58 ++++++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 28 deletions(-)

diff --git a/core/write/xfa_builder.go b/core/write/xfa_builder.go
index 1bead3f..2a72ea2 100644
--- a/core/write/xfa_builder.go
+++ b/core/write/xfa_builder.go
@@ -2,13 +2,13 @@ package write
 
 import (
 	"bytes"
-	"compress/zlib"
 	"fmt"
 	"log"
 	"regexp"
 	"strconv"
 	"strings"
 
+	"github.com/benedoc-inc/pdfer/core/encrypt"
 	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/internal/sorted"
 	"github.com/benedoc-inc/pdfer/types"
@@ -115,35 +115,28 @@ func (b *XFABuilder) BuildFromOriginal(originalPDF []byte, updatedStreams map[st
 	}
 
 	// Update stream objects with new data
+	updated := make(map[int]bool)
 	for _, streamName := range sorted.Keys(updatedStreams) {
 		newData := updatedStreams[streamName]
 		if objNum, ok := xfaStreamMap[streamName]; ok {
-			if obj, objOk := objects[objNum]; objOk {
-				// Compress the new data
-				var compressed bytes.Buffer
-				zw := zlib.NewWriter(&compressed)
-				zw.Write(newData)
-				zw.Close()
-
-				// Update the object's stream
-				obj.Stream = compressed.Bytes()
-				if obj.Dict == nil {
-					obj.Dict = make(Dictionary)
-				}
-				obj.Dict["Filter"] = "/FlateDecode"
-				obj.Dict["Length"] = len(obj.Stream)
+			if _, objOk := objects[objNum]; objOk {
+				b.writer.SetStreamObject(objNum, nil, newData, true)
+				updated[objNum] = true
 
 				if b.verbose {
-					log.Printf("Updated stream '%s' (object %d): %d bytes compressed", streamName, objNum, len(obj.Stream))
+					log.Printf("Updated stream '%s' (object %d): %d bytes", streamName, objNum, len(newData))
 				}
 			}
 		}
 	}
 
-	// Add all objects to writer
+	// Add all other objects to the writer as they are
 	for objNum, obj := range objects {
+		if updated[objNum] {
+			continue
+		}
 		if obj.Stream != nil {
-			b.writer.SetStreamObject(objNum, obj.Dict, obj.Stream, false) // Already compressed
+			b.writer.SetObject(objNum, rawStream(obj.Content, obj.Stream))
 		} else if obj.Content != nil {
 			b.writer.SetObject(objNum, obj.Content)
 		}
@@ -198,24 +191,33 @@ func parseAllObjects(pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose
 			dictContent := objContent[:streamPos]
 			dict = parseDictionary(dictContent)
 
-			// Find stream data
+			// Find stream data, after one line end
 			streamStart := streamPos + 6
-			// Skip EOL
-			for streamStart < len(objContent) && (objContent[streamStart] == '\r' || objContent[streamStart] == '\n') {
+			if streamStart < len(objContent) && objContent[streamStart] == '\r' {
 				streamStart++
 			}
-
-			// Find endstream
-			endstreamPos := bytes.Index(objContent[streamStart:], []byte("endstream"))
-			if endstreamPos == -1 {
-				endstreamPos = len(objContent) - streamStart
+			if streamStart < len(objContent) && objContent[streamStart] == '\n' {
+				streamStart++
 			}
 
 			// Use Length from dictionary if available
-			if length, ok := dict["Length"].(int); ok && streamStart+length <= len(objContent) {
+			if length, ok := dict["Length"].(int); ok && length >= 0 && length <= len(objContent)-streamStart {
 				streamData = objContent[streamStart : streamStart+length]
 			} else {
-				streamData = objContent[streamStart : streamStart+endstreamPos]
+				// Find endstream
+				endstreamPos := bytes.Index(objContent[streamStart:], []byte("endstream"))
+				if endstreamPos == -1 {
+					endstreamPos = len(objContent) - streamStart
+				}
+				streamData = trimEOL(objContent[streamStart : streamStart+endstreamPos])
+			}
+
+			if encryptInfo != nil && !storedUnencrypted(dictContent, encryptInfo) {
+				decrypted, err := encrypt.DecryptObject(streamData, objNum, genNum, encryptInfo)
+				if err != nil {
+					return nil, fmt.Errorf("failed to decrypt stream of object %d: %w", objNum, err)
+				}
+				streamData = decrypted
 			}
 		}
 
-- 
2.43.0


From f45fc01b746e3b85cd52303773654b2d7595ed38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:36 +0000
Subject: [PATCH 31/76] fix: updated XFA data is compressed and encrypted as
 the stream it replaces

---
 forms/xfa/xfa.go       | 30 ++++++++++++++----------------
 forms/xfa/xfa_utils.go |  9 +++------
 2 files changed, 17 insertions(+), 22 deletions(-)

diff --git a/forms/xfa/xfa.go b/forms/xfa/xfa.go
index db7d6b3..632e3c3 100644
--- a/forms/xfa/xfa.go
+++ b/forms/xfa/xfa.go
@@ -12,9 +12,9 @@ import (
 	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/core/write"
 	"github.com/benedoc-inc/pdfer/internal/sorted"
 	"github.com/benedoc-inc/pdfer/types"
-	"github.com/benedoc-inc/pdfer/core/write"
 )
 
 // extractStreamDataFromObject extracts stream data from raw object bytes
@@ -432,34 +432,32 @@ func UpdateXFAInPDF(pdfBytes []byte, formData types.FormData, encryptInfo *types
 		log.Printf("Stream size: %d bytes", len(datasetsStream))
 	}
 
-	// Decompress if needed and parse XML
-	xfaXML, wasCompressed, err := DecompressStream(datasetsStream)
-	if err != nil {
-		return nil, fmt.Errorf("error decompressing stream: %w", err)
-	}
-
-	if verbose {
-		log.Printf("Decompressed XFA XML: %d bytes (was compressed: %v)", len(xfaXML), wasCompressed)
-	}
-
 	// Update field values in XFA XML
-	updatedXML, err := UpdateXFAValues(string(xfaXML), formData, verbose)
+	updatedXML, err := UpdateXFAValues(string(datasetsStream), formData, verbose)
 	if err != nil {
 		return nil, fmt.Errorf("error updating XFA values: %w", err)
 	}
 
-	// Re-compress if it was compressed
+	// Encode the stream as its dictionary says
 	updatedStream := []byte(updatedXML)
-	if wasCompressed {
-		compressed, err := CompressStream(updatedStream)
+	streamObj, err := parse.GetObject(pdfBytes, streamObjNum, encryptInfo, verbose)
+	if err != nil {
+		return nil, fmt.Errorf("error reading datasets stream object: %w", err)
+	}
+	dict, _, _ := bytes.Cut(streamObj, []byte("stream"))
+	if bytes.Contains(dict, []byte("/FlateDecode")) {
+		updatedStream, err = CompressStream(updatedStream)
 		if err != nil {
 			return nil, fmt.Errorf("error compressing stream: %w", err)
 		}
-		updatedStream = compressed
 		if verbose {
 			log.Printf("Re-compressed stream: %d bytes", len(updatedStream))
 		}
 	}
+	updatedStream, err = write.EncryptStream(updatedStream, streamObjNum, 0, encryptInfo)
+	if err != nil {
+		return nil, fmt.Errorf("error encrypting stream: %w", err)
+	}
 
 	// Update PDF with new stream
 	updatedPDF, err := ReplaceStreamInPDF(pdfBytes, streamObjNum, updatedStream, verbose)
diff --git a/forms/xfa/xfa_utils.go b/forms/xfa/xfa_utils.go
index c1d1a9b..d806a8b 100644
--- a/forms/xfa/xfa_utils.go
+++ b/forms/xfa/xfa_utils.go
@@ -833,12 +833,9 @@ func DecompressStream(streamBytes []byte) ([]byte, bool, error) {
 // CompressStream compresses data using FlateDecode
 func CompressStream(data []byte) ([]byte, error) {
 	var buf bytes.Buffer
-	writer, err := flate.NewWriter(&buf, flate.DefaultCompression)
-	if err != nil {
-		return nil, err
-	}
+	writer := zlib.NewWriter(&buf)
 
-	_, err = writer.Write(data)
+	_, err := writer.Write(data)
 	if err != nil {
 		writer.Close()
 		return nil, err
@@ -857,7 +854,7 @@ func ReplaceStreamInPDF(pdfBytes []byte, streamObjNum int, newStream []byte, ver
 	pdfStr := string(pdfBytes)
 
 	// Find the stream object
-	streamObjPattern := regexp.MustCompile(fmt.Sprintf(`%d\s+%d\s+obj`, streamObjNum, 0))
+	streamObjPattern := regexp.MustCompile(fmt.Sprintf(`\b%d\s+%d\s+obj\b`, streamObjNum, 0))
 	streamObjMatch := streamObjPattern.FindStringIndex(pdfStr)
 	if streamObjMatch == nil {
 		return nil, fmt.Errorf("stream object %d not found", streamObjNum)
-- 
2.43.0


From a79a356eb9300e7d0dd8b00be6d6e7a3e49d1d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:42 +0000
Subject: [PATCH 32/76] fix: XFA objects that cannot be decrypted are reported
 instead of used undecrypted

---
 forms/xfa/stream.go    | 84 +++++++++++++++++++++++++++++++++++-------
 forms/xfa/xfa_utils.go | 77 ++++++++++++++++++--------------------
 2 files changed, 106 insertions(+), 55 deletions(-)

diff --git a/forms/xfa/stream.go b/forms/xfa/stream.go
index 6d46399..2a86532 100644
--- a/forms/xfa/stream.go
+++ b/forms/xfa/stream.go
@@ -2,6 +2,7 @@ package xfa
 
 import (
 	"bytes"
+	"encoding/hex"
 	"fmt"
 	"io"
 	"log"
@@ -661,21 +662,20 @@ func decryptParsedDictionary(entries []ParsedDictEntry, objNum, genNum int, encr
 	for i, entry := range entries {
 		result[i].Key = entry.Key // Keys are not encrypted
 
-		// Decrypt the value
-		decrypted, err := encrypt.DecryptObject(entry.Value, objNum, genNum, encryptInfo)
+		// Only strings are encrypted; names, numbers, references and nested structure are not
+		value, isString, err := decodeStringValue(entry.Value)
 		if err != nil {
-			// Try chunked decryption for large values
-			decrypted, err = decryptInChunks(entry.Value, objNum, genNum, encryptInfo, verbose)
-			if err != nil {
-				if verbose {
-					log.Printf("Failed to decrypt value for key %s: %v", string(entry.Key), err)
-				}
-				// Keep original value if decryption fails
-				result[i].Value = entry.Value
-				continue
-			}
+			return nil, fmt.Errorf("invalid string for key %s: %w", entry.Key, err)
+		}
+		if !isString {
+			result[i].Value = entry.Value
+			continue
 		}
-		result[i].Value = decrypted
+		decrypted, err := encrypt.DecryptObject(value, objNum, genNum, encryptInfo)
+		if err != nil {
+			return nil, fmt.Errorf("failed to decrypt value for key %s: %w", entry.Key, err)
+		}
+		result[i].Value = []byte(fmt.Sprintf("<%X>", decrypted))
 
 		if verbose && bytes.Equal(entry.Key, []byte("/XFA")) {
 			log.Printf("Decrypted /XFA value: %d bytes -> %d bytes", len(entry.Value), len(decrypted))
@@ -685,6 +685,64 @@ func decryptParsedDictionary(entries []ParsedDictEntry, objNum, genNum int, encr
 	return result, nil
 }
 
+// decodeStringValue returns the bytes of a literal or hexadecimal string and whether the value is a string at all
+func decodeStringValue(value []byte) ([]byte, bool, error) {
+	value = bytes.TrimSpace(value)
+	switch {
+	case bytes.HasPrefix(value, []byte("<<")):
+		return nil, false, nil
+	case bytes.HasPrefix(value, []byte("<")) && bytes.HasSuffix(value, []byte(">")):
+		digits := bytes.Join(bytes.Fields(value[1:len(value)-1]), nil)
+		if len(digits)%2 != 0 {
+			digits = append(digits, '0')
+		}
+		decoded, err := hex.DecodeString(string(digits))
+		return decoded, true, err
+	case !bytes.HasPrefix(value, []byte("(")):
+		return nil, false, nil
+	}
+	value = bytes.TrimSuffix(value[1:], []byte(")"))
+	decoded := make([]byte, 0, len(value))
+	for i := 0; i < len(value); i++ {
+		if value[i] != '\\' {
+			decoded = append(decoded, value[i])
+			continue
+		}
+		i++
+		if i == len(value) {
+			break
+		}
+		switch c := value[i]; c {
+		case 'n':
+			decoded = append(decoded, '\n')
+		case 'r':
+			decoded = append(decoded, '\r')
+		case 't':
+			decoded = append(decoded, '\t')
+		case 'b':
+			decoded = append(decoded, '\b')
+		case 'f':
+			decoded = append(decoded, '\f')
+		case '\n':
+			// line continuation
+		case '\r':
+			if i+1 < len(value) && value[i+1] == '\n' {
+				i++
+			}
+		case '0', '1', '2', '3', '4', '5', '6', '7':
+			code := int(c - '0')
+			for n := 1; n < 3 && i+1 < len(value) && value[i+1] >= '0' && value[i+1] <= '7'; n++ {
+				i++
+				code = code*8 + int(value[i]-'0')
+			}
+			decoded = append(decoded, byte(code))
+		default:
+			decoded = append(decoded, c)
+		}
+	}
+	return decoded, true, nil
+}
+
 // reconstructDictionary reconstructs a parsed dictionary back to PDF bytes
 func reconstructDictionary(entries []ParsedDictEntry) []byte {
 	var result bytes.Buffer
diff --git a/forms/xfa/xfa_utils.go b/forms/xfa/xfa_utils.go
index d806a8b..7e3c22a 100644
--- a/forms/xfa/xfa_utils.go
+++ b/forms/xfa/xfa_utils.go
@@ -243,6 +243,11 @@ func findAndDecryptAcroForm(pdfBytes []byte, acroFormObjNum int, encryptInfo *ty
 			}
 		}
 
+		// The structure of an object is not encrypted, only its strings are
+		if bytes.HasPrefix(objContent[dataStart:], []byte("<<")) {
+			return objContent, nil
+		}
+
 		// Check if this is a stream object
 		streamKeywordPos := bytes.Index(objContent, []byte("stream"))
 		isStreamObject := streamKeywordPos != -1
@@ -261,20 +266,16 @@ func findAndDecryptAcroForm(pdfBytes []byte, acroFormObjNum int, encryptInfo *ty
 			// Use extracted generation number
 			decryptedDict, err := decryptInChunks(encryptedDict, acroFormObjNum, genNum, encryptInfo, verbose)
 			if err != nil {
-				if verbose {
-					log.Printf("Failed to decrypt dictionary: %v", err)
-				}
-				decryptedContent = objContent
-			} else {
-				// Reconstruct: object header + decrypted dictionary + "stream" + stream data + "endstream" + "endobj"
-				// (full slice expression: appending must not write into pdfBytes)
-				objectHeader := objContent[:dataStart:dataStart]
-				streamAndRest := objContent[streamKeywordPos:]
-				decryptedContent = append(objectHeader, decryptedDict...)
-				decryptedContent = append(decryptedContent, streamAndRest...)
-				if verbose {
-					log.Printf("Decrypted dictionary: %d bytes -> %d bytes", len(encryptedDict), len(decryptedDict))
-				}
+				return nil, fmt.Errorf("failed to decrypt dictionary of AcroForm object %d: %w", acroFormObjNum, err)
+			}
+			// Reconstruct: object header + decrypted dictionary + "stream" + stream data + "endstream" + "endobj"
+			// (full slice expression: appending must not write into pdfBytes)
+			objectHeader := objContent[:dataStart:dataStart]
+			streamAndRest := objContent[streamKeywordPos:]
+			decryptedContent = append(objectHeader, decryptedDict...)
+			decryptedContent = append(decryptedContent, streamAndRest...)
+			if verbose {
+				log.Printf("Decrypted dictionary: %d bytes -> %d bytes", len(encryptedDict), len(decryptedDict))
 			}
 		} else {
 			// Regular object: decrypt content between dataStart and "endobj"
@@ -368,13 +369,13 @@ func findAndDecryptAcroForm(pdfBytes []byte, acroFormObjNum int, encryptInfo *ty
 								log.Printf("=== END DECRYPTED ACROFORM STRUCTURE ===")
 							}
 						} else {
-							if verbose {
-								log.Printf("Failed to decrypt: %v", err)
+							if err == nil {
+								err = fmt.Errorf("no data")
 							}
-							decryptedContent = objContent
+							return nil, fmt.Errorf("failed to decrypt AcroForm object %d: %w", acroFormObjNum, err)
 						}
 					} else {
-						decryptedContent = objContent
+						return nil, fmt.Errorf("AcroForm object %d is too short to be decrypted", acroFormObjNum)
 					}
 				} else {
 					// Has header but no endobj - decrypt up to end
@@ -382,38 +383,30 @@ func findAndDecryptAcroForm(pdfBytes []byte, acroFormObjNum int, encryptInfo *ty
 					encryptedContent := objContent[dataStart:endobjPos]
 					decryptedData, err := decryptInChunks(encryptedContent, acroFormObjNum, genNum, encryptInfo, verbose)
 					if err != nil {
-						if verbose {
-							log.Printf("Failed to decrypt object content: %v", err)
-						}
-						decryptedContent = objContent
-					} else {
-						objectHeader := objContent[:dataStart:dataStart]
-						decryptedContent = append(objectHeader, decryptedData...)
+						return nil, fmt.Errorf("failed to decrypt AcroForm object %d: %w", acroFormObjNum, err)
 					}
+					objectHeader := objContent[:dataStart:dataStart]
+					decryptedContent = append(objectHeader, decryptedData...)
 				}
 			} else {
 				// Has endobj - decrypt normally
 				encryptedContent := objContent[dataStart:endobjPos]
 				decryptedData, err := decryptInChunks(encryptedContent, acroFormObjNum, genNum, encryptInfo, verbose)
 				if err != nil {
-					if verbose {
-						log.Printf("Failed to decrypt object content: %v", err)
-					}
-					decryptedContent = objContent
+					return nil, fmt.Errorf("failed to decrypt AcroForm object %d: %w", acroFormObjNum, err)
+				}
+				// Reconstruct: object header (if exists) + decrypted content + "endobj" (if exists)
+				if objKeywordPos != -1 {
+					objectHeader := objContent[:dataStart:dataStart]
+					decryptedContent = append(objectHeader, decryptedData...)
+					decryptedContent = append(decryptedContent, []byte("endobj")...)
 				} else {
-					// Reconstruct: object header (if exists) + decrypted content + "endobj" (if exists)
-					if objKeywordPos != -1 {
-						objectHeader := objContent[:dataStart:dataStart]
-						decryptedContent = append(objectHeader, decryptedData...)
-						decryptedContent = append(decryptedContent, []byte("endobj")...)
-					} else {
-						// No header - just use decrypted content
-						decryptedContent = decryptedData
-						if verbose {
-							log.Printf("Decrypted content (no header): %d bytes, looking for dictionary markers", len(decryptedContent))
-							if bytes.Contains(decryptedContent, []byte("<<")) {
-								log.Printf("Found dictionary markers in decrypted content")
-							}
+					// No header - just use decrypted content
+					decryptedContent = decryptedData
+					if verbose {
+						log.Printf("Decrypted content (no header): %d bytes, looking for dictionary markers", len(decryptedContent))
+						if bytes.Contains(decryptedContent, []byte("<<")) {
+							log.Printf("Found dictionary markers in decrypted content")
 						}
 					}
 				}
-- 
2.43.0


From 0da1f286173366aa249071713115449f53e453e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:49 +0000
Subject: [PATCH 33/76] fix: a rebuilt object stream keeps its header and
 filter and is encrypted like the stream it replaces

---
 forms/acroform/stream_rebuild.go | 41 ++++++++++++++++----------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/forms/acroform/stream_rebuild.go b/forms/acroform/stream_rebuild.go
index 409bdac..f9315b7 100644
--- a/forms/acroform/stream_rebuild.go
+++ b/forms/acroform/stream_rebuild.go
@@ -10,8 +10,8 @@ import (
 	"strconv"
 	"strings"
 
-	"github.com/benedoc-inc/pdfer/core/encrypt"
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/core/write"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -32,7 +32,7 @@ func RebuildObjectStream(pdfBytes []byte, streamObjNum int, updates []StreamObje
 
 	// Find the object stream in the PDF
 	pdfStr := string(pdfBytes)
-	streamPattern := regexp.MustCompile(fmt.Sprintf(`%d\s+0\s+obj`, streamObjNum))
+	streamPattern := regexp.MustCompile(fmt.Sprintf(`\b%d\s+0\s+obj\b`, streamObjNum))
 	streamMatch := streamPattern.FindStringIndex(pdfStr)
 	if streamMatch == nil {
 		return nil, fmt.Errorf("object stream %d not found", streamObjNum)
@@ -41,7 +41,7 @@ func RebuildObjectStream(pdfBytes []byte, streamObjNum int, updates []StreamObje
 	streamStart := streamMatch[0]
 
 	// Parse the object stream to extract all objects
-	streamDict, streamData, err := parseObjectStream(streamObjData, encryptInfo, verbose)
+	streamDict, streamData, err := parseObjectStream(streamObjData)
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse object stream: %w", err)
 	}
@@ -61,13 +61,20 @@ func RebuildObjectStream(pdfBytes []byte, streamObjNum int, updates []StreamObje
 	// Compress the new stream
 	var compressed bytes.Buffer
 	zw := zlib.NewWriter(&compressed)
+	zw.Write(newHeader)
 	zw.Write(newStreamData)
 	zw.Close()
 
+	// Encrypt it like the stream it replaces
+	newStream, err := write.EncryptStream(compressed.Bytes(), streamObjNum, 0, encryptInfo)
+	if err != nil {
+		return nil, fmt.Errorf("failed to encrypt object stream %d: %w", streamObjNum, err)
+	}
+
 	// Update /First to point to new header length
 	newFirst := len(newHeader)
 	streamDict["/First"] = newFirst
-	streamDict["/Length"] = len(compressed.Bytes())
+	streamDict["/Length"] = len(newStream)
 
 	// Rebuild object stream dictionary
 	newDictStr := formatStreamDict(streamDict)
@@ -90,24 +97,24 @@ func RebuildObjectStream(pdfBytes []byte, streamObjNum int, updates []StreamObje
 	before := pdfBytes[:streamStart]
 	after := pdfBytes[streamEnd:]
 
-	result := make([]byte, 0, len(before)+len(newDictStr)+len(compressed.Bytes())+len(after)+50)
+	result := make([]byte, 0, len(before)+len(newDictStr)+len(newStream)+len(after)+50)
 	result = append(result, before...)
 	result = append(result, []byte(fmt.Sprintf("%d 0 obj\n", streamObjNum))...)
 	result = append(result, []byte(newDictStr)...)
 	result = append(result, []byte("\nstream\n")...)
-	result = append(result, compressed.Bytes()...)
-	result = append(result, []byte("\nendstream\nendobj\n")...)
+	result = append(result, newStream...)
+	result = append(result, []byte("\nendstream")...)
 	result = append(result, after...)
 
 	if verbose {
-		fmt.Printf("Rebuilt object stream %d: %d objects, %d bytes compressed\n", streamObjNum, streamDict["/N"], len(compressed.Bytes()))
+		fmt.Printf("Rebuilt object stream %d: %d objects, %d bytes compressed\n", streamObjNum, streamDict["/N"], len(newStream))
 	}
 
 	return result, nil
 }
 
-// parseObjectStream parses an object stream to extract dictionary and decompressed data
-func parseObjectStream(streamObjData []byte, encryptInfo *types.PDFEncryption, verbose bool) (map[string]interface{}, []byte, error) {
+// parseObjectStream parses a (decrypted) object stream to extract dictionary and decompressed data
+func parseObjectStream(streamObjData []byte) (map[string]interface{}, []byte, error) {
 	// Find dictionary
 	dictStart := bytes.Index(streamObjData, []byte("<<"))
 	if dictStart == -1 {
@@ -144,16 +151,10 @@ func parseObjectStream(streamObjData []byte, encryptInfo *types.PDFEncryption, v
 		return nil, nil, fmt.Errorf("/Length not found or invalid")
 	}
 
-	streamData := streamObjData[streamDataStart : streamDataStart+length]
-
-	// Decrypt if needed
-	if encryptInfo != nil {
-		decrypted, err := encrypt.DecryptObject(streamData, 0, 0, encryptInfo)
-		if err != nil {
-			return nil, nil, fmt.Errorf("failed to decrypt stream: %w", err)
-		}
-		streamData = decrypted
+	if length > len(streamObjData)-streamDataStart {
+		return nil, nil, fmt.Errorf("stream length %d exceeds available data", length)
 	}
+	streamData := streamObjData[streamDataStart : streamDataStart+length]
 
 	// Decompress
 	zr, err := zlib.NewReader(bytes.NewReader(streamData))
@@ -266,7 +267,7 @@ func rebuildStreamContent(streamDict map[string]interface{}, streamData []byte,
 // formatStreamDict formats a stream dictionary
 func formatStreamDict(dict map[string]interface{}) string {
 	var buf strings.Builder
-	buf.WriteString("<<")
+	buf.WriteString("<< /Type /ObjStm /Filter /FlateDecode")
 
 	if n, ok := dict["/N"].(int); ok {
 		buf.WriteString(fmt.Sprintf(" /N %d", n))
-- 
2.43.0


From 706b5943b7bd9fda51cfc2e5d5089912d0636636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:59 +0000
Subject: [PATCH 34/76] fix: filling a form reports fields it could not fill

---
 forms/acroform/fill_streams.go | 30 +++++++++---------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/forms/acroform/fill_streams.go b/forms/acroform/fill_streams.go
index cd4ce04..f4b7498 100644
--- a/forms/acroform/fill_streams.go
+++ b/forms/acroform/fill_streams.go
@@ -69,11 +69,10 @@ func FillFormFieldsWithStreams(pdfBytes []byte, formData types.FormData, passwor
 			}
 			// Try direct replacement
 			filled, fillErr := FillFieldValue(result, field, value, encryptInfo, verbose)
-			if fillErr == nil {
-				result = filled
-			} else if verbose {
-				fmt.Printf("Warning: Failed to fill field '%s': %v\n", fieldName, fillErr)
+			if fillErr != nil {
+				return nil, fmt.Errorf("failed to fill field %q: %w", fieldName, fillErr)
 			}
+			result = filled
 			continue
 		}
 
@@ -88,10 +87,7 @@ func FillFormFieldsWithStreams(pdfBytes []byte, formData types.FormData, passwor
 			// Field is in an object stream - prepare update
 			updatedContent, err := updateFieldContent(objData, field, value)
 			if err != nil {
-				if verbose {
-					fmt.Printf("Warning: Failed to update field content: %v\n", err)
-				}
-				continue
+				return nil, fmt.Errorf("failed to fill field %q: %w", fieldName, err)
 			}
 
 			// Find which stream contains this object
@@ -126,20 +122,16 @@ func FillFormFieldsWithStreams(pdfBytes []byte, formData types.FormData, passwor
 				}
 				// Fall back to direct replacement
 				filled, fillErr := FillFieldValue(result, field, value, encryptInfo, verbose)
-				if fillErr == nil {
-					result = filled
-				} else if verbose {
-					fmt.Printf("Warning: Failed to fill field '%s': %v\n", fieldName, fillErr)
+				if fillErr != nil {
+					return nil, fmt.Errorf("failed to fill field %q: %w", fieldName, fillErr)
 				}
+				result = filled
 			}
 		} else {
 			// Direct object - use simple replacement
 			filled, fillErr := FillFieldValue(result, field, value, encryptInfo, verbose)
 			if fillErr != nil {
-				if verbose {
-					fmt.Printf("Warning: Failed to fill field '%s': %v\n", fieldName, fillErr)
-				}
-				continue
+				return nil, fmt.Errorf("failed to fill field %q: %w", fieldName, fillErr)
 			}
 			result = filled
 		}
@@ -158,11 +150,7 @@ func FillFormFieldsWithStreams(pdfBytes []byte, formData types.FormData, passwor
 
 		rebuilt, rebuildErr := RebuildObjectStream(result, streamObjNum, updates, encryptInfo, verbose)
 		if rebuildErr != nil {
-			if verbose {
-				fmt.Printf("Warning: Failed to rebuild object stream %d: %v\n", streamObjNum, rebuildErr)
-			}
-			// Continue with other streams
-			continue
+			return nil, fmt.Errorf("failed to rebuild object stream %d: %w", streamObjNum, rebuildErr)
 		}
 		result = rebuilt
 
-- 
2.43.0


From bbdb2aefb7b8052c577ea9462933c72912a77f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:07 +0000
Subject: [PATCH 35/76] fix: rebuilding an XFA document reports objects it
 cannot extract

---
 core/write/xfa_builder.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/core/write/xfa_builder.go b/core/write/xfa_builder.go
index 2a72ea2..60c0576 100644
--- a/core/write/xfa_builder.go
+++ b/core/write/xfa_builder.go
@@ -250,10 +250,7 @@ func parseAllObjects(pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose
 				// Extract object from the object stream
 				objData, err := parse.GetObjectFromStream(pdfBytes, objNum, entry.StreamObjNum, entry.IndexInStream, encryptInfo, false)
 				if err != nil {
-					if verbose {
-						log.Printf("Warning: failed to extract object %d from stream %d: %v", objNum, entry.StreamObjNum, err)
-					}
-					continue
+					return nil, fmt.Errorf("failed to extract object %d from object stream %d: %w", objNum, entry.StreamObjNum, err)
 				}
 
 				// Parse the extracted object content
-- 
2.43.0


From 6c9fcfed7dc1f754af871adf743d8f2497f00483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:11 +0000
Subject: [PATCH 36/76] fix: XFA updates that cannot be placed in the document
 are reported

---
 core/write/xfa_builder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/write/xfa_builder.go b/core/write/xfa_builder.go
index 60c0576..504e8d1 100644
--- a/core/write/xfa_builder.go
+++ b/core/write/xfa_builder.go
@@ -109,6 +109,9 @@ func (b *XFABuilder) BuildFromOriginal(originalPDF []byte, updatedStreams map[st
 	// Find XFA stream references in AcroForm
 	xfaStreamMap, err := findXFAStreamMap(originalPDF, encryptInfo, b.verbose)
 	if err != nil {
+		if len(updatedStreams) > 0 {
+			return nil, fmt.Errorf("could not find the XFA streams to update: %w", err)
+		}
 		if b.verbose {
 			log.Printf("Warning: could not find XFA stream map: %v", err)
 		}
-- 
2.43.0


From 381e2571f42dd8a01c519c61ce96d3a6a21af134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:20 +0000
Subject: [PATCH 37/76] fix: objects of an XFA document are extracted in a
 fixed order

---
 core/write/xfa_builder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/write/xfa_builder.go b/core/write/xfa_builder.go
index 504e8d1..56a732f 100644
--- a/core/write/xfa_builder.go
+++ b/core/write/xfa_builder.go
@@ -245,7 +245,8 @@ func parseAllObjects(pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose
 		xrefResult, err := parse.ParseXRefStreamFull(pdfBytes, startXRef, false)
 		if err == nil {
 			// Process objects stored in object streams
-			for objNum, entry := range xrefResult.ObjectStreams {
+			for _, objNum := range sorted.Keys(xrefResult.ObjectStreams) {
+				entry := xrefResult.ObjectStreams[objNum]
 				if _, exists := objects[objNum]; exists {
 					continue // Already have this object as a direct object
 				}
-- 
2.43.0


From 55530cbeb35fcc1ec8d66196cde86efe40bbb58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:32 +0000
Subject: [PATCH 38/76] fix: a malformed encryption dictionary cannot crash key
 derivation or yield misaligned OE bytes

---
 core/encrypt/key_derivation.go | 14 ++++++++++++++
 core/encrypt/parser.go         |  2 +-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/core/encrypt/key_derivation.go b/core/encrypt/key_derivation.go
index 601871b..5784e80 100644
--- a/core/encrypt/key_derivation.go
+++ b/core/encrypt/key_derivation.go
@@ -82,8 +82,15 @@ func DeriveEncryptionKey(password []byte, encrypt *types.PDFEncryption, fileID [
 
 	key := hash.Sum(nil)
 
+	if encrypt.KeyLength < 0 {
+		return nil, fmt.Errorf("invalid key length: %d bytes", encrypt.KeyLength)
+	}
+
 	// Step 2: For revision 3+, iterate 50 times
 	if encrypt.R >= 3 {
+		if encrypt.KeyLength > md5.Size {
+			return nil, fmt.Errorf("unsupported key length for revision %d: %d bytes", encrypt.R, encrypt.KeyLength)
+		}
 		for i := 0; i < 50; i++ {
 			hash := md5.New()
 			hash.Write(key[:encrypt.KeyLength])
@@ -230,8 +237,15 @@ func DeriveOwnerKey(ownerPassword []byte, encrypt *types.PDFEncryption, fileID [
 	hash.Write(paddedOwnerPassword)
 	ownerHash := hash.Sum(nil)
 
+	if encrypt.KeyLength < 0 {
+		return nil, fmt.Errorf("invalid key length: %d bytes", encrypt.KeyLength)
+	}
+
 	// For revision 3+, iterate 50 times
 	if encrypt.R >= 3 {
+		if encrypt.KeyLength > md5.Size {
+			return nil, fmt.Errorf("unsupported key length for revision %d: %d bytes", encrypt.R, encrypt.KeyLength)
+		}
 		for i := 0; i < 50; i++ {
 			hash := md5.New()
 			hash.Write(ownerHash[:encrypt.KeyLength])
diff --git a/core/encrypt/parser.go b/core/encrypt/parser.go
index a61b2b9..8a0d130 100644
--- a/core/encrypt/parser.go
+++ b/core/encrypt/parser.go
@@ -279,7 +279,7 @@ func ParseEncryptionDictionary(pdfBytes []byte, verbose bool) (*types.PDFEncrypt
 					parenEnd := bytes.Index(pdfBytes[parenStart:], []byte(")"))
 					if parenEnd != -1 {
 						encrypt.OE = make([]byte, parenEnd)
-						copy(encrypt.OE, pdfBytes[oeStartInDict:oeStartInDict+parenEnd])
+						copy(encrypt.OE, pdfBytes[parenStart:parenStart+parenEnd])
 						if verbose {
 							log.Printf("Extracted OE value (binary): %d bytes", len(encrypt.OE))
 						}
-- 
2.43.0


From 0c90ea429d522f61433df068666ef9ed30317e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:32 +0000
Subject: [PATCH 39/76] fix: malformed cross-reference offsets, widths and
 stream lengths are rejected instead of crashing the reader

---
 core/parse/document.go        |  4 ++--
 core/parse/document_parser.go |  3 +++
 core/parse/get_object.go      |  9 ++++----
 core/parse/incremental.go     |  2 +-
 core/parse/object_stream.go   | 43 ++++++++++++++++++++---------------
 core/parse/parser.go          |  5 +++-
 core/parse/xref_stream.go     | 10 ++++++--
 7 files changed, 47 insertions(+), 29 deletions(-)

diff --git a/core/parse/document.go b/core/parse/document.go
index 636014b..a60edcf 100644
--- a/core/parse/document.go
+++ b/core/parse/document.go
@@ -264,13 +264,13 @@ func (r *PDFRevision) RevisionBytes(doc *PDFDocument) []byte {
 	if endOffset == 0 {
 		endOffset = r.EOFOffset + 5 // len("%%EOF")
 		// Include trailing newlines
-		for int(endOffset) < len(doc.RawBytes) &&
+		for endOffset >= 0 && endOffset < int64(len(doc.RawBytes)) &&
 			(doc.RawBytes[endOffset] == '\r' || doc.RawBytes[endOffset] == '\n') {
 			endOffset++
 		}
 	}
 
-	if int(startOffset) >= len(doc.RawBytes) || int(endOffset) > len(doc.RawBytes) {
+	if startOffset < 0 || endOffset < startOffset || endOffset > int64(len(doc.RawBytes)) {
 		return nil
 	}
 
diff --git a/core/parse/document_parser.go b/core/parse/document_parser.go
index 3f8e414..a75a284 100644
--- a/core/parse/document_parser.go
+++ b/core/parse/document_parser.go
@@ -334,6 +334,9 @@ func parseXRefStreamRaw(pdfBytes []byte, startXRef int64, xref *XRefData) (*XRef
 
 // ParseTrailerDataRaw parses trailer data preserving raw bytes
 func ParseTrailerDataRaw(pdfBytes []byte, startXRef int64, eofOffset int) (*TrailerData, error) {
+	if startXRef < 0 || startXRef > int64(len(pdfBytes)) {
+		return nil, fmt.Errorf("xref offset %d outside the document", startXRef)
+	}
 	section := pdfBytes[startXRef:]
 	sectionStr := string(section[:min(5000, len(section))])
 
diff --git a/core/parse/get_object.go b/core/parse/get_object.go
index d305710..8613cb7 100644
--- a/core/parse/get_object.go
+++ b/core/parse/get_object.go
@@ -195,11 +195,10 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 	if streamStart != -1 {
 		// This is a stream object
 		// Find "endstream" to get the full stream
-		endstreamPos := bytes.Index(content, []byte("endstream"))
-		if endstreamPos == -1 {
-			endstreamPos = len(content)
+		endstreamPos := bytes.Index(content[streamStart:], []byte("endstream"))
+		if endstreamPos != -1 {
+			content = content[:streamStart+endstreamPos+len("endstream")]
 		}
-		content = content[:endstreamPos+len("endstream")]
 
 		// Decrypt stream data if needed
 		if encryptInfo != nil && !storedUnencrypted(content[:streamStart], encryptInfo) {
@@ -225,7 +224,7 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 
 			// Use /Length if available, otherwise find endstream
 			var streamData []byte
-			if streamLength > 0 && streamDataStart+streamLength <= len(content) {
+			if streamLength > 0 && streamLength <= len(content)-streamDataStart {
 				streamData = content[streamDataStart : streamDataStart+streamLength]
 			} else {
 				streamDataEnd := bytes.Index(content[streamDataStart:], []byte("endstream"))
diff --git a/core/parse/incremental.go b/core/parse/incremental.go
index ecb3078..775d68b 100644
--- a/core/parse/incremental.go
+++ b/core/parse/incremental.go
@@ -251,7 +251,7 @@ func (p *incrementalParser) findPrevOffset(startXRef int64) (int64, error) {
 
 // parsexrefSection parses a single xref section at the given offset
 func (p *incrementalParser) parsexrefSection(startXRef int64) (*xrefSection, error) {
-	if startXRef >= int64(len(p.pdfBytes)) {
+	if startXRef < 0 || startXRef >= int64(len(p.pdfBytes)) {
 		return nil, fmt.Errorf("startXRef out of bounds: %d >= %d", startXRef, len(p.pdfBytes))
 	}
 
diff --git a/core/parse/object_stream.go b/core/parse/object_stream.go
index 4d52118..c34102d 100644
--- a/core/parse/object_stream.go
+++ b/core/parse/object_stream.go
@@ -60,7 +60,7 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 
 	// Find the stream dictionary
 	dictStart := bytes.Index(xrefSection, []byte("<<"))
-	if dictStart == -1 {
+	if dictStart == -1 || dictStart > len(xrefStr) {
 		return nil, fmt.Errorf("xref stream dictionary not found")
 	}
 
@@ -159,40 +159,40 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 
 			if predictor >= 10 && predictor <= 15 {
 				// PNG predictor - apply filter
+				if columns < 1 || columns > len(decompressed) {
+					return nil, fmt.Errorf("invalid predictor columns %d for %d bytes of xref stream", columns, len(decompressed))
+				}
 				rowSize := columns + 1 // +1 for filter byte
-				numRows := len(decompressed) / rowSize
 
-				decoded := make([]byte, numRows*columns)
+				decoded := make([]byte, 0, len(decompressed))
 				prevRow := make([]byte, columns)
 
-				for row := 0; row < numRows; row++ {
-					rowStart := row * rowSize
-					if rowStart+rowSize > len(decompressed) {
-						break
-					}
+				for rowStart := 0; rowStart+rowSize <= len(decompressed); rowStart += rowSize {
 					filterByte := decompressed[rowStart]
 					rowData := decompressed[rowStart+1 : rowStart+rowSize]
 
+					row := make([]byte, columns)
 					switch filterByte {
 					case 0: // None
-						copy(decoded[row*columns:], rowData)
+						copy(row, rowData)
 					case 1: // Sub
 						for i := 0; i < columns; i++ {
 							left := byte(0)
 							if i > 0 {
-								left = decoded[row*columns+i-1]
+								left = row[i-1]
 							}
-							decoded[row*columns+i] = rowData[i] + left
+							row[i] = rowData[i] + left
 						}
 					case 2: // Up (most common for Predictor 12)
 						for i := 0; i < columns; i++ {
-							decoded[row*columns+i] = rowData[i] + prevRow[i]
+							row[i] = rowData[i] + prevRow[i]
 						}
 					default:
-						copy(decoded[row*columns:], rowData)
+						copy(row, rowData)
 					}
 
-					copy(prevRow, decoded[row*columns:row*columns+columns])
+					decoded = append(decoded, row...)
+					prevRow = row
 				}
 
 				decompressed = decoded
@@ -201,6 +201,9 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 	}
 
 	// Parse entries
+	if w1 < 0 || w1 > 8 || w2 < 0 || w2 > 8 || w3 < 0 || w3 > 8 {
+		return nil, fmt.Errorf("invalid field widths: w1=%d, w2=%d, w3=%d", w1, w2, w3)
+	}
 	entrySize := w1 + w2 + w3
 	if entrySize == 0 {
 		return nil, fmt.Errorf("invalid entry size")
@@ -321,7 +324,7 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 	}
 
 	// Use /Length to get exact stream data
-	if streamDataStart+streamLength > len(objSection) {
+	if streamLength < 0 || streamLength > len(objSection)-streamDataStart {
 		return nil, fmt.Errorf("stream length %d exceeds available data", streamLength)
 	}
 
@@ -386,6 +389,9 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 	}
 	var entries []objEntry
 
+	if firstOffset < 0 || firstOffset > len(decompressed) {
+		return nil, fmt.Errorf("/First %d outside the object stream (%d bytes)", firstOffset, len(decompressed))
+	}
 	headerData := decompressed[:firstOffset]
 	headerStr := string(headerData)
 	fields := strings.Fields(headerStr)
@@ -396,7 +402,7 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 		entries = append(entries, objEntry{objNum: on, offset: off})
 	}
 
-	if indexInStream >= len(entries) {
+	if indexInStream < 0 || indexInStream >= len(entries) {
 		return nil, fmt.Errorf("index %d out of range (stream has %d objects)", indexInStream, len(entries))
 	}
 
@@ -405,9 +411,10 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 	if targetEntry.objNum != objNum {
 		// Try to find by object number instead
 		found := false
-		for _, e := range entries {
+		for i, e := range entries {
 			if e.objNum == objNum {
 				targetEntry = e
+				indexInStream = i
 				found = true
 				break
 			}
@@ -429,7 +436,7 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 		objDataEnd = len(decompressed)
 	}
 
-	if objDataStart >= len(decompressed) || objDataEnd > len(decompressed) {
+	if objDataStart < 0 || objDataStart >= len(decompressed) || objDataEnd < objDataStart || objDataEnd > len(decompressed) {
 		return nil, fmt.Errorf("object data offset out of range")
 	}
 
diff --git a/core/parse/parser.go b/core/parse/parser.go
index 9db3ade..cfc0d22 100644
--- a/core/parse/parser.go
+++ b/core/parse/parser.go
@@ -182,6 +182,9 @@ func ParseTraditionalXRefTable(pdfBytes []byte, startXRef int64) (map[int]int64,
 	objMap := make(map[int]int64)
 
 	// Read from startxref position
+	if startXRef < 0 || startXRef > int64(len(pdfBytes)) {
+		return nil, fmt.Errorf("xref table offset %d outside the document", startXRef)
+	}
 	xrefSection := pdfBytes[startXRef:]
 	xrefStr := string(xrefSection[:min(10000, len(xrefSection))])
 
@@ -242,7 +245,7 @@ func ParseTraditionalXRefTable(pdfBytes []byte, startXRef int64) (map[int]int64,
 
 // GetSampleObjectNumbers returns a sample of object numbers from the map (for debugging)
 func GetSampleObjectNumbers(objMap map[int]int64, max int) []int {
-	result := make([]int, 0, max)
+	result := make([]int, 0)
 	count := 0
 	for _, objNum := range sorted.Keys(objMap) {
 		if count >= max {
diff --git a/core/parse/xref_stream.go b/core/parse/xref_stream.go
index 29aafa5..baa7bf0 100644
--- a/core/parse/xref_stream.go
+++ b/core/parse/xref_stream.go
@@ -26,6 +26,9 @@ func ParseXRefStreamWithEncryption(pdfBytes []byte, startXRef int64, encryptInfo
 
 	// The xref stream object should be at startXRef
 	// Find object number - it should be at or near startXRef
+	if startXRef < 0 || startXRef > int64(len(pdfBytes)) {
+		return nil, fmt.Errorf("xref stream offset %d outside the document", startXRef)
+	}
 	xrefSection := pdfBytes[startXRef:]
 	xrefStr := string(xrefSection[:min(500, len(xrefSection))])
 
@@ -38,7 +41,7 @@ func ParseXRefStreamWithEncryption(pdfBytes []byte, startXRef int64, encryptInfo
 		if startXRef > 100 {
 			searchStart = startXRef - 100
 		}
-		searchSection := pdfBytes[searchStart : startXRef+500]
+		searchSection := pdfBytes[searchStart:min(startXRef+500, int64(len(pdfBytes)))]
 		searchStr := string(searchSection)
 		objMatch = objPattern.FindStringSubmatch(searchStr)
 		if objMatch == nil {
@@ -48,7 +51,7 @@ func ParseXRefStreamWithEncryption(pdfBytes []byte, startXRef int64, encryptInfo
 
 	// Find the stream dictionary
 	dictStart := bytes.Index(xrefSection, []byte("<<"))
-	if dictStart == -1 {
+	if dictStart == -1 || dictStart > len(xrefStr) {
 		return nil, fmt.Errorf("xref stream dictionary not found")
 	}
 
@@ -146,6 +149,9 @@ func ParseXRefStreamWithEncryption(pdfBytes []byte, startXRef int64, encryptInfo
 
 	// Parse decompressed stream data
 	// Each entry is w1+w2+w3 bytes
+	if w1 < 0 || w1 > 8 || w2 < 0 || w2 > 8 || w3 < 0 || w3 > 8 {
+		return nil, fmt.Errorf("invalid field widths: w1=%d, w2=%d, w3=%d", w1, w2, w3)
+	}
 	entrySize := w1 + w2 + w3
 	if entrySize == 0 {
 		return nil, fmt.Errorf("invalid entry size: w1=%d, w2=%d, w3=%d", w1, w2, w3)
-- 
2.43.0


From 944ddead439daddb5bca53bda7512b4af40234c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:56 +0000
Subject: [PATCH 40/76] fix: a JPEG header or XFA array that ends early is
 refused instead of crashing the writer

---
 core/write/image.go       | 2 +-
 core/write/xfa_builder.go | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/write/image.go b/core/write/image.go
index 7c2a8b2..56c5380 100644
--- a/core/write/image.go
+++ b/core/write/image.go
@@ -188,7 +188,7 @@ func parseJPEGHeader(data []byte) (width, height int, colorSpace string, err err
 		// SOF0-SOF15 (except SOF4, SOF8, SOF12 which are not frame markers)
 		// We're interested in SOF0 (baseline), SOF1, SOF2 (progressive)
 		if marker >= 0xC0 && marker <= 0xC3 {
-			if pos+7 > len(data) {
+			if pos+8 > len(data) {
 				return 0, 0, "", fmt.Errorf("truncated SOF segment")
 			}
 
diff --git a/core/write/xfa_builder.go b/core/write/xfa_builder.go
index 56a732f..6741a47 100644
--- a/core/write/xfa_builder.go
+++ b/core/write/xfa_builder.go
@@ -439,6 +439,9 @@ func parseXFAArrayFromContent(content []byte, verbose bool) (map[string]int, err
 			}
 		}
 	}
+	if arrayEnd == arrayStart {
+		return result, fmt.Errorf("XFA array end not found")
+	}
 
 	arrayContent := string(content[arrayStart+1 : arrayEnd-1])
 	if verbose {
-- 
2.43.0


From c2f356201376dad8af186c5b6809e8f8f86f2914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:56 +0000
Subject: [PATCH 41/76] fix: malformed link addresses and stream lengths cannot
 crash extraction

---
 content/extract/annotations.go | 4 ++--
 content/extract/images.go      | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/content/extract/annotations.go b/content/extract/annotations.go
index e8d6a65..5a93c3d 100644
--- a/content/extract/annotations.go
+++ b/content/extract/annotations.go
@@ -174,7 +174,7 @@ func extractAnnotation(annotObjNum int, pdf *parse.PDF, pageNum int, verbose boo
 		uriRef := extractDictValue(annotStr, "/URI")
 		if uriRef != "" {
 			// URI might be a string or a reference to a URI object
-			if strings.HasPrefix(uriRef, "(") {
+			if len(uriRef) >= 2 && strings.HasPrefix(uriRef, "(") {
 				// It's a string
 				annotation.URI = unescapePDFString(uriRef[1 : len(uriRef)-1])
 			} else {
@@ -185,7 +185,7 @@ func extractAnnotation(annotObjNum int, pdf *parse.PDF, pageNum int, verbose boo
 					if err == nil {
 						uriStr := string(uriObj)
 						uriValue := extractDictValue(uriStr, "/URI")
-						if uriValue != "" {
+						if len(uriValue) >= 2 {
 							annotation.URI = unescapePDFString(uriValue[1 : len(uriValue)-1])
 						}
 					}
diff --git a/content/extract/images.go b/content/extract/images.go
index 089dc4f..003c0bd 100644
--- a/content/extract/images.go
+++ b/content/extract/images.go
@@ -98,7 +98,7 @@ func extractImageData(imageObjNum int, pdf *parse.PDF, verbose bool) (*types.Ima
 
 		// Use /Length if available, otherwise find endstream
 		var streamData []byte
-		if streamLength > 0 && streamDataStart+streamLength <= len(imageObjBytes) {
+		if streamLength > 0 && streamLength <= len(imageObjBytes)-streamDataStart {
 			streamData = imageObjBytes[streamDataStart : streamDataStart+streamLength]
 		} else {
 			endstreamIdx := bytes.Index(imageObjBytes[streamDataStart:], []byte("endstream"))
-- 
2.43.0


From 83c4439e7ee06f72b5eb8e9b9879a50447d552f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:56 +0000
Subject: [PATCH 42/76] fix: malformed arrays and object streams cannot crash
 the form reader

---
 forms/acroform/parser.go         | 2 +-
 forms/acroform/stream_rebuild.go | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/forms/acroform/parser.go b/forms/acroform/parser.go
index 6d764ae..664b700 100644
--- a/forms/acroform/parser.go
+++ b/forms/acroform/parser.go
@@ -245,7 +245,7 @@ func parseArray(arrStr string) []interface{} {
 	// Simple parsing - split by spaces and handle strings
 	parts := strings.Fields(arrStr)
 	for _, part := range parts {
-		if strings.HasPrefix(part, "(") && strings.HasSuffix(part, ")") {
+		if len(part) >= 2 && strings.HasPrefix(part, "(") && strings.HasSuffix(part, ")") {
 			items = append(items, part[1:len(part)-1])
 		} else {
 			items = append(items, part)
diff --git a/forms/acroform/stream_rebuild.go b/forms/acroform/stream_rebuild.go
index f9315b7..d7cb06e 100644
--- a/forms/acroform/stream_rebuild.go
+++ b/forms/acroform/stream_rebuild.go
@@ -209,6 +209,9 @@ func rebuildStreamContent(streamDict map[string]interface{}, streamData []byte,
 	if !ok {
 		return nil, nil, fmt.Errorf("/First not found in stream dict")
 	}
+	if first < 0 || first > len(streamData) {
+		return nil, nil, fmt.Errorf("/First %d is outside the stream data", first)
+	}
 
 	// Parse header
 	headerData := streamData[:first]
@@ -219,7 +222,7 @@ func rebuildStreamContent(streamDict map[string]interface{}, streamData []byte,
 		objNum int
 		offset int
 	}
-	entries := make([]objEntry, 0, n)
+	var entries []objEntry
 
 	for i := 0; i < len(fields)-1 && len(entries) < n; i += 2 {
 		on, _ := strconv.Atoi(fields[i])
@@ -237,6 +240,9 @@ func rebuildStreamContent(streamDict map[string]interface{}, streamData []byte,
 		} else {
 			objEnd = len(streamData)
 		}
+		if objStart < first || objStart > objEnd || objEnd > len(streamData) {
+			return nil, nil, fmt.Errorf("object %d has no valid place in the stream", entry.objNum)
+		}
 
 		objData := streamData[objStart:objEnd]
 		objData = bytes.TrimRight(objData, " \t\r\n")
-- 
2.43.0


From f03141d8de8a9c2384c1d723b594929a8196c082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:56 +0000
Subject: [PATCH 43/76] fix: malformed offsets and lengths cannot crash the XFA
 reader

---
 forms/xfa/stream.go    | 10 +++++-----
 forms/xfa/xfa.go       |  7 +++++--
 forms/xfa/xfa_utils.go | 13 ++++++++-----
 3 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/forms/xfa/stream.go b/forms/xfa/stream.go
index 2a86532..da01cfe 100644
--- a/forms/xfa/stream.go
+++ b/forms/xfa/stream.go
@@ -86,8 +86,7 @@ func skipOverWhitespace(stream *PDFStream) bool {
 	for {
 		b, err := stream.ReadByte()
 		if err != nil {
-			stream.Seek(-1, 1) // Seek back
-			break
+			break // nothing was read
 		}
 		if b == ' ' || b == '\t' || b == '\r' || b == '\n' {
 			skipped = true
@@ -243,8 +242,9 @@ func ReadObjectFromXRef(pdfBytes []byte, objNum, genNum int, xrefOffset int64, e
 		}
 
 		// Search in a window around xref offset (headers are usually close)
-		searchStart := max(0, int(xrefOffset)-500)
-		searchEnd := min(len(pdfBytes), int(xrefOffset)+500)
+		center := max(0, min(int(xrefOffset), len(pdfBytes)))
+		searchStart := max(0, center-500)
+		searchEnd := min(len(pdfBytes), center+500)
 		searchArea := pdfBytes[searchStart:searchEnd]
 
 		pattern := []byte(fmt.Sprintf("%d %d obj", objNum, genNum))
@@ -691,7 +691,7 @@ func decodeStringValue(value []byte) ([]byte, bool, error) {
 	switch {
 	case bytes.HasPrefix(value, []byte("<<")):
 		return nil, false, nil
-	case bytes.HasPrefix(value, []byte("<")) && bytes.HasSuffix(value, []byte(">")):
+	case len(value) >= 2 && bytes.HasPrefix(value, []byte("<")) && bytes.HasSuffix(value, []byte(">")):
 		digits := bytes.Join(bytes.Fields(value[1:len(value)-1]), nil)
 		if len(digits)%2 != 0 {
 			digits = append(digits, '0')
diff --git a/forms/xfa/xfa.go b/forms/xfa/xfa.go
index 632e3c3..84476df 100644
--- a/forms/xfa/xfa.go
+++ b/forms/xfa/xfa.go
@@ -53,11 +53,14 @@ func extractStreamDataFromObject(objData []byte, objNum int, encryptInfo *types.
 	if dataStart < len(objData) && objData[dataStart] == '\n' {
 		dataStart++
 	}
+	if endstreamIdx < dataStart {
+		return nil, fmt.Errorf("stream keyword not found in object %d", objNum)
+	}
 
 	var streamData []byte
 	if lengthMatch != nil {
 		length, _ := strconv.Atoi(lengthMatch[1])
-		if dataStart+length <= len(objData) {
+		if length <= len(objData)-dataStart {
 			streamData = objData[dataStart : dataStart+length]
 		} else {
 			streamData = objData[dataStart:endstreamIdx]
@@ -479,7 +482,7 @@ func UpdateXFAValues(xfaXML string, formData types.FormData, verbose bool) (stri
 
 	// Find end of data section
 	dataEnd := strings.LastIndex(xfaXML, "</data>")
-	if dataEnd == -1 {
+	if dataEnd < dataStart {
 		return UpdateXFAFieldValues(xfaXML, formData, verbose)
 	}
 
diff --git a/forms/xfa/xfa_utils.go b/forms/xfa/xfa_utils.go
index 7e3c22a..69dad37 100644
--- a/forms/xfa/xfa_utils.go
+++ b/forms/xfa/xfa_utils.go
@@ -23,6 +23,9 @@ func findObjectBoundaries(pdfBytes []byte, objIndex int, objNum int, objName str
 	// The xref offset might point to encrypted content, but "obj" keyword is not encrypted
 	// Strategy: First try direct pattern search, then fall back to searching for "obj" keyword
 
+	// An offset outside the file only says which end to search from
+	objIndex = max(0, min(objIndex, len(pdfBytes)))
+
 	objKeywordPos := -1
 	objStart = objIndex
 
@@ -250,7 +253,7 @@ func findAndDecryptAcroForm(pdfBytes []byte, acroFormObjNum int, encryptInfo *ty
 
 		// Check if this is a stream object
 		streamKeywordPos := bytes.Index(objContent, []byte("stream"))
-		isStreamObject := streamKeywordPos != -1
+		isStreamObject := streamKeywordPos >= dataStart
 
 		if isStreamObject {
 			// Stream object: decrypt dictionary portion (between "obj" and "stream")
@@ -280,7 +283,7 @@ func findAndDecryptAcroForm(pdfBytes []byte, acroFormObjNum int, encryptInfo *ty
 		} else {
 			// Regular object: decrypt content between dataStart and "endobj"
 			endobjPos := bytes.Index(objContent, []byte("endobj"))
-			if endobjPos == -1 {
+			if endobjPos < dataStart {
 				// If endobj not found and no header, try decrypting a reasonable chunk
 				// UniPDF approach: decrypt and look for structure markers
 				if objKeywordPos == -1 {
@@ -295,7 +298,7 @@ func findAndDecryptAcroForm(pdfBytes []byte, acroFormObjNum int, encryptInfo *ty
 					// Try decrypting from the xref offset position
 					// decryptInChunks will try different alignments, but we should start from xref position
 					decryptStart := relativeXrefOffset
-					decryptLen := min(10000, len(objContent)-decryptStart)
+					decryptLen := max(0, min(10000, len(objContent)-decryptStart))
 					// Round down to multiple of 16 for AES
 					decryptLen = (decryptLen / 16) * 16
 					if decryptLen >= 16 {
@@ -732,7 +735,7 @@ func extractStreamFromPDF(pdfBytes []byte, streamObjNum int, encryptInfo *types.
 
 	// Find "stream" keyword (not encrypted)
 	streamKeywordPos := bytes.Index(objContent, []byte("stream"))
-	if streamKeywordPos == -1 {
+	if streamKeywordPos < dataStart {
 		return nil, 0, fmt.Errorf("stream keyword not found for object %d", streamObjNum)
 	}
 
@@ -760,7 +763,7 @@ func extractStreamFromPDF(pdfBytes []byte, streamObjNum int, encryptInfo *types.
 
 	// Use /Length if available, otherwise find endstream
 	var streamContent []byte
-	if streamLength > 0 && streamDataStart+streamLength <= len(objContent) {
+	if streamLength > 0 && streamLength <= len(objContent)-streamDataStart {
 		streamContent = objContent[streamDataStart : streamDataStart+streamLength]
 	} else {
 		// Fallback: find endstream
-- 
2.43.0


From 0fb49d49e370025107df791a5d62f083178cd347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:56 +0000
Subject: [PATCH 44/76] fix: a font whose tables lie outside the file or
 overflow 16 bits is refused instead of crashing

---
 resources/font/font.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/resources/font/font.go b/resources/font/font.go
index 29d0dae..d98e92e 100644
--- a/resources/font/font.go
+++ b/resources/font/font.go
@@ -108,7 +108,7 @@ func ParseTTF(data []byte) (*TTF, error) {
 			Checksum: checksum,
 			Offset:   tableOffset,
 			Length:   length,
-			Data:     data[tableOffset : tableOffset+length],
+			Data:     data[int(tableOffset) : int(tableOffset)+int(length)],
 		}
 
 		offset += 16
@@ -205,7 +205,8 @@ func (ttf *TTF) parseName() error {
 
 		// We're interested in Unicode names (platform 3 or 0)
 		if (platformID == 3 || platformID == 0) && int(stringOffset)+int(startOffset)+int(length) <= len(name.Data) {
-			nameData := name.Data[stringOffset+startOffset : stringOffset+startOffset+length]
+			start := int(stringOffset) + int(startOffset)
+			nameData := name.Data[start : start+int(length)]
 
 			var nameStr string
 			if platformID == 3 {
@@ -404,6 +405,9 @@ func parseCmap(data []byte) (map[rune]uint16, error) {
 	}
 
 	// Parse the subtable
+	if int(bestOffset) > len(data) {
+		return nil, fmt.Errorf("cmap subtable lies outside the table")
+	}
 	subtableData := data[bestOffset:]
 	if len(subtableData) < 2 {
 		return nil, fmt.Errorf("cmap subtable too short")
@@ -444,6 +448,9 @@ func parseCmapFormat4(data []byte, glyphMap map[rune]uint16) (map[rune]uint16, e
 	startCodeOffset := endCodeOffset + 2 + int(segCount)*2
 	idDeltaOffset := startCodeOffset + int(segCount)*2
 	idRangeOffsetOffset := idDeltaOffset + int(segCount)*2
+	if idRangeOffsetOffset+int(segCount)*2 > len(data) {
+		return nil, fmt.Errorf("cmap format 4 too short for %d segments", segCount)
+	}
 
 	for i := 0; i < int(segCount); i++ {
 		startCode := binary.BigEndian.Uint16(data[startCodeOffset+i*2 : startCodeOffset+i*2+2])
@@ -543,7 +550,7 @@ func (f *Font) GetWidths() ([]int, error) {
 	widths := make([]int, len(glyphs))
 	for i, gid := range glyphs {
 		if int(gid)*4+2 <= len(hmtx.Data) {
-			widths[i] = int(binary.BigEndian.Uint16(hmtx.Data[gid*4 : gid*4+2]))
+			widths[i] = int(binary.BigEndian.Uint16(hmtx.Data[int(gid)*4 : int(gid)*4+2]))
 		} else {
 			widths[i] = int(ttf.UnitsPerEm) // Default width
 		}
-- 
2.43.0


From d0fa350dbde61ea231a76ef7e408a3c1376b49ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:06 +0000
Subject: [PATCH 45/76] fix: page numbers refer to the document as edited so
 far, and page counts stay right after an edit

---
 core/manipulate/deletion.go  | 113 +++++++++++++++++++----------------
 core/manipulate/insertion.go |  50 ++++++++++------
 core/manipulate/merging.go   |  15 +++--
 core/manipulate/rotation.go  |  29 ++++++---
 4 files changed, 122 insertions(+), 85 deletions(-)

diff --git a/core/manipulate/deletion.go b/core/manipulate/deletion.go
index 3eb8dc0..425c426 100644
--- a/core/manipulate/deletion.go
+++ b/core/manipulate/deletion.go
@@ -3,7 +3,9 @@ package manipulate
 import (
 	"fmt"
 	"regexp"
+	"sort"
 	"strconv"
+	"strings"
 )
 
 // DeletePage deletes a specific page from the PDF
@@ -44,14 +46,14 @@ func (m *PDFManipulator) DeletePage(pageNumber int) error {
 
 	newKidsRefs := make([]string, 0, len(kidsRefs)-1)
 
-	// Match page reference by object number (ignore whitespace)
-	pageRefPattern := fmt.Sprintf(`%d\s+\d+\s+R`, pageObjNum)
-	pageRefRegex := regexp.MustCompile(pageRefPattern)
-
 	found := false
 	for _, kidRef := range kidsRefs {
+		kidObjNum, err := parseObjectRef(kidRef)
+		if err != nil {
+			return fmt.Errorf("invalid kid of Pages object %d: %w", parentPagesObjNum, err)
+		}
 		// Check if this reference matches the page we want to delete
-		if pageRefRegex.MatchString(kidRef) {
+		if kidObjNum == pageObjNum {
 			found = true
 			// Skip this reference (don't add to newKidsRefs)
 		} else {
@@ -81,18 +83,13 @@ func (m *PDFManipulator) DeletePage(pageNumber int) error {
 		return fmt.Errorf("cannot delete page: would result in 0 pages")
 	}
 
-	// Update Count using direct regex replacement to ensure it works
-	countPattern := regexp.MustCompile(`/Count\s+\d+`)
-	updatedPagesStr = countPattern.ReplaceAllString(updatedPagesStr, fmt.Sprintf("/Count %d", newCount))
-
-	m.objects[parentPagesObjNum] = []byte(updatedPagesStr)
-
 	// Also need to update /Count in all ancestor Pages objects
-	err = m.updatePageCounts(parentPagesObjNum, -1)
+	updates, err := m.updatePageCounts(parentPagesObjNum, updatedPagesStr, newCount-len(kidsRefs))
 	if err != nil {
-		if m.verbose {
-			fmt.Printf("Warning: failed to update page counts: %v\n", err)
-		}
+		return fmt.Errorf("failed to update page counts: %w", err)
+	}
+	for objNum, content := range updates {
+		m.objects[objNum] = content
 	}
 
 	if m.verbose {
@@ -103,16 +100,23 @@ func (m *PDFManipulator) DeletePage(pageNumber int) error {
 }
 
 // DeletePages deletes multiple pages from the PDF
-// pageNumbers is 1-based and should be sorted in descending order to avoid index shifts
+// pageNumbers is 1-based, in any order, and refers to the document before the deletion
 func (m *PDFManipulator) DeletePages(pageNumbers []int) error {
 	// Sort in descending order to avoid index shifts
 	// (delete from end to beginning)
+	sorted := append([]int(nil), pageNumbers...)
+	sort.Sort(sort.Reverse(sort.IntSlice(sorted)))
+	for i := 1; i < len(sorted); i++ {
+		if sorted[i] == sorted[i-1] {
+			return fmt.Errorf("page %d listed more than once", sorted[i])
+		}
+	}
 	// Work on a copy so that a failure part-way leaves the document unchanged
 	work := *m
 	work.objects = m.copyObjects()
-	for i := len(pageNumbers) - 1; i >= 0; i-- {
-		if err := work.DeletePage(pageNumbers[i]); err != nil {
-			return fmt.Errorf("failed to delete page %d: %w", pageNumbers[i], err)
+	for _, pageNumber := range sorted {
+		if err := work.DeletePage(pageNumber); err != nil {
+			return fmt.Errorf("failed to delete page %d: %w", pageNumber, err)
 		}
 	}
 	m.objects = work.objects
@@ -141,7 +145,7 @@ func (m *PDFManipulator) findParentPagesObject(pageObjNum int) (int, error) {
 		return 0, fmt.Errorf("failed to parse root reference: %w", err)
 	}
 
-	catalogObj, err := m.pdf.GetObject(rootObjNum)
+	catalogObj, err := m.currentObject(rootObjNum)
 	if err != nil {
 		return 0, fmt.Errorf("failed to get catalog: %w", err)
 	}
@@ -158,12 +162,18 @@ func (m *PDFManipulator) findParentPagesObject(pageObjNum int) (int, error) {
 	}
 
 	// Recursively search for the parent
-	return m.findParentPagesObjectRecursive(pagesObjNum, pageObjNum)
+	return m.findParentPagesObjectRecursive(pagesObjNum, pageObjNum, map[int]bool{})
 }
 
 // findParentPagesObjectRecursive recursively searches for the parent Pages object
-func (m *PDFManipulator) findParentPagesObjectRecursive(pagesObjNum, targetPageObjNum int) (int, error) {
-	pagesObj, err := m.pdf.GetObject(pagesObjNum)
+// visited holds the /Pages nodes searched so far
+func (m *PDFManipulator) findParentPagesObjectRecursive(pagesObjNum, targetPageObjNum int, visited map[int]bool) (int, error) {
+	if visited[pagesObjNum] {
+		return 0, fmt.Errorf("page tree node %d occurs twice", pagesObjNum)
+	}
+	visited[pagesObjNum] = true
+
+	pagesObj, err := m.currentObject(pagesObjNum)
 	if err != nil {
 		return 0, err
 	}
@@ -196,7 +206,7 @@ func (m *PDFManipulator) findParentPagesObjectRecursive(pagesObjNum, targetPageO
 		}
 
 		// Check if this kid is a /Pages node - recurse
-		kidObj, err := m.pdf.GetObject(kidObjNum)
+		kidObj, err := m.currentObject(kidObjNum)
 		if err != nil {
 			continue
 		}
@@ -204,7 +214,7 @@ func (m *PDFManipulator) findParentPagesObjectRecursive(pagesObjNum, targetPageO
 		kidType := extractDictValue(kidStr, "/Type")
 		if kidType == "/Pages" {
 			// Recurse into this Pages node
-			parent, err := m.findParentPagesObjectRecursive(kidObjNum, targetPageObjNum)
+			parent, err := m.findParentPagesObjectRecursive(kidObjNum, targetPageObjNum, visited)
 			if err == nil {
 				return parent, nil
 			}
@@ -214,36 +224,33 @@ func (m *PDFManipulator) findParentPagesObjectRecursive(pagesObjNum, targetPageO
 	return 0, fmt.Errorf("page object %d not found in page tree", targetPageObjNum)
 }
 
-// updatePageCounts updates the /Count field in the given Pages object and all ancestors
-func (m *PDFManipulator) updatePageCounts(pagesObjNum int, delta int) error {
-	// Update this Pages object's count
-	pagesObj, ok := m.objects[pagesObjNum]
-	if !ok {
-		return fmt.Errorf("Pages object %d not found", pagesObjNum)
-	}
-
-	pagesStr := string(pagesObj)
-	countStr := extractDictValue(pagesStr, "/Count")
-	currentCount := 0
-	if countStr != "" {
-		var err error
-		currentCount, err = strconv.Atoi(countStr)
+// updatePageCounts returns the given Pages object (with its new content) and all its ancestors,
+// each with its /Count changed by delta
+func (m *PDFManipulator) updatePageCounts(pagesObjNum int, pagesStr string, delta int) (map[int][]byte, error) {
+	countPattern := regexp.MustCompile(`/Count\s+\d+`)
+	updates := make(map[int][]byte)
+	for {
+		currentCount, err := strconv.Atoi(strings.TrimSpace(strings.TrimPrefix(countPattern.FindString(pagesStr), "/Count")))
 		if err != nil {
-			currentCount = 0
+			return nil, fmt.Errorf("Pages object %d has no valid /Count: %w", pagesObjNum, err)
 		}
-	}
+		updates[pagesObjNum] = []byte(countPattern.ReplaceAllString(pagesStr, fmt.Sprintf("/Count %d", currentCount+delta)))
 
-	newCount := currentCount + delta
-	if newCount < 0 {
-		newCount = 0
+		parentRef := extractDictValue(pagesStr, "/Parent")
+		if parentRef == "" {
+			return updates, nil
+		}
+		pagesObjNum, err = parseObjectRef(parentRef)
+		if err != nil {
+			return nil, fmt.Errorf("failed to parse /Parent reference: %w", err)
+		}
+		if _, seen := updates[pagesObjNum]; seen {
+			return nil, fmt.Errorf("Pages object %d is its own ancestor", pagesObjNum)
+		}
+		pagesObj, err := m.currentObject(pagesObjNum)
+		if err != nil {
+			return nil, fmt.Errorf("failed to get Pages object %d: %w", pagesObjNum, err)
+		}
+		pagesStr = string(pagesObj)
 	}
-
-	updatedPagesStr := setDictValue(pagesStr, "/Count", fmt.Sprintf("%d", newCount))
-	m.objects[pagesObjNum] = []byte(updatedPagesStr)
-
-	// Note: Updating parent Pages objects' /Count would require
-	// finding the parent of this Pages object in the tree.
-	// For now, we only update the immediate Pages object.
-	// This is sufficient for most cases where pages are direct children.
-	return nil
 }
diff --git a/core/manipulate/insertion.go b/core/manipulate/insertion.go
index df62efc..f37ca21 100644
--- a/core/manipulate/insertion.go
+++ b/core/manipulate/insertion.go
@@ -2,7 +2,6 @@ package manipulate
 
 import (
 	"fmt"
-	"regexp"
 )
 
 // InsertPage inserts a page at a specific position
@@ -20,8 +19,14 @@ func (m *PDFManipulator) InsertPage(pageNumber int, pageObjNum int, pageContent
 		return fmt.Errorf("page number %d out of range (0-%d)", pageNumber, len(pageObjNums)+1)
 	}
 
-	// Find the parent Pages object
-	parentPagesObjNum, err := m.findParentPagesObjectForInsertion()
+	// Find the parent Pages object: that of the page at this position, or the root to insert at the end
+	var parentPagesObjNum int
+	atEnd := pageNumber == 0 || pageNumber == len(pageObjNums)+1
+	if atEnd {
+		parentPagesObjNum, err = m.findParentPagesObjectForInsertion()
+	} else {
+		parentPagesObjNum, err = m.findParentPagesObject(pageObjNums[pageNumber-1])
+	}
 	if err != nil {
 		return fmt.Errorf("failed to find parent Pages object: %w", err)
 	}
@@ -45,16 +50,21 @@ func (m *PDFManipulator) InsertPage(pageNumber int, pageObjNum int, pageContent
 
 	// Insert the new page reference at the specified position
 	newKidsRefs := make([]string, 0, len(kidsRefs)+1)
-	if pageNumber == 0 || pageNumber > len(kidsRefs) {
+	inserted := false
+	for _, kidRef := range kidsRefs {
+		kidObjNum, err := parseObjectRef(kidRef)
+		if err != nil {
+			return fmt.Errorf("invalid kid of Pages object %d: %w", parentPagesObjNum, err)
+		}
+		if !atEnd && !inserted && kidObjNum == pageObjNums[pageNumber-1] {
+			newKidsRefs = append(newKidsRefs, fmt.Sprintf("%d 0 R", pageObjNum))
+			inserted = true
+		}
+		newKidsRefs = append(newKidsRefs, kidRef)
+	}
+	if !inserted {
 		// Insert at end
-		newKidsRefs = append(newKidsRefs, kidsRefs...)
-		newKidsRefs = append(newKidsRefs, fmt.Sprintf("%d 0 R", pageObjNum))
-	} else {
-		// Insert at specific position (1-based, convert to 0-based)
-		insertIdx := pageNumber - 1
-		newKidsRefs = append(newKidsRefs, kidsRefs[:insertIdx]...)
 		newKidsRefs = append(newKidsRefs, fmt.Sprintf("%d 0 R", pageObjNum))
-		newKidsRefs = append(newKidsRefs, kidsRefs[insertIdx:]...)
 	}
 
 	// Rebuild Kids array string
@@ -67,16 +77,18 @@ func (m *PDFManipulator) InsertPage(pageNumber int, pageObjNum int, pageContent
 	}
 	newKidsStr += " ]"
 
-	// Add the page object to our objects map
-	m.objects[pageObjNum] = pageContent
-
 	// Update /Kids and /Count in parent Pages object
 	updatedPagesStr := setDictValue(parentPagesStr, "/Kids", newKidsStr)
-	newCount := len(newKidsRefs)
-	countPattern := regexp.MustCompile(`/Count\s+\d+`)
-	updatedPagesStr = countPattern.ReplaceAllString(updatedPagesStr, fmt.Sprintf("/Count %d", newCount))
+	updates, err := m.updatePageCounts(parentPagesObjNum, updatedPagesStr, 1)
+	if err != nil {
+		return fmt.Errorf("failed to update page counts: %w", err)
+	}
 
-	m.objects[parentPagesObjNum] = []byte(updatedPagesStr)
+	// Add the page object to our objects map
+	m.objects[pageObjNum] = pageContent
+	for objNum, content := range updates {
+		m.objects[objNum] = content
+	}
 
 	if m.verbose {
 		fmt.Printf("Inserted page (object %d) at position %d\n", pageObjNum, pageNumber)
@@ -97,7 +109,7 @@ func (m *PDFManipulator) findParentPagesObjectForInsertion() (int, error) {
 		return 0, fmt.Errorf("failed to parse root reference: %w", err)
 	}
 
-	catalogObj, err := m.pdf.GetObject(rootObjNum)
+	catalogObj, err := m.currentObject(rootObjNum)
 	if err != nil {
 		return 0, fmt.Errorf("failed to get catalog: %w", err)
 	}
diff --git a/core/manipulate/merging.go b/core/manipulate/merging.go
index 4c0a32f..15b15ac 100644
--- a/core/manipulate/merging.go
+++ b/core/manipulate/merging.go
@@ -125,11 +125,12 @@ func getAllPageObjectNumbersFromPDF(pdf *parse.PDF) ([]int, error) {
 		return nil, fmt.Errorf("failed to parse Pages reference: %w", err)
 	}
 
-	return extractPageObjectNumbersFromPDF(pdf, pagesObjNum)
+	return extractPageObjectNumbersFromPDF(pdf, pagesObjNum, map[int]bool{})
 }
 
 // extractPageObjectNumbersFromPDF recursively extracts page object numbers
-func extractPageObjectNumbersFromPDF(pdf *parse.PDF, pagesObjNum int) ([]int, error) {
+// visited holds the /Pages nodes seen so far (each belongs to the tree only once)
+func extractPageObjectNumbersFromPDF(pdf *parse.PDF, pagesObjNum int, visited map[int]bool) ([]int, error) {
 	var pageObjNums []int
 
 	pagesObj, err := pdf.GetObject(pagesObjNum)
@@ -143,6 +144,10 @@ func extractPageObjectNumbersFromPDF(pdf *parse.PDF, pagesObjNum int) ([]int, er
 		pageObjNums = append(pageObjNums, pagesObjNum)
 		return pageObjNums, nil
 	}
+	if visited[pagesObjNum] {
+		return nil, fmt.Errorf("page tree node %d occurs twice", pagesObjNum)
+	}
+	visited[pagesObjNum] = true
 
 	kidsStr := extractDictValue(pagesStr, "/Kids")
 	if kidsStr == "" {
@@ -153,11 +158,11 @@ func extractPageObjectNumbersFromPDF(pdf *parse.PDF, pagesObjNum int) ([]int, er
 	for _, kidRef := range kidsRefs {
 		kidObjNum, err := parseObjectRef(kidRef)
 		if err != nil {
-			continue
+			return nil, fmt.Errorf("invalid kid of page tree node %d: %w", pagesObjNum, err)
 		}
-		childPages, err := extractPageObjectNumbersFromPDF(pdf, kidObjNum)
+		childPages, err := extractPageObjectNumbersFromPDF(pdf, kidObjNum, visited)
 		if err != nil {
-			continue
+			return nil, err
 		}
 		pageObjNums = append(pageObjNums, childPages...)
 	}
diff --git a/core/manipulate/rotation.go b/core/manipulate/rotation.go
index a65e3f7..083db1e 100644
--- a/core/manipulate/rotation.go
+++ b/core/manipulate/rotation.go
@@ -104,7 +104,7 @@ func (m *PDFManipulator) getAllPageObjectNumbers() ([]int, error) {
 		return nil, fmt.Errorf("failed to parse root reference: %w", err)
 	}
 
-	catalogObj, err := m.pdf.GetObject(rootObjNum)
+	catalogObj, err := m.currentObject(rootObjNum)
 	if err != nil {
 		return nil, fmt.Errorf("failed to get catalog: %w", err)
 	}
@@ -120,16 +120,25 @@ func (m *PDFManipulator) getAllPageObjectNumbers() ([]int, error) {
 		return nil, fmt.Errorf("failed to parse Pages reference: %w", err)
 	}
 
-	return m.extractPageObjectNumbers(pagesObjNum)
+	return m.extractPageObjectNumbers(pagesObjNum, map[int]bool{})
+}
+
+// currentObject returns an object as edited so far
+func (m *PDFManipulator) currentObject(objNum int) ([]byte, error) {
+	if content, ok := m.objects[objNum]; ok {
+		return content, nil
+	}
+	return m.pdf.GetObject(objNum)
 }
 
 // extractPageObjectNumbers recursively extracts page object numbers from the pages tree
-func (m *PDFManipulator) extractPageObjectNumbers(pagesObjNum int) ([]int, error) {
+// visited holds the /Pages nodes seen so far (each belongs to the tree only once)
+func (m *PDFManipulator) extractPageObjectNumbers(pagesObjNum int, visited map[int]bool) ([]int, error) {
 	var pageObjNums []int
 
-	pagesObj, err := m.pdf.GetObject(pagesObjNum)
+	pagesObj, err := m.currentObject(pagesObjNum)
 	if err != nil {
-		return nil, err
+		return nil, fmt.Errorf("failed to get page tree node %d: %w", pagesObjNum, err)
 	}
 
 	pagesStr := string(pagesObj)
@@ -143,6 +152,10 @@ func (m *PDFManipulator) extractPageObjectNumbers(pagesObjNum int) ([]int, error
 	}
 
 	// This is a /Pages node - get Kids and recurse
+	if visited[pagesObjNum] {
+		return nil, fmt.Errorf("page tree node %d occurs twice", pagesObjNum)
+	}
+	visited[pagesObjNum] = true
 	kidsStr := extractDictValue(pagesStr, "/Kids")
 	if kidsStr == "" {
 		return pageObjNums, nil
@@ -153,12 +166,12 @@ func (m *PDFManipulator) extractPageObjectNumbers(pagesObjNum int) ([]int, error
 	for _, kidRef := range kidsRefs {
 		kidObjNum, err := parseObjectRef(kidRef)
 		if err != nil {
-			continue
+			return nil, fmt.Errorf("invalid kid of page tree node %d: %w", pagesObjNum, err)
 		}
 		// Recurse
-		childPages, err := m.extractPageObjectNumbers(kidObjNum)
+		childPages, err := m.extractPageObjectNumbers(kidObjNum, visited)
 		if err != nil {
-			continue
+			return nil, err
 		}
 		pageObjNums = append(pageObjNums, childPages...)
 	}
-- 
2.43.0


From 811ac982400cdbfa6c40720a2d6c916ed13c9ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:06 +0000
Subject: [PATCH 46/76] fix: a bookmark to a page that does not exist is
 refused

---
 core/write/bookmarks.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/core/write/bookmarks.go b/core/write/bookmarks.go
index 12b3067..49aedc2 100644
--- a/core/write/bookmarks.go
+++ b/core/write/bookmarks.go
@@ -16,6 +16,10 @@ func (w *PDFWriter) SetBookmarks(bookmarks []types.Bookmark, pageObjNums map[int
 		return 0, nil // No bookmarks
 	}
 
+	if err := checkBookmarkPages(bookmarks, pageObjNums); err != nil {
+		return 0, err
+	}
+
 	// Create outline items recursively
 	firstItemNum, lastItemNum, count, err := w.createOutlineItems(bookmarks, pageObjNums, 0)
 	if err != nil {
@@ -38,6 +42,21 @@ func (w *PDFWriter) SetBookmarks(bookmarks []types.Bookmark, pageObjNums map[int
 	return outlinesObjNum, nil
 }
 
+// checkBookmarkPages reports bookmarks (at any level) that refer to a page that does not exist
+func checkBookmarkPages(bookmarks []types.Bookmark, pageObjNums map[int]int) error {
+	for _, bookmark := range bookmarks {
+		if bookmark.PageNumber != 0 {
+			if _, ok := pageObjNums[bookmark.PageNumber]; !ok {
+				return fmt.Errorf("bookmark %q refers to page %d, which does not exist", bookmark.Title, bookmark.PageNumber)
+			}
+		}
+		if err := checkBookmarkPages(bookmark.Children, pageObjNums); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 // createOutlineItems creates outline item objects recursively
 // Returns: firstItemNum, lastItemNum, count (total visible items including descendants)
 func (w *PDFWriter) createOutlineItems(bookmarks []types.Bookmark, pageObjNums map[int]int, parentNum int) (int, int, int, error) {
-- 
2.43.0


From f23209bb693b97c0b346dc9c09b323eaefca22ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:06 +0000
Subject: [PATCH 47/76] fix: splitting accepts any page count per document

---
 core/manipulate/splitting.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/manipulate/splitting.go b/core/manipulate/splitting.go
index dea34ef..62beb9d 100644
--- a/core/manipulate/splitting.go
+++ b/core/manipulate/splitting.go
@@ -87,6 +87,10 @@ func SplitPDFByPageCount(pdfBytes []byte, pagesPerPDF int, password []byte, verb
 		return nil, fmt.Errorf("PDF has no pages")
 	}
 
+	if pagesPerPDF > totalPages {
+		pagesPerPDF = totalPages
+	}
+
 	// Create ranges
 	var ranges []PageRange
 	for start := 1; start <= totalPages; start += pagesPerPDF {
-- 
2.43.0


From 08ca7dfb22dffd341817d63f9ac8f52f78afc180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:39 +0000
Subject: [PATCH 48/76] fix: skip resources whose object number cannot be
 parsed instead of using object 0

---
 content/extract/resources.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/content/extract/resources.go b/content/extract/resources.go
index 4e55d6a..19211dc 100644
--- a/content/extract/resources.go
+++ b/content/extract/resources.go
@@ -118,7 +118,10 @@ func extractFontsDict(resourcesStr string, pdf *parse.PDF, verbose bool) map[str
 
 	for _, entry := range fontEntries {
 		fontName := entry[1]
-		fontObjNum, _ := parseObjectRef(entry[2] + " 0 R")
+		fontObjNum, err := parseObjectRef(entry[2] + " 0 R")
+		if err != nil {
+			continue
+		}
 
 		fontInfo := extractFontInfo(fontObjNum, pdf, verbose)
 		if fontInfo != nil {
@@ -242,7 +245,10 @@ func extractXObjectsDict(resourcesStr string, pdf *parse.PDF, verbose bool) map[
 
 	for _, entry := range xobjEntries {
 		xobjName := entry[1]
-		xobjObjNum, _ := parseObjectRef(entry[2] + " 0 R")
+		xobjObjNum, err := parseObjectRef(entry[2] + " 0 R")
+		if err != nil {
+			continue
+		}
 
 		xobj := extractXObjectInfo(xobjObjNum, pdf, verbose)
 		if xobj != nil {
@@ -281,7 +287,10 @@ func extractXObjectsDictWithObjNums(resourcesStr string, pdf *parse.PDF, verbose
 
 	for _, entry := range xobjEntries {
 		xobjName := entry[1]
-		xobjObjNum, _ := parseObjectRef(entry[2] + " 0 R")
+		xobjObjNum, err := parseObjectRef(entry[2] + " 0 R")
+		if err != nil {
+			continue
+		}
 		objNums[xobjName] = xobjObjNum
 
 		xobj := extractXObjectInfo(xobjObjNum, pdf, verbose)
@@ -400,7 +409,10 @@ func extractFontDecoders(resourcesStr string, pdf *parse.PDF, verbose bool) map[
 
 	for _, entry := range fontEntries {
 		fontName := entry[1]
-		fontObjNum, _ := parseObjectRef(entry[2] + " 0 R")
+		fontObjNum, err := parseObjectRef(entry[2] + " 0 R")
+		if err != nil {
+			continue
+		}
 
 		decoder := extractFontDecoder(fontObjNum, fontName, pdf, verbose)
 		if decoder != nil {
-- 
2.43.0


From 05e94103e5b2df60973a53a528f4d098ee7d15f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:39 +0000
Subject: [PATCH 49/76] fix: refuse to rebuild a document whose catalog or
 encryption reference is invalid

---
 core/manipulate/manipulate.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/core/manipulate/manipulate.go b/core/manipulate/manipulate.go
index 262412c..9c4f487 100644
--- a/core/manipulate/manipulate.go
+++ b/core/manipulate/manipulate.go
@@ -90,9 +90,10 @@ func (m *PDFManipulator) rebuildPDF() ([]byte, error) {
 	// Set root, info, encrypt references
 	if trailer.RootRef != "" {
 		rootObjNum, err := parseObjectRef(trailer.RootRef)
-		if err == nil {
-			m.writer.SetRoot(rootObjNum)
+		if err != nil {
+			return nil, fmt.Errorf("invalid document catalog: %w", err)
 		}
+		m.writer.SetRoot(rootObjNum)
 	}
 	if trailer.InfoRef != "" {
 		infoObjNum, err := parseObjectRef(trailer.InfoRef)
@@ -102,9 +103,10 @@ func (m *PDFManipulator) rebuildPDF() ([]byte, error) {
 	}
 	if trailer.EncryptRef != "" {
 		encryptObjNum, err := parseObjectRef(trailer.EncryptRef)
-		if err == nil {
-			m.writer.SetEncryptRef(encryptObjNum)
+		if err != nil {
+			return nil, fmt.Errorf("invalid encryption dictionary: %w", err)
 		}
+		m.writer.SetEncryptRef(encryptObjNum)
 	}
 
 	// Set encryption if present
-- 
2.43.0


From 322e5994ddb2a7d2d80b80a4d103e6d1cc163c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:39 +0000
Subject: [PATCH 50/76] fix: report an unreadable cross-reference table instead
 of opening an empty document

---
 core/parse/api.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/parse/api.go b/core/parse/api.go
index 06197e8..09376c1 100644
--- a/core/parse/api.go
+++ b/core/parse/api.go
@@ -194,7 +194,10 @@ func (p *PDF) parseStandard() error {
 			InfoRef:    trailer.InfoRef,
 		}
 		// Parse xref from startxref
-		objMap, _ := ParseCrossReferenceTableWithEncryption(p.raw, trailer.StartXRef, p.encryption, p.opts.Verbose)
+		objMap, err := ParseCrossReferenceTableWithEncryption(p.raw, trailer.StartXRef, p.encryption, p.opts.Verbose)
+		if err != nil {
+			return types.WrapError(types.ErrCodeMalformedPDF, "failed to parse cross-reference table", err)
+		}
 		for objNum, offset := range objMap {
 			p.xref.Objects[objNum] = &ObjectRef{
 				Number: objNum,
-- 
2.43.0


From 34c7d29dff6730826eec4de302abb1f0cf5672c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:39 +0000
Subject: [PATCH 51/76] fix: ExtractXFA reports a document without XFA data
 instead of returning nothing

---
 forms/forms.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/forms/forms.go b/forms/forms.go
index 702ed49..572bece 100644
--- a/forms/forms.go
+++ b/forms/forms.go
@@ -221,5 +221,9 @@ func ExtractXFA(pdfBytes []byte, password []byte, verbose bool) (*types.FormSche
 		}
 	}
 
+	if formSchema == nil && datasets == nil {
+		return nil, nil, types.NewPDFError(types.ErrCodeNoForms, "no XFA template or datasets in PDF")
+	}
+
 	return formSchema, datasets, nil
 }
-- 
2.43.0


From 52d99ae30eba5c2fe28a8c35f9c0df2299a202da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:12 +0000
Subject: [PATCH 52/76] fix: cyclic page trees, outlines and form field trees
 no longer recurse without end

---
 content/extract/bookmarks.go | 16 ++++++++++++----
 content/extract/images.go    | 12 ++++++++----
 content/extract/pages.go     | 11 ++++++++---
 forms/acroform/parser.go     | 12 +++++++++---
 4 files changed, 37 insertions(+), 14 deletions(-)

diff --git a/content/extract/bookmarks.go b/content/extract/bookmarks.go
index ade6f82..3bf07f5 100644
--- a/content/extract/bookmarks.go
+++ b/content/extract/bookmarks.go
@@ -1,6 +1,8 @@
 package extract
 
 import (
+	"fmt"
+
 	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/types"
 )
@@ -46,7 +48,7 @@ func ExtractBookmarks(pdfBytes []byte, pdf *parse.PDF, verbose bool) ([]types.Bo
 	}
 
 	// Extract bookmarks recursively
-	bookmarks, err := extractBookmarksRecursive(pdf, firstRef, verbose)
+	bookmarks, err := extractBookmarksRecursive(pdf, firstRef, make(map[int]bool), verbose)
 	if err != nil {
 		return []types.Bookmark{}, nil
 	}
@@ -55,7 +57,8 @@ func ExtractBookmarks(pdfBytes []byte, pdf *parse.PDF, verbose bool) ([]types.Bo
 }
 
 // extractBookmarksRecursive recursively extracts bookmarks from the outline tree
-func extractBookmarksRecursive(pdf *parse.PDF, itemRef string, verbose bool) ([]types.Bookmark, error) {
+// visited holds the outline items that have been entered so far
+func extractBookmarksRecursive(pdf *parse.PDF, itemRef string, visited map[int]bool, verbose bool) ([]types.Bookmark, error) {
 	var bookmarks []types.Bookmark
 
 	itemObjNum, err := parseObjectRef(itemRef)
@@ -63,6 +66,11 @@ func extractBookmarksRecursive(pdf *parse.PDF, itemRef string, verbose bool) ([]
 		return bookmarks, err
 	}
 
+	if visited[itemObjNum] {
+		return bookmarks, fmt.Errorf("outline item %d occurs twice", itemObjNum)
+	}
+	visited[itemObjNum] = true
+
 	itemObj, err := pdf.GetObject(itemObjNum)
 	if err != nil {
 		return bookmarks, err
@@ -106,7 +114,7 @@ func extractBookmarksRecursive(pdf *parse.PDF, itemRef string, verbose bool) ([]
 	// Extract children (First/Next chain)
 	firstRef := extractDictValue(itemStr, "/First")
 	if firstRef != "" {
-		children, err := extractBookmarksRecursive(pdf, firstRef, verbose)
+		children, err := extractBookmarksRecursive(pdf, firstRef, visited, verbose)
 		if err == nil {
 			bookmark.Children = children
 		}
@@ -117,7 +125,7 @@ func extractBookmarksRecursive(pdf *parse.PDF, itemRef string, verbose bool) ([]
 	// Get next sibling
 	nextRef := extractDictValue(itemStr, "/Next")
 	if nextRef != "" {
-		siblings, err := extractBookmarksRecursive(pdf, nextRef, verbose)
+		siblings, err := extractBookmarksRecursive(pdf, nextRef, visited, verbose)
 		if err == nil {
 			bookmarks = append(bookmarks, siblings...)
 		}
diff --git a/content/extract/images.go b/content/extract/images.go
index 003c0bd..0b33277 100644
--- a/content/extract/images.go
+++ b/content/extract/images.go
@@ -189,7 +189,7 @@ func ExtractAllImages(pdfBytes []byte, password []byte, verbose bool) ([]types.I
 	}
 
 	// Recursively find all page objects
-	pageObjNums := extractPageObjectNumbers(pdf, pagesObjNum, verbose)
+	pageObjNums := extractPageObjectNumbers(pdf, pagesObjNum, make(map[int]bool), verbose)
 
 	// For each page, extract Resources and get image object numbers
 	for i, pageObjNum := range pageObjNums {
@@ -272,7 +272,7 @@ func ExtractAllImages(pdfBytes []byte, password []byte, verbose bool) ([]types.I
 }
 
 // extractPageObjectNumbers recursively extracts page object numbers from the pages tree
-func extractPageObjectNumbers(pdf *parse.PDF, pagesObjNum int, verbose bool) []int {
+func extractPageObjectNumbers(pdf *parse.PDF, pagesObjNum int, visited map[int]bool, verbose bool) []int {
 	var pageObjNums []int
 
 	pagesObj, err := pdf.GetObject(pagesObjNum)
@@ -290,7 +290,11 @@ func extractPageObjectNumbers(pdf *parse.PDF, pagesObjNum int, verbose bool) []i
 		return pageObjNums
 	}
 
-	// This is a /Pages node - get Kids and recurse
+	// This is a /Pages node - get Kids and recurse, unless the tree leads back to it
+	if visited[pagesObjNum] {
+		return pageObjNums
+	}
+	visited[pagesObjNum] = true
 	kidsStr := extractDictValue(pagesStr, "/Kids")
 	if kidsStr == "" {
 		return pageObjNums
@@ -304,7 +308,7 @@ func extractPageObjectNumbers(pdf *parse.PDF, pagesObjNum int, verbose bool) []i
 			continue
 		}
 		// Recurse
-		childPages := extractPageObjectNumbers(pdf, kidObjNum, verbose)
+		childPages := extractPageObjectNumbers(pdf, kidObjNum, visited, verbose)
 		pageObjNums = append(pageObjNums, childPages...)
 	}
 
diff --git a/content/extract/pages.go b/content/extract/pages.go
index 06bb08e..92e8120 100644
--- a/content/extract/pages.go
+++ b/content/extract/pages.go
@@ -53,7 +53,7 @@ func ExtractPages(pdfBytes []byte, pdf *parse.PDF, verbose bool) ([]types.Page,
 	}
 
 	// Extract pages from pages tree
-	pages, err = extractPagesFromTree(pdfBytes, pdf, pagesObjNum, verbose)
+	pages, err = extractPagesFromTree(pdfBytes, pdf, pagesObjNum, make(map[int]bool), verbose)
 	if err != nil {
 		return nil, fmt.Errorf("failed to extract pages from tree: %w", err)
 	}
@@ -67,7 +67,8 @@ func ExtractPages(pdfBytes []byte, pdf *parse.PDF, verbose bool) ([]types.Page,
 }
 
 // extractPagesFromTree recursively extracts pages from a pages tree
-func extractPagesFromTree(pdfBytes []byte, pdf *parse.PDF, pagesObjNum int, verbose bool) ([]types.Page, error) {
+// visited holds the tree nodes that have been entered so far
+func extractPagesFromTree(pdfBytes []byte, pdf *parse.PDF, pagesObjNum int, visited map[int]bool, verbose bool) ([]types.Page, error) {
 	var result []types.Page
 
 	pagesObj, err := pdf.GetObject(pagesObjNum)
@@ -108,6 +109,10 @@ func extractPagesFromTree(pdfBytes []byte, pdf *parse.PDF, pagesObjNum int, verb
 	}
 
 	// This is a pages node - get Kids array
+	if visited[pagesObjNum] {
+		return nil, fmt.Errorf("page tree node %d occurs twice", pagesObjNum)
+	}
+	visited[pagesObjNum] = true
 	kidsStr := extractDictValue(pagesStr, "/Kids")
 	if verbose {
 		fmt.Printf("Kids string: %s\n", kidsStr)
@@ -135,7 +140,7 @@ func extractPagesFromTree(pdfBytes []byte, pdf *parse.PDF, pagesObjNum int, verb
 		}
 
 		// Recursively extract from child
-		childPages, err := extractPagesFromTree(pdfBytes, pdf, kidObjNum, verbose)
+		childPages, err := extractPagesFromTree(pdfBytes, pdf, kidObjNum, visited, verbose)
 		if err != nil {
 			if verbose {
 				fmt.Printf("Warning: failed to extract from child %d: %v\n", kidObjNum, err)
diff --git a/forms/acroform/parser.go b/forms/acroform/parser.go
index 664b700..0b0b3df 100644
--- a/forms/acroform/parser.go
+++ b/forms/acroform/parser.go
@@ -133,7 +133,7 @@ func parseAcroFormDict(data []byte, acroForm *AcroForm, pdfBytes []byte, encrypt
 		objNum, _ := strconv.Atoi(ref[1])
 		genNum, _ := strconv.Atoi(ref[2])
 
-		field, err := parseField(pdfBytes, objNum, genNum, encryptInfo, verbose)
+		field, err := parseField(pdfBytes, objNum, genNum, encryptInfo, make(map[int]bool), verbose)
 		if err != nil {
 			if verbose {
 				fmt.Printf("Warning: Failed to parse field %d: %v\n", objNum, err)
@@ -148,7 +148,13 @@ func parseAcroFormDict(data []byte, acroForm *AcroForm, pdfBytes []byte, encrypt
 }
 
 // parseField parses a single field dictionary
-func parseField(pdfBytes []byte, objNum, genNum int, encryptInfo *types.PDFEncryption, verbose bool) (*Field, error) {
+// visited holds the fields of this tree that have been entered so far
+func parseField(pdfBytes []byte, objNum, genNum int, encryptInfo *types.PDFEncryption, visited map[int]bool, verbose bool) (*Field, error) {
+	if visited[objNum] {
+		return nil, types.NewPDFErrorf(types.ErrCodeInvalidForm, "field %d occurs twice in a field tree", objNum)
+	}
+	visited[objNum] = true
+
 	fieldData, err := parse.GetObject(pdfBytes, objNum, encryptInfo, verbose)
 	if err != nil {
 		return nil, types.WrapError(types.ErrCodeFieldNotFound, "failed to get field object", err)
@@ -224,7 +230,7 @@ func parseField(pdfBytes []byte, objNum, genNum int, encryptInfo *types.PDFEncry
 			kidObjNum, _ := strconv.Atoi(ref[1])
 			kidGenNum, _ := strconv.Atoi(ref[2])
 
-			kidField, err := parseField(pdfBytes, kidObjNum, kidGenNum, encryptInfo, verbose)
+			kidField, err := parseField(pdfBytes, kidObjNum, kidGenNum, encryptInfo, visited, verbose)
 			if err != nil {
 				if verbose {
 					fmt.Printf("Warning: Failed to parse kid field %d: %v\n", kidObjNum, err)
-- 
2.43.0


From f724eda5c1b7c1c91045b6ac5166346034ae6943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:54 +0000
Subject: [PATCH 53/76] fix: absurd character ranges in ToUnicode maps and cmap
 tables are not expanded

---
 content/extract/encoding.go | 3 +++
 resources/font/font.go      | 7 +++++++
 2 files changed, 10 insertions(+)

diff --git a/content/extract/encoding.go b/content/extract/encoding.go
index eebbb54..927fc80 100644
--- a/content/extract/encoding.go
+++ b/content/extract/encoding.go
@@ -218,6 +218,9 @@ func (fd *FontDecoder) parseBfrangeBlock(block string) {
 		if err1 != nil || err2 != nil || err3 != nil {
 			continue
 		}
+		if srcHi-srcLo > 0xFFFF {
+			continue // no font has that many codes
+		}
 		for i := srcLo; i <= srcHi; i++ {
 			fd.toUnicode[int(i)] = rune(dstStart + (i - srcLo))
 		}
diff --git a/resources/font/font.go b/resources/font/font.go
index d98e92e..f2b05d8 100644
--- a/resources/font/font.go
+++ b/resources/font/font.go
@@ -500,6 +500,7 @@ func parseCmapFormat12(data []byte, glyphMap map[rune]uint16) (map[rune]uint16,
 	}
 
 	offset := 16
+	nextCharCode := uint32(0)
 	for i := 0; i < int(numGroups); i++ {
 		if offset+12 > len(data) {
 			break
@@ -509,6 +510,12 @@ func parseCmapFormat12(data []byte, glyphMap map[rune]uint16) (map[rune]uint16,
 		endCharCode := binary.BigEndian.Uint32(data[offset+4 : offset+8])
 		startGlyphID := binary.BigEndian.Uint32(data[offset+8 : offset+12])
 
+		// Groups are in ascending order, do not overlap and lie in the Unicode range
+		if startCharCode < nextCharCode || endCharCode < startCharCode || endCharCode > unicode.MaxRune {
+			return nil, fmt.Errorf("invalid cmap format 12 group %d: %#x-%#x", i, startCharCode, endCharCode)
+		}
+		nextCharCode = endCharCode + 1
+
 		for code := startCharCode; code <= endCharCode; code++ {
 			glyphID := uint16(startGlyphID + (code - startCharCode))
 			glyphMap[rune(code)] = glyphID
-- 
2.43.0


From 9886cb01e97eac07d4d29a3b3eaa8a93e5902492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:33 +0000
Subject: [PATCH 54/76] fix: cross-reference tables leave out long runs of
 unused object numbers

---
 core/write/writer.go      | 38 ++++++++++++++++++++-------
 core/write/xref_stream.go | 54 +++++++++++++++++++++++++++------------
 2 files changed, 67 insertions(+), 25 deletions(-)

diff --git a/core/write/writer.go b/core/write/writer.go
index ede69ab..3042521 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -16,6 +16,7 @@ import (
 	"strconv"
 	"strings"
 
+	"github.com/benedoc-inc/pdfer/internal/sorted"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -415,19 +416,35 @@ func (w *PDFWriter) write(out io.Writer) error {
 		// Write traditional xref table
 		xrefPos = int64(buf.Len())
 		buf.WriteString("xref\n")
-		buf.WriteString(fmt.Sprintf("0 %d\n", w.nextObjNum))
 
 		// Entry for object 0 (always free, points to next free object)
-		buf.WriteString(fmt.Sprintf("%010d %05d f \n", 0, 65535))
-
-		// Entries for each object
-		for i := 1; i < w.nextObjNum; i++ {
-			if pos, ok := positions[i]; ok {
-				buf.WriteString(fmt.Sprintf("%010d %05d n \n", pos, 0))
-			} else {
+		var entries bytes.Buffer
+		entries.WriteString(fmt.Sprintf("%010d %05d f \n", 0, 65535))
+
+		// Entries for each object, in several subsections if there are wide gaps between the object numbers
+		first, next := 0, 1
+		for _, objNum := range append(sorted.Keys(positions), w.nextObjNum) {
+			if objNum < next {
+				continue // there is no such object number
+			}
+			if objNum > next+maxXRefGap {
+				buf.WriteString(fmt.Sprintf("%d %d\n", first, next-first))
+				buf.Write(entries.Bytes())
+				entries.Reset()
+				first, next = objNum, objNum
+			}
+			for ; next < objNum; next++ {
 				// Free object
-				buf.WriteString(fmt.Sprintf("%010d %05d f \n", 0, 1))
+				entries.WriteString(fmt.Sprintf("%010d %05d f \n", 0, 1))
 			}
+			if pos, ok := positions[objNum]; ok {
+				entries.WriteString(fmt.Sprintf("%010d %05d n \n", pos, 0))
+				next++
+			}
+		}
+		if next > first {
+			buf.WriteString(fmt.Sprintf("%d %d\n", first, next-first))
+			buf.Write(entries.Bytes())
 		}
 
 		// Write trailer
@@ -490,6 +507,9 @@ func (w *PDFWriter) formatDictionary(dict Dictionary) []byte {
 	return buf.Bytes()
 }
 
+// maxXRefGap is the greatest number of consecutive unused object numbers that cross-reference tables list as free
+const maxXRefGap = 1000
+
 // formatValue formats a value for PDF output
 func (w *PDFWriter) formatValue(value interface{}) string {
 	switch v := value.(type) {
diff --git a/core/write/xref_stream.go b/core/write/xref_stream.go
index 2058e49..4baa441 100644
--- a/core/write/xref_stream.go
+++ b/core/write/xref_stream.go
@@ -4,6 +4,8 @@ import (
 	"bytes"
 	"compress/zlib"
 	"fmt"
+
+	"github.com/benedoc-inc/pdfer/internal/sorted"
 )
 
 // writeXRefStream writes a cross-reference stream instead of a traditional xref table
@@ -63,7 +65,8 @@ func (w *PDFWriter) writeXRefStream(buf *bytes.Buffer, positions map[int]int64,
 
 	// Build binary stream data
 	// Include entry for xref stream object itself
-	streamData := make([]byte, 0, totalObjects*(w1+w2+w3))
+	var streamData []byte
+	var index []interface{} // first object number and number of entries of each subsection
 
 	// Entry for object 0 (always free)
 	entry0 := make([]byte, w1+w2+w3)
@@ -72,8 +75,30 @@ func (w *PDFWriter) writeXRefStream(buf *bytes.Buffer, positions map[int]int64,
 	// Field 3 (generation) = 0
 	streamData = append(streamData, entry0...)
 
-	// Entries for each existing object
-	for i := 1; i < w.nextObjNum; i++ {
+	// Entries for each existing object, in several subsections if there are wide gaps between the object numbers
+	objNums := make(map[int]bool)
+	for objNum := range positions {
+		objNums[objNum] = true
+	}
+	for objNum := range objStreamMap {
+		objNums[objNum] = true
+	}
+	first, next := 0, 1
+	for _, i := range append(sorted.Keys(objNums), xrefStreamObjNum) {
+		if i < next {
+			continue // there is no such object number
+		}
+		if i > next+maxXRefGap {
+			index = append(index, first, next-first)
+			first, next = i, i
+		}
+		for ; next < i; next++ {
+			streamData = append(streamData, make([]byte, w1+w2+w3)...) // Free object
+		}
+		if i == xrefStreamObjNum {
+			break // follows below
+		}
+		next++
 		entry := make([]byte, w1+w2+w3)
 
 		// Check if object is in an object stream (Type 2)
@@ -90,19 +115,12 @@ func (w *PDFWriter) writeXRefStream(buf *bytes.Buffer, positions map[int]int64,
 			}
 		}
 
-		if pos, ok := positions[i]; ok {
-			// Type 1: in-use object
-			entry[0] = 1
-			// Write offset in big-endian
-			writeBigEndian(entry[w1:], pos, w2)
-			// Generation = 0
-			entry[w1+w2] = 0
-		} else {
-			// Free object
-			entry[0] = 0
-			// Offset = 0
-			// Generation = 0
-		}
+		// Type 1: in-use object
+		entry[0] = 1
+		// Write offset in big-endian
+		writeBigEndian(entry[w1:], positions[i], w2)
+		// Generation = 0
+		entry[w1+w2] = 0
 		streamData = append(streamData, entry...)
 	}
 
@@ -112,6 +130,7 @@ func (w *PDFWriter) writeXRefStream(buf *bytes.Buffer, positions map[int]int64,
 	// Offset will be set after we know the actual position
 	xrefEntry[w1+w2] = 0 // Generation = 0
 	streamData = append(streamData, xrefEntry...)
+	index = append(index, first, xrefStreamObjNum+1-first)
 
 	// Get actual position where xref stream will be written
 	xrefPos := int64(buf.Len())
@@ -141,6 +160,9 @@ func (w *PDFWriter) writeXRefStream(buf *bytes.Buffer, positions map[int]int64,
 		"/Filter": "/FlateDecode",
 		"/Length": len(compressedData),
 	}
+	if len(index) > 2 {
+		xrefStreamDict["/Index"] = index
+	}
 
 	// Increment object counter
 	w.nextObjNum++
-- 
2.43.0


From 63ee15b1106324ec74bc5bf1c521b556237e84c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:29 +0000
Subject: [PATCH 55/76] fix: the writer escapes names, outline titles, metadata
 and nested dictionaries

Names from the caller were written as they are, strings that look like a
reference or a name were not written as strings, and map[string]interface{}
values came out in Go syntax.
---
 core/write/bookmarks.go     |  6 ++---
 core/write/content.go       | 12 ++++++++--
 core/write/metadata.go      | 20 ++++++++---------
 core/write/page.go          |  7 +++---
 core/write/writer.go        | 18 +++++++++++----
 core/write/xfa_builder.go   |  2 +-
 internal/pdftext/pdftext.go | 44 +++++++++++++++++++++++++++++++++++++
 7 files changed, 86 insertions(+), 23 deletions(-)
 create mode 100644 internal/pdftext/pdftext.go

diff --git a/core/write/bookmarks.go b/core/write/bookmarks.go
index 49aedc2..98d6b19 100644
--- a/core/write/bookmarks.go
+++ b/core/write/bookmarks.go
@@ -88,7 +88,7 @@ func (w *PDFWriter) createOutlineItems(bookmarks []types.Bookmark, pageObjNums m
 			actionDict := Dictionary{
 				"/Type": "/Action",
 				"/S":    "/URI",
-				"/URI":  fmt.Sprintf("(%s)", escapePDFString(bookmark.URI)),
+				"/URI":  literalString(escapePDFString(bookmark.URI)),
 			}
 			actionObjNum := w.AddObject(w.formatDictionary(actionDict))
 			actionRef = fmt.Sprintf("%d 0 R", actionObjNum)
@@ -112,11 +112,11 @@ func (w *PDFWriter) createOutlineItems(bookmarks []types.Bookmark, pageObjNums m
 
 		// Build outline item dictionary
 		itemDict := Dictionary{
-			"/Title": fmt.Sprintf("(%s)", escapePDFString(bookmark.Title)),
+			"/Title": literalString(escapePDFString(bookmark.Title)),
 		}
 
 		if dest != "" {
-			itemDict["/Dest"] = dest
+			itemDict["/Dest"] = pdfSyntax(dest)
 		}
 		if actionRef != "" {
 			itemDict["/A"] = actionRef
diff --git a/core/write/content.go b/core/write/content.go
index 7c7d829..18d7ef3 100644
--- a/core/write/content.go
+++ b/core/write/content.go
@@ -4,6 +4,9 @@ package write
 import (
 	"bytes"
 	"fmt"
+	"strings"
+
+	"github.com/benedoc-inc/pdfer/internal/pdftext"
 )
 
 // ContentStream builds PDF page content streams
@@ -155,7 +158,7 @@ func (cs *ContentStream) EndText() *ContentStream {
 // SetFont sets the font and size (Tf operator)
 // fontName should be a resource name like "/F1"
 func (cs *ContentStream) SetFont(fontName string, size float64) *ContentStream {
-	cs.buf.WriteString(fmt.Sprintf("%s %.4f Tf\n", fontName, size))
+	cs.buf.WriteString(fmt.Sprintf("%s %.4f Tf\n", formatResourceName(fontName), size))
 	return cs
 }
 
@@ -263,7 +266,7 @@ func (cs *ContentStream) SetTextRise(rise float64) *ContentStream {
 // The image is drawn with its lower-left corner at the origin
 // You should use SetMatrix to position and scale it first
 func (cs *ContentStream) DrawImage(imageName string) *ContentStream {
-	cs.buf.WriteString(fmt.Sprintf("%s Do\n", imageName))
+	cs.buf.WriteString(fmt.Sprintf("%s Do\n", formatResourceName(imageName)))
 	return cs
 }
 
@@ -321,6 +324,11 @@ func (cs *ContentStream) Raw(data string) *ContentStream {
 	return cs
 }
 
+// formatResourceName writes a resource name, given with or without its slash
+func formatResourceName(name string) string {
+	return "/" + pdftext.Name(strings.TrimPrefix(name, "/"))
+}
+
 // escapePDFString escapes special characters in a PDF string
 func escapePDFString(s string) string {
 	var result bytes.Buffer
diff --git a/core/write/metadata.go b/core/write/metadata.go
index 00223f1..a0c1f5e 100644
--- a/core/write/metadata.go
+++ b/core/write/metadata.go
@@ -20,33 +20,33 @@ func (w *PDFWriter) SetMetadata(metadata *types.DocumentMetadata) int {
 	dict := Dictionary{}
 
 	if metadata.Title != "" {
-		dict["/Title"] = escapePDFStringForMetadata(metadata.Title)
+		dict["/Title"] = literalString(escapePDFStringForMetadata(metadata.Title))
 	}
 	if metadata.Author != "" {
-		dict["/Author"] = escapePDFStringForMetadata(metadata.Author)
+		dict["/Author"] = literalString(escapePDFStringForMetadata(metadata.Author))
 	}
 	if metadata.Subject != "" {
-		dict["/Subject"] = escapePDFStringForMetadata(metadata.Subject)
+		dict["/Subject"] = literalString(escapePDFStringForMetadata(metadata.Subject))
 	}
 	if metadata.Keywords != "" {
-		dict["/Keywords"] = escapePDFStringForMetadata(metadata.Keywords)
+		dict["/Keywords"] = literalString(escapePDFStringForMetadata(metadata.Keywords))
 	}
 	if metadata.Creator != "" {
-		dict["/Creator"] = escapePDFStringForMetadata(metadata.Creator)
+		dict["/Creator"] = literalString(escapePDFStringForMetadata(metadata.Creator))
 	}
 	if metadata.Producer != "" {
-		dict["/Producer"] = escapePDFStringForMetadata(metadata.Producer)
+		dict["/Producer"] = literalString(escapePDFStringForMetadata(metadata.Producer))
 	}
 	if metadata.CreationDate != "" {
-		dict["/CreationDate"] = formatPDFDate(metadata.CreationDate)
+		dict["/CreationDate"] = literalString(formatPDFDate(metadata.CreationDate))
 	}
 	if metadata.ModDate != "" {
-		dict["/ModDate"] = formatPDFDate(metadata.ModDate)
+		dict["/ModDate"] = literalString(formatPDFDate(metadata.ModDate))
 	}
 
 	// If no dates provided, set current time as ModDate
 	if metadata.ModDate == "" {
-		dict["/ModDate"] = formatPDFDate(time.Now().Format(time.RFC3339))
+		dict["/ModDate"] = literalString(formatPDFDate(time.Now().Format(time.RFC3339)))
 	}
 
 	// Add custom fields
@@ -57,7 +57,7 @@ func (w *PDFWriter) SetMetadata(metadata *types.DocumentMetadata) int {
 			if !strings.HasPrefix(key, "/") {
 				key = "/" + key
 			}
-			dict[key] = escapePDFStringForMetadata(value)
+			dict[key] = literalString(escapePDFStringForMetadata(value))
 		}
 	}
 
diff --git a/core/write/page.go b/core/write/page.go
index 586dc9e..4ebfb92 100644
--- a/core/write/page.go
+++ b/core/write/page.go
@@ -4,6 +4,7 @@ package write
 import (
 	"fmt"
 
+	"github.com/benedoc-inc/pdfer/internal/pdftext"
 	"github.com/benedoc-inc/pdfer/internal/sorted"
 	"github.com/benedoc-inc/pdfer/resources/font"
 	"github.com/benedoc-inc/pdfer/types"
@@ -63,7 +64,7 @@ func (pb *PageBuilder) AddStandardFont(fontName string) string {
 
 	// Create font dictionary
 	resourceName := fmt.Sprintf("F%d", len(pb.fonts)+1)
-	fontDict := fmt.Sprintf("<</Type/Font/Subtype/Type1/BaseFont/%s>>", fontName)
+	fontDict := fmt.Sprintf("<</Type/Font/Subtype/Type1/BaseFont/%s>>", pdftext.Name(fontName))
 	objNum := pb.writer.AddObject([]byte(fontDict))
 	pb.fonts[resourceName] = objNum
 
@@ -140,7 +141,7 @@ func (pb *PageBuilder) Build(pagesObjNum int) int {
 		resources += "/Font<<"
 		for _, name := range sorted.Keys(pb.fonts) {
 			objNum := pb.fonts[name]
-			resources += fmt.Sprintf("/%s %d 0 R", name, objNum)
+			resources += fmt.Sprintf("%s %d 0 R", formatResourceName(name), objNum)
 		}
 		resources += ">>"
 	}
@@ -150,7 +151,7 @@ func (pb *PageBuilder) Build(pagesObjNum int) int {
 		resources += "/XObject<<"
 		for _, name := range sorted.Keys(pb.images) {
 			objNum := pb.images[name]
-			resources += fmt.Sprintf("/%s %d 0 R", name, objNum)
+			resources += fmt.Sprintf("%s %d 0 R", formatResourceName(name), objNum)
 		}
 		resources += ">>"
 	}
diff --git a/core/write/writer.go b/core/write/writer.go
index 3042521..a046864 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -16,6 +16,7 @@ import (
 	"strconv"
 	"strings"
 
+	"github.com/benedoc-inc/pdfer/internal/pdftext"
 	"github.com/benedoc-inc/pdfer/internal/sorted"
 	"github.com/benedoc-inc/pdfer/types"
 )
@@ -494,10 +495,7 @@ func (w *PDFWriter) formatDictionary(dict Dictionary) []byte {
 	for _, key := range keys {
 		value := dict[key]
 		// Ensure key starts with /
-		if !strings.HasPrefix(key, "/") {
-			key = "/" + key
-		}
-		buf.WriteString(key)
+		buf.WriteString("/" + pdftext.Name(strings.TrimPrefix(key, "/")))
 		buf.WriteString(" ")
 		buf.WriteString(w.formatValue(value))
 		buf.WriteString(" ")
@@ -510,6 +508,12 @@ func (w *PDFWriter) formatDictionary(dict Dictionary) []byte {
 // maxXRefGap is the greatest number of consecutive unused object numbers that cross-reference tables list as free
 const maxXRefGap = 1000
 
+// literalString is the escaped content of a literal string, whatever it looks like
+type literalString string
+
+// pdfSyntax is written as it is
+type pdfSyntax string
+
 // formatValue formats a value for PDF output
 func (w *PDFWriter) formatValue(value interface{}) string {
 	switch v := value.(type) {
@@ -528,6 +532,10 @@ func (w *PDFWriter) formatValue(value interface{}) string {
 		// Otherwise, it's a string - format as PDF string
 		// Note: escapePDFString in metadata.go returns escaped content without parentheses
 		return "(" + v + ")"
+	case literalString:
+		return "(" + string(v) + ")"
+	case pdfSyntax:
+		return string(v)
 	case []byte:
 		return "<" + fmt.Sprintf("%X", v) + ">"
 	case []interface{}:
@@ -538,6 +546,8 @@ func (w *PDFWriter) formatValue(value interface{}) string {
 		return "[" + strings.Join(items, " ") + "]"
 	case Dictionary:
 		return string(w.formatDictionary(v))
+	case map[string]interface{}:
+		return string(w.formatDictionary(v))
 	default:
 		return fmt.Sprintf("%v", v)
 	}
diff --git a/core/write/xfa_builder.go b/core/write/xfa_builder.go
index 6741a47..a46795d 100644
--- a/core/write/xfa_builder.go
+++ b/core/write/xfa_builder.go
@@ -57,7 +57,7 @@ func (b *XFABuilder) BuildFromXFA(streams []XFAStreamData) ([]byte, error) {
 		b.xfaStreams[stream.Name] = objNum
 
 		// Add to XFA array: (name) objNum 0 R
-		xfaArrayParts = append(xfaArrayParts, fmt.Sprintf("(%s)%d 0 R", stream.Name, objNum))
+		xfaArrayParts = append(xfaArrayParts, fmt.Sprintf("(%s)%d 0 R", escapePDFString(stream.Name), objNum))
 
 		if b.verbose {
 			log.Printf("Added XFA stream '%s': object %d, %d bytes", stream.Name, objNum, len(stream.Data))
diff --git a/internal/pdftext/pdftext.go b/internal/pdftext/pdftext.go
new file mode 100644
index 0000000..06b1be3
--- /dev/null
+++ b/internal/pdftext/pdftext.go
@@ -0,0 +1,44 @@
+// Package pdftext writes caller-supplied text as PDF tokens
+package pdftext
+
+import (
+	"fmt"
+	"strings"
+	"unicode/utf16"
+)
+
+// Name returns s (without a leading slash) with the characters that would end a name token written as #XX.
+// A number sign is left alone, so that a name that is escaped already stays as it is.
+func Name(s string) string {
+	var result strings.Builder
+	for i := 0; i < len(s); i++ {
+		c := s[i]
+		if c <= ' ' || c > '~' || c == '/' || c == '%' || c == '(' || c == ')' || c == '<' || c == '>' ||
+			c == '[' || c == ']' || c == '{' || c == '}' {
+			result.WriteString(fmt.Sprintf("#%02X", c))
+		} else {
+			result.WriteByte(c)
+		}
+	}
+	return result.String()
+}
+
+// IsWide reports whether s has characters without a single-byte code
+func IsWide(s string) bool {
+	for _, r := range s {
+		if r > 0xFF {
+			return true
+		}
+	}
+	return false
+}
+
+// UTF16 returns s as the content of a literal string in UTF-16 with a byte order mark
+func UTF16(s string) string {
+	var result strings.Builder
+	result.WriteString("\\376\\377")
+	for _, u := range utf16.Encode([]rune(s)) {
+		result.WriteString(fmt.Sprintf("\\%03o\\%03o", u>>8, u&0xFF))
+	}
+	return result.String()
+}
-- 
2.43.0


From 329538b9252de040c1397fc5f0e80e56bb9bd0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:29 +0000
Subject: [PATCH 56/76] fix: form and font text with special or wide characters
 is written as one PDF string or name

Characters above U+00FF came out as octal escapes of more than three digits,
a dollar sign in a value was expanded as a regular expression group, and
existing values with escaped parentheses were only replaced in part.
---
 forms/acroform/actions.go      |  6 +++++-
 forms/acroform/appearance.go   |  7 +++++--
 forms/acroform/fill_streams.go |  4 ++--
 forms/acroform/replace.go      |  8 ++++++--
 forms/acroform/writer.go       |  6 +++++-
 resources/font/pdf.go          | 10 ++++++++--
 6 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/forms/acroform/actions.go b/forms/acroform/actions.go
index ed89333..813386e 100644
--- a/forms/acroform/actions.go
+++ b/forms/acroform/actions.go
@@ -7,6 +7,7 @@ import (
 	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/write"
+	"github.com/benedoc-inc/pdfer/internal/pdftext"
 )
 
 // ActionType represents the type of PDF action
@@ -132,7 +133,7 @@ func AddMouseAction(fieldObjNum int, event string, action *Action, w *write.PDFW
 	if strings.Contains(fieldStr, "/AA ") {
 		// Update existing /AA (simplified)
 		aaPattern := regexp.MustCompile(`/AA\s*<<[^>]*>>`)
-		fieldStr = aaPattern.ReplaceAllString(fieldStr, aaEntry)
+		fieldStr = aaPattern.ReplaceAllLiteralString(fieldStr, aaEntry)
 	} else {
 		// Add /AA before closing >>
 		dictEnd := strings.LastIndex(fieldStr, ">>")
@@ -149,6 +150,9 @@ func AddMouseAction(fieldObjNum int, event string, action *Action, w *write.PDFW
 
 // escapeActionString escapes strings for action dictionaries
 func escapeActionString(s string) string {
+	if pdftext.IsWide(s) {
+		return pdftext.UTF16(s)
+	}
 	var result strings.Builder
 	for _, r := range s {
 		switch r {
diff --git a/forms/acroform/appearance.go b/forms/acroform/appearance.go
index 66cf7f4..17dae47 100644
--- a/forms/acroform/appearance.go
+++ b/forms/acroform/appearance.go
@@ -7,6 +7,7 @@ import (
 	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/write"
+	"github.com/benedoc-inc/pdfer/internal/pdftext"
 )
 
 // AppearanceBuilder helps create appearance streams for form fields
@@ -79,7 +80,7 @@ func (ab *AppearanceBuilder) CreateTextAppearance(text string, width, height, fo
 
 	// Set up text
 	content.WriteString("BT\n") // Begin text
-	content.WriteString(fmt.Sprintf("/%s %.2f Tf\n", fontName, fontSize))
+	content.WriteString(fmt.Sprintf("/%s %.2f Tf\n", pdftext.Name(fontName), fontSize))
 	content.WriteString("0 0 0 rg\n") // Black text
 
 	// Position text (bottom-left of field)
@@ -171,7 +172,9 @@ func escapeAppearanceText(s string) string {
 		case '\t':
 			result.WriteString("\\t")
 		default:
-			if r > 127 {
+			if r > 0xFF {
+				result.WriteRune('?') // the standard fonts have no such character
+			} else if r > 127 {
 				result.WriteString(fmt.Sprintf("\\%03o", r))
 			} else {
 				result.WriteRune(r)
diff --git a/forms/acroform/fill_streams.go b/forms/acroform/fill_streams.go
index f4b7498..2378779 100644
--- a/forms/acroform/fill_streams.go
+++ b/forms/acroform/fill_streams.go
@@ -172,12 +172,12 @@ func updateFieldContent(fieldData []byte, field *Field, value interface{}) ([]by
 	valueStr := formatFieldValue(value, field.FT)
 
 	// Replace or add /V entry
-	vPattern := regexp.MustCompile(`/V\s*(?:\([^)]*\)|/[^\s]+|\[[^\]]*\])`)
+	vPattern := regexp.MustCompile(`/V\s*(?:\((?:\\(?s:.)|[^\\)])*\)|/[^\s]+|\[[^\]]*\])`)
 	newV := fmt.Sprintf("/V (%s)", escapeFieldValue(valueStr))
 
 	var newFieldStr string
 	if vPattern.MatchString(fieldStr) {
-		newFieldStr = vPattern.ReplaceAllString(fieldStr, newV)
+		newFieldStr = vPattern.ReplaceAllLiteralString(fieldStr, newV)
 	} else {
 		dictEnd := strings.LastIndex(fieldStr, ">>")
 		if dictEnd == -1 {
diff --git a/forms/acroform/replace.go b/forms/acroform/replace.go
index 136ce0f..d219b91 100644
--- a/forms/acroform/replace.go
+++ b/forms/acroform/replace.go
@@ -8,6 +8,7 @@ import (
 	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/internal/pdftext"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -67,13 +68,13 @@ func FillFieldValue(pdfBytes []byte, field *Field, value interface{}, encryptInf
 	valueStr := formatFieldValue(value, field.FT)
 
 	// Replace or add /V entry
-	vPattern := regexp.MustCompile(`/V\s*(?:\([^)]*\)|/[^\s]+|\[[^\]]*\])`)
+	vPattern := regexp.MustCompile(`/V\s*(?:\((?:\\(?s:.)|[^\\)])*\)|/[^\s]+|\[[^\]]*\])`)
 	newV := fmt.Sprintf("/V (%s)", escapeFieldValue(valueStr))
 
 	var newFieldStr string
 	if vPattern.MatchString(fieldStr) {
 		// Replace existing value
-		newFieldStr = vPattern.ReplaceAllString(fieldStr, newV)
+		newFieldStr = vPattern.ReplaceAllLiteralString(fieldStr, newV)
 	} else {
 		// Add new /V entry before the closing >>
 		dictEnd := strings.LastIndex(fieldStr, ">>")
@@ -112,6 +113,9 @@ func formatFieldValue(value interface{}, fieldType string) string {
 
 // escapeFieldValue escapes special characters in field values
 func escapeFieldValue(s string) string {
+	if pdftext.IsWide(s) {
+		return pdftext.UTF16(s)
+	}
 	var result strings.Builder
 	for _, r := range s {
 		switch r {
diff --git a/forms/acroform/writer.go b/forms/acroform/writer.go
index b19b7cf..2740fbb 100644
--- a/forms/acroform/writer.go
+++ b/forms/acroform/writer.go
@@ -7,6 +7,7 @@ import (
 	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/write"
+	"github.com/benedoc-inc/pdfer/internal/pdftext"
 )
 
 // FieldBuilder helps build AcroForm fields
@@ -169,7 +170,7 @@ func (fb *FieldBuilder) createFieldObject(field *FieldDef) int {
 	dict.WriteString("<<")
 
 	// Field type
-	dict.WriteString(fmt.Sprintf(" /FT /%s", field.Type))
+	dict.WriteString(fmt.Sprintf(" /FT /%s", pdftext.Name(field.Type)))
 
 	// Field name
 	if field.Name != "" {
@@ -253,6 +254,9 @@ func escapeFieldName(s string) string {
 
 // escapeFieldValueForWriter escapes special characters in field values
 func escapeFieldValueForWriter(s string) string {
+	if pdftext.IsWide(s) {
+		return pdftext.UTF16(s)
+	}
 	var result strings.Builder
 	for _, r := range s {
 		switch r {
diff --git a/resources/font/pdf.go b/resources/font/pdf.go
index 6a06523..dbed642 100644
--- a/resources/font/pdf.go
+++ b/resources/font/pdf.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"sort"
 
+	"github.com/benedoc-inc/pdfer/internal/pdftext"
 	"github.com/benedoc-inc/pdfer/internal/sorted"
 )
 
@@ -258,8 +259,10 @@ func escapeName(s string) string {
 	for _, r := range s {
 		if r == ' ' || r == '#' || r == '/' || r == '(' || r == ')' || r == '<' || r == '>' || r == '[' || r == ']' || r == '{' || r == '}' || r == '%' {
 			buf.WriteString(fmt.Sprintf("#%02X", r))
-		} else if r > 127 {
-			buf.WriteString(fmt.Sprintf("#%02X", r))
+		} else if r > 126 || r < ' ' {
+			for _, c := range []byte(string(r)) {
+				buf.WriteString(fmt.Sprintf("#%02X", c))
+			}
 		} else {
 			buf.WriteRune(r)
 		}
@@ -269,6 +272,9 @@ func escapeName(s string) string {
 
 // escapeString escapes a PDF string
 func escapeString(s string) string {
+	if pdftext.IsWide(s) {
+		return pdftext.UTF16(s)
+	}
 	var buf bytes.Buffer
 	for _, r := range s {
 		switch r {
-- 
2.43.0


From 0c0b59c288d3929353a0f586d006af7394f82612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:29 +0000
Subject: [PATCH 57/76] fix: XFA values and element names from the caller are
 escaped or checked

UpdateXFAFieldValues put values into the XML unescaped, and the translators
wrote property and group names as element names whatever they contain.
---
 forms/xfa/xfa.go                       | 21 ++++++++++++++++++++-
 forms/xfa/xfa_config_translator.go     |  5 ++++-
 forms/xfa/xfa_connection_translator.go | 10 ++++++++--
 forms/xfa/xfa_datasets_translator.go   |  5 ++++-
 forms/xfa/xfa_stylesheet_translator.go |  5 ++++-
 5 files changed, 40 insertions(+), 6 deletions(-)

diff --git a/forms/xfa/xfa.go b/forms/xfa/xfa.go
index 84476df..0a3394b 100644
--- a/forms/xfa/xfa.go
+++ b/forms/xfa/xfa.go
@@ -4,12 +4,14 @@ import (
 	"bytes"
 	"compress/flate"
 	"compress/zlib"
+	"encoding/xml"
 	"fmt"
 	"io"
 	"log"
 	"regexp"
 	"strconv"
 	"strings"
+	"unicode"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/core/write"
@@ -501,6 +503,23 @@ func UpdateXFAValues(xfaXML string, formData types.FormData, verbose bool) (stri
 	return result, nil
 }
 
+// escapeXML escapes text for use as XML character data
+func escapeXML(s string) string {
+	var buf bytes.Buffer
+	xml.EscapeText(&buf, []byte(s)) // writing to a buffer does not fail
+	return buf.String()
+}
+
+// startElement returns the start tag of an element whose name is given by the caller
+func startElement(name string) (xml.StartElement, error) {
+	for i, r := range name {
+		if !unicode.IsLetter(r) && r != '_' && (i == 0 || !unicode.IsDigit(r) && !strings.ContainsRune("-.:", r)) {
+			return xml.StartElement{}, fmt.Errorf("%q is not an XML element name", name)
+		}
+	}
+	return xml.StartElement{Name: xml.Name{Local: name}}, nil
+}
+
 // UpdateXFAFieldValues updates individual field values in XFA XML
 func UpdateXFAFieldValues(xfaXML string, formData types.FormData, verbose bool) (string, error) {
 	resultXML := xfaXML
@@ -530,7 +549,7 @@ func UpdateXFAFieldValues(xfaXML string, formData types.FormData, verbose bool)
 		valueStart := strings.Index(fieldSection, "<value>")
 		valueEnd := strings.Index(fieldSection, "</value>")
 
-		valueStr := fmt.Sprintf("%v", newValue)
+		valueStr := escapeXML(fmt.Sprintf("%v", newValue))
 
 		if valueStart != -1 && valueEnd != -1 {
 			// Replace existing value
diff --git a/forms/xfa/xfa_config_translator.go b/forms/xfa/xfa_config_translator.go
index 8762dcb..c2dfdf2 100644
--- a/forms/xfa/xfa_config_translator.go
+++ b/forms/xfa/xfa_config_translator.go
@@ -327,7 +327,10 @@ func ConfigToXFA(config *types.XFAConfig, verbose bool) (string, error) {
 	if config.Properties != nil {
 		for _, key := range sorted.Keys(config.Properties) {
 			value := config.Properties[key]
-			elemStart := xml.StartElement{Name: xml.Name{Local: key}}
+			elemStart, err := startElement(key)
+			if err != nil {
+				return "", err
+			}
 			if err := enc.EncodeToken(elemStart); err != nil {
 				return "", err
 			}
diff --git a/forms/xfa/xfa_connection_translator.go b/forms/xfa/xfa_connection_translator.go
index 2609c92..f82593f 100644
--- a/forms/xfa/xfa_connection_translator.go
+++ b/forms/xfa/xfa_connection_translator.go
@@ -279,7 +279,10 @@ func encodeConnection(enc *xml.Encoder, connection types.XFAConnection) error {
 	if connection.Properties != nil {
 		for _, key := range sorted.Keys(connection.Properties) {
 			value := connection.Properties[key]
-			elemStart := xml.StartElement{Name: xml.Name{Local: key}}
+			elemStart, err := startElement(key)
+			if err != nil {
+				return err
+			}
 			if err := enc.EncodeToken(elemStart); err != nil {
 				return err
 			}
@@ -321,7 +324,10 @@ func encodeDataDescription(enc *xml.Encoder, desc *types.XFADataDescription) err
 	if desc.Properties != nil {
 		for _, key := range sorted.Keys(desc.Properties) {
 			value := desc.Properties[key]
-			elemStart := xml.StartElement{Name: xml.Name{Local: key}}
+			elemStart, err := startElement(key)
+			if err != nil {
+				return err
+			}
 			if err := enc.EncodeToken(elemStart); err != nil {
 				return err
 			}
diff --git a/forms/xfa/xfa_datasets_translator.go b/forms/xfa/xfa_datasets_translator.go
index bf3d526..a8f295a 100644
--- a/forms/xfa/xfa_datasets_translator.go
+++ b/forms/xfa/xfa_datasets_translator.go
@@ -255,7 +255,10 @@ func encodeField(enc *xml.Encoder, name string, value interface{}) error {
 
 // encodeFieldGroup encodes a field group as XFA XML
 func encodeFieldGroup(enc *xml.Encoder, group types.XFAFieldGroup) error {
-	groupStart := xml.StartElement{Name: xml.Name{Local: group.Name}}
+	groupStart, err := startElement(group.Name)
+	if err != nil {
+		return err
+	}
 	if err := enc.EncodeToken(groupStart); err != nil {
 		return err
 	}
diff --git a/forms/xfa/xfa_stylesheet_translator.go b/forms/xfa/xfa_stylesheet_translator.go
index 112665b..5566f86 100644
--- a/forms/xfa/xfa_stylesheet_translator.go
+++ b/forms/xfa/xfa_stylesheet_translator.go
@@ -386,7 +386,10 @@ func encodeStyle(enc *xml.Encoder, style types.XFAStyle) error {
 	for _, key := range sorted.Keys(style.Properties) {
 		value := style.Properties[key]
 		if key != "font" && key != "border" && key != "margin" && key != "padding" && key != "position" && key != "size" {
-			elemStart := xml.StartElement{Name: xml.Name{Local: key}}
+			elemStart, err := startElement(key)
+			if err != nil {
+				return err
+			}
 			if err := enc.EncodeToken(elemStart); err != nil {
 				return err
 			}
-- 
2.43.0


From 8ad309b55e9755c25adf57505d4041b08373b110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:29 +0000
Subject: [PATCH 58/76] fix: dictionary values are put in literally when
 rewriting page objects

---
 core/manipulate/manipulate.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/manipulate/manipulate.go b/core/manipulate/manipulate.go
index 9c4f487..56e8bc5 100644
--- a/core/manipulate/manipulate.go
+++ b/core/manipulate/manipulate.go
@@ -193,7 +193,7 @@ func setDictValue(dictStr, key, value string) string {
 		// Use word boundary or whitespace to ensure we match the full value
 		pattern := regexp.MustCompile(regexp.QuoteMeta(key) + `\s+([^\s<>]+)`)
 		if pattern.MatchString(dictStr) {
-			replaced := pattern.ReplaceAllString(dictStr, key+" "+value)
+			replaced := pattern.ReplaceAllLiteralString(dictStr, key+" "+value)
 			// Verify the replacement worked
 			newValue := extractDictValue(replaced, key)
 			if newValue == value {
@@ -203,7 +203,7 @@ func setDictValue(dictStr, key, value string) string {
 		// Try without space
 		noSpacePattern := regexp.MustCompile(regexp.QuoteMeta(key) + `/([^/\s<>]+)`)
 		if noSpacePattern.MatchString(dictStr) {
-			return noSpacePattern.ReplaceAllString(dictStr, key+"/"+strings.TrimPrefix(value, "/"))
+			return noSpacePattern.ReplaceAllLiteralString(dictStr, key+"/"+strings.TrimPrefix(value, "/"))
 		}
 		// Try array value - need to handle brackets properly
 		keyIdx := strings.Index(dictStr, key)
-- 
2.43.0


From 7609da5712ffcf15b982d84a00dcddaba38f37b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:21 +0000
Subject: [PATCH 59/76] fix: adding bookmarks keeps the other entries of the
 catalog

The catalog was rebuilt with a truncated page tree reference, written as the
string (1) instead of 1 0 R, and lost every other entry.
---
 core/write/writer.go | 67 +++++++++-----------------------------------
 1 file changed, 14 insertions(+), 53 deletions(-)

diff --git a/core/write/writer.go b/core/write/writer.go
index a046864..a7bd56f 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -213,64 +213,25 @@ func (w *PDFWriter) updateCatalogWithOutlines() {
 		return
 	}
 
-	// Parse catalog dictionary if it's a Dictionary, otherwise parse as string
-	var catalogDict Dictionary
 	if catalogObj.Dict != nil {
-		catalogDict = catalogObj.Dict
-	} else {
-		// Try to parse from Content
-		catalogStr := string(catalogObj.Content)
-		// Simple parsing - find dictionary entries
-		// For now, rebuild the dictionary properly
-		// Extract existing entries and rebuild
-		if strings.Contains(catalogStr, "/Type") && strings.Contains(catalogStr, "/Pages") {
-			// Rebuild with /Outlines
-			catalogDict = Dictionary{
-				"/Type":  "/Catalog",
-				"/Pages": extractDictValueFromString(catalogStr, "/Pages"),
-			}
-			if pagesRef := extractDictValueFromString(catalogStr, "/Pages"); pagesRef != "" {
-				catalogDict["/Pages"] = pagesRef
-			}
-		} else {
-			// Fallback: just add /Outlines to string
-			catalogStr := string(catalogObj.Content)
-			if !strings.Contains(catalogStr, "/Outlines") {
-				lastIdx := strings.LastIndex(catalogStr, ">>")
-				if lastIdx > 0 {
-					catalogStr = catalogStr[:lastIdx] + fmt.Sprintf("/Outlines %s ", w.outlinesRef) + catalogStr[lastIdx:]
-					catalogObj.Content = []byte(catalogStr)
-				}
-			}
-			return
-		}
+		catalogObj.Dict["/Outlines"] = w.outlinesRef
+		catalogObj.Content = w.formatDictionary(catalogObj.Dict)
+		return
 	}
 
-	// Add /Outlines to dictionary
-	catalogDict["/Outlines"] = w.outlinesRef
-
-	// Update catalog object
-	catalogObj.Content = w.formatDictionary(catalogDict)
-	catalogObj.Dict = catalogDict
+	// The catalog was given as PDF syntax: keep its other entries as they are
+	entry := "/Outlines " + w.outlinesRef
+	catalogStr := string(catalogObj.Content)
+	if pos := outlinesPattern.FindStringIndex(catalogStr); pos != nil {
+		catalogStr = catalogStr[:pos[0]] + entry + catalogStr[pos[1]:]
+	} else if lastIdx := strings.LastIndex(catalogStr, ">>"); lastIdx > 0 {
+		catalogStr = catalogStr[:lastIdx] + entry + " " + catalogStr[lastIdx:]
+	}
+	catalogObj.Content = []byte(catalogStr)
 }
 
-// extractDictValueFromString extracts a dictionary value from a string representation
-func extractDictValueFromString(dictStr, key string) string {
-	// Simple regex-like extraction
-	keyPattern := key + " "
-	idx := strings.Index(dictStr, keyPattern)
-	if idx == -1 {
-		return ""
-	}
-	start := idx + len(keyPattern)
-	// Find the value (could be a reference, array, etc.)
-	// For simplicity, extract until space or >
-	end := start
-	for end < len(dictStr) && dictStr[end] != ' ' && dictStr[end] != '>' && dictStr[end] != '\n' {
-		end++
-	}
-	return dictStr[start:end]
-}
+// The reference to the outlines in a catalog
+var outlinesPattern = regexp.MustCompile(`/Outlines\s+\d+\s+\d+\s+R`)
 
 // SetEncryptRef sets the encrypt dictionary object reference
 func (w *PDFWriter) SetEncryptRef(objNum int) {
-- 
2.43.0


From 84126e909649ffb38279731928b1c0991ac5fda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:41 +0000
Subject: [PATCH 60/76] fix: JPEG images with an unsupported number of
 components are refused

---
 core/write/image.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/write/image.go b/core/write/image.go
index 56c5380..5333be4 100644
--- a/core/write/image.go
+++ b/core/write/image.go
@@ -205,7 +205,7 @@ func parseJPEGHeader(data []byte) (width, height int, colorSpace string, err err
 			case 4:
 				colorSpace = "/DeviceCMYK"
 			default:
-				colorSpace = "/DeviceRGB"
+				return 0, 0, "", fmt.Errorf("unsupported JPEG with %d components", components)
 			}
 
 			return width, height, colorSpace, nil
-- 
2.43.0


From 4f600675ebf10676e4abe9c9aa64528e39330008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:41 +0000
Subject: [PATCH 61/76] fix: cmap tables of unsupported formats are refused
 instead of read as format 4

---
 resources/font/font.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/resources/font/font.go b/resources/font/font.go
index f2b05d8..78b1936 100644
--- a/resources/font/font.go
+++ b/resources/font/font.go
@@ -423,8 +423,7 @@ func parseCmap(data []byte) (map[rune]uint16, error) {
 		// Format 12: Segmented coverage
 		return parseCmapFormat12(subtableData, glyphMap)
 	default:
-		// Try format 4 as fallback
-		return parseCmapFormat4(subtableData, glyphMap)
+		return nil, fmt.Errorf("unsupported cmap subtable format %d", format)
 	}
 }
 
-- 
2.43.0


From e54a4bd8e1cc164aa71d56b109ef03ef6f0014a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:41 +0000
Subject: [PATCH 62/76] fix: unsupported security handlers, versions and
 ciphers are refused

---
 core/encrypt/parser.go | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/core/encrypt/parser.go b/core/encrypt/parser.go
index 8a0d130..76a0883 100644
--- a/core/encrypt/parser.go
+++ b/core/encrypt/parser.go
@@ -152,6 +152,10 @@ func ParseEncryptionDictionary(pdfBytes []byte, verbose bool) (*types.PDFEncrypt
 		}
 	}
 
+	if err := checkSupported(encrypt, dictContent); err != nil {
+		return nil, err
+	}
+
 	// Parse /O (owner password hash) - binary data in parentheses or hex string
 	// Try hex format first: /O <hex>
 	oHexPattern := regexp.MustCompile(`/O\s*<([0-9A-Fa-f]+)>`)
@@ -291,3 +295,31 @@ func ParseEncryptionDictionary(pdfBytes []byte, verbose bool) (*types.PDFEncrypt
 
 	return encrypt, nil
 }
+
+// checkSupported refuses security handlers, versions and ciphers that are not implemented
+func checkSupported(encrypt *types.PDFEncryption, dictContent string) error {
+	if encrypt.Filter != "" && encrypt.Filter != "Standard" {
+		return types.NewPDFErrorf(types.ErrCodeUnsupportedCrypto, "unsupported security handler %s", encrypt.Filter)
+	}
+	switch encrypt.V {
+	case 1, 2, 4, 5:
+	default:
+		return types.NewPDFErrorf(types.ErrCodeUnsupportedCrypto, "unsupported encryption version %d", encrypt.V)
+	}
+	switch encrypt.R {
+	case 2, 3, 4, 5, 6:
+	default:
+		return types.NewPDFErrorf(types.ErrCodeUnsupportedCrypto, "unsupported encryption revision %d", encrypt.R)
+	}
+	for _, match := range regexp.MustCompile(`/CFM\s*/(\w+)`).FindAllStringSubmatch(dictContent, -1) {
+		switch match[1] {
+		case "AESV2", "AESV3":
+		default:
+			return types.NewPDFErrorf(types.ErrCodeUnsupportedCrypto, "unsupported cipher %s", match[1])
+		}
+	}
+	if match := regexp.MustCompile(`/(?:StmF|StrF)\s*/Identity\b`).FindString(dictContent); match != "" {
+		return types.NewPDFErrorf(types.ErrCodeUnsupportedCrypto, "unsupported crypt filter %s", match)
+	}
+	return nil
+}
-- 
2.43.0


From 46647ee58e255ece1d9ddbcc09d2147ce06bcb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:41 +0000
Subject: [PATCH 63/76] fix: streams are decoded as their dictionary says and
 unsupported filters are not taken for plain data

---
 content/extract/images.go        |  29 ++---
 content/extract/pages.go         |  24 ++--
 content/extract/resources.go     |  16 +--
 core/parse/filters.go            |  11 +-
 core/parse/object_stream.go      |  78 +++---------
 core/parse/stream_filters.go     | 212 +++++++++++++++++++++++++++++++
 core/parse/xref_stream.go        |  11 +-
 forms/acroform/stream_rebuild.go |   4 +
 forms/xfa/xfa.go                 |  37 ++----
 forms/xfa/xfa_utils.go           |   6 +
 10 files changed, 295 insertions(+), 133 deletions(-)
 create mode 100644 core/parse/stream_filters.go

diff --git a/content/extract/images.go b/content/extract/images.go
index 0b33277..9766cff 100644
--- a/content/extract/images.go
+++ b/content/extract/images.go
@@ -3,6 +3,7 @@ package extract
 import (
 	"bytes"
 	"encoding/base64"
+	"errors"
 	"fmt"
 	"regexp"
 	"strconv"
@@ -108,25 +109,15 @@ func extractImageData(imageObjNum int, pdf *parse.PDF, verbose bool) (*types.Ima
 		}
 
 		if len(streamData) > 0 {
-			// Decompress if needed
-			if filter != "" {
-				if strings.Contains(filter, "FlateDecode") {
-					// Decompress FlateDecode
-					decompressed, err := parse.DecodeFlateDecode(streamData)
-					if err != nil {
-						return nil, fmt.Errorf("failed to decompress FlateDecode image %d: %w", imageObjNum, err)
-					}
-					image.Data = decompressed
-				} else if strings.Contains(filter, "DCTDecode") {
-					// DCTDecode (JPEG) - data is already JPEG, no decompression needed
-					image.Data = streamData
-				} else {
-					// Other filters - use raw data
-					image.Data = streamData
-				}
-			} else {
-				// No filter - use raw data
-				image.Data = streamData
+			// Decode as the stream dictionary says; JPEG and other image formats stay as they are
+			decoded, err := parse.DecodeImageStream(dictPart, streamData)
+			if err != nil && !errors.Is(err, types.ErrUnsupportedPDF) {
+				return nil, fmt.Errorf("failed to decode image %d: %w", imageObjNum, err)
+			}
+			if err == nil {
+				image.Data = decoded
+			} else if verbose {
+				fmt.Printf("Warning: failed to decode image %d: %v\n", imageObjNum, err)
 			}
 
 			// Set base64 encoded version for JSON serialization
diff --git a/content/extract/pages.go b/content/extract/pages.go
index 92e8120..c2ef30d 100644
--- a/content/extract/pages.go
+++ b/content/extract/pages.go
@@ -262,8 +262,7 @@ func extractPage(pdfBytes []byte, pdf *parse.PDF, pageObjNum int, pageStr string
 			if strings.Contains(contentStr, "stream") {
 				streamIdx := strings.Index(contentStr, "stream")
 				if streamIdx != -1 {
-					// Check for FlateDecode filter
-					isCompressed := strings.Contains(contentStr, "/FlateDecode")
+					dict := []byte(contentStr[:streamIdx])
 
 					// Extract stream data
 					dataStart := streamIdx + 6 // Skip "stream"
@@ -279,21 +278,16 @@ func extractPage(pdfBytes []byte, pdf *parse.PDF, pageObjNum int, pageStr string
 					if endstreamIdx != -1 {
 						streamData := []byte(contentStr[dataStart : dataStart+endstreamIdx])
 
-						// Decompress if needed using parse package
-						if isCompressed {
-							// Use parse.DecodeFlateDecode which handles both zlib and raw deflate
-							decompressed, err := parse.DecodeFlateDecode(streamData)
-							if err != nil {
-								// Compressed bytes are not page content
-								if verbose {
-									fmt.Printf("Warning: failed to decompress content stream %d: %v\n", contentObjNum, err)
-								}
-								continue
+						// Decode as the stream dictionary says
+						decoded, err := parse.DecodeStream(dict, streamData)
+						if err != nil {
+							// Encoded bytes are not page content
+							if verbose {
+								fmt.Printf("Warning: failed to decode content stream %d: %v\n", contentObjNum, err)
 							}
-							contentStr = string(decompressed)
-						} else {
-							contentStr = string(streamData)
+							continue
 						}
+						contentStr = string(decoded)
 					}
 				}
 			}
diff --git a/content/extract/resources.go b/content/extract/resources.go
index 19211dc..81e7cc3 100644
--- a/content/extract/resources.go
+++ b/content/extract/resources.go
@@ -576,9 +576,6 @@ func extractStreamData(objNum int, pdf *parse.PDF, verbose bool) string {
 		return ""
 	}
 
-	// Check for FlateDecode filter
-	isCompressed := strings.Contains(objStr, "/FlateDecode")
-
 	// Extract stream data
 	dataStart := streamIdx + 6 // Skip "stream"
 	// Skip EOL after "stream"
@@ -596,19 +593,16 @@ func extractStreamData(objNum int, pdf *parse.PDF, verbose bool) string {
 
 	streamData := []byte(objStr[dataStart : dataStart+endstreamIdx])
 
-	// Decompress if needed
-	if isCompressed {
-		decompressed, err := parse.DecodeFlateDecode(streamData)
-		if err == nil {
-			return string(decompressed)
-		}
+	// Decode as the stream dictionary says
+	decoded, err := parse.DecodeStream([]byte(objStr[:streamIdx]), streamData)
+	if err != nil {
 		if verbose {
-			fmt.Printf("Warning: failed to decompress stream %d: %v\n", objNum, err)
+			fmt.Printf("Warning: failed to decode stream %d: %v\n", objNum, err)
 		}
 		return ""
 	}
 
-	return string(streamData)
+	return string(decoded)
 }
 
 // isStandard14Font checks if a font is one of the standard 14 PDF fonts
diff --git a/core/parse/filters.go b/core/parse/filters.go
index 902c29d..0017370 100644
--- a/core/parse/filters.go
+++ b/core/parse/filters.go
@@ -3,9 +3,12 @@ package parse
 
 import (
 	"bytes"
+	"compress/flate"
 	"compress/zlib"
 	"fmt"
 	"io"
+
+	"github.com/benedoc-inc/pdfer/types"
 )
 
 // DecodeFilter applies the appropriate filter to decode stream data
@@ -23,7 +26,7 @@ func DecodeFilter(data []byte, filterName string) ([]byte, error) {
 	case "/DCTDecode", "DCTDecode":
 		return DecodeDCTDecode(data)
 	default:
-		return nil, fmt.Errorf("unsupported filter: %s", filterName)
+		return nil, types.NewPDFErrorf(types.ErrCodeUnsupportedPDF, "unsupported filter: %s", filterName)
 	}
 }
 
@@ -31,6 +34,12 @@ func DecodeFilter(data []byte, filterName string) ([]byte, error) {
 func DecodeFlateDecode(data []byte) ([]byte, error) {
 	reader, err := zlib.NewReader(bytes.NewReader(data))
 	if err != nil {
+		// Not zlib-wrapped, try raw deflate
+		flateReader := flate.NewReader(bytes.NewReader(data))
+		defer flateReader.Close()
+		if decoded, flateErr := io.ReadAll(flateReader); flateErr == nil {
+			return decoded, nil
+		}
 		return nil, fmt.Errorf("zlib error: %w", err)
 	}
 	defer reader.Close()
diff --git a/core/parse/object_stream.go b/core/parse/object_stream.go
index c34102d..fef590e 100644
--- a/core/parse/object_stream.go
+++ b/core/parse/object_stream.go
@@ -118,9 +118,13 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 
 	streamContent := xrefSection[streamDataStart : streamDataStart+streamEndPos]
 
+	parms, err := flateParms(xrefSection[dictStart:streamKeywordStart])
+	if err != nil {
+		return nil, err
+	}
+
 	// Decompress (xref streams are NOT encrypted)
 	var decompressed []byte
-	var err error
 
 	zlibReader, zlibErr := zlib.NewReader(bytes.NewReader(streamContent))
 	if zlibErr == nil {
@@ -141,63 +145,10 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 		return nil, fmt.Errorf("error decompressing xref stream: %w", err)
 	}
 
-	// Check for predictor (PNG filter)
-	// Look for /DecodeParms with /Predictor
-	decodeparmsPattern := regexp.MustCompile(`/DecodeParms\s*<<([^>]+)>>`)
-	decodeparmsMatch := decodeparmsPattern.FindStringSubmatch(string(xrefSection[:min(500, len(xrefSection))]))
-
-	if decodeparmsMatch != nil {
-		predictorPattern := regexp.MustCompile(`/Predictor\s+(\d+)`)
-		columnsPattern := regexp.MustCompile(`/Columns\s+(\d+)`)
-
-		predictorMatch := predictorPattern.FindStringSubmatch(decodeparmsMatch[1])
-		columnsMatch := columnsPattern.FindStringSubmatch(decodeparmsMatch[1])
-
-		if predictorMatch != nil && columnsMatch != nil {
-			predictor, _ := strconv.Atoi(predictorMatch[1])
-			columns, _ := strconv.Atoi(columnsMatch[1])
-
-			if predictor >= 10 && predictor <= 15 {
-				// PNG predictor - apply filter
-				if columns < 1 || columns > len(decompressed) {
-					return nil, fmt.Errorf("invalid predictor columns %d for %d bytes of xref stream", columns, len(decompressed))
-				}
-				rowSize := columns + 1 // +1 for filter byte
-
-				decoded := make([]byte, 0, len(decompressed))
-				prevRow := make([]byte, columns)
-
-				for rowStart := 0; rowStart+rowSize <= len(decompressed); rowStart += rowSize {
-					filterByte := decompressed[rowStart]
-					rowData := decompressed[rowStart+1 : rowStart+rowSize]
-
-					row := make([]byte, columns)
-					switch filterByte {
-					case 0: // None
-						copy(row, rowData)
-					case 1: // Sub
-						for i := 0; i < columns; i++ {
-							left := byte(0)
-							if i > 0 {
-								left = row[i-1]
-							}
-							row[i] = rowData[i] + left
-						}
-					case 2: // Up (most common for Predictor 12)
-						for i := 0; i < columns; i++ {
-							row[i] = rowData[i] + prevRow[i]
-						}
-					default:
-						copy(row, rowData)
-					}
-
-					decoded = append(decoded, row...)
-					prevRow = row
-				}
-
-				decompressed = decoded
-			}
-		}
+	// Reverse the predictor (PNG filter)
+	decompressed, err = unpredict(parms, decompressed)
+	if err != nil {
+		return nil, err
 	}
 
 	// Parse entries
@@ -339,9 +290,13 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 		streamData = decrypted
 	}
 
+	parms, err := flateParms(objSection[dictStart:streamKeyword])
+	if err != nil {
+		return nil, err
+	}
+
 	// Decompress stream data (FlateDecode)
 	var decompressed []byte
-	var err error
 
 	zlibReader, zlibErr := zlib.NewReader(bytes.NewReader(streamData))
 	if zlibErr == nil {
@@ -359,6 +314,11 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 		}
 	}
 
+	decompressed, err = unpredict(parms, decompressed)
+	if err != nil {
+		return nil, err
+	}
+
 	// Parse object stream header
 	// Object stream format:
 	// - /N = number of objects
diff --git a/core/parse/stream_filters.go b/core/parse/stream_filters.go
new file mode 100644
index 0000000..f20042b
--- /dev/null
+++ b/core/parse/stream_filters.go
@@ -0,0 +1,212 @@
+package parse
+
+import (
+	"bytes"
+	"fmt"
+	"regexp"
+	"strconv"
+
+	"github.com/benedoc-inc/pdfer/types"
+)
+
+var (
+	filterEntryPattern = regexp.MustCompile(`/Filter\s*(\[[^\]]*\]|/[^\s/<>\[\]()%]+|\d+\s+\d+\s+R)`)
+	filterNamePattern  = regexp.MustCompile(`/[^\s/<>\[\]()%]+|\d+\s+\d+\s+R`)
+	parmsEntryPattern  = regexp.MustCompile(`/DecodeParms\s*(\[[^\]]*\]|<<[^>]*>>|\d+\s+\d+\s+R)`)
+	parmsPattern       = regexp.MustCompile(`<<[^>]*>>|null|\d+\s+\d+\s+R`)
+)
+
+type streamFilter struct {
+	name  string
+	parms string
+}
+
+// streamFilters returns the filters of a stream dictionary with their parameters, in the order they are applied when decoding
+func streamFilters(dict []byte) []streamFilter {
+	m := filterEntryPattern.FindSubmatch(dict)
+	if m == nil {
+		return nil
+	}
+	var filters []streamFilter
+	for _, name := range filterNamePattern.FindAll(m[1], -1) {
+		filters = append(filters, streamFilter{name: string(name)})
+	}
+	if m := parmsEntryPattern.FindSubmatch(dict); m != nil {
+		for i, parms := range parmsPattern.FindAll(m[1], -1) {
+			if i < len(filters) && !bytes.Equal(parms, []byte("null")) {
+				filters[i].parms = string(parms)
+			}
+		}
+	}
+	return filters
+}
+
+// DecodeStream decodes stream data with the filters and predictors that its dictionary names.
+// A filter or predictor that is not supported is an error.
+func DecodeStream(dict, data []byte) ([]byte, error) {
+	return applyFilters(streamFilters(dict), data)
+}
+
+// DecodeImageStream is DecodeStream for image data, which is left in its image format (JPEG, JPEG 2000, CCITT or JBIG2).
+func DecodeImageStream(dict, data []byte) ([]byte, error) {
+	filters := streamFilters(dict)
+	if n := len(filters); n > 0 {
+		switch filters[n-1].name {
+		case "/DCTDecode", "/JPXDecode", "/CCITTFaxDecode", "/JBIG2Decode":
+			filters = filters[:n-1]
+		}
+	}
+	return applyFilters(filters, data)
+}
+
+func applyFilters(filters []streamFilter, data []byte) ([]byte, error) {
+	for _, f := range filters {
+		decoded, err := DecodeFilter(data, f.name)
+		if err != nil {
+			return nil, err
+		}
+		data, err = unpredict(f.parms, decoded)
+		if err != nil {
+			return nil, err
+		}
+	}
+	return data, nil
+}
+
+// flateParms returns the decode parameters of a stream that has to be compressed with FlateDecode
+func flateParms(dict []byte) (string, error) {
+	filters := streamFilters(dict)
+	if len(filters) == 0 {
+		return "", nil
+	}
+	if len(filters) > 1 || filters[0].name != "/FlateDecode" {
+		return "", types.NewPDFErrorf(types.ErrCodeUnsupportedPDF, "unsupported filter %s", filters[len(filters)-1].name)
+	}
+	if parms := filters[0].parms; parms != "" && parms[0] != '<' {
+		return "", types.NewPDFErrorf(types.ErrCodeUnsupportedPDF, "unsupported decode parameters %s", parms)
+	}
+	return filters[0].parms, nil
+}
+
+// IsPlainFlate reports whether the stream dictionary names FlateDecode without a predictor as its only filter (true),
+// or no filter (false). Any other filter is an error.
+func IsPlainFlate(dict []byte) (bool, error) {
+	filters := streamFilters(dict)
+	parms, err := flateParms(dict)
+	if err != nil {
+		return false, err
+	}
+	if predictor, err := parmsInt(parms, "Predictor", 1); err != nil || predictor != 1 {
+		return false, types.NewPDFError(types.ErrCodeUnsupportedPDF, "unsupported predictor")
+	}
+	return len(filters) == 1, nil
+}
+
+func parmsInt(parms, key string, def int) (int, error) {
+	m := regexp.MustCompile(`/` + regexp.QuoteMeta(key) + `\s+(\d+)`).FindStringSubmatch(parms)
+	if m == nil {
+		return def, nil
+	}
+	return strconv.Atoi(m[1])
+}
+
+// unpredict reverses the predictor named in decode parameters
+func unpredict(parms string, data []byte) ([]byte, error) {
+	if parms == "" || len(data) == 0 {
+		return data, nil
+	}
+	if parms[0] != '<' {
+		return nil, types.NewPDFErrorf(types.ErrCodeUnsupportedPDF, "unsupported decode parameters %s", parms)
+	}
+	predictor, err := parmsInt(parms, "Predictor", 1)
+	if err != nil {
+		return nil, fmt.Errorf("invalid predictor: %w", err)
+	}
+	if predictor == 1 {
+		return data, nil
+	}
+	if predictor < 10 || predictor > 15 {
+		return nil, types.NewPDFErrorf(types.ErrCodeUnsupportedPDF, "unsupported predictor %d", predictor)
+	}
+	colors, err := parmsInt(parms, "Colors", 1)
+	if err != nil {
+		return nil, fmt.Errorf("invalid predictor colors: %w", err)
+	}
+	bits, err := parmsInt(parms, "BitsPerComponent", 8)
+	if err != nil {
+		return nil, fmt.Errorf("invalid predictor bits per component: %w", err)
+	}
+	columns, err := parmsInt(parms, "Columns", 1)
+	if err != nil {
+		return nil, fmt.Errorf("invalid predictor columns: %w", err)
+	}
+	if colors < 1 || colors > 32 || bits < 1 || bits > 16 {
+		return nil, fmt.Errorf("invalid predictor with %d colors of %d bits", colors, bits)
+	}
+	if columns < 1 || columns > 8*len(data) {
+		return nil, fmt.Errorf("invalid predictor columns %d for %d bytes", columns, len(data))
+	}
+	return unpredictPNG(data, (colors*bits*columns+7)/8, (colors*bits+7)/8)
+}
+
+// unpredictPNG reverses the PNG filters of rows of rowSize bytes, with pixels of pixelSize bytes
+func unpredictPNG(data []byte, rowSize, pixelSize int) ([]byte, error) {
+	if rowSize < 1 || pixelSize < 1 {
+		return nil, fmt.Errorf("invalid predictor rows of %d bytes with pixels of %d bytes", rowSize, pixelSize)
+	}
+	decoded := make([]byte, 0, len(data))
+	var up []byte
+	for len(data) > rowSize {
+		kind := data[0]
+		start := len(decoded)
+		decoded = append(decoded, data[1:rowSize+1]...)
+		data = data[rowSize+1:]
+		row := decoded[start:]
+		for i := range row {
+			var left, above, corner byte
+			if i >= pixelSize {
+				left = row[i-pixelSize]
+			}
+			if i < len(up) {
+				above = up[i]
+			}
+			if i >= pixelSize && i-pixelSize < len(up) {
+				corner = up[i-pixelSize]
+			}
+			switch kind {
+			case 0: // None
+			case 1: // Sub
+				row[i] += left
+			case 2: // Up
+				row[i] += above
+			case 3: // Average
+				row[i] += byte((int(left) + int(above)) / 2)
+			case 4: // Paeth
+				row[i] += paeth(left, above, corner)
+			default:
+				return nil, types.NewPDFErrorf(types.ErrCodeUnsupportedPDF, "unsupported PNG filter %d", kind)
+			}
+		}
+		up = row
+	}
+	return decoded, nil
+}
+
+func paeth(a, b, c byte) byte {
+	p := int(a) + int(b) - int(c)
+	pa, pb, pc := absInt(p-int(a)), absInt(p-int(b)), absInt(p-int(c))
+	if pa <= pb && pa <= pc {
+		return a
+	}
+	if pb <= pc {
+		return b
+	}
+	return c
+}
+
+func absInt(n int) int {
+	if n < 0 {
+		return -n
+	}
+	return n
+}
diff --git a/core/parse/xref_stream.go b/core/parse/xref_stream.go
index baa7bf0..bce1e9b 100644
--- a/core/parse/xref_stream.go
+++ b/core/parse/xref_stream.go
@@ -117,6 +117,11 @@ func ParseXRefStreamWithEncryption(pdfBytes []byte, startXRef int64, encryptInfo
 	// Extract stream content (raw bytes, don't trim)
 	streamContent := xrefSection[streamDataStart : streamDataStart+streamEndPos]
 
+	parms, err := flateParms(xrefSection[dictStart:streamKeywordStart])
+	if err != nil {
+		return nil, err
+	}
+
 	// Note: Xref streams are typically NOT encrypted (they're needed to decrypt other objects)
 	// The stream content should be FlateDecode compressed binary data
 	// FlateDecode can be either raw deflate or zlib-wrapped
@@ -124,7 +129,6 @@ func ParseXRefStreamWithEncryption(pdfBytes []byte, startXRef int64, encryptInfo
 	// Try zlib decompression first (FlateDecode is usually zlib-wrapped)
 	// If that fails, try raw deflate
 	var decompressed []byte
-	var err error
 
 	zlibReader, zlibErr := zlib.NewReader(bytes.NewReader(streamContent))
 	if zlibErr == nil {
@@ -147,6 +151,11 @@ func ParseXRefStreamWithEncryption(pdfBytes []byte, startXRef int64, encryptInfo
 		return nil, fmt.Errorf("error decompressing xref stream (tried zlib and deflate): %w", err)
 	}
 
+	decompressed, err = unpredict(parms, decompressed)
+	if err != nil {
+		return nil, err
+	}
+
 	// Parse decompressed stream data
 	// Each entry is w1+w2+w3 bytes
 	if w1 < 0 || w1 > 8 || w2 < 0 || w2 > 8 || w3 < 0 || w3 > 8 {
diff --git a/forms/acroform/stream_rebuild.go b/forms/acroform/stream_rebuild.go
index d7cb06e..b4ab1e5 100644
--- a/forms/acroform/stream_rebuild.go
+++ b/forms/acroform/stream_rebuild.go
@@ -156,6 +156,10 @@ func parseObjectStream(streamObjData []byte) (map[string]interface{}, []byte, er
 	}
 	streamData := streamObjData[streamDataStart : streamDataStart+length]
 
+	if _, err := parse.IsPlainFlate(streamObjData[dictStart:dictEnd]); err != nil {
+		return nil, nil, fmt.Errorf("cannot decompress object stream: %w", err)
+	}
+
 	// Decompress
 	zr, err := zlib.NewReader(bytes.NewReader(streamData))
 	if err != nil {
diff --git a/forms/xfa/xfa.go b/forms/xfa/xfa.go
index 0a3394b..474d98c 100644
--- a/forms/xfa/xfa.go
+++ b/forms/xfa/xfa.go
@@ -2,11 +2,8 @@ package xfa
 
 import (
 	"bytes"
-	"compress/flate"
-	"compress/zlib"
 	"encoding/xml"
 	"fmt"
-	"io"
 	"log"
 	"regexp"
 	"strconv"
@@ -71,30 +68,12 @@ func extractStreamDataFromObject(objData []byte, objNum int, encryptInfo *types.
 		streamData = objData[dataStart:endstreamIdx]
 	}
 
-	// Check if FlateDecode filter is present
-	if bytes.Contains(objData[:streamIdx], []byte("/FlateDecode")) ||
-		bytes.Contains(objData[:streamIdx], []byte("/Filter/FlateDecode")) ||
-		bytes.Contains(objData[:streamIdx], []byte("/Filter /FlateDecode")) {
-		// Decompress
-		zlibReader, err := zlib.NewReader(bytes.NewReader(streamData))
-		if err == nil {
-			decompressed, err := io.ReadAll(zlibReader)
-			zlibReader.Close()
-			if err == nil {
-				return decompressed, nil
-			}
-		}
-		// Try raw deflate
-		flateReader := flate.NewReader(bytes.NewReader(streamData))
-		decompressed, err := io.ReadAll(flateReader)
-		flateReader.Close()
-		if err == nil {
-			return decompressed, nil
-		}
-		return nil, fmt.Errorf("failed to decompress stream of object %d: %w", objNum, err)
+	// Decode as the stream dictionary says
+	decoded, err := parse.DecodeStream(objData[:streamIdx], streamData)
+	if err != nil {
+		return nil, fmt.Errorf("failed to decode stream of object %d: %w", objNum, err)
 	}
-
-	return streamData, nil
+	return decoded, nil
 }
 
 // XFAStreamInfo contains stream data and metadata
@@ -450,7 +429,11 @@ func UpdateXFAInPDF(pdfBytes []byte, formData types.FormData, encryptInfo *types
 		return nil, fmt.Errorf("error reading datasets stream object: %w", err)
 	}
 	dict, _, _ := bytes.Cut(streamObj, []byte("stream"))
-	if bytes.Contains(dict, []byte("/FlateDecode")) {
+	compressed, err := parse.IsPlainFlate(dict)
+	if err != nil {
+		return nil, fmt.Errorf("cannot encode datasets stream: %w", err)
+	}
+	if compressed {
 		updatedStream, err = CompressStream(updatedStream)
 		if err != nil {
 			return nil, fmt.Errorf("error compressing stream: %w", err)
diff --git a/forms/xfa/xfa_utils.go b/forms/xfa/xfa_utils.go
index 69dad37..35f95e5 100644
--- a/forms/xfa/xfa_utils.go
+++ b/forms/xfa/xfa_utils.go
@@ -795,6 +795,12 @@ func extractStreamFromPDF(pdfBytes []byte, streamObjNum int, encryptInfo *types.
 		}
 	}
 
+	// Decode as the stream dictionary says
+	streamContent, err = parse.DecodeStream([]byte(dictContent), streamContent)
+	if err != nil {
+		return nil, 0, fmt.Errorf("failed to decode stream of object %d: %w", streamObjNum, err)
+	}
+
 	return streamContent, streamObjNum, nil
 }
 
-- 
2.43.0


From 1a268daa6debb32df070a712790e66d2b6b6996f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:21 +0000
Subject: [PATCH 64/76] fix: field appearances are decoded and found across
 lines

---
 forms/acroform/flatten.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/forms/acroform/flatten.go b/forms/acroform/flatten.go
index c0dbde9..8dabaf7 100644
--- a/forms/acroform/flatten.go
+++ b/forms/acroform/flatten.go
@@ -2,6 +2,7 @@
 package acroform
 
 import (
+	"bytes"
 	"fmt"
 	"regexp"
 	"strconv"
@@ -132,11 +133,22 @@ func GetFieldAppearance(field *Field, pdfBytes []byte, encryptInfo *types.PDFEnc
 	}
 
 	// Extract stream data (if it's a stream object)
-	streamPattern := regexp.MustCompile(`stream\s*\n(.*?)\nendstream`)
-	streamMatch := streamPattern.FindStringSubmatch(string(appearanceData))
-	if streamMatch != nil {
-		return []byte(streamMatch[1]), nil
+	dict, stream, found := bytes.Cut(appearanceData, []byte("stream"))
+	if !found {
+		return appearanceData, nil
 	}
-
-	return appearanceData, nil
+	end := bytes.LastIndex(stream, []byte("endstream"))
+	if end == -1 {
+		return nil, fmt.Errorf("endstream not found in appearance stream %d", appearanceObjNum)
+	}
+	stream = stream[:end]
+	stream = bytes.TrimPrefix(stream, []byte("\r"))
+	stream = bytes.TrimPrefix(stream, []byte("\n"))
+	stream = bytes.TrimSuffix(stream, []byte("\n"))
+	stream = bytes.TrimSuffix(stream, []byte("\r"))
+	content, err := parse.DecodeStream(dict, stream)
+	if err != nil {
+		return nil, fmt.Errorf("failed to decode appearance stream %d: %w", appearanceObjNum, err)
+	}
+	return content, nil
 }
-- 
2.43.0


From 487cc0f9f70c06acee52c538de38066535692499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:16 +0000
Subject: [PATCH 65/76] fix: AddImage: do not allocate for more pixels than the
 data can hold

image.Decode allocates what the image header says, so a file of 60 bytes
that declares 60000 x 60000 pixels demanded gigabytes of memory.
---
 core/write/image.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/core/write/image.go b/core/write/image.go
index 5333be4..14016e8 100644
--- a/core/write/image.go
+++ b/core/write/image.go
@@ -63,10 +63,26 @@ func (w *PDFWriter) AddJPEGImage(jpegData []byte, name string) (*ImageInfo, erro
 	}, nil
 }
 
+const (
+	// maxPixelsPerByte is more than PNG and JPEG can hold: 8 pixels in a byte, which deflate compresses
+	// 1032 times at best
+	maxPixelsPerByte = 8 * 1032
+
+	// smallImage is the number of pixels of images that are decoded whatever the size of their data
+	smallImage = 1 << 24
+)
+
 // AddImage adds a generic image (PNG, etc.) to the PDF
 // The image is converted to raw RGB/Gray data and compressed with FlateDecode
 func (w *PDFWriter) AddImage(imgData []byte, name string) (*ImageInfo, error) {
-	// Decode image
+	// Decode image. Decoding takes as much memory as the header says, so that has to fit the data.
+	config, _, err := image.DecodeConfig(bytes.NewReader(imgData))
+	if err != nil {
+		return nil, fmt.Errorf("failed to decode image: %w", err)
+	}
+	if config.Width*config.Height > max(smallImage, maxPixelsPerByte*len(imgData)) {
+		return nil, fmt.Errorf("failed to decode image: %d bytes cannot hold %d x %d pixels", len(imgData), config.Width, config.Height)
+	}
 	img, format, err := image.Decode(bytes.NewReader(imgData))
 	if err != nil {
 		return nil, fmt.Errorf("failed to decode image: %w", err)
-- 
2.43.0


From d964c2a4558f2ebf27975c769a64a1c396127b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:07 +0000
Subject: [PATCH 66/76] fix: streams are written with one length entry,
 whichever way the caller spelled it

---
 core/write/writer.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/core/write/writer.go b/core/write/writer.go
index a7bd56f..13a816e 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -46,6 +46,13 @@ func (d Dictionary) clone() Dictionary {
 	return c
 }
 
+// set replaces an entry. Its key may be there with or without the slash; two entries for one key would both
+// be written.
+func (d Dictionary) set(key string, value interface{}) {
+	delete(d, "/"+key)
+	d[key] = value
+}
+
 // PDFWriter builds PDF files from scratch
 type PDFWriter struct {
 	objects         map[int]*PDFObject
@@ -131,7 +138,7 @@ func (w *PDFWriter) AddStreamObject(dict Dictionary, data []byte, compress bool)
 		dict["Filter"] = "/FlateDecode"
 	}
 
-	dict["Length"] = len(streamData)
+	dict.set("Length", len(streamData))
 
 	w.objects[objNum] = &PDFObject{
 		Number:     objNum,
@@ -171,7 +178,7 @@ func (w *PDFWriter) SetStreamObject(objNum int, dict Dictionary, data []byte, co
 		dict["Filter"] = "/FlateDecode"
 	}
 
-	dict["Length"] = len(streamData)
+	dict.set("Length", len(streamData))
 
 	w.objects[objNum] = &PDFObject{
 		Number:     objNum,
@@ -319,7 +326,7 @@ func (w *PDFWriter) write(out io.Writer) error {
 				}
 				streamData = encrypted
 				// Update length in dictionary
-				obj.Dict["Length"] = len(streamData)
+				obj.Dict.set("Length", len(streamData))
 				content = w.formatDictionary(obj.Dict)
 			}
 
-- 
2.43.0


From 62126dc34d6a066236f73c366df959ab04cc424e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:01 +0000
Subject: [PATCH 67/76] fix: GetDirectObject: a stream length given by
 reference is not taken for the number

---
 core/parse/get_object.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/core/parse/get_object.go b/core/parse/get_object.go
index 8613cb7..4604857 100644
--- a/core/parse/get_object.go
+++ b/core/parse/get_object.go
@@ -204,12 +204,13 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 		if encryptInfo != nil && !storedUnencrypted(content[:streamStart], encryptInfo) {
 			// Get /Length from dictionary for exact stream data size
 			dictPart := content[:streamStart]
-			lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
 			lengthMatch := lengthPattern.FindSubmatch(dictPart)
 
-			var streamLength int
-			if lengthMatch != nil {
-				streamLength, _ = strconv.Atoi(string(lengthMatch[1]))
+			streamLength := -1
+			if lengthMatch != nil && lengthMatch[2] == nil { // not a reference
+				if n, err := strconv.Atoi(string(lengthMatch[1])); err == nil {
+					streamLength = n
+				}
 			}
 
 			// Find actual stream data (after "stream\r\n" or "stream\n")
@@ -224,7 +225,7 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 
 			// Use /Length if available, otherwise find endstream
 			var streamData []byte
-			if streamLength > 0 && streamLength <= len(content)-streamDataStart {
+			if streamLength >= 0 && streamLength <= len(content)-streamDataStart {
 				streamData = content[streamDataStart : streamDataStart+streamLength]
 			} else {
 				streamDataEnd := bytes.Index(content[streamDataStart:], []byte("endstream"))
@@ -232,6 +233,9 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 					streamDataEnd = len(content) - streamDataStart
 				}
 				streamData = content[streamDataStart : streamDataStart+streamDataEnd]
+				// The line end before the keyword is not part of the data
+				streamData = bytes.TrimSuffix(streamData, []byte("\n"))
+				streamData = bytes.TrimSuffix(streamData, []byte("\r"))
 			}
 
 			if verbose {
@@ -246,7 +250,12 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 			}
 			// Update /Length in the dictionary to reflect decrypted size
 			newLength := fmt.Sprintf("/Length %d", len(decryptedStream))
-			dictPart = lengthPattern.ReplaceAll(dictPart, []byte(newLength))
+			if lengthMatch != nil {
+				dictPart = lengthPattern.ReplaceAll(dictPart, []byte(newLength))
+			} else {
+				dictPart = bytes.TrimSuffix(bytes.TrimSpace(dictPart), []byte(">>"))
+				dictPart = append(append([]byte{}, dictPart...), newLength+">>\n"...)
+			}
 
 			// Reconstruct content with updated dictionary and decrypted stream
 			newContent := make([]byte, 0, len(dictPart)+len(decryptedStream)+20)
@@ -275,6 +284,9 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 	return []byte(result), nil
 }
 
+// The length of a stream, given as a number or as a reference
+var lengthPattern = regexp.MustCompile(`/Length\s+(\d+)(\s+\d+\s+R)?`)
+
 // storedUnencrypted reports whether a stream with this dictionary is not encrypted although the document is:
 // cross-reference streams never are, metadata is not when the document says so.
 func storedUnencrypted(dict []byte, encryptInfo *types.PDFEncryption) bool {
-- 
2.43.0


From acd24c68e80501f55b2d9d817b9394caeea2620e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:01 +0000
Subject: [PATCH 68/76] fix: ReplaceStreamInPDF: declare the length of the data
 written, whatever surrounded the old data

---
 forms/xfa/xfa_utils.go | 50 ++++++++++++++----------------------------
 1 file changed, 16 insertions(+), 34 deletions(-)

diff --git a/forms/xfa/xfa_utils.go b/forms/xfa/xfa_utils.go
index 35f95e5..de9a4d0 100644
--- a/forms/xfa/xfa_utils.go
+++ b/forms/xfa/xfa_utils.go
@@ -851,6 +851,9 @@ func CompressStream(data []byte) ([]byte, error) {
 	return buf.Bytes(), nil
 }
 
+// The length of a stream, given as a number or as a reference
+var streamLengthPattern = regexp.MustCompile(`/Length\s+\d+(\s+\d+\s+R)?`)
+
 // ReplaceStreamInPDF replaces a stream in the PDF and updates the length
 func ReplaceStreamInPDF(pdfBytes []byte, streamObjNum int, newStream []byte, verbose bool) ([]byte, error) {
 	pdfStr := string(pdfBytes)
@@ -870,56 +873,35 @@ func ReplaceStreamInPDF(pdfBytes []byte, streamObjNum int, newStream []byte, ver
 
 	dictStart := streamObjMatch[0]
 	dictEnd := streamObjMatch[0] + streamKeywordPos
+	dict := pdfBytes[dictStart:dictEnd]
 
-	// Find and update /Length entry
-	lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
-	lengthMatch := lengthPattern.FindStringSubmatchIndex(string(pdfBytes[dictStart:dictEnd]))
+	// Find the /Length entry, a number or a reference
+	lengthMatch := streamLengthPattern.FindIndex(dict)
 	if lengthMatch == nil {
 		return nil, fmt.Errorf("Length entry not found in stream dictionary")
 	}
 
-	lengthStart := dictStart + lengthMatch[2]
-	lengthEnd := dictStart + lengthMatch[3]
-
-	// Replace length
-	newLength := strconv.Itoa(len(newStream))
-
-	// Find stream start and end (need to recalculate after length update)
-	// Re-find stream position - use bytes.Index since we'll be modifying pdfBytes
-	streamKeywordPos = bytes.Index(pdfBytes[dictStart:], []byte("stream"))
-	if streamKeywordPos == -1 {
-		return nil, fmt.Errorf("stream keyword not found")
-	}
-
-	// Skip "stream" keyword (6 bytes) and any whitespace
-	streamStart := dictStart + streamKeywordPos + 6
-	for streamStart < len(pdfBytes) && (pdfBytes[streamStart] == '\r' || pdfBytes[streamStart] == '\n' || pdfBytes[streamStart] == ' ' || pdfBytes[streamStart] == '\t') {
-		streamStart++
-	}
-
-	endstreamPos := bytes.Index(pdfBytes[streamStart:], []byte("endstream"))
+	endstreamPos := bytes.Index(pdfBytes[dictEnd:], []byte("endstream"))
 	if endstreamPos == -1 {
 		return nil, fmt.Errorf("endstream not found")
 	}
-
-	streamEnd := streamStart + endstreamPos
-	afterStream := pdfBytes[streamEnd:]
-
-	// Reconstruct PDF: before length + new length + between length and stream + new stream + after stream
-	beforeLength := pdfBytes[:lengthStart]
-	betweenLengthAndStream := pdfBytes[lengthEnd:streamStart]
+	afterStream := pdfBytes[dictEnd+endstreamPos+len("endstream"):]
 
 	// Build the result in fresh memory: appending to a sub-slice of pdfBytes would
 	// overwrite the caller's document in place.
-	result := make([]byte, 0, len(pdfBytes)+len(newLength)+len(newStream))
-	result = append(result, beforeLength...)
+	newLength := fmt.Sprintf("/Length %d", len(newStream))
+	result := make([]byte, 0, len(pdfBytes)+len(newLength)+len(newStream)+20)
+	result = append(result, pdfBytes[:dictStart]...)
+	result = append(result, dict[:lengthMatch[0]]...)
 	result = append(result, newLength...)
-	result = append(result, betweenLengthAndStream...)
+	result = append(result, dict[lengthMatch[1]:]...)
+	result = append(result, []byte("stream\n")...)
 	result = append(result, newStream...)
+	result = append(result, []byte("\nendstream")...)
 	result = append(result, afterStream...)
 
 	if verbose {
-		log.Printf("Replaced stream %d: old length %s, new length %d", streamObjNum, string(pdfBytes[lengthStart:lengthEnd]), len(newStream))
+		log.Printf("Replaced stream %d: old %s, new length %d", streamObjNum, string(dict[lengthMatch[0]:lengthMatch[1]]), len(newStream))
 	}
 
 	return result, nil
-- 
2.43.0


From fd744a6054c36ad359b36275b78630f8f38465df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:25 +0000
Subject: [PATCH 69/76] fix: offsets in object streams are counted from /First

createObjectStreams added the length of the header to every offset although readers add /First, so no object
stored in an object stream could be read back.
---
 core/write/object_stream.go | 81 +++++--------------------------------
 1 file changed, 10 insertions(+), 71 deletions(-)

diff --git a/core/write/object_stream.go b/core/write/object_stream.go
index 6819112..e071a7c 100644
--- a/core/write/object_stream.go
+++ b/core/write/object_stream.go
@@ -4,8 +4,6 @@ import (
 	"bytes"
 	"compress/zlib"
 	"fmt"
-	"strconv"
-	"strings"
 
 	"github.com/benedoc-inc/pdfer/internal/sorted"
 )
@@ -48,88 +46,29 @@ func (w *PDFWriter) createObjectStreams() (map[int]struct {
 	streamObjNum := w.nextObjNum
 	w.nextObjNum++
 
-	// Build header and collect object data
-	var headerBuilder strings.Builder
+	// Header: "objnum1 offset1 objnum2 offset2 ...", the offsets counted from the start of the data
+	var header, data bytes.Buffer
 	objMap := make(map[int]struct {
 		streamObjNum int
 		index        int
 	})
-
-	// Build header first (we need to know offsets)
-	type objInfo struct {
-		objNum int
-		offset int
-		data   []byte
-	}
-	var objInfos []objInfo
-
-	for _, objNum := range eligibleObjs {
-		obj := w.objects[objNum]
-		objInfos = append(objInfos, objInfo{
-			objNum: objNum,
-			data:   obj.Content,
-		})
-	}
-
-	// Calculate offsets
-	currentOffset := 0
-	for i := range objInfos {
-		objInfos[i].offset = currentOffset
-		// Offset is relative to start of object data (after header)
-		// We'll add header length later
-		currentOffset += len(objInfos[i].data) + 1 // +1 for space separator
-	}
-
-	// Build header: "objnum1 offset1 objnum2 offset2 ..."
-	for _, info := range objInfos {
-		headerBuilder.WriteString(strconv.Itoa(info.objNum))
-		headerBuilder.WriteString(" ")
-		headerBuilder.WriteString(strconv.Itoa(info.offset))
-		headerBuilder.WriteString(" ")
-	}
-
-	headerStr := strings.TrimSpace(headerBuilder.String())
-	headerBytes := []byte(headerStr)
-	firstOffset := len(headerBytes)
-
-	// Adjust offsets to be relative to start of data (after header + space)
-	dataStartOffset := firstOffset + 1 // +1 for space after header
-	for i := range objInfos {
-		objInfos[i].offset += dataStartOffset
-	}
-
-	// Rebuild header with corrected offsets
-	headerBuilder.Reset()
-	for _, info := range objInfos {
-		headerBuilder.WriteString(strconv.Itoa(info.objNum))
-		headerBuilder.WriteString(" ")
-		headerBuilder.WriteString(strconv.Itoa(info.offset))
-		headerBuilder.WriteString(" ")
-	}
-	headerStr = strings.TrimSpace(headerBuilder.String())
-	headerBytes = []byte(headerStr)
-	firstOffset = len(headerBytes)
-
-	// Build data section
-	var dataBuilder bytes.Buffer
-	for i, info := range objInfos {
-		dataBuilder.Write(info.data)
-		if i < len(objInfos)-1 {
-			dataBuilder.WriteByte(' ') // Space between objects
-		}
+	for i, objNum := range eligibleObjs {
+		fmt.Fprintf(&header, "%d %d ", objNum, data.Len())
+		data.Write(w.objects[objNum].Content)
+		data.WriteByte(' ') // Space between objects
 
 		// Track mapping
-		objMap[info.objNum] = struct {
+		objMap[objNum] = struct {
 			streamObjNum int
 			index        int
 		}{streamObjNum: streamObjNum, index: i}
 	}
+	firstOffset := header.Len()
 
 	// Combine header and data
 	var streamData bytes.Buffer
-	streamData.Write(headerBytes)
-	streamData.WriteByte(' ') // Space between header and data
-	streamData.Write(dataBuilder.Bytes())
+	streamData.Write(header.Bytes())
+	streamData.Write(data.Bytes())
 
 	// Compress stream data
 	var compressed bytes.Buffer
-- 
2.43.0


From 5bbda7843be2bfddd8eb503923bcd1eed4ee3d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:34 +0000
Subject: [PATCH 70/76] fix: ParseEncryptionDictionary: a reference is not
 taken for the key length

---
 core/encrypt/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/encrypt/parser.go b/core/encrypt/parser.go
index 76a0883..42f4c05 100644
--- a/core/encrypt/parser.go
+++ b/core/encrypt/parser.go
@@ -119,13 +119,16 @@ func ParseEncryptionDictionary(pdfBytes []byte, verbose bool) (*types.PDFEncrypt
 
 	// Parse /Length (key length in bits) - look for top-level /Length
 	// Note: There may be nested /Length in /CF dictionaries, we want the top-level one
-	lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
+	lengthPattern := regexp.MustCompile(`/Length\s+(\d+)(\s+\d+\s+R)?`)
 	matches = lengthPattern.FindAllStringSubmatch(dictContent, -1)
 	for _, match := range matches {
 		matchPos := strings.Index(dictContent, match[0])
 		beforeMatch := dictContent[:matchPos]
 		// Top-level /Length should not be inside /CF
 		if !strings.Contains(beforeMatch[max(0, len(beforeMatch)-50):], "/CF") {
+			if match[2] != "" {
+				return nil, types.NewPDFError(types.ErrCodeUnsupportedCrypto, "unsupported key length: a reference")
+			}
 			keyBits, _ := strconv.Atoi(match[1])
 			if keyBits > 0 {
 				encrypt.KeyLength = keyBits / 8
-- 
2.43.0


From b699c7f5640b70794ced7a9717731091c5b22c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:34 +0000
Subject: [PATCH 71/76] fix: a stream length given by reference is never taken
 for the number

---
 content/extract/images.go        |  4 ++--
 core/parse/object_stream.go      | 25 ++++++++++++++++++-------
 forms/acroform/stream_rebuild.go | 10 +++++++---
 forms/xfa/xfa.go                 |  4 ++--
 forms/xfa/xfa_utils.go           |  4 ++--
 5 files changed, 31 insertions(+), 16 deletions(-)

diff --git a/content/extract/images.go b/content/extract/images.go
index 9766cff..84693c1 100644
--- a/content/extract/images.go
+++ b/content/extract/images.go
@@ -79,11 +79,11 @@ func extractImageData(imageObjNum int, pdf *parse.PDF, verbose bool) (*types.Ima
 	if streamIdx != -1 {
 		// Get /Length from dictionary for exact stream size
 		dictPart := imageObjBytes[:streamIdx]
-		lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
+		lengthPattern := regexp.MustCompile(`/Length\s+(\d+)(\s+\d+\s+R)?`)
 		lengthMatch := lengthPattern.FindSubmatch(dictPart)
 
 		var streamLength int
-		if lengthMatch != nil {
+		if lengthMatch != nil && lengthMatch[2] == nil { // not a reference
 			streamLength, _ = strconv.Atoi(string(lengthMatch[1]))
 		}
 
diff --git a/core/parse/object_stream.go b/core/parse/object_stream.go
index fef590e..e716430 100644
--- a/core/parse/object_stream.go
+++ b/core/parse/object_stream.go
@@ -251,12 +251,10 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 	dictContent := string(objSection[dictStart : dictStart+dictEnd+2])
 
 	// Get /Length from dictionary
-	lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
 	lengthMatch := lengthPattern.FindStringSubmatch(dictContent)
 	if lengthMatch == nil {
 		return nil, fmt.Errorf("/Length not found in object stream dictionary")
 	}
-	streamLength, _ := strconv.Atoi(lengthMatch[1])
 
 	// Find stream keyword
 	streamKeyword := bytes.Index(objSection[dictStart:], []byte("stream"))
@@ -274,12 +272,25 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 		streamDataStart++
 	}
 
-	// Use /Length to get exact stream data
-	if streamLength < 0 || streamLength > len(objSection)-streamDataStart {
-		return nil, fmt.Errorf("stream length %d exceeds available data", streamLength)
-	}
+	var streamData []byte
+	if lengthMatch[2] == "" {
+		// Use /Length to get exact stream data
+		streamLength, _ := strconv.Atoi(lengthMatch[1])
+		if streamLength < 0 || streamLength > len(objSection)-streamDataStart {
+			return nil, fmt.Errorf("stream length %d exceeds available data", streamLength)
+		}
 
-	streamData := objSection[streamDataStart : streamDataStart+streamLength]
+		streamData = objSection[streamDataStart : streamDataStart+streamLength]
+	} else {
+		// The length is a reference: the data ends at the endstream keyword
+		endstreamPos := bytes.Index(objSection[streamDataStart:], []byte("endstream"))
+		if endstreamPos == -1 {
+			return nil, fmt.Errorf("endstream not found in object stream")
+		}
+		streamData = objSection[streamDataStart : streamDataStart+endstreamPos]
+		streamData = bytes.TrimSuffix(streamData, []byte("\n"))
+		streamData = bytes.TrimSuffix(streamData, []byte("\r"))
+	}
 
 	// Decrypt stream data if needed (object streams ARE encrypted)
 	if encryptInfo != nil {
diff --git a/forms/acroform/stream_rebuild.go b/forms/acroform/stream_rebuild.go
index b4ab1e5..2258236 100644
--- a/forms/acroform/stream_rebuild.go
+++ b/forms/acroform/stream_rebuild.go
@@ -148,7 +148,11 @@ func parseObjectStream(streamObjData []byte) (map[string]interface{}, []byte, er
 	// Get stream length
 	length, ok := dict["/Length"].(int)
 	if !ok {
-		return nil, nil, fmt.Errorf("/Length not found or invalid")
+		// Not given, or a reference: the data ends at the endstream keyword
+		length = bytes.Index(streamObjData[streamDataStart:], []byte("endstream"))
+		if length == -1 {
+			return nil, nil, fmt.Errorf("endstream not found")
+		}
 	}
 
 	if length > len(streamObjData)-streamDataStart {
@@ -192,8 +196,8 @@ func parseStreamDict(dictStr string) map[string]interface{} {
 		}
 	}
 
-	// Extract /Length
-	if lenMatch := regexp.MustCompile(`/Length\s+(\d+)`).FindStringSubmatch(dictStr); lenMatch != nil {
+	// Extract /Length, unless it is a reference
+	if lenMatch := regexp.MustCompile(`/Length\s+(\d+)(\s+\d+\s+R)?`).FindStringSubmatch(dictStr); lenMatch != nil && lenMatch[2] == "" {
 		if length, err := strconv.Atoi(lenMatch[1]); err == nil {
 			dict["/Length"] = length
 		}
diff --git a/forms/xfa/xfa.go b/forms/xfa/xfa.go
index 474d98c..99d4890 100644
--- a/forms/xfa/xfa.go
+++ b/forms/xfa/xfa.go
@@ -41,7 +41,7 @@ func extractStreamDataFromObject(objData []byte, objNum int, encryptInfo *types.
 	// Get /Length from dictionary if available
 	dictEnd := streamIdx
 	dictStr := string(objData[:dictEnd])
-	lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
+	lengthPattern := regexp.MustCompile(`/Length\s+(\d+)(\s+\d+\s+R)?`)
 	lengthMatch := lengthPattern.FindStringSubmatch(dictStr)
 
 	// Skip "stream" and EOL
@@ -57,7 +57,7 @@ func extractStreamDataFromObject(objData []byte, objNum int, encryptInfo *types.
 	}
 
 	var streamData []byte
-	if lengthMatch != nil {
+	if lengthMatch != nil && lengthMatch[2] == "" { // not a reference
 		length, _ := strconv.Atoi(lengthMatch[1])
 		if length <= len(objData)-dataStart {
 			streamData = objData[dataStart : dataStart+length]
diff --git a/forms/xfa/xfa_utils.go b/forms/xfa/xfa_utils.go
index de9a4d0..1fa1231 100644
--- a/forms/xfa/xfa_utils.go
+++ b/forms/xfa/xfa_utils.go
@@ -741,11 +741,11 @@ func extractStreamFromPDF(pdfBytes []byte, streamObjNum int, encryptInfo *types.
 
 	// Get /Length from dictionary (between dataStart and streamKeywordPos)
 	dictContent := string(objContent[dataStart:streamKeywordPos])
-	lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
+	lengthPattern := regexp.MustCompile(`/Length\s+(\d+)(\s+\d+\s+R)?`)
 	lengthMatch := lengthPattern.FindStringSubmatch(dictContent)
 
 	var streamLength int
-	if lengthMatch != nil {
+	if lengthMatch != nil && lengthMatch[2] == "" { // not a reference
 		streamLength, _ = strconv.Atoi(lengthMatch[1])
 	}
 
-- 
2.43.0


From 92f9456d5e7b216ffc7e7723e755941271f61180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:18 +0000
Subject: [PATCH 72/76] fix: extractStreamFromPDF: the line end before
 endstream is not part of the encrypted data

---
 forms/xfa/xfa_utils.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/forms/xfa/xfa_utils.go b/forms/xfa/xfa_utils.go
index 1fa1231..c5da6a1 100644
--- a/forms/xfa/xfa_utils.go
+++ b/forms/xfa/xfa_utils.go
@@ -772,6 +772,9 @@ func extractStreamFromPDF(pdfBytes []byte, streamObjNum int, encryptInfo *types.
 			return nil, 0, fmt.Errorf("endstream not found for object %d", streamObjNum)
 		}
 		streamContent = objContent[streamDataStart : streamDataStart+endstreamPos]
+		// The line end before the keyword is not part of the data
+		streamContent = bytes.TrimSuffix(streamContent, []byte("\n"))
+		streamContent = bytes.TrimSuffix(streamContent, []byte("\r"))
 	}
 
 	streamDataEnd := streamDataStart + len(streamContent)
-- 
2.43.0


From 45bea576477deb62bd069a7c75f2e07a65f405af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:47 +0000
Subject: [PATCH 73/76] fix: page content and its resources begin behind
 exactly one line end

A stream whose data begins with a line feed (run-length data whose first
run has eleven bytes, for example) lost its first byte.
---
 content/extract/pages.go     | 4 ++--
 content/extract/resources.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/content/extract/pages.go b/content/extract/pages.go
index c2ef30d..22f8823 100644
--- a/content/extract/pages.go
+++ b/content/extract/pages.go
@@ -266,8 +266,8 @@ func extractPage(pdfBytes []byte, pdf *parse.PDF, pageObjNum int, pageStr string
 
 					// Extract stream data
 					dataStart := streamIdx + 6 // Skip "stream"
-					// Skip EOL after "stream"
-					if dataStart < len(contentStr) && (contentStr[dataStart] == '\r' || contentStr[dataStart] == '\n') {
+					// Skip exactly one EOL after "stream"
+					if dataStart < len(contentStr) && contentStr[dataStart] == '\r' {
 						dataStart++
 					}
 					if dataStart < len(contentStr) && contentStr[dataStart] == '\n' {
diff --git a/content/extract/resources.go b/content/extract/resources.go
index 81e7cc3..6696ba1 100644
--- a/content/extract/resources.go
+++ b/content/extract/resources.go
@@ -578,8 +578,8 @@ func extractStreamData(objNum int, pdf *parse.PDF, verbose bool) string {
 
 	// Extract stream data
 	dataStart := streamIdx + 6 // Skip "stream"
-	// Skip EOL after "stream"
-	if dataStart < len(objStr) && (objStr[dataStart] == '\r' || objStr[dataStart] == '\n') {
+	// Skip exactly one EOL after "stream"
+	if dataStart < len(objStr) && objStr[dataStart] == '\r' {
 		dataStart++
 	}
 	if dataStart < len(objStr) && objStr[dataStart] == '\n' {
-- 
2.43.0


From 30ab703fb1d604ea9f65326e55fedc85f5bb6fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:42:17 +0000
Subject: [PATCH 74/76] fix: strings, arrays and names are read whole and
 unescaped in one pass

---
 content/extract/annotations.go    |  10 +-
 content/extract/bookmarks.go      |   4 +-
 content/extract/content_stream.go |  11 +-
 content/extract/metadata.go       |  66 ++++------
 content/extract/pages.go          |  27 +---
 internal/pdftext/read.go          | 211 ++++++++++++++++++++++++++++++
 6 files changed, 253 insertions(+), 76 deletions(-)
 create mode 100644 internal/pdftext/read.go

diff --git a/content/extract/annotations.go b/content/extract/annotations.go
index 5a93c3d..f208110 100644
--- a/content/extract/annotations.go
+++ b/content/extract/annotations.go
@@ -119,19 +119,19 @@ func extractAnnotation(annotObjNum int, pdf *parse.PDF, pageNum int, verbose boo
 	contents := extractDictValue(annotStr, "/Contents")
 	if contents != "" {
 		// Unescape PDF string
-		annotation.Contents = unescapePDFString(contents)
+		annotation.Contents = textString(contents)
 	}
 
 	// Extract Title
 	title := extractDictValue(annotStr, "/T")
 	if title != "" {
-		annotation.Title = unescapePDFString(title)
+		annotation.Title = textString(title)
 	}
 
 	// Extract Subject
 	subject := extractDictValue(annotStr, "/Subj")
 	if subject != "" {
-		annotation.Subject = unescapePDFString(subject)
+		annotation.Subject = textString(subject)
 	}
 
 	// Extract Color
@@ -176,7 +176,7 @@ func extractAnnotation(annotObjNum int, pdf *parse.PDF, pageNum int, verbose boo
 			// URI might be a string or a reference to a URI object
 			if len(uriRef) >= 2 && strings.HasPrefix(uriRef, "(") {
 				// It's a string
-				annotation.URI = unescapePDFString(uriRef[1 : len(uriRef)-1])
+				annotation.URI = textString(uriRef)
 			} else {
 				// It's a reference - get the URI object
 				uriObjNum, err := parseObjectRef(uriRef)
@@ -186,7 +186,7 @@ func extractAnnotation(annotObjNum int, pdf *parse.PDF, pageNum int, verbose boo
 						uriStr := string(uriObj)
 						uriValue := extractDictValue(uriStr, "/URI")
 						if len(uriValue) >= 2 {
-							annotation.URI = unescapePDFString(uriValue[1 : len(uriValue)-1])
+							annotation.URI = textString(uriValue)
 						}
 					}
 				}
diff --git a/content/extract/bookmarks.go b/content/extract/bookmarks.go
index 3bf07f5..4139bf9 100644
--- a/content/extract/bookmarks.go
+++ b/content/extract/bookmarks.go
@@ -81,7 +81,7 @@ func extractBookmarksRecursive(pdf *parse.PDF, itemRef string, visited map[int]b
 	// Extract title
 	title := extractDictValue(itemStr, "/Title")
 	if title != "" {
-		title = unescapePDFString(title)
+		title = textString(title)
 	}
 
 	// Extract destination or action
@@ -97,7 +97,7 @@ func extractBookmarksRecursive(pdf *parse.PDF, itemRef string, visited map[int]b
 				if err == nil {
 					uri = extractDictValue(string(actionObj), "/URI")
 					if uri != "" {
-						uri = unescapePDFString(uri)
+						uri = textString(uri)
 					}
 				}
 			}
diff --git a/content/extract/content_stream.go b/content/extract/content_stream.go
index f3d7817..2994982 100644
--- a/content/extract/content_stream.go
+++ b/content/extract/content_stream.go
@@ -6,6 +6,7 @@ import (
 	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/internal/pdftext"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -127,9 +128,8 @@ func parseContentStreamWithDecoders(contentStr string, pdf *parse.PDF, pageNum i
 		}
 
 		// Show text (Tj operator) - literal string or hex string
-		if match := regexp.MustCompile(`^\(([^)]*)\)\s+Tj`).FindStringSubmatch(line); match != nil {
+		if rawText, length := pdftext.Literal(line); length > 0 && regexp.MustCompile(`^\s*Tj`).MatchString(line[length:]) {
 			// Literal string
-			rawText := unescapePDFString(match[1])
 			text := decodeTextWithFont(rawText, textState.decoder, false)
 			textElement := createTextElement(text, textState)
 			textElements = append(textElements, textElement)
@@ -144,8 +144,7 @@ func parseContentStreamWithDecoders(contentStr string, pdf *parse.PDF, pageNum i
 		}
 
 		// Show text next line (') - literal string or hex string
-		if match := regexp.MustCompile(`^\(([^)]*)\)\s+'`).FindStringSubmatch(line); match != nil {
-			rawText := unescapePDFString(match[1])
+		if rawText, length := pdftext.Literal(line); length > 0 && regexp.MustCompile(`^\s*'`).MatchString(line[length:]) {
 			text := decodeTextWithFont(rawText, textState.decoder, false)
 			textElement := createTextElement(text, textState)
 			textElements = append(textElements, textElement)
@@ -162,8 +161,8 @@ func parseContentStreamWithDecoders(contentStr string, pdf *parse.PDF, pageNum i
 		}
 
 		// Show text array (TJ operator)
-		if match := regexp.MustCompile(`^\[([^\]]+)\]\s+TJ`).FindStringSubmatch(line); match != nil {
-			text := parseTextArrayWithDecoder(match[1], textState.decoder)
+		if array, length := pdftext.Array(line); length > 0 && regexp.MustCompile(`^\s*TJ`).MatchString(line[length:]) {
+			text := parseTextArrayWithDecoder(array, textState.decoder)
 			textElement := createTextElement(text, textState)
 			textElements = append(textElements, textElement)
 			continue
diff --git a/content/extract/metadata.go b/content/extract/metadata.go
index 545f760..46afec1 100644
--- a/content/extract/metadata.go
+++ b/content/extract/metadata.go
@@ -8,6 +8,7 @@ import (
 	"time"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/internal/pdftext"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -57,41 +58,26 @@ func parseObjectRef(ref string) (int, error) {
 // parseInfoDict parses a PDF Info dictionary
 func parseInfoDict(infoStr string, metadata *types.DocumentMetadata, verbose bool) {
 	// Extract common fields
-	patterns := map[string]*regexp.Regexp{
-		"title":         regexp.MustCompile(`/Title\s*\(([^)]*)\)`),
-		"author":        regexp.MustCompile(`/Author\s*\(([^)]*)\)`),
-		"subject":       regexp.MustCompile(`/Subject\s*\(([^)]*)\)`),
-		"keywords":      regexp.MustCompile(`/Keywords\s*\(([^)]*)\)`),
-		"creator":       regexp.MustCompile(`/Creator\s*\(([^)]*)\)`),
-		"producer":      regexp.MustCompile(`/Producer\s*\(([^)]*)\)`),
-		"creation_date": regexp.MustCompile(`/CreationDate\s*\(([^)]*)\)`),
-		"mod_date":      regexp.MustCompile(`/ModDate\s*\(([^)]*)\)`),
-	}
-
 	fieldMap := map[string]*string{
-		"title":         &metadata.Title,
-		"author":        &metadata.Author,
-		"subject":       &metadata.Subject,
-		"keywords":      &metadata.Keywords,
-		"creator":       &metadata.Creator,
-		"producer":      &metadata.Producer,
-		"creation_date": &metadata.CreationDate,
-		"mod_date":      &metadata.ModDate,
+		"/Title":        &metadata.Title,
+		"/Author":       &metadata.Author,
+		"/Subject":      &metadata.Subject,
+		"/Keywords":     &metadata.Keywords,
+		"/Creator":      &metadata.Creator,
+		"/Producer":     &metadata.Producer,
+		"/CreationDate": &metadata.CreationDate,
+		"/ModDate":      &metadata.ModDate,
 	}
 
-	for key, pattern := range patterns {
-		match := pattern.FindStringSubmatch(infoStr)
-		if len(match) > 1 {
-			value := unescapePDFString(match[1])
-			if fieldPtr, ok := fieldMap[key]; ok {
-				*fieldPtr = value
-			}
+	for key, fieldPtr := range fieldMap {
+		if _, value, _, ok := pdftext.Value(infoStr, key); ok && strings.HasPrefix(value, "(") {
+			*fieldPtr = textString(value)
 		}
 	}
 
 	// Extract custom fields (any field that's not a standard field)
 	// Pattern: /FieldName (value)
-	customPattern := regexp.MustCompile(`/([A-Za-z0-9_]+)\s*\(([^)]*)\)`)
+	customPattern := regexp.MustCompile(`/([A-Za-z0-9_]+)\s*\(`)
 	standardFields := map[string]bool{
 		"Title":        true,
 		"Author":       true,
@@ -103,11 +89,10 @@ func parseInfoDict(infoStr string, metadata *types.DocumentMetadata, verbose boo
 		"ModDate":      true,
 	}
 
-	allMatches := customPattern.FindAllStringSubmatch(infoStr, -1)
-	for _, match := range allMatches {
-		if len(match) >= 3 {
-			fieldName := match[1]
-			fieldValue := unescapePDFString(match[2])
+	for _, match := range customPattern.FindAllStringSubmatch(infoStr, -1) {
+		fieldName := match[1]
+		if _, value, _, ok := pdftext.Value(infoStr, "/"+fieldName); ok && strings.HasPrefix(value, "(") {
+			fieldValue := textString(value)
 
 			// Skip if it's a standard field (already extracted)
 			if !standardFields[fieldName] {
@@ -126,16 +111,15 @@ func extractMetadataFromBytes(pdfBytes []byte, metadata *types.DocumentMetadata,
 	// In practice, Info dict parsing should work
 }
 
-// unescapePDFString unescapes a PDF string literal
+// unescapePDFString unescapes the content of a PDF string literal
 func unescapePDFString(s string) string {
-	// Handle basic PDF string escaping
-	s = strings.ReplaceAll(s, "\\n", "\n")
-	s = strings.ReplaceAll(s, "\\r", "\r")
-	s = strings.ReplaceAll(s, "\\t", "\t")
-	s = strings.ReplaceAll(s, "\\(", "(")
-	s = strings.ReplaceAll(s, "\\)", ")")
-	s = strings.ReplaceAll(s, "\\\\", "\\")
-	return s
+	return pdftext.Unescape(s)
+}
+
+// textString returns the text of a PDF string literal
+func textString(s string) string {
+	value, _ := pdftext.Literal(s)
+	return pdftext.Text(value)
 }
 
 // parsePDFDate parses a PDF date string (D:YYYYMMDDHHmmSSOHH'mm)
diff --git a/content/extract/pages.go b/content/extract/pages.go
index 22f8823..c595075 100644
--- a/content/extract/pages.go
+++ b/content/extract/pages.go
@@ -7,6 +7,7 @@ import (
 	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/internal/pdftext"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -313,29 +314,11 @@ func extractPage(pdfBytes []byte, pdf *parse.PDF, pageObjNum int, pageStr string
 // Helper functions for parsing PDF dictionaries and arrays
 
 func extractDictValue(dictStr, key string) string {
-	// Try to match simple value with space (e.g., "/Pages 2 0 R")
-	pattern := regexp.MustCompile(regexp.QuoteMeta(key) + `\s+([^\s<>]+)`)
-	match := pattern.FindStringSubmatch(dictStr)
-	if len(match) > 1 {
-		return match[1]
-	}
-
-	// Try to match value without space (e.g., "/Subtype/Type1")
-	// This handles PDF dictionaries where values immediately follow keys
-	noSpacePattern := regexp.MustCompile(regexp.QuoteMeta(key) + `/([^/\s<>]+)`)
-	noSpaceMatch := noSpacePattern.FindStringSubmatch(dictStr)
-	if len(noSpaceMatch) > 1 {
-		return "/" + noSpaceMatch[1]
+	_, value, _, ok := pdftext.Value(dictStr, key)
+	if !ok || strings.HasPrefix(value, "<") {
+		return ""
 	}
-
-	// Try to match array value (e.g., "/Kids[4 0 R ]")
-	arrayPattern := regexp.MustCompile(regexp.QuoteMeta(key) + `\s*\[([^\]]+)\]`)
-	arrayMatch := arrayPattern.FindStringSubmatch(dictStr)
-	if len(arrayMatch) > 1 {
-		return "[" + arrayMatch[1] + "]"
-	}
-
-	return ""
+	return value
 }
 
 func extractArrayValue(dictStr, key string) []float64 {
diff --git a/internal/pdftext/read.go b/internal/pdftext/read.go
new file mode 100644
index 0000000..b4df6e9
--- /dev/null
+++ b/internal/pdftext/read.go
@@ -0,0 +1,211 @@
+package pdftext
+
+import (
+	"regexp"
+	"strings"
+	"unicode/utf16"
+)
+
+var reference = regexp.MustCompile(`^\d+\s+\d+\s+R`)
+
+// Literal returns the bytes of the literal string s begins with, and the length the string takes up in s,
+// or 0 if s does not begin with a complete literal string.
+func Literal(s string) (string, int) {
+	n := literalEnd(s)
+	if n < 2 || n > len(s) {
+		return "", 0
+	}
+	return Unescape(s[1 : n-1]), n
+}
+
+// Array returns the content of the array s begins with, and the length the array takes up in s,
+// or 0 if s does not begin with a complete array.
+func Array(s string) (string, int) {
+	if !strings.HasPrefix(s, "[") {
+		return "", 0
+	}
+	depth := 0
+	for i := 0; i < len(s); i++ {
+		switch s[i] {
+		case '(':
+			n := literalEnd(s[i:])
+			if n == 0 {
+				return "", 0
+			}
+			i += n - 1
+		case '[':
+			depth++
+		case ']':
+			depth--
+			if depth == 0 && i > 0 {
+				return s[1:i], i + 1
+			}
+		}
+	}
+	return "", 0
+}
+
+// literalEnd returns the length of the literal string s begins with
+func literalEnd(s string) int {
+	if !strings.HasPrefix(s, "(") {
+		return 0
+	}
+	depth := 0
+	for i := 0; i < len(s); i++ {
+		switch s[i] {
+		case '\\':
+			i++ // Skip the escaped character
+		case '(':
+			depth++
+		case ')':
+			depth--
+			if depth == 0 {
+				return i + 1
+			}
+		}
+	}
+	return 0
+}
+
+// Unescape returns the bytes the content of a literal string stands for
+func Unescape(s string) string {
+	if !strings.Contains(s, "\\") {
+		return s
+	}
+	var result strings.Builder
+	for i := 0; i < len(s); i++ {
+		if s[i] != '\\' || i+1 == len(s) {
+			result.WriteByte(s[i])
+			continue
+		}
+		i++
+		switch c := s[i]; c {
+		case 'n':
+			result.WriteByte('\n')
+		case 'r':
+			result.WriteByte('\r')
+		case 't':
+			result.WriteByte('\t')
+		case 'b':
+			result.WriteByte('\b')
+		case 'f':
+			result.WriteByte('\f')
+		case '\r': // A line that goes on
+			if i+1 < len(s) && s[i+1] == '\n' {
+				i++
+			}
+		case '\n':
+		case '0', '1', '2', '3', '4', '5', '6', '7':
+			code := 0
+			for n := 0; n < 3 && i < len(s) && s[i] >= '0' && s[i] <= '7'; n++ {
+				code = code*8 + int(s[i]-'0')
+				i++
+			}
+			i--
+			result.WriteByte(byte(code))
+		default:
+			result.WriteByte(c)
+		}
+	}
+	return result.String()
+}
+
+// Text returns the characters the bytes of a text string stand for
+func Text(s string) string {
+	if !strings.HasPrefix(s, "\xFE\xFF") {
+		return s
+	}
+	s = s[2:]
+	units := make([]uint16, 0, len(s)/2)
+	for i := 0; i+1 < len(s); i += 2 {
+		units = append(units, uint16(s[i])<<8|uint16(s[i+1]))
+	}
+	return string(utf16.Decode(units))
+}
+
+// Value returns the value of the first key of that name in dict, and what comes before and after it
+func Value(dict, key string) (before, value, after string, ok bool) {
+	for i := 0; i < len(dict); i++ {
+		if !strings.HasPrefix(dict[i:], key) {
+			continue
+		}
+		keyEnd := i + len(key)
+		start := keyEnd
+		for start < len(dict) && isSpace(dict[start]) {
+			start++
+		}
+		if start >= len(dict) || (start == keyEnd && isRegular(dict[start])) {
+			continue // Another key that begins the same
+		}
+		rest := dict[start:]
+		n := valueEnd(rest)
+		if n <= 0 || n > len(rest) || rest[:n] == key {
+			continue // Not a key, but a value
+		}
+		return dict[:start], rest[:n], rest[n:], true
+	}
+	return "", "", "", false
+}
+
+// valueEnd returns the length of the value s begins with
+func valueEnd(s string) int {
+	switch {
+	case s[0] == '(':
+		return literalEnd(s)
+	case s[0] == '[':
+		_, n := Array(s)
+		return n
+	case strings.HasPrefix(s, "<<"):
+		return dictEnd(s)
+	case s[0] == '<':
+		return strings.Index(s, ">") + 1
+	case s[0] == '/':
+		return 1 + tokenEnd(s[1:])
+	}
+	n := tokenEnd(s)
+	if m := reference.FindStringIndex(s); m != nil && (m[1] == len(s) || !isRegular(s[m[1]])) {
+		return m[1]
+	}
+	return n
+}
+
+// dictEnd returns the length of the dictionary s begins with
+func dictEnd(s string) int {
+	depth := 0
+	for i := 0; i < len(s); i++ {
+		switch {
+		case s[i] == '(':
+			n := literalEnd(s[i:])
+			if n == 0 {
+				return 0
+			}
+			i += n - 1
+		case strings.HasPrefix(s[i:], "<<"):
+			depth++
+			i++
+		case strings.HasPrefix(s[i:], ">>"):
+			depth--
+			i++
+			if depth == 0 {
+				return i + 1
+			}
+		}
+	}
+	return 0
+}
+
+func tokenEnd(s string) int {
+	n := 0
+	for n < len(s) && isRegular(s[n]) {
+		n++
+	}
+	return n
+}
+
+func isSpace(c byte) bool {
+	return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' || c == 0
+}
+
+func isRegular(c byte) bool {
+	return !isSpace(c) && !strings.ContainsRune("()<>[]{}/%", rune(c))
+}
-- 
2.43.0


From 52830617f405e778d8f788d5f60b27eea72d64d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:42:17 +0000
Subject: [PATCH 75/76] fix: setDictValue replaces the whole value and nothing
 behind it

---
 core/manipulate/manipulate.go | 111 +++-------------------------------
 1 file changed, 7 insertions(+), 104 deletions(-)

diff --git a/core/manipulate/manipulate.go b/core/manipulate/manipulate.go
index 56e8bc5..e8545fc 100644
--- a/core/manipulate/manipulate.go
+++ b/core/manipulate/manipulate.go
@@ -10,6 +10,7 @@ import (
 	"github.com/benedoc-inc/pdfer/core/encrypt"
 	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/core/write"
+	"github.com/benedoc-inc/pdfer/internal/pdftext"
 )
 
 // PDFManipulator provides functions to modify existing PDFs
@@ -133,116 +134,18 @@ func parseObjectRef(ref string) (int, error) {
 
 // extractDictValue extracts a value from a PDF dictionary string
 func extractDictValue(dictStr, key string) string {
-	keyIdx := strings.Index(dictStr, key)
-	if keyIdx == -1 {
+	_, value, _, ok := pdftext.Value(dictStr, key)
+	if !ok || strings.HasPrefix(value, "<") {
 		return ""
 	}
-
-	// Check if the value after the key starts with '[' (array)
-	valueStart := keyIdx + len(key)
-	// Skip whitespace
-	for valueStart < len(dictStr) && (dictStr[valueStart] == ' ' || dictStr[valueStart] == '\t' || dictStr[valueStart] == '\n' || dictStr[valueStart] == '\r') {
-		valueStart++
-	}
-
-	if valueStart < len(dictStr) && dictStr[valueStart] == '[' {
-		// Array value - find matching closing bracket
-		arrayStart := valueStart
-		depth := 0
-		arrayEnd := arrayStart
-		for i := arrayStart; i < len(dictStr); i++ {
-			if dictStr[i] == '[' {
-				depth++
-			} else if dictStr[i] == ']' {
-				depth--
-				if depth == 0 {
-					arrayEnd = i + 1
-					break
-				}
-			}
-		}
-		if arrayEnd > arrayStart {
-			return dictStr[arrayStart:arrayEnd]
-		}
-	}
-
-	// Try to match simple value with space (e.g., "/Pages 2 0 R")
-	pattern := regexp.MustCompile(regexp.QuoteMeta(key) + `\s+([^\s<>]+)`)
-	match := pattern.FindStringSubmatch(dictStr)
-	if len(match) > 1 {
-		return match[1]
-	}
-
-	// Try to match value without space (e.g., "/Subtype/Type1")
-	noSpacePattern := regexp.MustCompile(regexp.QuoteMeta(key) + `/([^/\s<>]+)`)
-	noSpaceMatch := noSpacePattern.FindStringSubmatch(dictStr)
-	if len(noSpaceMatch) > 1 {
-		return "/" + noSpaceMatch[1]
-	}
-
-	return ""
+	return value
 }
 
 // setDictValue sets or updates a value in a PDF dictionary string
 func setDictValue(dictStr, key, value string) string {
-	// Check if key already exists
-	existingValue := extractDictValue(dictStr, key)
-	if existingValue != "" {
-		// Replace existing value
-		// Try to match and replace with space (e.g., "/Count 3" -> "/Count 2")
-		// Use word boundary or whitespace to ensure we match the full value
-		pattern := regexp.MustCompile(regexp.QuoteMeta(key) + `\s+([^\s<>]+)`)
-		if pattern.MatchString(dictStr) {
-			replaced := pattern.ReplaceAllLiteralString(dictStr, key+" "+value)
-			// Verify the replacement worked
-			newValue := extractDictValue(replaced, key)
-			if newValue == value {
-				return replaced
-			}
-		}
-		// Try without space
-		noSpacePattern := regexp.MustCompile(regexp.QuoteMeta(key) + `/([^/\s<>]+)`)
-		if noSpacePattern.MatchString(dictStr) {
-			return noSpacePattern.ReplaceAllLiteralString(dictStr, key+"/"+strings.TrimPrefix(value, "/"))
-		}
-		// Try array value - need to handle brackets properly
-		keyIdx := strings.Index(dictStr, key)
-		if keyIdx != -1 {
-			valueStart := keyIdx + len(key)
-			// Skip whitespace
-			for valueStart < len(dictStr) && (dictStr[valueStart] == ' ' || dictStr[valueStart] == '\t' || dictStr[valueStart] == '\n' || dictStr[valueStart] == '\r') {
-				valueStart++
-			}
-			if valueStart < len(dictStr) && dictStr[valueStart] == '[' {
-				// Find matching closing bracket
-				arrayStart := valueStart
-				depth := 0
-				arrayEnd := arrayStart
-				for i := arrayStart; i < len(dictStr); i++ {
-					if dictStr[i] == '[' {
-						depth++
-					} else if dictStr[i] == ']' {
-						depth--
-						if depth == 0 {
-							arrayEnd = i + 1
-							break
-						}
-					}
-				}
-				if arrayEnd > arrayStart {
-					// Replace the array - preserve original spacing (no space after key if original had none)
-					// Check if there was a space after the key in the original
-					originalValueStart := keyIdx + len(key)
-					hadSpace := originalValueStart < len(dictStr) && (dictStr[originalValueStart] == ' ' || dictStr[originalValueStart] == '\t' || dictStr[originalValueStart] == '\n' || dictStr[originalValueStart] == '\r')
-					if hadSpace {
-						return dictStr[:keyIdx] + key + " " + value + " " + dictStr[arrayEnd:]
-					} else {
-						// No space in original, don't add one
-						return dictStr[:keyIdx] + key + value + " " + dictStr[arrayEnd:]
-					}
-				}
-			}
-		}
+	// Replace the existing value, if there is one
+	if before, _, after, ok := pdftext.Value(dictStr, key); ok {
+		return strings.TrimRight(before, " ") + " " + value + " " + after
 	}
 
 	// Add new key-value pair before closing >>
-- 
2.43.0


From 2be24f0e17faf8d080f334963f151d120c3906ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:44:40 +0000
Subject: [PATCH 76/76] fix: names, xref streams and encryption entries are
 found whatever white space separates them

---
 content/extract/pages.go  |  9 +++------
 core/encrypt/parser.go    |  4 ++--
 core/parse/parser.go      |  5 +++--
 core/write/bookmarks.go   |  9 +--------
 forms/acroform/actions.go | 25 +++++++------------------
 5 files changed, 16 insertions(+), 36 deletions(-)

diff --git a/content/extract/pages.go b/content/extract/pages.go
index c595075..57aae17 100644
--- a/content/extract/pages.go
+++ b/content/extract/pages.go
@@ -86,13 +86,10 @@ func extractPagesFromTree(pdfBytes []byte, pdf *parse.PDF, pagesObjNum int, visi
 	// Look for /Type/Page or /Type/Pages in the dictionary
 	// Need to check for exact match, not substring (e.g., /Type/Page should not match /Type/Pages)
 	pageType := ""
-	if strings.Contains(pagesStr, "/Type/Pages") || strings.Contains(pagesStr, "/Type /Pages") {
+	if regexp.MustCompile(`/Type\s*/Pages\b`).MatchString(pagesStr) {
 		pageType = "/Pages"
-	} else if strings.Contains(pagesStr, "/Type/Page") || strings.Contains(pagesStr, "/Type /Page") {
-		// Make sure it's not /Type/Pages
-		if !strings.Contains(pagesStr, "/Type/Pages") && !strings.Contains(pagesStr, "/Type /Pages") {
-			pageType = "/Page"
-		}
+	} else if regexp.MustCompile(`/Type\s*/Page\b`).MatchString(pagesStr) {
+		pageType = "/Page"
 	}
 	if verbose {
 		fmt.Printf("Type: %s (from string check)\n", pageType)
diff --git a/core/encrypt/parser.go b/core/encrypt/parser.go
index 42f4c05..5353032 100644
--- a/core/encrypt/parser.go
+++ b/core/encrypt/parser.go
@@ -83,7 +83,7 @@ func ParseEncryptionDictionary(pdfBytes []byte, verbose bool) (*types.PDFEncrypt
 	encrypt := &types.PDFEncryption{}
 
 	// Parse /Filter
-	filterPattern := regexp.MustCompile(`/Filter\s+/(\w+)`)
+	filterPattern := regexp.MustCompile(`/Filter\s*/(\w+)`)
 	if match := filterPattern.FindStringSubmatch(dictContent); match != nil {
 		encrypt.Filter = match[1]
 	}
@@ -229,7 +229,7 @@ func ParseEncryptionDictionary(pdfBytes []byte, verbose bool) (*types.PDFEncrypt
 	}
 
 	// Parse /EncryptMetadata
-	if strings.Contains(dictContent, "/EncryptMetadata false") {
+	if regexp.MustCompile(`/EncryptMetadata\s+false\b`).MatchString(dictContent) {
 		encrypt.EncryptMetadata = false
 	} else {
 		encrypt.EncryptMetadata = true
diff --git a/core/parse/parser.go b/core/parse/parser.go
index cfc0d22..5ef34fa 100644
--- a/core/parse/parser.go
+++ b/core/parse/parser.go
@@ -167,8 +167,9 @@ func ParseCrossReferenceTableWithEncryption(pdfBytes []byte, startXRef int64, en
 	xrefStr := string(xrefSection[:min(5000, len(xrefSection))])
 
 	// Check if it's a cross-reference stream (PDF 1.5+)
-	// Cross-reference streams have /Type/XRef and /W[widths]
-	if strings.Contains(xrefStr, "/Type/XRef") || strings.Contains(xrefStr, "/W[") {
+	// Cross-reference streams have /Type/XRef and /W[widths], and tables begin with xref
+	isTable := strings.HasPrefix(strings.TrimSpace(xrefStr), "xref")
+	if !isTable && regexp.MustCompile(`/Type\s*/XRef\b|/W\s*\[`).MatchString(xrefStr) {
 		// Cross-reference stream - need to find the stream object and decompress it
 		return ParseXRefStreamWithEncryption(pdfBytes, startXRef, encryptInfo, verbose)
 	}
diff --git a/core/write/bookmarks.go b/core/write/bookmarks.go
index 98d6b19..b6a6850 100644
--- a/core/write/bookmarks.go
+++ b/core/write/bookmarks.go
@@ -188,13 +188,6 @@ func addDictEntry(dictStr, key, value string) string {
 		return dictStr
 	}
 
-	// Check if key already exists
-	if strings.Contains(dictStr, key+" ") || strings.Contains(dictStr, key+"/") {
-		// Replace existing entry (simplified - just append new one, PDF readers will use last)
-		// For proper implementation, would need to parse and rebuild
-		return dictStr[:lastIdx] + fmt.Sprintf("%s %s ", key, value) + dictStr[lastIdx:]
-	}
-
-	// Add new entry
+	// An existing entry is not replaced, as PDF readers use the last one
 	return dictStr[:lastIdx] + fmt.Sprintf("%s %s ", key, value) + dictStr[lastIdx:]
 }
diff --git a/forms/acroform/actions.go b/forms/acroform/actions.go
index 813386e..fa4edee 100644
--- a/forms/acroform/actions.go
+++ b/forms/acroform/actions.go
@@ -68,23 +68,12 @@ func AddActionToField(fieldObjNum int, action *Action, w *write.PDFWriter) error
 	// /A is for the main action, /AA is for event-specific actions
 	actionEntry := fmt.Sprintf("/A %s", actionDict)
 
-	// Check if /A or /AA already exists
-	if strings.Contains(fieldStr, "/A ") || strings.Contains(fieldStr, "/AA ") {
-		// Replace existing action (simplified - would need better parsing)
-		// For now, just add /A
-		dictEnd := strings.LastIndex(fieldStr, ">>")
-		if dictEnd == -1 {
-			return fmt.Errorf("field dictionary not found")
-		}
-		fieldStr = fieldStr[:dictEnd] + actionEntry + " " + fieldStr[dictEnd:]
-	} else {
-		// Add action before closing >>
-		dictEnd := strings.LastIndex(fieldStr, ">>")
-		if dictEnd == -1 {
-			return fmt.Errorf("field dictionary not found")
-		}
-		fieldStr = fieldStr[:dictEnd] + actionEntry + " " + fieldStr[dictEnd:]
+	// Add action before closing >> (an existing one would need better parsing to be replaced)
+	dictEnd := strings.LastIndex(fieldStr, ">>")
+	if dictEnd == -1 {
+		return fmt.Errorf("field dictionary not found")
 	}
+	fieldStr = fieldStr[:dictEnd] + actionEntry + " " + fieldStr[dictEnd:]
 
 	// Update object
 	w.SetObject(fieldObjNum, []byte(fieldStr))
@@ -130,9 +119,9 @@ func AddMouseAction(fieldObjNum int, event string, action *Action, w *write.PDFW
 	aaEntry := fmt.Sprintf("/AA << /%s %s >>", actionKey, actionDict)
 
 	// Check if /AA exists
-	if strings.Contains(fieldStr, "/AA ") {
+	aaPattern := regexp.MustCompile(`/AA\s*<<[^>]*>>`)
+	if aaPattern.MatchString(fieldStr) {
 		// Update existing /AA (simplified)
-		aaPattern := regexp.MustCompile(`/AA\s*<<[^>]*>>`)
 		fieldStr = aaPattern.ReplaceAllLiteralString(fieldStr, aaEntry)
 	} else {
 		// Add /AA before closing >>
-- 
2.43.0

