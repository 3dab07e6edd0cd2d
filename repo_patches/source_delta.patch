From 9a759ec27467b2b177f5300821da5b2774857080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:56 +0000
Subject: [PATCH 01/51] fix: library parse panics when Verbose was never set

---
 pdf/logger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf/logger.go b/pdf/logger.go
index 3349f53..ac20be5 100644
--- a/pdf/logger.go
+++ b/pdf/logger.go
@@ -8,7 +8,7 @@ import (
 var Verbose *bool
 
 func Debug(format string, a ...interface{}) {
-	if *Verbose {
+	if Verbose != nil && *Verbose {
 		if len(a) > 0 {
 			fmt.Fprintf(os.Stderr, format, a...)
 			fmt.Fprintln(os.Stderr, "")
-- 
2.43.0


From 816865ba4c2e43e33341d0f820bd773cb105d4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:57 +0000
Subject: [PATCH 02/51] fix: errors.txt is never closed and files.txt is closed
 twice

---
 pdf/output.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf/output.go b/pdf/output.go
index d8b0066..fe1f173 100644
--- a/pdf/output.go
+++ b/pdf/output.go
@@ -71,7 +71,7 @@ func (output *Output) Close() {
 		output.Commands.Close()
 	}
 	if output.Errors != nil {
-		output.Files.Close()
+		output.Errors.Close()
 	}
 	if output.Files != nil {
 		output.Files.Close()
-- 
2.43.0


From afedf815c395fe7c102c0b3e64dc859aed6646f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:58 +0000
Subject: [PATCH 03/51] fix: a short read cuts dictionaries, streams and the
 start pointer

---
 pdf/parser.go  | 7 ++++---
 pdf/utility.go | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index e65b326..51fc3d9 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -166,7 +166,8 @@ func (parser *Parser) getStartXrefOffset() (int64, bool) {
 	// read in buffer at offset
 	buffer := make([]byte, start_xref_scan_buffer_size)
 	parser.Seek(offset, io.SeekStart)
-	parser.Read(buffer)
+	bytes_read, _ := io.ReadFull(parser, buffer)
+	buffer = buffer[:bytes_read]
 
 	// check for start xref
 	matches := start_xref_regexp.FindAllSubmatch(buffer, -1)
@@ -626,7 +627,7 @@ func (parser *Parser) ReadDictionary(decryptor Decryptor) Dictionary {
 
 	// read start of dictionary markers
 	b := make([]byte, 2)
-	_, err := parser.Read(b)
+	_, err := io.ReadFull(parser, b)
 	if err != nil || string(b) != "<<" {
 		return dictionary
 	}
@@ -937,7 +938,7 @@ func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_
 	// read first 9 bytes to get started
 	end_buff := bytes.NewBuffer([]byte{})
 	buff := make([]byte, 9)
-	bytes_read, _ := parser.Read(buff)
+	bytes_read, _ := io.ReadFull(parser, buff)
 	if bytes_read > 0 {
 		end_buff.Write(buff[:bytes_read])
 	}
diff --git a/pdf/utility.go b/pdf/utility.go
index a1fe09f..d2798a9 100644
--- a/pdf/utility.go
+++ b/pdf/utility.go
@@ -13,7 +13,7 @@ func ReadInt(reader io.Reader, width int) (int, bool) {
 // ReadInt reads width bytes from reader and returns the int64 value
 func ReadInt64(reader io.Reader, width int) (int64, bool) {
 	data := make([]byte, width)
-	bytes_read, _ := reader.Read(data)
+	bytes_read, _ := io.ReadFull(reader, data)
 	if bytes_read != width {
 		return 0, false
 	}
-- 
2.43.0


From 13ed0b957dd881923e71ee00e41742ebefb32481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:25 +0000
Subject: [PATCH 04/51] fix: a failed read or seek of the input is not reported

---
 pdf/parser.go | 42 ++++++++++++++++++++++++++++++++++++++----
 pdf/pdf.go    |  2 +-
 2 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index 51fc3d9..8bb53a7 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -17,9 +17,37 @@ var xref_regexp = regexp.MustCompile(`xref`)
 var whitespace = []byte("\x00\t\n\f\r ")
 var delimiters = []byte("()<>[]/%")
 
+// source remembers the first read or seek that failed
+type source struct {
+	io.ReadSeeker
+	err error
+}
+
+func (s *source) Read(b []byte) (int, error) {
+	if s.err != nil {
+		return 0, s.err
+	}
+	n, err := s.ReadSeeker.Read(b)
+	if err != nil && err != io.EOF {
+		s.err = err
+	}
+	return n, err
+}
+
+func (s *source) Seek(offset int64, whence int) (int64, error) {
+	if s.err != nil {
+		return 0, s.err
+	}
+	n, err := s.ReadSeeker.Seek(offset, whence)
+	if err != nil {
+		s.err = err
+	}
+	return n, err
+}
+
 type Parser struct {
 	*bufio.Reader
-	seeker io.ReadSeeker
+	seeker *source
 	Xref map[int]*XrefEntry
 	trailer Dictionary
 	security_handler *SecurityHandler
@@ -27,7 +55,8 @@ type Parser struct {
 }
 
 func NewParser(readSeeker io.ReadSeeker, output *Output) *Parser {
-	return &Parser{bufio.NewReader(readSeeker), readSeeker, map[int]*XrefEntry{}, Dictionary{}, NewSecurityHandler(), output}
+	seeker := &source{readSeeker, nil}
+	return &Parser{bufio.NewReader(seeker), seeker, map[int]*XrefEntry{}, Dictionary{}, NewSecurityHandler(), output}
 }
 
 func (parser *Parser) Load(password string) error {
@@ -79,12 +108,17 @@ func (parser *Parser) Load(password string) error {
 		}
 
 		// set encryption password
-		if err := parser.SetPassword(password); err != nil {
+		if err := parser.SetPassword(password); err != nil && parser.Err() == nil {
 			return err
 		}
 	}
 
-	return nil
+	return parser.Err()
+}
+
+// Err returns the first error met while reading the pdf
+func (parser *Parser) Err() error {
+	return parser.seeker.err
 }
 
 func (parser *Parser) SetPassword(password string) error {
diff --git a/pdf/pdf.go b/pdf/pdf.go
index 628aa41..47b4e04 100644
--- a/pdf/pdf.go
+++ b/pdf/pdf.go
@@ -39,5 +39,5 @@ func Parse(file_path string, password string, output_dir string) error {
 		}
 	}
 
-	return nil
+	return parser.Err()
 }
-- 
2.43.0


From 04743ab5db44be5e8f76b748e69461b2de50824d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:26 +0000
Subject: [PATCH 05/51] fix: failed writes of the results are not reported

---
 pdf/output.go | 109 +++++++++++++++++++++++++++++++++-----------------
 pdf/pdf.go    |   8 +++-
 2 files changed, 78 insertions(+), 39 deletions(-)

diff --git a/pdf/output.go b/pdf/output.go
index fe1f173..c043da3 100644
--- a/pdf/output.go
+++ b/pdf/output.go
@@ -9,15 +9,49 @@ import (
 	"path"
 )
 
+// outputFile remembers the first write that failed
+type outputFile struct {
+	*os.File
+	err error
+}
+
+func createFile(name string) (*outputFile, error) {
+	file, err := os.Create(name)
+	if err != nil {
+		return nil, err
+	}
+	return &outputFile{file, nil}, nil
+}
+
+func (file *outputFile) Write(data []byte) (int, error) {
+	n, err := file.File.Write(data)
+	if err != nil && file.err == nil {
+		file.err = err
+	}
+	return n, err
+}
+
+func (file *outputFile) WriteString(s string) (int, error) {
+	return file.Write([]byte(s))
+}
+
+func (file *outputFile) Close() error {
+	if err := file.File.Close(); file.err == nil {
+		file.err = err
+	}
+	return file.err
+}
+
 type Output struct {
-	Commands *os.File
+	Commands *outputFile
 	Directory string
-	Errors *os.File
-	Files *os.File
-	Javascript *os.File
-	Raw *os.File
-	Text *os.File
-	URLs *os.File
+	Errors *outputFile
+	Files *outputFile
+	Javascript *outputFile
+	Raw *outputFile
+	Text *outputFile
+	URLs *outputFile
+	err error
 }
 
 func NewOutput(directory string) (output *Output, err error) {
@@ -26,68 +60,67 @@ func NewOutput(directory string) (output *Output, err error) {
 	output.Directory = directory
 
 	// create output dir
-	os.RemoveAll(directory)
-	os.MkdirAll(directory, 0755)
+	if err = os.RemoveAll(directory); err != nil {
+		// a directory that cannot be removed, a mount point say, will do if it is empty
+		if entries, list_err := ioutil.ReadDir(directory); list_err != nil || len(entries) > 0 {
+			return
+		}
+	}
+	if err = os.MkdirAll(directory, 0755); err != nil {
+		return
+	}
 
 	// create commands file
-	if output.Commands, err = os.Create(path.Join(directory, "commands.txt")); err != nil {
+	if output.Commands, err = createFile(path.Join(directory, "commands.txt")); err != nil {
 		return
 	}
 
 	// create errors file
-	if output.Errors, err = os.Create(path.Join(directory, "errors.txt")); err != nil {
+	if output.Errors, err = createFile(path.Join(directory, "errors.txt")); err != nil {
 		return
 	}
 
 	// create manifest file
-	if output.Files, err = os.Create(path.Join(directory, "files.txt")); err != nil {
+	if output.Files, err = createFile(path.Join(directory, "files.txt")); err != nil {
 		return
 	}
 
 	// create javascript file
-	if output.Javascript, err = os.Create(path.Join(directory, "javascript.js")); err != nil {
+	if output.Javascript, err = createFile(path.Join(directory, "javascript.js")); err != nil {
 		return
 	}
 
 	// create raw.pdf file
-	if output.Raw, err = os.Create(path.Join(directory, "raw.pdf")); err != nil {
+	if output.Raw, err = createFile(path.Join(directory, "raw.pdf")); err != nil {
 		return
 	}
 
 	// create text content file in output dir
-	if output.Text, err = os.Create(path.Join(directory, "contents.txt")); err != nil {
+	if output.Text, err = createFile(path.Join(directory, "contents.txt")); err != nil {
 		return
 	}
 
 	// create urls file
-	if output.URLs, err = os.Create(path.Join(directory, "urls.txt")); err != nil {
+	if output.URLs, err = createFile(path.Join(directory, "urls.txt")); err != nil {
 		return
 	}
 	return
 }
 
-func (output *Output) Close() {
-	if output.Commands != nil {
-		output.Commands.Close()
-	}
-	if output.Errors != nil {
-		output.Errors.Close()
+// Close closes all files and returns the first error met while writing them
+func (output *Output) Close() error {
+	files := []*outputFile{
+		output.Commands, output.Errors, output.Files, output.Javascript,
+		output.Raw, output.Text, output.URLs,
 	}
-	if output.Files != nil {
-		output.Files.Close()
-	}
-	if output.Javascript != nil {
-		output.Javascript.Close()
-	}
-	if output.Raw != nil {
-		output.Raw.Close()
-	}
-	if output.Text != nil {
-		output.Text.Close()
-	}
-	if output.URLs != nil {
-		output.URLs.Close()
+	for _, file := range files {
+		if file != nil {
+			if err := file.Close(); err != nil && output.err == nil {
+				output.err = err
+			}
+		}
 	}
+	return output.err
 }
 
 func (output *Output) DumpFile(name string, data []byte) {
@@ -100,7 +133,9 @@ func (output *Output) DumpFile(name string, data []byte) {
 	fmt.Fprintf(output.Files, "%s:%s\n", md5sum, name)
 
 	// write file data to file in extract dir
-	ioutil.WriteFile(path.Join(output.Directory, md5sum), data, 0644)
+	if err := ioutil.WriteFile(path.Join(output.Directory, md5sum), data, 0644); err != nil && output.err == nil {
+		output.err = err
+	}
 }
 
 func (output *Output) Error(message string) {
diff --git a/pdf/pdf.go b/pdf/pdf.go
index 47b4e04..af6e09a 100644
--- a/pdf/pdf.go
+++ b/pdf/pdf.go
@@ -5,7 +5,7 @@ import (
 	"os"
 )
 
-func Parse(file_path string, password string, output_dir string) error {
+func Parse(file_path string, password string, output_dir string) (err error) {
 	// open the pdf
 	file, err := os.Open(file_path)
 	if err != nil {
@@ -15,7 +15,11 @@ func Parse(file_path string, password string, output_dir string) error {
 
 	// create output directory and files
 	output, err := NewOutput(output_dir)
-	defer output.Close()
+	defer func() {
+		if close_err := output.Close(); err == nil {
+			err = close_err
+		}
+	}()
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 5d83ef1b10092059030edc5092ab4523bfcb2e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:55 +0000
Subject: [PATCH 06/51] fix: only repair xref entries that do not point to
 their object

---
 pdf/parser.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index 8bb53a7..2b37a1a 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -89,8 +89,9 @@ func (parser *Parser) Load(password string) error {
 		if xref_entry, ok := parser.Xref[object_number]; ok {
 			// replace xref entry if it does not point to an object or points to the wrong object
 			parser.Seek(xref_entry.Offset, io.SeekStart)
-			if n, _, ok := parser.ReadObjectHeader(); ok || n != object_number {
-				xref_entry.Offset = object.Offset
+			n, _, ok := parser.ReadObjectHeader()
+			if xref_entry.Type == XrefTypeIndirectObject && (!ok || n != object_number) {
+				parser.Xref[object_number] = object
 			}
 		} else {
 			// add missing object to xref
-- 
2.43.0


From 537874e1816a0bd375f1818c5d8ca53403d1052f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:56 +0000
Subject: [PATCH 07/51] fix: startxref is mistaken for an xref table

---
 pdf/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index 2b37a1a..a6104fe 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -13,7 +13,7 @@ import (
 var start_xref_scan_buffer_size int64 = 256
 var start_xref_regexp = regexp.MustCompile(`startxref\s*(\d+)\s*%%EOF`)
 var start_obj_regexp = regexp.MustCompile(`\d+([\s\x00]|(%[^\r\n]*))+\d+([\s\x00]|(%[^\r\n]*))+obj`)
-var xref_regexp = regexp.MustCompile(`xref`)
+var xref_regexp = regexp.MustCompile(`\bxref`)
 var whitespace = []byte("\x00\t\n\f\r ")
 var delimiters = []byte("()<>[]/%")
 
-- 
2.43.0


From 18b1ca93f593b590160014b05a88b229fa0fa49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:57 +0000
Subject: [PATCH 08/51] fix: text that merely looks like an object header adds
 an object

---
 pdf/parser.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index a6104fe..8d64bc1 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -169,16 +169,17 @@ func (parser *Parser) findObjects() map[int]*XrefEntry {
 		parser.Seek(offset + int64(index[0]), io.SeekStart)
 
 		// get object number, generation
-		n, g, _ := parser.ReadObjectHeader()
-
-		// add xref entry
-		objects[n] = NewXrefEntry(offset + int64(index[0]), g, XrefTypeIndirectObject)
-
-		// determine if object is xref stream
-		d := parser.ReadDictionary(noDecryptor)
-		if t, ok := d.GetName("Type"); ok && t == "XRef" {
-			objects[n].IsXrefStream = true
-			objects[n].IsEncrypted = false
+		n, g, ok := parser.ReadObjectHeader()
+		if ok {
+			// add xref entry
+			objects[n] = NewXrefEntry(offset + int64(index[0]), g, XrefTypeIndirectObject)
+
+			// determine if object is xref stream
+			d := parser.ReadDictionary(noDecryptor)
+			if t, ok := d.GetName("Type"); ok && t == "XRef" {
+				objects[n].IsXrefStream = true
+				objects[n].IsEncrypted = false
+			}
 		}
 
 		// seek to end of object start marker
-- 
2.43.0


From 1f01cf263d06d5911f6a8dbd5be5ac4d070408fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:33 +0000
Subject: [PATCH 09/51] fix: xref stream widths, types and offsets are not
 checked

---
 pdf/parser.go  | 79 ++++++++++++++++++++++++++++----------------------
 pdf/utility.go |  3 ++
 2 files changed, 47 insertions(+), 35 deletions(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index 8d64bc1..ef7d42b 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -235,11 +235,19 @@ func (parser *Parser) loadXref(offset int64, offsets map[int64]interface{}) {
 			parser.Seek(offset, io.SeekStart)
 			if n, g, ok := parser.ReadObjectHeader(); ok {
 				// prevent decrypting xref streams
+				previous_entry, exists := parser.Xref[n]
 				parser.Xref[n] = NewXrefEntry(offset, g, XrefTypeIndirectObject)
 				parser.Xref[n].IsEncrypted = false
 
 				// read the xref object
-				parser.loadXrefStream(n, offsets)
+				if !parser.loadXrefStream(n, offset, offsets) {
+					// not an xref stream so put back the previous entry
+					if exists {
+						parser.Xref[n] = previous_entry
+					} else {
+						delete(parser.Xref, n)
+					}
+				}
 			}
 		}
 	}
@@ -312,16 +320,33 @@ func (parser *Parser) loadXrefTable(offsets map[int64]interface{}) {
 	}
 }
 
-func (parser *Parser) loadXrefStream(n int, offsets map[int64]interface{}) {
-	xref_stream_offset := parser.CurrentOffset()
-
+// loadXrefStream returns false if the object is not an xref stream
+func (parser *Parser) loadXrefStream(n int, xref_stream_offset int64, offsets map[int64]interface{}) bool {
 	// Get the xref stream object
 	object := parser.GetObject(n)
 
 	// get the stream dictionary which is also the trailer dictionary
 	trailer, ok := object.Value.(Dictionary)
+	if !ok || object.Stream == nil {
+		return false
+	}
+	if t, ok := trailer.GetName("Type"); ok && t != "XRef" {
+		return false
+	}
+
+	// get the width of each field
+	width, ok := trailer.GetArray("W")
 	if !ok {
-		return
+		return false
+	}
+	widths := [3]int{}
+	for i := range widths {
+		if widths[i], ok = width.GetInt(i); !ok || widths[i] < 0 || widths[i] > 8 {
+			return false
+		}
+	}
+	if widths == [3]int{} {
+		return false
 	}
 
 	// load previous xref section if it exists
@@ -338,57 +363,40 @@ func (parser *Parser) loadXrefStream(n int, offsets map[int64]interface{}) {
 	index, ok := trailer.GetArray("Index")
 	if !ok {
 		// if there is no Index field then use default of [0 Size]
-		size, ok := trailer.GetNumber("Size")
-		if !ok {
-			return
-		}
+		size, _ := trailer.GetNumber("Size")
 		index = Array{Number(0), size}
 	}
-	width, ok := trailer.GetArray("W")
-	if !ok {
-		return
-	}
-
-	// get widths of each field
-	type_width, ok := width.GetInt(0)
-	if !ok {
-		return
-	}
-	offset_width, ok := width.GetInt(1)
-	if !ok {
-		return
-	}
-	generation_width, ok := width.GetInt(2)
-	if !ok {
-		return
-	}
 
 	// parse xref subsections
 	data_reader := bytes.NewReader(object.Stream)
+subsections:
 	for i := 0; i < len(index) - 1; i += 2 {
 		// get subsection start and length
 		subsection_start, ok := index.GetInt(i)
 		if !ok {
-			return
+			break
 		}
 		subsection_length, ok := index.GetInt(i + 1)
 		if !ok {
-			return
+			break
 		}
 
 		// read in each entry in subsection
 		for j := 0; j < subsection_length; j++ {
-			xref_type, ok := ReadInt(data_reader, type_width)
+			xref_type, ok := ReadInt(data_reader, widths[0])
 			if !ok {
-				return
+				break subsections
 			}
-			offset, ok := ReadInt64(data_reader, offset_width)
+			if widths[0] == 0 {
+				xref_type = XrefTypeIndirectObject
+			}
+			offset, ok := ReadInt64(data_reader, widths[1])
 			if !ok {
-				return
+				break subsections
 			}
-			generation, ok := ReadInt(data_reader, generation_width)
+			generation, ok := ReadInt(data_reader, widths[2])
 			if !ok {
-				return
+				break subsections
 			}
 
 			// determine object number from subsection_start
@@ -402,6 +410,7 @@ func (parser *Parser) loadXrefStream(n int, offsets map[int64]interface{}) {
 	// dont decrypt xref streams
 	parser.Xref[object.Number] = NewXrefEntry(xref_stream_offset, object.Generation, XrefTypeIndirectObject)
 	parser.Xref[object.Number].IsEncrypted = false
+	return true
 }
 
 func (parser *Parser) GetObject(number int) *IndirectObject {
diff --git a/pdf/utility.go b/pdf/utility.go
index d2798a9..6db2dbe 100644
--- a/pdf/utility.go
+++ b/pdf/utility.go
@@ -12,6 +12,9 @@ func ReadInt(reader io.Reader, width int) (int, bool) {
 
 // ReadInt reads width bytes from reader and returns the int64 value
 func ReadInt64(reader io.Reader, width int) (int64, bool) {
+	if width < 0 || width > 8 {
+		return 0, false
+	}
 	data := make([]byte, width)
 	bytes_read, _ := io.ReadFull(reader, data)
 	if bytes_read != width {
-- 
2.43.0


From c9232d5d69810ad0e0b082bcfb6db9be1671a81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:59 +0000
Subject: [PATCH 10/51] fix: a trailer that is cut off overrides the previous
 trailer

---
 pdf/parser.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index ef7d42b..36767ce 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -299,10 +299,13 @@ func (parser *Parser) loadXrefTable(offsets map[int64]interface{}) {
 	}
 
 	// read trailer keyword
-	parser.ReadKeyword();
+	keyword := parser.ReadKeyword()
 
-	// read in trailer dictionary
-	trailer := parser.ReadDictionary(noDecryptor);
+	// read in trailer dictionary, ignoring one that is cut off or belongs to an object
+	trailer, closed := parser.readDictionary(noDecryptor)
+	if !closed || keyword == KEYWORD_OBJ {
+		trailer = Dictionary{}
+	}
 
 	// load previous xref section if it exists
 	if prev, ok := trailer.GetInt64("Prev"); ok {
@@ -664,6 +667,12 @@ func (parser *Parser) ReadCommand() (Keyword, Array, error) {
 }
 
 func (parser *Parser) ReadDictionary(decryptor Decryptor) Dictionary {
+	dictionary, _ := parser.readDictionary(decryptor)
+	return dictionary
+}
+
+// readDictionary also returns whether the end of the dictionary was found
+func (parser *Parser) readDictionary(decryptor Decryptor) (Dictionary, bool) {
 	// consume any leading whitespace/comments
 	parser.consumeWhitespace()
 
@@ -674,7 +683,7 @@ func (parser *Parser) ReadDictionary(decryptor Decryptor) Dictionary {
 	b := make([]byte, 2)
 	_, err := io.ReadFull(parser, b)
 	if err != nil || string(b) != "<<" {
-		return dictionary
+		return dictionary, false
 	}
 
 	// parse all key value pairs
@@ -683,10 +692,10 @@ func (parser *Parser) ReadDictionary(decryptor Decryptor) Dictionary {
 		name, err := parser.ReadObject(decryptor)
 		if err == ReadError {
 			parser.log_error(UnclosedDictionary)
-			break
+			return dictionary, false
 		}
 		if err == EndOfDictionary {
-			break
+			return dictionary, true
 		}
 
 		// skip if not a name
@@ -700,13 +709,12 @@ func (parser *Parser) ReadDictionary(decryptor Decryptor) Dictionary {
 		value, err := parser.ReadObject(decryptor)
 		if err == ReadError || err == EndOfDictionary {
 			parser.log_error(MissingDictionaryValue)
-			break
+			return dictionary, err == EndOfDictionary
 		}
 
 		// add key value pair to dictionary
 		dictionary[string(key)] = value
 	}
-	return dictionary
 }
 
 func (parser *Parser) ReadHexString(decryptor Decryptor) String {
-- 
2.43.0


From c119bb6b1cc1b7c1c38721f9acb8eb44be035a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:00 +0000
Subject: [PATCH 11/51] fix: an xref table entry that is cut off deletes its
 object

---
 pdf/keyword.go | 1 +
 pdf/parser.go  | 7 +++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pdf/keyword.go b/pdf/keyword.go
index 88cb870..caa0883 100644
--- a/pdf/keyword.go
+++ b/pdf/keyword.go
@@ -7,6 +7,7 @@ const (
 	KEYWORD_STREAM = Keyword("stream")
 	KEYWORD_R = Keyword("R")
 	KEYWORD_N = Keyword("n")
+	KEYWORD_F = Keyword("f")
 	KEYWORD_NULL = Keyword("null")
 	KEYWORD_TRUE = Keyword("true")
 	KEYWORD_FALSE = Keyword("false")
diff --git a/pdf/parser.go b/pdf/parser.go
index 36767ce..9e59a7c 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -256,6 +256,7 @@ func (parser *Parser) loadXref(offset int64, offsets map[int64]interface{}) {
 func (parser *Parser) loadXrefTable(offsets map[int64]interface{}) {
 	// read all xref entries
 	xrefs := map[int]*XrefEntry{}
+subsections:
 	for {
 		// get subsection start
 		subsection_start, ok := parser.ReadInt()
@@ -274,13 +275,13 @@ func (parser *Parser) loadXrefTable(offsets map[int64]interface{}) {
 			// find xref entry offset
 			offset, ok := parser.ReadInt64()
 			if !ok {
-				break
+				break subsections
 			}
 
 			// find xref entry generation
 			generation, ok := parser.ReadInt()
 			if !ok {
-				break
+				break subsections
 			}
 
 			// find xref entry in use flag
@@ -288,6 +289,8 @@ func (parser *Parser) loadXrefTable(offsets map[int64]interface{}) {
 			xref_type := XrefTypeFreeObject
 			if flag == KEYWORD_N {
 				xref_type = XrefTypeIndirectObject
+			} else if flag != KEYWORD_F {
+				break subsections
 			}
 
 			// determine object number from subsection start
-- 
2.43.0


From 32dcbd7ad71322ad7004f4321e78da81f4eb8076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:19 +0000
Subject: [PATCH 12/51] fix: AES decryption leaves initialization vector and
 padding in the data

---
 pdf/encryption.go | 35 ++++++++++++++++++++++-------------
 pdf/parser.go     | 18 ++++++------------
 2 files changed, 28 insertions(+), 25 deletions(-)

diff --git a/pdf/encryption.go b/pdf/encryption.go
index 7aa55c4..824969e 100644
--- a/pdf/encryption.go
+++ b/pdf/encryption.go
@@ -16,7 +16,7 @@ type CryptFilter interface {
 }
 
 type Decryptor interface {
-	Decrypt([]byte)
+	Decrypt([]byte) []byte
 }
 
 // No encryption
@@ -28,7 +28,9 @@ func (c *CryptFilterNone) NewDecryptor(n int, g int) Decryptor {
 
 type DecryptorNone struct {}
 
-func (d *DecryptorNone) Decrypt(data []byte) {}
+func (d *DecryptorNone) Decrypt(data []byte) []byte {
+	return data
+}
 
 // AES
 type CryptFilterAES struct {
@@ -73,27 +75,33 @@ type DecryptorAES struct {
 	encryption_key []byte
 }
 
-func (d *DecryptorAES) Decrypt(data []byte) {
-	// catch crypt block panic
-	defer func() {
-		if err := recover(); err != nil {
-			Debug("recovered from panic: %s", err)
-		}
-	}()
-
+func (d *DecryptorAES) Decrypt(data []byte) []byte {
 	// create new cipher
-	block, _ := aes.NewCipher(d.encryption_key)
+	block, err := aes.NewCipher(d.encryption_key)
+	if err != nil {
+		return data
+	}
 
 	// no data to decrypt, first block is initialization vector
 	if len(data) <= aes.BlockSize {
-		return
+		return data[:0]
 	}
 
 	// set iv to first block and decrypt remaining blocks with cbc decryptor
 	iv := data[:aes.BlockSize]
 	data = data[aes.BlockSize:]
+	isTorn := len(data) % aes.BlockSize != 0
+	data = data[:len(data) - len(data) % aes.BlockSize]
 	cbc := cipher.NewCBCDecrypter(block, iv)
 	cbc.CryptBlocks(data, data)
+
+	// remove padding
+	if !isTorn {
+		if padding := int(data[len(data)-1]); padding >= 1 && padding <= aes.BlockSize {
+			data = data[:len(data) - padding]
+		}
+	}
+	return data
 }
 
 // RC4
@@ -136,9 +144,10 @@ type DecryptorRC4 struct {
 	encryption_key []byte
 }
 
-func (d *DecryptorRC4) Decrypt(data []byte) {
+func (d *DecryptorRC4) Decrypt(data []byte) []byte {
 	cipher, _ := rc4.NewCipher(d.encryption_key)
 	cipher.XORKeyStream(data, data)
+	return data
 }
 
 type SecurityHandler struct {
diff --git a/pdf/parser.go b/pdf/parser.go
index 9e59a7c..92b5167 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -748,8 +748,7 @@ func (parser *Parser) ReadHexString(decryptor Decryptor) String {
 					s.WriteByte(byte(val))
 				}
 				s_data := []byte(s.String())
-				decryptor.Decrypt(s_data)
-				return String(s_data)
+				return String(decryptor.Decrypt(s_data))
 			}
 			if !IsHex(b) {
 				parser.log_error(InvalidHexStringChar)
@@ -1034,8 +1033,7 @@ func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_
 	}
 
 	// decrypt stream
-	stream_data_bytes := stream_data.Bytes()
-	decryptor.Decrypt(stream_data_bytes)
+	stream_data_bytes := decryptor.Decrypt(stream_data.Bytes())
 
 	// decode stream
 	for i := 0; i < len(filter_list); i++ {
@@ -1071,8 +1069,7 @@ func (parser *Parser) ReadString(decryptor Decryptor) String {
 		if err != nil {
 			parser.log_error(UnclosedString)
 			s_data := []byte(s.String())
-			decryptor.Decrypt(s_data)
-			return String(s_data)
+			return String(decryptor.Decrypt(s_data))
 		}
 
 		// if this is the start of an escape sequence
@@ -1083,8 +1080,7 @@ func (parser *Parser) ReadString(decryptor Decryptor) String {
 				parser.log_error(UnclosedStringEscape)
 				s.WriteByte('\\')
 				s_data := []byte(s.String())
-				decryptor.Decrypt(s_data)
-				return String(s_data)
+				return String(decryptor.Decrypt(s_data))
 			}
 
 			// ignore escaped line breaks \n or \r or \r\n
@@ -1097,8 +1093,7 @@ func (parser *Parser) ReadString(decryptor Decryptor) String {
 				if err != nil {
 					parser.log_error(UnclosedStringEscape)
 					s_data := []byte(s.String())
-					decryptor.Decrypt(s_data)
-					return String(s_data)
+					return String(decryptor.Decrypt(s_data))
 				}
 				// if byte is not a new line then unread it
 				if b != '\n' {
@@ -1184,8 +1179,7 @@ func (parser *Parser) ReadString(decryptor Decryptor) String {
 
 	// return string
 	s_data := []byte(s.String())
-	decryptor.Decrypt(s_data)
-	return String(s_data)
+	return String(decryptor.Decrypt(s_data))
 }
 
 // consumeWhitespace reads until end of whitespace/comments
-- 
2.43.0


From 12a4cefc01e45056f1cfc2de9b5a9512c0376a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:45 +0000
Subject: [PATCH 13/51] fix: crypt filters are looked up wrongly and unknown
 ones are ignored

---
 pdf/encryption.go | 53 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 17 deletions(-)

diff --git a/pdf/encryption.go b/pdf/encryption.go
index 824969e..1353d35 100644
--- a/pdf/encryption.go
+++ b/pdf/encryption.go
@@ -207,7 +207,9 @@ func (sh *SecurityHandler) Init(password []byte, trailer Dictionary) error {
 		sh.length = 40
 	} else {
 		sh.length, ok = encrypt.GetInt("Length")
-		if !ok {
+		if !ok && sh.v == 4 {
+			sh.length = 128
+		} else if !ok {
 			sh.length = 40
 		}
 	}
@@ -226,7 +228,7 @@ func (sh *SecurityHandler) Init(password []byte, trailer Dictionary) error {
 
 	// get U
 	sh.u, ok = encrypt.GetBytes("U")
-	if !ok {
+	if !ok || len(sh.u) < 16 {
 		return EncryptionError
 	}
 
@@ -298,8 +300,8 @@ func (sh *SecurityHandler) Init(password []byte, trailer Dictionary) error {
 	// load additional crypt filters
 	if sh.r == 4 {
 		cf, _ := encrypt.GetDictionary("CF")
-		for k, entry := range cf {
-			if cfd, isDictionary := entry.(Dictionary); isDictionary {
+		for k := range cf {
+			if cfd, isDictionary := cf.GetDictionary(k); isDictionary {
 				if method, ok := cfd.GetName("CFM"); ok {
 					// get optional length
 					length, ok := cfd.GetInt("Length")
@@ -307,39 +309,56 @@ func (sh *SecurityHandler) Init(password []byte, trailer Dictionary) error {
 						length = sh.length
 					}
 
+					// length can also be given in bits
+					if length >= 40 {
+						length = length / 8
+					}
+					if length < 5 {
+						length = 5
+					} else if length > 16 {
+						length = 16
+					}
+
 					// create filter entry
 					if method == "None" {
 						sh.crypt_filters[k] = noFilter
 					} else if method == "V2" {
 						sh.crypt_filters[k] = &CryptFilterRC4{sh.computeEncryptionKey(password, length)}
 					} else if method == "AESV2" {
-						sh.crypt_filters[k] = &CryptFilterAES{sh.computeEncryptionKey(password, length)}
+						sh.crypt_filters[k] = &CryptFilterAES{sh.computeEncryptionKey(password, 16)}
 					}
 				}
 			}
 		}
 
 		// assign default filter overrides
-		if name, ok := encrypt.GetName("StmF"); ok {
-			if filter, exists := sh.crypt_filters[name]; exists {
-				sh.stream_filter = filter
-			}
+		sh.stream_filter, ok = sh.getCryptFilter(encrypt, "StmF", noFilter)
+		if !ok {
+			return EncryptionUnsupported
 		}
-		if name, ok := encrypt.GetName("StrF"); ok {
-			if filter, exists := sh.crypt_filters[name]; exists {
-				sh.string_filter = filter
-			}
+		sh.string_filter, ok = sh.getCryptFilter(encrypt, "StrF", noFilter)
+		if !ok {
+			return EncryptionUnsupported
 		}
-		if name, ok := encrypt.GetName("EEF"); ok {
-			if filter, exists := sh.crypt_filters[name]; exists {
-				sh.file_filter = filter
-			}
+		sh.file_filter, ok = sh.getCryptFilter(encrypt, "EFF", sh.stream_filter)
+		if !ok {
+			return EncryptionUnsupported
 		}
 	}
 
 	return nil
 }
 
+// getCryptFilter gets the crypt filter named by an entry of the encryption dictionary
+func (sh *SecurityHandler) getCryptFilter(encrypt Dictionary, key string, default_filter CryptFilter) (CryptFilter, bool) {
+	if _, exists := encrypt[key]; !exists {
+		return default_filter, true
+	}
+	name, _ := encrypt.GetName(key)
+	filter, exists := sh.crypt_filters[name]
+	return filter, exists
+}
+
 // Algorithm 2: Computing an encryption key
 func (sh *SecurityHandler) computeEncryptionKey(password []byte, key_length int) []byte {
 	// step a) pad or truncate password to exactly 32 bytes
-- 
2.43.0


From 6d26f5ef5adde0abfda60c5166c58ca0acbc68d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:35 +0000
Subject: [PATCH 14/51] fix: the last group of base-85 data is decoded wrongly

---
 pdf/filters.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pdf/filters.go b/pdf/filters.go
index a67f300..5f673b4 100644
--- a/pdf/filters.go
+++ b/pdf/filters.go
@@ -106,16 +106,27 @@ func ASCII85Decode(data []byte) []byte {
 	for {
 		b, err := reader.ReadByte()
 		if err != nil || b == '~' {
-			// finish partial group by adding zeros
+			// finish partial group by adding the highest digits
 			if n > 1 {
+				min, max := v, v
 				for m := n; m < 5; m++ {
-					v *= 85
+					min *= 85
+					max = max * 85 + 84
 				}
 
 				// write result in big endian order
 				buff := make([]byte, 4)
-				binary.BigEndian.PutUint32(buff, v)
-				decoded_data.Write(buff[:n-1])
+				binary.BigEndian.PutUint32(buff, max)
+				if err == nil {
+					decoded_data.Write(buff[:n-1])
+				} else {
+					// the rest of the group is missing, write the bytes it cannot change
+					min_buff := make([]byte, 4)
+					binary.BigEndian.PutUint32(min_buff, min)
+					for i := 0; i < n-1 && buff[i] == min_buff[i]; i++ {
+						decoded_data.WriteByte(buff[i])
+					}
+				}
 			}
 
 			return decoded_data.Bytes()
-- 
2.43.0


From d17bc8206d11d1786a8bad4269bb4ca66f76d95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:36 +0000
Subject: [PATCH 15/51] fix: half a hex code at the end of a cut off stream is
 decoded

---
 pdf/filters.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pdf/filters.go b/pdf/filters.go
index 5f673b4..ef6eba3 100644
--- a/pdf/filters.go
+++ b/pdf/filters.go
@@ -67,6 +67,7 @@ func ASCIIHexDecode(data []byte) []byte {
 
 		// get the second byte defaulting to zero
 		b2 := byte('0')
+		found := false
 		for ; i + 1 < len(data); i++ {
 			// skip whitespace
 			if bytes.IndexByte(whitespace, data[i+1]) >= 0 {
@@ -74,6 +75,7 @@ func ASCIIHexDecode(data []byte) []byte {
 			}
 
 			// EOD marker
+			found = true
 			if data[i+1] == byte('>') {
 				break
 			}
@@ -84,6 +86,11 @@ func ASCIIHexDecode(data []byte) []byte {
 			break
 		}
 
+		// the second byte is missing
+		if !found {
+			break
+		}
+
 		// add decoded byte to decoded data
 		val, err := strconv.ParseUint(string([]byte{b1, b2}), 16, 8)
 		if err != nil {
-- 
2.43.0


From a4a74ea6905ad95b6f2e9dddeaf15b19dea32d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:02 +0000
Subject: [PATCH 16/51] fix: filters are applied to data the previous filter
 failed to decode

---
 pdf/filters.go | 27 ++++++++++++++-------------
 pdf/parser.go  |  6 +++++-
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/pdf/filters.go b/pdf/filters.go
index ef6eba3..0e14b2f 100644
--- a/pdf/filters.go
+++ b/pdf/filters.go
@@ -11,25 +11,26 @@ import (
 	tiff_lzw "golang.org/x/image/tiff/lzw"
 )
 
-func DecodeStream(filter string, data []byte, decode_parms Dictionary) []byte {
+// DecodeStream returns data as is and false if it can not be decoded
+func DecodeStream(filter string, data []byte, decode_parms Dictionary) ([]byte, bool) {
 	// do nothing if data is empty
 	if len(data) == 0 {
-		return data
+		return data, true
 	}
 
 	// apply hex filter
 	if filter == "ASCIIHexDecode" {
-		return ASCIIHexDecode(data)
+		return ASCIIHexDecode(data), true
 	}
 
 	// apply ascii 85 filter
 	if filter == "ASCII85Decode" {
-		return ASCII85Decode(data)
+		return ASCII85Decode(data), true
 	}
 
 	// apply run length filter
 	if filter == "RunLengthDecode" {
-		return RunLengthDecode(data)
+		return RunLengthDecode(data), true
 	}
 
 	// apply zlib filter
@@ -43,7 +44,7 @@ func DecodeStream(filter string, data []byte, decode_parms Dictionary) []byte {
 	}
 
 	// filter is not supported
-	return data
+	return data, filter == "Crypt"
 }
 
 func ASCIIHexDecode(data []byte) []byte {
@@ -225,12 +226,12 @@ func RunLengthDecode(data []byte) []byte {
 	return decoded_data.Bytes()
 }
 
-func FlateDecode(data []byte, decode_parms Dictionary) []byte {
+func FlateDecode(data []byte, decode_parms Dictionary) ([]byte, bool) {
 	// create zlib reader from data
 	byte_reader := bytes.NewReader(data)
 	zlib_reader, err := zlib.NewReader(byte_reader)
 	if err != nil {
-		return data
+		return data, false
 	}
 	defer zlib_reader.Close()
 
@@ -238,14 +239,14 @@ func FlateDecode(data []byte, decode_parms Dictionary) []byte {
 	var decoded_data bytes.Buffer
 	bytes_read, err := decoded_data.ReadFrom(zlib_reader)
 	if bytes_read == 0 && err != nil {
-		return data
+		return data, false
 	}
 
 	// reverse predictor
-	return ReversePredictor(decoded_data.Bytes(), decode_parms)
+	return ReversePredictor(decoded_data.Bytes(), decode_parms), true
 }
 
-func LZWDecode(data []byte, decode_parms Dictionary) []byte {
+func LZWDecode(data []byte, decode_parms Dictionary) ([]byte, bool) {
 	// create lzw reader from data using different implementation based on early change parm
 	var lzw_reader io.ReadCloser
 	early_change, ok := decode_parms.GetInt("EarlyChange")
@@ -263,11 +264,11 @@ func LZWDecode(data []byte, decode_parms Dictionary) []byte {
 	var decoded_data bytes.Buffer
 	bytes_read, err := decoded_data.ReadFrom(lzw_reader)
 	if bytes_read == 0 && err != nil {
-		return data
+		return data, false
 	}
 
 	// reverse predictor
-	return ReversePredictor(decoded_data.Bytes(), decode_parms)
+	return ReversePredictor(decoded_data.Bytes(), decode_parms), true
 }
 
 func ReversePredictor(data []byte, decode_parms Dictionary) []byte {
diff --git a/pdf/parser.go b/pdf/parser.go
index 92b5167..c58d8a1 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -1039,7 +1039,11 @@ func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_
 	for i := 0; i < len(filter_list); i++ {
 		filter, _ := filter_list.GetName(i)
 		decode_parms, _ := decode_parms_list.GetDictionary(i)
-		stream_data_bytes = DecodeStream(filter, stream_data_bytes, decode_parms)
+		var ok bool
+		if stream_data_bytes, ok = DecodeStream(filter, stream_data_bytes, decode_parms); !ok {
+			// the next filter needs what this one could not decode
+			break
+		}
 	}
 
 	// return the decrypted and decoded stream
-- 
2.43.0


From 551a6050f664f1871a8881e1fcde9c9b52efc1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:03 +0000
Subject: [PATCH 17/51] fix: TIFF predictor panics on huge rows and decodes cut
 off components

---
 pdf/filters.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pdf/filters.go b/pdf/filters.go
index 0e14b2f..80773ba 100644
--- a/pdf/filters.go
+++ b/pdf/filters.go
@@ -295,6 +295,11 @@ func ReversePredictor(data []byte, decode_parms Dictionary) []byte {
 		return data
 	}
 
+	// make sure row size values are acceptable
+	if colors <= 0 || colors > 1 << 16 || columns <= 0 || columns > 1 << 30 {
+		return data
+	}
+
 	// determine row widths in bytes
 	row_width := (bits_per_component * colors * columns) / 8
 	if (bits_per_component * colors * columns) % 8 > 0 {
@@ -316,8 +321,9 @@ func ReversePredictor(data []byte, decode_parms Dictionary) []byte {
 			for c := 1; c < columns; c++ {
 				for i := 0; i < colors; i++ {
 					pos := row_start + ((c * colors + i) * bits_per_component)
-					if pos >= len(data) * 8 {
-						return data
+					if pos + bits_per_component > len(data) * 8 {
+						// drop a component that is cut off, its value is not known
+						return data[:pos / 8]
 					}
 					prev_value := GetBits(data, pos - (colors * bits_per_component), bits_per_component)
 					value := GetBits(data, pos, bits_per_component)
-- 
2.43.0


From 5405326b0105bde248a0ad4831d9a4ba5b5b7b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:17 +0000
Subject: [PATCH 18/51] fix: PNG predictors ignore the row tag and the width of
 a pixel

---
 pdf/filters.go | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/pdf/filters.go b/pdf/filters.go
index 80773ba..b30465b 100644
--- a/pdf/filters.go
+++ b/pdf/filters.go
@@ -343,15 +343,13 @@ func ReversePredictor(data []byte, decode_parms Dictionary) []byte {
 		d_row_width := row_width
 		row_width++
 
-		// determine the method
-		method := predictor - 10
+		// predictors work on the same byte of the pixel to the left
+		pixel_width := (bits_per_component * colors + 7) / 8
 
 		// for each row
 		for r := 0; r < len(data); r += row_width {
-			// optimum predictor allows the method to change each row based on algorithm tag
-			if predictor == 15 {
-				method = int(data[r])
-			}
+			// the method can change each row based on algorithm tag
+			method := int(data[r])
 
 			// calculate start of row in decoded buffer
 			dr := (r / row_width) * (row_width - 1)
@@ -367,8 +365,8 @@ func ReversePredictor(data []byte, decode_parms Dictionary) []byte {
 				} else if method == 1 {
 					// sub predictor
 					left := 0
-					if dc > 0 {
-						left = int(decoded_data[dr + dc - 1])
+					if dc >= pixel_width {
+						left = int(decoded_data[dr + dc - pixel_width])
 					}
 					decoded_data = append(decoded_data, byte((int(data[r + c]) + left) % 256))
 				} else if method == 2 {
@@ -381,8 +379,8 @@ func ReversePredictor(data []byte, decode_parms Dictionary) []byte {
 				} else if method == 3 {
 					// avg predictor
 					left := 0
-					if dc > 0 {
-						left = int(decoded_data[dr + dc - 1])
+					if dc >= pixel_width {
+						left = int(decoded_data[dr + dc - pixel_width])
 					}
 					up := 0
 					if dr + dc - d_row_width >= 0 {
@@ -393,16 +391,16 @@ func ReversePredictor(data []byte, decode_parms Dictionary) []byte {
 				} else if method == 4 {
 					//paeth predictor
 					left := 0
-					if dc > 0 {
-						left = int(decoded_data[dr + dc - 1])
+					if dc >= pixel_width {
+						left = int(decoded_data[dr + dc - pixel_width])
 					}
 					up := 0
 					if dr + dc - d_row_width >= 0 {
 						up = int(decoded_data[dr + dc - d_row_width])
 					}
 					up_left := 0
-					if dr + dc - d_row_width - 1 >= 0 && dc > 0 {
-						up_left = int(decoded_data[dr + dc - d_row_width - 1])
+					if dr + dc - d_row_width - pixel_width >= 0 && dc >= pixel_width {
+						up_left = int(decoded_data[dr + dc - d_row_width - pixel_width])
 					}
 					p := left + up - up_left
 					p_left := int(math.Abs(float64(p - left)))
-- 
2.43.0


From a6e601758d4e3a72e5c434700cc03843c289855f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:35 +0000
Subject: [PATCH 19/51] fix: digits after the decimal point are read and
 written wrongly

---
 pdf/number.go |  4 ++--
 pdf/parser.go | 16 ++++++++++++----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/pdf/number.go b/pdf/number.go
index 4ee0293..ef899b1 100644
--- a/pdf/number.go
+++ b/pdf/number.go
@@ -1,11 +1,11 @@
 package pdf
 
 import (
-	"fmt"
+	"strconv"
 )
 
 type Number float64
 
 func (number Number) String() string {
-	return fmt.Sprint(float64(number))
+	return strconv.FormatFloat(float64(number), 'f', -1, 64)
 }
diff --git a/pdf/parser.go b/pdf/parser.go
index c58d8a1..5410563 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -898,6 +898,7 @@ func (parser *Parser) ReadNumber() Number {
 
 	// create a new number object
 	var number Number
+	var digits strings.Builder
 	isReal := false
 	isNegative := false
 
@@ -909,9 +910,10 @@ func (parser *Parser) ReadNumber() Number {
 	if b == '-' {
 		isNegative = true
 	} else if b >= '0' && b <= '9' {
-		number = Number(float64(number) * 10 + float64(b - '0'))
+		digits.WriteByte(b)
 	} else if b == '.' {
 		isReal = true
+		digits.WriteByte(b)
 	} else if b != '+' {
 		parser.UnreadByte()
 		return number
@@ -925,9 +927,10 @@ func (parser *Parser) ReadNumber() Number {
 		}
 
 		if b >= '0' && b <= '9' {
-			number = Number(float64(number) * 10 + float64(b - '0'))
+			digits.WriteByte(b)
 		} else if b == '.' {
 			isReal = true
+			digits.WriteByte(b)
 		} else {
 			parser.UnreadByte()
 			break
@@ -936,14 +939,14 @@ func (parser *Parser) ReadNumber() Number {
 
 	// parse real part
 	if isReal {
-		for i := 1; true; i++ {
+		for {
 			b, err = parser.ReadByte()
 			if err != nil {
 				break
 			}
 
 			if b >= '0' && b <= '9' {
-				number = Number(float64(number) + float64(b - '0') / (10 * float64(i)))
+				digits.WriteByte(b)
 			} else {
 				parser.UnreadByte()
 				break
@@ -951,6 +954,11 @@ func (parser *Parser) ReadNumber() Number {
 		}
 	}
 
+	// interpret digits
+	if value, err := strconv.ParseFloat(digits.String(), 64); err == nil {
+		number = Number(value)
+	}
+
 	// make negative if first byte was a minus sign
 	if isNegative {
 		number = -number
-- 
2.43.0


From 0f314e14759f5a5fb6081223ce42973c48a6a96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:36 +0000
Subject: [PATCH 20/51] fix: an unclosed stream is not logged when it has no
 data

---
 pdf/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdf/parser.go b/pdf/parser.go
index 5410563..917eca8 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -976,6 +976,7 @@ func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_
 	for {
 		b, err := parser.ReadByte()
 		if err != nil {
+			parser.log_error(UnclosedStream)
 			return stream_data.Bytes()
 		}
 
@@ -988,6 +989,7 @@ func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_
 		if b == '\r' {
 			b, err := parser.ReadByte()
 			if err != nil {
+				parser.log_error(UnclosedStream)
 				return stream_data.Bytes()
 			}
 			// if not new line then put it back cause it is part of the stream data
@@ -1026,6 +1028,7 @@ func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_
 		// add first byte of end_buff to stream_data
 		b, err := end_buff.ReadByte()
 		if err != nil {
+			parser.log_error(UnclosedStream)
 			break
 		}
 		stream_data.WriteByte(b)
-- 
2.43.0


From 075e2430a0e74bac4a60cbcb2ba30b9ddb3fe14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:37 +0000
Subject: [PATCH 21/51] fix: a stream that decodes to nothing is taken for a
 missing stream

---
 pdf/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdf/parser.go b/pdf/parser.go
index 917eca8..db866c5 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -1057,6 +1057,11 @@ func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_
 		}
 	}
 
+	// an empty stream is still a stream
+	if stream_data_bytes == nil {
+		stream_data_bytes = []byte{}
+	}
+
 	// return the decrypted and decoded stream
 	return stream_data_bytes
 }
-- 
2.43.0


From 9d6c2c15e83bb4633f9f2ed210bcf42d7577601c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:43 +0000
Subject: [PATCH 22/51] fix: stream data that contains the end of stream marker
 is cut off

---
 pdf/parser.go | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index db866c5..f37bd6b 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -502,8 +502,14 @@ func (parser *Parser) GetObject(number int) *IndirectObject {
 				}
 				stream_decryptor := crypt_filter.NewDecryptor(number, xref_entry.Generation)
 
+				// get stream length
+				length, ok := d.GetInt64("Length")
+				if !ok {
+					length = -1
+				}
+
 				// read the stream
-				object.Stream = parser.ReadStream(stream_decryptor, filter_list, decode_parms_list)
+				object.Stream = parser.ReadStream(stream_decryptor, filter_list, decode_parms_list, length)
 			}
 		}
 	}
@@ -968,7 +974,8 @@ func (parser *Parser) ReadNumber() Number {
 	return number
 }
 
-func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_parms_list Array) []byte {
+// ReadStream reads length bytes if the stream ends there, otherwise it reads until the first end of stream marker
+func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_parms_list Array, length int64) []byte {
 	// create buffers for stream data
 	stream_data := bytes.NewBuffer([]byte{})
 
@@ -1000,6 +1007,14 @@ func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_
 		}
 	}
 
+	// read length bytes of stream data if the stream ends there
+	start := parser.CurrentOffset()
+	use_length := parser.isStreamEnd(start, length)
+	parser.Seek(start, io.SeekStart)
+	if use_length {
+		io.CopyN(stream_data, parser, length)
+	}
+
 	// read first 9 bytes to get started
 	end_buff := bytes.NewBuffer([]byte{})
 	buff := make([]byte, 9)
@@ -1009,7 +1024,7 @@ func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_
 	}
 
 	// read in stream data until endstream marker
-	for {
+	for !use_length {
 		if end_buff.String() == "endstream" {
 			// truncate last new line from stream_data and stop reading stream data
 			l := stream_data.Len()
@@ -1066,6 +1081,18 @@ func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_
 	return stream_data_bytes
 }
 
+// isStreamEnd returns true if an end of stream marker follows length bytes after start
+func (parser *Parser) isStreamEnd(start int64, length int64) bool {
+	if length < 0 {
+		return false
+	}
+	parser.Seek(start + length, io.SeekStart)
+	marker, _ := parser.Peek(11)
+	marker = bytes.TrimPrefix(marker, []byte("\r"))
+	marker = bytes.TrimPrefix(marker, []byte("\n"))
+	return bytes.HasPrefix(marker, []byte("endstream"))
+}
+
 func (parser *Parser) ReadString(decryptor Decryptor) String {
 	// consume any leading whitespace/comments
 	parser.consumeWhitespace()
-- 
2.43.0


From 12a1b910bd274e7ba94fe833497eaf9eac91657a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:44 +0000
Subject: [PATCH 23/51] fix: a stream whose dictionary refers to itself is read
 without end

---
 pdf/parser.go    |  7 ++++++-
 pdf/reference.go | 10 +++++-----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index f37bd6b..2359860 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -420,6 +420,11 @@ subsections:
 }
 
 func (parser *Parser) GetObject(number int) *IndirectObject {
+	return parser.getObject(number, true)
+}
+
+// getObject does not read the stream of the object unless asked to
+func (parser *Parser) getObject(number int, read_stream bool) *IndirectObject {
 	object := NewIndirectObject(number)
 
 	if xref_entry, ok := parser.Xref[number]; ok {
@@ -444,7 +449,7 @@ func (parser *Parser) GetObject(number int) *IndirectObject {
 			object.Value, _ = parser.ReadObject(string_decryptor)
 
 			// get next keyword
-			if keyword := parser.ReadKeyword(); keyword == KEYWORD_STREAM {
+			if keyword := parser.ReadKeyword(); read_stream && keyword == KEYWORD_STREAM {
 				// get stream dictionary
 				d, ok := object.Value.(Dictionary)
 				if !ok {
diff --git a/pdf/reference.go b/pdf/reference.go
index 20fd52b..4e54f60 100644
--- a/pdf/reference.go
+++ b/pdf/reference.go
@@ -24,7 +24,7 @@ func (reference *Reference) Resolve() Object {
 	current_offset := reference.parser.CurrentOffset()
 
 	// resolve the referenced object value
-	object := reference.resolve(map[int]interface{}{})
+	object := reference.resolve(map[int]interface{}{}, false)
 
 	// revert offset
 	reference.parser.Seek(current_offset, io.SeekStart)
@@ -38,7 +38,7 @@ func (reference *Reference) ResolveStream() []byte {
 	current_offset := reference.parser.CurrentOffset()
 
 	// resolve the referenced object value
-	object := reference.resolve(map[int]interface{}{})
+	object := reference.resolve(map[int]interface{}{}, true)
 
 	// revert offset
 	reference.parser.Seek(current_offset, io.SeekStart)
@@ -47,7 +47,7 @@ func (reference *Reference) ResolveStream() []byte {
 	return object.Stream
 }
 
-func (reference *Reference) resolve(resolved_references map[int]interface{}) *IndirectObject {
+func (reference *Reference) resolve(resolved_references map[int]interface{}, read_stream bool) *IndirectObject {
 	// prevent infinite loop
 	if _, ok := resolved_references[reference.Number]; ok {
 		return NewIndirectObject(reference.Number)
@@ -55,11 +55,11 @@ func (reference *Reference) resolve(resolved_references map[int]interface{}) *In
 	resolved_references[reference.Number] = nil
 
 	// use parser to get object
-	object := reference.parser.GetObject(reference.Number)
+	object := reference.parser.getObject(reference.Number, read_stream)
 
 	// recursively resolve references
 	if ref, ok := object.Value.(*Reference); ok {
-		return ref.resolve(resolved_references)
+		return ref.resolve(resolved_references, read_stream)
 	}
 
 	// return the object
-- 
2.43.0


From 363d963e2ecfce0e8de069b5d3cea256e208bd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:44 +0000
Subject: [PATCH 24/51] fix: deeply nested objects overflow the stack

---
 pdf/parser.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index 2359860..480f751 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -14,6 +14,7 @@ var start_xref_scan_buffer_size int64 = 256
 var start_xref_regexp = regexp.MustCompile(`startxref\s*(\d+)\s*%%EOF`)
 var start_obj_regexp = regexp.MustCompile(`\d+([\s\x00]|(%[^\r\n]*))+\d+([\s\x00]|(%[^\r\n]*))+obj`)
 var xref_regexp = regexp.MustCompile(`\bxref`)
+var max_depth int = 500
 var whitespace = []byte("\x00\t\n\f\r ")
 var delimiters = []byte("()<>[]/%")
 
@@ -52,11 +53,12 @@ type Parser struct {
 	trailer Dictionary
 	security_handler *SecurityHandler
 	output *Output
+	depth int
 }
 
 func NewParser(readSeeker io.ReadSeeker, output *Output) *Parser {
 	seeker := &source{readSeeker, nil}
-	return &Parser{bufio.NewReader(seeker), seeker, map[int]*XrefEntry{}, Dictionary{}, NewSecurityHandler(), output}
+	return &Parser{bufio.NewReader(seeker), seeker, map[int]*XrefEntry{}, Dictionary{}, NewSecurityHandler(), output, 0}
 }
 
 func (parser *Parser) Load(password string) error {
@@ -648,6 +650,14 @@ func (parser *Parser) ReadArray(decryptor Decryptor) Array {
 		return array
 	}
 
+	// stop reading if nested too deep
+	parser.depth++
+	defer func() { parser.depth-- }()
+	if parser.depth > max_depth {
+		parser.log_error(UnclosedArray)
+		return array
+	}
+
 	// read in elements and append to array
 	for {
 		element, err := parser.ReadObject(decryptor)
@@ -700,6 +710,14 @@ func (parser *Parser) readDictionary(decryptor Decryptor) (Dictionary, bool) {
 		return dictionary, false
 	}
 
+	// stop reading if nested too deep
+	parser.depth++
+	defer func() { parser.depth-- }()
+	if parser.depth > max_depth {
+		parser.log_error(UnclosedDictionary)
+		return dictionary, false
+	}
+
 	// parse all key value pairs
 	for {
 		// read next object
-- 
2.43.0


From 7af8c424b54c2fcfb0ab36c4dd4e21c786515f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:57 +0000
Subject: [PATCH 25/51] fix: seeking to an invalid offset leaves the parser at
 an undefined position

---
 pdf/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pdf/parser.go b/pdf/parser.go
index 480f751..b354c4b 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -524,8 +524,14 @@ func (parser *Parser) getObject(number int, read_stream bool) *IndirectObject {
 	return object
 }
 
+// Seek moves to offset or to the end of the pdf if offset is outside of the pdf
 func (parser *Parser) Seek(offset int64, whence int) (int64, error) {
 	parser.Reset(parser.seeker)
+	if whence == io.SeekStart && offset != 0 {
+		if end, err := parser.seeker.Seek(0, io.SeekEnd); err != nil || offset < 0 || offset > end {
+			return end, err
+		}
+	}
 	return parser.seeker.Seek(offset, whence)
 }
 
-- 
2.43.0


From 5b74c3ff6d3e80ab2f7fc9ad26586570147b4de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:34 +0000
Subject: [PATCH 26/51] fix: a reference to something else is taken for an
 empty stream

---
 pdf/array.go      |  3 ++-
 pdf/dictionary.go |  3 ++-
 pdf/file.go       | 11 +++++++----
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/pdf/array.go b/pdf/array.go
index 966d3b0..4f42588 100644
--- a/pdf/array.go
+++ b/pdf/array.go
@@ -97,7 +97,8 @@ func (a Array) GetObject(index int) (Object, bool) {
 func (a Array) GetStream(index int) ([]byte, bool) {
 	if index >= 0 && index < len(a) {
 		if reference, ok := a[index].(*Reference); ok {
-			return reference.ResolveStream(), true
+			stream := reference.ResolveStream()
+			return stream, stream != nil
 		}
 	}
 	return []byte{}, false
diff --git a/pdf/dictionary.go b/pdf/dictionary.go
index 6e0e78c..862ec2e 100644
--- a/pdf/dictionary.go
+++ b/pdf/dictionary.go
@@ -166,7 +166,8 @@ func (d Dictionary) GetReference(key string) (*Reference, bool) {
 func (d Dictionary) GetStream(key string) ([]byte, bool) {
 	if object, ok := d[key]; ok {
 		if reference, ok := object.(*Reference); ok {
-			return reference.ResolveStream(), true
+			stream := reference.ResolveStream()
+			return stream, stream != nil
 		}
 	}
 	return []byte{}, false
diff --git a/pdf/file.go b/pdf/file.go
index 17ef598..be50a8b 100644
--- a/pdf/file.go
+++ b/pdf/file.go
@@ -17,10 +17,7 @@ func (file File) Extract(output *Output, isCommand bool) {
 		if f, ok := d.GetString("F"); ok {
 			fmt.Fprintln(output.URLs, f)
 		}
-	} else if ef, ok := d.GetDictionary("EF"); ok {
-		// get the file data
-		file_data, _ := ef.GetStream("F")
-
+	} else if file_data, ok := file.getEmbeddedFile(); ok {
 		// get the file path
 		f, ok := d.GetString("F")
 		if !ok {
@@ -41,3 +38,9 @@ func (file File) Extract(output *Output, isCommand bool) {
 		fmt.Fprintf(output.Files, "%s:%s\n", unknownHash, f)
 	}
 }
+
+// getEmbeddedFile gets the data of the file if it is embedded in the document
+func (file File) getEmbeddedFile() ([]byte, bool) {
+	ef, _ := Dictionary(file).GetDictionary("EF")
+	return ef.GetStream("F")
+}
-- 
2.43.0


From 5f8cc3885eba97d8af11ea01666046d3132e0ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:35 +0000
Subject: [PATCH 27/51] fix: dictionaries in an array that is an object of its
 own are skipped

---
 pdf/object.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pdf/object.go b/pdf/object.go
index bda1c2d..72645c3 100644
--- a/pdf/object.go
+++ b/pdf/object.go
@@ -31,10 +31,7 @@ func (object *IndirectObject) String() string {
 }
 
 func (object *IndirectObject) Extract(output *Output) {
-	// get object dictionary
-	if d, ok := object.Value.(Dictionary); ok {
-		extract(d, output)
-	}
+	extract(object.Value, output)
 }
 
 func extract(o Object, output *Output) {
-- 
2.43.0


From 27c45bad13dd990592450cc9d2d0e0331d287350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:36 +0000
Subject: [PATCH 28/51] fix: URL file specifications are taken for files

---
 pdf/file.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdf/file.go b/pdf/file.go
index be50a8b..9d3cb98 100644
--- a/pdf/file.go
+++ b/pdf/file.go
@@ -12,7 +12,10 @@ func (file File) Extract(output *Output, isCommand bool) {
 	d := Dictionary(file)
 
 	// file specification can be a url or file
-	fs, _ := d.GetString("FS")
+	fs, ok := d.GetName("FS")
+	if !ok {
+		fs, _ = d.GetString("FS")
+	}
 	if fs == "URL" {
 		if f, ok := d.GetString("F"); ok {
 			fmt.Fprintln(output.URLs, f)
-- 
2.43.0


From 46a686ae92176669f6b2dd76da5a20e9ffabf835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:37 +0000
Subject: [PATCH 29/51] fix: launch actions with a plain file name or behind
 another action are missed

---
 pdf/action.go | 31 +++++++++++++++++++++++++++++++
 pdf/file.go   |  2 +-
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/pdf/action.go b/pdf/action.go
index 0bcfdfb..e296803 100644
--- a/pdf/action.go
+++ b/pdf/action.go
@@ -7,6 +7,10 @@ import (
 type Action Dictionary
 
 func (a Action) Extract(output *Output) {
+	a.extract(output, map[int]interface{}{})
+}
+
+func (a Action) extract(output *Output, resolved_actions map[int]interface{}) {
 	d := Dictionary(a)
 
 	isCommand := false
@@ -16,6 +20,9 @@ func (a Action) Extract(output *Output) {
 
 	// filespecification can be in either F or Win[F]
 	if f, ok := d.GetString("F"); ok {
+		if isCommand {
+			fmt.Fprintln(output.Commands, f)
+		}
 		fmt.Fprintf(output.Files, "%s:%s\n", unknownHash, f)
 	} else if f, ok := d.GetDictionary("F"); ok {
 		File(f).Extract(output, isCommand)
@@ -23,4 +30,28 @@ func (a Action) Extract(output *Output) {
 	if win, ok := d.GetDictionary("Win"); ok {
 		File(win).Extract(output, isCommand)
 	}
+
+	// extract the actions performed after this one
+	if next, ok := d.GetArray("Next"); ok {
+		for i := range next {
+			extractNext(next[i], output, resolved_actions)
+		}
+	} else if next, ok := d["Next"]; ok {
+		extractNext(next, output, resolved_actions)
+	}
+}
+
+func extractNext(next Object, output *Output, resolved_actions map[int]interface{}) {
+	// prevent infinite loop
+	if ref, ok := next.(*Reference); ok {
+		if _, resolved := resolved_actions[ref.Number]; resolved {
+			return
+		}
+		resolved_actions[ref.Number] = nil
+		next = ref.Resolve()
+	}
+
+	if a, ok := next.(Dictionary); ok {
+		Action(a).extract(output, resolved_actions)
+	}
 }
diff --git a/pdf/file.go b/pdf/file.go
index 9d3cb98..54664b8 100644
--- a/pdf/file.go
+++ b/pdf/file.go
@@ -36,7 +36,7 @@ func (file File) Extract(output *Output, isCommand bool) {
 		}
 	} else if f, ok := d.GetString("F"); ok {
 		if isCommand {
-			fmt.Fprintf(output.Commands, "%s %s\n", f, p)
+			fmt.Fprintln(output.Commands, f)
 		}
 		fmt.Fprintf(output.Files, "%s:%s\n", unknownHash, f)
 	}
-- 
2.43.0


From df532529ebb9999f9b1deb8188390eb19ee596e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:14 +0000
Subject: [PATCH 30/51] fix: every second string of a TJ operator is dropped

---
 pdf/page.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf/page.go b/pdf/page.go
index f1abfaa..b94cd2d 100644
--- a/pdf/page.go
+++ b/pdf/page.go
@@ -72,7 +72,7 @@ func (page Page) extract(output *Output, font_map map[string]*Font, contents []b
 					// decode positioned text with current font
 					var sb strings.Builder
 					a, _ := operands.GetArray(len(operands) - 1)
-					for i := 0; i < len(a); i += 2 {
+					for i := range a {
 						s, _ := a.GetString(i)
 						sb.WriteString(string(s))
 					}
-- 
2.43.0


From f3a82a6465d8958df1d666a24459fa570281a676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:15 +0000
Subject: [PATCH 31/51] fix: a text block that is split into several content
 streams is lost

---
 pdf/page.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdf/page.go b/pdf/page.go
index b94cd2d..acab9ad 100644
--- a/pdf/page.go
+++ b/pdf/page.go
@@ -24,11 +24,15 @@ func (page Page) Extract(output *Output) {
 	if contents, ok := d.GetStream("Contents"); ok {
 		page.extract(output, font_map, contents)
 	} else if contents_array, ok := d.GetArray("Contents"); ok {
+		// contents can be split anywhere between two tokens
+		var all_contents bytes.Buffer
 		for i := range contents_array {
 			if contents, ok := contents_array.GetStream(i); ok {
-				page.extract(output, font_map, contents)
+				all_contents.Write(contents)
+				all_contents.WriteByte('\n')
 			}
 		}
+		page.extract(output, font_map, all_contents.Bytes())
 	}
 }
 
-- 
2.43.0


From a5bf90a5fe71f4695aa284d0fbe32b76cbea3ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:16 +0000
Subject: [PATCH 32/51] fix: text is decoded with the wrong font when it was
 selected in another text block

---
 pdf/keyword.go |  2 ++
 pdf/page.go    | 79 +++++++++++++++++++++++++++-----------------------
 2 files changed, 45 insertions(+), 36 deletions(-)

diff --git a/pdf/keyword.go b/pdf/keyword.go
index caa0883..9f3eaea 100644
--- a/pdf/keyword.go
+++ b/pdf/keyword.go
@@ -11,6 +11,8 @@ const (
 	KEYWORD_NULL = Keyword("null")
 	KEYWORD_TRUE = Keyword("true")
 	KEYWORD_FALSE = Keyword("false")
+	KEYWORD_SAVE = Keyword("q")
+	KEYWORD_RESTORE = Keyword("Q")
 	KEYWORD_TEXT = Keyword("BT")
 	KEYWORD_TEXT_END = Keyword("ET")
 	KEYWORD_TEXT_FONT = Keyword("Tf")
diff --git a/pdf/page.go b/pdf/page.go
index acab9ad..ca8c48f 100644
--- a/pdf/page.go
+++ b/pdf/page.go
@@ -40,50 +40,57 @@ func (page Page) extract(output *Output, font_map map[string]*Font, contents []b
 	// create parser for parsing contents
 	page_parser := NewParser(bytes.NewReader(contents), nil)
 
+	// font is part of the graphics state so it outlives text blocks
+	current_font := FontDefault
+	saved_fonts := []*Font{}
+	in_text := false
+
 	for {
 		// read next command
-		command, _, err := page_parser.ReadCommand()
+		command, operands, err := page_parser.ReadCommand()
 		if err == ReadError {
 			break
 		}
 
-		// start of text block
 		if command == KEYWORD_TEXT {
-			// initial font is none
-			current_font := FontDefault
-
-			for {
-				command, operands, err := page_parser.ReadCommand()
-				// stop if end of stream or end of text block
-				if err == ReadError || command == KEYWORD_TEXT_END {
-					break
-				}
-
-				// handle font changes
-				if command == KEYWORD_TEXT_FONT {
-					font_name, _ := operands.GetName(len(operands) - 2)
-					if font, ok := font_map[font_name]; ok {
-						current_font = font
-					} else {
-						current_font = FontDefault
-					}
-				} else if command == KEYWORD_TEXT_SHOW_1 || command == KEYWORD_TEXT_SHOW_2 || command == KEYWORD_TEXT_SHOW_3 {
-					// decode text with current font font
-					s, _ := operands.GetString(len(operands) - 1)
-					io.WriteString(output.Text, current_font.Decode([]byte(s)))
-					io.WriteString(output.Text, "\n")
-				} else if command == KEYWORD_TEXT_POSITION {
-					// decode positioned text with current font
-					var sb strings.Builder
-					a, _ := operands.GetArray(len(operands) - 1)
-					for i := range a {
-						s, _ := a.GetString(i)
-						sb.WriteString(string(s))
-					}
-					io.WriteString(output.Text, current_font.Decode([]byte(sb.String())))
-					io.WriteString(output.Text, "\n")
-				}
+			// start of text block
+			in_text = true
+		} else if command == KEYWORD_TEXT_END {
+			// end of text block
+			in_text = false
+		} else if command == KEYWORD_SAVE {
+			saved_fonts = append(saved_fonts, current_font)
+		} else if command == KEYWORD_RESTORE {
+			if last := len(saved_fonts) - 1; last >= 0 {
+				current_font = saved_fonts[last]
+				saved_fonts = saved_fonts[:last]
+			}
+		} else if command == KEYWORD_TEXT_FONT {
+			// handle font changes
+			font_name, _ := operands.GetName(len(operands) - 2)
+			if font, ok := font_map[font_name]; ok {
+				current_font = font
+			} else {
+				current_font = FontDefault
+			}
+		} else if !in_text {
+			// text is only shown in text blocks
+			continue
+		} else if command == KEYWORD_TEXT_SHOW_1 || command == KEYWORD_TEXT_SHOW_2 || command == KEYWORD_TEXT_SHOW_3 {
+			// decode text with current font font
+			s, _ := operands.GetString(len(operands) - 1)
+			io.WriteString(output.Text, current_font.Decode([]byte(s)))
+			io.WriteString(output.Text, "\n")
+		} else if command == KEYWORD_TEXT_POSITION {
+			// decode positioned text with current font
+			var sb strings.Builder
+			a, _ := operands.GetArray(len(operands) - 1)
+			for i := range a {
+				s, _ := a.GetString(i)
+				sb.WriteString(string(s))
 			}
+			io.WriteString(output.Text, current_font.Decode([]byte(sb.String())))
+			io.WriteString(output.Text, "\n")
 		}
 	}
 }
-- 
2.43.0


From d7d5d182e705b98253b117360bf15804564dcd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:17 +0000
Subject: [PATCH 33/51] fix: fonts inherited from the page tree are ignored

---
 pdf/dictionary.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pdf/dictionary.go b/pdf/dictionary.go
index 862ec2e..2d82b36 100644
--- a/pdf/dictionary.go
+++ b/pdf/dictionary.go
@@ -145,6 +145,13 @@ func (d Dictionary) ResolveKids(resolved_kids map[int]interface{}) []Dictionary
 				// resolve
 				object := r.Resolve()
 				if kid_d, ok := object.(Dictionary); ok {
+					// inherit resources
+					if _, ok := kid_d["Resources"]; !ok {
+						if resources, ok := d["Resources"]; ok {
+							kid_d["Resources"] = resources
+						}
+					}
+
 					// recursively resolve kids
 					kids_list = append(kids_list, kid_d.ResolveKids(resolved_kids)...)
 				}
-- 
2.43.0


From 038a8c0a47433eea0338a684301bec8cf4f6dfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:36 +0000
Subject: [PATCH 34/51] fix: all codes of a range are mapped to the value of
 the first one

---
 pdf/font.go | 42 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/pdf/font.go b/pdf/font.go
index 6f911f1..1469eaf 100644
--- a/pdf/font.go
+++ b/pdf/font.go
@@ -5,19 +5,39 @@ import (
 	"strings"
 )
 
-var FontDefault *Font = &Font{map[int]string{}, 1}
+var FontDefault *Font = &Font{map[int]string{}, nil, 1}
 
 type Font struct {
 	Cmap map[int]string
+	ranges []cmapRange
 	Width int
 }
 
+// cmapRange maps the codes from start to end to consecutive values
+type cmapRange struct {
+	start int
+	end int
+	value string
+}
+
+// get returns the value of code which is value with code - start added to it
+func (r cmapRange) get(code int) string {
+	value := []byte(r.value)
+	carry := code - r.start
+	for i := len(value) - 1; i >= 0 && carry > 0; i-- {
+		carry += int(value[i])
+		value[i] = byte(carry)
+		carry >>= 8
+	}
+	return string(value)
+}
+
 func NewFont(d Dictionary) *Font {
 	cmap_string, _ := d.GetStream("ToUnicode")
 	cmap := []byte(cmap_string)
 
 	// create new font object
-	font := &Font{map[int]string{}, 1}
+	font := &Font{map[int]string{}, nil, 1}
 
 	// create parser for parsing cmap
 	parser := NewParser(bytes.NewReader(cmap), nil)
@@ -50,9 +70,7 @@ func NewFont(d Dictionary) *Font {
 					break
 				}
 
-				for j := start; j <= end; j++ {
-					font.Cmap[j] = string(value)
-				}
+				font.ranges = append(font.ranges, cmapRange{start, end, string(value)})
 			}
 		} else if command == KEYWORD_BEGIN_BF_CHAR {
 			count, _ := operands.GetInt(len(operands) - 1)
@@ -82,7 +100,7 @@ func (font *Font) Decode(b []byte) string {
 	for i := 0; i + font.Width <= len(b); i += font.Width {
 		bs := b[i:i + font.Width]
 		k := BytesToInt(bs)
-		if v, ok := font.Cmap[k]; ok {
+		if v, ok := font.lookup(k); ok {
 			s.WriteString(v)
 		} else {
 			s.WriteString(string(bs))
@@ -90,3 +108,15 @@ func (font *Font) Decode(b []byte) string {
 	}
 	return s.String()
 }
+
+func (font *Font) lookup(code int) (string, bool) {
+	if v, ok := font.Cmap[code]; ok {
+		return v, true
+	}
+	for i := len(font.ranges) - 1; i >= 0; i-- {
+		if r := font.ranges[i]; code >= r.start && code <= r.end {
+			return r.get(code), true
+		}
+	}
+	return "", false
+}
-- 
2.43.0


From 2c2a4ae7f7f52d014e5a3195a3c89ce9bf909ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:37 +0000
Subject: [PATCH 35/51] fix: the last byte of text with two-byte codes is
 dropped

---
 pdf/font.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdf/font.go b/pdf/font.go
index 1469eaf..4398964 100644
--- a/pdf/font.go
+++ b/pdf/font.go
@@ -97,7 +97,8 @@ func NewFont(d Dictionary) *Font {
 
 func (font *Font) Decode(b []byte) string {
 	var s strings.Builder
-	for i := 0; i + font.Width <= len(b); i += font.Width {
+	i := 0
+	for ; i + font.Width <= len(b); i += font.Width {
 		bs := b[i:i + font.Width]
 		k := BytesToInt(bs)
 		if v, ok := font.lookup(k); ok {
@@ -106,6 +107,9 @@ func (font *Font) Decode(b []byte) string {
 			s.WriteString(string(bs))
 		}
 	}
+
+	// part of a code is not mapped
+	s.Write(b[i:])
 	return s.String()
 }
 
-- 
2.43.0


From 6595692b1edb7893ec0a1429ee918a941783682a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:26 +0000
Subject: [PATCH 36/51] fix: a comment inside an object header no longer hides
 the object from the scan

---
 pdf/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index b354c4b..dd316a3 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -12,7 +12,7 @@ import (
 
 var start_xref_scan_buffer_size int64 = 256
 var start_xref_regexp = regexp.MustCompile(`startxref\s*(\d+)\s*%%EOF`)
-var start_obj_regexp = regexp.MustCompile(`\d+([\s\x00]|(%[^\r\n]*))+\d+([\s\x00]|(%[^\r\n]*))+obj`)
+var start_obj_regexp = regexp.MustCompile(`\d+([\s\x00]|(%[^\r\n]*[\r\n]))+\d+([\s\x00]|(%[^\r\n]*[\r\n]))+obj`)
 var xref_regexp = regexp.MustCompile(`\bxref`)
 var max_depth int = 500
 var whitespace = []byte("\x00\t\n\f\r ")
-- 
2.43.0


From 1faafca7681707716fa1e3c1e598398e3349f9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:35 +0000
Subject: [PATCH 37/51] fix: a torn update keeps the complete copy of the
 object it cuts off

---
 pdf/keyword.go |  1 +
 pdf/parser.go  | 48 +++++++++++++++++++++++++++++++++++++++++++++---
 2 files changed, 46 insertions(+), 3 deletions(-)

diff --git a/pdf/keyword.go b/pdf/keyword.go
index 9f3eaea..6e315a0 100644
--- a/pdf/keyword.go
+++ b/pdf/keyword.go
@@ -4,6 +4,7 @@ const (
 	KEYWORD_XREF = Keyword("xref")
 	KEYWORD_TRAILER = Keyword("trailer")
 	KEYWORD_OBJ = Keyword("obj")
+	KEYWORD_END_OBJ = Keyword("endobj")
 	KEYWORD_STREAM = Keyword("stream")
 	KEYWORD_R = Keyword("R")
 	KEYWORD_N = Keyword("n")
diff --git a/pdf/parser.go b/pdf/parser.go
index dd316a3..574a563 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"bytes"
 	"io"
+	"math"
 	"regexp"
 	"sort"
 	"strconv"
@@ -13,6 +14,7 @@ import (
 var start_xref_scan_buffer_size int64 = 256
 var start_xref_regexp = regexp.MustCompile(`startxref\s*(\d+)\s*%%EOF`)
 var start_obj_regexp = regexp.MustCompile(`\d+([\s\x00]|(%[^\r\n]*[\r\n]))+\d+([\s\x00]|(%[^\r\n]*[\r\n]))+obj`)
+var end_stream_regexp = regexp.MustCompile(`endstream`)
 var xref_regexp = regexp.MustCompile(`\bxref`)
 var max_depth int = 500
 var whitespace = []byte("\x00\t\n\f\r ")
@@ -54,11 +56,12 @@ type Parser struct {
 	security_handler *SecurityHandler
 	output *Output
 	depth int
+	last_object_offset int64
 }
 
 func NewParser(readSeeker io.ReadSeeker, output *Output) *Parser {
 	seeker := &source{readSeeker, nil}
-	return &Parser{bufio.NewReader(seeker), seeker, map[int]*XrefEntry{}, Dictionary{}, NewSecurityHandler(), output, 0}
+	return &Parser{bufio.NewReader(seeker), seeker, map[int]*XrefEntry{}, Dictionary{}, NewSecurityHandler(), output, 0, math.MaxInt64}
 }
 
 func (parser *Parser) Load(password string) error {
@@ -157,6 +160,10 @@ func (parser *Parser) findObjects() map[int]*XrefEntry {
 	// create xref map
 	objects := map[int]*XrefEntry{}
 
+	// keep track of the last object in the file and the copy it replaces
+	last_object_number := -1
+	var replaced_object *XrefEntry
+
 	// jump to start of file
 	offset, _ := parser.Seek(0, io.SeekStart)
 
@@ -174,6 +181,7 @@ func (parser *Parser) findObjects() map[int]*XrefEntry {
 		n, g, ok := parser.ReadObjectHeader()
 		if ok {
 			// add xref entry
+			last_object_number, replaced_object = n, objects[n]
 			objects[n] = NewXrefEntry(offset + int64(index[0]), g, XrefTypeIndirectObject)
 
 			// determine if object is xref stream
@@ -188,9 +196,33 @@ func (parser *Parser) findObjects() map[int]*XrefEntry {
 		offset, _ = parser.Seek(offset + int64(index[1]), io.SeekStart)
 	}
 
+	// keep the previous copy of the last object if the file is cut off inside of it
+	if replaced_object != nil && !parser.isComplete(objects[last_object_number]) {
+		parser.last_object_offset = objects[last_object_number].Offset - 1
+		objects[last_object_number] = replaced_object
+	} else if last_object_number >= 0 {
+		parser.last_object_offset = objects[last_object_number].Offset
+	}
+
 	return objects
 }
 
+// isComplete returns false if the file ends before the object does
+func (parser *Parser) isComplete(object *XrefEntry) bool {
+	parser.Seek(object.Offset, io.SeekStart)
+	parser.ReadObjectHeader()
+	parser.ReadObject(noDecryptor)
+	keyword := parser.ReadKeyword()
+	if keyword == KEYWORD_STREAM {
+		return end_stream_regexp.FindReaderIndex(parser) != nil
+	}
+	if keyword == KEYWORD_END_OBJ {
+		return true
+	}
+	_, err := parser.ReadByte()
+	return err == nil
+}
+
 func (parser *Parser) getStartXrefOffset() (int64, bool) {
 	// start reading from the end of the file
 	offset, _ := parser.Seek(0, io.SeekEnd)
@@ -324,7 +356,7 @@ subsections:
 
 	// merge xrefs
 	for key, value := range xrefs {
-		parser.Xref[key] = value
+		parser.addXrefEntry(key, value)
 	}
 }
 
@@ -411,7 +443,7 @@ subsections:
 			object_number := subsection_start + j
 
 			// add the object to the xrefs
-			parser.Xref[object_number] = NewXrefEntry(offset, generation, xref_type)
+			parser.addXrefEntry(object_number, NewXrefEntry(offset, generation, xref_type))
 		}
 	}
 
@@ -421,6 +453,16 @@ subsections:
 	return true
 }
 
+// addXrefEntry adds an entry to the xref unless it replaces another with one that points past the end of the last object
+func (parser *Parser) addXrefEntry(number int, entry *XrefEntry) {
+	if entry.Type == XrefTypeIndirectObject && entry.Offset > parser.last_object_offset {
+		if _, exists := parser.Xref[number]; exists {
+			return
+		}
+	}
+	parser.Xref[number] = entry
+}
+
 func (parser *Parser) GetObject(number int) *IndirectObject {
 	return parser.getObject(number, true)
 }
-- 
2.43.0


From eb7a8fe086f2f9a8c22265928acad56aa2debaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:42 +0000
Subject: [PATCH 38/51] fix: a cross-reference stream that can not be decoded
 is not read as entries

---
 pdf/object.go |  3 ++-
 pdf/parser.go | 17 +++++++++--------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/pdf/object.go b/pdf/object.go
index 72645c3..549aca6 100644
--- a/pdf/object.go
+++ b/pdf/object.go
@@ -14,10 +14,11 @@ type IndirectObject struct {
 	Generation int
 	Value Object
 	Stream []byte
+	is_decoded bool
 }
 
 func NewIndirectObject(number int) *IndirectObject {
-	return &IndirectObject{number, 0, KEYWORD_NULL, nil}
+	return &IndirectObject{number, 0, KEYWORD_NULL, nil, false}
 }
 
 func (object *IndirectObject) String() string {
diff --git a/pdf/parser.go b/pdf/parser.go
index 574a563..65e645c 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -367,7 +367,7 @@ func (parser *Parser) loadXrefStream(n int, xref_stream_offset int64, offsets ma
 
 	// get the stream dictionary which is also the trailer dictionary
 	trailer, ok := object.Value.(Dictionary)
-	if !ok || object.Stream == nil {
+	if !ok || object.Stream == nil || !object.is_decoded {
 		return false
 	}
 	if t, ok := trailer.GetName("Type"); ok && t != "XRef" {
@@ -558,7 +558,7 @@ func (parser *Parser) getObject(number int, read_stream bool) *IndirectObject {
 				}
 
 				// read the stream
-				object.Stream = parser.ReadStream(stream_decryptor, filter_list, decode_parms_list, length)
+				object.Stream, object.is_decoded = parser.ReadStream(stream_decryptor, filter_list, decode_parms_list, length)
 			}
 		}
 	}
@@ -1045,8 +1045,9 @@ func (parser *Parser) ReadNumber() Number {
 	return number
 }
 
-// ReadStream reads length bytes if the stream ends there, otherwise it reads until the first end of stream marker
-func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_parms_list Array, length int64) []byte {
+// ReadStream reads length bytes if the stream ends there, otherwise it reads until the first end of stream marker.
+// It returns false if the stream can not be decoded
+func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_parms_list Array, length int64) ([]byte, bool) {
 	// create buffers for stream data
 	stream_data := bytes.NewBuffer([]byte{})
 
@@ -1055,7 +1056,7 @@ func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_
 		b, err := parser.ReadByte()
 		if err != nil {
 			parser.log_error(UnclosedStream)
-			return stream_data.Bytes()
+			return stream_data.Bytes(), true
 		}
 
 		// if new line then we are at the start of the stream data
@@ -1068,7 +1069,7 @@ func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_
 			b, err := parser.ReadByte()
 			if err != nil {
 				parser.log_error(UnclosedStream)
-				return stream_data.Bytes()
+				return stream_data.Bytes(), true
 			}
 			// if not new line then put it back cause it is part of the stream data
 			if b != '\n' {
@@ -1133,10 +1134,10 @@ func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_
 	stream_data_bytes := decryptor.Decrypt(stream_data.Bytes())
 
 	// decode stream
+	ok := true
 	for i := 0; i < len(filter_list); i++ {
 		filter, _ := filter_list.GetName(i)
 		decode_parms, _ := decode_parms_list.GetDictionary(i)
-		var ok bool
 		if stream_data_bytes, ok = DecodeStream(filter, stream_data_bytes, decode_parms); !ok {
 			// the next filter needs what this one could not decode
 			break
@@ -1149,7 +1150,7 @@ func (parser *Parser) ReadStream(decryptor Decryptor, filter_list Array, decode_
 	}
 
 	// return the decrypted and decoded stream
-	return stream_data_bytes
+	return stream_data_bytes, ok
 }
 
 // isStreamEnd returns true if an end of stream marker follows length bytes after start
-- 
2.43.0


From 879951c239e8be1e0b08d5cb0d637d753efd1b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:44 +0000
Subject: [PATCH 39/51] fix: a name tree whose kids array contains itself ends

---
 pdf/dictionary.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pdf/dictionary.go b/pdf/dictionary.go
index 2d82b36..6fd0286 100644
--- a/pdf/dictionary.go
+++ b/pdf/dictionary.go
@@ -88,6 +88,14 @@ func (d Dictionary) getNameTreeMap(resolved_kids map[int]interface{}) Array {
 		nameTreeMap = append(nameTreeMap, names...)
 	}
 	if kids, ok := d.GetArray("Kids"); ok {
+		// ignore kids that are already being resolved
+		if r, ok := d.GetReference("Kids"); ok {
+			if _, resolved := resolved_kids[r.Number]; resolved {
+				return nameTreeMap
+			}
+			resolved_kids[r.Number] = nil
+		}
+
 		for i := range kids {
 			// prevent infinite resolve reference loop
 			if r, ok := kids[i].(*Reference); ok {
-- 
2.43.0


From 871aa46e96b43ea63bc9042f6233e4a49349dcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:46 +0000
Subject: [PATCH 40/51] fix: following actions in an array that contains itself
 ends

---
 pdf/action.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pdf/action.go b/pdf/action.go
index e296803..1cbe92d 100644
--- a/pdf/action.go
+++ b/pdf/action.go
@@ -32,13 +32,7 @@ func (a Action) extract(output *Output, resolved_actions map[int]interface{}) {
 	}
 
 	// extract the actions performed after this one
-	if next, ok := d.GetArray("Next"); ok {
-		for i := range next {
-			extractNext(next[i], output, resolved_actions)
-		}
-	} else if next, ok := d["Next"]; ok {
-		extractNext(next, output, resolved_actions)
-	}
+	extractNext(d["Next"], output, resolved_actions)
 }
 
 func extractNext(next Object, output *Output, resolved_actions map[int]interface{}) {
@@ -53,5 +47,9 @@ func extractNext(next Object, output *Output, resolved_actions map[int]interface
 
 	if a, ok := next.(Dictionary); ok {
 		Action(a).extract(output, resolved_actions)
+	} else if a, ok := next.(Array); ok {
+		for i := range a {
+			extractNext(a[i], output, resolved_actions)
+		}
 	}
 }
-- 
2.43.0


From 21924b13ab540baf74e0c9bec623bc1a5979b911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:53 +0000
Subject: [PATCH 41/51] fix: a torn row of the TIFF predictor is padded with
 bytes that are not there

---
 pdf/filters.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdf/filters.go b/pdf/filters.go
index b30465b..da6be60 100644
--- a/pdf/filters.go
+++ b/pdf/filters.go
@@ -323,7 +323,10 @@ func ReversePredictor(data []byte, decode_parms Dictionary) []byte {
 					pos := row_start + ((c * colors + i) * bits_per_component)
 					if pos + bits_per_component > len(data) * 8 {
 						// drop a component that is cut off, its value is not known
-						return data[:pos / 8]
+						if pos / 8 < len(data) {
+							data = data[:pos / 8]
+						}
+						return data
 					}
 					prev_value := GetBits(data, pos - (colors * bits_per_component), bits_per_component)
 					value := GetBits(data, pos, bits_per_component)
-- 
2.43.0


From e781c5b7d7529a322f16b546eb952c522c812f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:07 +0000
Subject: [PATCH 42/51] fix: an incomplete escape in a name is also logged as
 an unnecessary one

---
 pdf/parser.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index 65e645c..d09af4a 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -939,7 +939,8 @@ func (parser *Parser) ReadName() Name {
 		if b == '#' {
 			// read in the hex code
 			code := []byte{'0', '0'}
-			for i := 0; i < 2; i++ {
+			digits := 0
+			for ; digits < 2; digits++ {
 				b, err = parser.ReadByte()
 				if err != nil {
 					break
@@ -949,7 +950,7 @@ func (parser *Parser) ReadName() Name {
 					parser.UnreadByte()
 					break
 				}
-				code[i] = b
+				code[digits] = b
 			}
 
 			// convert the hex code to a byte
@@ -957,7 +958,7 @@ func (parser *Parser) ReadName() Name {
 			b = byte(val)
 
 			// if b did not need to be escaped
-			if b >= '!' && b <= '~' && b != '#' && bytes.IndexByte(delimiters, b) < 0 {
+			if digits == 2 && b >= '!' && b <= '~' && b != '#' && bytes.IndexByte(delimiters, b) < 0 {
 				parser.log_error(UnnecessaryEscapeName)
 			}
 		}
-- 
2.43.0


From 203442ee1b6423814a1c6d5d5306ad118aa68fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:14 +0000
Subject: [PATCH 43/51] fix: do not take the last digits of an object number
 for an object header

---
 pdf/parser.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index d09af4a..701fca3 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -93,8 +93,7 @@ func (parser *Parser) Load(password string) error {
 	for object_number, object := range objects {
 		if xref_entry, ok := parser.Xref[object_number]; ok {
 			// replace xref entry if it does not point to an object or points to the wrong object
-			parser.Seek(xref_entry.Offset, io.SeekStart)
-			n, _, ok := parser.ReadObjectHeader()
+			n, _, ok := parser.readObjectHeaderAt(xref_entry.Offset)
 			if xref_entry.Type == XrefTypeIndirectObject && (!ok || n != object_number) {
 				parser.Xref[object_number] = object
 			}
@@ -266,8 +265,7 @@ func (parser *Parser) loadXref(offset int64, offsets map[int64]interface{}) {
 			parser.loadXrefTable(offsets)
 		} else {
 			// if xref is a stream
-			parser.Seek(offset, io.SeekStart)
-			if n, g, ok := parser.ReadObjectHeader(); ok {
+			if n, g, ok := parser.readObjectHeaderAt(offset); ok {
 				// prevent decrypting xref streams
 				previous_entry, exists := parser.Xref[n]
 				parser.Xref[n] = NewXrefEntry(offset, g, XrefTypeIndirectObject)
@@ -606,6 +604,19 @@ func (parser *Parser) ReadObjectHeader() (int, int, bool) {
 	return number, generation, true
 }
 
+// readObjectHeaderAt reads the object header at offset unless offset is inside of the object number
+func (parser *Parser) readObjectHeaderAt(offset int64) (int, int, bool) {
+	if offset > 0 {
+		parser.Seek(offset - 1, io.SeekStart)
+		b, _ := parser.Peek(2)
+		if len(b) == 2 && b[0] >= '0' && b[0] <= '9' && b[1] >= '0' && b[1] <= '9' {
+			return 0, 0, false
+		}
+	}
+	parser.Seek(offset, io.SeekStart)
+	return parser.ReadObjectHeader()
+}
+
 func (parser *Parser) ReadObject(decryptor Decryptor) (Object, error) {
 	// consume any leading whitespace/comments
 	parser.consumeWhitespace()
-- 
2.43.0


From cd4d7ba896040005123911e3d2f53cc7e5893c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:48 +0000
Subject: [PATCH 44/51] fix: do not decrypt metadata that the encryption
 dictionary leaves in the clear

---
 pdf/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdf/parser.go b/pdf/parser.go
index 701fca3..1543302 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -529,6 +529,11 @@ func (parser *Parser) getObject(number int, read_stream bool) *IndirectObject {
 						crypt_filter = parser.security_handler.file_filter
 					}
 
+					// metadata is not encrypted if encrypt metadata is false
+					if t, ok := d.GetName("Type"); ok && t == "Metadata" && parser.security_handler.r == 4 && !parser.security_handler.encrypt_meta_data {
+						crypt_filter = noFilter
+					}
+
 					// handle crypt filter override
 					if len(filter_list) > 0 {
 						if filter, _ := filter_list.GetName(0); filter == "Crypt" {
-- 
2.43.0


From e07c902bd9f2e9b7c983a7d3b5e5dd323c14aae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:07 +0000
Subject: [PATCH 45/51] fix: skip damaged xref entries instead of losing the
 rest of the section

---
 pdf/parser.go | 87 ++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 76 insertions(+), 11 deletions(-)

diff --git a/pdf/parser.go b/pdf/parser.go
index 1543302..2720856 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -17,6 +17,7 @@ var start_obj_regexp = regexp.MustCompile(`\d+([\s\x00]|(%[^\r\n]*[\r\n]))+\d+([
 var end_stream_regexp = regexp.MustCompile(`endstream`)
 var xref_regexp = regexp.MustCompile(`\bxref`)
 var max_depth int = 500
+var xref_entry_size int64 = 20
 var whitespace = []byte("\x00\t\n\f\r ")
 var delimiters = []byte("()<>[]/%")
 
@@ -297,32 +298,55 @@ subsections:
 		}
 
 		// get subsection length
+		separator, _ := parser.Peek(2)
+		is_separated := len(separator) == 2 && separator[0] == ' ' && separator[1] >= '0' && separator[1] <= '9'
 		subsection_length, ok := parser.ReadInt()
 		if !ok {
 			break
 		}
 
+		// entries should start on the next line and be 20 bytes long
+		next_entry, is_standard := parser.findNextLine()
+		is_standard = is_standard && is_separated
+
 		// load each object in xref subsection
 		for i := 0; i < subsection_length; i++ {
-			// find xref entry offset
-			offset, ok := parser.ReadInt64()
-			if !ok {
-				break subsections
+			// skip entries that were overwritten with whitespace
+			parser.consumeWhitespace()
+			entry := parser.CurrentOffset()
+			if missing := (entry - next_entry) / xref_entry_size; is_standard && missing > 0 {
+				i += int(missing)
+				next_entry += missing * xref_entry_size
+				if i >= subsection_length {
+					break
+				}
 			}
 
-			// find xref entry generation
-			generation, ok := parser.ReadInt()
-			if !ok {
+			// skip damaged entries
+			offset, generation, flag, ok := parser.readXrefEntry()
+			if !ok && !is_standard {
 				break subsections
 			}
+			if !ok || is_standard && parser.CurrentOffset() > entry + xref_entry_size {
+				damaged_entry := next_entry
+				if entry < next_entry {
+					// this is what is left of the previous entry
+					damaged_entry = entry
+					i--
+				} else {
+					next_entry += xref_entry_size
+				}
+				if !parser.skipXrefEntry(damaged_entry, next_entry) {
+					break subsections
+				}
+				continue
+			}
+			next_entry = entry + xref_entry_size
 
-			// find xref entry in use flag
-			flag := parser.ReadKeyword()
+			// determine type from in use flag
 			xref_type := XrefTypeFreeObject
 			if flag == KEYWORD_N {
 				xref_type = XrefTypeIndirectObject
-			} else if flag != KEYWORD_F {
-				break subsections
 			}
 
 			// determine object number from subsection start
@@ -358,6 +382,47 @@ subsections:
 	}
 }
 
+// readXrefEntry reads the offset, generation and in use flag of an xref entry and returns false if they are damaged
+func (parser *Parser) readXrefEntry() (int64, int, Keyword, bool) {
+	offset, ok := parser.ReadInt64()
+	if !ok {
+		return 0, 0, KEYWORD_NULL, false
+	}
+	generation, ok := parser.ReadInt()
+	if !ok {
+		return 0, 0, KEYWORD_NULL, false
+	}
+	if separator, _ := parser.Peek(1); bytes.IndexAny(separator, string(whitespace)) != 0 {
+		return 0, 0, KEYWORD_NULL, false
+	}
+	flag := parser.ReadKeyword()
+	return offset, generation, flag, flag == KEYWORD_N || flag == KEYWORD_F
+}
+
+// skipXrefEntry skips a damaged xref entry and returns false if the xref table ends there
+func (parser *Parser) skipXrefEntry(start int64, end int64) bool {
+	parser.Seek(start, io.SeekStart)
+	size := int(end - start)
+	entry, _ := parser.Peek(size + len(KEYWORD_TRAILER) - 1)
+	if trailer := strings.Index(string(entry), string(KEYWORD_TRAILER)); trailer >= 0 {
+		parser.Discard(trailer)
+		return false
+	}
+	n, _ := parser.Discard(size)
+	return n == size
+}
+
+// findNextLine returns the offset of the next line and false if anything else is left on the current line
+func (parser *Parser) findNextLine() (int64, bool) {
+	offset := parser.CurrentOffset()
+	line, _ := parser.Peek(4)
+	end := len(line) - len(bytes.TrimLeft(line, " "))
+	if bytes.HasPrefix(line[end:], []byte("\r\n")) {
+		return offset + int64(end) + 2, true
+	}
+	return offset + int64(end) + 1, bytes.IndexAny(line[end:], "\r\n") == 0
+}
+
 // loadXrefStream returns false if the object is not an xref stream
 func (parser *Parser) loadXrefStream(n int, xref_stream_offset int64, offsets map[int64]interface{}) bool {
 	// Get the xref stream object
-- 
2.43.0


From 37d84deb3e865096e838c1c4d2bb07cef423e0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:18 +0000
Subject: [PATCH 46/51] fix: empty values and arrays in to unicode maps no
 longer end the list

---
 pdf/font.go | 79 +++++++++++++++++++++++++++--------------------------
 1 file changed, 41 insertions(+), 38 deletions(-)

diff --git a/pdf/font.go b/pdf/font.go
index 4398964..6e740fe 100644
--- a/pdf/font.go
+++ b/pdf/font.go
@@ -42,57 +42,60 @@ func NewFont(d Dictionary) *Font {
 	// create parser for parsing cmap
 	parser := NewParser(bytes.NewReader(cmap), nil)
 
+	// operands that follow a begin command are the entries of the list it starts
+	list := KEYWORD_NULL
 	for {
 		// read next command
 		command, operands, err := parser.ReadCommand()
+		if list == KEYWORD_BEGIN_BF_RANGE {
+			font.addRanges(operands)
+		} else if list == KEYWORD_BEGIN_BF_CHAR {
+			font.addChars(operands)
+		}
 		if err == ReadError {
 			break
 		}
+		list = command
+	}
 
-		if command == KEYWORD_BEGIN_BF_RANGE {
-			count, _ := operands.GetInt(len(operands) - 1)
-			for i := 0; i < count; i++ {
-				start_b := parser.ReadHexString(noDecryptor)
-				if start_b == "" {
-					break
-				}
-				font.Width = len([]byte(start_b))
-				start := BytesToInt([]byte(start_b))
-
-				end_b := parser.ReadHexString(noDecryptor)
-				if end_b == "" {
-					break
-				}
-				end := BytesToInt([]byte(end_b))
-
-				value := parser.ReadHexString(noDecryptor)
-				if value == "" {
-					break
-				}
-
-				font.ranges = append(font.ranges, cmapRange{start, end, string(value)})
-			}
-		} else if command == KEYWORD_BEGIN_BF_CHAR {
-			count, _ := operands.GetInt(len(operands) - 1)
-			for i := 0; i < count; i++ {
-				key_b := parser.ReadHexString(noDecryptor)
-				if key_b == "" {
-					break
-				}
-				font.Width = len([]byte(key_b))
-				key := BytesToInt([]byte(key_b))
+	return font
+}
 
-				value := parser.ReadHexString(noDecryptor)
-				if value == "" {
-					break
+// addRanges adds entries of a start code, an end code and either the first value or an array of values
+func (font *Font) addRanges(entries Array) {
+	for i := 0; i + 2 < len(entries); i += 3 {
+		start_b, _ := entries.GetBytes(i)
+		end_b, _ := entries.GetBytes(i + 1)
+		if len(start_b) == 0 || len(end_b) == 0 {
+			continue
+		}
+		font.Width = len(start_b)
+		start := BytesToInt(start_b)
+		end := BytesToInt(end_b)
+
+		if value, ok := entries.GetString(i + 2); ok {
+			font.ranges = append(font.ranges, cmapRange{start, end, value})
+		} else if values, ok := entries.GetArray(i + 2); ok {
+			for j := 0; j < len(values) && start + j <= end; j++ {
+				if value, ok := values.GetString(j); ok {
+					font.Cmap[start + j] = value
 				}
-
-				font.Cmap[key] = string(value)
 			}
 		}
 	}
+}
 
-	return font
+// addChars adds entries of a code and its value
+func (font *Font) addChars(entries Array) {
+	for i := 0; i + 1 < len(entries); i += 2 {
+		key_b, _ := entries.GetBytes(i)
+		value, ok := entries.GetString(i + 1)
+		if len(key_b) == 0 || !ok {
+			continue
+		}
+		font.Width = len(key_b)
+		font.Cmap[BytesToInt(key_b)] = value
+	}
 }
 
 func (font *Font) Decode(b []byte) string {
-- 
2.43.0


From 3f0f3c619198f589f37b542682945b71cbe32d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:20 +0000
Subject: [PATCH 47/51] fix: do not take inline image data for text operators

---
 pdf/keyword.go |  2 ++
 pdf/page.go    |  9 +++++++++
 pdf/parser.go  | 13 +++++++++++++
 3 files changed, 24 insertions(+)

diff --git a/pdf/keyword.go b/pdf/keyword.go
index 6e315a0..6854fc3 100644
--- a/pdf/keyword.go
+++ b/pdf/keyword.go
@@ -14,6 +14,8 @@ const (
 	KEYWORD_FALSE = Keyword("false")
 	KEYWORD_SAVE = Keyword("q")
 	KEYWORD_RESTORE = Keyword("Q")
+	KEYWORD_IMAGE = Keyword("BI")
+	KEYWORD_IMAGE_DATA = Keyword("ID")
 	KEYWORD_TEXT = Keyword("BT")
 	KEYWORD_TEXT_END = Keyword("ET")
 	KEYWORD_TEXT_FONT = Keyword("Tf")
diff --git a/pdf/page.go b/pdf/page.go
index ca8c48f..8216324 100644
--- a/pdf/page.go
+++ b/pdf/page.go
@@ -44,6 +44,8 @@ func (page Page) extract(output *Output, font_map map[string]*Font, contents []b
 	current_font := FontDefault
 	saved_fonts := []*Font{}
 	in_text := false
+	in_image := false
+	is_image_closed := true
 
 	for {
 		// read next command
@@ -58,6 +60,13 @@ func (page Page) extract(output *Output, font_map map[string]*Font, contents []b
 		} else if command == KEYWORD_TEXT_END {
 			// end of text block
 			in_text = false
+		} else if command == KEYWORD_IMAGE {
+			// start of inline image
+			in_image = is_image_closed
+		} else if command == KEYWORD_IMAGE_DATA && in_image {
+			// inline image data can look like anything
+			is_image_closed = page_parser.skipImageData()
+			in_image = false
 		} else if command == KEYWORD_SAVE {
 			saved_fonts = append(saved_fonts, current_font)
 		} else if command == KEYWORD_RESTORE {
diff --git a/pdf/parser.go b/pdf/parser.go
index 2720856..6b9ed0b 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -15,6 +15,7 @@ var start_xref_scan_buffer_size int64 = 256
 var start_xref_regexp = regexp.MustCompile(`startxref\s*(\d+)\s*%%EOF`)
 var start_obj_regexp = regexp.MustCompile(`\d+([\s\x00]|(%[^\r\n]*[\r\n]))+\d+([\s\x00]|(%[^\r\n]*[\r\n]))+obj`)
 var end_stream_regexp = regexp.MustCompile(`endstream`)
+var end_image_regexp = regexp.MustCompile(`[\s\x00]EI([\s\x00]|$)`)
 var xref_regexp = regexp.MustCompile(`\bxref`)
 var max_depth int = 500
 var xref_entry_size int64 = 20
@@ -634,6 +635,18 @@ func (parser *Parser) getObject(number int, read_stream bool) *IndirectObject {
 	return object
 }
 
+// skipImageData moves to the end of the inline image data at the current position or returns false if it has no end
+func (parser *Parser) skipImageData() bool {
+	offset := parser.CurrentOffset()
+	index := end_image_regexp.FindReaderIndex(parser)
+	if index == nil {
+		parser.Seek(offset, io.SeekStart)
+		return false
+	}
+	parser.Seek(offset + int64(index[1]), io.SeekStart)
+	return true
+}
+
 // Seek moves to offset or to the end of the pdf if offset is outside of the pdf
 func (parser *Parser) Seek(offset int64, whence int) (int64, error) {
 	parser.Reset(parser.seeker)
-- 
2.43.0


From 650c4dc78e77825a88c631c90d31959344c12c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:16 +0000
Subject: [PATCH 48/51] fix: take an object cut off inside a reference for
 incomplete

---
 pdf/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdf/parser.go b/pdf/parser.go
index 6b9ed0b..c98800a 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -220,6 +220,9 @@ func (parser *Parser) isComplete(object *XrefEntry) bool {
 	if keyword == KEYWORD_END_OBJ {
 		return true
 	}
+
+	// the rest of a reference that is cut off can end in whitespace
+	parser.consumeWhitespace()
 	_, err := parser.ReadByte()
 	return err == nil
 }
-- 
2.43.0


From 9353085504df679af762d12d8de546b398617acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:10 +0000
Subject: [PATCH 49/51] fix: do not take an object that runs into another one
 for an xref stream

---
 pdf/parser.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pdf/parser.go b/pdf/parser.go
index c98800a..bb086c9 100644
--- a/pdf/parser.go
+++ b/pdf/parser.go
@@ -165,6 +165,10 @@ func (parser *Parser) findObjects() map[int]*XrefEntry {
 	last_object_number := -1
 	var replaced_object *XrefEntry
 
+	// keep track of the last xref stream and where its dictionary ends
+	var xref_stream *XrefEntry
+	var dictionary_end int64
+
 	// jump to start of file
 	offset, _ := parser.Seek(0, io.SeekStart)
 
@@ -181,6 +185,12 @@ func (parser *Parser) findObjects() map[int]*XrefEntry {
 		// get object number, generation
 		n, g, ok := parser.ReadObjectHeader()
 		if ok {
+			// an unclosed dictionary that runs into this object can not be trusted to be that of an xref stream
+			if xref_stream != nil && offset + int64(index[0]) < dictionary_end {
+				xref_stream.IsXrefStream = false
+				xref_stream.IsEncrypted = true
+			}
+
 			// add xref entry
 			last_object_number, replaced_object = n, objects[n]
 			objects[n] = NewXrefEntry(offset + int64(index[0]), g, XrefTypeIndirectObject)
@@ -190,6 +200,7 @@ func (parser *Parser) findObjects() map[int]*XrefEntry {
 			if t, ok := d.GetName("Type"); ok && t == "XRef" {
 				objects[n].IsXrefStream = true
 				objects[n].IsEncrypted = false
+				xref_stream, dictionary_end = objects[n], parser.CurrentOffset()
 			}
 		}
 
-- 
2.43.0


From 510842262925293180249b9e7764e1366f11cce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:18 +0000
Subject: [PATCH 50/51] fix: do not let a name without a value shift the rest
 of a name tree

---
 pdf/dictionary.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdf/dictionary.go b/pdf/dictionary.go
index 6fd0286..e3e5db8 100644
--- a/pdf/dictionary.go
+++ b/pdf/dictionary.go
@@ -86,6 +86,11 @@ func (d Dictionary) getNameTreeMap(resolved_kids map[int]interface{}) Array {
 	if names, ok := d.GetArray("Names"); ok {
 		// append names to name tree map
 		nameTreeMap = append(nameTreeMap, names...)
+
+		// a name without a value must not shift the pairs that follow
+		if len(names) % 2 != 0 {
+			nameTreeMap = append(nameTreeMap, KEYWORD_NULL)
+		}
 	}
 	if kids, ok := d.GetArray("Kids"); ok {
 		// ignore kids that are already being resolved
-- 
2.43.0


From 1ceee9ea707dc27526d388f9146c06fe959304be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:00 +0000
Subject: [PATCH 51/51] fix: do not replace an output path that is a broken
 link without being told to

---
 main.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/main.go b/main.go
index 5a34372..372a738 100644
--- a/main.go
+++ b/main.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"github.com/KarmaPenny/pdfparser/pdf"
 	"os"
+	"strings"
 )
 
 var overwrite *bool
@@ -48,6 +49,12 @@ func main() {
 		return
 	}
 
+	// a link to something that does not exist is not ours to replace either
+	if _, err := os.Readlink(strings.TrimRight(flag.Arg(1), "/")); err == nil && !*overwrite {
+		fmt.Printf("output directory \"%s\" is a broken link, use -f to overwrite\n", flag.Arg(1))
+		return
+	}
+
 	// parse the pdf
 	if err := pdf.Parse(flag.Arg(0), *password, flag.Arg(1)); err != nil {
 		fmt.Fprintln(os.Stderr, err.Error())
-- 
2.43.0

