From 91a56fbae1fb0cd248cdede823da866bb4eb0417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:42 +0000
Subject: [PATCH 01/43] fix: report Intel-HEX lines that cannot be parsed
 instead of dropping the rest of the chunk

---
 ihex32/hex.go    | 18 ++++++++++++++----
 ihex32/record.go |  2 +-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/ihex32/hex.go b/ihex32/hex.go
index 841b826..a286f7e 100644
--- a/ihex32/hex.go
+++ b/ihex32/hex.go
@@ -110,6 +110,8 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 	//this way we can ensure that the order of the records remains correct
 	//because the positions of the return values are determined by the position of the channel within locRecord
 	var locRecord []chan []*record
+	//errRecord is used by the individual parsers to signal a record that could not be parsed.
+	errRecord := make(chan error, numProc)
 	for i := 0; i < numProc; i++ {
 		//calculate start and end for the slices each go routine is given to parse
 		start := (len(lines) / numProc) * i
@@ -120,7 +122,7 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 		}
 		c := make(chan []*record, len(lines))
 		locRecord = append(locRecord, c)
-		go parseRecordRoutine(c, lines[start:end])
+		go parseRecordRoutine(c, errRecord, lines[start:end])
 	}
 	//collect records from channels
 	for _, c := range locRecord {
@@ -128,6 +130,11 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 			recs = append(recs, r...)
 		}
 	}
+	//each parser sends its error before it closes its record channel, so all errors have been sent at this point.
+	close(errRecord)
+	if err = <-errRecord; err != nil {
+		return h, err
+	}
 
 	//apply offsets to all records
 	wgOffset := new(sync.WaitGroup)
@@ -238,14 +245,17 @@ func ParseFromFile(filepath string) (map[uint32]byte, error) {
 }
 
 // parseRecordRoutine calls the parseRecord method for each line given and return them via a channel.
-func parseRecordRoutine(c chan []*record, lines []string) {
+// empty lines and the end-of-text mark (SUB) of DOS files are skipped.
+// any other line that cannot be parsed is reported via the error channel.
+func parseRecordRoutine(c chan []*record, ce chan error, lines []string) {
 	var recs []*record
 forLoop:
 	for _, l := range lines {
-		if len(l) >= 11 {
+		if strings.Trim(l, " \t\r\n\x1a") != "" {
 			r, err := parseRecord(l)
 			if err != nil {
-				log.Err(err)
+				log.Err(err).Msg("could not parse record")
+				ce <- err
 				break forLoop
 			}
 			recs = append(recs, r)
diff --git a/ihex32/record.go b/ihex32/record.go
index 1be74d5..b485ed6 100644
--- a/ihex32/record.go
+++ b/ihex32/record.go
@@ -27,7 +27,7 @@ type record struct {
 // parseRecord takes a line as string and fills the respective fields in the record struct.
 func parseRecord(line string) (*record, error) {
 	r := record{}
-	if line[0] == beginLineToken[0] && len(line) >= 11 {
+	if len(line) >= 11 && line[0] == beginLineToken[0] {
 		r.byteCount = line[1:3]
 		r.addressField = line[3:7]
 		r.recordType = line[7:9]
-- 
2.43.0


From f3694c54bdf61bdabc4c90c5e5c67186a99fb870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:43 +0000
Subject: [PATCH 02/43] fix: reject Intel-HEX records whose byte count
 disagrees with the line

---
 ihex32/record.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ihex32/record.go b/ihex32/record.go
index b485ed6..9371bcb 100644
--- a/ihex32/record.go
+++ b/ihex32/record.go
@@ -31,6 +31,15 @@ func parseRecord(line string) (*record, error) {
 		r.byteCount = line[1:3]
 		r.addressField = line[3:7]
 		r.recordType = line[7:9]
+		//the line has to hold exactly as many data bytes as its byte count states
+		n, err := hexToByte(r.byteCount)
+		if err != nil {
+			return &r, err
+		}
+		if len(line) != 11+2*int(n) {
+			err = errors.New("byte count " + r.byteCount + " does not match the length of the line")
+			return &r, err
+		}
 		for i := 9; i < len(line)-3; i += 2 {
 			r.data = append(r.data, line[i:i+2])
 		}
-- 
2.43.0


From f9a4eecee01280cdf9f067eb1c8b8cc536ea41c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:44 +0000
Subject: [PATCH 03/43] fix: reject Intel-HEX record types that cannot be
 honoured

---
 ihex32/record.go | 9 +++++++--
 ihex32/tokens.go | 6 +++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/ihex32/record.go b/ihex32/record.go
index 9371bcb..a83018d 100644
--- a/ihex32/record.go
+++ b/ihex32/record.go
@@ -43,15 +43,20 @@ func parseRecord(line string) (*record, error) {
 		for i := 9; i < len(line)-3; i += 2 {
 			r.data = append(r.data, line[i:i+2])
 		}
-		if r.recordType == extendedLinearAddressRecordToken {
+		switch r.recordType {
+		case extendedLinearAddressRecordToken:
 			if len(line) >= 13 {
 				r.offset = line[9:13]
 			} else {
 				err := errors.New("line is too short to parse extended address record")
 				return &r, err
 			}
-		} else {
+		case dataRecordToken, endOfFileToken, startSegmentAddressRecordToken, startLinearAddressRecordToken:
 			r.offset = "0000"
+		default:
+			//e.g. extended segment addresses: ignoring them would put the following data at wrong addresses.
+			err := errors.New("unsupported record type " + r.recordType)
+			return &r, err
 		}
 		r.checksum = line[len(line)-2:]
 		return &r, nil
diff --git a/ihex32/tokens.go b/ihex32/tokens.go
index 8cf284d..458f7f7 100644
--- a/ihex32/tokens.go
+++ b/ihex32/tokens.go
@@ -4,10 +4,10 @@ package ihex32
 const beginLineToken = ":"
 const dataRecordToken = "00"
 
-//const endOfFileToken = "01"
+const endOfFileToken = "01"
 
 //const extendedSegmentAddressRecordToken = "02"
-//const startSegmentAddressRecordToken = "03"
+const startSegmentAddressRecordToken = "03"
 const extendedLinearAddressRecordToken = "04"
 
-//const startLinearAddressRecordToken = "05"
+const startLinearAddressRecordToken = "05"
-- 
2.43.0


From 313c4e525507c284245be75bdb03bc42638dc00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:44 +0000
Subject: [PATCH 04/43] fix: apply Intel-HEX bank offsets to all records, also
 after a bank 0000 record

---
 ihex32/hex.go    |  7 ++-----
 ihex32/record.go | 29 +++++++----------------------
 2 files changed, 9 insertions(+), 27 deletions(-)

diff --git a/ihex32/hex.go b/ihex32/hex.go
index a286f7e..47ce595 100644
--- a/ihex32/hex.go
+++ b/ihex32/hex.go
@@ -138,11 +138,8 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 
 	//apply offsets to all records
 	wgOffset := new(sync.WaitGroup)
-	wgOffset.Add(numProc)
-	for i := 0; i < numProc; i++ {
-		start := (len(recs) / numProc) * i
-		go addOffsets(wgOffset, recs, start)
-	}
+	wgOffset.Add(1)
+	go addOffsets(wgOffset, recs)
 
 	if validateChecksums {
 		//start validation of all checksums
diff --git a/ihex32/record.go b/ihex32/record.go
index a83018d..c0a87b8 100644
--- a/ihex32/record.go
+++ b/ihex32/record.go
@@ -8,8 +8,6 @@ import (
 
 // record stores the data of one line/record of an ihex32 file.
 type record struct {
-	//rwm is used to coordinate multithreaded reading/writing when applying offsets or calculating checksums.
-	rwm sync.Mutex
 	//byteCount contains the hex string value that defines the number of data bytes contained in the record.
 	byteCount string
 	//addressField contains the lower 2 Byte of the 32Bit address. The higher 2 Byte are in the offset value.
@@ -68,29 +66,16 @@ func parseRecord(line string) (*record, error) {
 }
 
 // addOffsets walks through all records and updates the offset-value in the records of type data.
-// It stops when it finds a record that has already been updated by another goroutine.
-func addOffsets(wg *sync.WaitGroup, recs []*record, start int) {
+// the offset of a data record is the one of the last extended linear address record in front of it.
+func addOffsets(wg *sync.WaitGroup, recs []*record) {
 	defer wg.Done()
-	firstRecordAfterNewOffset := false
 	offs := "0000"
-forLoop:
-	for i := start; i < len(recs); i++ {
-		recs[i].rwm.Lock()
-		if recs[i].recordType == extendedLinearAddressRecordToken {
-			offs = recs[i].offset
-			firstRecordAfterNewOffset = true
-		} else if recs[i].recordType == dataRecordToken {
-			if firstRecordAfterNewOffset && recs[i].offset == offs {
-				recs[i].rwm.Unlock()
-				break forLoop
-			} else if firstRecordAfterNewOffset && recs[i].offset != offs {
-				recs[i].offset = offs
-				firstRecordAfterNewOffset = false
-			} else if recs[i].offset != offs && offs != "0000" /*only write if offset != 0000 as this is the init value anyway*/ {
-				recs[i].offset = offs
-			}
+	for _, r := range recs {
+		if r.recordType == extendedLinearAddressRecordToken {
+			offs = r.offset
+		} else if r.recordType == dataRecordToken {
+			r.offset = offs
 		}
-		recs[i].rwm.Unlock()
 	}
 }
 
-- 
2.43.0


From 5c4bad788fde210ab816ba3083d1e71e79848ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:16 +0000
Subject: [PATCH 05/43] fix: let Intel-HEX data records carry over a 64KB
 border into the next bank

---
 ihex32/record.go | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/ihex32/record.go b/ihex32/record.go
index c0a87b8..2775ad2 100644
--- a/ihex32/record.go
+++ b/ihex32/record.go
@@ -172,35 +172,24 @@ func (r *record) calcDataEntries() ([]dataByte, error) {
 	var err error
 	var bs []byte
 	var b byte
-	var lineAddress uint16
+	var address uint32
 
 	for i, s := range r.data {
 
-		//add index position to the address of the line to get the individual byte position
-		bs, err = HexToByteSlice(r.addressField)
+		//the offset contains the upper 2 byte and the address field the lower 2 byte of the address of the line
+		bs, err = HexToByteSlice(r.offset + r.addressField)
 		if err != nil {
 			return d, err
 		}
-		//convert bytes to uint16, add index
-		lineAddress = binary.BigEndian.Uint16(bs)
-		lineAddress = lineAddress + uint16(i)
-		//create 2 byte buffer
-		lineAddressBytes := []byte{0, 0}
-		//fill byte slice buffer with thenew value of line address
-		binary.BigEndian.PutUint16(lineAddressBytes, lineAddress)
-		//convert offset string to byte slice
-		bs, err = HexToByteSlice(r.offset)
-		if err != nil {
-			return d, err
-		}
-		//add the offset to the existing address
-		bs = append(bs, lineAddressBytes...)
+		//add index position to the address of the line to get the individual byte position.
+		//lines that cross a 64KB border continue at the start of the next bank.
+		address = binary.BigEndian.Uint32(bs) + uint32(i)
 		b, err = hexToByte(s)
 		if err != nil {
 			return d, err
 		}
 		//construct data with final uint32 address and a byte as value
-		d = append(d, dataByte{address: binary.BigEndian.Uint32(bs), value: b})
+		d = append(d, dataByte{address: address, value: b})
 	}
 	return d, nil
 }
-- 
2.43.0


From 2146e5bb4ebcb326eaa8b2f9a078426ca61d273e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:35 +0000
Subject: [PATCH 06/43] fix: report S-record lines that cannot be parsed and
 load the data behind header and count records

---
 srec19/hex.go    | 18 ++++++++++++++----
 srec19/record.go | 21 ++++++++++++++++++---
 srec19/tokens.go |  3 +++
 3 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/srec19/hex.go b/srec19/hex.go
index 20a7a6b..ef9e5d3 100644
--- a/srec19/hex.go
+++ b/srec19/hex.go
@@ -110,6 +110,8 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 	//this way we can ensure that the order of the records remains correct
 	//because the positions of the return values are determined by the position of the channel within locRecord
 	var locRecord []chan []*record
+	//errRecord is used by the individual parsers to signal a record that could not be parsed.
+	errRecord := make(chan error, numProc)
 	for i := 0; i < numProc; i++ {
 		//calculate start and end for the slices each go routine is given to parse
 		start := (len(lines) / numProc) * i
@@ -120,7 +122,7 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 		}
 		c := make(chan []*record, len(lines))
 		locRecord = append(locRecord, c)
-		go parseRecordRoutine(c, lines[start:end])
+		go parseRecordRoutine(c, errRecord, lines[start:end])
 	}
 	//collect records from channels
 	for _, c := range locRecord {
@@ -128,6 +130,11 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 			recs = append(recs, r...)
 		}
 	}
+	//each parser sends its error before it closes its record channel, so all errors have been sent at this point.
+	close(errRecord)
+	if err = <-errRecord; err != nil {
+		return h, err
+	}
 
 	if validateChecksums {
 		//start validation of all checksums
@@ -227,14 +234,17 @@ func ParseFromFile(filepath string) (map[uint32]byte, error) {
 }
 
 // parseRecordRoutine calls the parseRecord method for each line given and return them via a channel.
-func parseRecordRoutine(c chan []*record, lines []string) {
+// records without data, empty lines and the end-of-text mark (SUB) of DOS files are skipped.
+// any other line that cannot be parsed is reported via the error channel.
+func parseRecordRoutine(c chan []*record, ce chan error, lines []string) {
 	var recs []*record
 forLoop:
 	for _, l := range lines {
-		if len(l) >= 11 {
+		if strings.Trim(l, " \t\r\n\x1a") != "" && !isDatalessRecord(l) {
 			r, err := parseRecord(l)
 			if err != nil {
-				log.Err(err)
+				log.Err(err).Msg("could not parse record")
+				ce <- err
 				break forLoop
 			}
 			recs = append(recs, r)
diff --git a/srec19/record.go b/srec19/record.go
index 3d7a057..e7ed6f1 100644
--- a/srec19/record.go
+++ b/srec19/record.go
@@ -3,6 +3,7 @@ package srec19
 import (
 	"encoding/binary"
 	"errors"
+	"strings"
 	"sync"
 )
 
@@ -26,22 +27,36 @@ type record struct {
 // parseRecord takes a line as string and fills the respective fields in the record struct.
 func parseRecord(line string) (*record, error) {
 	r := record{}
-	r.recordType = line[1:2]
-	if line[0] == beginLineToken[0] && r.recordType == "3" && len(line) >= 12 {
+	if len(line) >= 14 && line[0] == beginLineToken[0] && line[1:2] == dataRecordToken {
+		r.recordType = line[1:2]
 		r.byteCount = line[2:4]
 		r.addressField = line[4:12]
+		//the line has to hold exactly as many bytes (address, data and checksum) as its byte count states
+		n, err := hexToByte(r.byteCount)
+		if err != nil {
+			return &r, err
+		}
+		if len(line) != 4+2*int(n) {
+			err = errors.New("byte count " + r.byteCount + " does not match the length of the line")
+			return &r, err
+		}
 		for i := 12; i < len(line)-3; i += 2 {
 			r.data = append(r.data, line[i:i+2])
 		}
 		r.checksum = line[len(line)-2:]
 		return &r, nil
 	} else {
-		err := errors.New("entry has no begin line symbol or is too short")
+		err := errors.New("entry is not an S3 data record or is too short")
 		return &r, err
 	}
 
 }
 
+// isDatalessRecord reports whether a line is a header (S0), count (S5, S6) or termination (S7, S8, S9) record.
+func isDatalessRecord(line string) bool {
+	return len(line) >= 2 && line[0] == beginLineToken[0] && strings.Contains(datalessRecordTokens, line[1:2])
+}
+
 // validateChecksumsRoutine calls the validateChecksum Method for each record
 // it is given and sends false to a channel in case a checksum isn't valid.
 func validateChecksumsRoutine(wg *sync.WaitGroup, c chan bool, recs []*record) {
diff --git a/srec19/tokens.go b/srec19/tokens.go
index 1e04b8d..cb657ee 100644
--- a/srec19/tokens.go
+++ b/srec19/tokens.go
@@ -3,3 +3,6 @@ package srec19
 //const emptyToken = ""
 const beginLineToken = "S"
 const dataRecordToken = "3"
+
+//datalessRecordTokens are the types of the records that contribute no data: header, record counts and termination.
+const datalessRecordTokens = "056789"
-- 
2.43.0


From 56322397c1ff79c25c66d2bde4a48daad9b382c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:26 +0000
Subject: [PATCH 07/43] fix: tokenize A2L strings, comments and keywords
 independently of the goroutine borders

Comments and strings that spanned the border between two goroutines were torn
apart, tokens next to a comment without whitespace were dropped or kept the
comment, and a token that could not be built silently dropped the rest of the
lines of its goroutine.
---
 a2l/token_generator.go | 215 +++++++++++++++++------------------------
 1 file changed, 88 insertions(+), 127 deletions(-)

diff --git a/a2l/token_generator.go b/a2l/token_generator.go
index 220c0ce..4f1654b 100755
--- a/a2l/token_generator.go
+++ b/a2l/token_generator.go
@@ -4,7 +4,6 @@ import (
 	"errors"
 	"strconv"
 	"strings"
-	"sync/atomic"
 
 	"github.com/rs/zerolog/log"
 )
@@ -47,9 +46,15 @@ func buildTokenGeneratorFromString(str string) (tokenGenerator, error) {
 	//replace escaped quotation marks
 	str = strings.ReplaceAll(str, `\"`, `'`)
 
+	//remove the comments before the text is split into words
+	str, err := removeComments(str)
+	if err != nil {
+		return tokenGenerator{}, err
+	}
+
 	//Split text file into lines and the lines into words separated by whitespace
-	var locTokens []chan []string
-	tokenList = make([]string, 0, expectedNumberOfTokens)
+	var locFields []chan [][]string
+	var fields [][]string
 	lines := strings.Split(str, "\n")
 	for i := 0; i < numProc; i++ {
 		//calculate start and end for the slices each go routine is given to parse
@@ -59,19 +64,24 @@ func buildTokenGeneratorFromString(str string) (tokenGenerator, error) {
 			//integer divisions might round up or down, so we make sure that we get the "real" end here
 			end = len(lines)
 		}
-		c := make(chan []string, 1)
-		locTokens = append(locTokens, c)
-		go tokenBuilderRoutine(lines[start:end], c)
+		c := make(chan [][]string, 1)
+		locFields = append(locFields, c)
+		go fieldBuilderRoutine(lines[start:end], c)
 	}
-	//collect token lists from channels
-	for _, c := range locTokens {
-		for t := range c {
-			tokenList = append(tokenList, t...)
+	//collect the words from channels
+	for _, c := range locFields {
+		for f := range c {
+			fields = append(fields, f...)
 		}
 	}
-	tokenList = append(tokenList, emptyToken)
 	tg := tokenGenerator{}
 	tg.index = 0
+	//the words are combined to tokens in one go because strings and keywords may span the borders between the slices above.
+	tokenList, err = buildTokenList(fields)
+	if err != nil {
+		return tg, err
+	}
+	tokenList = append(tokenList, emptyToken)
 	/*Set multithreading flag in accordance with the number of modules
 	Currently there is no support for parsing multi-module files with multithreading enabled due to complexity reasons
 	and minimal benefit due to overhead of detecting module borders and parser coordination / channel creation.*/
@@ -85,21 +95,25 @@ func buildTokenGeneratorFromString(str string) (tokenGenerator, error) {
 	return tg, nil
 }
 
-func tokenBuilderRoutine(lines []string, c chan []string) {
-	//initialize fields with the expected capacity of tokens it will have to hold in order to avoid reallocations
-	fields := make([][]string, 0, expectedNumberOfTokens/numProc)
+func fieldBuilderRoutine(lines []string, c chan [][]string) {
+	fields := make([][]string, 0, len(lines))
 	for _, l := range lines {
 		if strings.TrimSpace(l) != emptyToken {
 			fields = append(fields, strings.Fields(l))
 		}
 	}
-	c <- buildTokenList(fields)
+	c <- fields
 	close(c)
 }
 
-func buildTokenList(str [][]string) []string {
+// buildTokenList combines the words of a file to tokens.
+// an error is returned if the file ends in the middle of a token, so a file is never tokenized only partially.
+func buildTokenList(str [][]string) ([]string, error) {
 	var err error
-	tl := make([]string, 0, expectedNumberOfTokens/numProc)
+	tl := make([]string, 0, expectedNumberOfTokens)
+	if len(str) == 0 {
+		return tl, nil
+	}
 	currentOuterIndex := 0
 	currentInnerIndex := 0
 	firstRun := true
@@ -109,27 +123,16 @@ func buildTokenList(str [][]string) []string {
 		t, err = buildNextValidToken(&currentOuterIndex, &currentInnerIndex, str, firstRun)
 		firstRun = false
 		if err != nil {
-			return tl
+			return tl, err
 		}
-		if t != emptyToken {
-			if strings.Contains(t, "*/") && !strings.Contains(t, "*/") {
-				log.Warn().Msg("Triggered reset! at token: " + t)
-				//make sure that the goroutine did not start in the middle of a multiline comment.
-				//if so then delete all previous tokens as they are part of the comment.
-				//the buildNextValidToken routine only checks for the start of a multiline comment.
-				//so the delimiter of such a comment would end up here.
-				tl = make([]string, 0, expectedNumberOfTokens/numProc)
-			} else {
-				if t == beginModuleToken {
-					//count the number of modules so the program can decide whether it is allowed to parse multithreaded.
-					//atomic is used so several goroutines can update the variable.
-					atomic.AddUint32(&moduleCount, 1)
-				}
-				tl = append(tl, t)
-			}
-		} else {
-			return tl
+		if t == emptyToken {
+			return tl, nil
 		}
+		if t == beginModuleToken {
+			//count the number of modules so the program can decide whether it is allowed to parse multithreaded.
+			moduleCount++
+		}
+		tl = append(tl, t)
 	}
 }
 
@@ -137,6 +140,10 @@ func buildNextValidToken(currentOuterIndex *int, currentInnerIndex *int, str [][
 	var err error
 	var t string
 	if !firstRun {
+		if isLastRawValue(*currentOuterIndex, *currentInnerIndex, str) {
+			//there are no words left: the end of the file is reached
+			return emptyToken, nil
+		}
 		t, err = moveToNextRawValue(currentOuterIndex, currentInnerIndex, str)
 		if err != nil {
 			return emptyToken, err
@@ -155,106 +162,55 @@ func buildNextValidToken(currentOuterIndex *int, currentInnerIndex *int, str [][
 			return emptyToken, err
 		}
 	}
-start:
-	if t == emptyToken {
-		return emptyToken, errors.New("reached eof")
-	} else if strings.Contains(t, quotationMarkToken) {
-		qtp := strings.Index(t, quotationMarkToken)
-		lcp := strings.Index(t, beginLineCommentToken)
-		mlcp := strings.Index(t, beginMultilineCommentToken)
-		if mlcp != -1 && mlcp < qtp {
-			//if the beginning of a multiline comment is present and its position is before the quotation mark, then skip the comment
-			t, err = skipMultilineComment(currentOuterIndex, currentInnerIndex, str)
-			if err != nil {
-				return emptyToken, err
-			}
-			goto start //if you use recursion then defer will stack up until you finally return and then jump x number of valid tokens.
-		} else if lcp != -1 && lcp < qtp {
-			//if the a line comment is present and its position is before the quotation mark, then skip the comment
-			t, err = skipLineComment(currentOuterIndex, currentInnerIndex, str)
-			if err != nil {
-				return emptyToken, err
-			}
-			goto start //if you use recursion then defer will stack up until you finally return and then jump x number of valid tokens.
-		} else {
-			//the quoatation mark is before the comment chars, so they override the comment function.
-			//This might seem strange but this is how most a2l creators work.
-			//therefore the text in quoatation marks is parsed and not partially skipped.
-			textInQuotationMarks, err := getTextInQuotationMarks(currentOuterIndex, currentInnerIndex, str)
-			if err != nil {
-				return emptyToken, err
-			}
-			return textInQuotationMarks, nil
-		}
-	} else if strings.Contains(t, beginLineCommentToken) {
-		t, err = skipLineComment(currentOuterIndex, currentInnerIndex, str)
-		if err != nil {
-			return emptyToken, err
-		}
-		goto start //if you use recursion then defer will stack up until you finally return and then jump x number of valid tokens.
-	} else if strings.Contains(t, beginMultilineCommentToken) {
-		t, err = skipMultilineComment(currentOuterIndex, currentInnerIndex, str)
-		if err != nil {
-			return emptyToken, err
-		}
-		goto start //if you use recursion then defer will stack up until you finally return and then jump x number of valid tokens.
-	} else if strings.Contains(t, slashToken) && !strings.Contains(t, endMultilineCommentToken) {
-		twoWordedKeyword, err := getTwoWordedToken(currentOuterIndex, currentInnerIndex, str)
-		if err != nil {
-			return emptyToken, err
-		}
-		return twoWordedKeyword, nil
+	if strings.Contains(t, quotationMarkToken) {
+		return getTextInQuotationMarks(currentOuterIndex, currentInnerIndex, str)
+	} else if strings.Contains(t, slashToken) {
+		return getTwoWordedToken(currentOuterIndex, currentInnerIndex, str)
 	} else {
 		return t, nil
 	}
 }
 
-// skipLineComment if a "//" is detected the token generator moves to the next line (currentOuterIndex++)
-func skipLineComment(currentOuterIndex *int, currentInnerIndex *int, str [][]string) (string, error) {
-	if strings.Contains(str[*currentOuterIndex][*currentInnerIndex], beginLineCommentToken) {
-		//move to the next line and reset inner index to 0 (first word in new line)
-		if *currentOuterIndex < len(str)-1 {
-			*currentOuterIndex++
-			*currentInnerIndex = 0
-			return str[*currentOuterIndex][*currentInnerIndex], nil
-		} else {
-			return emptyToken, errors.New("reached eof")
+// removeComments replaces each line comment and each multiline comment of the text by a space.
+// comment characters within quotation marks are part of the text in quotation marks and stay as they are.
+func removeComments(str string) (string, error) {
+	var sb strings.Builder
+	sb.Grow(len(str))
+	for {
+		i := strings.IndexAny(str, quotationMarkToken+slashToken)
+		if i == -1 {
+			sb.WriteString(str)
+			return sb.String(), nil
 		}
-
-	} else {
-		return emptyToken, errors.New("no comment found")
-	}
-}
-
-// skipLineComment if a "/*" is detected then token generator gets the next token until a "*/" is reached.
-// it will then return the next raw value token after the comment
-func skipMultilineComment(currentOuterIndex *int, currentInnerIndex *int, str [][]string) (string, error) {
-	var err error
-	t := str[*currentOuterIndex][*currentInnerIndex]
-	if strings.Contains(t, beginMultilineCommentToken) && !strings.Contains(t, endMultilineCommentToken) {
-		//Get the next token in a Loop
-		for {
-			t, err = moveToNextRawValue(currentOuterIndex, currentInnerIndex, str)
-			//Until the delimiter of the multiline comment is found
-			if err != nil {
-				return emptyToken, err
+		sb.WriteString(str[:i])
+		str = str[i:]
+		var length int
+		if strings.HasPrefix(str, quotationMarkToken) {
+			//copy everything up to the next quotation mark
+			length = strings.Index(str[1:], quotationMarkToken) + 2
+			if length == 1 {
+				return emptyToken, errors.New("reached eof within quotation marks")
 			}
-			if strings.Contains(t, endMultilineCommentToken) {
-				t, err = moveToNextRawValue(currentOuterIndex, currentInnerIndex, str)
-				return t, err
-			} else if t == emptyToken {
-				log.Err(err).Msg("exit multi line comment due to EOF")
-				err = errors.New("reached eof")
-				return emptyToken, err
+			sb.WriteString(str[:length])
+		} else if strings.HasPrefix(str, beginLineCommentToken) {
+			//skip everything up to the end of the line
+			length = strings.Index(str, "\n")
+			if length == -1 {
+				length = len(str)
 			}
-
+			sb.WriteString(spaceToken)
+		} else if strings.HasPrefix(str, beginMultilineCommentToken) {
+			//skip everything up to the end of the comment
+			length = strings.Index(str[2:], endMultilineCommentToken) + 4
+			if length == 3 {
+				return emptyToken, errors.New("reached eof within multiline comment")
+			}
+			sb.WriteString(spaceToken)
+		} else {
+			length = 1
+			sb.WriteString(slashToken)
 		}
-	} else if strings.Contains(t, beginMultilineCommentToken) && strings.Contains(t, endMultilineCommentToken) {
-		t, err = moveToNextRawValue(currentOuterIndex, currentInnerIndex, str)
-		return t, err
-	} else {
-		err = errors.New("reached eof")
-		return emptyToken, err
+		str = str[length:]
 	}
 }
 
@@ -288,6 +244,11 @@ func getTextInQuotationMarks(currentOuterIndex *int, currentInnerIndex *int, str
 	}
 }
 
+// isLastRawValue reports whether there are no words left after the given position
+func isLastRawValue(currentOuterIndex int, currentInnerIndex int, str [][]string) bool {
+	return currentOuterIndex == len(str)-1 && currentInnerIndex == len(str[currentOuterIndex])-1
+}
+
 // moveToNextRawValue returns back the next valid, white space separated value.
 // in case the line ends it restarts on the next line
 // in case there are no lines left and no words within the last line it will return an empty token
-- 
2.43.0


From 769332621fa99d0673da9d464829a7d62e841206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:48 +0000
Subject: [PATCH 08/43] fix: split the A2L module among the parsers between its
 elements only

Elements at the border between two goroutines were lost, elements nested in
another block could be taken for elements of the module, and keywords that are
not allowed in a module were only reported by the single-threaded parser.
---
 a2l/module.go | 58 +++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 47 insertions(+), 11 deletions(-)

diff --git a/a2l/module.go b/a2l/module.go
index 06f00e1..4b42f3f 100644
--- a/a2l/module.go
+++ b/a2l/module.go
@@ -3,6 +3,7 @@ package a2l
 import (
 	"errors"
 	"fmt"
+	"strings"
 	"sync"
 
 	"github.com/rs/zerolog/log"
@@ -398,18 +399,16 @@ forLoop:
 	cUserRights := make(chan userRights, 10)
 	cVariantCoding := make(chan variantCoding, 1)
 
-	wgParsers := new(sync.WaitGroup)
-	wgParsers.Add(numProc)
-
 	var startIndex int
 	var endIndex int
 	startIndex = tok.index
 
 	log.Info().Int("startIndex", startIndex).Msg("MODULE begins at index")
 	//find /end MODULE token
-	for i := len(tokenList) - 1; i >= 0; i-- {
+	for i := startIndex + 1; i < len(tokenList); i++ {
 		if tokenList[i] == endModuleToken {
 			endIndex = i
+			break
 		}
 	}
 	if endIndex <= startIndex {
@@ -417,13 +416,13 @@ forLoop:
 		return myModule, err
 	}
 	log.Info().Int("endIndex", endIndex).Msg("MODULE ends at index")
-	for i := 0; i < numProc; i++ {
+	borders := getParserBorders(startIndex, endIndex)
+	wgParsers := new(sync.WaitGroup)
+	wgParsers.Add(len(borders) - 1)
+	for i := 0; i < len(borders)-1; i++ {
 		//Starte parser Threads
-		minIndex := startIndex + ((endIndex-startIndex)/numProc)*i
-		maxIndex := minIndex + ((endIndex - startIndex) / numProc) - 1
-		if i+1 == numProc {
-			maxIndex = endIndex
-		}
+		minIndex := borders[i]
+		maxIndex := borders[i+1]
 		log.Info().Msg(("goroutine " + fmt.Sprint(i) + " starting index: " + fmt.Sprint(minIndex) + " until end at index: " + fmt.Sprint(maxIndex) + " of " + fmt.Sprint(endIndex)))
 		go parseModuleMainLoop(wgParsers, minIndex, maxIndex, cA2ml, cAxisPts, cBlob, cCharacteristic, cCompuMethod,
 			cCompuTab, cCompuVtab, cCompuVtabRange, cFrame, cFunction, cGroup, cIfData, cMeasurement, cModCommon,
@@ -449,6 +448,40 @@ forLoop:
 	return myModule, err
 }
 
+// getParserBorders splits the content of the module, which are the tokens after startIndex up to endIndex, among at most numProc parsers.
+// parser i handles the tokens after borders[i] up to borders[i+1].
+// all borders are located between two elements of the module, so that no element is lost or seen by two parsers.
+// if the blocks within the module are not properly nested, then everything is left to a single parser.
+func getParserBorders(startIndex int, endIndex int) []int {
+	borders := []int{startIndex}
+	var openBlocks []string
+	for i := startIndex + 1; i < endIndex; i++ {
+		if len(openBlocks) == 0 && i-startIndex > (endIndex-startIndex)/numProc*len(borders) && len(borders) < numProc {
+			if strings.HasPrefix(tokenList[i], "/begin ") {
+				borders = append(borders, i-1)
+			}
+		}
+		if strings.HasPrefix(tokenList[i], "/begin ") {
+			openBlocks = append(openBlocks, strings.TrimPrefix(tokenList[i], "/begin "))
+			//the content of these blocks is not interpreted
+			if tokenList[i] == beginIfDataToken || tokenList[i] == beginA2mlToken {
+				for i+1 < endIndex && tokenList[i+1] != "/end "+openBlocks[len(openBlocks)-1] {
+					i++
+				}
+			}
+		} else if strings.HasPrefix(tokenList[i], "/end ") {
+			if len(openBlocks) == 0 || openBlocks[len(openBlocks)-1] != strings.TrimPrefix(tokenList[i], "/end ") {
+				return []int{startIndex, endIndex}
+			}
+			openBlocks = openBlocks[:len(openBlocks)-1]
+		}
+	}
+	if len(openBlocks) != 0 {
+		return []int{startIndex, endIndex}
+	}
+	return append(borders, endIndex)
+}
+
 // collectChannelsMultithreaded uses anonymous function to collect the data sent by the goroutines running the moduleMainLoop.
 // usually the Select Collector is to be prefered as it is mostly faster and always easier on memory
 // as the additional goroutines spun up in collectChannelsMultithreaded seem to block the GC a lot
@@ -997,7 +1030,10 @@ forLoop:
 				break forLoop
 			} else if tg.current() == endModuleToken {
 				break forLoop
-			} else if tg.index >= maxIndex {
+			} else if isKeyword(tg.current()) {
+				err = errors.New("unexpected token " + tg.current())
+				log.Err(err).Msg("module could not be parsed")
+				cError <- err
 				break forLoop
 			}
 		}
-- 
2.43.0


From d5e13c1a6d5249c2c05228eb69495963a0a0511a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:23 +0000
Subject: [PATCH 09/43] fix: accept the ALTERNATE_* index modes in FNC_VALUES
 and LAYOUT

They are enum values but were listed as keywords, so every file using them was
rejected with "unexpected token".
---
 a2l/tokens.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/a2l/tokens.go b/a2l/tokens.go
index 35dac5a..64cd0db 100644
--- a/a2l/tokens.go
+++ b/a2l/tokens.go
@@ -368,9 +368,6 @@ var keywordMap = map[string]uint8{
 	"ALIGNMENT_INT64":                 0,
 	"ALIGNMENT_LONG":                  0,
 	"ALIGNMENT_WORD":                  0,
-	"ALTERNATE_CURVES":                0,
-	"ALTERNATE_WITH_X":                0,
-	"ALTERNATE_WITH_Y":                0,
 	"ANNOTATION_LABEL":                0,
 	"ANNOTATION_ORIGIN":               0,
 	"AR_PROTOTYPE_OF":                 0,
-- 
2.43.0


From 450d704b9b105c4ed6d1721d603a851afb8e2cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:23 +0000
Subject: [PATCH 10/43] fix: keep every dimension of MATRIX_DIM

The dimensions after the second one overwrote it, and a MATRIX_DIM followed by
READ_ONLY or READ_WRITE was rejected because these were not known as keywords.
---
 a2l/matrix_dim.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/a2l/matrix_dim.go b/a2l/matrix_dim.go
index 47af7a8..6586f1d 100644
--- a/a2l/matrix_dim.go
+++ b/a2l/matrix_dim.go
@@ -37,7 +37,7 @@ forLoop:
 			err = errors.New("unexpected end of file")
 			log.Err(err).Msg("matrixDim could not be parsed")
 			break forLoop
-		} else if isKeyword(tok.current()) {
+		} else if isKeyword(tok.current()) || tok.current() == readOnlyToken || tok.current() == readWriteToken {
 			//see above comment
 			log.Info().Str("current token", tok.current()).Msg("matrixDim detected keyword:")
 			tok.previous()
@@ -61,6 +61,7 @@ forLoop:
 				break forLoop
 			}
 			md.DimY = uint16(buf)
+			md.DimYSet = true
 			log.Info().Msg("matrixDim yDim successfully parsed")
 		} else if !md.DimZSet {
 			var buf uint64
@@ -70,6 +71,7 @@ forLoop:
 				break forLoop
 			}
 			md.DimZ = uint16(buf)
+			md.DimZSet = true
 			log.Info().Msg("matrixDim zDim successfully parsed")
 		} else if !md.Dim4Set {
 			var buf uint64
@@ -79,6 +81,7 @@ forLoop:
 				break forLoop
 			}
 			md.Dim4 = uint16(buf)
+			md.Dim4Set = true
 			log.Info().Msg("matrixDim 4Dim successfully parsed")
 		} else if !md.Dim5Set {
 			var buf uint64
@@ -88,6 +91,7 @@ forLoop:
 				break forLoop
 			}
 			md.Dim5 = uint16(buf)
+			md.Dim5Set = true
 			log.Info().Msg("matrixDim 5Dim successfully parsed")
 			break forLoop
 		}
-- 
2.43.0


From 3d802f8e9f5315b7a7318760efb84c6818a543ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:23 +0000
Subject: [PATCH 11/43] fix: parse the value after ADDRESS_TYPE and ENCODING

The keyword itself was taken for the value, so every file using one of them was
rejected. TYPEDEF_CHARACTERISTIC expected its encoding after DISPLAY_IDENTIFIER,
and the address type PLONGLONG was not accepted.
---
 a2l/blob.go                    | 1 +
 a2l/characteristic.go          | 1 +
 a2l/enums.go                   | 2 ++
 a2l/instance.go                | 1 +
 a2l/structure_component.go     | 1 +
 a2l/type_def_blob.go           | 1 +
 a2l/type_def_characteristic.go | 3 ++-
 a2l/type_def_structure.go      | 1 +
 8 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/a2l/blob.go b/a2l/blob.go
index 13c4a97..5c53d57 100644
--- a/a2l/blob.go
+++ b/a2l/blob.go
@@ -46,6 +46,7 @@ forLoop:
 			b.annotation = append(b.annotation, buf)
 			log.Info().Msg("blob annotation successfully parsed")
 		case addressTypeToken:
+			tok.next()
 			b.addressType, err = parseAddrTypeEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("blob addressType could not be parsed")
diff --git a/a2l/characteristic.go b/a2l/characteristic.go
index d7a882b..e3e8508 100644
--- a/a2l/characteristic.go
+++ b/a2l/characteristic.go
@@ -134,6 +134,7 @@ forLoop:
 			}
 			log.Info().Msg("characteristic displayIdentifier successfully parsed")
 		case encodingToken:
+			tok.next()
 			c.encoding, err = parseEncodingEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("characteristic encoding could not be parsed")
diff --git a/a2l/enums.go b/a2l/enums.go
index bff99f0..9f9cdf1 100644
--- a/a2l/enums.go
+++ b/a2l/enums.go
@@ -262,6 +262,8 @@ func parseAddrTypeEnum(tok *tokenGenerator) (AddrTypeEnum, error) {
 		a = PWORD
 	case plongToken:
 		a = PLONG
+	case plonLongToken:
+		a = PLONGLONG
 	case directToken:
 		a = DIRECT
 	default:
diff --git a/a2l/instance.go b/a2l/instance.go
index fd7529b..d5f8c08 100644
--- a/a2l/instance.go
+++ b/a2l/instance.go
@@ -45,6 +45,7 @@ forLoop:
 			i.annotation = append(i.annotation, buf)
 			log.Info().Msg("instance annotation successfully parsed")
 		case addressTypeToken:
+			tok.next()
 			i.addressType, err = parseAddrTypeEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("instance addressType could not be parsed")
diff --git a/a2l/structure_component.go b/a2l/structure_component.go
index 19884c9..777af78 100644
--- a/a2l/structure_component.go
+++ b/a2l/structure_component.go
@@ -26,6 +26,7 @@ forLoop:
 	for {
 		switch tok.next() {
 		case addressTypeToken:
+			tok.next()
 			sc.addressType, err = parseAddrTypeEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("structureComponent addressType could not be parsed")
diff --git a/a2l/type_def_blob.go b/a2l/type_def_blob.go
index bcdaa5d..2440b49 100644
--- a/a2l/type_def_blob.go
+++ b/a2l/type_def_blob.go
@@ -24,6 +24,7 @@ forLoop:
 	for {
 		switch tok.next() {
 		case addressTypeToken:
+			tok.next()
 			tdb.addressType, err = parseAddrTypeEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("typeDefBlob addressType could not be parsed")
diff --git a/a2l/type_def_characteristic.go b/a2l/type_def_characteristic.go
index e1f7cf6..f3a6c0c 100644
--- a/a2l/type_def_characteristic.go
+++ b/a2l/type_def_characteristic.go
@@ -73,7 +73,8 @@ forLoop:
 				break forLoop
 			}
 			log.Info().Msg("typeDefCharacteristic discrete successfully parsed")
-		case displayIdentifierToken:
+		case encodingToken:
+			tok.next()
 			tdc.encoding, err = parseEncodingEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("typeDefCharacteristic encoding could not be parsed")
diff --git a/a2l/type_def_structure.go b/a2l/type_def_structure.go
index 5c5942d..15faef4 100644
--- a/a2l/type_def_structure.go
+++ b/a2l/type_def_structure.go
@@ -27,6 +27,7 @@ forLoop:
 	for {
 		switch tok.next() {
 		case addressTypeToken:
+			tok.next()
 			tds.addressType, err = parseAddrTypeEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("typeDefStructure addressType could not be parsed")
-- 
2.43.0


From 849095945b105812be4b1587115f77bfff9c187b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:23 +0000
Subject: [PATCH 12/43] fix: keep the value of CONVERSION and INPUT_QUANTITY in
 OVERWRITE

The keyword itself was stored, and the value could end up in another attribute.
---
 a2l/overwrite.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/a2l/overwrite.go b/a2l/overwrite.go
index 2ead1da..fda651d 100644
--- a/a2l/overwrite.go
+++ b/a2l/overwrite.go
@@ -28,6 +28,12 @@ forLoop:
 	for {
 		switch tok.next() {
 		case conversionToken:
+			tok.next()
+			if tok.current() == emptyToken || isKeyword(tok.current()) {
+				err = errors.New("unexpected token " + tok.current())
+				log.Err(err).Msg("overwrite conversion could not be parsed")
+				break forLoop
+			}
 			o.conversion = tok.current()
 			log.Info().Msg("overwrite conversion successfully parsed")
 		case extendedLimitsToken:
@@ -45,6 +51,12 @@ forLoop:
 			}
 			log.Info().Msg("overwrite format successfully parsed")
 		case inputQuantityToken:
+			tok.next()
+			if tok.current() == emptyToken || isKeyword(tok.current()) {
+				err = errors.New("unexpected token " + tok.current())
+				log.Err(err).Msg("overwrite inputQuantity could not be parsed")
+				break forLoop
+			}
 			o.inputQuantity = tok.current()
 			log.Info().Msg("overwrite inputQuantity successfully parsed")
 		case limitsToken:
-- 
2.43.0


From 0c08c43361726e11fb5c76a23e109853afe78110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:23 +0000
Subject: [PATCH 13/43] fix: parse the data type of NO_RESCALE_X

---
 a2l/no_rescale_x.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a2l/no_rescale_x.go b/a2l/no_rescale_x.go
index abe4759..c115ea5 100644
--- a/a2l/no_rescale_x.go
+++ b/a2l/no_rescale_x.go
@@ -39,7 +39,6 @@ forLoop:
 			nrx.Position = uint16(buf)
 			nrx.PositionSet = true
 			log.Info().Msg("noRescalex position successfully parsed")
-			break forLoop
 		} else if !nrx.DatatypeSet {
 			nrx.Datatype, err = parseDataTypeEnum(tok)
 			if err != nil {
@@ -48,6 +47,7 @@ forLoop:
 			}
 			nrx.DatatypeSet = true
 			log.Info().Msg("noRescalex datatype successfully parsed")
+			break forLoop
 		}
 	}
 	return nrx, err
-- 
2.43.0


From 3047f4d9eaa2c1f19030fef822f7906ef4e3dfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:23 +0000
Subject: [PATCH 14/43] fix: keep all parameters of MEASUREMENT,
 TYPEDEF_MEASUREMENT and FRAME

The last parameter overwrote the conversion of a measurement and the name of a
frame, and the others were lost.
---
 a2l/frame.go                | 4 ++++
 a2l/measurement.go          | 1 +
 a2l/type_def_measurement.go | 1 +
 3 files changed, 6 insertions(+)

diff --git a/a2l/frame.go b/a2l/frame.go
index b2620df..04bb314 100644
--- a/a2l/frame.go
+++ b/a2l/frame.go
@@ -51,8 +51,10 @@ forLoop:
 				break forLoop
 			} else if !f.nameSet {
 				f.name = tok.current()
+				f.nameSet = true
 			} else if !f.longIdentifierSet {
 				f.longIdentifier = tok.current()
+				f.longIdentifierSet = true
 			} else if !f.scalingUnitSet {
 				var buf uint64
 				buf, err = strconv.ParseUint(tok.current(), 10, 16)
@@ -61,6 +63,7 @@ forLoop:
 					break forLoop
 				}
 				f.scalingUnit = uint16(buf)
+				f.scalingUnitSet = true
 			} else if !f.rateSet {
 				var buf uint64
 				buf, err = strconv.ParseUint(tok.current(), 10, 32)
@@ -69,6 +72,7 @@ forLoop:
 					break forLoop
 				}
 				f.rate = uint32(buf)
+				f.rateSet = true
 			}
 		}
 	}
diff --git a/a2l/measurement.go b/a2l/measurement.go
index 199dfbe..9072b43 100644
--- a/a2l/measurement.go
+++ b/a2l/measurement.go
@@ -243,6 +243,7 @@ forLoop:
 				log.Info().Msg("measurement datatype successfully parsed")
 			} else if !m.conversionSet {
 				m.conversion = tok.current()
+				m.conversionSet = true
 			} else if !m.resolutionSet {
 				var buf uint64
 				buf, err = strconv.ParseUint(tok.current(), 10, 16)
diff --git a/a2l/type_def_measurement.go b/a2l/type_def_measurement.go
index d644333..2d7bd6a 100644
--- a/a2l/type_def_measurement.go
+++ b/a2l/type_def_measurement.go
@@ -135,6 +135,7 @@ forLoop:
 				log.Info().Msg("typeDefMeasurement datatype successfully parsed")
 			} else if !tdm.conversionSet {
 				tdm.conversion = tok.current()
+				tdm.conversionSet = true
 			} else if !tdm.resolutionSet {
 				var buf uint64
 				buf, err = strconv.ParseUint(tok.current(), 10, 16)
-- 
2.43.0


From 8681213eff611a41a153fefe6bf2d0171b7cd4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:23 +0000
Subject: [PATCH 15/43] fix: keep the display string and type of UNIT

The long identifier was never marked as set and swallowed all that follows.
---
 a2l/unit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a2l/unit.go b/a2l/unit.go
index 83e700c..4df6c92 100644
--- a/a2l/unit.go
+++ b/a2l/unit.go
@@ -64,7 +64,7 @@ forLoop:
 				log.Info().Msg("unit name successfully parsed")
 			} else if !u.longIdentifierSet {
 				u.longIdentifier = tok.current()
-				u.nameSet = true
+				u.longIdentifierSet = true
 				log.Info().Msg("unit name successfully parsed")
 			} else if !u.displaySet {
 				u.display = tok.current()
-- 
2.43.0


From e1d16881f9bee0121631813b8925fb8996aeb845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:23 +0000
Subject: [PATCH 16/43] fix: keep the five offsets of MEMORY_SEGMENT

The first one was stored five times.
---
 a2l/memory_segment.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/a2l/memory_segment.go b/a2l/memory_segment.go
index 69e6b1c..8842a33 100644
--- a/a2l/memory_segment.go
+++ b/a2l/memory_segment.go
@@ -29,6 +29,7 @@ type memorySegment struct {
 func parseMemorySegment(tok *tokenGenerator) (memorySegment, error) {
 	ms := memorySegment{}
 	var err error
+	var offsetCount int
 forLoop:
 	for {
 		switch tok.next() {
@@ -91,10 +92,11 @@ forLoop:
 				ms.size = tok.current()
 				ms.sizeSet = true
 			} else if !ms.offsetSet {
-				for i := 0; i < 5; i++ {
-					ms.offset[i] = tok.current()
+				ms.offset[offsetCount] = tok.current()
+				offsetCount++
+				if offsetCount == len(ms.offset) {
+					ms.offsetSet = true
 				}
-				ms.offsetSet = true
 			}
 		}
 	}
-- 
2.43.0


From d0da7bd5c94be6c258bcd4550f4f4507aecd7a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:11 +0000
Subject: [PATCH 17/43] fix: report an A2L file without a project as an error

---
 a2l/a2l.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/a2l/a2l.go b/a2l/a2l.go
index d64034c..2f16414 100644
--- a/a2l/a2l.go
+++ b/a2l/a2l.go
@@ -90,6 +90,7 @@ func ParseFromFile(filepath string) (A2L, error) {
 func parseA2l(tok *tokenGenerator) (A2L, error) {
 	a2l := A2L{}
 	var err error
+	projectFound := false
 forLoop:
 	for {
 		switch tok.current() {
@@ -114,9 +115,15 @@ forLoop:
 				log.Err(err).Msg("a2l project could not be parsed")
 				break forLoop
 			}
+			projectFound = true
 			log.Info().Msg("a2l project successfully parsed")
 		default:
 			if tok.current() == emptyToken {
+				if !projectFound {
+					err = errors.New("unexpected end of file")
+					log.Err(err).Msg("a2l contains no project")
+					break forLoop
+				}
 				log.Info().Msg("a2l parsed")
 				break forLoop
 			} else if isKeyword(tok.current()) {
-- 
2.43.0


From 012ea43d53e143f47a2ba365af05c644196c657f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:29 +0000
Subject: [PATCH 18/43] fix: reject unexpected keywords in BIT_OPERATION

---
 a2l/bit_operation.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/a2l/bit_operation.go b/a2l/bit_operation.go
index ea65548..dfec724 100644
--- a/a2l/bit_operation.go
+++ b/a2l/bit_operation.go
@@ -56,6 +56,7 @@ forLoop:
 			} else if isKeyword(tok.current()) {
 				err = errors.New("unexpected token " + tok.current())
 				log.Err(err).Msg("bitOperation could not be parsed")
+				break forLoop
 			}
 		}
 	}
-- 
2.43.0


From 2b690e927036837d3b488fff6341c7ba314d2c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:29 +0000
Subject: [PATCH 19/43] fix: reject keywords as criterion values in
 VAR_FORBIDDEN_COMB

---
 a2l/var_forbidden_comb.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/a2l/var_forbidden_comb.go b/a2l/var_forbidden_comb.go
index b1dcae9..87eeec3 100644
--- a/a2l/var_forbidden_comb.go
+++ b/a2l/var_forbidden_comb.go
@@ -35,7 +35,11 @@ forLoop:
 			break forLoop
 		} else if !vfc.criterionNameSet || !vfc.criterionValueSet {
 			vfc.criterionName = append(vfc.criterionName, tok.current())
-			if tok.next() != emptyToken {
+			if isKeyword(tok.next()) {
+				err = errors.New("unexpected token " + tok.current())
+				log.Err(err).Msg("varForbiddenComb could not be parsed")
+				break forLoop
+			} else if tok.current() != emptyToken {
 				vfc.criterionValue = append(vfc.criterionValue, tok.current()) //token is upated in the if condition above
 			} else {
 				err = errors.New("unexpected end of file")
-- 
2.43.0


From 694931b83693a0a5465f4681f3ee641a1b0ce345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:26 +0000
Subject: [PATCH 20/43] fix: choose the image format by the file extension, not
 by any part of the path

---
 calib_data.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/calib_data.go b/calib_data.go
index d061669..d2a619e 100644
--- a/calib_data.go
+++ b/calib_data.go
@@ -12,6 +12,7 @@ import (
 	"errors"
 	"fmt"
 	"os"
+	"path/filepath"
 	"strconv"
 	"strings"
 	"sync"
@@ -121,8 +122,9 @@ func readHex(wg *sync.WaitGroup, ch chan map[uint32]byte, ce chan error, hexFile
 	//check whether the hex or the s19 parser needs to be used.
 	//probably improve this by putting the determination logic into a single unified hex parsing package
 
+	fileExtension := strings.ToLower(filepath.Ext(hexFilePath))
 	//intel hex
-	if strings.Contains(strings.ToLower(hexFilePath), ".hex") {
+	if fileExtension == ".hex" {
 		h, err := ihex32.ParseFromFile(hexFilePath)
 		if err != nil {
 			log.Err(err).Msg("could not parse hex:")
@@ -134,7 +136,7 @@ func readHex(wg *sync.WaitGroup, ch chan map[uint32]byte, ce chan error, hexFile
 			log.Info().Msg("parsed hex file")
 		}
 		//Motorola S19
-	} else if strings.Contains(strings.ToLower(hexFilePath), ".s19") {
+	} else if fileExtension == ".s19" {
 		h, err := srec19.ParseFromFile(hexFilePath)
 		if err != nil {
 			log.Err(err).Msg("could not parse hex:")
-- 
2.43.0


From e6107642195e772a755acb2884d811c19a4afccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:27 +0000
Subject: [PATCH 21/43] fix: decode word, long and half-precision values with
 their standard sizes

---
 a2l/enums.go      | 12 ++++++------
 record_manager.go | 20 ++++++++++----------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/a2l/enums.go b/a2l/enums.go
index 9f9cdf1..967d67f 100644
--- a/a2l/enums.go
+++ b/a2l/enums.go
@@ -104,10 +104,10 @@ func (dte *DataTypeEnum) GetType() interface{} {
 		var t int8
 		return t
 	case UWORD:
-		var t uint32
+		var t uint16
 		return t
 	case SWORD:
-		var t int32
+		var t int16
 		return t
 	case ULONG:
 		var t uint32
@@ -142,9 +142,9 @@ func (dte *DataTypeEnum) GetDatatypeLength() uint16 {
 	case SBYTE:
 		return 8
 	case UWORD:
-		return 32
+		return 16
 	case SWORD:
-		return 32
+		return 16
 	case ULONG:
 		return 32
 	case SLONG:
@@ -211,9 +211,9 @@ func (dse *DataSizeEnum) GetDataSizeLength() uint16 {
 	case BYTE:
 		return 8
 	case WORD:
-		return 32
+		return 16
 	case LONG:
-		return 64
+		return 32
 	default:
 		return 0
 	}
diff --git a/record_manager.go b/record_manager.go
index 9385892..109accd 100644
--- a/record_manager.go
+++ b/record_manager.go
@@ -157,16 +157,16 @@ func (cd *CalibrationData) convertByteSliceToDatatype(byteSlice []byte, dte a2l.
 		case a2l.SBYTE:
 			return float64(int8(byteSlice[0])), nil
 		case a2l.UWORD:
-			val := binary.BigEndian.Uint32(byteSlice)
+			val := binary.BigEndian.Uint16(byteSlice)
 			return float64(val), nil
 		case a2l.SWORD:
-			val := int32(binary.BigEndian.Uint32(byteSlice))
+			val := int16(binary.BigEndian.Uint16(byteSlice))
 			return float64(val), nil
 		case a2l.ULONG:
-			val := binary.BigEndian.Uint64(byteSlice)
+			val := binary.BigEndian.Uint32(byteSlice)
 			return float64(val), nil
 		case a2l.SLONG:
-			val := int64(binary.BigEndian.Uint64(byteSlice))
+			val := int32(binary.BigEndian.Uint32(byteSlice))
 			return float64(val), nil
 		case a2l.AUint64:
 			val := binary.BigEndian.Uint64(byteSlice)
@@ -175,7 +175,7 @@ func (cd *CalibrationData) convertByteSliceToDatatype(byteSlice []byte, dte a2l.
 			val := int64(binary.BigEndian.Uint64(byteSlice))
 			return float64(val), nil
 		case a2l.Float16Ieee:
-			val := float16.Frombits(binary.BigEndian.Uint16(byteSlice))
+			val := float16.Frombits(binary.BigEndian.Uint16(byteSlice)).Float32()
 			return float64(val), nil
 		case a2l.Float32Ieee:
 			val := math.Float32frombits(binary.BigEndian.Uint32(byteSlice))
@@ -195,16 +195,16 @@ func (cd *CalibrationData) convertByteSliceToDatatype(byteSlice []byte, dte a2l.
 		case a2l.SBYTE:
 			return float64(int8(byteSlice[0])), nil
 		case a2l.UWORD:
-			val := binary.LittleEndian.Uint32(byteSlice)
+			val := binary.LittleEndian.Uint16(byteSlice)
 			return float64(val), nil
 		case a2l.SWORD:
-			val := int32(binary.LittleEndian.Uint32(byteSlice))
+			val := int16(binary.LittleEndian.Uint16(byteSlice))
 			return float64(val), nil
 		case a2l.ULONG:
-			val := binary.LittleEndian.Uint64(byteSlice)
+			val := binary.LittleEndian.Uint32(byteSlice)
 			return float64(val), nil
 		case a2l.SLONG:
-			val := int64(binary.LittleEndian.Uint64(byteSlice))
+			val := int32(binary.LittleEndian.Uint32(byteSlice))
 			return float64(val), nil
 		case a2l.AUint64:
 			val := binary.LittleEndian.Uint64(byteSlice)
@@ -213,7 +213,7 @@ func (cd *CalibrationData) convertByteSliceToDatatype(byteSlice []byte, dte a2l.
 			val := int64(binary.LittleEndian.Uint64(byteSlice))
 			return float64(val), nil
 		case a2l.Float16Ieee:
-			val := float16.Frombits(binary.LittleEndian.Uint16(byteSlice))
+			val := float16.Frombits(binary.LittleEndian.Uint16(byteSlice)).Float32()
 			return float64(val), nil
 		case a2l.Float32Ieee:
 			val := math.Float32frombits(binary.LittleEndian.Uint32(byteSlice))
-- 
2.43.0


From d4befa876d4526b6a7f532e9e216640f56acd3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:40 +0000
Subject: [PATCH 22/43] fix: align addresses up to the next multiple of the
 alignment border

---
 calib_data.go | 66 +++++++++++++++++++++++++--------------------------
 1 file changed, 33 insertions(+), 33 deletions(-)

diff --git a/calib_data.go b/calib_data.go
index d2a619e..3b4379b 100644
--- a/calib_data.go
+++ b/calib_data.go
@@ -203,7 +203,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentByte.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentByte.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentByte.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -212,14 +212,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(1)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(1) - modulo
 			} else {
 				return address
 			}
@@ -228,7 +228,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentByte.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentByte.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentByte.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -237,14 +237,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(1)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(1) - modulo
 			} else {
 				return address
 			}
@@ -253,7 +253,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentWord.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentWord.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentWord.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -262,14 +262,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(2)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(2) - modulo
 			} else {
 				return address
 			}
@@ -278,7 +278,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentWord.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentWord.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentWord.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -287,14 +287,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(2)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(2) - modulo
 			} else {
 				return address
 			}
@@ -303,7 +303,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentLong.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentLong.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentLong.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -312,14 +312,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(4)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(4) - modulo
 			} else {
 				return address
 			}
@@ -328,7 +328,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentLong.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentLong.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentLong.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -337,14 +337,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(4)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(4) - modulo
 			} else {
 				return address
 			}
@@ -353,7 +353,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentInt64.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentInt64.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentInt64.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -362,14 +362,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(8)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(8) - modulo
 			} else {
 				return address
 			}
@@ -378,7 +378,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentInt64.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentInt64.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentInt64.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -387,14 +387,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(8)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(8) - modulo
 			} else {
 				return address
 			}
@@ -403,7 +403,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentFloat16Ieee.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentFloat16Ieee.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentFloat16Ieee.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -412,14 +412,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(2)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(2) - modulo
 			} else {
 				return address
 			}
@@ -428,7 +428,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentFloat32Ieee.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentFloat32Ieee.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentFloat32Ieee.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -437,14 +437,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(4)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(4) - modulo
 			} else {
 				return address
 			}
@@ -453,7 +453,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentFloat64Ieee.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentFloat64Ieee.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentFloat64Ieee.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -462,14 +462,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(8)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(8) - modulo
 			} else {
 				return address
 			}
-- 
2.43.0


From 8aa5cace391bd29ddd8525e8b3c6a8c653889139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:41 +0000
Subject: [PATCH 23/43] fix: do not panic when reading bytes from the image

---
 calib_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calib_data.go b/calib_data.go
index 3b4379b..a873603 100644
--- a/calib_data.go
+++ b/calib_data.go
@@ -483,7 +483,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 // if the address cannot be found an error is returned
 func (cd *CalibrationData) getBytes(address uint32, length uint32) ([]byte, error) {
 	nBytes := length / 8
-	bytes := make([]byte, nBytes, 0)
+	bytes := make([]byte, 0, nBytes)
 	if length%8 != 0 {
 		err := errors.New("unexpected number of bits " + strconv.Itoa(int(length)) + ". Expected a multiple of 8.")
 		log.Error().Err(err).Msg("invalid length")
-- 
2.43.0


From d65b0419be381a05aa9aec7d39dd145e331e7aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:41 +0000
Subject: [PATCH 24/43] fix: advance by the aligned byte size of each record
 layout component

---
 axis_pts.go       | 10 +++++-----
 calib_data.go     |  4 +++-
 distOp.go         | 10 +++++-----
 fnc_values.go     |  4 ++--
 identification.go |  2 +-
 no_axis_pts.go    | 10 +++++-----
 no_rescale_x.go   |  2 +-
 offsetOp.go       | 10 +++++-----
 reserved.go       |  2 +-
 shiftOp.go        | 10 +++++-----
 10 files changed, 33 insertions(+), 31 deletions(-)

diff --git a/axis_pts.go b/axis_pts.go
index e5a19b9..ecc7db7 100644
--- a/axis_pts.go
+++ b/axis_pts.go
@@ -45,7 +45,7 @@ func (cv *CharacteristicValues) getAxisPointsX(cd *CalibrationData, rl *a2l.Reco
 			return nil, err
 		}
 		val = append(val, bufFloat)
-		*curPos += uint32(rl.AxisPtsX.Datatype.GetDatatypeLength())
+		*curPos += uint32(rl.AxisPtsX.Datatype.GetDatatypeLength()) / 8
 	}
 	return val, err
 }
@@ -84,7 +84,7 @@ func (cv *CharacteristicValues) getAxisPointsY(cd *CalibrationData, rl *a2l.Reco
 			return nil, err
 		}
 		val = append(val, bufFloat)
-		*curPos += uint32(rl.AxisPtsY.Datatype.GetDatatypeLength())
+		*curPos += uint32(rl.AxisPtsY.Datatype.GetDatatypeLength()) / 8
 	}
 	return val, err
 }
@@ -123,7 +123,7 @@ func (cv *CharacteristicValues) getAxisPointsZ(cd *CalibrationData, rl *a2l.Reco
 			return nil, err
 		}
 		val = append(val, bufFloat)
-		*curPos += uint32(rl.AxisPtsZ.Datatype.GetDatatypeLength())
+		*curPos += uint32(rl.AxisPtsZ.Datatype.GetDatatypeLength()) / 8
 	}
 	return val, err
 }
@@ -162,7 +162,7 @@ func (cv *CharacteristicValues) getAxisPoints4(cd *CalibrationData, rl *a2l.Reco
 			return nil, err
 		}
 		val = append(val, bufFloat)
-		*curPos += uint32(rl.AxisPts4.Datatype.GetDatatypeLength())
+		*curPos += uint32(rl.AxisPts4.Datatype.GetDatatypeLength()) / 8
 	}
 	return val, err
 }
@@ -201,7 +201,7 @@ func (cv *CharacteristicValues) getAxisPoints5(cd *CalibrationData, rl *a2l.Reco
 			return nil, err
 		}
 		val = append(val, bufFloat)
-		*curPos += uint32(rl.AxisPts5.Datatype.GetDatatypeLength())
+		*curPos += uint32(rl.AxisPts5.Datatype.GetDatatypeLength()) / 8
 	}
 	return val, err
 }
diff --git a/calib_data.go b/calib_data.go
index a873603..f148f73 100644
--- a/calib_data.go
+++ b/calib_data.go
@@ -709,7 +709,9 @@ func getValuesFromHex(cv *CharacteristicValues, cd *CalibrationData) {
 }
 
 func (cd *CalibrationData) getValue(curPos *uint32, dte a2l.DataTypeEnum, rl *a2l.RecordLayout) ([]byte, error) {
-	bytes, err := cd.getBytes(cd.getNextAlignedAddress(*curPos, dte, rl), uint32(dte.GetDatatypeLength()))
+	//curPos has to account for the gap in front of an aligned value
+	*curPos = cd.getNextAlignedAddress(*curPos, dte, rl)
+	bytes, err := cd.getBytes(*curPos, uint32(dte.GetDatatypeLength()))
 	if err != nil {
 		log.Err(err).Msg("could not retrieve value as byteSlice")
 		return nil, err
diff --git a/distOp.go b/distOp.go
index b71553a..48443fc 100644
--- a/distOp.go
+++ b/distOp.go
@@ -24,7 +24,7 @@ func (cd *CalibrationData) getDistOpX(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve distOpX value")
 		return 0, err
 	}
-	*curPos += uint32(rl.DistOpX.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.DistOpX.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -45,7 +45,7 @@ func (cd *CalibrationData) getDistOpY(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve distOpY value")
 		return 0, err
 	}
-	*curPos += uint32(rl.DistOpY.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.DistOpY.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -66,7 +66,7 @@ func (cd *CalibrationData) getDistOpZ(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve distOpZ value")
 		return 0, err
 	}
-	*curPos += uint32(rl.DistOpZ.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.DistOpZ.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -87,7 +87,7 @@ func (cd *CalibrationData) getDistOp4(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve distOp4 value")
 		return 0, err
 	}
-	*curPos += uint32(rl.DistOp4.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.DistOp4.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -108,6 +108,6 @@ func (cd *CalibrationData) getDistOp5(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve distOp5 value")
 		return 0, err
 	}
-	*curPos += uint32(rl.DistOp5.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.DistOp5.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
diff --git a/fnc_values.go b/fnc_values.go
index dad7048..5c99d00 100644
--- a/fnc_values.go
+++ b/fnc_values.go
@@ -23,7 +23,7 @@ func (cv *CharacteristicValues) getFncValues1D(cd *CalibrationData, rl *a2l.Reco
 		log.Err(err).Msg("could not retrieve FncValues values")
 		return 0.0, bufByte, err
 	}
-	*curPos += uint32(rl.FncValues.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.FncValues.Datatype.GetDatatypeLength()) / 8
 	return bufFloat, bufByte, err
 }
 
@@ -61,7 +61,7 @@ func (cv *CharacteristicValues) getFncValues2D(cd *CalibrationData, rl *a2l.Reco
 			return nil, err
 		}
 		val = append(val, bufFloat)
-		*curPos += uint32(rl.AxisPtsX.Datatype.GetDatatypeLength())
+		*curPos += uint32(rl.AxisPtsX.Datatype.GetDatatypeLength()) / 8
 	}
 	return val, err
 }
diff --git a/identification.go b/identification.go
index 5e90e66..143aa0f 100644
--- a/identification.go
+++ b/identification.go
@@ -20,6 +20,6 @@ func (cd *CalibrationData) getIdentification(rl *a2l.RecordLayout, curPos *uint3
 		log.Err(err).Msg("could not retrieve identification value")
 		return nil, err
 	}
-	*curPos += uint32(rl.Identification.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.Identification.Datatype.GetDatatypeLength()) / 8
 	return val, err
 }
diff --git a/no_axis_pts.go b/no_axis_pts.go
index 766b01f..a225c7e 100644
--- a/no_axis_pts.go
+++ b/no_axis_pts.go
@@ -24,7 +24,7 @@ func (cd *CalibrationData) getNoAxisPtsX(rl *a2l.RecordLayout, curPos *uint32) (
 		log.Err(err).Msg("could not retrieve noAxisPtsX value")
 		return 0, err
 	}
-	*curPos += uint32(rl.NoAxisPtsX.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.NoAxisPtsX.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -45,7 +45,7 @@ func (cd *CalibrationData) getNoAxisPtsY(rl *a2l.RecordLayout, curPos *uint32) (
 		log.Err(err).Msg("could not retrieve noAxisPtsY value")
 		return 0, err
 	}
-	*curPos += uint32(rl.NoAxisPtsY.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.NoAxisPtsY.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -66,7 +66,7 @@ func (cd *CalibrationData) getNoAxisPtsZ(rl *a2l.RecordLayout, curPos *uint32) (
 		log.Err(err).Msg("could not retrieve noAxisPtsZ value")
 		return 0, err
 	}
-	*curPos += uint32(rl.NoAxisPtsZ.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.NoAxisPtsZ.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -87,7 +87,7 @@ func (cd *CalibrationData) getNoAxisPts4(rl *a2l.RecordLayout, curPos *uint32) (
 		log.Err(err).Msg("could not retrieve noAxisPts4 value")
 		return 0, err
 	}
-	*curPos += uint32(rl.NoAxisPts4.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.NoAxisPts4.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -108,6 +108,6 @@ func (cd *CalibrationData) getNoAxisPts5(rl *a2l.RecordLayout, curPos *uint32) (
 		log.Err(err).Msg("could not retrieve noAxisPts5 value")
 		return 0, err
 	}
-	*curPos += uint32(rl.NoAxisPts5.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.NoAxisPts5.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
diff --git a/no_rescale_x.go b/no_rescale_x.go
index a90ae17..8a1138f 100644
--- a/no_rescale_x.go
+++ b/no_rescale_x.go
@@ -24,6 +24,6 @@ func (cd *CalibrationData) getNoRescaleX(rl *a2l.RecordLayout, curPos *uint32) (
 		log.Err(err).Msg("could not retrieve noRescaleX value")
 		return 0, err
 	}
-	*curPos += uint32(rl.NoRescaleX.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.NoRescaleX.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
diff --git a/offsetOp.go b/offsetOp.go
index f5a194d..22e531f 100644
--- a/offsetOp.go
+++ b/offsetOp.go
@@ -24,7 +24,7 @@ func (cd *CalibrationData) getOffsetX(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve offsetX value")
 		return 0, err
 	}
-	*curPos += uint32(rl.OffsetX.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.OffsetX.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -45,7 +45,7 @@ func (cd *CalibrationData) getOffsetY(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve offsetY value")
 		return 0, err
 	}
-	*curPos += uint32(rl.OffsetY.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.OffsetY.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -66,7 +66,7 @@ func (cd *CalibrationData) getOffsetZ(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve offsetZ value")
 		return 0, err
 	}
-	*curPos += uint32(rl.OffsetZ.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.OffsetZ.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -87,7 +87,7 @@ func (cd *CalibrationData) getOffset4(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve offset4 value")
 		return 0, err
 	}
-	*curPos += uint32(rl.Offset4.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.Offset4.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -108,6 +108,6 @@ func (cd *CalibrationData) getOffset5(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve offset5 value")
 		return 0, err
 	}
-	*curPos += uint32(rl.Offset5.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.Offset5.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
diff --git a/reserved.go b/reserved.go
index 6602641..e9a5889 100644
--- a/reserved.go
+++ b/reserved.go
@@ -16,6 +16,6 @@ func (cd *CalibrationData) getReserved(rl *a2l.RecordLayout, curPos *uint32) err
 		return err
 	}
 	//Value of reserved is not relevant. Only its datasize and the resulting offset for other datastructres are necessary
-	*curPos += uint32(rl.Reserved.DataSize.GetDataSizeLength())
+	*curPos += uint32(rl.Reserved.DataSize.GetDataSizeLength()) / 8
 	return nil
 }
diff --git a/shiftOp.go b/shiftOp.go
index 256ee1b..49b7950 100644
--- a/shiftOp.go
+++ b/shiftOp.go
@@ -24,7 +24,7 @@ func (cd *CalibrationData) getShiftOpX(rl *a2l.RecordLayout, curPos *uint32) (in
 		log.Err(err).Msg("could not retrieve shiftOpX value")
 		return 0, err
 	}
-	*curPos += uint32(rl.ShiftOpX.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.ShiftOpX.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -45,7 +45,7 @@ func (cd *CalibrationData) getShiftOpY(rl *a2l.RecordLayout, curPos *uint32) (in
 		log.Err(err).Msg("could not retrieve shiftOpY value")
 		return 0, err
 	}
-	*curPos += uint32(rl.ShiftOpY.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.ShiftOpY.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -66,7 +66,7 @@ func (cd *CalibrationData) getShiftOpZ(rl *a2l.RecordLayout, curPos *uint32) (in
 		log.Err(err).Msg("could not retrieve shiftOpZ value")
 		return 0, err
 	}
-	*curPos += uint32(rl.ShiftOpZ.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.ShiftOpZ.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -87,7 +87,7 @@ func (cd *CalibrationData) getShiftOp4(rl *a2l.RecordLayout, curPos *uint32) (in
 		log.Err(err).Msg("could not retrieve shiftOp4 value")
 		return 0, err
 	}
-	*curPos += uint32(rl.ShiftOp4.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.ShiftOp4.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -108,6 +108,6 @@ func (cd *CalibrationData) getShiftOp5(rl *a2l.RecordLayout, curPos *uint32) (in
 		log.Err(err).Msg("could not retrieve shiftOp5 value")
 		return 0, err
 	}
-	*curPos += uint32(rl.ShiftOp5.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.ShiftOp5.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
-- 
2.43.0


From b904f4fd1ef05f55ae9a414cd10967bcc6162ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:16 +0000
Subject: [PATCH 25/43] fix: read record layout fields in the order of their
 positions and stop at the first one that cannot be read

---
 calib_data.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/calib_data.go b/calib_data.go
index f148f73..a0a0b2f 100644
--- a/calib_data.go
+++ b/calib_data.go
@@ -13,6 +13,7 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
+	"sort"
 	"strconv"
 	"strings"
 	"sync"
@@ -506,12 +507,14 @@ func getValuesFromHex(cv *CharacteristicValues, cd *CalibrationData) {
 	rl, err := cd.getRecordLayout(cv.characteristic)
 	if err != nil {
 		log.Err(err).Msg("record layout for identifier '" + cv.characteristic.Deposit + "' not found")
+		return
 	}
 
 	//determine relative positions of each field of the record layout struct
 	relPos, err := rl.GetRecordLayoutRelativePositions()
 	if err != nil {
 		log.Err(err).Msg("could not retrieve positions for record layout '" + cv.characteristic.Deposit + "'")
+		return
 	}
 	rl.RelativePositions = relPos
 
@@ -522,9 +525,18 @@ func getValuesFromHex(cv *CharacteristicValues, cd *CalibrationData) {
 	curPos, err = cd.convertStringToUint32Address(cv.characteristic.Address)
 	if err != nil {
 		log.Err(err).Msg("could not convert address of characteristic '" + cv.characteristic.Name + "'")
+		return
 	}
 
-	for _, field := range cv.recordLayout.RelativePositions {
+	//the fields follow each other in ascending order of their positions
+	positions := make([]int, 0, len(rl.RelativePositions))
+	for position := range rl.RelativePositions {
+		positions = append(positions, int(position))
+	}
+	sort.Ints(positions)
+
+	for _, position := range positions {
+		field := rl.RelativePositions[uint16(position)]
 		switch field {
 		case "AxisPtsX":
 			cv.AxisXValues, err = cv.getAxisPointsX(cd, rl, &curPos)
@@ -673,7 +685,16 @@ func getValuesFromHex(cv *CharacteristicValues, cd *CalibrationData) {
 		case "SrcAddrZ":
 		case "SrcAddr4":
 		case "SrcAddr5":
+		both take up space in the deposit structure, though
 		*/
+		case "RipAddrW", "RipAddrX", "RipAddrY", "RipAddrZ", "RipAddr4", "RipAddr5",
+			"SrcAddrX", "SrcAddrY", "SrcAddrZ", "SrcAddr4", "SrcAddr5":
+			var dte a2l.DataTypeEnum
+			dte, err = rl.GetDatatypeByFieldName(field)
+			if err != nil {
+				log.Err(err).Msg("could not skip field '" + field + "' of characteristic '" + cv.characteristic.Name + "'")
+			}
+			curPos = cd.getNextAlignedAddress(curPos, dte, rl) + uint32(dte.GetDatatypeLength())/8
 		case "ShiftOpX":
 			cv.shiftOpXValue, err = cd.getShiftOpX(rl, &curPos)
 			if err != nil {
@@ -700,11 +721,15 @@ func getValuesFromHex(cv *CharacteristicValues, cd *CalibrationData) {
 				log.Err(err).Msg("could not get value for shiftOp5 of characteristic '" + cv.characteristic.Name + "'")
 			}
 		default:
-			err := errors.New("undefined case in record layout position")
+			err = errors.New("undefined case in record layout position")
 			if err != nil {
 				log.Err(err).Msg("unexpected case '" + field + "' in characteristic '" + cv.characteristic.Name + "'")
 			}
 		}
+		//without the current field the addresses of the following ones are unknown
+		if err != nil {
+			return
+		}
 	}
 }
 
-- 
2.43.0


From 963a143e19c21ef159712a88cbd374cfb5456ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:16 +0000
Subject: [PATCH 26/43] fix: convert address texts to their numeric value
 independently of length and byte order

---
 record_manager.go | 28 +++-------------------------
 1 file changed, 3 insertions(+), 25 deletions(-)

diff --git a/record_manager.go b/record_manager.go
index 109accd..f68ba85 100644
--- a/record_manager.go
+++ b/record_manager.go
@@ -2,7 +2,6 @@ package calibrationReader
 
 import (
 	"encoding/binary"
-	"encoding/hex"
 	"errors"
 	"fmt"
 	"math"
@@ -100,35 +99,14 @@ func (cd *CalibrationData) GetObjectByIdent(ident string) []interface{} {
 	return calibrationObjects
 }
 
-// hexToByteSlice converts at least a four character hexString to a slice of several bytes. fails if input is too short or not valid hex.
-func hexToByteSlice(hexVal string) ([]byte, error) {
-	decoded, err := hex.DecodeString(hexVal)
-	if err != nil {
-		log.Err(err).Msg("could not decode hex string " + hexVal)
-	}
-	return decoded, err
-}
-
 // convertStringToUint32Address is used to convert the adresses in string format in the characteristics to a uint32
 func (cd *CalibrationData) convertStringToUint32Address(str string) (uint32, error) {
-	var val uint32
-	byteSlice, err := hexToByteSlice(strings.ReplaceAll(str, "0x", ""))
+	val, err := strconv.ParseUint(strings.TrimPrefix(strings.ToLower(str), "0x"), 16, 32)
 	if err != nil {
 		log.Err(err).Msg("string '" + str + "' could not be parsed")
-		return val, err
-	}
-	modCom := &cd.A2l.Project.Modules[cd.ModuleIndex].ModCommon
-	if modCom.ByteOrder.ByteOrder == a2l.MsbFirstMswLast || modCom.ByteOrder.ByteOrder == a2l.MsbLastMswFirst {
-		err = errors.New("unexpected byte order")
-		log.Err(err).Msg("byte order " + modCom.ByteOrder.ByteOrder.String() + "not implemented")
-		return val, err
-	}
-	if !modCom.ByteOrder.ByteOrderSet || modCom.ByteOrder.ByteOrder == a2l.BigEndian || modCom.ByteOrder.ByteOrder == a2l.MsbFirst {
-		val = binary.BigEndian.Uint32(byteSlice)
-	} else {
-		val = binary.LittleEndian.Uint32(byteSlice)
+		return 0, err
 	}
-	return val, nil
+	return uint32(val), nil
 }
 
 // converts a byteSlice into a a2l.DatatypeEnum datatype.
-- 
2.43.0


From bc7bdbc6b7d81fdbefa136a8e408f0c7dac5c237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:16 +0000
Subject: [PATCH 27/43] fix: return the value of a system constant

---
 record_manager.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/record_manager.go b/record_manager.go
index f68ba85..10b8c31 100644
--- a/record_manager.go
+++ b/record_manager.go
@@ -30,13 +30,12 @@ func (cd *CalibrationData) getSystemConstantValue(ident string) (string, error)
 		log.Err(err).Msg("could not get value of system constant")
 		return "", err
 	}
-	var val string
 	if !sc.ValueSet {
 		err = errors.New("no value defined in system constant " + sc.Name)
 		log.Err(err).Msg("could not get value of system constant")
 		return "", err
 	}
-	return val, nil
+	return sc.Value, nil
 }
 
 // GetObjectByIdent returns an object with a given identifier that is defined within the a2l
-- 
2.43.0


From 279bb741488a446c4726955055cb00c0256d97f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:34 +0000
Subject: [PATCH 28/43] fix: invert the rational function of RAT_FUNC
 conversions

---
 compu_methods.go | 52 +++++++++++++++++++-----------------------------
 1 file changed, 20 insertions(+), 32 deletions(-)

diff --git a/compu_methods.go b/compu_methods.go
index eebbb44..214ae48 100644
--- a/compu_methods.go
+++ b/compu_methods.go
@@ -119,46 +119,34 @@ func calcTabVerb(dec float64, cv *a2l.CompuVTab, cd *CalibrationData) (string, e
 calcRatFunc computes the following formula: f(Physical) = Decimal
 y = (axx + bx + c) / (dxx + ex + f)
 inverted fi(Decimal) = Physical
-y = (e dec - b)/(2 (a - d dec)) ± sqrt((e dec - b)^2 - 4 (d dec - a) (f dec - c))/(2 (a - d dec))
+y = (e dec - b ± sqrt((e dec - b)^2 - 4 (a - d dec) (c - f dec))) / (2 (a - d dec))
 */
 func calcRatFunc(dec float64, cm *a2l.CompuMethod) (float64, error) {
 	var err error
 	//following formula defines f(Physical) = Decimal
 	//y = (axx + bx + c) / (dxx + ex + f)
-	//inverted fi(Decimal) = Physical
-	//y = (e dec - b)/(2 (a - d dec)) ± sqrt((e dec - b)^2 - 4 (d dec - a) (f dec - c))/(2 (a - d dec))
-	firstDivisor := (2 * (cm.Coeffs.A - cm.Coeffs.D*dec))
-	if firstDivisor == 0 {
-		err = errors.New("rationality function cannot be computed(zero divisor) for compuMethod: " + cm.Name)
-		log.Err(err).Msg("decimal value could not be converted")
-		return 0, err
+	//Physical is the root of (a - d dec) xx + (b - e dec) x + (c - f dec)
+	//at which the divisor dxx + ex + f is not zero
+	qa := cm.Coeffs.A - cm.Coeffs.D*dec
+	qb := cm.Coeffs.B - cm.Coeffs.E*dec
+	qc := cm.Coeffs.C - cm.Coeffs.F*dec
+	var roots []float64
+	if qa != 0 {
+		discriminant := qb*qb - 4*qa*qc
+		if discriminant >= 0 {
+			roots = append(roots, (-qb+math.Sqrt(discriminant))/(2*qa), (-qb-math.Sqrt(discriminant))/(2*qa))
+		}
+	} else if qb != 0 {
+		roots = append(roots, -qc/qb)
 	}
-	secondDivisorPositive := (2 * (cm.Coeffs.A - cm.Coeffs.D*dec)) +
-		math.Sqrt(math.Pow((cm.Coeffs.E*dec-cm.Coeffs.B), 2)-4*(cm.Coeffs.D*dec-cm.Coeffs.A)*(cm.Coeffs.F*dec-cm.Coeffs.C))/firstDivisor
-	secondDivisorNegative := (2 * (cm.Coeffs.A - cm.Coeffs.D*dec)) -
-		math.Sqrt(math.Pow((cm.Coeffs.E*dec-cm.Coeffs.B), 2)-4*(cm.Coeffs.D*dec-cm.Coeffs.A)*(cm.Coeffs.F*dec-cm.Coeffs.C))/firstDivisor
-
-	if secondDivisorPositive != 0 && secondDivisorNegative != 0 {
-		plusVal := (cm.Coeffs.E*dec - cm.Coeffs.B) / secondDivisorPositive
-		minusVal := (cm.Coeffs.E*dec - cm.Coeffs.B) / secondDivisorNegative
-		testVal := (cm.Coeffs.A*plusVal*plusVal + cm.Coeffs.B*plusVal + cm.Coeffs.C) / (cm.Coeffs.D*plusVal*plusVal + cm.Coeffs.E*plusVal + cm.Coeffs.F)
-		if testVal == dec {
-			return plusVal, err
-		} else {
-			return minusVal, err
+	for _, phy := range roots {
+		if cm.Coeffs.D*phy*phy+cm.Coeffs.E*phy+cm.Coeffs.F != 0 {
+			return phy, err
 		}
-	} else if secondDivisorPositive != 0 {
-		plusVal := (cm.Coeffs.E*dec - cm.Coeffs.B) / secondDivisorPositive
-		return plusVal, err
-	} else if secondDivisorNegative != 0 {
-		minusVal := (cm.Coeffs.E*dec - cm.Coeffs.B) / secondDivisorNegative
-		return minusVal, err
-	} else {
-		err = errors.New("rationality function cannot be computed(zero divisor) for compuMethod: " + cm.Name)
-		log.Err(err).Msg("decimal value could not be converted")
-		return 0, err
 	}
-
+	err = errors.New("rationality function cannot be computed(no solution) for compuMethod: " + cm.Name)
+	log.Err(err).Msg("decimal value could not be converted")
+	return 0, err
 }
 
 func calcTabNoIntp(dec float64, cm *a2l.CompuMethod, cd *CalibrationData) (float64, error) {
-- 
2.43.0


From bc68299b0c310d3d526f6689fc30f95cfff4661c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:34 +0000
Subject: [PATCH 29/43] fix: report unsupported TAB_INTP conversions and
 missing conversion tables as errors

---
 compu_methods.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/compu_methods.go b/compu_methods.go
index 214ae48..97d1ee5 100644
--- a/compu_methods.go
+++ b/compu_methods.go
@@ -38,6 +38,8 @@ func convDecToPhy(dec float64, cm *a2l.CompuMethod, cd *CalibrationData) (float6
 		}
 		return phy, err
 	case a2l.TabIntp:
+		err = errors.New("conversion method 'TabIntp' not implemented for compuMethod " + cm.Name)
+		log.Err(err).Msg("decimal value could not be converted")
 		return 0, err
 	case a2l.TabNointp:
 		phy, err := calcTabNoIntp(dec, cm, cd)
@@ -153,11 +155,9 @@ func calcTabNoIntp(dec float64, cm *a2l.CompuMethod, cd *CalibrationData) (float
 	var err error
 	tab, exists := cd.A2l.Project.Modules[cd.ModuleIndex].CompuTabs[cm.CompuTabRef.ConversionTable]
 	if !exists {
-		if err != nil {
-			err = errors.New("conversion table " + cm.CompuTabRef.ConversionTable + " not found for compuMethod: " + cm.Name)
-			log.Err(err).Msg("decimal value could not be converted")
-			return dec, err
-		}
+		err = errors.New("conversion table " + cm.CompuTabRef.ConversionTable + " not found for compuMethod: " + cm.Name)
+		log.Err(err).Msg("decimal value could not be converted")
+		return dec, err
 	}
 	if tab.InValSet && tab.OutValSet {
 		for i := range tab.InVal {
-- 
2.43.0


From 5c6ba9b198919a48edaa275c17055a1f6cc1ccd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:06 +0000
Subject: [PATCH 30/43] fix: match verbal table ranges against both of their
 limits

---
 compu_methods.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/compu_methods.go b/compu_methods.go
index 97d1ee5..f47dc44 100644
--- a/compu_methods.go
+++ b/compu_methods.go
@@ -68,9 +68,14 @@ func calcTabVerbRange(dec float64, cvr *a2l.CompuVTabRange, cd *CalibrationData)
 		return "", err
 	}
 	if tabRange.NumberValueTriplesSet {
-		var i uint16
-		for i = 0; i < tabRange.NumberValueTriples; i++ {
-			if tabRange.InValMin[i] <= dec && dec < tabRange.InValMin[i] {
+		for i := range tabRange.OutVal {
+			if (tabRange.InValMin[i] <= dec && dec < tabRange.InValMax[i]) || (tabRange.InValMin[i] == dec && dec == tabRange.InValMax[i]) {
+				return tabRange.OutVal[i], err
+			}
+		}
+		//the upper limit belongs to a range unless the next range starts there
+		for i := range tabRange.OutVal {
+			if dec == tabRange.InValMax[i] {
 				return tabRange.OutVal[i], err
 			}
 		}
-- 
2.43.0


From 3700f48a8234f2680eb3860d4b9e7da59a815387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:09 +0000
Subject: [PATCH 31/43] verif hooks: pass-through access to the value functions
 (build tag verif)

---
 verif_hooks.go | 57 ++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 57 insertions(+)
 create mode 100644 verif_hooks.go

diff --git a/verif_hooks.go b/verif_hooks.go
new file mode 100644
index 0000000..0679104
--- /dev/null
+++ b/verif_hooks.go
@@ -0,0 +1,57 @@
+//go:build verif
+
+package calibrationReader
+
+import "github.com/asap2Go/calibrationReader/a2l"
+
+// pass-through access to unexported functions for the verification harness. Only compiled with the build tag verif.
+
+// VerifReadValues reads the values of a characteristic and returns them by the field name of its record layout
+func VerifReadValues(cd *CalibrationData, c *a2l.Characteristic, rl *a2l.RecordLayout) map[string]interface{} {
+	cv := NewCharacteristicValues(c, rl)
+	getValuesFromHex(cv, cd)
+	return map[string]interface{}{
+		"AxisPtsX": cv.AxisXValues, "AxisPtsY": cv.AxisYValues, "AxisPtsZ": cv.AxisZValues, "AxisPts4": cv.Axis4Values, "AxisPts5": cv.Axis5Values,
+		"DistOpX": cv.distOpXValue, "DistOpY": cv.distOpYValue, "DistOpZ": cv.distOpZValue, "DistOp4": cv.distOp4Value, "DistOp5": cv.distOp5Value,
+		"Identification": cv.identificationValue,
+		"NoAxisPtsX":     cv.noAxisPtsXValue, "NoAxisPtsY": cv.noAxisPtsYValue, "NoAxisPtsZ": cv.noAxisPtsZValue, "NoAxisPts4": cv.noAxisPts4Value, "NoAxisPts5": cv.noAxisPts5Value,
+		"NoRescaleX": cv.noRescaleXValue,
+		"OffsetX":    cv.offsetXValue, "OffsetY": cv.offsetYValue, "OffsetZ": cv.offsetZValue, "Offset4": cv.offset4Value, "Offset5": cv.offset5Value,
+		"ShiftOpX": cv.shiftOpXValue, "ShiftOpY": cv.shiftOpYValue, "ShiftOpZ": cv.shiftOpZValue, "ShiftOp4": cv.shiftOp4Value, "ShiftOp5": cv.shiftOp5Value,
+	}
+}
+
+// VerifDecode decodes the bytes of one value
+func VerifDecode(cd *CalibrationData, b []byte, dte a2l.DataTypeEnum) (float64, error) {
+	return cd.convertByteSliceToDatatype(b, dte)
+}
+
+// VerifAlign returns the aligned address
+func VerifAlign(cd *CalibrationData, address uint32, dte a2l.DataTypeEnum, rl *a2l.RecordLayout) uint32 {
+	return cd.getNextAlignedAddress(address, dte, rl)
+}
+
+// VerifConvert converts an internal value by a conversion method
+func VerifConvert(cd *CalibrationData, dec float64, cm *a2l.CompuMethod) (float64, error) {
+	return convDecToPhy(dec, cm, cd)
+}
+
+// VerifVerbal converts an internal value by a verbal table
+func VerifVerbal(cd *CalibrationData, dec float64, t *a2l.CompuVTab) (string, error) {
+	return calcTabVerb(dec, t, cd)
+}
+
+// VerifVerbalRange converts an internal value by a verbal range table
+func VerifVerbalRange(cd *CalibrationData, dec float64, t *a2l.CompuVTabRange) (string, error) {
+	return calcTabVerbRange(dec, t, cd)
+}
+
+// VerifAddress converts an address text
+func VerifAddress(cd *CalibrationData, text string) (uint32, error) {
+	return cd.convertStringToUint32Address(text)
+}
+
+// VerifConstant returns the value of a system constant
+func VerifConstant(cd *CalibrationData, ident string) (string, error) {
+	return cd.getSystemConstantValue(ident)
+}
-- 
2.43.0


From 22d8259174c730cf93e7ff05be939ccb72dab0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:36 +0000
Subject: [PATCH 32/43] fix: a verbal table without rows converts to its
 default value

---
 compu_methods.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/compu_methods.go b/compu_methods.go
index f47dc44..4aa8fff 100644
--- a/compu_methods.go
+++ b/compu_methods.go
@@ -113,6 +113,8 @@ func calcTabVerb(dec float64, cv *a2l.CompuVTab, cd *CalibrationData) (string, e
 			return "", err
 		}
 		return tab.DefaultValue.DisplayString, err
+	} else if tab.DefaultValue.DisplayStringSet {
+		return tab.DefaultValue.DisplayString, err
 	} else {
 		err = errors.New("no output at all found for conversion table " + cv.Name)
 		log.Err(err).Msg("decimal value could not be converted")
-- 
2.43.0


From efd8c2c10cda9184246557dd29c5ce9dbfe947ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:04 +0000
Subject: [PATCH 33/43] fix: a byte spelled with one upper and one lower case
 digit is accepted

---
 ihex32/hex.go | 4 ++++
 srec19/hex.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/ihex32/hex.go b/ihex32/hex.go
index 47ce595..9d21815 100644
--- a/ihex32/hex.go
+++ b/ihex32/hex.go
@@ -268,6 +268,10 @@ func hexToByte(str string) (byte, error) {
 	var b byte
 	var exists bool
 	b, exists = hexBytes[str]
+	if !exists {
+		//the letters of one byte may also differ in case
+		b, exists = hexBytes[strings.ToUpper(str)]
+	}
 	if !exists {
 		err = errors.New("could not convert " + str + " from hex to byte")
 		log.Err(err)
diff --git a/srec19/hex.go b/srec19/hex.go
index ef9e5d3..1525cdc 100644
--- a/srec19/hex.go
+++ b/srec19/hex.go
@@ -260,6 +260,10 @@ func hexToByte(str string) (byte, error) {
 	var b byte
 	var exists bool
 	b, exists = hexBytes[str]
+	if !exists {
+		//the letters of one byte may also differ in case
+		b, exists = hexBytes[strings.ToUpper(str)]
+	}
 	if !exists {
 		err = errors.New("could not convert " + str + " from hex to byte")
 		log.Err(err)
-- 
2.43.0


From f1e74b83045c6a0318e13fa1bbfaed6221cb9dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:07 +0000
Subject: [PATCH 34/43] fix: an extended linear address record of other than
 two bytes is rejected

---
 ihex32/record.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ihex32/record.go b/ihex32/record.go
index 2775ad2..4d7fff5 100644
--- a/ihex32/record.go
+++ b/ihex32/record.go
@@ -43,10 +43,11 @@ func parseRecord(line string) (*record, error) {
 		}
 		switch r.recordType {
 		case extendedLinearAddressRecordToken:
-			if len(line) >= 13 {
+			//the upper half of the address are exactly two bytes
+			if n == 2 {
 				r.offset = line[9:13]
 			} else {
-				err := errors.New("line is too short to parse extended address record")
+				err := errors.New("extended address record does not hold two bytes")
 				return &r, err
 			}
 		case dataRecordToken, endOfFileToken, startSegmentAddressRecordToken, startLinearAddressRecordToken:
-- 
2.43.0


From 6337368fd4f523fa76413e7a1c4f59357272d45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:28 +0000
Subject: [PATCH 35/43] fix: long texts in quotation marks are collected in
 linear time

---
 a2l/token_generator.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/a2l/token_generator.go b/a2l/token_generator.go
index 4f1654b..8e47f5c 100755
--- a/a2l/token_generator.go
+++ b/a2l/token_generator.go
@@ -223,18 +223,19 @@ func getTextInQuotationMarks(currentOuterIndex *int, currentInnerIndex *int, str
 		return emptyToken, err
 	} else if strings.Count(t, quotationMarkToken)%2 != 0 {
 		//in case there is an odd number of quoatation marks we continue
-		var numQuot int
-		textInQuotationMarks := t
+		numQuot := strings.Count(t, quotationMarkToken)
+		var textInQuotationMarks strings.Builder
+		textInQuotationMarks.WriteString(t)
 		for {
 			t, err = moveToNextRawValue(currentOuterIndex, currentInnerIndex, str)
 			if err != nil {
 				return emptyToken, err
 			}
-			textInQuotationMarks = textInQuotationMarks + spaceToken + t
+			textInQuotationMarks.WriteString(spaceToken + t)
 			//Until there is an even number of quotation marks
-			numQuot = strings.Count(textInQuotationMarks, quotationMarkToken)
+			numQuot += strings.Count(t, quotationMarkToken)
 			if numQuot%2 == 0 {
-				return textInQuotationMarks, nil
+				return textInQuotationMarks.String(), nil
 			}
 		}
 	} else {
-- 
2.43.0


From bc7242b5b8570e5ac158ce58a5f164a304f81d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:28 +0000
Subject: [PATCH 36/43] fix: long A2ML sections and annotation texts are
 collected in linear time

---
 a2l/a2ml.go            | 5 ++++-
 a2l/annotation_text.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/a2l/a2ml.go b/a2l/a2ml.go
index fe16672..d069894 100644
--- a/a2l/a2ml.go
+++ b/a2l/a2ml.go
@@ -2,6 +2,7 @@ package a2l
 
 import (
 	"errors"
+	"strings"
 
 	"github.com/rs/zerolog/log"
 )
@@ -14,6 +15,7 @@ type a2ml struct {
 
 func parseA2ML(tok *tokenGenerator) (a2ml, error) {
 	a2ml := a2ml{}
+	var formatSpecification strings.Builder
 	var err error
 forLoop:
 	for {
@@ -26,8 +28,9 @@ forLoop:
 			a2ml.formatSpecificationSet = true
 			break forLoop
 		} else if !a2ml.formatSpecificationSet {
-			a2ml.formatSpecification = a2ml.formatSpecification + spaceToken + tok.current()
+			formatSpecification.WriteString(spaceToken + tok.current())
 		}
 	}
+	a2ml.formatSpecification = formatSpecification.String()
 	return a2ml, err
 }
diff --git a/a2l/annotation_text.go b/a2l/annotation_text.go
index 7eaad6c..c383e29 100644
--- a/a2l/annotation_text.go
+++ b/a2l/annotation_text.go
@@ -2,6 +2,7 @@ package a2l
 
 import (
 	"errors"
+	"strings"
 
 	"github.com/rs/zerolog/log"
 )
@@ -15,6 +16,7 @@ type annotationText struct {
 
 func parseAnnotationText(tok *tokenGenerator) (annotationText, error) {
 	at := annotationText{}
+	var text strings.Builder
 	var err error
 forLoop:
 	for {
@@ -31,8 +33,9 @@ forLoop:
 			log.Err(err).Msg("annotationText could not be parsed")
 			break forLoop
 		} else if !at.annotationTextSet {
-			at.annotationText = at.annotationText + spaceToken + tok.current()
+			text.WriteString(spaceToken + tok.current())
 		}
 	}
+	at.annotationText = text.String()
 	return at, err
 }
-- 
2.43.0


From 6c6d9b56e1e3eef28c1330db6ddf737913348b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:28 +0000
Subject: [PATCH 37/43] fix: the modules of a multi-module file take memory by
 their content

---
 a2l/module.go | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/a2l/module.go b/a2l/module.go
index 4b42f3f..dafcd71 100644
--- a/a2l/module.go
+++ b/a2l/module.go
@@ -44,29 +44,29 @@ type Module struct {
 }
 
 func parseModule(tok *tokenGenerator) (Module, error) {
-	//Bulk init of an average number of objects contained in a modern a2l-file.
+	//no bulk init as in parseModuleMultithreaded: it would take the memory of an average a2l-file for each of the modules.
 	myModule := Module{}
-	myModule.AxisPts = make(map[string]axisPts, 1000)
-	myModule.blobs = make(map[string]blob, 5)
-	myModule.Characteristics = make(map[string]Characteristic, 10000)
-	myModule.CompuMethods = make(map[string]CompuMethod, 1000)
-	myModule.CompuTabs = make(map[string]CompuTab, 1000)
-	myModule.CompuVTabs = make(map[string]CompuVTab, 1000)
-	myModule.CompuVTabRanges = make(map[string]CompuVTabRange, 1000)
-	myModule.Functions = make(map[string]function, 10000)
-	myModule.Groups = make(map[string]group, 1000)
-	myModule.ifData = make(map[string]IfData, 1000)
-	myModule.instances = make(map[string]instance, 10)
-	myModule.Measurements = make(map[string]measurement, 10000)
-	myModule.RecordLayouts = make(map[string]RecordLayout, 1000)
-	myModule.transformers = make(map[string]transformer, 10)
-	myModule.typeDefAxis = make(map[string]typeDefAxis, 10)
-	myModule.typeDefBlobs = make(map[string]typeDefBlob, 10)
-	myModule.typeDefCharacteristics = make(map[string]typeDefCharacteristic, 10)
-	myModule.typeDefMeasurements = make(map[string]typeDefMeasurement, 10)
-	myModule.typeDefStructures = make(map[string]typeDefStructure, 10)
-	myModule.Units = make(map[string]unit, 1000)
-	myModule.userRights = make(map[string]userRights, 1000)
+	myModule.AxisPts = make(map[string]axisPts)
+	myModule.blobs = make(map[string]blob)
+	myModule.Characteristics = make(map[string]Characteristic)
+	myModule.CompuMethods = make(map[string]CompuMethod)
+	myModule.CompuTabs = make(map[string]CompuTab)
+	myModule.CompuVTabs = make(map[string]CompuVTab)
+	myModule.CompuVTabRanges = make(map[string]CompuVTabRange)
+	myModule.Functions = make(map[string]function)
+	myModule.Groups = make(map[string]group)
+	myModule.ifData = make(map[string]IfData)
+	myModule.instances = make(map[string]instance)
+	myModule.Measurements = make(map[string]measurement)
+	myModule.RecordLayouts = make(map[string]RecordLayout)
+	myModule.transformers = make(map[string]transformer)
+	myModule.typeDefAxis = make(map[string]typeDefAxis)
+	myModule.typeDefBlobs = make(map[string]typeDefBlob)
+	myModule.typeDefCharacteristics = make(map[string]typeDefCharacteristic)
+	myModule.typeDefMeasurements = make(map[string]typeDefMeasurement)
+	myModule.typeDefStructures = make(map[string]typeDefStructure)
+	myModule.Units = make(map[string]unit)
+	myModule.userRights = make(map[string]userRights)
 	var err error
 	var bufAxisPts axisPts
 	var bufBlob blob
-- 
2.43.0


From 004f42393a65203fa25669f4e0e848120a2c7fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:44 +0000
Subject: [PATCH 38/43] fix: concurrent calls of the A2L parser take turns

---
 a2l/a2l.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/a2l/a2l.go b/a2l/a2l.go
index 2f16414..c4f1a26 100644
--- a/a2l/a2l.go
+++ b/a2l/a2l.go
@@ -8,6 +8,7 @@ import (
 	"regexp"
 	"runtime"
 	"strings"
+	"sync"
 	"time"
 	"unicode"
 
@@ -23,6 +24,8 @@ var (
 	//numProc = runtime.NumCPU() * 1 has proven to be reliably fast for different cpu models.
 	//factors above 4 will generally lead to severe performance degredation due to channel and locking overhead.
 	numProc = runtime.NumCPU() * 2
+	//parserMutex makes concurrent calls of ParseFromFile take turns, because all of them use the same token list.
+	parserMutex sync.Mutex
 )
 
 // A2L is the main struct returned by the a2l package.
@@ -58,6 +61,9 @@ func ParseFromFile(filepath string) (A2L, error) {
 	var tg tokenGenerator
 	var a A2L
 
+	parserMutex.Lock()
+	defer parserMutex.Unlock()
+
 	startTime := time.Now()
 	//read a2l file from a text file
 	text, err = readFileToString(filepath)
-- 
2.43.0


From 564161a77f5aecb5416344e46a2334f91a655b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:44 +0000
Subject: [PATCH 39/43] fix: concurrent calls of ReadCalibration take turns

---
 calib_data.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/calib_data.go b/calib_data.go
index a0a0b2f..7312d14 100644
--- a/calib_data.go
+++ b/calib_data.go
@@ -42,9 +42,15 @@ type CalibrationData struct {
 	Hex map[uint32]byte
 }
 
+// readerMutex makes concurrent calls of ReadCalibration take turns, because all of them configure the same logger and its file.
+var readerMutex sync.Mutex
+
 // ReadCalibration takes filepaths to the a2l file and the hex file,
 // parses them in parallel and returns a CalibrationData struct
 func ReadCalibration(a2lFilePath string, hexFilePath string) (CalibrationData, error) {
+	readerMutex.Lock()
+	defer readerMutex.Unlock()
+
 	var err error
 	var cd CalibrationData
 	//set ModuleIndex to zero as default as it covers 99% of use cases.
-- 
2.43.0


From e7e78131e8025d35ec945e230484532e40f9663c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:44 +0000
Subject: [PATCH 40/43] fix: lookup in a project without modules finds nothing
 instead of panicking

---
 record_manager.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/record_manager.go b/record_manager.go
index 10b8c31..8e1cd3f 100644
--- a/record_manager.go
+++ b/record_manager.go
@@ -45,6 +45,10 @@ func (cd *CalibrationData) GetObjectByIdent(ident string) []interface{} {
 	var buf interface{}
 	var exists bool
 
+	//a project without modules contains no objects
+	if int(cd.ModuleIndex) >= len(cd.A2l.Project.Modules) {
+		return calibrationObjects
+	}
 	m := cd.A2l.Project.Modules[cd.ModuleIndex]
 
 	buf, exists = m.AxisPts[ident]
-- 
2.43.0


From 37cea6531b6ff2663052c63a8553f932533c805f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:44 +0000
Subject: [PATCH 41/43] fix: an alignment border of zero is no border

---
 calib_data.go | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/calib_data.go b/calib_data.go
index 7312d14..5943a40 100644
--- a/calib_data.go
+++ b/calib_data.go
@@ -207,7 +207,7 @@ func (cd *CalibrationData) getRecordLayout(c *a2l.Characteristic) (*a2l.RecordLa
 func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTypeEnum, rl *a2l.RecordLayout) uint32 {
 	switch dte {
 	case a2l.UBYTE:
-		if rl.AlignmentByte.AlignmentBorderSet {
+		if rl.AlignmentByte.AlignmentBorderSet && rl.AlignmentByte.AlignmentBorder > 0 {
 			modulo := address % uint32(rl.AlignmentByte.AlignmentBorder)
 			if modulo != 0 {
 				return address + uint32(rl.AlignmentByte.AlignmentBorder) - modulo
@@ -216,7 +216,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 			}
 		}
 		a := cd.A2l.Project.Modules[cd.ModuleIndex].ModCommon.AlignmentByte
-		if a.AlignmentBorderSet {
+		if a.AlignmentBorderSet && a.AlignmentBorder > 0 {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
 				return address + uint32(a.AlignmentBorder) - modulo
@@ -232,7 +232,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 			}
 		}
 	case a2l.SBYTE:
-		if rl.AlignmentByte.AlignmentBorderSet {
+		if rl.AlignmentByte.AlignmentBorderSet && rl.AlignmentByte.AlignmentBorder > 0 {
 			modulo := address % uint32(rl.AlignmentByte.AlignmentBorder)
 			if modulo != 0 {
 				return address + uint32(rl.AlignmentByte.AlignmentBorder) - modulo
@@ -241,7 +241,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 			}
 		}
 		a := cd.A2l.Project.Modules[cd.ModuleIndex].ModCommon.AlignmentByte
-		if a.AlignmentBorderSet {
+		if a.AlignmentBorderSet && a.AlignmentBorder > 0 {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
 				return address + uint32(a.AlignmentBorder) - modulo
@@ -257,7 +257,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 			}
 		}
 	case a2l.UWORD:
-		if rl.AlignmentWord.AlignmentBorderSet {
+		if rl.AlignmentWord.AlignmentBorderSet && rl.AlignmentWord.AlignmentBorder > 0 {
 			modulo := address % uint32(rl.AlignmentWord.AlignmentBorder)
 			if modulo != 0 {
 				return address + uint32(rl.AlignmentWord.AlignmentBorder) - modulo
@@ -266,7 +266,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 			}
 		}
 		a := cd.A2l.Project.Modules[cd.ModuleIndex].ModCommon.AlignmentWord
-		if a.AlignmentBorderSet {
+		if a.AlignmentBorderSet && a.AlignmentBorder > 0 {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
 				return address + uint32(a.AlignmentBorder) - modulo
@@ -282,7 +282,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 			}
 		}
 	case a2l.SWORD:
-		if rl.AlignmentWord.AlignmentBorderSet {
+		if rl.AlignmentWord.AlignmentBorderSet && rl.AlignmentWord.AlignmentBorder > 0 {
 			modulo := address % uint32(rl.AlignmentWord.AlignmentBorder)
 			if modulo != 0 {
 				return address + uint32(rl.AlignmentWord.AlignmentBorder) - modulo
@@ -291,7 +291,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 			}
 		}
 		a := cd.A2l.Project.Modules[cd.ModuleIndex].ModCommon.AlignmentWord
-		if a.AlignmentBorderSet {
+		if a.AlignmentBorderSet && a.AlignmentBorder > 0 {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
 				return address + uint32(a.AlignmentBorder) - modulo
@@ -307,7 +307,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 			}
 		}
 	case a2l.ULONG:
-		if rl.AlignmentLong.AlignmentBorderSet {
+		if rl.AlignmentLong.AlignmentBorderSet && rl.AlignmentLong.AlignmentBorder > 0 {
 			modulo := address % uint32(rl.AlignmentLong.AlignmentBorder)
 			if modulo != 0 {
 				return address + uint32(rl.AlignmentLong.AlignmentBorder) - modulo
@@ -316,7 +316,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 			}
 		}
 		a := cd.A2l.Project.Modules[cd.ModuleIndex].ModCommon.AlignmentLong
-		if a.AlignmentBorderSet {
+		if a.AlignmentBorderSet && a.AlignmentBorder > 0 {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
 				return address + uint32(a.AlignmentBorder) - modulo
@@ -332,7 +332,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 			}
 		}
 	case a2l.SLONG:
-		if rl.AlignmentLong.AlignmentBorderSet {
+		if rl.AlignmentLong.AlignmentBorderSet && rl.AlignmentLong.AlignmentBorder > 0 {
 			modulo := address % uint32(rl.AlignmentLong.AlignmentBorder)
 			if modulo != 0 {
 				return address + uint32(rl.AlignmentLong.AlignmentBorder) - modulo
@@ -341,7 +341,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 			}
 		}
 		a := cd.A2l.Project.Modules[cd.ModuleIndex].ModCommon.AlignmentLong
-		if a.AlignmentBorderSet {
+		if a.AlignmentBorderSet && a.AlignmentBorder > 0 {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
 				return address + uint32(a.AlignmentBorder) - modulo
@@ -357,7 +357,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 			}
 		}
 	case a2l.AUint64:
-		if rl.AlignmentInt64.AlignmentBorderSet {
+		if rl.AlignmentInt64.AlignmentBorderSet && rl.AlignmentInt64.AlignmentBorder > 0 {
 			modulo := address % uint32(rl.AlignmentInt64.AlignmentBorder)
 			if modulo != 0 {
 				return address + uint32(rl.AlignmentInt64.AlignmentBorder) - modulo
@@ -366,7 +366,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 			}
 		}
 		a := cd.A2l.Project.Modules[cd.ModuleIndex].ModCommon.AlignmentInt64
-		if a.AlignmentBorderSet {
+		if a.AlignmentBorderSet && a.AlignmentBorder > 0 {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
 				return address + uint32(a.AlignmentBorder) - modulo
@@ -382,7 +382,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 			}
 		}
 	case a2l.AInt64:
-		if rl.AlignmentInt64.AlignmentBorderSet {
+		if rl.AlignmentInt64.AlignmentBorderSet && rl.AlignmentInt64.AlignmentBorder > 0 {
 			modulo := address % uint32(rl.AlignmentInt64.AlignmentBorder)
 			if modulo != 0 {
 				return address + uint32(rl.AlignmentInt64.AlignmentBorder) - modulo
@@ -391,7 +391,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 			}
 		}
 		a := cd.A2l.Project.Modules[cd.ModuleIndex].ModCommon.AlignmentInt64
-		if a.AlignmentBorderSet {
+		if a.AlignmentBorderSet && a.AlignmentBorder > 0 {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
 				return address + uint32(a.AlignmentBorder) - modulo
@@ -407,7 +407,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 			}
 		}
 	case a2l.Float16Ieee:
-		if rl.AlignmentFloat16Ieee.AlignmentBorderSet {
+		if rl.AlignmentFloat16Ieee.AlignmentBorderSet && rl.AlignmentFloat16Ieee.AlignmentBorder > 0 {
 			modulo := address % uint32(rl.AlignmentFloat16Ieee.AlignmentBorder)
 			if modulo != 0 {
 				return address + uint32(rl.AlignmentFloat16Ieee.AlignmentBorder) - modulo
@@ -416,7 +416,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 			}
 		}
 		a := cd.A2l.Project.Modules[cd.ModuleIndex].ModCommon.AlignmentFloat16Ieee
-		if a.AlignmentBorderSet {
+		if a.AlignmentBorderSet && a.AlignmentBorder > 0 {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
 				return address + uint32(a.AlignmentBorder) - modulo
@@ -432,7 +432,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 			}
 		}
 	case a2l.Float32Ieee:
-		if rl.AlignmentFloat32Ieee.AlignmentBorderSet {
+		if rl.AlignmentFloat32Ieee.AlignmentBorderSet && rl.AlignmentFloat32Ieee.AlignmentBorder > 0 {
 			modulo := address % uint32(rl.AlignmentFloat32Ieee.AlignmentBorder)
 			if modulo != 0 {
 				return address + uint32(rl.AlignmentFloat32Ieee.AlignmentBorder) - modulo
@@ -441,7 +441,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 			}
 		}
 		a := cd.A2l.Project.Modules[cd.ModuleIndex].ModCommon.AlignmentFloat32Ieee
-		if a.AlignmentBorderSet {
+		if a.AlignmentBorderSet && a.AlignmentBorder > 0 {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
 				return address + uint32(a.AlignmentBorder) - modulo
@@ -457,7 +457,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 			}
 		}
 	case a2l.Float64Ieee:
-		if rl.AlignmentFloat64Ieee.AlignmentBorderSet {
+		if rl.AlignmentFloat64Ieee.AlignmentBorderSet && rl.AlignmentFloat64Ieee.AlignmentBorder > 0 {
 			modulo := address % uint32(rl.AlignmentFloat64Ieee.AlignmentBorder)
 			if modulo != 0 {
 				return address + uint32(rl.AlignmentFloat64Ieee.AlignmentBorder) - modulo
@@ -466,7 +466,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 			}
 		}
 		a := cd.A2l.Project.Modules[cd.ModuleIndex].ModCommon.AlignmentFloat64Ieee
-		if a.AlignmentBorderSet {
+		if a.AlignmentBorderSet && a.AlignmentBorder > 0 {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
 				return address + uint32(a.AlignmentBorder) - modulo
-- 
2.43.0


From 19b27678e7494299d6858069c782b13b051964b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:20 +0000
Subject: [PATCH 42/43] fix: a keyword in the place of a verbal table's output
 is rejected

---
 a2l/compu_vtab.go       | 5 +++++
 a2l/compu_vtab_range.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/a2l/compu_vtab.go b/a2l/compu_vtab.go
index 4bb0a5a..fd27d66 100644
--- a/a2l/compu_vtab.go
+++ b/a2l/compu_vtab.go
@@ -86,6 +86,11 @@ forLoop:
 					log.Info().Msg("compuVtab inVal successfully parsed")
 				}
 				tok.next()
+				if isKeyword(tok.current()) {
+					err = errors.New("unexpected token " + tok.current())
+					log.Err(err).Msg("compuVtab outVal could not be parsed")
+					break forLoop
+				}
 				cvt.OutVal = append(cvt.OutVal, tok.current())
 				log.Info().Msg("compuVtab outVal successfully parsed")
 				if uint16(len(cvt.OutVal)) == cvt.NumberValuePairs {
diff --git a/a2l/compu_vtab_range.go b/a2l/compu_vtab_range.go
index 9996d86..60d5d8e 100644
--- a/a2l/compu_vtab_range.go
+++ b/a2l/compu_vtab_range.go
@@ -91,6 +91,11 @@ forLoop:
 					log.Info().Msg("compuVtabRange inValMax successfully parsed")
 				}
 				tok.next()
+				if isKeyword(tok.current()) {
+					err = errors.New("unexpected token " + tok.current())
+					log.Err(err).Msg("compuVtabRange outVal could not be parsed")
+					break forLoop
+				}
 				cvr.OutVal = append(cvr.OutVal, tok.current())
 				log.Info().Msg("compuVtabRange outVal successfully parsed")
 				if uint16(len(cvr.OutVal)) == cvr.NumberValueTriples {
-- 
2.43.0


From 8c4502570b79ba950a35abcfc96a67de8ee9636b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:39 +0000
Subject: [PATCH 43/43] fix: a keyword in the place of a single module's name
 or description is rejected

---
 a2l/module.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/a2l/module.go b/a2l/module.go
index dafcd71..7e64fae 100644
--- a/a2l/module.go
+++ b/a2l/module.go
@@ -359,6 +359,10 @@ forLoop:
 			err = errors.New("unexpected end of file")
 			log.Err(err).Msg("module could not be parsed")
 			break forLoop
+		} else if isKeyword(tok.current()) {
+			err = errors.New("unexpected token " + tok.current())
+			log.Err(err).Msg("module could not be parsed")
+			break forLoop
 		} else if !myModule.nameSet {
 			myModule.Name = tok.current()
 			myModule.nameSet = true
-- 
2.43.0

