From 9999e669cb091490383e01a60d0cb7841992fc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:53 +0000
Subject: [PATCH 01/63] fix: do not take a NUL byte for the end of the input

A message with a NUL byte at the start of an element was read as if it
ended there; what followed was dropped without an error.
---
 token/lexer.go       | 24 +++++++++++++-----------
 token/swift_lexer.go |  2 +-
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/token/lexer.go b/token/lexer.go
index dc63286..cae0f3f 100644
--- a/token/lexer.go
+++ b/token/lexer.go
@@ -7,7 +7,7 @@ import (
 )
 
 const (
-	eof                       = 0
+	eof                       = -1
 	dataElementDelimiter      = '+'
 	groupDataElementDelimiter = ':'
 	segmentDelimiter          = '\''
@@ -36,6 +36,7 @@ type Lexer struct {
 	state  LexerStateFn // the next lexing function to enter
 	pos    int          // current position in the input.
 	start  int          // start position of this item.
+	width  int          // width of the last byte read, 0 at the end of the input.
 	tokens chan Token   // channel of scanned tokens.
 }
 
@@ -90,14 +91,16 @@ func (l *Lexer) emit(t Type) {
 	l.start = l.pos
 }
 
-// next returns the next byte in the input.
-func (l *Lexer) next() byte {
+// next returns the next byte in the input or eof if there is none left.
+func (l *Lexer) next() int {
 	if l.pos >= len(l.input) {
+		l.width = 0
 		return eof
 	}
 	b := l.input[l.pos]
+	l.width = 1
 	l.pos++
-	return b
+	return int(b)
 }
 
 // ignore skips over the pending input before this point.
@@ -108,12 +111,12 @@ func (l *Lexer) ignore() {
 // backup steps back one byte.
 // Can be called only once per call of next.
 func (l *Lexer) backup() {
-	l.pos--
+	l.pos -= l.width
 }
 
 // peek returns but does not consume
 // the next byte in the input.
-func (l *Lexer) peek() byte {
+func (l *Lexer) peek() int {
 	r := l.next()
 	l.backup()
 	return r
@@ -122,7 +125,7 @@ func (l *Lexer) peek() byte {
 // accept consumes the next byte
 // if it's from the valid set.
 func (l *Lexer) accept(valid ...byte) bool {
-	if bytes.IndexByte(valid, l.next()) >= 0 {
+	if r := l.next(); r != eof && bytes.IndexByte(valid, byte(r)) >= 0 {
 		return true
 	}
 	l.backup()
@@ -131,9 +134,8 @@ func (l *Lexer) accept(valid ...byte) bool {
 
 // acceptRun consumes a run of bytes from the valid set.
 func (l *Lexer) acceptRun(valid []byte) {
-	for bytes.IndexByte(valid, l.next()) >= 0 {
+	for l.accept(valid...) {
 	}
-	l.backup()
 }
 
 // error returns an error token and terminates the scan by passing
@@ -279,10 +281,10 @@ func lexNumber(l *Lexer) LexerStateFn {
 
 }
 
-func isDelimiter(r byte) bool {
+func isDelimiter(r int) bool {
 	return r == dataElementDelimiter || r == segmentDelimiter || r == groupDataElementDelimiter
 }
 
-func isSyntaxSymbol(r byte) bool {
+func isSyntaxSymbol(r int) bool {
 	return r == dataElementDelimiter || r == segmentDelimiter || r == groupDataElementDelimiter || r == escapeCharacter || r == binaryIdentifier
 }
diff --git a/token/swift_lexer.go b/token/swift_lexer.go
index 1dfa77f..d2b4ae0 100644
--- a/token/swift_lexer.go
+++ b/token/swift_lexer.go
@@ -197,7 +197,7 @@ func isTagBoundary(s *Lexer) bool {
 	return isTagBoundary
 }
 
-func isSwiftAlphaNumeric(r byte) bool {
+func isSwiftAlphaNumeric(r int) bool {
 	return r == dash || r == lineFeed || r == ' ' || ('\'' <= r && r <= ')') || ('+' <= r && r <= ':') || r == '?' || ('A' <= r && r <= 'Z') || ('a' <= r && r <= 'z')
 }
 
-- 
2.43.0


From 830e7d177f0caefb1f68a04a9d84938d97280296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:27 +0000
Subject: [PATCH 02/63] fix: keep an escaped separator at the end of a segment
 or group

Trimming the marshaled bytes cut the escaped '+' or ':' a value ends
with and left its escape character, which then escaped the terminator.
---
 element/data_element.go | 9 ++++++---
 segment/segment.go      | 6 +++++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/element/data_element.go b/element/data_element.go
index d742ea0..d7bb102 100644
--- a/element/data_element.go
+++ b/element/data_element.go
@@ -151,9 +151,12 @@ func (g *elementGroup) MarshalHBCI() ([]byte, error) {
 			elementBytes[i] = marshaled
 		}
 	}
-	marshaled := bytes.Join(elementBytes, []byte(":"))
-	marshaled = bytes.TrimRight(marshaled, ":")
-	return marshaled, nil
+	// trailing empty elements are left out; a separator which belongs to the
+	// escaped value of the last element has to stay.
+	for len(elementBytes) > 0 && len(elementBytes[len(elementBytes)-1]) == 0 {
+		elementBytes = elementBytes[:len(elementBytes)-1]
+	}
+	return bytes.Join(elementBytes, []byte(":")), nil
 }
 
 func (g *elementGroup) UnmarshalHBCI(value []byte) error {
diff --git a/segment/segment.go b/segment/segment.go
index b814b55..f42985e 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -110,8 +110,12 @@ func (s *segment) MarshalHBCI() ([]byte, error) {
 			elementBytes[i+1] = marshaled
 		}
 	}
+	// trailing empty elements are left out; a separator which belongs to the
+	// escaped value of the last element has to stay.
+	for len(elementBytes[len(elementBytes)-1]) == 0 {
+		elementBytes = elementBytes[:len(elementBytes)-1]
+	}
 	marshaled := bytes.Join(elementBytes, []byte("+"))
-	marshaled = bytes.TrimRight(marshaled, "+")
 	marshaled = append(marshaled, '\'')
 	return marshaled, nil
 }
-- 
2.43.0


From 9c5022f42097fe98bba9a1fc054eee4253cb9ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:00 +0000
Subject: [PATCH 03/63] fix: extract groups whose values contain escaped
 separators

A group was taken to be terminated when it contained a '+' or an
apostrophe anywhere, so groups with an escaped one in a value failed to
parse. Appending the terminator also wrote into the caller's buffer.
---
 element/element_extractor.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/element/element_extractor.go b/element/element_extractor.go
index 6b84032..f5f97b6 100644
--- a/element/element_extractor.go
+++ b/element/element_extractor.go
@@ -1,7 +1,6 @@
 package element
 
 import (
-	"bytes"
 	"fmt"
 
 	"github.com/mitch000001/go-hbci/token"
@@ -15,12 +14,6 @@ func ExtractElements(dataElementGroup []byte) ([][]byte, error) {
 
 // newElementExtractor creates a new GroupExtractor ready to use
 func newElementExtractor(dataElementGroup []byte) *groupExtractor {
-	// TODO: workaround to get the lexer work properly for us. Maybe we should adopt the lexer?
-	if bytes.LastIndexFunc(dataElementGroup, func(r rune) bool {
-		return r == '+' || r == '\''
-	}) == -1 {
-		dataElementGroup = append(dataElementGroup, '+')
-	}
 	return &groupExtractor{
 		rawDataElementGroup: dataElementGroup,
 	}
@@ -35,19 +28,31 @@ type groupExtractor struct {
 // Extract extracts DataElements from the underlying DataElementGroup
 func (e *groupExtractor) Extract() ([][]byte, error) {
 	var current []byte
-	lexer := token.NewLexer("ElementExtractor", e.rawDataElementGroup)
+	// The lexer needs every element to be terminated. As only the lexer can
+	// tell whether the group already is, it gets a terminator of its own,
+	// which is dropped when it follows one.
+	end := len(e.rawDataElementGroup)
+	terminated := make([]byte, end, end+1)
+	copy(terminated, e.rawDataElementGroup)
+	terminated = append(terminated, '+')
+	var last token.Type
+	lexer := token.NewLexer("ElementExtractor", terminated)
 	for lexer.HasNext() {
 		t := lexer.Next()
 		currentType := t.Type()
 		if currentType == token.ERROR {
 			return nil, fmt.Errorf("%T: SyntaxError at position %d: %q\n(%q)", e, t.Pos(), t.Value(), e.rawDataElementGroup)
 		}
+		if t.Pos() == end && (last == token.SEGMENT_END_MARKER || last == token.DATA_ELEMENT_SEPARATOR) {
+			break
+		}
 		if currentType == token.SEGMENT_END_MARKER || currentType == token.DATA_ELEMENT_SEPARATOR || currentType == token.GROUP_DATA_ELEMENT_SEPARATOR {
 			e.elements = append(e.elements, current)
 			current = []byte{}
 		} else {
 			current = append(current, t.Value()...)
 		}
+		last = currentType
 	}
 	result := make([][]byte, len(e.elements))
 	copy(result, e.elements)
-- 
2.43.0


From 30d485657d7a846ccd2f544a0dada42ed2e9424b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:19 +0000
Subject: [PATCH 04/63] fix: check the announced length of binary data

A length beyond the end of the input made the lexer and the element
panic or padded the data with zeros. A malformed country code is an
error instead of an element without a value.
---
 element/data_element.go | 10 +++++-----
 token/lexer.go          |  3 +++
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/element/data_element.go b/element/data_element.go
index d7bb102..e52b92b 100644
--- a/element/data_element.go
+++ b/element/data_element.go
@@ -471,11 +471,11 @@ func (b *BinaryDataElement) UnmarshalHBCI(value []byte) error {
 	if err != nil {
 		return fmt.Errorf("Error while parsing binary size: %T:%v", err, err)
 	}
-	binData := make([]byte, binSize)
-	_, err = buf.Read(binData)
-	if err != nil {
-		return fmt.Errorf("Error while reading binary data: %T:%v", err, err)
+	if binSize < 0 || binSize > buf.Len() {
+		return fmt.Errorf("Error while reading binary data: size is %d, but there are %d bytes", binSize, buf.Len())
 	}
+	binData := make([]byte, binSize)
+	copy(binData, buf.Bytes())
 	*b = BinaryDataElement{&basicDataElement{binData, binaryDE, binSize, false}}
 	return nil
 }
@@ -705,7 +705,7 @@ func (c *CountryCodeDataElement) UnmarshalHBCI(value []byte) error {
 	var d DigitDataElement
 	err := d.UnmarshalHBCI(value)
 	if err != nil {
-		return nil
+		return err
 	}
 	*c = CountryCodeDataElement{&d}
 	return nil
diff --git a/token/lexer.go b/token/lexer.go
index cae0f3f..26426f5 100644
--- a/token/lexer.go
+++ b/token/lexer.go
@@ -221,6 +221,9 @@ func lexBinaryData(l *Lexer) LexerStateFn {
 	if !l.accept('@') {
 		return l.errorf("Binary length must contain of digits only")
 	}
+	if length > len(l.input)-l.pos {
+		return l.errorf("Unexpected end of input")
+	}
 	l.pos += length
 	p := l.peek()
 	if isDelimiter(p) {
-- 
2.43.0


From f37012100a527e2e11c33fe384c7830ed22eb934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:41 +0000
Subject: [PATCH 05/63] fix: remove escape characters from received texts and
 identifications

Acknowledgement texts, account connections, bank identifications and
message references kept the escape characters of the wire format, and
were escaped again when sent back. A received bank identification also
lacked its data element.
---
 element/acknowledgement.go          | 8 ++++----
 element/bank_parameter_data.go      | 2 +-
 element/group_data_element_group.go | 9 +++++----
 element/message.go                  | 5 ++++-
 4 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/element/acknowledgement.go b/element/acknowledgement.go
index 107c771..6268a1e 100644
--- a/element/acknowledgement.go
+++ b/element/acknowledgement.go
@@ -109,12 +109,12 @@ func (a *AcknowledgementDataElement) UnmarshalHBCI(value []byte) error {
 		return fmt.Errorf("%T: Malformed code", a)
 	}
 	acknowledgement.Code = code
-	acknowledgement.ReferenceDataElement = charset.ToUTF8(chunks[1])
-	acknowledgement.Text = charset.ToUTF8(chunks[2])
+	acknowledgement.ReferenceDataElement = unescape(charset.ToUTF8(chunks[1]))
+	acknowledgement.Text = unescape(charset.ToUTF8(chunks[2]))
 	if len(chunks) > 3 {
 		params := make([]string, len(chunks[3:]))
 		for i, chunk := range chunks[3:] {
-			params[i] = charset.ToUTF8(chunk)
+			params[i] = unescape(charset.ToUTF8(chunk))
 		}
 		acknowledgement.Params = params
 	}
@@ -156,7 +156,7 @@ func (p *ParamsDataElement) UnmarshalHBCI(value []byte) error {
 	}
 	dataElements := make([]DataElement, len(elements))
 	for i, elem := range elements {
-		dataElements[i] = NewAlphaNumeric(charset.ToUTF8(elem), 35)
+		dataElements[i] = NewAlphaNumeric(unescape(charset.ToUTF8(elem)), 35)
 	}
 	p.arrayElementGroup = newArrayElementGroup(acknowlegdementParamsGDEG, 10, 10, dataElements)
 	return nil
diff --git a/element/bank_parameter_data.go b/element/bank_parameter_data.go
index 396292c..6729a7f 100644
--- a/element/bank_parameter_data.go
+++ b/element/bank_parameter_data.go
@@ -283,7 +283,7 @@ func (p *PinTanBusinessTransactionParameter) UnmarshalHBCI(value []byte) error {
 	if err != nil {
 		return err
 	}
-	p.SegmentID = NewAlphaNumeric(charset.ToUTF8(elements[0]), 6)
+	p.SegmentID = NewAlphaNumeric(unescape(charset.ToUTF8(elements[0])), 6)
 	needsTan := &BooleanDataElement{}
 	err = needsTan.UnmarshalHBCI(elements[1])
 	if err != nil {
diff --git a/element/group_data_element_group.go b/element/group_data_element_group.go
index 951a4dd..2364225 100644
--- a/element/group_data_element_group.go
+++ b/element/group_data_element_group.go
@@ -115,7 +115,8 @@ func (b *BankIdentificationDataElement) UnmarshalHBCI(value []byte) error {
 		return err
 	}
 	b.CountryCode = countryCode
-	b.BankID = NewAlphaNumeric(charset.ToUTF8(elements[1]), 30)
+	b.BankID = NewAlphaNumeric(unescape(charset.ToUTF8(elements[1])), 30)
+	b.DataElement = NewGroupDataElementGroup(bankIdentificationGDEG, 2, b)
 	return nil
 }
 
@@ -164,10 +165,10 @@ func (a *AccountConnectionDataElement) UnmarshalHBCI(value []byte) error {
 		return fmt.Errorf("%T: Malformed CountryCode: %q", a, elements[2])
 	}
 	accountConnection := domain.AccountConnection{
-		AccountID:                 charset.ToUTF8(elements[0]),
-		SubAccountCharacteristics: charset.ToUTF8(elements[1]),
+		AccountID:                 unescape(charset.ToUTF8(elements[0])),
+		SubAccountCharacteristics: unescape(charset.ToUTF8(elements[1])),
 		CountryCode:               countryCode,
-		BankID:                    charset.ToUTF8(elements[3]),
+		BankID:                    unescape(charset.ToUTF8(elements[3])),
 	}
 	*a = *NewAccountConnection(accountConnection)
 	return nil
diff --git a/element/message.go b/element/message.go
index 7cce54a..4ed70af 100644
--- a/element/message.go
+++ b/element/message.go
@@ -47,10 +47,13 @@ func (r *ReferencingMessageDataElement) IsValid() bool {
 // UnmarshalHBCI unmarshals value into r
 func (r *ReferencingMessageDataElement) UnmarshalHBCI(value []byte) error {
 	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
 	if len(elements) != 2 {
 		return fmt.Errorf("malformed marshaled value")
 	}
-	dialogID := charset.ToUTF8(elements[0])
+	dialogID := unescape(charset.ToUTF8(elements[0]))
 	num, err := strconv.Atoi(charset.ToUTF8(elements[1]))
 	if err != nil {
 		return fmt.Errorf("%T: Malformed message number: %v", r, err)
-- 
2.43.0


From 7db679eb3f425209f27663eb0b8c7e74d289b1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 06/63] fix: read account limits and all allowed business
 transactions of an account

---
 element/user_parameter_data.go                | 83 ++++++++++++-------
 segment/basic_account_information.go          | 14 ++++
 .../basic_account_information_unmarshaler.go  | 62 +++++++-------
 3 files changed, 97 insertions(+), 62 deletions(-)

diff --git a/element/user_parameter_data.go b/element/user_parameter_data.go
index d8a89ba..276e31b 100644
--- a/element/user_parameter_data.go
+++ b/element/user_parameter_data.go
@@ -35,11 +35,52 @@ type AccountLimitDataElement struct {
 
 // Val returns the limit as domain.AccountLimit
 func (a *AccountLimitDataElement) Val() domain.AccountLimit {
-	return domain.AccountLimit{
-		Kind:   a.Kind.Val(),
-		Amount: a.Amount.Val(),
-		Days:   a.Days.Val(),
+	var limit domain.AccountLimit
+	if a.Kind != nil {
+		limit.Kind = a.Kind.Val()
+	}
+	if a.Amount != nil {
+		limit.Amount = a.Amount.Val()
+	}
+	if a.Days != nil {
+		limit.Days = a.Days.Val()
+	}
+	return limit
+}
+
+// UnmarshalHBCI unmarshals value into a
+func (a *AccountLimitDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
 	}
+	a.DataElement = NewDataElementGroup(accountLimitDEG, 3, a)
+	a.Kind, a.Amount, a.Days, err = unmarshalLimit(elements)
+	return err
+}
+
+// unmarshalLimit unmarshals the elements of a limit: the kind, the value and
+// the currency of the amount and the days. Each of them can be missing.
+func unmarshalLimit(elements [][]byte) (kind *AlphaNumericDataElement, amount *AmountDataElement, days *NumberDataElement, err error) {
+	if len(elements) > 0 && len(elements[0]) > 0 {
+		kind = &AlphaNumericDataElement{}
+		if err = kind.UnmarshalHBCI(elements[0]); err != nil {
+			return nil, nil, nil, err
+		}
+	}
+	if len(elements) > 2 && len(elements[1]) > 0 {
+		amount = &AmountDataElement{}
+		if err = amount.UnmarshalHBCI(bytes.Join(elements[1:3], []byte(":"))); err != nil {
+			return nil, nil, nil, err
+		}
+	}
+	if len(elements) > 3 && len(elements[3]) > 0 {
+		days = &NumberDataElement{}
+		if err = days.UnmarshalHBCI(elements[3]); err != nil {
+			return nil, nil, nil, err
+		}
+	}
+	return kind, amount, days, nil
 }
 
 // GroupDataElements returns the grouped DataElements
@@ -72,15 +113,17 @@ type AllowedBusinessTransactionsDataElement struct {
 
 // UnmarshalHBCI unmarshals value into a
 func (a *AllowedBusinessTransactionsDataElement) UnmarshalHBCI(value []byte) error {
-	elements := bytes.Split(value, []byte("+"))
-	transactions := make([]DataElement, len(elements))
-	for i, elem := range elements {
+	var transactions []DataElement
+	for _, elem := range bytes.Split(value, []byte("+")) {
+		if len(elem) == 0 {
+			continue
+		}
 		tr := &AllowedBusinessTransactionDataElement{}
 		err := tr.UnmarshalHBCI(elem)
 		if err != nil {
 			return err
 		}
-		transactions[i] = tr
+		transactions = append(transactions, tr)
 	}
 	*a = AllowedBusinessTransactionsDataElement{
 		arrayElementGroup: newArrayElementGroup(allowedBusinessTransactionDEG, 0, 999, transactions),
@@ -150,28 +193,8 @@ func (a *AllowedBusinessTransactionDataElement) UnmarshalHBCI(value []byte) erro
 	if err != nil {
 		return err
 	}
-	if len(elements) > 2 && len(elements[2]) > 0 {
-		a.Kind = &AlphaNumericDataElement{}
-		err = a.Kind.UnmarshalHBCI(elements[2])
-		if err != nil {
-			return err
-		}
-	}
-	if len(elements) > 3 && len(elements[3]) > 0 {
-		a.Amount = &AmountDataElement{}
-		err = a.Amount.UnmarshalHBCI(elements[3])
-		if err != nil {
-			return err
-		}
-	}
-	if len(elements) > 4 && len(elements[4]) > 0 {
-		a.Days = &NumberDataElement{}
-		err = a.Days.UnmarshalHBCI(elements[4])
-		if err != nil {
-			return err
-		}
-	}
-	return nil
+	a.Kind, a.Amount, a.Days, err = unmarshalLimit(elements[2:])
+	return err
 }
 
 // Val returns the allowed business transaction
diff --git a/segment/basic_account_information.go b/segment/basic_account_information.go
index c01b7c0..659fefa 100644
--- a/segment/basic_account_information.go
+++ b/segment/basic_account_information.go
@@ -261,3 +261,17 @@ func (a *AccountInformationV7) elements() []element.DataElement {
 		a.AccountExtensions,
 	}
 }
+
+// splitAllowedBusinessTransactions separates the allowed business transactions,
+// of which a segment has up to 999, from the account extensions which may
+// follow them. Other than the extensions, a transaction is always a group.
+func splitAllowedBusinessTransactions(elements [][]byte) (transactions [][]byte, extensions []byte) {
+	if len(elements) == 0 {
+		return nil, nil
+	}
+	last := elements[len(elements)-1]
+	if group, err := element.ExtractElements(last); err == nil && len(group) < 2 {
+		return elements[:len(elements)-1], last
+	}
+	return elements, nil
+}
diff --git a/segment/basic_account_information_unmarshaler.go b/segment/basic_account_information_unmarshaler.go
index a14818c..3267a83 100644
--- a/segment/basic_account_information_unmarshaler.go
+++ b/segment/basic_account_information_unmarshaler.go
@@ -305,22 +305,21 @@ func (a *AccountInformationV6) UnmarshalHBCI(value []byte) error {
 			return fmt.Errorf("error unmarshaling AccountLimit: %w", err)
 		}
 	}
-	if len(elements) > 10 && len(elements[10]) > 0 {
-		a.AllowedBusinessTransactions = &element.AllowedBusinessTransactionsDataElement{}
-		err = a.AllowedBusinessTransactions.UnmarshalHBCI(elements[10])
-		if err != nil {
-			return fmt.Errorf("error unmarshaling AllowedBusinessTransactions: %w", err)
-		}
-	}
-	if len(elements) > 11 && len(elements[11]) > 0 {
-		a.AccountExtensions = &element.AlphaNumericDataElement{}
-		if len(elements)+1 > 11 {
-			err = a.AccountExtensions.UnmarshalHBCI(bytes.Join(elements[11:], []byte("+")))
-		} else {
-			err = a.AccountExtensions.UnmarshalHBCI(elements[11])
-		}
-		if err != nil {
-			return fmt.Errorf("error unmarshaling AccountExtensions: %w", err)
+	if len(elements) > 10 {
+		transactions, extensions := splitAllowedBusinessTransactions(elements[10:])
+		if len(transactions) > 0 {
+			a.AllowedBusinessTransactions = &element.AllowedBusinessTransactionsDataElement{}
+			err = a.AllowedBusinessTransactions.UnmarshalHBCI(bytes.Join(transactions, []byte("+")))
+			if err != nil {
+				return fmt.Errorf("error unmarshaling AllowedBusinessTransactions: %w", err)
+			}
+		}
+		if len(extensions) > 0 {
+			a.AccountExtensions = &element.AlphaNumericDataElement{}
+			err = a.AccountExtensions.UnmarshalHBCI(extensions)
+			if err != nil {
+				return fmt.Errorf("error unmarshaling AccountExtensions: %w", err)
+			}
 		}
 	}
 	return nil
@@ -402,22 +401,21 @@ func (a *AccountInformationV7) UnmarshalHBCI(value []byte) error {
 			return fmt.Errorf("error unmarshaling AccountLimit: %w", err)
 		}
 	}
-	if len(elements) > 10 && len(elements[10]) > 0 {
-		a.AllowedBusinessTransactions = &element.AllowedBusinessTransactionsDataElement{}
-		err = a.AllowedBusinessTransactions.UnmarshalHBCI(elements[10])
-		if err != nil {
-			return fmt.Errorf("error unmarshaling AllowedBusinessTransactions: %w", err)
-		}
-	}
-	if len(elements) > 11 && len(elements[11]) > 0 {
-		a.AccountExtensions = &element.AlphaNumericDataElement{}
-		if len(elements)+1 > 11 {
-			err = a.AccountExtensions.UnmarshalHBCI(bytes.Join(elements[11:], []byte("+")))
-		} else {
-			err = a.AccountExtensions.UnmarshalHBCI(elements[11])
-		}
-		if err != nil {
-			return fmt.Errorf("error unmarshaling AccountExtensions: %w", err)
+	if len(elements) > 10 {
+		transactions, extensions := splitAllowedBusinessTransactions(elements[10:])
+		if len(transactions) > 0 {
+			a.AllowedBusinessTransactions = &element.AllowedBusinessTransactionsDataElement{}
+			err = a.AllowedBusinessTransactions.UnmarshalHBCI(bytes.Join(transactions, []byte("+")))
+			if err != nil {
+				return fmt.Errorf("error unmarshaling AllowedBusinessTransactions: %w", err)
+			}
+		}
+		if len(extensions) > 0 {
+			a.AccountExtensions = &element.AlphaNumericDataElement{}
+			err = a.AccountExtensions.UnmarshalHBCI(extensions)
+			if err != nil {
+				return fmt.Errorf("error unmarshaling AccountExtensions: %w", err)
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From 3d23a4859f705e963aa24ecacd8f2e2f69cc3039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:50 +0000
Subject: [PATCH 07/63] fix: begin every synchronisation as a new dialog that
 names one system ID

---
 dialog/dialog.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 241b276..82c1fde 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -155,6 +155,8 @@ func (d *dialog) SyncUserParameterData() error {
 }
 
 func (d *dialog) SyncClientSystemID() (string, error) {
+	d.dialogID = initialDialogID
+	d.messageCount = 0
 	syncMessage := message.NewSynchronisationMessage(d.hbciVersion)
 	syncMessage.Identification = segment.NewIdentificationSegment(d.BankID, d.clientID, initialClientSystemID, true)
 	syncMessage.ProcessingPreparation = segment.NewProcessingPreparationSegmentV3(
@@ -163,12 +165,12 @@ func (d *dialog) SyncClientSystemID() (string, error) {
 	syncMessage.TanRequest = d.hbciVersion.TanProcess4Request(segment.IdentificationID)
 	syncMessage.Sync = d.hbciVersion.SynchronisationRequest(segment.SyncModeAquireClientID)
 	syncMessage.BasicMessage = d.newBasicMessage(syncMessage)
-	signedSyncMessage, err := syncMessage.Sign(d.signatureProvider)
-	if err != nil {
-		return "", err
-	}
+	// The client system ID in use stays in place until the institute assigns a
+	// new one, only this message names the initial one.
+	d.signatureProvider.SetClientSystemID(initialClientSystemID)
 	d.cryptoProvider.SetClientSystemID(initialClientSystemID)
-	encryptedSyncMessage, err := signedSyncMessage.Encrypt(d.cryptoProvider)
+	encryptedSyncMessage, err := d.signAndEncrypt(syncMessage.BasicMessage)
+	d.SetClientSystemID(d.ClientSystemID)
 	if err != nil {
 		return "", err
 	}
@@ -229,6 +231,14 @@ func (d *dialog) SyncClientSystemID() (string, error) {
 	return d.ClientSystemID, nil
 }
 
+func (d *dialog) signAndEncrypt(clientMessage *message.BasicMessage) (*message.EncryptedMessage, error) {
+	signedMessage, err := clientMessage.Sign(d.signatureProvider)
+	if err != nil {
+		return nil, err
+	}
+	return signedMessage.Encrypt(d.cryptoProvider)
+}
+
 func (d *dialog) SendAnonymousMessage(clientMessage message.HBCIMessage) (message.BankMessage, error) {
 	err := d.anonymousInit()
 	if err != nil {
-- 
2.43.0


From b269403d1d313ff19d411d9249eea807f900b4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:24 +0000
Subject: [PATCH 08/63] fix: end a dialog whose opening reply cannot be used

---
 dialog/dialog.go | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 82c1fde..0029aef 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -154,7 +154,7 @@ func (d *dialog) SyncUserParameterData() error {
 	return nil
 }
 
-func (d *dialog) SyncClientSystemID() (string, error) {
+func (d *dialog) SyncClientSystemID() (_ string, err error) {
 	d.dialogID = initialDialogID
 	d.messageCount = 0
 	syncMessage := message.NewSynchronisationMessage(d.hbciVersion)
@@ -185,6 +185,12 @@ func (d *dialog) SyncClientSystemID() (string, error) {
 		return "", fmt.Errorf("malformed response message: %q", decryptedMessage)
 	}
 	d.dialogID = messageHeader.DialogID.Val()
+	dialogOpen := !isRefused(decryptedMessage)
+	defer func() {
+		if err != nil && dialogOpen {
+			logErr(d.end())
+		}
+	}()
 	var errors []string
 	acknowledgements := decryptedMessage.Acknowledgements()
 	for _, ack := range acknowledgements {
@@ -223,6 +229,7 @@ func (d *dialog) SyncClientSystemID() (string, error) {
 		return "", err
 	}
 
+	dialogOpen = false
 	err = d.end()
 	if err != nil {
 		return "", err
@@ -268,7 +275,7 @@ func (d *dialog) SendAnonymousMessage(clientMessage message.HBCIMessage) (messag
 	return bankMessage, nil
 }
 
-func (d *dialog) anonymousInit() error {
+func (d *dialog) anonymousInit() (err error) {
 	d.dialogID = initialDialogID
 	d.messageCount = 0
 	initMessage := message.NewDialogInitializationClientMessage(d.hbciVersion)
@@ -287,6 +294,12 @@ func (d *dialog) anonymousInit() error {
 		return fmt.Errorf("malformed response message: %q", bankMessage)
 	}
 	d.dialogID = messageHeader.DialogID.Val()
+	dialogOpen := !isRefused(bankMessage)
+	defer func() {
+		if err != nil && dialogOpen {
+			logErr(d.anonymousEnd())
+		}
+	}()
 
 	err = d.parseBankParameterData(bankMessage)
 	if err != nil {
@@ -344,7 +357,7 @@ func (d *dialog) anonymousEnd() error {
 	return nil
 }
 
-func (d *dialog) init() error {
+func (d *dialog) init() (err error) {
 	if d.ClientSystemID == initialClientSystemID {
 		id, err := d.SyncClientSystemID()
 		if err != nil {
@@ -379,6 +392,12 @@ func (d *dialog) init() error {
 		return fmt.Errorf("malformed response message: %q", decryptedMessage)
 	}
 	d.dialogID = messageHeader.DialogID.Val()
+	dialogOpen := !isRefused(decryptedMessage)
+	defer func() {
+		if err != nil && dialogOpen {
+			logErr(d.end())
+		}
+	}()
 
 	err = d.parseBankParameterData(decryptedMessage)
 	if err != nil {
@@ -420,6 +439,17 @@ func (d *dialog) init() error {
 	return nil
 }
 
+// isRefused reports whether the institute did not carry out the request. A
+// refused initialization opens no dialog.
+func isRefused(bankMessage message.BankMessage) bool {
+	for _, ack := range bankMessage.Acknowledgements() {
+		if ack.IsError() {
+			return true
+		}
+	}
+	return false
+}
+
 func (d *dialog) end() error {
 	dialogEnd := message.NewDialogFinishingMessage(d.hbciVersion, d.dialogID)
 	dialogEnd.BasicMessage = d.newBasicMessage(dialogEnd)
-- 
2.43.0


From c4b6da860e59f6371fd2e89c26cdb1d0798eec12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 09/63] fix: report read errors behind the logging middleware

---
 transport/middleware/logging.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/transport/middleware/logging.go b/transport/middleware/logging.go
index 4192be6..6639671 100644
--- a/transport/middleware/logging.go
+++ b/transport/middleware/logging.go
@@ -26,6 +26,7 @@ func Logging(logger *log.Logger, cryptoProvider message.CryptoProvider) transpor
 			marshaledRequest, err := io.ReadAll(io.TeeReader(req.Body, &buf))
 			if err != nil {
 				logger.Printf("Error reading request body: %v", err)
+				return nil, err
 			}
 			req.Body = io.NopCloser(&buf)
 			logger.Println("Decrypted Request:")
@@ -42,6 +43,7 @@ func Logging(logger *log.Logger, cryptoProvider message.CryptoProvider) transpor
 			marshaledResponse, err := io.ReadAll(io.TeeReader(res.Body, &responseBuf))
 			if err != nil {
 				logger.Printf("Error reading response body: %v", err)
+				return nil, err
 			}
 			res.Body = io.NopCloser(&responseBuf)
 			logger.Println("Decrypted Response:")
-- 
2.43.0


From b84d9a4d151f0a29c6863a7b2b05b31d34c60a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 10/63] fix: reject replies that end before the message end
 segment

---
 dialog/dialog.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 0029aef..60d2bf1 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -645,6 +645,10 @@ func (d *dialog) request(clientMessage message.ClientMessage) (message.BankMessa
 		return nil, fmt.Errorf("error reading response from Transport: %v", err)
 	}
 
+	if !isComplete(response) {
+		return nil, fmt.Errorf("malformed response: missing Message End")
+	}
+
 	var bankMessage message.BankMessage
 	if response.IsEncrypted() {
 		encMessage, err := d.extractEncryptedMessage(response)
@@ -670,6 +674,16 @@ func (d *dialog) request(clientMessage message.ClientMessage) (message.BankMessa
 	return bankMessage, err
 }
 
+// isComplete reports whether the response ends with a message end segment. A
+// response without it was cut short.
+func isComplete(response *transport.Response) bool {
+	segments := response.Segments()
+	if len(segments) == 0 {
+		return false
+	}
+	return bytes.HasPrefix(segments[len(segments)-1], []byte("HNHBS:"))
+}
+
 func (d *dialog) extractEncryptedMessage(response *transport.Response) (*message.EncryptedMessage, error) {
 	messageHeader := response.FindSegment(segment.MessageHeaderID)
 	if messageHeader == nil {
-- 
2.43.0


From 09921c15e3150d378b01aabe282fd8deab3b62a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:42 +0000
Subject: [PATCH 11/63] fix: close the bodies of HTTP responses

---
 dialog/dialog.go                 | 1 +
 transport/https/https.go         | 2 +-
 transport/middleware/encoding.go | 4 ++--
 transport/middleware/logging.go  | 3 ++-
 transport/transport.go           | 9 +++++++++
 5 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 60d2bf1..789703c 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -640,6 +640,7 @@ func (d *dialog) request(clientMessage message.ClientMessage) (message.BankMessa
 	if err != nil {
 		return nil, fmt.Errorf("error executing Transport request: %v", err)
 	}
+	defer func(body io.Closer) { logErr(body.Close()) }(response.Body)
 	response, err = transport.ReadResponse(bufio.NewReader(response.Body), response.Request)
 	if err != nil {
 		return nil, fmt.Errorf("error reading response from Transport: %v", err)
diff --git a/transport/https/https.go b/transport/https/https.go
index f28aff2..8b150bd 100644
--- a/transport/https/https.go
+++ b/transport/https/https.go
@@ -55,7 +55,7 @@ func (h *HTTPSBase64Transport) Do(request *transport.Request) (*transport.Respon
 	} else {
 		reader = httpResponse.Body
 	}
-	return &transport.Response{Body: io.NopCloser(reader), Request: request}, nil
+	return &transport.Response{Body: transport.NewBody(reader, httpResponse.Body), Request: request}, nil
 }
 
 // New returns a HTTPSTransport. It sets http.DefaultClient as http.Client to
diff --git a/transport/middleware/encoding.go b/transport/middleware/encoding.go
index fa37b21..bcec00d 100644
--- a/transport/middleware/encoding.go
+++ b/transport/middleware/encoding.go
@@ -32,7 +32,7 @@ func UTF8Encoding(encoding encoding.Encoding) transport.Middleware {
 			}
 			decodingReader := encoding.NewDecoder().Reader(response.Body)
 			decodedResponse := response
-			decodedResponse.Body = io.NopCloser(decodingReader)
+			decodedResponse.Body = transport.NewBody(decodingReader, response.Body)
 			return decodedResponse, nil
 		})
 	}
@@ -64,7 +64,7 @@ func Base64Encoding(encoding *base64.Encoding) transport.Middleware {
 			}
 			decodingReader := base64.NewDecoder(encoding, response.Body)
 			decodedResponse := response
-			decodedResponse.Body = io.NopCloser(decodingReader)
+			decodedResponse.Body = transport.NewBody(decodingReader, response.Body)
 			return decodedResponse, nil
 		})
 	}
diff --git a/transport/middleware/logging.go b/transport/middleware/logging.go
index 6639671..0621daa 100644
--- a/transport/middleware/logging.go
+++ b/transport/middleware/logging.go
@@ -43,9 +43,10 @@ func Logging(logger *log.Logger, cryptoProvider message.CryptoProvider) transpor
 			marshaledResponse, err := io.ReadAll(io.TeeReader(res.Body, &responseBuf))
 			if err != nil {
 				logger.Printf("Error reading response body: %v", err)
+				_ = res.Body.Close()
 				return nil, err
 			}
-			res.Body = io.NopCloser(&responseBuf)
+			res.Body = transport.NewBody(&responseBuf, res.Body)
 			logger.Println("Decrypted Response:")
 			if err := writeMessage(cryptoProvider, logger.Writer(), marshaledResponse); err != nil {
 				logger.Printf("%s\n", marshaledResponse)
diff --git a/transport/transport.go b/transport/transport.go
index 8bf9bbc..035ec24 100644
--- a/transport/transport.go
+++ b/transport/transport.go
@@ -26,6 +26,15 @@ func (fn Func) Do(req *Request) (*Response, error) {
 	return fn(req)
 }
 
+// NewBody returns a body which reads from r and closes c. It lets a Middleware
+// replace the content of a body and still release the resources behind it.
+func NewBody(r io.Reader, c io.Closer) io.ReadCloser {
+	return struct {
+		io.Reader
+		io.Closer
+	}{r, c}
+}
+
 // Middleware defines the interface for writing middleware for transports
 type Middleware func(Transport) Transport
 
-- 
2.43.0


From 4a5c66ec338d5e2c904276b6f47fe911490d990a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:06 +0000
Subject: [PATCH 12/63] fix: treat HTTP error statuses as failed exchanges

---
 transport/https/https.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/transport/https/https.go b/transport/https/https.go
index 8b150bd..a32cb31 100644
--- a/transport/https/https.go
+++ b/transport/https/https.go
@@ -3,6 +3,7 @@ package transport
 import (
 	"bytes"
 	"encoding/base64"
+	"fmt"
 	"io"
 	"net/http"
 
@@ -87,5 +88,9 @@ func (h *HTTPSTransport) Do(request *transport.Request) (*transport.Response, er
 	if err != nil {
 		return nil, err
 	}
+	if httpResponse.StatusCode != http.StatusOK {
+		_ = httpResponse.Body.Close()
+		return nil, fmt.Errorf("unexpected HTTP status: %s", httpResponse.Status)
+	}
 	return &transport.Response{Body: httpResponse.Body, Request: request}, nil
 }
-- 
2.43.0


From 7fd533915ab758f9e078b250527cdc8169b8e48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:47 +0000
Subject: [PATCH 13/63] fix: keep the security function when the PIN is set

---
 dialog/pin_tan_dialog.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dialog/pin_tan_dialog.go b/dialog/pin_tan_dialog.go
index 6bb3025..617f9a2 100644
--- a/dialog/pin_tan_dialog.go
+++ b/dialog/pin_tan_dialog.go
@@ -65,4 +65,7 @@ func (d *PinTanDialog) SetPin(pin string) {
 	d.signatureProvider = message.NewPinTanSignatureProvider(pinKey, d.ClientSystemID)
 	pinKey = domain.NewPinKey(pin, domain.NewPinTanKeyName(d.BankID, d.UserID, domain.KeyTypeEncryption))
 	d.cryptoProvider = message.NewPinTanCryptoProvider(pinKey, d.ClientSystemID)
+	if d.securityFn != "" {
+		d.SetSecurityFunction(d.securityFn)
+	}
 }
-- 
2.43.0


From 8b48795f34f4674270d5f496b1dc0647373c37d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:25 +0000
Subject: [PATCH 14/63] fix: choose the security function independently of map
 order

---
 dialog/dialog.go | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 789703c..a076e8d 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -501,22 +501,18 @@ func (d *dialog) updateSecurityFunctionIfNeeded(message message.BankMessage) err
 	if !ok {
 		return fmt.Errorf("no supported security function implemented")
 	}
-	oldSecurityFn := d.securityFn
-	newSecurityFn := ""
-	newSecurityFnName := ""
-	// TODO: proper handling of each case, see FINTS3.0 docu -> Ask user which to use
-	for fn, name := range supportedSecurityFns {
-		newSecurityFn = fn
-		newSecurityFnName = name
-		break
-	}
-	if oldSecurityFn != newSecurityFn {
-		internal.Info.Printf(
-			"New supported security function found. Setting new security function %q (%s).", newSecurityFnName, newSecurityFn,
-		)
-		d.SetSecurityFunction(newSecurityFn)
-
+	// Stay with the current function as long as it's supported
+	for _, sf := range supportedSecurityFns {
+		if sf.fn == d.securityFn {
+			return nil
+		}
 	}
+	// TODO: proper handling of each case, see FINTS3.0 docu -> Ask user which to use
+	newSecurityFn := supportedSecurityFns[0]
+	internal.Info.Printf(
+		"New supported security function found. Setting new security function %q (%s).", newSecurityFn.name, newSecurityFn.fn,
+	)
+	d.SetSecurityFunction(newSecurityFn.fn)
 	return nil
 }
 
@@ -533,7 +529,12 @@ func (d *dialog) hasSupportedSecurityAcknowledgement(message message.BankMessage
 	return false
 }
 
-func (d *dialog) supportedSecurityFunctionsFromBankMessage(message message.BankMessage) (map[string]string, bool) {
+type securityFunction struct {
+	fn   string
+	name string
+}
+
+func (d *dialog) supportedSecurityFunctionsFromBankMessage(message message.BankMessage) ([]securityFunction, bool) {
 	acknowledgements := message.Acknowledgements()
 	var supportedSecurityFns []string
 	for _, ack := range acknowledgements {
@@ -545,7 +546,7 @@ func (d *dialog) supportedSecurityFunctionsFromBankMessage(message message.BankM
 	if len(supportedSecurityFns) == 0 {
 		return nil, false
 	}
-	securityFunctions := map[string]string{}
+	var securityFunctions []securityFunction
 	rawSegment := message.FindSegment(segment.TanBankParameterID)
 	if rawSegment == nil {
 		return nil, false
@@ -558,7 +559,7 @@ func (d *dialog) supportedSecurityFunctionsFromBankMessage(message message.BankM
 	}
 	for _, sf := range supportedSecurityFns {
 		if pp, ok := availableSecurityFns[sf]; ok {
-			securityFunctions[sf] = pp.TwoStepProcessName.Val()
+			securityFunctions = append(securityFunctions, securityFunction{sf, pp.TwoStepProcessName.Val()})
 		}
 	}
 	if len(securityFunctions) == 0 {
-- 
2.43.0


From a6b17a07ce403e50286e879b4cc83209a9eb66e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:00 +0000
Subject: [PATCH 15/63] fix: follow the permitted security functions while the
 parameter data are unchanged

---
 dialog/dialog.go | 89 +++++++++++++++++++++++++-----------------------
 1 file changed, 47 insertions(+), 42 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index a076e8d..fe722a8 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -73,13 +73,15 @@ type dialog struct {
 	messageCount      int
 	dialogID          string
 	securityFn        string
-	signatureProvider message.SignatureProvider
-	cryptoProvider    message.CryptoProvider
-	BankParameterData BankParameterData
-	hbciVersion       segment.HBCIVersion
-	productName       string
-	productVersion    string
-	supportedSegments []segment.VersionedSegment
+	// security functions described by the institute with their names
+	availableSecurityFns map[string]string
+	signatureProvider    message.SignatureProvider
+	cryptoProvider       message.CryptoProvider
+	BankParameterData    BankParameterData
+	hbciVersion          segment.HBCIVersion
+	productName          string
+	productVersion       string
+	supportedSegments    []segment.VersionedSegment
 }
 
 func (d *dialog) UserParameterDataVersion() int {
@@ -494,12 +496,16 @@ func (d *dialog) newBasicMessage(hbciMessage message.HBCIMessage) *message.Basic
 }
 
 func (d *dialog) updateSecurityFunctionIfNeeded(message message.BankMessage) error {
-	if !d.hasSupportedSecurityAcknowledgement(message) {
+	describesSecurityFns := d.parseSecurityFunctions(message)
+	if len(d.availableSecurityFns) == 0 || !d.hasSupportedSecurityAcknowledgement(message) {
 		return nil
 	}
-	supportedSecurityFns, ok := d.supportedSecurityFunctionsFromBankMessage(message)
-	if !ok {
-		return fmt.Errorf("no supported security function implemented")
+	supportedSecurityFns := d.supportedSecurityFunctions(message)
+	if len(supportedSecurityFns) == 0 {
+		if describesSecurityFns {
+			return fmt.Errorf("no supported security function implemented")
+		}
+		return nil
 	}
 	// Stay with the current function as long as it's supported
 	for _, sf := range supportedSecurityFns {
@@ -517,10 +523,6 @@ func (d *dialog) updateSecurityFunctionIfNeeded(message message.BankMessage) err
 }
 
 func (d *dialog) hasSupportedSecurityAcknowledgement(message message.BankMessage) bool {
-	rawTanBPDSegment := message.FindSegment(segment.TanBankParameterID)
-	if rawTanBPDSegment == nil {
-		return false
-	}
 	for _, ack := range message.Acknowledgements() {
 		if ack.Code == element.AcknowledgementSupportedSecurityFunction {
 			return true
@@ -534,38 +536,41 @@ type securityFunction struct {
 	name string
 }
 
-func (d *dialog) supportedSecurityFunctionsFromBankMessage(message message.BankMessage) ([]securityFunction, bool) {
-	acknowledgements := message.Acknowledgements()
-	var supportedSecurityFns []string
-	for _, ack := range acknowledgements {
-		if ack.Code == element.AcknowledgementSupportedSecurityFunction {
-			supportedSecurityFns = ack.Params
-			break
+// parseSecurityFunctions remembers the security functions the institute
+// describes in its parameter data. It returns false if message doesn't contain
+// a description. The parameter data are only sent when they changed.
+func (d *dialog) parseSecurityFunctions(message message.BankMessage) bool {
+	for _, rawSegment := range message.FindSegments(segment.TanBankParameterID) {
+		tanParameter, ok := rawSegment.(*segment.TanBankParameterV6)
+		if !ok || tanParameter.Tan2StepSubmissionParameter == nil || tanParameter.Tan2StepSubmissionParameter.ProcessParameters == nil {
+			continue
 		}
+		d.availableSecurityFns = map[string]string{}
+		for _, pp := range tanParameter.Tan2StepSubmissionParameter.ProcessParameters.GroupDataElements() {
+			tan2StepPP := pp.(*element.Tan2StepSubmissionProcessParameterV6)
+			d.availableSecurityFns[tan2StepPP.SecurityFunction.Val()] = tan2StepPP.TwoStepProcessName.Val()
+		}
+		return true
 	}
-	if len(supportedSecurityFns) == 0 {
-		return nil, false
-	}
+	return false
+}
+
+// supportedSecurityFunctions returns the security functions message permits
+// for the user out of those the institute describes.
+func (d *dialog) supportedSecurityFunctions(message message.BankMessage) []securityFunction {
 	var securityFunctions []securityFunction
-	rawSegment := message.FindSegment(segment.TanBankParameterID)
-	if rawSegment == nil {
-		return nil, false
-	}
-	availableSecurityFns := map[string]*element.Tan2StepSubmissionProcessParameterV6{}
-	for _, pp := range rawSegment.(*segment.TanBankParameterV6).Tan2StepSubmissionParameter.ProcessParameters.GroupDataElements() {
-		tan2StepPP := pp.(*element.Tan2StepSubmissionProcessParameterV6)
-		fn := tan2StepPP.SecurityFunction.Val()
-		availableSecurityFns[fn] = tan2StepPP
-	}
-	for _, sf := range supportedSecurityFns {
-		if pp, ok := availableSecurityFns[sf]; ok {
-			securityFunctions = append(securityFunctions, securityFunction{sf, pp.TwoStepProcessName.Val()})
+	for _, ack := range message.Acknowledgements() {
+		if ack.Code != element.AcknowledgementSupportedSecurityFunction {
+			continue
 		}
+		for _, fn := range ack.Params {
+			if name, ok := d.availableSecurityFns[fn]; ok {
+				securityFunctions = append(securityFunctions, securityFunction{fn, name})
+			}
+		}
+		break
 	}
-	if len(securityFunctions) == 0 {
-		return nil, false
-	}
-	return securityFunctions, true
+	return securityFunctions
 }
 
 func (d *dialog) parseBankParameterData(bankMessage message.BankMessage) error {
-- 
2.43.0


From 6ad413b695d03b57efcc815fab9a6195f5e7e90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:04 +0000
Subject: [PATCH 16/63] fix: replace the accounts when the bank sends them
 again

---
 dialog/dialog.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index fe722a8..37e94f5 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -618,10 +618,16 @@ func (d *dialog) parseUserParameterData(bankMessage message.BankMessage) error {
 	}
 
 	accountData := bankMessage.FindSegments(segment.AccountInformationID)
+	if userParamData == nil && len(accountData) == 0 {
+		return nil
+	}
+	// The institute always sends all accounts
+	accounts := make([]domain.AccountInformation, 0, len(accountData))
 	for _, acc := range accountData {
 		infoSegment := acc.(segment.AccountInformation)
-		d.Accounts = append(d.Accounts, infoSegment.Account())
+		accounts = append(accounts, infoSegment.Account())
 	}
+	d.Accounts = accounts
 	return nil
 }
 
-- 
2.43.0


From 0e715d708272d20a396040af2f0dcc378dafd913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:04 +0000
Subject: [PATCH 17/63] fix: say why the accounts cannot be fetched

---
 client/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/client.go b/client/client.go
index 658935a..658d68b 100644
--- a/client/client.go
+++ b/client/client.go
@@ -118,7 +118,7 @@ func (c *Client) Accounts() ([]domain.AccountInformation, error) {
 	}
 	err := c.pinTanDialog.SyncUserParameterData()
 	if err != nil {
-		return nil, fmt.Errorf("error getting accounts")
+		return nil, fmt.Errorf("error getting accounts: %w", err)
 	}
 	return c.pinTanDialog.Accounts, nil
 }
-- 
2.43.0


From f6f00a4bbd5c797a4230d01d3e35a9a2c274a144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:27 +0000
Subject: [PATCH 18/63] fix: read the communication parameters of a bank's
 access information

---
 element/communication_access.go | 46 ++++++++++++++++++++++++++++++++-
 1 file changed, 45 insertions(+), 1 deletion(-)

diff --git a/element/communication_access.go b/element/communication_access.go
index f7c755a..6dab9ae 100644
--- a/element/communication_access.go
+++ b/element/communication_access.go
@@ -1,6 +1,11 @@
 package element
 
-import "github.com/mitch000001/go-hbci/domain"
+import (
+	"fmt"
+
+	"github.com/mitch000001/go-hbci/charset"
+	"github.com/mitch000001/go-hbci/domain"
+)
 
 // NewCommunicationParameter returns a new CommunicationParameterDataElement
 func NewCommunicationParameter(params domain.CommunicationParameter) *CommunicationParameterDataElement {
@@ -55,3 +60,42 @@ func (c *CommunicationParameterDataElement) GroupDataElements() []DataElement {
 		c.FilterFunctionVersion,
 	}
 }
+
+// UnmarshalHBCI unmarshals value into c. Institutes may name several ways of
+// access separated by '+', the first one is used.
+func (c *CommunicationParameterDataElement) UnmarshalHBCI(value []byte) error {
+	for i := 0; i < len(value); i++ {
+		if value[i] == '?' {
+			i++
+		} else if value[i] == '+' {
+			value = value[:i]
+		}
+	}
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	if len(elements) < 2 {
+		return fmt.Errorf("malformed communication parameter: less than 2 elements: %q", value)
+	}
+	*c = CommunicationParameterDataElement{}
+	c.DataElement = NewDataElementGroup(communicationParameterDEG, 5, c)
+	c.Protocol = &NumberDataElement{}
+	if err := c.Protocol.UnmarshalHBCI(elements[0]); err != nil {
+		return fmt.Errorf("malformed communication parameter: Protocol: %w", err)
+	}
+	c.Address = NewAlphaNumeric(unescape(charset.ToUTF8(elements[1])), 512)
+	if len(elements) > 2 && len(elements[2]) > 0 {
+		c.AddressAddition = NewAlphaNumeric(unescape(charset.ToUTF8(elements[2])), 512)
+	}
+	if len(elements) > 3 && len(elements[3]) > 0 {
+		c.FilterFunction = NewAlphaNumeric(unescape(charset.ToUTF8(elements[3])), 3)
+	}
+	if len(elements) > 4 && len(elements[4]) > 0 {
+		c.FilterFunctionVersion = &NumberDataElement{}
+		if err := c.FilterFunctionVersion.UnmarshalHBCI(elements[4]); err != nil {
+			return fmt.Errorf("malformed communication parameter: FilterFunctionVersion: %w", err)
+		}
+	}
+	return nil
+}
-- 
2.43.0


From ff3fa1988da97a136d3d8d0418a8e7656473a750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:53 +0000
Subject: [PATCH 19/63] fix: do not take a reply without acknowledgements for
 an answer

---
 dialog/dialog.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 37e94f5..6810c17 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -684,7 +684,12 @@ func (d *dialog) request(clientMessage message.ClientMessage) (message.BankMessa
 		bankMessage = decryptedMessage
 	}
 
-	return bankMessage, err
+	// Every answer of an institute is acknowledged. Anything else, e.g. the
+	// request sent back, is no answer.
+	if len(bankMessage.Acknowledgements()) == 0 {
+		return nil, fmt.Errorf("malformed response: missing acknowledgement")
+	}
+	return bankMessage, nil
 }
 
 // isComplete reports whether the response ends with a message end segment. A
-- 
2.43.0


From 507cfe5172e3c9d4d81d95accc54396c905ea399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:57 +0000
Subject: [PATCH 20/63] fix: keep the order of the transactions across pages

---
 client/client.go   |  2 +-
 swift/unmarshal.go | 53 ++++++++--------------------------------------
 2 files changed, 10 insertions(+), 45 deletions(-)

diff --git a/client/client.go b/client/client.go
index 658d68b..aca1d46 100644
--- a/client/client.go
+++ b/client/client.go
@@ -211,7 +211,7 @@ func (c *Client) accountTransactions(requestBuilder func() (segment.AccountTrans
 	if err != nil {
 		return nil, err
 	}
-	return swift.MergeMT940Messages(msg, tx), err
+	return swift.MergeMT940Messages(tx, msg), nil
 }
 
 // AccountInformation will print all information attached to the provided
diff --git a/swift/unmarshal.go b/swift/unmarshal.go
index e81efd8..c6dd616 100644
--- a/swift/unmarshal.go
+++ b/swift/unmarshal.go
@@ -2,69 +2,34 @@ package swift
 
 import (
 	"fmt"
-	"sort"
 	"strings"
-	"time"
 
 	"github.com/mitch000001/go-hbci/domain"
 )
 
 func NewMT940Messages(data []byte) *MT940Messages {
-	return &MT940Messages{
-		Data:      data,
-		timestamp: time.Now().UnixNano(),
-	}
+	return &MT940Messages{Data: data}
 }
 
 type MT940Messages struct {
-	Data      []byte
-	timestamp int64
+	Data []byte
 }
 
+// MergeMT940Messages merges the provided messages in the order given. Missing
+// messages are left out.
 func MergeMT940Messages(messages ...*MT940Messages) *MT940Messages {
-	sortedMessages := sortedByTimestamp(messages)
-	sort.Sort(sortedMessages)
 	merged := &MT940Messages{
-		Data:      []byte{},
-		timestamp: time.Now().UnixNano(),
+		Data: []byte{},
 	}
-	for _, msg := range sortedMessages {
+	for _, msg := range messages {
+		if msg == nil {
+			continue
+		}
 		merged.Data = append(merged.Data, msg.Data...)
 	}
 	return merged
 }
 
-type sortedByTimestamp []*MT940Messages
-
-// Len is the number of elements in the collection.
-func (s sortedByTimestamp) Len() int {
-	return len(s)
-}
-
-// Less reports whether the element with index i
-// must sort before the element with index j.
-//
-// If both Less(i, j) and Less(j, i) are false,
-// then the elements at index i and j are considered equal.
-// Sort may place equal elements in any order in the final result,
-// while Stable preserves the original input order of equal elements.
-//
-// Less must describe a transitive ordering:
-//  - if both Less(i, j) and Less(j, k) are true, then Less(i, k) must be true as well.
-//  - if both Less(i, j) and Less(j, k) are false, then Less(i, k) must be false as well.
-//
-// Note that floating-point comparison (the < operator on float32 or float64 values)
-// is not a transitive ordering when not-a-number (NaN) values are involved.
-// See Float64Slice.Less for a correct implementation for floating-point values.
-func (s sortedByTimestamp) Less(i int, j int) bool {
-	return s[i].timestamp < s[j].timestamp
-}
-
-// Swap swaps the elements with indexes i and j.
-func (s sortedByTimestamp) Swap(i int, j int) {
-	s[i], s[j] = s[j], s[i]
-}
-
 type MT940Unmarshaler interface {
 	UnmarshalMT940([]byte) ([]domain.AccountTransaction, error)
 }
-- 
2.43.0


From 23946622534f0fb09dfc8b2b47ae0015ef3b1c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:01 +0000
Subject: [PATCH 21/63] fix: return no transactions when the bank has none

---
 element/swift.go   | 6 +++++-
 swift/unmarshal.go | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/element/swift.go b/element/swift.go
index fc9bc94..5723205 100644
--- a/element/swift.go
+++ b/element/swift.go
@@ -22,7 +22,11 @@ func (s *SwiftMT940DataElement) UnmarshalHBCI(value []byte) error {
 	return nil
 }
 
-// Val returns the embodied transactions as *swift.MT940Messages
+// Val returns the embodied transactions as *swift.MT940Messages, or nil if
+// there are none
 func (s *SwiftMT940DataElement) Val() *swift.MT940Messages {
+	if s == nil {
+		return nil
+	}
 	return s.swiftMT940Messages
 }
diff --git a/swift/unmarshal.go b/swift/unmarshal.go
index c6dd616..0179432 100644
--- a/swift/unmarshal.go
+++ b/swift/unmarshal.go
@@ -41,6 +41,9 @@ func NewMT940MessagesUnmarshaler() MT940Unmarshaler {
 type mt940MessagesUnmarshaler struct{}
 
 func (m *mt940MessagesUnmarshaler) UnmarshalMT940(value []byte) ([]domain.AccountTransaction, error) {
+	if len(value) == 0 {
+		return nil, nil
+	}
 	messageExtractor := NewMessageExtractor(value)
 	messages, err := messageExtractor.Extract()
 	if err != nil {
-- 
2.43.0


From c70f52181b289c531e377914e08d2e45924d31db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:53 +0000
Subject: [PATCH 22/63] fix: keep the sign of the balances around a transaction

---
 swift/mt940.go | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/swift/mt940.go b/swift/mt940.go
index 6a6b829..c1744c7 100644
--- a/swift/mt940.go
+++ b/swift/mt940.go
@@ -45,20 +45,8 @@ func (m *MT940) AccountTransactions() []domain.AccountTransaction {
 			Amount:      domain.Amount{Amount: amount, Currency: m.StartingBalance.Currency},
 			ValutaDate:  tr.ValutaDate.Time,
 			BookingDate: tr.BookingDate.Time,
-			AccountBalanceBefore: domain.Balance{
-				Amount: domain.Amount{
-					Amount:   m.StartingBalance.Amount,
-					Currency: m.StartingBalance.Currency,
-				},
-				TransmissionDate: m.StartingBalance.BookingDate.Time,
-			},
-			AccountBalanceAfter: domain.Balance{
-				Amount: domain.Amount{
-					Amount:   m.ClosingBalance.Amount,
-					Currency: m.ClosingBalance.Currency,
-				},
-				TransmissionDate: m.ClosingBalance.BookingDate.Time,
-			},
+			AccountBalanceBefore: m.StartingBalance.Balance(),
+			AccountBalanceAfter:  m.ClosingBalance.Balance(),
 		}
 		if descr != nil {
 			transaction.BookingText = descr.BookingText
-- 
2.43.0


From ec821074bdaa6b9e405ecdb828967650acabdd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:56 +0000
Subject: [PATCH 23/63] fix: give reversed bookings the right sign

---
 swift/mt940.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/swift/mt940.go b/swift/mt940.go
index c1744c7..78765b6 100644
--- a/swift/mt940.go
+++ b/swift/mt940.go
@@ -35,7 +35,8 @@ func (m *MT940) AccountTransactions() []domain.AccountTransaction {
 		tr := transactionSequence.Transaction
 		descr := transactionSequence.Description
 		var amount float64
-		if tr.DebitCreditIndicator == "D" {
+		// RC is the reversal of a credit, RD the one of a debit
+		if tr.DebitCreditIndicator == "D" || tr.DebitCreditIndicator == "RC" {
 			amount = -tr.Amount
 		} else {
 			amount = tr.Amount
@@ -243,14 +244,13 @@ func (t *TransactionTag) Unmarshal(value []byte) error {
 		if unicode.IsDigit(r) {
 			buf.UnreadRune()
 			runes = runes[:len(runes)-1]
-			if len(runes) == 3 {
-				t.DebitCreditIndicator = string(runes[:2])
-				t.CurrencyKind = string(runes[2:])
-			} else if len(runes) == 2 {
-				t.DebitCreditIndicator = string(runes[:1])
-				t.CurrencyKind = string(runes[1:])
-			} else if len(runes) == 1 {
-				t.DebitCreditIndicator = string(runes)
+			indicatorLen := 1
+			if len(runes) > 1 && runes[0] == 'R' {
+				indicatorLen = 2
+			}
+			if len(runes) >= indicatorLen && len(runes) <= indicatorLen+1 {
+				t.DebitCreditIndicator = string(runes[:indicatorLen])
+				t.CurrencyKind = string(runes[indicatorLen:])
 			}
 			break
 		}
-- 
2.43.0


From 8ece4a7d88da354b92ba7fa850d081095933cffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 24/63] fix: derive the years of bookings from the statement
 instead of the clock

---
 swift/mt940.go | 85 +++++++++++++++++++++++++++++++++++---------------
 1 file changed, 59 insertions(+), 26 deletions(-)

diff --git a/swift/mt940.go b/swift/mt940.go
index 78765b6..98c0700 100644
--- a/swift/mt940.go
+++ b/swift/mt940.go
@@ -3,7 +3,6 @@ package swift
 import (
 	"bytes"
 	"fmt"
-	"math"
 	"strconv"
 	"strings"
 	"time"
@@ -42,10 +41,10 @@ func (m *MT940) AccountTransactions() []domain.AccountTransaction {
 			amount = tr.Amount
 		}
 		transaction := domain.AccountTransaction{
-			Account:     accountConnection,
-			Amount:      domain.Amount{Amount: amount, Currency: m.StartingBalance.Currency},
-			ValutaDate:  tr.ValutaDate.Time,
-			BookingDate: tr.BookingDate.Time,
+			Account:              accountConnection,
+			Amount:               domain.Amount{Amount: amount, Currency: m.StartingBalance.Currency},
+			ValutaDate:           tr.ValutaDate.Time,
+			BookingDate:          tr.BookingDate.Time,
 			AccountBalanceBefore: m.StartingBalance.Balance(),
 			AccountBalanceAfter:  m.ClosingBalance.Balance(),
 		}
@@ -164,7 +163,7 @@ func (b *BalanceTag) Unmarshal(value []byte) error {
 	buf := bytes.NewBuffer(elements[1])
 	b.DebitCreditIndicator = string(buf.Next(1))
 	dateBytes := buf.Next(6)
-	date, err := parseDate(dateBytes, time.Now().Year())
+	date, err := parseDate(dateBytes)
 	if err != nil {
 		return errors.WithMessage(err, "unmarshal balance tag: parsing booking date")
 	}
@@ -212,7 +211,7 @@ func (t *TransactionTag) Unmarshal(value []byte) error {
 	t.Tag = string(elements[0])
 	buf := bytes.NewBuffer(elements[1])
 	dateBytes := buf.Next(6)
-	date, err := parseDate(dateBytes, time.Now().Year())
+	date, err := parseDate(dateBytes)
 	if err != nil {
 		return errors.WithMessage(err, "unmarshal transaction tag: parsing valuta date")
 	}
@@ -224,15 +223,11 @@ func (t *TransactionTag) Unmarshal(value []byte) error {
 	if unicode.IsDigit(r) {
 		buf.UnreadRune()
 		dateBytes = buf.Next(4)
-		date, err = parseDate(dateBytes, t.ValutaDate.Year())
+		date, err = parseBookingDate(dateBytes, t.ValutaDate.Time)
 		if err != nil {
 			return errors.WithMessage(err, "unmarshal transaction tag: parsing booking date")
 		}
 		t.BookingDate = domain.NewShortDate(date)
-		monthDiff := int(math.Abs(float64(t.ValutaDate.Month() - t.BookingDate.Month())))
-		if monthDiff > 1 {
-			t.BookingDate = domain.NewShortDate(t.BookingDate.AddDate(1, 0, 0))
-		}
 	}
 	var runes []rune
 	for {
@@ -296,24 +291,62 @@ func (t *TransactionTag) Unmarshal(value []byte) error {
 	return nil
 }
 
-func parseDate(value []byte, referenceYear int) (time.Time, error) {
-	var offset int
-	if len(value) == 6 {
-		offset = 2
-	} else {
-		offset = 4
+// parseDate parses a date in the form YYMMDD. Years before 80 belong to the
+// 21st century.
+func parseDate(value []byte) (time.Time, error) {
+	if len(value) != 6 {
+		return time.Time{}, fmt.Errorf("malformed date: %q", value)
 	}
-	yearBegin := fmt.Sprintf("%d", referenceYear)[:offset]
-	dateString := yearBegin + string(value)
-	date, err := time.Parse("20060102", dateString)
+	century := "20"
+	if value[0] >= '8' {
+		century = "19"
+	}
+	year, err := strconv.Atoi(century + string(value[:2]))
 	if err != nil {
-		if strings.HasSuffix(dateString, "0229") {
-			return time.Date(referenceYear, 2, 29, 0, 0, 0, 0, time.UTC), nil
+		return time.Time{}, fmt.Errorf("malformed date: %q", value)
+	}
+	return parseDay(year, value[2:])
+}
+
+// parseBookingDate parses a date in the form MMDD. It lies in the year which
+// brings it closest to the valuta date.
+func parseBookingDate(value []byte, valutaDate time.Time) (time.Time, error) {
+	var bookingDate time.Time
+	var parseErr error
+	for _, year := range []int{valutaDate.Year(), valutaDate.Year() - 1, valutaDate.Year() + 1} {
+		date, err := parseDay(year, value)
+		if err != nil {
+			parseErr = err
+			continue
+		}
+		if bookingDate.IsZero() || distance(date, valutaDate) < distance(bookingDate, valutaDate) {
+			bookingDate = date
 		}
-		if strings.HasSuffix(dateString, "0230") {
-			return time.Date(referenceYear, 2, 30, 0, 0, 0, 0, time.UTC), nil
+	}
+	if bookingDate.IsZero() {
+		return time.Time{}, parseErr
+	}
+	return bookingDate, nil
+}
+
+func distance(a, b time.Time) time.Duration {
+	if a.Before(b) {
+		return b.Sub(a)
+	}
+	return a.Sub(b)
+}
+
+func parseDay(year int, monthAndDay []byte) (time.Time, error) {
+	date, err := time.Parse("20060102", fmt.Sprintf("%04d%s", year, monthAndDay))
+	if err != nil {
+		// Institutes count 30 days for every month
+		switch string(monthAndDay) {
+		case "0229":
+			return time.Date(year, 2, 29, 0, 0, 0, 0, time.UTC), nil
+		case "0230":
+			return time.Date(year, 2, 30, 0, 0, 0, 0, time.UTC), nil
 		}
 		return time.Time{}, err
 	}
-	return date.Truncate(24 * time.Hour), nil
+	return date, nil
 }
-- 
2.43.0


From be42dad8938840c722e2e59b1477d9f08dea0c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:16 +0000
Subject: [PATCH 25/63] fix: read the debit mark of bookings without booking
 date

---
 swift/mt940.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swift/mt940.go b/swift/mt940.go
index 98c0700..4aad6c8 100644
--- a/swift/mt940.go
+++ b/swift/mt940.go
@@ -220,8 +220,8 @@ func (t *TransactionTag) Unmarshal(value []byte) error {
 	if err != nil {
 		return err
 	}
+	buf.UnreadRune()
 	if unicode.IsDigit(r) {
-		buf.UnreadRune()
 		dateBytes = buf.Next(4)
 		date, err = parseBookingDate(dateBytes, t.ValutaDate.Time)
 		if err != nil {
-- 
2.43.0


From fe35eeaa435880dd707431bf2b121de74fb642fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 26/63] fix: offer SEPA account transactions if the bank
 supports them

---
 segment/account_transaction.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/segment/account_transaction.go b/segment/account_transaction.go
index 40f7eba..a90c5f4 100644
--- a/segment/account_transaction.go
+++ b/segment/account_transaction.go
@@ -29,9 +29,6 @@ func AccountTransactionRequestBuilder(versions []int) (func(account domain.Accou
 func SepaAccountTransactionRequestBuilder(versions []int) (func(account domain.InternationalAccountConnection, allAccounts bool) *AccountTransactionRequestSegment, error) {
 	sort.Sort(sort.Reverse(sort.IntSlice(versions)))
 	for _, version := range versions {
-		if version > 6 {
-			continue
-		}
 		switch version {
 		case 7:
 			return NewAccountTransactionRequestSegmentV7, nil
-- 
2.43.0


From dbecf1108b9c48ba902ed370f3af132bcef8a5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:13 +0000
Subject: [PATCH 27/63] fix: continue the same query on later pages of
 transactions

---
 client/client.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/client/client.go b/client/client.go
index aca1d46..2b59151 100644
--- a/client/client.go
+++ b/client/client.go
@@ -177,6 +177,12 @@ func (c *Client) accountTransactions(requestBuilder func() (segment.AccountTrans
 		return nil, fmt.Errorf("error building request: %w", err)
 	}
 	accountTransactionRequest.SetTransactionRange(timeframe)
+	return c.accountTransactionPages(accountTransactionRequest, continuationReference)
+}
+
+// accountTransactionPages sends the request and continues it as long as the
+// institute announces more data.
+func (c *Client) accountTransactionPages(accountTransactionRequest segment.AccountTransactionRequest, continuationReference string) (*swift.MT940Messages, error) {
 	if continuationReference != "" {
 		accountTransactionRequest.SetContinuationReference(continuationReference)
 	}
@@ -207,7 +213,7 @@ func (c *Client) accountTransactions(requestBuilder func() (segment.AccountTrans
 	if newContinuationReference == "" {
 		return tx, nil
 	}
-	msg, err := c.accountTransactions(requestBuilder, timeframe, newContinuationReference)
+	msg, err := c.accountTransactionPages(accountTransactionRequest, newContinuationReference)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From eddf12b2950190ffdaac50ac7716dbc75438e89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:43 +0000
Subject: [PATCH 28/63] fix: report a missing continuation reference

---
 client/client.go | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/client/client.go b/client/client.go
index 2b59151..4d01bf6 100644
--- a/client/client.go
+++ b/client/client.go
@@ -201,13 +201,9 @@ func (c *Client) accountTransactionPages(accountTransactionRequest segment.Accou
 		}
 		bookedSwiftTransactions = append(bookedSwiftTransactions, seg.BookedSwiftTransactions())
 	}
-	var newContinuationReference string
-	acknowledgements := decryptedMessage.Acknowledgements()
-	for _, ack := range acknowledgements {
-		if ack.Code == element.AcknowledgementAdditionalInformation {
-			newContinuationReference = ack.Params[0]
-			break
-		}
+	newContinuationReference, err := continuationReferenceFrom(decryptedMessage)
+	if err != nil {
+		return nil, err
 	}
 	tx := swift.MergeMT940Messages(bookedSwiftTransactions...)
 	if newContinuationReference == "" {
@@ -220,6 +216,20 @@ func (c *Client) accountTransactionPages(accountTransactionRequest segment.Accou
 	return swift.MergeMT940Messages(tx, msg), nil
 }
 
+// continuationReferenceFrom returns the reference under which the institute
+// provides the rest of its answer. It is empty if the answer is complete.
+func continuationReferenceFrom(bankMessage message.BankMessage) (string, error) {
+	for _, ack := range bankMessage.Acknowledgements() {
+		if ack.Code == element.AcknowledgementAdditionalInformation {
+			if len(ack.Params) == 0 || ack.Params[0] == "" {
+				return "", fmt.Errorf("malformed response: missing continuation reference")
+			}
+			return ack.Params[0], nil
+		}
+	}
+	return "", nil
+}
+
 // AccountInformation will print all information attached to the provided
 // account. If allAccounts is true it will fetch also the information
 // associated with the account.
@@ -321,13 +331,9 @@ func (c *Client) SepaAccountBalances(account domain.InternationalAccountConnecti
 	if len(balanceResponses) == 0 {
 		return nil, fmt.Errorf("malformed response: expected HISAL segment")
 	}
-	var newContinuationReference string
-	acknowledgements := decryptedMessage.Acknowledgements()
-	for _, ack := range acknowledgements {
-		if ack.Code == element.AcknowledgementAdditionalInformation {
-			newContinuationReference = ack.Params[0]
-			break
-		}
+	newContinuationReference, err := continuationReferenceFrom(decryptedMessage)
+	if err != nil {
+		return nil, err
 	}
 	if newContinuationReference == "" {
 		return balances, nil
-- 
2.43.0


From 5bf7d0b466b36f2be34f30eea8ab15884fd5a36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:15 +0000
Subject: [PATCH 29/63] fix: fetch all pages of account balances

---
 client/client.go | 86 +++++++++++++++++++++++-------------------------
 1 file changed, 41 insertions(+), 45 deletions(-)

diff --git a/client/client.go b/client/client.go
index 4d01bf6..694d6e2 100644
--- a/client/client.go
+++ b/client/client.go
@@ -264,32 +264,54 @@ func (c *Client) AccountBalances(account domain.AccountConnection, allAccounts b
 	if err != nil {
 		return nil, err
 	}
-	decryptedMessage, err := c.pinTanDialog.SendMessage(
-		message.NewHBCIMessage(
-			c.hbciVersion,
-			c.hbciVersion.TanProcess4Request(segment.IdentificationID),
-			accountBalanceRequest,
-		),
-	)
+	balanceResponses, err := c.accountBalances(accountBalanceRequest)
 	if err != nil {
 		return nil, err
 	}
 	var balances []domain.AccountBalance
-	balanceResponses := decryptedMessage.FindSegments(segment.AccountBalanceResponseID)
-	for _, unmarshaledSegment := range balanceResponses {
-		seg, ok := unmarshaledSegment.(segment.AccountBalanceResponse)
-		if !ok {
-			return nil, fmt.Errorf("malformed segment found with ID %q", segment.AccountBalanceResponseID)
-		}
+	for _, seg := range balanceResponses {
 		balances = append(balances, seg.AccountBalance())
 	}
-	if len(balanceResponses) == 0 {
-		return nil, fmt.Errorf("malformed response: expected HISAL segment")
-	}
-
 	return balances, nil
 }
 
+// accountBalances sends the request and continues it as long as the institute
+// announces more data.
+func (c *Client) accountBalances(accountBalanceRequest segment.AccountBalanceRequest) ([]segment.AccountBalanceResponse, error) {
+	var balances []segment.AccountBalanceResponse
+	for {
+		decryptedMessage, err := c.pinTanDialog.SendMessage(
+			message.NewHBCIMessage(
+				c.hbciVersion,
+				c.hbciVersion.TanProcess4Request(segment.IdentificationID),
+				accountBalanceRequest,
+			),
+		)
+		if err != nil {
+			return nil, err
+		}
+		balanceResponses := decryptedMessage.FindSegments(segment.AccountBalanceResponseID)
+		for _, unmarshaledSegment := range balanceResponses {
+			seg, ok := unmarshaledSegment.(segment.AccountBalanceResponse)
+			if !ok {
+				return nil, fmt.Errorf("malformed segment found with ID %q", segment.AccountBalanceResponseID)
+			}
+			balances = append(balances, seg)
+		}
+		if len(balanceResponses) == 0 {
+			return nil, fmt.Errorf("malformed response: expected HISAL segment")
+		}
+		continuationReference, err := continuationReferenceFrom(decryptedMessage)
+		if err != nil {
+			return nil, err
+		}
+		if continuationReference == "" {
+			return balances, nil
+		}
+		accountBalanceRequest.SetContinuationMark(continuationReference)
+	}
+}
+
 // AccountBalances retrieves the balance for the provided account.
 // If allAccounts is true it will fetch also the balances for all accounts
 // associated with the account.
@@ -305,44 +327,18 @@ func (c *Client) SepaAccountBalances(account domain.InternationalAccountConnecti
 	if continuationReference != "" {
 		accountBalanceRequest.SetContinuationMark(continuationReference)
 	}
-	decryptedMessage, err := c.pinTanDialog.SendMessage(
-		message.NewHBCIMessage(
-			c.hbciVersion,
-			c.hbciVersion.TanProcess4Request(segment.IdentificationID),
-			accountBalanceRequest,
-		),
-	)
+	balanceResponses, err := c.accountBalances(accountBalanceRequest)
 	if err != nil {
 		return nil, err
 	}
 	var balances []domain.SepaAccountBalance
-	balanceResponses := decryptedMessage.FindSegments(segment.AccountBalanceResponseID)
-	for _, unmarshaledSegment := range balanceResponses {
-		seg, ok := unmarshaledSegment.(segment.AccountBalanceResponse)
-		if !ok {
-			return nil, fmt.Errorf("malformed segment found with ID %q", segment.AccountBalanceResponseID)
-		}
+	for _, seg := range balanceResponses {
 		sepaBalances, err := seg.SepaAccountBalance()
 		if err != nil {
 			return nil, fmt.Errorf("could not get sepa balances: %w", err)
 		}
 		balances = append(balances, sepaBalances)
 	}
-	if len(balanceResponses) == 0 {
-		return nil, fmt.Errorf("malformed response: expected HISAL segment")
-	}
-	newContinuationReference, err := continuationReferenceFrom(decryptedMessage)
-	if err != nil {
-		return nil, err
-	}
-	if newContinuationReference == "" {
-		return balances, nil
-	}
-	nextBal, err := c.SepaAccountBalances(account, allAccounts, newContinuationReference)
-	if err != nil {
-		return nil, err
-	}
-	balances = append(balances, nextBal...)
 	return balances, nil
 }
 
-- 
2.43.0


From 6dc70d44b743bf96261c332800980c854d3a4424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:12 +0000
Subject: [PATCH 30/63] fix: report the booking time of balances on the booking
 date

---
 segment/account_balance.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/segment/account_balance.go b/segment/account_balance.go
index 7ed9ae3..e3d555b 100644
--- a/segment/account_balance.go
+++ b/segment/account_balance.go
@@ -202,6 +202,19 @@ type AccountBalanceResponseSegment struct {
 	AccountBalanceResponse
 }
 
+// atTimeOfDay returns the given day at the given time of day. It returns nil if
+// there is no day.
+func atTimeOfDay(day *time.Time, timeOfDay time.Time) *time.Time {
+	if day == nil {
+		return nil
+	}
+	t := time.Date(
+		day.Year(), day.Month(), day.Day(),
+		timeOfDay.Hour(), timeOfDay.Minute(), timeOfDay.Second(), 0, day.Location(),
+	)
+	return &t
+}
+
 type AccountBalanceResponseSegmentV5 struct {
 	Segment
 	AccountConnection  *element.AccountConnectionDataElement
@@ -251,7 +264,7 @@ func (a *AccountBalanceResponseSegmentV5) AccountBalance() domain.AccountBalance
 	}
 	if t := a.BookingTime; t != nil {
 		val := t.Val()
-		*balance.BookingDate = balance.BookingDate.Add(val.Sub(time.Time{}))
+		balance.BookingDate = atTimeOfDay(balance.BookingDate, val)
 	}
 	if dueDate := a.DueDate; dueDate != nil {
 		val := dueDate.Val()
@@ -327,7 +340,7 @@ func (a *AccountBalanceResponseSegmentV6) AccountBalance() domain.AccountBalance
 	}
 	if t := a.BookingTime; t != nil {
 		val := t.Val()
-		*balance.BookingDate = balance.BookingDate.Add(val.Sub(time.Time{}))
+		balance.BookingDate = atTimeOfDay(balance.BookingDate, val)
 	}
 	if dueDate := a.DueDate; dueDate != nil {
 		val := dueDate.Val()
@@ -403,7 +416,7 @@ func (a *AccountBalanceResponseSegmentV7) AccountBalance() domain.AccountBalance
 	}
 	if t := a.BookingTime; t != nil {
 		val := t.Val()
-		*balance.BookingDate = balance.BookingDate.Add(val.Sub(time.Time{}))
+		balance.BookingDate = atTimeOfDay(balance.BookingDate, val)
 	}
 	if dueDate := a.DueDate; dueDate != nil {
 		val := dueDate.Val()
@@ -441,7 +454,7 @@ func (a *AccountBalanceResponseSegmentV7) SepaAccountBalance() (domain.SepaAccou
 	}
 	if t := a.BookingTime; t != nil {
 		val := t.Val()
-		*balance.BookingDate = balance.BookingDate.Add(val.Sub(time.Time{}))
+		balance.BookingDate = atTimeOfDay(balance.BookingDate, val)
 	}
 	if dueDate := a.DueDate; dueDate != nil {
 		val := dueDate.Val()
@@ -515,7 +528,7 @@ func (a *AccountBalanceResponseSegmentV8) AccountBalance() domain.AccountBalance
 	}
 	if t := a.BookingTime; t != nil {
 		val := t.Val()
-		*balance.BookingDate = balance.BookingDate.Add(val.Sub(time.Time{}))
+		balance.BookingDate = atTimeOfDay(balance.BookingDate, val)
 	}
 	if dueDate := a.DueDate; dueDate != nil {
 		val := dueDate.Val()
@@ -553,7 +566,7 @@ func (a *AccountBalanceResponseSegmentV8) SepaAccountBalance() (domain.SepaAccou
 	}
 	if t := a.BookingTime; t != nil {
 		val := t.Val()
-		*balance.BookingDate = balance.BookingDate.Add(val.Sub(time.Time{}))
+		balance.BookingDate = atTimeOfDay(balance.BookingDate, val)
 	}
 	if dueDate := a.DueDate; dueDate != nil {
 		val := dueDate.Val()
-- 
2.43.0


From c9f56a9565ab12a1634f36989563a542e87d8ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:14 +0000
Subject: [PATCH 31/63] fix: offer status queries in the version the bank
 supports

---
 segment/hbci_version.go    | 2 +-
 segment/status_protocol.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/segment/hbci_version.go b/segment/hbci_version.go
index e70a580..53a41f7 100644
--- a/segment/hbci_version.go
+++ b/segment/hbci_version.go
@@ -104,7 +104,7 @@ func (b *builder) SepaAccountTransactionRequest(account domain.InternationalAcco
 	return request(account, allAccounts), nil
 }
 func (b *builder) StatusProtocolRequest(from, to time.Time, maxEntries int, continuationReference string) (StatusProtocolRequest, error) {
-	versions, ok := b.supportedSegments["HIPRO"]
+	versions, ok := b.supportedSegments["HIPROS"]
 	if !ok {
 		return nil, fmt.Errorf("Segment %s not supported", "HKPRO")
 	}
diff --git a/segment/status_protocol.go b/segment/status_protocol.go
index f3ac229..d90e198 100644
--- a/segment/status_protocol.go
+++ b/segment/status_protocol.go
@@ -14,9 +14,9 @@ func StatusProtocolRequestBuilder(versions []int) (func(from, to time.Time, maxE
 	for _, version := range versions {
 		switch version {
 		case 4:
-			return NewStatusProtocolRequestV3, nil
-		case 3:
 			return NewStatusProtocolRequestV4, nil
+		case 3:
+			return NewStatusProtocolRequestV3, nil
 		default:
 			continue
 		}
-- 
2.43.0


From 35e60ed490c3c8827900943575d4679919a25e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 32/63] fix: report the bank's transmission time of status
 entries

---
 segment/status_protocol.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/segment/status_protocol.go b/segment/status_protocol.go
index d90e198..c2a4780 100644
--- a/segment/status_protocol.go
+++ b/segment/status_protocol.go
@@ -137,14 +137,17 @@ func (s *StatusProtocolResponseSegmentV3) Status() domain.StatusAcknowledgement
 	ack := s.Acknowledgement.Val()
 	if s.ReferencingMessage != nil {
 		ack.ReferencingMessage = s.ReferencingMessage.Val()
-		ack.ReferencingSegmentNumber = s.ReferencingSegment.Val()
+		if s.ReferencingSegment != nil {
+			ack.ReferencingSegmentNumber = s.ReferencingSegment.Val()
+		}
 		ack.Type = domain.SegmentAcknowledgement
 	} else {
 		ack.Type = domain.MessageAcknowledgement
 	}
+	transmittedAt := s.Date.Val()
 	status := domain.StatusAcknowledgement{
 		Acknowledgement: ack,
-		TransmittedAt:   s.Date.Val().Add(time.Since(s.Time.Val())),
+		TransmittedAt:   *atTimeOfDay(&transmittedAt, s.Time.Val()),
 	}
 	return status
 }
@@ -177,14 +180,17 @@ func (s *StatusProtocolResponseSegmentV4) Status() domain.StatusAcknowledgement
 	ack := s.Acknowledgement.Val()
 	if s.ReferencingMessage != nil {
 		ack.ReferencingMessage = s.ReferencingMessage.Val()
-		ack.ReferencingSegmentNumber = s.ReferencingSegment.Val()
+		if s.ReferencingSegment != nil {
+			ack.ReferencingSegmentNumber = s.ReferencingSegment.Val()
+		}
 		ack.Type = domain.SegmentAcknowledgement
 	} else {
 		ack.Type = domain.MessageAcknowledgement
 	}
+	transmittedAt := s.Date.Val()
 	status := domain.StatusAcknowledgement{
 		Acknowledgement: ack,
-		TransmittedAt:   s.Date.Val().Add(time.Since(s.Time.Val())),
+		TransmittedAt:   *atTimeOfDay(&transmittedAt, s.Time.Val()),
 	}
 	return status
 }
-- 
2.43.0


From 37386cf7133be1761b437a2b93f9df9b7056a91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:19 +0000
Subject: [PATCH 33/63] fix: fetch all pages of status entries

---
 client/client.go | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/client/client.go b/client/client.go
index 694d6e2..4f64c82 100644
--- a/client/client.go
+++ b/client/client.go
@@ -350,23 +350,33 @@ func (c *Client) Status(from, to time.Time, maxEntries int, continuationReferenc
 		return nil, err
 	}
 	builder := segment.NewBuilder(c.pinTanDialog.SupportedSegments())
-	statusRequest, err := builder.StatusProtocolRequest(from, to, maxEntries, continuationReference)
-	if err != nil {
-		return nil, err
-	}
-	bankMessage, err := c.pinTanDialog.SendMessage(
-		message.NewHBCIMessage(c.hbciVersion, c.hbciVersion.TanProcess4Request(segment.IdentificationID), statusRequest),
-	)
-	if err != nil {
-		return nil, err
-	}
 	var statusAcknowledgements []domain.StatusAcknowledgement
-	statusResponses := bankMessage.FindSegments("HIPRO")
-	for _, seg := range statusResponses {
-		statusResponse := seg.(segment.StatusProtocolResponse)
-		statusAcknowledgements = append(statusAcknowledgements, statusResponse.Status())
+	for {
+		statusRequest, err := builder.StatusProtocolRequest(from, to, maxEntries, continuationReference)
+		if err != nil {
+			return nil, err
+		}
+		bankMessage, err := c.pinTanDialog.SendMessage(
+			message.NewHBCIMessage(c.hbciVersion, c.hbciVersion.TanProcess4Request(segment.IdentificationID), statusRequest),
+		)
+		if err != nil {
+			return nil, err
+		}
+		for _, seg := range bankMessage.FindSegments("HIPRO") {
+			statusResponse, ok := seg.(segment.StatusProtocolResponse)
+			if !ok {
+				return nil, fmt.Errorf("malformed response: unexpected HIPRO segment")
+			}
+			statusAcknowledgements = append(statusAcknowledgements, statusResponse.Status())
+		}
+		continuationReference, err = continuationReferenceFrom(bankMessage)
+		if err != nil {
+			return nil, err
+		}
+		if continuationReference == "" {
+			return statusAcknowledgements, nil
+		}
 	}
-	return statusAcknowledgements, nil
 }
 
 // AnonymousClient wraps a Client and allows anonymous requests to bank
-- 
2.43.0


From b2160acb98b5fe28ee53cb9e879cf8393f4338ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:49 +0000
Subject: [PATCH 34/63] fix: reject bank segments that lack mandatory elements

---
 dialog/dialog.go                      | 23 ++++++++++++++++---
 message/decryption.go                 |  2 +-
 message/unmarshaler.go                | 14 ++++++++++++
 segment/account_balance.go            | 32 +++++++++++++--------------
 segment/basic_account_information.go  | 29 +++++++++++++-----------
 segment/common_bank_parameter_data.go | 16 +++++++-------
 segment/encrypted_data.go             |  2 +-
 segment/mandatory.go                  | 22 ++++++++++++++++++
 segment/message_header.go             |  8 +++----
 segment/pin_bpd.go                    |  2 +-
 segment/status_protocol.go            | 12 +++++-----
 segment/sync.go                       |  6 +++++
 segment/user_parameter_data.go        | 18 +++++++--------
 13 files changed, 124 insertions(+), 62 deletions(-)
 create mode 100644 segment/mandatory.go

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 6810c17..19bb442 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -216,7 +216,11 @@ func (d *dialog) SyncClientSystemID() (_ string, err error) {
 	syncResponse := decryptedMessage.FindSegment("HISYN")
 	if syncResponse != nil {
 		syncSegment := syncResponse.(segment.SynchronisationResponse)
-		d.SetClientSystemID(syncSegment.ClientSystemID())
+		clientSystemID := syncSegment.ClientSystemID()
+		if clientSystemID == "" {
+			return "", fmt.Errorf("malformed response: missing client system ID")
+		}
+		d.SetClientSystemID(clientSystemID)
 	} else {
 		return "", fmt.Errorf("malformed message: missing unmarshaler for SynchronisationResponse")
 	}
@@ -316,7 +320,9 @@ func (d *dialog) anonymousInit() (err error) {
 	bankInfoMessage := bankMessage.FindSegment(segment.BankAnnouncementID)
 	if bankInfoMessage != nil {
 		bankInfoSegment := bankInfoMessage.(*segment.BankAnnouncementSegment)
-		internal.Info.Printf("INFO:\n%s\n%s\n", bankInfoSegment.Subject.Val(), bankInfoSegment.Body.Val())
+		if bankInfoSegment.Subject != nil && bankInfoSegment.Body != nil {
+			internal.Info.Printf("INFO:\n%s\n%s\n", bankInfoSegment.Subject.Val(), bankInfoSegment.Body.Val())
+		}
 	}
 
 	errors := make([]string, 0)
@@ -414,7 +420,9 @@ func (d *dialog) init() (err error) {
 	bankInfoMessage := decryptedMessage.FindSegment(segment.BankAnnouncementID)
 	if bankInfoMessage != nil {
 		bankInfoSegment := bankInfoMessage.(*segment.BankAnnouncementSegment)
-		internal.Info.Printf("INFO:\n%s\n%s\n", bankInfoSegment.Subject.Val(), bankInfoSegment.Body.Val())
+		if bankInfoSegment.Subject != nil && bankInfoSegment.Body != nil {
+			internal.Info.Printf("INFO:\n%s\n%s\n", bankInfoSegment.Subject.Val(), bankInfoSegment.Body.Val())
+		}
 	}
 
 	var errors []string
@@ -709,6 +717,9 @@ func (d *dialog) extractEncryptedMessage(response *transport.Response) (*message
 	}
 	header := &segment.MessageHeaderSegment{}
 	err := header.UnmarshalHBCI(messageHeader)
+	if err == nil {
+		err = segment.CheckMandatoryElements(header)
+	}
 	if err != nil {
 		return nil, fmt.Errorf("error while unmarshaling message header: %v", err)
 	}
@@ -721,6 +732,9 @@ func (d *dialog) extractEncryptedMessage(response *transport.Response) (*message
 	if encryptedData != nil {
 		encSegment := &segment.EncryptedDataSegment{}
 		err = encSegment.UnmarshalHBCI(encryptedData)
+		if err == nil {
+			err = segment.CheckMandatoryElements(encSegment)
+		}
 		if err != nil {
 			return nil, fmt.Errorf("error while unmarshaling encrypted data: %v", err)
 		}
@@ -738,6 +752,9 @@ func extractUnencryptedMessage(response *transport.Response) (message.BankMessag
 	}
 	header := &segment.MessageHeaderSegment{}
 	err := header.UnmarshalHBCI(messageHeader)
+	if err == nil {
+		err = segment.CheckMandatoryElements(header)
+	}
 	if err != nil {
 		return nil, fmt.Errorf("Error while unmarshaling message header: %v", err)
 	}
diff --git a/message/decryption.go b/message/decryption.go
index d69f7fb..78c01b6 100644
--- a/message/decryption.go
+++ b/message/decryption.go
@@ -91,7 +91,7 @@ func (d *decryptedMessage) SegmentPosition(segmentID string) int {
 		return -1
 	}
 	elements, err := segment.ExtractElements(seg)
-	if err != nil {
+	if err != nil || len(elements) == 0 {
 		return -1
 	}
 	header := &element.SegmentHeader{}
diff --git a/message/unmarshaler.go b/message/unmarshaler.go
index 82d531f..3546e3f 100644
--- a/message/unmarshaler.go
+++ b/message/unmarshaler.go
@@ -55,6 +55,10 @@ func (u *Unmarshaler) Unmarshal() error {
 			if err != nil {
 				return fmt.Errorf("error unmarshaling segment %q: %w", header, err)
 			}
+			err = segment.CheckMandatoryElements(unmarshaler)
+			if err != nil {
+				return fmt.Errorf("error unmarshaling segment %q: %w", header, err)
+			}
 			segments, ok := u.segments[segmentID.ID]
 			if !ok {
 				segments = make([]segment.Segment, 0)
@@ -82,6 +86,10 @@ func (u *Unmarshaler) UnmarshalSegment(segmentID string, version int) (segment.S
 	if err != nil {
 		return nil, fmt.Errorf("Error while unmarshaling segment: %v", err)
 	}
+	err = segment.CheckMandatoryElements(unmarshaler)
+	if err != nil {
+		return nil, fmt.Errorf("Error while unmarshaling segment: %v", err)
+	}
 	return unmarshaler.(segment.Segment), nil
 }
 
@@ -132,6 +140,9 @@ func extractVersionedSegmentIdentifier(segmentBytes []byte) (segment.VersionedSe
 	if err != nil {
 		return id, err
 	}
+	if len(elements) == 0 {
+		return id, fmt.Errorf("malformed segment: no elements extracted")
+	}
 	header := &element.SegmentHeader{}
 	err = header.UnmarshalHBCI(elements[0])
 	if err != nil {
@@ -146,6 +157,9 @@ func extractSegmentHeader(segmentBytes []byte) (*element.SegmentHeader, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(elements) == 0 {
+		return nil, fmt.Errorf("malformed segment: no elements extracted")
+	}
 	header := &element.SegmentHeader{}
 	err = header.UnmarshalHBCI(elements[0])
 	if err != nil {
diff --git a/segment/account_balance.go b/segment/account_balance.go
index e3d555b..eab28d4 100644
--- a/segment/account_balance.go
+++ b/segment/account_balance.go
@@ -217,10 +217,10 @@ func atTimeOfDay(day *time.Time, timeOfDay time.Time) *time.Time {
 
 type AccountBalanceResponseSegmentV5 struct {
 	Segment
-	AccountConnection  *element.AccountConnectionDataElement
-	AccountProductName *element.AlphaNumericDataElement
-	AccountCurrency    *element.CurrencyDataElement
-	BookedBalance      *element.BalanceDataElement
+	AccountConnection  *element.AccountConnectionDataElement `hbci:"mandatory"`
+	AccountProductName *element.AlphaNumericDataElement      `hbci:"mandatory"`
+	AccountCurrency    *element.CurrencyDataElement          `hbci:"mandatory"`
+	BookedBalance      *element.BalanceDataElement           `hbci:"mandatory"`
 	EarmarkedBalance   *element.BalanceDataElement
 	CreditLimit        *element.AmountDataElement
 	AvailableAmount    *element.AmountDataElement
@@ -293,10 +293,10 @@ func (a *AccountBalanceResponseSegmentV5) elements() []element.DataElement {
 
 type AccountBalanceResponseSegmentV6 struct {
 	Segment
-	AccountConnection  *element.AccountConnectionDataElement
-	AccountProductName *element.AlphaNumericDataElement
-	AccountCurrency    *element.CurrencyDataElement
-	BookedBalance      *element.BalanceDataElement
+	AccountConnection  *element.AccountConnectionDataElement `hbci:"mandatory"`
+	AccountProductName *element.AlphaNumericDataElement      `hbci:"mandatory"`
+	AccountCurrency    *element.CurrencyDataElement          `hbci:"mandatory"`
+	BookedBalance      *element.BalanceDataElement           `hbci:"mandatory"`
 	EarmarkedBalance   *element.BalanceDataElement
 	CreditLimit        *element.AmountDataElement
 	AvailableAmount    *element.AmountDataElement
@@ -369,10 +369,10 @@ func (a *AccountBalanceResponseSegmentV6) elements() []element.DataElement {
 
 type AccountBalanceResponseSegmentV7 struct {
 	Segment
-	AccountConnection  *element.InternationalAccountConnectionDataElement
-	AccountProductName *element.AlphaNumericDataElement
-	AccountCurrency    *element.CurrencyDataElement
-	BookedBalance      *element.BalanceDataElement
+	AccountConnection  *element.InternationalAccountConnectionDataElement `hbci:"mandatory"`
+	AccountProductName *element.AlphaNumericDataElement                   `hbci:"mandatory"`
+	AccountCurrency    *element.CurrencyDataElement                       `hbci:"mandatory"`
+	BookedBalance      *element.BalanceDataElement                        `hbci:"mandatory"`
 	EarmarkedBalance   *element.BalanceDataElement
 	CreditLimit        *element.AmountDataElement
 	AvailableAmount    *element.AmountDataElement
@@ -480,10 +480,10 @@ func (a *AccountBalanceResponseSegmentV7) elements() []element.DataElement {
 
 type AccountBalanceResponseSegmentV8 struct {
 	Segment
-	AccountConnection  *element.InternationalAccountConnectionDataElement
-	AccountProductName *element.AlphaNumericDataElement
-	AccountCurrency    *element.CurrencyDataElement
-	BookedBalance      *element.BalanceDataElement
+	AccountConnection  *element.InternationalAccountConnectionDataElement `hbci:"mandatory"`
+	AccountProductName *element.AlphaNumericDataElement                   `hbci:"mandatory"`
+	AccountCurrency    *element.CurrencyDataElement                       `hbci:"mandatory"`
+	BookedBalance      *element.BalanceDataElement                        `hbci:"mandatory"`
 	EarmarkedBalance   *element.BalanceDataElement
 	CreditLimit        *element.AmountDataElement
 	AvailableAmount    *element.AmountDataElement
diff --git a/segment/basic_account_information.go b/segment/basic_account_information.go
index 659fefa..4e2a7ca 100644
--- a/segment/basic_account_information.go
+++ b/segment/basic_account_information.go
@@ -26,9 +26,9 @@ type accountInformationSegment interface {
 type AccountInformationV4 struct {
 	Segment
 	AccountConnection           *element.AccountConnectionDataElement
-	UserID                      *element.IdentificationDataElement
+	UserID                      *element.IdentificationDataElement `hbci:"mandatory"`
 	AccountCurrency             *element.CurrencyDataElement
-	Name1                       *element.AlphaNumericDataElement
+	Name1                       *element.AlphaNumericDataElement `hbci:"mandatory"`
 	Name2                       *element.AlphaNumericDataElement
 	AccountProductID            *element.AlphaNumericDataElement
 	AccountLimit                *element.AccountLimitDataElement
@@ -41,12 +41,15 @@ func (a *AccountInformationV4) referencedId() string { return ProcessingPreparat
 func (a *AccountInformationV4) sender() string       { return senderBank }
 
 func (a *AccountInformationV4) Account() domain.AccountInformation {
-	accountConnection := a.AccountConnection.Val()
 	info := domain.AccountInformation{
-		AccountConnection: accountConnection,
-		UserID:            a.UserID.Val(),
-		Currency:          a.AccountCurrency.Val(),
-		Name1:             a.Name1.Val(),
+		UserID: a.UserID.Val(),
+		Name1:  a.Name1.Val(),
+	}
+	if a.AccountConnection != nil {
+		info.AccountConnection = a.AccountConnection.Val()
+	}
+	if a.AccountCurrency != nil {
+		info.Currency = a.AccountCurrency.Val()
 	}
 	if a.Name2 != nil {
 		info.Name2 = a.Name2.Val()
@@ -80,10 +83,10 @@ func (a *AccountInformationV4) elements() []element.DataElement {
 type AccountInformationV5 struct {
 	Segment
 	AccountConnection           *element.AccountConnectionDataElement
-	UserID                      *element.IdentificationDataElement
+	UserID                      *element.IdentificationDataElement `hbci:"mandatory"`
 	AccountType                 *element.NumberDataElement
 	AccountCurrency             *element.CurrencyDataElement
-	Name1                       *element.AlphaNumericDataElement
+	Name1                       *element.AlphaNumericDataElement `hbci:"mandatory"`
 	Name2                       *element.AlphaNumericDataElement
 	AccountProductID            *element.AlphaNumericDataElement
 	AccountLimit                *element.AccountLimitDataElement
@@ -140,10 +143,10 @@ type AccountInformationV6 struct {
 	Segment
 	AccountConnection           *element.AccountConnectionDataElement
 	IBAN                        *element.AlphaNumericDataElement
-	UserID                      *element.IdentificationDataElement
+	UserID                      *element.IdentificationDataElement `hbci:"mandatory"`
 	AccountType                 *element.NumberDataElement
 	AccountCurrency             *element.CurrencyDataElement
-	Name1                       *element.AlphaNumericDataElement
+	Name1                       *element.AlphaNumericDataElement `hbci:"mandatory"`
 	Name2                       *element.AlphaNumericDataElement
 	AccountProductID            *element.AlphaNumericDataElement
 	AccountLimit                *element.AccountLimitDataElement
@@ -203,10 +206,10 @@ type AccountInformationV7 struct {
 	Segment
 	AccountConnection           *element.AccountConnectionDataElement
 	IBAN                        *element.AlphaNumericDataElement
-	UserID                      *element.IdentificationDataElement
+	UserID                      *element.IdentificationDataElement `hbci:"mandatory"`
 	AccountType                 *element.NumberDataElement
 	AccountCurrency             *element.CurrencyDataElement
-	Name1                       *element.AlphaNumericDataElement
+	Name1                       *element.AlphaNumericDataElement `hbci:"mandatory"`
 	Name2                       *element.AlphaNumericDataElement
 	AccountProductID            *element.AlphaNumericDataElement
 	AccountLimit                *element.AccountLimitDataElement
diff --git a/segment/common_bank_parameter_data.go b/segment/common_bank_parameter_data.go
index a633c29..afab7de 100644
--- a/segment/common_bank_parameter_data.go
+++ b/segment/common_bank_parameter_data.go
@@ -25,10 +25,10 @@ type commonBankParameterSegment interface {
 
 type CommonBankParameterV2 struct {
 	Segment
-	BPDVersion               *element.NumberDataElement
-	BankID                   *element.BankIdentificationDataElement
-	BankName                 *element.AlphaNumericDataElement
-	BusinessTransactionCount *element.NumberDataElement
+	BPDVersion               *element.NumberDataElement             `hbci:"mandatory"`
+	BankID                   *element.BankIdentificationDataElement `hbci:"mandatory"`
+	BankName                 *element.AlphaNumericDataElement       `hbci:"mandatory"`
+	BusinessTransactionCount *element.NumberDataElement             `hbci:"mandatory"`
 	SupportedLanguages       *element.SupportedLanguagesDataElement
 	SupportedHBCIVersions    *element.SupportedHBCIVersionsDataElement
 	MaxMessageSize           *element.NumberDataElement
@@ -66,10 +66,10 @@ func (c *CommonBankParameterV2) BankParameterData() domain.BankParameterData {
 
 type CommonBankParameterV3 struct {
 	Segment
-	BPDVersion               *element.NumberDataElement
-	BankID                   *element.BankIdentificationDataElement
-	BankName                 *element.AlphaNumericDataElement
-	BusinessTransactionCount *element.NumberDataElement
+	BPDVersion               *element.NumberDataElement             `hbci:"mandatory"`
+	BankID                   *element.BankIdentificationDataElement `hbci:"mandatory"`
+	BankName                 *element.AlphaNumericDataElement       `hbci:"mandatory"`
+	BusinessTransactionCount *element.NumberDataElement             `hbci:"mandatory"`
 	SupportedLanguages       *element.SupportedLanguagesDataElement
 	SupportedHBCIVersions    *element.SupportedHBCIVersionsDataElement
 	MaxMessageSize           *element.NumberDataElement
diff --git a/segment/encrypted_data.go b/segment/encrypted_data.go
index 21c4411..904ac76 100644
--- a/segment/encrypted_data.go
+++ b/segment/encrypted_data.go
@@ -14,7 +14,7 @@ func NewEncryptedDataSegment(encryptedData []byte) *EncryptedDataSegment {
 
 type EncryptedDataSegment struct {
 	ClientSegment
-	Data *element.BinaryDataElement
+	Data *element.BinaryDataElement `hbci:"mandatory"`
 }
 
 func (e *EncryptedDataSegment) Version() int         { return 1 }
diff --git a/segment/mandatory.go b/segment/mandatory.go
new file mode 100644
index 0000000..37a25f6
--- /dev/null
+++ b/segment/mandatory.go
@@ -0,0 +1,22 @@
+package segment
+
+import (
+	"fmt"
+	"reflect"
+)
+
+// CheckMandatoryElements returns an error if seg lacks one of the elements
+// which are marked as mandatory with the struct tag `hbci:"mandatory"`.
+func CheckMandatoryElements(seg interface{}) error {
+	value := reflect.Indirect(reflect.ValueOf(seg))
+	if value.Kind() != reflect.Struct {
+		return nil
+	}
+	for i := 0; i < value.NumField(); i++ {
+		field := value.Type().Field(i)
+		if field.Tag.Get("hbci") == "mandatory" && value.Field(i).IsNil() {
+			return fmt.Errorf("malformed segment: missing mandatory element %s", field.Name)
+		}
+	}
+	return nil
+}
diff --git a/segment/message_header.go b/segment/message_header.go
index b41e2e5..0ba3ede 100644
--- a/segment/message_header.go
+++ b/segment/message_header.go
@@ -28,10 +28,10 @@ func NewMessageHeaderSegment(size int, hbciVersion int, dialogId string, number
 
 type MessageHeaderSegment struct {
 	ClientSegment
-	Size        *element.DigitDataElement
-	HBCIVersion *element.NumberDataElement
-	DialogID    *element.IdentificationDataElement
-	Number      *element.NumberDataElement
+	Size        *element.DigitDataElement          `hbci:"mandatory"`
+	HBCIVersion *element.NumberDataElement         `hbci:"mandatory"`
+	DialogID    *element.IdentificationDataElement `hbci:"mandatory"`
+	Number      *element.NumberDataElement         `hbci:"mandatory"`
 	Ref         *element.ReferencingMessageDataElement
 }
 
diff --git a/segment/pin_bpd.go b/segment/pin_bpd.go
index 851dc9a..d111df9 100644
--- a/segment/pin_bpd.go
+++ b/segment/pin_bpd.go
@@ -27,7 +27,7 @@ type PinTanBankParameterV1 struct {
 	MinSignatures *element.NumberDataElement `yaml:"MinSignatures"`
 	// TODO/FIXME: find out which parameters are here actually
 	XXX_Unknown          *element.NumberDataElement              `yaml:"-"`
-	PinTanSpecificParams *element.PinTanSpecificParamDataElement `yaml:"PinTanSpecificParams"`
+	PinTanSpecificParams *element.PinTanSpecificParamDataElement `yaml:"PinTanSpecificParams" hbci:"mandatory"`
 }
 
 func (t *PinTanBankParameterV1) Version() int         { return 1 }
diff --git a/segment/status_protocol.go b/segment/status_protocol.go
index c2a4780..595df19 100644
--- a/segment/status_protocol.go
+++ b/segment/status_protocol.go
@@ -113,9 +113,9 @@ type StatusProtocolResponseSegmentV3 struct {
 	Segment
 	ReferencingMessage *element.ReferencingMessageDataElement
 	ReferencingSegment *element.NumberDataElement
-	Date               *element.DateDataElement
-	Time               *element.TimeDataElement
-	Acknowledgement    *element.AcknowledgementDataElement
+	Date               *element.DateDataElement            `hbci:"mandatory"`
+	Time               *element.TimeDataElement            `hbci:"mandatory"`
+	Acknowledgement    *element.AcknowledgementDataElement `hbci:"mandatory"`
 }
 
 func (s *StatusProtocolResponseSegmentV3) ID() string           { return "HIPRO" }
@@ -156,9 +156,9 @@ type StatusProtocolResponseSegmentV4 struct {
 	Segment
 	ReferencingMessage *element.ReferencingMessageDataElement
 	ReferencingSegment *element.NumberDataElement
-	Date               *element.DateDataElement
-	Time               *element.TimeDataElement
-	Acknowledgement    *element.AcknowledgementDataElement
+	Date               *element.DateDataElement            `hbci:"mandatory"`
+	Time               *element.TimeDataElement            `hbci:"mandatory"`
+	Acknowledgement    *element.AcknowledgementDataElement `hbci:"mandatory"`
 }
 
 func (s *StatusProtocolResponseSegmentV4) ID() string           { return "HIPRO" }
diff --git a/segment/sync.go b/segment/sync.go
index e4a59dd..9663c94 100644
--- a/segment/sync.go
+++ b/segment/sync.go
@@ -121,6 +121,9 @@ func (s *SynchronisationResponseSegmentV3) elements() []element.DataElement {
 }
 
 func (s *SynchronisationResponseSegmentV3) ClientSystemID() string {
+	if s.ClientSystemIDResponse == nil {
+		return ""
+	}
 	return s.ClientSystemIDResponse.Val()
 }
 
@@ -153,6 +156,9 @@ func (s *SynchronisationResponseSegmentV4) elements() []element.DataElement {
 }
 
 func (s *SynchronisationResponseSegmentV4) ClientSystemID() string {
+	if s.ClientSystemIDResponse == nil {
+		return ""
+	}
 	return s.ClientSystemIDResponse.Val()
 }
 
diff --git a/segment/user_parameter_data.go b/segment/user_parameter_data.go
index 1655369..fd2cfec 100644
--- a/segment/user_parameter_data.go
+++ b/segment/user_parameter_data.go
@@ -25,8 +25,8 @@ type commonUserParameterDataSegment interface {
 
 type CommonUserParameterDataV2 struct {
 	Segment
-	UserID     *element.IdentificationDataElement
-	UPDVersion *element.NumberDataElement
+	UserID     *element.IdentificationDataElement `hbci:"mandatory"`
+	UPDVersion *element.NumberDataElement         `hbci:"mandatory"`
 	// Status |￼Beschreibung
 	// -----------------------------------------------------------------
 	// 0	  | Die nicht aufgeführten Geschäftsvorfälle sind gesperrt
@@ -35,7 +35,7 @@ type CommonUserParameterDataV2 struct {
 	//        | der UPD keine Aussage darüber möglich, ob diese erlaubt
 	//        | oder gesperrt sind. Diese Prüfung kann nur online vom
 	//        | Kreditinstitutssystem vorgenommen werden.
-	UPDUsage *element.NumberDataElement
+	UPDUsage *element.NumberDataElement `hbci:"mandatory"`
 }
 
 func (c *CommonUserParameterDataV2) Version() int         { return 2 }
@@ -61,8 +61,8 @@ func (c *CommonUserParameterDataV2) UserParameterData() domain.UserParameterData
 
 type CommonUserParameterDataV3 struct {
 	Segment
-	UserID     *element.IdentificationDataElement
-	UPDVersion *element.NumberDataElement
+	UserID     *element.IdentificationDataElement `hbci:"mandatory"`
+	UPDVersion *element.NumberDataElement         `hbci:"mandatory"`
 	// Status |￼Beschreibung
 	// -----------------------------------------------------------------
 	// 0	  | Die nicht aufgeführten Geschäftsvorfälle sind gesperrt
@@ -71,7 +71,7 @@ type CommonUserParameterDataV3 struct {
 	//        | der UPD keine Aussage darüber möglich, ob diese erlaubt
 	//        | oder gesperrt sind. Diese Prüfung kann nur online vom
 	//        | Kreditinstitutssystem vorgenommen werden.
-	UPDUsage         *element.NumberDataElement
+	UPDUsage         *element.NumberDataElement `hbci:"mandatory"`
 	UserName         *element.AlphaNumericDataElement
 	CommonExtensions *element.AlphaNumericDataElement
 }
@@ -101,8 +101,8 @@ func (c *CommonUserParameterDataV3) UserParameterData() domain.UserParameterData
 
 type CommonUserParameterDataV4 struct {
 	Segment
-	UserID     *element.IdentificationDataElement
-	UPDVersion *element.NumberDataElement
+	UserID     *element.IdentificationDataElement `hbci:"mandatory"`
+	UPDVersion *element.NumberDataElement         `hbci:"mandatory"`
 	// Status |￼Beschreibung
 	// -----------------------------------------------------------------
 	// 0	  | Die nicht aufgeführten Geschäftsvorfälle sind gesperrt
@@ -111,7 +111,7 @@ type CommonUserParameterDataV4 struct {
 	//        | der UPD keine Aussage darüber möglich, ob diese erlaubt
 	//        | oder gesperrt sind. Diese Prüfung kann nur online vom
 	//        | Kreditinstitutssystem vorgenommen werden.
-	UPDUsage         *element.NumberDataElement
+	UPDUsage         *element.NumberDataElement `hbci:"mandatory"`
 	UserName         *element.AlphaNumericDataElement
 	CommonExtensions *element.AlphaNumericDataElement
 }
-- 
2.43.0


From d33b28e37ee877bd81a89a1dbe4582b417629700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:05 +0000
Subject: [PATCH 35/63] fix: read compression methods, certificates, custom
 signatures and disposal eligible persons

---
 element/account.go             | 11 +++++++++++
 element/bank_parameter_data.go | 19 +++++++++++++++++++
 element/data_element_type.go   |  1 +
 element/pin.go                 | 26 ++++++++++++++++++++++++++
 element/signature.go           | 19 +++++++++++++++++++
 5 files changed, 76 insertions(+)

diff --git a/element/account.go b/element/account.go
index ef118f5..1c05335 100644
--- a/element/account.go
+++ b/element/account.go
@@ -5,6 +5,17 @@ type DisposalEligiblePersonsDataElement struct {
 	DataElement
 }
 
+// UnmarshalHBCI unmarshals value into d
+func (d *DisposalEligiblePersonsDataElement) UnmarshalHBCI(value []byte) error {
+	persons := &TextDataElement{}
+	err := persons.UnmarshalHBCI(value)
+	if err != nil {
+		return err
+	}
+	d.DataElement = persons
+	return nil
+}
+
 // DisposalEligiblePersonDataElement represents a DataElement
 type DisposalEligiblePersonDataElement struct {
 	DataElement
diff --git a/element/bank_parameter_data.go b/element/bank_parameter_data.go
index 6729a7f..f443807 100644
--- a/element/bank_parameter_data.go
+++ b/element/bank_parameter_data.go
@@ -186,6 +186,25 @@ type SupportedCompressionMethodsDataElement struct {
 	*arrayElementGroup
 }
 
+// UnmarshalHBCI unmarshals value into s
+func (s *SupportedCompressionMethodsDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	methods := make([]DataElement, len(elements))
+	for i, elem := range elements {
+		method := &AlphaNumericDataElement{}
+		err = method.UnmarshalHBCI(elem)
+		if err != nil {
+			return err
+		}
+		methods[i] = method
+	}
+	s.arrayElementGroup = newArrayElementGroup(supportedCompressionMethodsDEG, 1, 9, methods)
+	return nil
+}
+
 // A BusinessTransactionParameter defines parameters for a specific business
 // transaction.
 type BusinessTransactionParameter struct {
diff --git a/element/data_element_type.go b/element/data_element_type.go
index 4fb9f88..ed6440f 100644
--- a/element/data_element_type.go
+++ b/element/data_element_type.go
@@ -54,6 +54,7 @@ const (
 	certificateDEG
 	publicKeyDEG
 	supportedLanguagesDEG
+	supportedCompressionMethodsDEG
 	supportedHBCIVersionDEG
 	communicationParameterDEG
 	supportedSecurityMethodDEG
diff --git a/element/pin.go b/element/pin.go
index bd837e4..c8cfd09 100644
--- a/element/pin.go
+++ b/element/pin.go
@@ -30,6 +30,32 @@ type CustomSignatureDataElement struct {
 	*PinTanDataElement
 }
 
+// UnmarshalHBCI unmarshals value into the DataElement
+func (c *CustomSignatureDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	if len(elements) == 0 {
+		return fmt.Errorf("malformed marshaled value")
+	}
+	p := &PinTanDataElement{PIN: &AlphaNumericDataElement{}}
+	err = p.PIN.UnmarshalHBCI(elements[0])
+	if err != nil {
+		return err
+	}
+	if len(elements) > 1 && len(elements[1]) > 0 {
+		p.TAN = &AlphaNumericDataElement{}
+		err = p.TAN.UnmarshalHBCI(elements[1])
+		if err != nil {
+			return err
+		}
+	}
+	p.DataElement = NewDataElementGroup(pinTanDEG, 2, p)
+	c.PinTanDataElement = p
+	return nil
+}
+
 // NewPinTan returns a new PinTanDataElement for pin and tan
 func NewPinTan(pin, tan string) *PinTanDataElement {
 	p := &PinTanDataElement{
diff --git a/element/signature.go b/element/signature.go
index b134dda..c43f1c5 100644
--- a/element/signature.go
+++ b/element/signature.go
@@ -429,3 +429,22 @@ func (c *CertificateDataElement) GroupDataElements() []DataElement {
 		c.Content,
 	}
 }
+
+// UnmarshalHBCI unmarshals value into c
+func (c *CertificateDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	if len(elements) < 2 {
+		return fmt.Errorf("malformed marshaled value")
+	}
+	c.DataElement = NewDataElementGroup(certificateDEG, 2, c)
+	c.CertificateType = &NumberDataElement{}
+	err = c.CertificateType.UnmarshalHBCI(elements[0])
+	if err != nil {
+		return err
+	}
+	c.Content = &BinaryDataElement{}
+	return c.Content.UnmarshalHBCI(elements[1])
+}
-- 
2.43.0


From 81d290d31e3a14c3c1e670ffa2b6fd9bda1489f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:35 +0000
Subject: [PATCH 36/63] fix: report malformed statements and replies instead of
 crashing

---
 element/tan.go                  | 3 +++
 swift/element.go                | 5 +++++
 swift/mt940_unmarshaler.go      | 4 ++++
 swift/unmarshal.go              | 1 +
 transport/middleware/logging.go | 9 +++++++++
 5 files changed, 22 insertions(+)

diff --git a/element/tan.go b/element/tan.go
index 9209400..dd2922e 100644
--- a/element/tan.go
+++ b/element/tan.go
@@ -81,6 +81,9 @@ func (t *Tan2StepSubmissionParameterV6) UnmarshalHBCI(value []byte) error {
 	if err != nil {
 		return err
 	}
+	if len(elements) < 4 {
+		return fmt.Errorf("malformed marshaled value")
+	}
 	oneStepProcessAllowed := &BooleanDataElement{}
 	err = oneStepProcessAllowed.UnmarshalHBCI(elements[0])
 	if err != nil {
diff --git a/swift/element.go b/swift/element.go
index c2a91f2..e5aebeb 100644
--- a/swift/element.go
+++ b/swift/element.go
@@ -3,6 +3,7 @@ package swift
 import (
 	"bytes"
 	"fmt"
+	"sort"
 	"strconv"
 
 	"github.com/mitch000001/go-hbci/charset"
@@ -150,6 +151,9 @@ func (c *CustomFieldTag) Unmarshal(value []byte) error {
 		return err
 	}
 	c.Tag = tag.ID
+	if len(tag.Value) < 3 {
+		return fmt.Errorf("%T: Malformed marshaled value", c)
+	}
 	tID, err := strconv.Atoi(charset.ToUTF8(tag.Value[:3]))
 	if err != nil {
 		return err
@@ -165,6 +169,7 @@ func (c *CustomFieldTag) Unmarshal(value []byte) error {
 			fields = append(fields, fieldKeyIndex{fieldKey, idx})
 		}
 	}
+	sort.Slice(fields, func(i, j int) bool { return fields[i].index < fields[j].index })
 
 	getFieldValue := func(currentFieldKeyIndex, nextFieldKeyIndex int) string {
 		return charset.ToUTF8(
diff --git a/swift/mt940_unmarshaler.go b/swift/mt940_unmarshaler.go
index 14b7db8..8021a40 100644
--- a/swift/mt940_unmarshaler.go
+++ b/swift/mt940_unmarshaler.go
@@ -105,5 +105,9 @@ func (m *MT940) Unmarshal(value []byte) error {
 		}
 	}
 
+	if len(m.Transactions) != 0 && (m.Account == nil || m.StartingBalance == nil || m.ClosingBalance == nil) {
+		return errors.New("malformed marshaled value: transactions without account or balances")
+	}
+
 	return nil
 }
diff --git a/swift/unmarshal.go b/swift/unmarshal.go
index 0179432..d9d34ef 100644
--- a/swift/unmarshal.go
+++ b/swift/unmarshal.go
@@ -56,6 +56,7 @@ func (m *mt940MessagesUnmarshaler) UnmarshalMT940(value []byte) ([]domain.Accoun
 		err = tr.Unmarshal(message)
 		if err != nil {
 			errors = append(errors, fmt.Errorf("error unmarshaling MT940: %w", err))
+			continue
 		}
 		transactions = append(transactions, tr.AccountTransactions()...)
 	}
diff --git a/transport/middleware/logging.go b/transport/middleware/logging.go
index 0621daa..2cb96ee 100644
--- a/transport/middleware/logging.go
+++ b/transport/middleware/logging.go
@@ -135,6 +135,9 @@ func extractEncryptedMessage(response *transport.Response) (*message.EncryptedMe
 	}
 	header := &segment.MessageHeaderSegment{}
 	err := header.UnmarshalHBCI(messageHeader)
+	if err == nil {
+		err = segment.CheckMandatoryElements(header)
+	}
 	if err != nil {
 		return nil, fmt.Errorf("error while unmarshaling message header: %v", err)
 	}
@@ -147,6 +150,9 @@ func extractEncryptedMessage(response *transport.Response) (*message.EncryptedMe
 	if encryptedData != nil {
 		encSegment := &segment.EncryptedDataSegment{}
 		err = encSegment.UnmarshalHBCI(encryptedData)
+		if err == nil {
+			err = segment.CheckMandatoryElements(encSegment)
+		}
 		if err != nil {
 			return nil, fmt.Errorf("Error while unmarshaling encrypted data: %v", err)
 		}
@@ -164,6 +170,9 @@ func extractUnencryptedMessage(response *transport.Response) (message.BankMessag
 	}
 	header := &segment.MessageHeaderSegment{}
 	err := header.UnmarshalHBCI(messageHeader)
+	if err == nil {
+		err = segment.CheckMandatoryElements(header)
+	}
 	if err != nil {
 		return nil, fmt.Errorf("error while unmarshaling message header: %v", err)
 	}
-- 
2.43.0


From 0bffd12f841a6d93ee15c514ce2b1d244b29c3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:53 +0000
Subject: [PATCH 37/63] fix: accept a statement without account if it has no
 transactions

---
 swift/mt940.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/swift/mt940.go b/swift/mt940.go
index 4aad6c8..789f425 100644
--- a/swift/mt940.go
+++ b/swift/mt940.go
@@ -28,6 +28,9 @@ type MT940 struct {
 
 // AccountTransactions returns a slice of account transactions created from m
 func (m *MT940) AccountTransactions() []domain.AccountTransaction {
+	if len(m.Transactions) == 0 {
+		return nil
+	}
 	accountConnection := domain.AccountConnection{BankID: m.Account.BankID, AccountID: m.Account.AccountID, CountryCode: 280}
 	var transactions []domain.AccountTransaction
 	for _, transactionSequence := range m.Transactions {
-- 
2.43.0


From 47962055b66b680fa27412f991c714470cbcb6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:13 +0000
Subject: [PATCH 38/63] fix: return an error for texts which cannot be encoded

Text and alphanumeric elements containing characters which do not exist in
ISO 8859-1 made the client panic while marshaling. Marshaling reports an error
now. A message which could not be marshaled does not use up a message number
anymore, so that the following end message carries the next number.
---
 charset/convert.go      | 17 ++++++++++++++++-
 dialog/dialog.go        | 14 +++++++++-----
 element/data_element.go |  6 ++----
 3 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/charset/convert.go b/charset/convert.go
index 49df4c1..eb78c4a 100644
--- a/charset/convert.go
+++ b/charset/convert.go
@@ -1,6 +1,10 @@
 package charset
 
-import "golang.org/x/text/encoding/charmap"
+import (
+	"fmt"
+
+	"golang.org/x/text/encoding/charmap"
+)
 
 func mustConvert(b []byte, err error) []byte {
 	if err != nil {
@@ -34,3 +38,14 @@ func ToISO8859_1(utf8String string) []byte {
 	// TODO: propagate errors
 	return mustConvert(encoder.Bytes([]byte(utf8String)))
 }
+
+// EncodeISO8859_1 encodes the provided utf8String to the ISO8859_1 encoding.
+// If utf8String contains characters which do not exist in this encoding, an
+// error is returned.
+func EncodeISO8859_1(utf8String string) ([]byte, error) {
+	encoded, err := charmap.ISO8859_1.NewEncoder().Bytes([]byte(utf8String))
+	if err != nil {
+		return nil, fmt.Errorf("charset: cannot encode as ISO 8859-1: %w", err)
+	}
+	return encoded, nil
+}
diff --git a/dialog/dialog.go b/dialog/dialog.go
index 19bb442..2f3967e 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -115,12 +115,9 @@ func (d *dialog) SendMessage(clientMessage message.HBCIMessage) (message.BankMes
 	}
 	defer func() { logErr(d.end()) }()
 	requestMessage := d.newBasicMessage(clientMessage)
-	signedMessage, err := requestMessage.Sign(d.signatureProvider)
-	if err != nil {
-		return nil, err
-	}
-	encMessage, err := signedMessage.Encrypt(d.cryptoProvider)
+	encMessage, err := d.signAndEncrypt(requestMessage)
 	if err != nil {
+		d.releaseMessageNumber()
 		return nil, err
 	}
 	decryptedMessage, err := d.request(encMessage)
@@ -642,6 +639,7 @@ func (d *dialog) parseUserParameterData(bankMessage message.BankMessage) error {
 func (d *dialog) request(clientMessage message.ClientMessage) (message.BankMessage, error) {
 	marshaledMessage, err := clientMessage.MarshalHBCI()
 	if err != nil {
+		d.releaseMessageNumber()
 		return nil, err
 	}
 	internal.Debug.Printf("Request:\n")
@@ -771,6 +769,12 @@ func (d *dialog) nextMessageNumber() int {
 	return d.messageCount
 }
 
+// releaseMessageNumber makes the number of the last message available again.
+// It must only be called for a message which has not been sent.
+func (d *dialog) releaseMessageNumber() {
+	d.messageCount--
+}
+
 func (d *dialog) dial(message []byte) ([]byte, error) {
 	conn, err := net.Dial("tcp4", d.hbciURL)
 	if err != nil {
diff --git a/element/data_element.go b/element/data_element.go
index e52b92b..0d0a742 100644
--- a/element/data_element.go
+++ b/element/data_element.go
@@ -260,8 +260,7 @@ func (a *AlphaNumericDataElement) String() string {
 
 // MarshalHBCI marshals a into a byte representation ready to be sent over the wire.
 func (a *AlphaNumericDataElement) MarshalHBCI() ([]byte, error) {
-	val := charset.ToISO8859_1(escape(a.basicDataElement.String()))
-	return val, nil
+	return charset.EncodeISO8859_1(escape(a.basicDataElement.String()))
 }
 
 // UnmarshalHBCI unmarshals the given bytes into a
@@ -291,8 +290,7 @@ func (a *TextDataElement) String() string {
 
 // MarshalHBCI marshals a into the HBCI wire format
 func (a *TextDataElement) MarshalHBCI() ([]byte, error) {
-	val := charset.ToISO8859_1(escape(a.basicDataElement.String()))
-	return val, nil
+	return charset.EncodeISO8859_1(escape(a.basicDataElement.String()))
 }
 
 // UnmarshalHBCI unmarshals value into a
-- 
2.43.0


From da8ed4fb2343277f6f707eac090cc1b044c7bf43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:06 +0000
Subject: [PATCH 39/63] fix: return an error for a bank whose URL is not known

Without a URL in the configuration and in the bank directory, a client was
returned which posted its messages, including the PIN, to an empty URL.
---
 client/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client/client.go b/client/client.go
index 4f64c82..06eed21 100644
--- a/client/client.go
+++ b/client/client.go
@@ -58,6 +58,9 @@ func New(config Config) (*Client, error) {
 	} else {
 		url = bankInfo.URL
 	}
+	if url == "" {
+		return nil, fmt.Errorf("no URL known for bank %q", config.BankID)
+	}
 	if config.HBCIVersion > 0 {
 		version, err := config.hbciVersion()
 		if err != nil {
-- 
2.43.0


From 1b5f254c3562290cb6e71d17c4bb7b85ec5e26c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:08 +0000
Subject: [PATCH 40/63] fix: prefer directory entries with a PIN/TAN access

A bank with several entries was taken for one without access if the last one
does not list any.
---
 bankinfo/bank_info.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bankinfo/bank_info.go b/bankinfo/bank_info.go
index b8dd06b..e96a16a 100644
--- a/bankinfo/bank_info.go
+++ b/bankinfo/bank_info.go
@@ -19,11 +19,12 @@ const (
 )
 
 // FindByBankID returns the BankInfo found for the provided bankID. If no value
-// is found an zero value is returned.
+// is found an zero value is returned. Entries without a PIN/TAN access are only
+// returned if there is no other entry for bankID.
 func FindByBankID(bankID string) BankInfo {
 	var bankInfo BankInfo
 	for _, entry := range data {
-		if entry.BankID == bankID {
+		if entry.BankID == bankID && (entry.URL != "" || bankInfo.URL == "") {
 			bankInfo = entry
 		}
 	}
-- 
2.43.0


From 44e6d9e297589b4e08d9a625f20921ec6259b952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:50 +0000
Subject: [PATCH 41/63] fix: remove blanks from the addresses of the bank
 directory

The listed address of one bank contains a blank, so that every request to it
failed.
---
 bankinfo/data.go   | 2 +-
 bankinfo/parser.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bankinfo/data.go b/bankinfo/data.go
index ec43ca5..8d35447 100644
--- a/bankinfo/data.go
+++ b/bankinfo/data.go
@@ -7567,7 +7567,7 @@ var data = []BankInfo{
 		BankID:        "30010444",
 		BIC:           "IKBDDEDDXXX",
 		VersionNumber: "",
-		URL:           "https:// banking.ikb.de/eBankingFinTS/",
+		URL:           "https://banking.ikb.de/eBankingFinTS/",
 		VersionName:   "FinTS V3.0",
 		Institute:     "IKB Deutsche Industriebank",
 		City:          "Düsseldorf",
diff --git a/bankinfo/parser.go b/bankinfo/parser.go
index 11d214d..9796ba8 100644
--- a/bankinfo/parser.go
+++ b/bankinfo/parser.go
@@ -48,7 +48,7 @@ func ParseBankInfos(reader io.Reader) ([]BankInfo, error) {
 			BankID:        strings.TrimSpace(record.Get(bankIdentifierHeader)),
 			BIC:           strings.TrimSpace(record.Get(bicIdentifier)),
 			VersionNumber: strings.TrimSpace(record.Get(versionNumberHeader)),
-			URL:           strings.TrimSpace(record.Get(urlHeader)),
+			URL:           strings.Join(strings.Fields(record.Get(urlHeader)), ""),
 			VersionName:   strings.TrimSpace(record.Get(versionNameHeader)),
 			Institute:     strings.TrimSpace(record.Get(bankInstituteHeader)),
 			City:          strings.TrimSpace(record.Get(cityHeader)),
-- 
2.43.0


From 560067d50bc08892f3da33fc4287926e22d1b00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:57 +0000
Subject: [PATCH 42/63] fix: fill up short account numbers in German IBANs

Account numbers with less than nine digits led to an invalid IBAN, with which
the bank was then asked.
---
 iban/iban.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/iban/iban.go b/iban/iban.go
index 8a6db5c..1ad2cf0 100644
--- a/iban/iban.go
+++ b/iban/iban.go
@@ -25,8 +25,8 @@ func IsValid(input string) bool {
 // It returns only valid german IBANs, as it is hard coded to use german
 // settings.
 func NewGerman(bankID, accountID string) (IBAN, error) {
-	if len(accountID) == (germanAccountIDLength - 1) {
-		accountID = "0" + accountID
+	if n := germanAccountIDLength - len(accountID); n > 0 && accountID != "" {
+		accountID = strings.Repeat("0", n) + accountID
 	}
 
 	bban := fmt.Sprintf("%s%s", bankID, accountID)
-- 
2.43.0


From 5af059b423fab32d4b44777b848f556b21045c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:59 +0000
Subject: [PATCH 43/63] fix: reject account numbers that are no numbers in
 German IBANs

This is what the documentation of NewGerman says.
---
 iban/iban.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/iban/iban.go b/iban/iban.go
index 1ad2cf0..1b032ad 100644
--- a/iban/iban.go
+++ b/iban/iban.go
@@ -25,7 +25,15 @@ func IsValid(input string) bool {
 // It returns only valid german IBANs, as it is hard coded to use german
 // settings.
 func NewGerman(bankID, accountID string) (IBAN, error) {
-	if n := germanAccountIDLength - len(accountID); n > 0 && accountID != "" {
+	for _, r := range accountID {
+		if r < '0' || r > '9' {
+			return "", fmt.Errorf("malformed accountID: must be a number")
+		}
+	}
+	if accountID == "" {
+		return "", fmt.Errorf("malformed accountID: must not be empty")
+	}
+	if n := germanAccountIDLength - len(accountID); n > 0 {
 		accountID = strings.Repeat("0", n) + accountID
 	}
 
-- 
2.43.0


From 4dac4279ac91602fb7e77fd13a819196dd916bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:47 +0000
Subject: [PATCH 44/63] fix: quote all values in the generated bank directory

---
 cmd/bankdata_parser/bankdata_parser.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cmd/bankdata_parser/bankdata_parser.go b/cmd/bankdata_parser/bankdata_parser.go
index 684415f..696e699 100644
--- a/cmd/bankdata_parser/bankdata_parser.go
+++ b/cmd/bankdata_parser/bankdata_parser.go
@@ -81,14 +81,14 @@ package bankinfo
 
 var data = []BankInfo{
 	{{range $element := .}}{
-		BankID: "{{.BankID}}",
-		BIC: "{{.BIC}}",
-		VersionNumber: "{{.VersionNumber}}",
-		URL: "{{.URL}}",
-		VersionName: "{{.VersionName}}",
+		BankID: {{.BankID | printf "%q" }},
+		BIC: {{.BIC | printf "%q" }},
+		VersionNumber: {{.VersionNumber | printf "%q" }},
+		URL: {{.URL | printf "%q" }},
+		VersionName: {{.VersionName | printf "%q" }},
 		Institute: {{.Institute | printf "%q" }},
-		City: "{{.City}}",
-		LastChanged: "{{.LastChanged}}",
+		City: {{.City | printf "%q" }},
+		LastChanged: {{.LastChanged | printf "%q" }},
 	},
 	{{end}}
 }`
-- 
2.43.0


From cbccd02b1670c8f20fe328601660045ed423210f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:57 +0000
Subject: [PATCH 45/63] fix: report errors when closing the generated bank
 directory

---
 cmd/bankdata_parser/bankdata_parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/bankdata_parser/bankdata_parser.go b/cmd/bankdata_parser/bankdata_parser.go
index 696e699..cea0158 100644
--- a/cmd/bankdata_parser/bankdata_parser.go
+++ b/cmd/bankdata_parser/bankdata_parser.go
@@ -55,6 +55,10 @@ func main() {
 		log.Fatalf("Error while writing file: %q", err)
 		os.Exit(1)
 	}
+	if err := goFile.Close(); err != nil {
+		log.Fatalf("Error while closing file: %q", err)
+		os.Exit(1)
+	}
 	os.Exit(0)
 }
 
-- 
2.43.0


From 7c12aedd5c6daebdce3ac0c54e5a183913c07bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 46/63] fix: report booked transaction data which end within a
 statement

Such data were dropped without an error together with the transactions in
them, so that a shortened list was returned as if it were complete.
---
 swift/message_extractor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/swift/message_extractor.go b/swift/message_extractor.go
index ad9bf44..46e6ebc 100644
--- a/swift/message_extractor.go
+++ b/swift/message_extractor.go
@@ -37,6 +37,9 @@ func (m *MessageExtractor) Extract() ([][]byte, error) {
 			current = []byte{}
 		}
 	}
+	if len(current) != 0 {
+		return nil, fmt.Errorf("unexpected end of input: message is not terminated\n(%q)", m.rawSwiftMessage)
+	}
 	result := make([][]byte, len(m.extractedMessages))
 	copy(result, m.extractedMessages)
 	return result, nil
-- 
2.43.0


From e8a74ee83d8a37e40c3ce0c5d74aef8ae1221f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:48 +0000
Subject: [PATCH 47/63] fix: read the security methods a bank supports

Every HISHV segment in the bank parameter data crashed the client, as the
group was unmarshaled into elements which did not exist yet.
---
 element/bank_parameter_data.go | 37 +++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/element/bank_parameter_data.go b/element/bank_parameter_data.go
index f443807..255dd00 100644
--- a/element/bank_parameter_data.go
+++ b/element/bank_parameter_data.go
@@ -42,10 +42,26 @@ func (s *SupportedSecurityMethodDataElement) GroupDataElements() []DataElement {
 	}
 }
 
-// UnmarshalHBCI unmarshals the value to a SupportedSecurityMethodDataElement
+// UnmarshalHBCI unmarshals the value to a SupportedSecurityMethodDataElement.
+// Institutes may name several methods separated by '+', the first one is used.
 func (s *SupportedSecurityMethodDataElement) UnmarshalHBCI(value []byte) error {
+	if i := bytes.IndexByte(value, '+'); i != -1 {
+		value = value[:i]
+	}
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	if len(elements) < 2 {
+		return fmt.Errorf("malformed marshaled value")
+	}
 	s.DataElement = NewDataElementGroup(supportedSecurityMethodDEG, 2, s)
-	return s.DataElement.UnmarshalHBCI(value)
+	s.MethodCode = &AlphaNumericDataElement{}
+	if err := s.MethodCode.UnmarshalHBCI(elements[0]); err != nil {
+		return err
+	}
+	s.Versions = &SecurityMethodVersionsDataElement{}
+	return s.Versions.UnmarshalHBCI(bytes.Join(elements[1:], []byte(":")))
 }
 
 // NewSecurityMethodVersions returns a new SecurityMethodVersionsDataElement
@@ -72,9 +88,20 @@ func (s *SecurityMethodVersionsDataElement) Elements() []DataElement {
 
 // UnmarshalHBCI unmarshals the value to a SecurityMethodVersionsDataElement
 func (s *SecurityMethodVersionsDataElement) UnmarshalHBCI(value []byte) error {
-	dataElements := make([]DataElement, 9)
-	s.arrayElementGroup = newArrayElementGroup(securityMethodVersionGDEG, 1, 9, dataElements)
-	return s.arrayElementGroup.UnmarshalHBCI(value)
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	versions := make([]DataElement, len(elements))
+	for i, elem := range elements {
+		version := &NumberDataElement{}
+		if err := version.UnmarshalHBCI(elem); err != nil {
+			return err
+		}
+		versions[i] = version
+	}
+	s.arrayElementGroup = newArrayElementGroup(securityMethodVersionGDEG, 1, 9, versions)
+	return nil
 }
 
 // Versions returns the possible versions packaged in a slice of
-- 
2.43.0


From fcc1540568aec1d704ed821aac1bb3b274a917d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:01 +0000
Subject: [PATCH 48/63] fix: accept two-step procedures without a number of TAN
 media

The element is optional. Parameter data which leave it empty or out were
rejected, so that no dialog with such a bank succeeded.
---
 element/tan.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/element/tan.go b/element/tan.go
index dd2922e..dcd1d0d 100644
--- a/element/tan.go
+++ b/element/tan.go
@@ -141,6 +141,10 @@ func (t *Tan2StepSubmissionProcessParametersV6) UnmarshalHBCI(value []byte) erro
 	if err != nil {
 		return err
 	}
+	if len(elements)%21 == 20 {
+		// the last element of a process is optional
+		elements = append(elements, []byte{})
+	}
 	if len(elements)%21 != 0 {
 		return fmt.Errorf("malformed marshaled value: value pairs not even")
 	}
@@ -271,11 +275,14 @@ func (t *Tan2StepSubmissionProcessParameterV6) UnmarshalHBCI(value []byte) error
 		return fmt.Errorf("error unmarshaling HHD_UCResponseRequired: %v", err)
 	}
 	t.HHD_UCResponseRequired = &HHD_UCResponseRequired
-	var SupportedActiveTanMedia NumberDataElement
-	if err := SupportedActiveTanMedia.UnmarshalHBCI(iter.Next()); err != nil {
-		return fmt.Errorf("error unmarshaling SupportedActiveTanMedia: %v", err)
+	// the number of media is optional
+	if value := iter.Next(); len(value) > 0 {
+		var SupportedActiveTanMedia NumberDataElement
+		if err := SupportedActiveTanMedia.UnmarshalHBCI(value); err != nil {
+			return fmt.Errorf("error unmarshaling SupportedActiveTanMedia: %v", err)
+		}
+		t.SupportedActiveTanMedia = &SupportedActiveTanMedia
 	}
-	t.SupportedActiveTanMedia = &SupportedActiveTanMedia
 	t.DataElement = NewGroupDataElementGroup(pinTanBusinessTransactionParameterGDEG, 2, t)
 	return nil
 }
-- 
2.43.0


From e60ed634cd458f62a59cc2152bfe6f64e6600a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:02 +0000
Subject: [PATCH 49/63] fix: accept PIN/TAN parameters without PIN and TAN
 lengths

The lengths are optional. Parameter data which leave them empty were rejected,
so that no dialog with such a bank succeeded.
---
 element/pin.go | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/element/pin.go b/element/pin.go
index c8cfd09..9f46ab0 100644
--- a/element/pin.go
+++ b/element/pin.go
@@ -140,21 +140,24 @@ func (t *PinTanSpecificParamDataElement) UnmarshalHBCI(value []byte) error {
 		return err
 	}
 	iter := internal.NewIterator(elements)
-	var PinMinLength NumberDataElement
-	if err := PinMinLength.UnmarshalHBCI(iter.Next()); err != nil {
-		return fmt.Errorf("error unmarshaling PinMinLength: %v", err)
+	if value := iter.Next(); len(value) > 0 {
+		t.PinMinLength = &NumberDataElement{}
+		if err := t.PinMinLength.UnmarshalHBCI(value); err != nil {
+			return fmt.Errorf("error unmarshaling PinMinLength: %v", err)
+		}
 	}
-	t.PinMinLength = &PinMinLength
-	var PinMaxLength NumberDataElement
-	if err := PinMaxLength.UnmarshalHBCI(iter.Next()); err != nil {
-		return fmt.Errorf("error unmarshaling PinMaxLength: %v", err)
+	if value := iter.Next(); len(value) > 0 {
+		t.PinMaxLength = &NumberDataElement{}
+		if err := t.PinMaxLength.UnmarshalHBCI(value); err != nil {
+			return fmt.Errorf("error unmarshaling PinMaxLength: %v", err)
+		}
 	}
-	t.PinMaxLength = &PinMaxLength
-	var TanMaxLength NumberDataElement
-	if err := TanMaxLength.UnmarshalHBCI(iter.Next()); err != nil {
-		return fmt.Errorf("error unmarshaling TanMaxLength: %v", err)
+	if value := iter.Next(); len(value) > 0 {
+		t.TanMaxLength = &NumberDataElement{}
+		if err := t.TanMaxLength.UnmarshalHBCI(value); err != nil {
+			return fmt.Errorf("error unmarshaling TanMaxLength: %v", err)
+		}
 	}
-	t.TanMaxLength = &TanMaxLength
 	var UserIDText AlphaNumericDataElement
 	if err := UserIDText.UnmarshalHBCI(iter.Next()); err != nil {
 		return fmt.Errorf("error unmarshaling UserIDText: %v", err)
-- 
2.43.0


From 9900b525bd46837c84f61219bc94cbf80d99a7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:29 +0000
Subject: [PATCH 50/63] fix: report a job which is held back until a TAN is
 given as failed

The institute answers such a job with 0030 and without the data. The client
returned an empty list as if there were none.
---
 dialog/dialog.go           | 3 +++
 element/acknowledgement.go | 1 +
 2 files changed, 4 insertions(+)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 2f3967e..1c3ce70 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -133,6 +133,9 @@ func (d *dialog) SendMessage(clientMessage message.HBCIMessage) (message.BankMes
 		if ack.IsError() {
 			errors = append(errors, ack.String())
 		}
+		if ack.Code == element.AcknowledgementTanRequired {
+			errors = append(errors, fmt.Sprintf("the job needs a TAN, which is not supported: %s", ack))
+		}
 	}
 	if len(errors) > 0 {
 		return nil, fmt.Errorf("institute returned errors:\n%s", strings.Join(errors, "\n"))
diff --git a/element/acknowledgement.go b/element/acknowledgement.go
index 6268a1e..5991a4e 100644
--- a/element/acknowledgement.go
+++ b/element/acknowledgement.go
@@ -11,6 +11,7 @@ import (
 // These represent HBCI acknowledgement codes. Codes starting with 3 are meant
 // to be warnings.
 const (
+	AcknowledgementTanRequired               = 30
 	AcknowledgementAdditionalInformation     = 3040
 	AcknowledgementSupportedSecurityFunction = 3920
 )
-- 
2.43.0


From 229a2db8cd8cea8db32f97eda9734a5633892e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:10 +0000
Subject: [PATCH 51/63] fix: remember the security functions described in an
 anonymous dialog

---
 dialog/dialog.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 1c3ce70..3fea999 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -311,6 +311,7 @@ func (d *dialog) anonymousInit() (err error) {
 	if err != nil {
 		return err
 	}
+	d.parseSecurityFunctions(bankMessage)
 
 	err = d.parseUserParameterData(bankMessage)
 	if err != nil {
-- 
2.43.0


From 3d6d8547a10eb509dba5aae8341de2068cf102d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:10 +0000
Subject: [PATCH 52/63] fix: accept PIN/TAN parameters which list no business
 transactions

---
 element/bank_parameter_data.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/element/bank_parameter_data.go b/element/bank_parameter_data.go
index 255dd00..c2cb0a7 100644
--- a/element/bank_parameter_data.go
+++ b/element/bank_parameter_data.go
@@ -278,6 +278,10 @@ func (p *PinTanBusinessTransactionParameters) Val() []domain.PinTanBusinessTrans
 
 // UnmarshalHBCI unmarshals value into the PinTanBusinessTransactionParameters
 func (p *PinTanBusinessTransactionParameters) UnmarshalHBCI(value []byte) error {
+	if len(value) == 0 {
+		p.arrayElementGroup = newArrayElementGroup(pinTanBusinessTransactionParameterGDEG, 0, 0, nil)
+		return nil
+	}
 	elements, err := ExtractElements(value)
 	if err != nil {
 		return err
-- 
2.43.0


From c1d1524e08e6f2317e29ad5c873d936866c88145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:39 +0000
Subject: [PATCH 53/63] fix: banking: never replace an existing configuration
 file

---
 cmd/banking/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/banking/root.go b/cmd/banking/root.go
index f79c629..d658959 100644
--- a/cmd/banking/root.go
+++ b/cmd/banking/root.go
@@ -130,7 +130,7 @@ func initConfig() {
 	// If a config file is found, read it in.
 	if err := viper.ReadInConfig(); err == nil {
 		fmt.Println("Using config file:", viper.ConfigFileUsed())
-	} else {
+	} else if _, notFound := err.(viper.ConfigFileNotFoundError); notFound {
 		// Find home directory.
 		home, err := homedir.Dir()
 		if err != nil {
-- 
2.43.0


From 0614b486214020fe1251c4e341f0506b80dc271e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:17 +0000
Subject: [PATCH 54/63] fix: swift: a value which starts with letters or digits
 may continue on the next line

---
 token/swift_lexer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/token/swift_lexer.go b/token/swift_lexer.go
index d2b4ae0..5fe060f 100644
--- a/token/swift_lexer.go
+++ b/token/swift_lexer.go
@@ -92,7 +92,7 @@ func lexSwiftDigit(l *Lexer) LexerStateFn {
 	l.acceptRun(digits)
 	if l.accept(',') {
 		l.acceptRun(digits)
-		if p := l.peek(); p == carriageReturn {
+		if isTagBoundary(l) {
 			l.emit(SWIFT_DECIMAL)
 			return lexSwiftStart
 		}
@@ -113,6 +113,9 @@ func lexSwiftAlpha(l *Lexer) LexerStateFn {
 		return lexSwiftCharacter
 	case r == carriageReturn:
 		l.backup()
+		if !isTagBoundary(l) { // the value continues on the next line
+			return lexSwiftAlphaNumeric
+		}
 		l.emit(SWIFT_ALPHA)
 		return lexSwiftStart
 	case r == eof:
@@ -132,6 +135,9 @@ func lexSwiftCharacter(l *Lexer) LexerStateFn {
 		return lexSwiftCharacter
 	case r == carriageReturn:
 		l.backup()
+		if !isTagBoundary(l) { // the value continues on the next line
+			return lexSwiftAlphaNumeric
+		}
 		l.emit(SWIFT_CHARACTER)
 		return lexSwiftStart
 	case r == eof:
-- 
2.43.0


From c74d5ccb6b59846fe8cd2425e27a0566f32eddbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:42 +0000
Subject: [PATCH 55/63] fix: domain: an encryption key keeps its modulus and
 exponent

---
 domain/key.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/domain/key.go b/domain/key.go
index 696c712..9aa32da 100644
--- a/domain/key.go
+++ b/domain/key.go
@@ -193,10 +193,10 @@ func (r *RSAKey) CanEncrypt() bool {
 // NewEncryptionKey creates a new RSA encryption key
 func NewEncryptionKey(modulus, exponent []byte) *PublicKey {
 	p := &PublicKey{
-		Type: "V",
+		Type:     "V",
+		Modulus:  append([]byte(nil), modulus...),
+		Exponent: append([]byte(nil), exponent...),
 	}
-	copy(p.Modulus, modulus)
-	copy(p.Exponent, exponent)
 	mod := new(big.Int).SetBytes(modulus)
 	exp := new(big.Int).SetBytes(exponent)
 	pubKey := rsa.PublicKey{
-- 
2.43.0


From 6ed1eb276d6f9633777bce3f02c2374d93613a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:25 +0000
Subject: [PATCH 56/63] fix: message: the signature covers the bytes which are
 sent

---
 message/message.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/message/message.go b/message/message.go
index fc04b12..e16ae13 100644
--- a/message/message.go
+++ b/message/message.go
@@ -239,11 +239,20 @@ func (b *BasicMessage) Sign(provider SignatureProvider) (*BasicSignedMessage, er
 	provider.WriteSignatureHeader(b.SignatureBegin)
 	b.SignatureEnd = b.hbciVersion.SignatureEnd()
 	b.SetSegmentPositions()
+	// the signature covers the bytes which are sent
 	var buffer bytes.Buffer
-	buffer.WriteString(b.SignatureBegin.String())
+	sigBytes, err := b.SignatureBegin.MarshalHBCI()
+	if err != nil {
+		return nil, err
+	}
+	buffer.Write(sigBytes)
 	for _, segment := range b.HBCIMessage.HBCISegments() {
 		if !reflect.ValueOf(segment).IsNil() {
-			buffer.WriteString(segment.String())
+			segBytes, err := segment.MarshalHBCI()
+			if err != nil {
+				return nil, err
+			}
+			buffer.Write(segBytes)
 		}
 	}
 	sig, err := provider.Sign(buffer.Bytes())
-- 
2.43.0


From afaf936d3967840c016d5c79800518b6d67efced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:07 +0000
Subject: [PATCH 57/63] fix: client: the account information query prints all
 the institute delivers

---
 client/client.go | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/client/client.go b/client/client.go
index 06eed21..8c8d9ef 100644
--- a/client/client.go
+++ b/client/client.go
@@ -241,18 +241,32 @@ func (c *Client) AccountInformation(account domain.AccountConnection, allAccount
 		return err
 	}
 	accountInformationRequest := segment.NewAccountInformationRequestSegmentV1(account, allAccounts)
-	decryptedMessage, err := c.pinTanDialog.SendMessage(
-		message.NewHBCIMessage(c.hbciVersion, c.hbciVersion.TanProcess4Request(segment.IdentificationID), accountInformationRequest),
-	)
-	if err != nil {
-		return err
+	var accountInfos [][]byte
+	for {
+		decryptedMessage, err := c.pinTanDialog.SendMessage(
+			message.NewHBCIMessage(c.hbciVersion, c.hbciVersion.TanProcess4Request(segment.IdentificationID), accountInformationRequest),
+		)
+		if err != nil {
+			return err
+		}
+		accountInfoResponses := decryptedMessage.FindMarshaledSegments("HIKIF")
+		if len(accountInfoResponses) == 0 {
+			return fmt.Errorf("malformed response: expected HIKIF segment")
+		}
+		accountInfos = append(accountInfos, accountInfoResponses...)
+		continuationReference, err := continuationReferenceFrom(decryptedMessage)
+		if err != nil {
+			return err
+		}
+		if continuationReference == "" {
+			break
+		}
+		accountInformationRequest.SetContinuationMark(continuationReference)
 	}
-	accountInfoResponse := decryptedMessage.FindMarshaledSegment("HIKIF")
-	if accountInfoResponse != nil {
-		fmt.Printf("Account Info: %s\n", accountInfoResponse)
-		return nil
+	for _, accountInfo := range accountInfos {
+		fmt.Printf("Account Info: %s\n", accountInfo)
 	}
-	return fmt.Errorf("malformed response: expected HIKIF segment")
+	return nil
 }
 
 // AccountBalances retrieves the balance for the provided account.
-- 
2.43.0


From f363c1b33f56a000cf136d97340415b348bff1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:59 +0000
Subject: [PATCH 58/63] fix: dialog: the answer to another message is no answer

---
 dialog/dialog.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 3fea999..93976d7 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -699,9 +699,26 @@ func (d *dialog) request(clientMessage message.ClientMessage) (message.BankMessa
 	if len(bankMessage.Acknowledgements()) == 0 {
 		return nil, fmt.Errorf("malformed response: missing acknowledgement")
 	}
+	if !isAnswer(bankMessage.MessageHeader(), clientMessage.MessageHeader()) {
+		return nil, fmt.Errorf("malformed response: answers another message")
+	}
 	return bankMessage, nil
 }
 
+// isAnswer reports whether the message with the header response answers the
+// request. Institutes name the message they answer; the first message of a
+// dialog is sent before the ID of the dialog is known.
+func isAnswer(response, request *segment.MessageHeaderSegment) bool {
+	if response == nil || response.Ref == nil {
+		return true
+	}
+	ref := response.Ref.Val()
+	if ref.MessageNumber != request.Number.Val() {
+		return false
+	}
+	return request.DialogID.Val() == initialDialogID || ref.DialogID == request.DialogID.Val()
+}
+
 // isComplete reports whether the response ends with a message end segment. A
 // response without it was cut short.
 func isComplete(response *transport.Response) bool {
-- 
2.43.0


From 42793e31f8242d56eb2f3d874cf0d81ae6fca5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:08 +0000
Subject: [PATCH 59/63] fix: transport: a message is not sent again to where a
 redirect points

---
 transport/https/https.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/transport/https/https.go b/transport/https/https.go
index a32cb31..16aefba 100644
--- a/transport/https/https.go
+++ b/transport/https/https.go
@@ -46,7 +46,15 @@ func (h *HTTPSBase64Transport) Do(request *transport.Request) (*transport.Respon
 	if err != nil {
 		return nil, err
 	}
-	httpResponse, err := h.httpClient.Post(request.URL, "application/vnd.hbci", &buf)
+	httpRequest, err := http.NewRequest(http.MethodPost, request.URL, &buf)
+	if err != nil {
+		return nil, err
+	}
+	httpRequest.Header.Set("Content-Type", "application/vnd.hbci")
+	// The message is for the requested URL only, an answer which redirects it
+	// must not lead to the message being sent again to somewhere else.
+	httpRequest.GetBody = nil
+	httpResponse, err := h.httpClient.Do(httpRequest)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From af41e3f5be7314de3514036d5355bc1ad8038adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:24 +0000
Subject: [PATCH 60/63] fix: client: a repeated continuation reference is not
 asked for again

---
 client/client.go | 43 +++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/client/client.go b/client/client.go
index 8c8d9ef..bfaf5e7 100644
--- a/client/client.go
+++ b/client/client.go
@@ -180,14 +180,15 @@ func (c *Client) accountTransactions(requestBuilder func() (segment.AccountTrans
 		return nil, fmt.Errorf("error building request: %w", err)
 	}
 	accountTransactionRequest.SetTransactionRange(timeframe)
-	return c.accountTransactionPages(accountTransactionRequest, continuationReference)
+	return c.accountTransactionPages(accountTransactionRequest, continuationReference, map[string]bool{})
 }
 
 // accountTransactionPages sends the request and continues it as long as the
 // institute announces more data.
-func (c *Client) accountTransactionPages(accountTransactionRequest segment.AccountTransactionRequest, continuationReference string) (*swift.MT940Messages, error) {
+func (c *Client) accountTransactionPages(accountTransactionRequest segment.AccountTransactionRequest, continuationReference string, used map[string]bool) (*swift.MT940Messages, error) {
 	if continuationReference != "" {
 		accountTransactionRequest.SetContinuationReference(continuationReference)
+		used[continuationReference] = true
 	}
 	decryptedMessage, err := c.pinTanDialog.SendMessage(
 		message.NewHBCIMessage(c.hbciVersion, c.hbciVersion.TanProcess4Request(segment.IdentificationID), accountTransactionRequest),
@@ -204,7 +205,7 @@ func (c *Client) accountTransactionPages(accountTransactionRequest segment.Accou
 		}
 		bookedSwiftTransactions = append(bookedSwiftTransactions, seg.BookedSwiftTransactions())
 	}
-	newContinuationReference, err := continuationReferenceFrom(decryptedMessage)
+	newContinuationReference, err := continuationReferenceFrom(decryptedMessage, used)
 	if err != nil {
 		return nil, err
 	}
@@ -212,7 +213,7 @@ func (c *Client) accountTransactionPages(accountTransactionRequest segment.Accou
 	if newContinuationReference == "" {
 		return tx, nil
 	}
-	msg, err := c.accountTransactionPages(accountTransactionRequest, newContinuationReference)
+	msg, err := c.accountTransactionPages(accountTransactionRequest, newContinuationReference, used)
 	if err != nil {
 		return nil, err
 	}
@@ -220,13 +221,18 @@ func (c *Client) accountTransactionPages(accountTransactionRequest segment.Accou
 }
 
 // continuationReferenceFrom returns the reference under which the institute
-// provides the rest of its answer. It is empty if the answer is complete.
-func continuationReferenceFrom(bankMessage message.BankMessage) (string, error) {
+// provides the rest of its answer. It is empty if the answer is complete. An
+// institute which repeats one of the used references would never come to an
+// end.
+func continuationReferenceFrom(bankMessage message.BankMessage, used map[string]bool) (string, error) {
 	for _, ack := range bankMessage.Acknowledgements() {
 		if ack.Code == element.AcknowledgementAdditionalInformation {
 			if len(ack.Params) == 0 || ack.Params[0] == "" {
 				return "", fmt.Errorf("malformed response: missing continuation reference")
 			}
+			if used[ack.Params[0]] {
+				return "", fmt.Errorf("malformed response: repeated continuation reference")
+			}
 			return ack.Params[0], nil
 		}
 	}
@@ -242,6 +248,7 @@ func (c *Client) AccountInformation(account domain.AccountConnection, allAccount
 	}
 	accountInformationRequest := segment.NewAccountInformationRequestSegmentV1(account, allAccounts)
 	var accountInfos [][]byte
+	used := map[string]bool{}
 	for {
 		decryptedMessage, err := c.pinTanDialog.SendMessage(
 			message.NewHBCIMessage(c.hbciVersion, c.hbciVersion.TanProcess4Request(segment.IdentificationID), accountInformationRequest),
@@ -254,7 +261,7 @@ func (c *Client) AccountInformation(account domain.AccountConnection, allAccount
 			return fmt.Errorf("malformed response: expected HIKIF segment")
 		}
 		accountInfos = append(accountInfos, accountInfoResponses...)
-		continuationReference, err := continuationReferenceFrom(decryptedMessage)
+		continuationReference, err := continuationReferenceFrom(decryptedMessage, used)
 		if err != nil {
 			return err
 		}
@@ -262,6 +269,7 @@ func (c *Client) AccountInformation(account domain.AccountConnection, allAccount
 			break
 		}
 		accountInformationRequest.SetContinuationMark(continuationReference)
+		used[continuationReference] = true
 	}
 	for _, accountInfo := range accountInfos {
 		fmt.Printf("Account Info: %s\n", accountInfo)
@@ -281,7 +289,7 @@ func (c *Client) AccountBalances(account domain.AccountConnection, allAccounts b
 	if err != nil {
 		return nil, err
 	}
-	balanceResponses, err := c.accountBalances(accountBalanceRequest)
+	balanceResponses, err := c.accountBalances(accountBalanceRequest, "")
 	if err != nil {
 		return nil, err
 	}
@@ -294,9 +302,14 @@ func (c *Client) AccountBalances(account domain.AccountConnection, allAccounts b
 
 // accountBalances sends the request and continues it as long as the institute
 // announces more data.
-func (c *Client) accountBalances(accountBalanceRequest segment.AccountBalanceRequest) ([]segment.AccountBalanceResponse, error) {
+func (c *Client) accountBalances(accountBalanceRequest segment.AccountBalanceRequest, continuationReference string) ([]segment.AccountBalanceResponse, error) {
 	var balances []segment.AccountBalanceResponse
+	used := map[string]bool{}
 	for {
+		if continuationReference != "" {
+			accountBalanceRequest.SetContinuationMark(continuationReference)
+			used[continuationReference] = true
+		}
 		decryptedMessage, err := c.pinTanDialog.SendMessage(
 			message.NewHBCIMessage(
 				c.hbciVersion,
@@ -318,14 +331,13 @@ func (c *Client) accountBalances(accountBalanceRequest segment.AccountBalanceReq
 		if len(balanceResponses) == 0 {
 			return nil, fmt.Errorf("malformed response: expected HISAL segment")
 		}
-		continuationReference, err := continuationReferenceFrom(decryptedMessage)
+		continuationReference, err = continuationReferenceFrom(decryptedMessage, used)
 		if err != nil {
 			return nil, err
 		}
 		if continuationReference == "" {
 			return balances, nil
 		}
-		accountBalanceRequest.SetContinuationMark(continuationReference)
 	}
 }
 
@@ -341,10 +353,7 @@ func (c *Client) SepaAccountBalances(account domain.InternationalAccountConnecti
 	if err != nil {
 		return nil, err
 	}
-	if continuationReference != "" {
-		accountBalanceRequest.SetContinuationMark(continuationReference)
-	}
-	balanceResponses, err := c.accountBalances(accountBalanceRequest)
+	balanceResponses, err := c.accountBalances(accountBalanceRequest, continuationReference)
 	if err != nil {
 		return nil, err
 	}
@@ -368,7 +377,9 @@ func (c *Client) Status(from, to time.Time, maxEntries int, continuationReferenc
 	}
 	builder := segment.NewBuilder(c.pinTanDialog.SupportedSegments())
 	var statusAcknowledgements []domain.StatusAcknowledgement
+	used := map[string]bool{}
 	for {
+		used[continuationReference] = true
 		statusRequest, err := builder.StatusProtocolRequest(from, to, maxEntries, continuationReference)
 		if err != nil {
 			return nil, err
@@ -386,7 +397,7 @@ func (c *Client) Status(from, to time.Time, maxEntries int, continuationReferenc
 			}
 			statusAcknowledgements = append(statusAcknowledgements, statusResponse.Status())
 		}
-		continuationReference, err = continuationReferenceFrom(bankMessage)
+		continuationReference, err = continuationReferenceFrom(bankMessage, used)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From b7b43613dcc9ead1f37ea48e30717f8f7578a808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:27 +0000
Subject: [PATCH 61/63] fix: client: the account list returned belongs to the
 caller

---
 client/client.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/client/client.go b/client/client.go
index bfaf5e7..6f17bb6 100644
--- a/client/client.go
+++ b/client/client.go
@@ -123,7 +123,10 @@ func (c *Client) Accounts() ([]domain.AccountInformation, error) {
 	if err != nil {
 		return nil, fmt.Errorf("error getting accounts: %w", err)
 	}
-	return c.pinTanDialog.Accounts, nil
+	// The list belongs to the caller, who may change it.
+	accounts := make([]domain.AccountInformation, len(c.pinTanDialog.Accounts))
+	copy(accounts, c.pinTanDialog.Accounts)
+	return accounts, nil
 }
 
 // AccountTransactions return all transactions for the provided timeframe.
-- 
2.43.0


From 3dbe606f04aa38544f5af76fa93b1f7c8c2414b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:11 +0000
Subject: [PATCH 62/63] fix: dialog: an anonymous dialog leaves the user
 parameter data alone

---
 dialog/dialog.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 93976d7..afcb7cb 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -312,11 +312,8 @@ func (d *dialog) anonymousInit() (err error) {
 		return err
 	}
 	d.parseSecurityFunctions(bankMessage)
-
-	err = d.parseUserParameterData(bankMessage)
-	if err != nil {
-		return err
-	}
+	// User parameter data in an anonymous dialog are those of the anonymous
+	// customer, not of the user.
 
 	bankInfoMessage := bankMessage.FindSegment(segment.BankAnnouncementID)
 	if bankInfoMessage != nil {
-- 
2.43.0


From 93620c82eae1d6331c405b4efa4d39ba088acd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:07 +0000
Subject: [PATCH 63/63] fix: output that cannot be written is an error

The banking commands exited with status 0 and AccountInformation reported
success when their result could not be printed, e.g. on a full disk.
---
 client/client.go            | 4 +++-
 cmd/banking/accounts.go     | 2 +-
 cmd/banking/balances.go     | 4 ++--
 cmd/banking/root.go         | 9 +++++++++
 cmd/banking/transactions.go | 4 ++--
 5 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/client/client.go b/client/client.go
index 6f17bb6..cc2b327 100644
--- a/client/client.go
+++ b/client/client.go
@@ -275,7 +275,9 @@ func (c *Client) AccountInformation(account domain.AccountConnection, allAccount
 		used[continuationReference] = true
 	}
 	for _, accountInfo := range accountInfos {
-		fmt.Printf("Account Info: %s\n", accountInfo)
+		if _, err := fmt.Printf("Account Info: %s\n", accountInfo); err != nil {
+			return fmt.Errorf("error printing account information: %w", err)
+		}
 	}
 	return nil
 }
diff --git a/cmd/banking/accounts.go b/cmd/banking/accounts.go
index 7f72e0f..cfe36d2 100644
--- a/cmd/banking/accounts.go
+++ b/cmd/banking/accounts.go
@@ -38,7 +38,7 @@ will list all accounts for the current userID.`,
 			fmt.Println(err)
 			os.Exit(1)
 		}
-		fmt.Print(domain.AccountInfos(accounts))
+		printResult(domain.AccountInfos(accounts).String())
 	},
 }
 
diff --git a/cmd/banking/balances.go b/cmd/banking/balances.go
index 1f35333..3db36e5 100644
--- a/cmd/banking/balances.go
+++ b/cmd/banking/balances.go
@@ -57,7 +57,7 @@ will fetch the balance for account 123456789.`,
 				fmt.Println(err)
 				os.Exit(1)
 			}
-			fmt.Println(domain.AccountBalances(balances).String())
+			printResult(domain.AccountBalances(balances).String() + "\n")
 			return
 		}
 
@@ -66,7 +66,7 @@ will fetch the balance for account 123456789.`,
 			fmt.Println(err)
 			os.Exit(1)
 		}
-		fmt.Println(domain.SepaAccountBalances(balances).String())
+		printResult(domain.SepaAccountBalances(balances).String() + "\n")
 	},
 }
 
diff --git a/cmd/banking/root.go b/cmd/banking/root.go
index d658959..dd22fc6 100644
--- a/cmd/banking/root.go
+++ b/cmd/banking/root.go
@@ -37,6 +37,15 @@ var rootCmd = &cobra.Command{
 	//	Run: func(cmd *cobra.Command, args []string) { },
 }
 
+// printResult prints the result of a command. The command fails if the result
+// cannot be printed.
+func printResult(result string) {
+	if _, err := fmt.Print(result); err != nil {
+		fmt.Fprintln(os.Stderr, err)
+		os.Exit(1)
+	}
+}
+
 // Execute adds all child commands to the root command and sets flags appropriately.
 // This is called by main.main(). It only needs to happen once to the rootCmd.
 func execute() {
diff --git a/cmd/banking/transactions.go b/cmd/banking/transactions.go
index b463520..8aebd03 100644
--- a/cmd/banking/transactions.go
+++ b/cmd/banking/transactions.go
@@ -73,7 +73,7 @@ func fetchTransactions(account domain.InternationalAccountConnection, timeframe
 		fmt.Println(err)
 		os.Exit(1)
 	}
-	fmt.Print(domain.AccountTransactions(transactions))
+	printResult(domain.AccountTransactions(transactions).String())
 }
 
 func fetchSepaTransactions(account domain.InternationalAccountConnection, timeframe domain.Timeframe) {
@@ -82,7 +82,7 @@ func fetchSepaTransactions(account domain.InternationalAccountConnection, timefr
 		fmt.Println(err)
 		os.Exit(1)
 	}
-	fmt.Print(domain.AccountTransactions(transactions))
+	printResult(domain.AccountTransactions(transactions).String())
 }
 
 func init() {
-- 
2.43.0

