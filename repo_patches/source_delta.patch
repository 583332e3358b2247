From 65dbdad4eeb430caf2d81bd4bb252b022672a4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 01/93] fix: replace files rewritten in place atomically and
 notice failed writes

---
 cmd/coin/format.go | 18 +++---------------
 cmd/coin/modify.go | 21 ++++++++-------------
 cmd/coin/test.go   |  1 -
 cmd/coin/utils.go  | 22 ++++++++++++++++++++++
 4 files changed, 33 insertions(+), 29 deletions(-)

diff --git a/cmd/coin/format.go b/cmd/coin/format.go
index a917fbf..d55a4fd 100644
--- a/cmd/coin/format.go
+++ b/cmd/coin/format.go
@@ -3,11 +3,8 @@ package main
 import (
 	"fmt"
 	"io"
-	"os"
-	"path"
 
 	"github.com/mkobetic/coin"
-	"github.com/mkobetic/coin/check"
 )
 
 func init() {
@@ -45,21 +42,12 @@ func (cmd *cmdFormat) execute(f io.Writer) {
 		return
 	}
 	for _, fn := range cmd.Args() {
-		var err error
-		var tf *os.File
 		coin.LoadFile(fn)
 		coin.ResolveTransactions(false)
 		if cmd.replace {
-			tf, err = os.CreateTemp(path.Dir(fn), path.Base(fn))
-			check.NoError(err, "creating temp file")
-			f = tf
-		}
-		cmd.writeTransactions(f)
-		if cmd.replace {
-			err = os.Remove(fn)
-			check.NoError(err, "deleting old file")
-			err = os.Rename(tf.Name(), fn)
-			check.NoError(err, "renaming temp file")
+			replaceFile(fn, cmd.writeTransactions)
+		} else {
+			cmd.writeTransactions(f)
 		}
 		coin.DropTransactions()
 	}
diff --git a/cmd/coin/modify.go b/cmd/coin/modify.go
index 9b726c7..3ec72e7 100644
--- a/cmd/coin/modify.go
+++ b/cmd/coin/modify.go
@@ -4,7 +4,6 @@ import (
 	"fmt"
 	"io"
 	"os"
-	"path"
 	"regexp"
 	"strings"
 
@@ -89,20 +88,16 @@ func (cmd *cmdModify) execute(f io.Writer) {
 	for _, fn := range cmd.Args() {
 		coin.LoadFile(fn)
 		coin.ResolveTransactions(false)
-		tf, err := os.CreateTemp(path.Dir(fn), path.Base(fn))
-		check.NoError(err, "creating temp file")
 		var count int
-		for _, t := range coin.Transactions {
-			if cmd.modify(t) {
-				count++
+		replaceFile(fn, func(tf io.Writer) {
+			for _, t := range coin.Transactions {
+				if cmd.modify(t) {
+					count++
+				}
+				t.Write(tf, false)
+				fmt.Fprintln(tf)
 			}
-			t.Write(tf, false)
-			fmt.Fprintln(tf)
-		}
-		err = os.Remove(fn)
-		check.NoError(err, "deleting old file")
-		err = os.Rename(tf.Name(), fn)
-		check.NoError(err, "renaming temp file")
+		})
 		fmt.Fprintf(os.Stderr, "Updated %d transactions in %s\n", count, fn)
 		coin.DropTransactions()
 	}
diff --git a/cmd/coin/test.go b/cmd/coin/test.go
index 3ce5ecc..7933356 100644
--- a/cmd/coin/test.go
+++ b/cmd/coin/test.go
@@ -169,6 +169,5 @@ func updateTestFile(ts []*coin.Test) {
 	check.NoError(of.Close(), "closing old file")
 	check.NoError(writer.Flush(), "flushing writer")
 	check.NoError(tf.Close(), "closing temp file")
-	check.NoError(os.Remove(fn), "deleting old file")
 	check.NoError(os.Rename(tf.Name(), fn), "renaming temp file %s to %s", tf.Name(), fn)
 }
diff --git a/cmd/coin/utils.go b/cmd/coin/utils.go
index 5261af9..8466dc4 100644
--- a/cmd/coin/utils.go
+++ b/cmd/coin/utils.go
@@ -5,6 +5,8 @@ import (
 	"compress/gzip"
 	"encoding/base64"
 	"io"
+	"os"
+	"path"
 	"sort"
 	"strings"
 
@@ -23,6 +25,26 @@ func decode(name, encoded string) (decoded []byte) {
 	return decoded
 }
 
+// replaceFile replaces the contents of file fn with whatever write produces.
+// The old contents stay in place until the new contents are written out completely.
+func replaceFile(fn string, write func(w io.Writer)) {
+	tf, err := os.CreateTemp(path.Dir(fn), path.Base(fn))
+	check.NoError(err, "creating temp file")
+	w := bufio.NewWriter(tf)
+	write(w)
+	err = w.Flush()
+	if closeErr := tf.Close(); err == nil {
+		err = closeErr
+	}
+	if err == nil {
+		err = os.Rename(tf.Name(), fn)
+	}
+	if err != nil {
+		os.Remove(tf.Name())
+	}
+	check.NoError(err, "replacing %s", fn)
+}
+
 func trim(ps []*coin.Posting, begin, end coin.Date) []*coin.Posting {
 	if !begin.IsZero() {
 		from := sort.Search(len(ps), func(i int) bool {
-- 
2.43.0


From d09165f72db01488f1e7a7572d6af9204afffd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 02/93] fix: cut negative amounts toward zero like positive
 ones

---
 amount.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amount.go b/amount.go
index d07feb6..d9f422e 100644
--- a/amount.go
+++ b/amount.go
@@ -23,7 +23,7 @@ func NewAmountFrac(num, den *big.Int, c *Commodity) *Amount {
 	if c.Decimals > 0 {
 		b.Mul(b, bigPow10(c.Decimals))
 	}
-	b.Div(b, den)
+	b.Quo(b, den)
 	return NewAmount(b, c)
 }
 
@@ -97,7 +97,7 @@ func parseAmount(s string, c *Commodity) (*Amount, error) {
 	decimals := len(ss[1])
 	if c.Decimals != decimals {
 		bi.Mul(bi, bigPow10(c.Decimals))
-		bi.Div(bi, bigPow10(decimals))
+		bi.Quo(bi, bigPow10(decimals))
 	}
 	return NewAmount(bi, c), nil
 }
-- 
2.43.0


From 394eb2abe558e174d9692ce72aa5a95adcf918c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 03/93] fix: converted amounts are in the target commodity with
 its precision

---
 commodity.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commodity.go b/commodity.go
index 4bfa017..7f8f0d6 100644
--- a/commodity.go
+++ b/commodity.go
@@ -203,7 +203,7 @@ func (c *Commodity) convert(amount *Amount, c2 *Commodity, previous []*Commodity
 	prices := c2.Prices[c]
 	if prices != nil {
 		p := prices[0]
-		val := amount.Times(p.Value)
+		val := p.Value.Times(amount)
 		return val, nil
 	}
 	// Otherwise try to follow each c2 price currency
@@ -213,7 +213,7 @@ func (c *Commodity) convert(amount *Amount, c2 *Commodity, previous []*Commodity
 			continue
 		}
 		p := prices[0]
-		val2 := amount.Times(p.Value)
+		val2 := p.Value.Times(amount)
 		val3, err := c.convert(val2, c3, append(previous, c2))
 		if err == nil {
 			return val3, nil
-- 
2.43.0


From 26e82ebd3cfe3adc23fb1473fc04debd4ea4d6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 04/93] fix: conversion path and price listings do not depend
 on map order

---
 cmd/coin/commodities.go |  4 ++--
 commodity.go            | 17 ++++++++++++-----
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/cmd/coin/commodities.go b/cmd/coin/commodities.go
index dbd4c54..66760b9 100644
--- a/cmd/coin/commodities.go
+++ b/cmd/coin/commodities.go
@@ -54,8 +54,8 @@ func (cmd *cmdCommodities) execute(f io.Writer) {
 			fmt.Fprintf(os.Stderr, "%s: unknown commodity\n", cmd.Arg(0))
 			return
 		}
-		for _, ps := range commodity.Prices {
-			for _, p := range ps {
+		for _, cur := range commodity.Currencies() {
+			for _, p := range commodity.Prices[cur] {
 				if cmd.location {
 					fmt.Fprintf(f, "%s %s %s %s\n", p.Time.Format(coin.DateFormat), p.Value.String(), p.Value.SafeId(false), p.Location())
 				} else {
diff --git a/commodity.go b/commodity.go
index 7f8f0d6..3c687d1 100644
--- a/commodity.go
+++ b/commodity.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"math/big"
+	"sort"
 	"strconv"
 	"strings"
 	"unicode"
@@ -44,10 +45,14 @@ func (c *Commodity) AddPrice(p *Price) {
 	c.Prices[p.Currency] = append(c.Prices[p.Currency], p)
 }
 
+// Currencies returns the currencies of known prices of c ordered by id.
 func (c *Commodity) Currencies() (currencies []*Commodity) {
 	for cur := range c.Prices {
 		currencies = append(currencies, cur)
 	}
+	sort.Slice(currencies, func(i, j int) bool {
+		return currencies[i].Id < currencies[j].Id
+	})
 	return currencies
 }
 
@@ -80,16 +85,17 @@ func (c *Commodity) String() string {
 		return c.Id
 	}
 	var prices []string
-	for c, p := range c.Prices {
+	for _, cur := range c.Currencies() {
+		p := c.Prices[cur]
 		format := "%s %a %s [%d]"
-		if c.Decimals > 0 {
-			format = "%s %." + strconv.Itoa(c.Decimals) + "a %s [%d]"
+		if cur.Decimals > 0 {
+			format = "%s %." + strconv.Itoa(cur.Decimals) + "a %s [%d]"
 		}
 		prices = append(prices,
 			fmt.Sprintf(format,
 				p[0].Time.Format(DateFormat),
 				p[0].Value,
-				c.Id,
+				cur.Id,
 				len(p)))
 	}
 	return fmt.Sprintf("%s: %s",
@@ -207,7 +213,8 @@ func (c *Commodity) convert(amount *Amount, c2 *Commodity, previous []*Commodity
 		return val, nil
 	}
 	// Otherwise try to follow each c2 price currency
-	for c3, prices := range c2.Prices {
+	for _, c3 := range c2.Currencies() {
+		prices := c2.Prices[c3]
 		// Check if we tried this currency before to avoid cycles
 		if c3.includedIn(previous) {
 			continue
-- 
2.43.0


From 991b06df1ac8252daf61f01e5291f2f6b7781e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 05/93] fix: refuse account patterns matching accounts without
 a common matching parent

---
 coin.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/coin.go b/coin.go
index fba2d21..2eb425b 100644
--- a/coin.go
+++ b/coin.go
@@ -293,12 +293,10 @@ func MustFindAccount(pattern string) *Account {
 	if len(as) == 1 {
 		return as[0]
 	}
-	parent := as[0].FullName
+	parent := as[0].FullName + ":"
 	all := true
 	for _, a := range as[1:] {
-		if all = all && strings.HasPrefix(a.FullName, parent); all {
-			break
-		}
+		all = all && strings.HasPrefix(a.FullName, parent)
 	}
 	if all {
 		return as[0]
-- 
2.43.0


From a55182717f5223f53fec83569b18a54027b3483e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 06/93] fix: do not load prices.coin twice

---
 coin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coin.go b/coin.go
index 2eb425b..a000d97 100644
--- a/coin.go
+++ b/coin.go
@@ -76,7 +76,7 @@ func LoadAll() {
 	if _, err := os.Stat(TransactionsFile); os.IsNotExist(err) {
 		files, _ := filepath.Glob(filepath.Join(DB, "*.coin"))
 		for _, f := range files {
-			if f != CommoditiesFile && f != AccountsFile {
+			if f != CommoditiesFile && f != AccountsFile && f != PricesFile {
 				LoadFile(f)
 			}
 		}
-- 
2.43.0


From 5fa74a09e6f4c90afbdb58c6f1cc2035615c14ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 07/93] fix: read one character tag values and do not include
 blanks or commas around values

---
 tags.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tags.go b/tags.go
index 00f9d90..351cae9 100644
--- a/tags.go
+++ b/tags.go
@@ -6,7 +6,7 @@ import (
 	"strings"
 )
 
-var tagREX = regexp.MustCompile(`#(?P<key>[\w-/]+)(:\s*(?P<value>[^,]+\S)\s*(,|$))?`)
+var tagREX = regexp.MustCompile(`#(?P<key>[\w-/]+)(:\s*(?P<value>[^,\s]([^,]*[^,\s])?)\s*(,|$))?`)
 var tagREXKey = tagREX.SubexpIndex("key")
 var tagREXValue = tagREX.SubexpIndex("value")
 
-- 
2.43.0


From 40df259471b00c06c1f850dbb8325078c892b847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 08/93] fix: a transaction ends at the first line that is not
 indented

---
 transaction.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/transaction.go b/transaction.go
index c9d187b..c6e0cbe 100644
--- a/transaction.go
+++ b/transaction.go
@@ -119,8 +119,8 @@ func (t *Transaction) Write(w io.Writer, ledger bool) error {
 
 var transactionREX = rex.MustCompile(`%s(\s+\((?P<code>\w+)\))?(\s+(?P<description>\S[^;]*))?(; ?(?P<shortNote>.*))?`, DateREX)
 var postingREX = rex.MustCompile(``+
-	`\s+%s(\s+%s(\s+=\s+%s)?)?(\s*; ?(?P<shortNote>.*))?|`+
-	`\s+; ?(?P<note>.*)`,
+	`^\s+%s(\s+%s(\s+=\s+%s)?)?(\s*; ?(?P<shortNote>.*))?|`+
+	`^\s+; ?(?P<note>.*)`,
 	AccountREX, AmountREX, AmountREX)
 
 func (p *Parser) parseTransaction(fn string) (*Transaction, error) {
-- 
2.43.0


From 2f06c1a73bd972ec996881e414783b6c34b99a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:32 +0000
Subject: [PATCH 09/93] fix: a note after a transaction without description is
 not its description

---
 transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transaction.go b/transaction.go
index c6e0cbe..ef85f03 100644
--- a/transaction.go
+++ b/transaction.go
@@ -117,7 +117,7 @@ func (t *Transaction) Write(w io.Writer, ledger bool) error {
 	return nil
 }
 
-var transactionREX = rex.MustCompile(`%s(\s+\((?P<code>\w+)\))?(\s+(?P<description>\S[^;]*))?(; ?(?P<shortNote>.*))?`, DateREX)
+var transactionREX = rex.MustCompile(`%s(\s+\((?P<code>\w+)\))?(\s+(?P<description>[^\s;][^;]*))?(\s*; ?(?P<shortNote>.*))?`, DateREX)
 var postingREX = rex.MustCompile(``+
 	`^\s+%s(\s+%s(\s+=\s+%s)?)?(\s*; ?(?P<shortNote>.*))?|`+
 	`^\s+; ?(?P<note>.*)`,
-- 
2.43.0


From 5d88b3f11d491d8473597f51bb55dbadba9fc00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 10/93] fix: accept notes of a transaction without postings

---
 transaction.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/transaction.go b/transaction.go
index ef85f03..d17a8b4 100644
--- a/transaction.go
+++ b/transaction.go
@@ -185,7 +185,11 @@ func (p *Parser) parseTransaction(fn string) (*Transaction, error) {
 		t.Postings = append(t.Postings, s)
 	}
 	if len(notes) > 0 {
-		s.Notes = append(s.Notes, notes...)
+		if s == nil {
+			t.Notes = append(t.Notes, notes...)
+		} else {
+			s.Notes = append(s.Notes, notes...)
+		}
 	}
 	t.Tags = ParseTags(t.Notes...)
 	for _, p := range t.Postings {
-- 
2.43.0


From 7f3061daca870952408b4c566b76c7b47cb600c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:53 +0000
Subject: [PATCH 11/93] fix: an empty note line is not a posting

---
 transaction.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/transaction.go b/transaction.go
index d17a8b4..8828434 100644
--- a/transaction.go
+++ b/transaction.go
@@ -145,8 +145,10 @@ func (p *Parser) parseTransaction(fn string) (*Transaction, error) {
 		if match == nil {
 			break
 		}
-		if note := match["note"]; len(note) > 0 {
-			notes = append(notes, string(note))
+		if match["account"] == "" {
+			if note := match["note"]; len(note) > 0 {
+				notes = append(notes, string(note))
+			}
 			continue
 		}
 		var quantity *Amount
-- 
2.43.0


From 2cfa5cbf2cbb328799500da8e7a7c8bcdf707cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 12/93] fix: keep commodity symbols and one character account
 notes

---
 account.go   | 2 +-
 commodity.go | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/account.go b/account.go
index 738ae1f..6cb18e9 100644
--- a/account.go
+++ b/account.go
@@ -83,7 +83,7 @@ var accountNameREX = rex.MustCompile(`([A-Za-z][\w/_\-]*)`)
 var AccountREX = rex.MustCompile(`(?P<account>%s(:%s)*)`, accountNameREX, accountNameREX)
 var accountHeadREX = rex.MustCompile(`account\s+%s`, AccountREX)
 var accountBodyREX = rex.MustCompile(``+
-	`(\s+note\s+(?P<note>\S.+))|`+
+	`(\s+note\s+(?P<note>\S.*))|`+
 	`(\s+commodity\s+%s)|`+
 	`(\s+closed\s+%s)|`+
 	`(\s+ofx_bankid\s+(?P<ofx_bankid>\d+))|`+
diff --git a/commodity.go b/commodity.go
index 3c687d1..529de6c 100644
--- a/commodity.go
+++ b/commodity.go
@@ -131,6 +131,9 @@ func (c *Commodity) Write(w io.Writer, ledger bool) error {
 	if c.NoMarket {
 		lines = append(lines, "  nomarket\n")
 	}
+	if c.Symbol != "" && !ledger {
+		lines = append(lines, "  symbol ", c.Symbol, "\n")
+	}
 	for _, line := range lines {
 		_, err := io.WriteString(w, line)
 		if err != nil {
-- 
2.43.0


From d7bdc72cc14d44c3b9d0fbb93269b988448c1681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:14 +0000
Subject: [PATCH 13/93] fix: modify all the matching postings of a transaction

---
 cmd/coin/modify.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cmd/coin/modify.go b/cmd/coin/modify.go
index 3ec72e7..ea6cd9b 100644
--- a/cmd/coin/modify.go
+++ b/cmd/coin/modify.go
@@ -112,12 +112,13 @@ func (cmd *cmdModify) modify(t *coin.Transaction) (modified bool) {
 	}
 	var hasPostingsMatchingAccount bool
 	for _, p := range t.Postings {
+		matching := cmd.ptag != nil && cmd.ptag.Match(p.Tags)
 		if p.Account == cmd.from {
 			hasPostingsMatchingAccount = true
-			modified = modified || cmd.modifyPosting(p)
+			matching = true
 		}
-		if cmd.ptag != nil && cmd.ptag.Match(p.Tags) {
-			modified = modified || cmd.modifyPosting(p)
+		if matching && cmd.modifyPosting(p) {
+			modified = true
 		}
 	}
 
@@ -126,6 +127,7 @@ func (cmd *cmdModify) modify(t *coin.Transaction) (modified bool) {
 	}
 	if len(cmd.setTTag) > 0 {
 		t.Notes = addTagLine(t.Notes, cmd.setTTag)
+		modified = true
 	}
 	return modified
 }
-- 
2.43.0


From 56c4d23962f74202ee8f12aa7274e29056e637c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:40 +0000
Subject: [PATCH 14/93] fix: a tag added by modify is not part of the value of
 the preceding tag

---
 cmd/coin/modify.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/coin/modify.go b/cmd/coin/modify.go
index ea6cd9b..769bd98 100644
--- a/cmd/coin/modify.go
+++ b/cmd/coin/modify.go
@@ -163,7 +163,12 @@ func addTagLine(notes []string, tagLine string) []string {
 		return append(notes, tagLine)
 	}
 	if len(notes[0])+len(tagLine) < coin.TRANSACTION_LINE_MAX {
-		notes[0] += " " + tagLine
+		separator := " "
+		if len(coin.ParseTags(notes[0])) > 0 {
+			// do not extend the value of the last tag
+			separator = ", "
+		}
+		notes[0] += separator + tagLine
 		return notes
 	}
 	return append(notes, tagLine)
-- 
2.43.0


From 2393d41f412e3b7edc6edf2872c10f36f16545a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 15/93] fix: apply inverted payee filter to all the accounts of
 a register

---
 cmd/coin/register.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmd/coin/register.go b/cmd/coin/register.go
index 7823fc7..8a51b0f 100644
--- a/cmd/coin/register.go
+++ b/cmd/coin/register.go
@@ -180,12 +180,13 @@ func (cmd *cmdRegister) trim(ps []*coin.Posting) postings {
 	ps = trim(ps, cmd.begin, cmd.end)
 	if len(cmd.payee) > 0 {
 		inverted := false
-		if cmd.payee[0] == '!' {
+		payee := cmd.payee
+		if payee[0] == '!' {
 			inverted = true
-			cmd.payee = cmd.payee[1:]
+			payee = payee[1:]
 		}
 		var pps []*coin.Posting
-		r := regexp.MustCompile("(?i)" + cmd.payee)
+		r := regexp.MustCompile("(?i)" + payee)
 		for _, p := range ps {
 			if match := r.MatchString(p.Transaction.Description); match && !inverted || !match && inverted {
 				pps = append(pps, p)
-- 
2.43.0


From dd055dbd461057e55cabb5e3d266402645455432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 16/93] fix: register shows transactions with a single posting

---
 cmd/coin/postings.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/cmd/coin/postings.go b/cmd/coin/postings.go
index f3d2483..8aa731c 100644
--- a/cmd/coin/postings.go
+++ b/cmd/coin/postings.go
@@ -31,11 +31,21 @@ func (ps postings) widths(acctPrefix string) (widths [4]int) {
 		widths[0] = max(widths[0], len(p.Transaction.Description))
 		widths[1] = max(widths[1], len(strings.TrimPrefix(p.Account.FullName, acctPrefix)))
 		widths[2] = max(widths[2], p.Quantity.Width(p.Account.Commodity.Decimals))
-		widths[3] = max(widths[3], len(p.Transaction.Other(p).Account.FullName))
+		widths[3] = max(widths[3], len(otherAccountName(p)))
 	}
 	return widths
 }
 
+// otherAccountName returns the name of the account on the other side of the posting,
+// empty if it is the only posting of its transaction.
+func otherAccountName(p *coin.Posting) string {
+	other := p.Transaction.Other(p)
+	if other == nil {
+		return ""
+	}
+	return other.Account.FullName
+}
+
 func (ps postings) totals(com *coin.Commodity) (ts []*coin.Amount) {
 	total := coin.NewZeroAmount(com)
 	for _, p := range ps {
@@ -71,7 +81,7 @@ func (ps postings) print(f io.Writer, opts *options) {
 		args := []interface{}{
 			s.Transaction.Posted.Format(coin.DateFormat),
 			widths[0], s.Transaction.Description,
-			widths[3], coin.ShortenAccountName(strings.TrimPrefix(s.Transaction.Other(s).Account.FullName, opts.Prefix()), opts.MaxAcct()),
+			widths[3], coin.ShortenAccountName(strings.TrimPrefix(otherAccountName(s), opts.Prefix()), opts.MaxAcct()),
 			widths[2], s.Quantity,
 			tWidth, totals[i],
 			s.Account.CommodityId,
@@ -114,7 +124,7 @@ func (ps postings) printLong(f io.Writer, opts *options) {
 			s.Transaction.Posted.Format(coin.DateFormat),
 			widths[0], s.Transaction.Description,
 			widths[1], coin.ShortenAccountName(strings.TrimPrefix(s.Account.FullName, opts.Prefix()), opts.MaxAcct()),
-			widths[3], coin.ShortenAccountName(strings.TrimPrefix(s.Transaction.Other(s).Account.FullName, opts.Prefix()), opts.MaxAcct()),
+			widths[3], coin.ShortenAccountName(strings.TrimPrefix(otherAccountName(s), opts.Prefix()), opts.MaxAcct()),
 			widths[2], s.Quantity,
 			tWidth, totals[i],
 			s.Account.CommodityId,
-- 
2.43.0


From e68d40df1bdb7b6ff50a76af3fc96c7929dabb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 17/93] fix: merge duplicate transactions into the one that is
 kept

---
 transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transaction.go b/transaction.go
index 8828434..54111e3 100644
--- a/transaction.go
+++ b/transaction.go
@@ -53,7 +53,7 @@ func (transactions TransactionsByTime) Less(i, j int) bool {
 func (transactions TransactionsByTime) FindEqual(t *Transaction) *Transaction {
 	for _, t2 := range transactions {
 		if t2.IsEqual(t) {
-			return t
+			return t2
 		}
 	}
 	return nil
-- 
2.43.0


From 7b6f7de34a6b938c9cd2bd9e226f9691c117430f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:44 +0000
Subject: [PATCH 18/93] fix: time of day of imported transactions does not
 matter

---
 cmd/ofx2coin/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/ofx2coin/main.go b/cmd/ofx2coin/main.go
index bcf341e..a8f508e 100644
--- a/cmd/ofx2coin/main.go
+++ b/cmd/ofx2coin/main.go
@@ -186,8 +186,10 @@ func newTransaction(ars *coin.AccountRules, date time.Time, payee string, amount
 	if balance != nil {
 		bal = coin.NewAmountFrac(balance.Num(), balance.Denom(), ars.Account.Commodity)
 	}
+	// all dates are at noon UTC, same as those in coin files
+	y, m, d := date.Date()
 	t := &coin.Transaction{
-		Posted:      date,
+		Posted:      time.Date(y, m, d, 12, 0, 0, 0, time.UTC),
 		Description: payee,
 		Notes:       notes,
 	}
-- 
2.43.0


From b0e5cd164819c78e30b7cfa4dd39818ed48ad052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 19/93] fix: import without rules

---
 cmd/csv2coin/main.go  | 2 +-
 cmd/csv2coin/rules.go | 8 ++++++--
 cmd/ofx2coin/main.go  | 2 +-
 rules.go              | 2 +-
 4 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/cmd/csv2coin/main.go b/cmd/csv2coin/main.go
index 66bb839..bcfaa19 100644
--- a/cmd/csv2coin/main.go
+++ b/cmd/csv2coin/main.go
@@ -43,7 +43,7 @@ func main() {
 	coin.LoadFile(coin.AccountsFile)
 	coin.ResolveAccounts()
 
-	var rules *Rules
+	rules := &Rules{RuleIndex: &coin.RuleIndex{}}
 	fn := filepath.Join(coin.DB, "csv.rules")
 	if _, err := os.Stat(fn); !os.IsNotExist(err) {
 		file, err := os.Open(fn)
diff --git a/cmd/csv2coin/rules.go b/cmd/csv2coin/rules.go
index 1526c45..ffca061 100644
--- a/cmd/csv2coin/rules.go
+++ b/cmd/csv2coin/rules.go
@@ -174,7 +174,7 @@ func (rules *Rules) Write(w io.Writer) {
 }
 
 func ReadRules(r io.Reader) *Rules {
-	rules := Rules{sources: map[string]*Source{}}
+	rules := Rules{sources: map[string]*Source{}, RuleIndex: &coin.RuleIndex{}}
 	s := bufio.NewScanner(r)
 	check.If(s.Scan(), "Failed scanning first line: %s", s.Err())
 	line := s.Bytes()
@@ -188,7 +188,11 @@ func ReadRules(r io.Reader) *Rules {
 		source := ScanSource(line, s)
 		check.If(source != nil, "invalid source definition in rules file: %s", string(s.Bytes()))
 		rules.sources[source.name] = source
-		line = s.Bytes()
+		for line = s.Bytes(); len(line) == 0; line = s.Bytes() {
+			if !s.Scan() { // no separator
+				return &rules
+			}
+		}
 	}
 	var err error
 	rules.RuleIndex, err = coin.ScanRules(s.Bytes(), s)
diff --git a/cmd/ofx2coin/main.go b/cmd/ofx2coin/main.go
index a8f508e..f57cf7c 100644
--- a/cmd/ofx2coin/main.go
+++ b/cmd/ofx2coin/main.go
@@ -53,7 +53,7 @@ func main() {
 		return
 	}
 
-	var rules *coin.RuleIndex
+	rules := &coin.RuleIndex{}
 	fn := filepath.Join(coin.DB, "ofx.rules")
 	if _, err := os.Stat(fn); !os.IsNotExist(err) {
 		file, err := os.Open(fn)
diff --git a/rules.go b/rules.go
index 8e15eb6..2d50f71 100644
--- a/rules.go
+++ b/rules.go
@@ -155,7 +155,7 @@ var bodyRE = regexp.MustCompile(`^\s+` + patternRE + `(\s+(\S.*\S))?|` +
 func ReadRules(r io.Reader) (*RuleIndex, error) {
 	s := bufio.NewScanner(r)
 	if !s.Scan() {
-		return nil, s.Err()
+		return &RuleIndex{}, s.Err()
 	}
 	return ScanRules(s.Bytes(), s)
 }
-- 
2.43.0


From 1977d7ef44a78748c98b2472b8b39c0bc73b5c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:09 +0000
Subject: [PATCH 20/93] fix: optional fields of csv imports can be omitted as
 documented

---
 cmd/csv2coin/main.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmd/csv2coin/main.go b/cmd/csv2coin/main.go
index bcfaa19..99584b2 100644
--- a/cmd/csv2coin/main.go
+++ b/cmd/csv2coin/main.go
@@ -220,10 +220,13 @@ var labels = []string{
 	"note",        // optional note associated with the transaction
 }
 
+// the labels from currency on are optional
+const requiredLabels = 4
+
 func parseFields(list string) map[string]Fields {
 	idxs := strings.Split(list, ",")
-	check.If(len(idxs) == len(labels),
-		"%d fields must be specified:\n%v\n", len(labels), labels)
+	check.If(requiredLabels <= len(idxs) && len(idxs) <= len(labels),
+		"%d to %d fields must be specified:\n%v\n", requiredLabels, len(labels), labels)
 	fields := make(map[string]Fields)
 	for i, s := range idxs {
 		c, err := strconv.Atoi(s)
-- 
2.43.0


From 1f4646335790ae66b3cc8359cc43daaa38ae580c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 21/93] fix: dumped rules include notes and rules dropping
 transactions

---
 rules.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/rules.go b/rules.go
index 2d50f71..00b7230 100644
--- a/rules.go
+++ b/rules.go
@@ -55,7 +55,10 @@ func (rs *RuleIndex) Write(w io.Writer) error {
 		}
 	}
 	sort.Slice(accounts, func(i, j int) bool {
-		return accounts[i].Account.FullName < accounts[j].Account.FullName
+		if accounts[i].Account != accounts[j].Account {
+			return accounts[i].Account.FullName < accounts[j].Account.FullName
+		}
+		return ids[accounts[i]] < ids[accounts[j]]
 	})
 	for _, ars := range accounts {
 		id := ids[ars]
@@ -131,12 +134,22 @@ type Rule struct {
 }
 
 func (r *Rule) Name() string {
+	if r.Account == nil { // drop the transaction
+		return "--"
+	}
 	return r.Account.FullName
 }
 
 func (r *Rule) Write(w io.Writer, max int) error {
-	_, err := fmt.Fprintf(w, "  %-*s %s\n", max, r.Name(), r.String())
-	return err
+	if _, err := fmt.Fprintf(w, "  %-*s %s\n", max, r.Name(), r.String()); err != nil {
+		return err
+	}
+	for _, n := range r.Notes {
+		if _, err := fmt.Fprintf(w, "  ; %s\n", n); err != nil {
+			return err
+		}
+	}
+	return nil
 }
 
 func (r *Rule) RuleFor(payee string) *Rule {
-- 
2.43.0


From 202f22ebe1959fe4832da04491d3230e3d260932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:18 +0000
Subject: [PATCH 22/93] fix: read one character rules, rules of accounts with a
 slash, notes without a blank

---
 rules.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rules.go b/rules.go
index 00b7230..f25a72d 100644
--- a/rules.go
+++ b/rules.go
@@ -159,11 +159,11 @@ func (r *Rule) RuleFor(payee string) *Rule {
 	return nil
 }
 
-var patternRE = `([\w:$^\\-]+)`
+var patternRE = `([\w/:$^\\-]+)`
 var headerRE = regexp.MustCompile(`^(\w+)\s+` + patternRE + `|^(\w+)`)
-var bodyRE = regexp.MustCompile(`^\s+` + patternRE + `(\s+(\S.*\S))?|` +
+var bodyRE = regexp.MustCompile(`^\s+` + patternRE + `(\s+(\S(?:.*\S)?))?|` +
 	`^\s+@(\w+)|` +
-	`^\s+;\s+(.*)`)
+	`^\s+;\s*(.*)`)
 
 func ReadRules(r io.Reader) (*RuleIndex, error) {
 	s := bufio.NewScanner(r)
-- 
2.43.0


From 31234e0eccc1f902e957386df1a081c206d014e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:35 +0000
Subject: [PATCH 23/93] fix: csv sources are dumped completely and in the same
 order every time

---
 cmd/csv2coin/rules.go | 52 ++++++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/cmd/csv2coin/rules.go b/cmd/csv2coin/rules.go
index ffca061..c08273d 100644
--- a/cmd/csv2coin/rules.go
+++ b/cmd/csv2coin/rules.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"slices"
 	"strconv"
 	"strings"
 
@@ -139,23 +140,39 @@ func ScanSource(line []byte, s *bufio.Scanner) *Source {
 }
 
 func (s *Source) Write(w io.Writer) {
-	fmt.Fprintln(w, s.name)
-	for _, n := range labels {
-		fs := s.fields[n]
-		for _, f := range fs {
-			if f.re == nil {
-				if f.out != "" {
-					fmt.Fprintf(w, "  %s %s\n", n, f.out)
-				} else {
-					fmt.Fprintf(w, "  %s %d\n", n, f.idx)
-				}
-			} else {
-				fmt.Fprintf(w, "  %s %d %s %s\n", n, f.idx, f.out, f.re)
-			}
+	fmt.Fprintf(w, "%s %d\n", s.name, s.skip)
+	// write out auxiliary fields as well
+	names := append([]string{}, labels...)
+	for n := range s.fields {
+		if !slices.Contains(labels, n) {
+			names = append(names, n)
+		}
+	}
+	slices.Sort(names[len(labels):])
+	for _, n := range names {
+		for _, f := range s.fields[n] {
+			f.write(w, n)
 		}
 	}
 }
 
+func (f *Field) write(w io.Writer, name string) {
+	fmt.Fprintf(w, "  %s", name)
+	if f.idx != nil {
+		fmt.Fprintf(w, " %d", *f.idx)
+	}
+	if f.idx == nil || f.re != nil {
+		fmt.Fprintf(w, " \"%s\"", f.out)
+	}
+	if f.condField != "" {
+		fmt.Fprintf(w, " %s", f.condField)
+	}
+	if f.re != nil {
+		fmt.Fprintf(w, " %s", f.re)
+	}
+	fmt.Fprintln(w)
+}
+
 func (s *Source) Value(field string, row []string) string {
 	return s.fields[field].Value(row, s.fields)
 }
@@ -166,8 +183,13 @@ type Rules struct {
 }
 
 func (rules *Rules) Write(w io.Writer) {
-	for _, src := range rules.sources {
-		src.Write(w)
+	var names []string
+	for n := range rules.sources {
+		names = append(names, n)
+	}
+	slices.Sort(names)
+	for _, n := range names {
+		rules.sources[n].Write(w)
 	}
 	fmt.Fprintln(w, string(separator))
 	rules.RuleIndex.Write(w)
-- 
2.43.0


From 904a1933bf25aea3e5a6565822fbd09ce548afd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:39 +0000
Subject: [PATCH 24/93] fix: balance warnings and account lookup by id do not
 depend on map order

---
 coin.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/coin.go b/coin.go
index a000d97..513a609 100644
--- a/coin.go
+++ b/coin.go
@@ -269,12 +269,12 @@ func ResolveTransactions(checkPostings bool) {
 		}
 	}
 
-	for _, a := range AccountsByName {
+	AccountsDo(func(a *Account) {
 		a.sortPostings()
 		if checkPostings {
 			a.CheckPostings()
 		}
-	}
+	})
 	sort.Stable(Transactions)
 }
 
@@ -308,13 +308,13 @@ func MustFindAccount(pattern string) *Account {
 	panic(msg)
 }
 
-func FindAccountOfxId(acctId string) *Account {
-	for _, a := range AccountsByName {
-		if a.OFXAcctId == acctId {
-			return a
+func FindAccountOfxId(acctId string) (account *Account) {
+	AccountsDo(func(a *Account) {
+		if account == nil && a.OFXAcctId == acctId {
+			account = a
 		}
-	}
-	return nil
+	})
+	return account
 }
 
 func ToRegex(pattern string) *regexp.Regexp {
-- 
2.43.0


From 311188fd379c132129c1a7f900d21bb083d7d5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 25/93] fix: balances of generated postings are not doubled

---
 cmd/gen2coin/main.go | 6 ------
 cmd/gen2coin/rule.go | 5 +++++
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/cmd/gen2coin/main.go b/cmd/gen2coin/main.go
index e01a2f3..8727530 100644
--- a/cmd/gen2coin/main.go
+++ b/cmd/gen2coin/main.go
@@ -70,12 +70,6 @@ func main() {
 		s.generatePostings(s.Transaction)
 	}
 
-	if withBalances {
-		for _, a := range coin.AccountsByName {
-			a.CheckPostings()
-		}
-	}
-
 	if dir == "" { // just dump everything into stdout
 		if asJson {
 			encoder := json.NewEncoder(os.Stdout)
diff --git a/cmd/gen2coin/rule.go b/cmd/gen2coin/rule.go
index bbf0d28..86ad92d 100644
--- a/cmd/gen2coin/rule.go
+++ b/cmd/gen2coin/rule.go
@@ -97,6 +97,11 @@ func (r *rule) generatePostings(t *coin.Transaction) {
 	t.Post(to, from, amt, nil)
 	check.NoError(to.Balance().AddIn(amt), "failed to update balance")
 	check.NoError(from.Balance().AddIn(amt.Negated()), "failed to update balance")
+	if withBalances {
+		for _, p := range t.Postings {
+			p.Balance = p.Account.Balance().Copy()
+		}
+	}
 }
 
 // generate amount given min/max and from/to accounts.
-- 
2.43.0


From f4fb12b5ca1dae1c4c5c3859f0abd9fc5b09f8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 26/93] fix: generate transactions on the last day of the range

---
 cmd/gen2coin/dates.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/gen2coin/dates.go b/cmd/gen2coin/dates.go
index c144923..ebcdf9f 100644
--- a/cmd/gen2coin/dates.go
+++ b/cmd/gen2coin/dates.go
@@ -33,7 +33,7 @@ func weekly(count int, interval int, days ...time.Weekday) dateGen {
 		if interval < 1 {
 			interval = 1
 		}
-		for current.Before(end) {
+		for !current.After(end) {
 			picks := days
 			if count < len(picks) {
 				// random picks, each day can only be picked once
@@ -73,7 +73,7 @@ func monthly(count int, interval int, days ...int) dateGen {
 		if interval < 1 {
 			interval = 1
 		}
-		for current.Before(end) {
+		for !current.After(end) {
 			picks := days
 			if len(picks) == 0 {
 				_, _, nDays := current.AddDate(0, 1, -1).Date()
-- 
2.43.0


From c471f1373c30e7842206c99cb2e0dedf7a117735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 27/93] fix: generated commodities and accounts files are
 ordered

---
 cmd/gen2coin/main.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cmd/gen2coin/main.go b/cmd/gen2coin/main.go
index 8727530..b54fc26 100644
--- a/cmd/gen2coin/main.go
+++ b/cmd/gen2coin/main.go
@@ -86,19 +86,19 @@ func main() {
 
 	w, err := os.Create(filepath.Join(dir, "commodities.coin"))
 	check.NoError(err, "opening commodities file")
-	for n, c := range coin.Commodities {
-		check.NoError(c.Write(w, false), "writing commodity %s", n)
+	coin.CommoditiesDo(func(c *coin.Commodity) {
+		check.NoError(c.Write(w, false), "writing commodity %s", c.Id)
 		_, err = fmt.Fprintln(w, "")
 		check.NoError(err, "writing newline")
-	}
+	})
 	check.NoError(w.Close(), "closing commodities file")
 	w, err = os.Create(filepath.Join(dir, "accounts.coin"))
 	check.NoError(err, "opening accounts file")
-	for n, a := range coin.AccountsByName {
-		check.NoError(a.Write(w, false), "writing account %s", n)
+	coin.AccountsDo(func(a *coin.Account) {
+		check.NoError(a.Write(w, false), "writing account %s", a.FullName)
 		_, err = fmt.Fprintln(w, "")
 		check.NoError(err, "writing newline")
-	}
+	})
 	check.NoError(w.Close(), "closing accounts file")
 
 	labeler := func(t time.Time) string { return "transactions" }
-- 
2.43.0


From 1620fb69e1f656bd08d50bebc357333362923865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 28/93] fix: convert gnucash books without prices or
 transactions by year

---
 cmd/gc2coin/main.go | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/cmd/gc2coin/main.go b/cmd/gc2coin/main.go
index ca5d66e..21d505a 100644
--- a/cmd/gc2coin/main.go
+++ b/cmd/gc2coin/main.go
@@ -75,11 +75,7 @@ func main() {
 
 	// Assume prices are sorted by date
 	var year int
-	if *yearly {
-		year := coin.Prices[0].Time.Year()
-		f, done = next(strconv.Itoa(year) + coin.PricesExtension)
-		defer done()
-	} else {
+	if !*yearly {
 		f, done = next(coin.PricesFilename)
 		defer done()
 	}
@@ -108,11 +104,8 @@ func main() {
 		}
 	})
 
-	if *yearly {
-		year := coin.Transactions[0].Posted.Year()
-		f, done = next(strconv.Itoa(year) + coin.TransactionsExtension)
-		defer done()
-	} else {
+	year = 0
+	if !*yearly {
 		f, done = next(coin.TransactionsFilename)
 		defer done()
 	}
-- 
2.43.0


From 9da3391253c76c2715ee3cef8d76e0a6a22a9d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 29/93] fix: order gnucash entries by their dates regardless of
 time zones

---
 gnucash/gnucash.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gnucash/gnucash.go b/gnucash/gnucash.go
index 0aa1553..29069a4 100644
--- a/gnucash/gnucash.go
+++ b/gnucash/gnucash.go
@@ -62,12 +62,14 @@ func Load(fn string) *Book {
 // TimeStamp is GnuCash time format
 const TimeStamp = "2006-01-02 15:04:05 -0700"
 
+// The result is noon UTC of the day, same as dates in coin files.
 func mustParseTimeStamp(ts string) time.Time {
 	t, err := time.Parse(TimeStamp, ts)
 	if err != nil {
 		panic(err)
 	}
-	return t
+	y, m, d := t.Date()
+	return time.Date(y, m, d, 12, 0, 0, 0, time.UTC)
 }
 
 // GncNumeric is a fraction
-- 
2.43.0


From 57e66af6409ae6a266c67b72b3781b42007d7870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 30/93] fix: gnucash currencies without fraction keep their
 cents

---
 gnucash/commodity.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gnucash/commodity.go b/gnucash/commodity.go
index 80dcb20..e55c50e 100644
--- a/gnucash/commodity.go
+++ b/gnucash/commodity.go
@@ -45,7 +45,11 @@ func CommodityFrom(c *Commodity) *coin.Commodity {
 		Code:   c.Code,
 		Prices: make(map[*coin.Commodity][]*coin.Price),
 	}
-	cc.SetFraction(c.Fraction)
+	if c.Fraction > 0 {
+		cc.SetFraction(c.Fraction)
+	} else {
+		cc.Decimals = 2 // currencies do not have to list the fraction
+	}
 	return cc
 }
 
-- 
2.43.0


From f55275f79d39ad281c6dbb007d82e59de03a8a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:21 +0000
Subject: [PATCH 31/93] fix: date without a year is the one closest to today

---
 date.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/date.go b/date.go
index 98af69f..d53a80f 100644
--- a/date.go
+++ b/date.go
@@ -70,6 +70,19 @@ func MustParseDate(s string) time.Time {
 	return mustParseDate(match, 0)
 }
 
+// closestYear returns the year in which given day is the closest to today.
+func closestYear(m time.Month, d int) (year int) {
+	today := time.Date(Year, Month, Day, 12, 0, 0, 0, time.UTC)
+	var closest time.Duration
+	for _, y := range []int{Year, Year - 1, Year + 1} {
+		distance := time.Date(y, m, d, 12, 0, 0, 0, time.UTC).Sub(today).Abs()
+		if y == Year || distance < closest {
+			year, closest = y, distance
+		}
+	}
+	return year
+}
+
 func parseDate(match map[string]string, idx int) (t time.Time, err error) {
 	if idx > 0 {
 		return t, fmt.Errorf("multiple date fields not implemented!")
@@ -94,11 +107,7 @@ func parseDate(match map[string]string, idx int) (t time.Time, err error) {
 				y = yyy
 			}
 		} else {
-			if mm < m && m-mm > 6 {
-				y += 1
-			} else if m < mm && mm-m > 6 {
-				y -= 1
-			}
+			y = closestYear(time.Month(mm), d)
 		}
 		m = mm
 	} else if match["ym"] != "" {
-- 
2.43.0


From a7fe01c8a1994f04b606ad45c0790b583be743c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 32/93] fix: aggregated totals of an account are in its
 commodity

---
 cmd/coin/totals.go | 99 ++++++++++++++++++----------------------------
 1 file changed, 39 insertions(+), 60 deletions(-)

diff --git a/cmd/coin/totals.go b/cmd/coin/totals.go
index 5df5868..f28e5e3 100644
--- a/cmd/coin/totals.go
+++ b/cmd/coin/totals.go
@@ -30,41 +30,25 @@ func (t *timeTotal) Categories() (keys []string) {
 	return keys
 }
 
-func (t *timeTotal) AddIn(t2 *timeTotal, keysOnly bool) {
+// AddIn adds t2 to t, missing totals are added in commodity c.
+func (t *timeTotal) AddIn(t2 *timeTotal, keysOnly bool, c *coin.Commodity) {
 	check.If(t.Time.Equal(t2.Time), "%v is not equal to %v", t.Time, t2.Time)
-	if t.total != nil && !keysOnly {
-		t.total.AddIn(t2.total)
+	if t.total != nil {
+		if !keysOnly {
+			check.NoError(t.total.AddIn(t2.total), "cannot add %a to totals", t2.total)
+		}
 		return
 	}
 	for k, v := range t2.totals {
 		amt := t.totals[k]
-		if amt != nil {
-			if !keysOnly {
-				amt.AddIn(v)
-			}
-		} else {
-			if keysOnly {
-				t.totals[k] = coin.NewZeroAmount(v.Commodity)
-			} else {
-				t.totals[k] = v.Copy()
-			}
+		if amt == nil {
+			amt = coin.NewZeroAmount(c)
+			t.totals[k] = amt
 		}
-	}
-}
-
-func (t *timeTotal) Copy(keysOnly bool) *timeTotal {
-	if t.total != nil {
-		return &timeTotal{Time: t.Time, total: t.total.Copy()}
-	}
-	totals := make(map[string]*coin.Amount)
-	for k, v := range t.totals {
-		if keysOnly {
-			totals[k] = coin.NewZeroAmount(v.Commodity)
-		} else {
-			totals[k] = v.Copy()
+		if !keysOnly {
+			check.NoError(amt.AddIn(v), "cannot add %a to totals", v)
 		}
 	}
-	return &timeTotal{Time: t.Time, totals: totals}
 }
 
 func (t *timeTotal) Commodity() *coin.Commodity {
@@ -102,12 +86,17 @@ type timeTotals struct {
 	// at least one of these must be set before using
 	*timeReducer
 	*categoryReducer
+	// commodity of the totals
+	commodity *coin.Commodity
 	// these are internal
 	all     []*timeTotal // ordered totals by time if we are reducing by time
 	current *timeTotal   // latest total, if not reducing by time then the only total
 }
 
 func (ts *timeTotals) Commodity() *coin.Commodity {
+	if ts.commodity != nil {
+		return ts.commodity
+	}
 	if ts.current != nil {
 		if c := ts.current.Commodity(); c != nil {
 			return c
@@ -129,30 +118,22 @@ func (ts *timeTotals) add(p *coin.Posting) {
 	if ts.timeReducer != nil {
 		period = ts.timeReducer.reduce(p.Transaction.Posted)
 	}
-	if ts.current != nil && ts.current.Equal(period) {
-		if ts.categoryReducer != nil {
-			category := ts.categoryReducer.reduce(p)
-			amt := ts.current.totals[category]
-			if amt != nil {
-				check.NoError(amt.AddIn(p.Quantity), "cannot add %a to totals", p.Quantity)
-			} else {
-				ts.current.totals[category] = p.Quantity.Copy()
-			}
-		} else {
-			check.NoError(ts.current.total.AddIn(p.Quantity), "cannot add %a to totals", p.Quantity)
+	if ts.current == nil || !ts.current.Equal(period) {
+		ts.current = ts.newTotal(period, ts.commodity)
+		if ts.timeReducer != nil {
+			ts.all = append(ts.all, ts.current)
 		}
-		return
 	}
-	amt := p.Quantity.Copy()
+	amt := ts.current.total
 	if ts.categoryReducer != nil {
 		category := ts.categoryReducer.reduce(p)
-		ts.current = &timeTotal{Time: period, totals: map[string]*coin.Amount{category: amt}}
-	} else {
-		ts.current = &timeTotal{Time: period, total: amt}
-	}
-	if ts.timeReducer != nil {
-		ts.all = append(ts.all, ts.current)
+		amt = ts.current.totals[category]
+		if amt == nil {
+			amt = coin.NewZeroAmount(ts.commodity)
+			ts.current.totals[category] = amt
+		}
 	}
+	check.NoError(amt.AddIn(p.Quantity), "cannot add %a to totals", p.Quantity)
 }
 
 func (ts *timeTotals) newTotal(t time.Time, c *coin.Commodity) *timeTotal {
@@ -168,15 +149,18 @@ func (ts *timeTotals) newTotal(t time.Time, c *coin.Commodity) *timeTotal {
 // keysOnly = false only add times/categories that are missing with zero value
 // keysOnly = true add the ts2 amounts to corresponding ts values.
 func (ts *timeTotals) mergeTotals(ts2 *timeTotals, keysOnly bool) {
+	if ts2.current == nil {
+		return
+	}
+	com := ts.Commodity()
+	if com == nil {
+		com = ts2.Commodity()
+	}
 	if ts.timeReducer == nil {
-		if ts2.current == nil {
-			return
-		}
 		if ts.current == nil {
-			ts.current = ts2.current.Copy(keysOnly)
-		} else {
-			ts.current.AddIn(ts2.current, keysOnly)
+			ts.current = ts.newTotal(ts2.current.Time, com)
 		}
+		ts.current.AddIn(ts2.current, keysOnly, com)
 		return
 	}
 	var offsets []int
@@ -192,7 +176,7 @@ func (ts *timeTotals) mergeTotals(ts2 *timeTotals, keysOnly bool) {
 		remaining = remaining[i:]
 		j += i
 		if len(remaining) > 0 && remaining[0].Time.Equal(t.Time) {
-			remaining[0].AddIn(t, keysOnly)
+			remaining[0].AddIn(t, keysOnly, com)
 		} else {
 			offsets = append(offsets, j)
 			j = 0
@@ -209,12 +193,8 @@ func (ts *timeTotals) mergeTotals(ts2 *timeTotals, keysOnly bool) {
 	for i := 0; i < len(extras); i++ {
 		mark := offsets[i]
 		extra := extras[i]
-		com := ts.Commodity()
-		if com == nil {
-			com = extra.Commodity()
-		}
 		newExtra := ts.newTotal(extra.Time, com)
-		newExtra.AddIn(extra, keysOnly)
+		newExtra.AddIn(extra, keysOnly, com)
 		ts.all = append(ts.all, remaining[:mark]...)
 		ts.all = append(ts.all, newExtra)
 		remaining = remaining[mark:]
@@ -377,9 +357,8 @@ func (ats accountTotals) String() string {
 }
 
 func (ats accountTotals) newTotals(acc *coin.Account, period *timeReducer, category *categoryReducer) *timeTotals {
-	ts := &timeTotals{timeReducer: period, categoryReducer: category}
+	ts := &timeTotals{timeReducer: period, categoryReducer: category, commodity: acc.Commodity}
 	ats[acc] = ts
-
 	return ts
 }
 
-- 
2.43.0


From d3cfbc9fc26ca278a77c912b1dd7ab5a1952551f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:50 +0000
Subject: [PATCH 33/93] fix: order of accounts with equal totals does not
 depend on map order

---
 cmd/coin/totals.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/coin/totals.go b/cmd/coin/totals.go
index f28e5e3..0b33064 100644
--- a/cmd/coin/totals.go
+++ b/cmd/coin/totals.go
@@ -402,7 +402,11 @@ func (ats accountTotals) top(n int) (topn accountTotals, order []*coin.Account)
 	}
 
 	sort.Slice(accounts, func(i int, j int) bool {
-		return magnitudes[accounts[i]].IsBigger(magnitudes[accounts[j]])
+		mi, mj := magnitudes[accounts[i]], magnitudes[accounts[j]]
+		if c := mi.CmpMagnitude(mj); c != 0 {
+			return c > 0
+		}
+		return accounts[i].FullName < accounts[j].FullName
 	})
 	if len(accounts) <= n {
 		return ats, accounts
-- 
2.43.0


From 3a74923aacbd8d64a6b311f457a9216d6a0a7a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 34/93] fix: aggregated register of accounts without postings
 or past the top ones

---
 cmd/coin/register.go | 6 +++++-
 cmd/coin/totals.go   | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/coin/register.go b/cmd/coin/register.go
index 8a51b0f..bbcf140 100644
--- a/cmd/coin/register.go
+++ b/cmd/coin/register.go
@@ -127,8 +127,12 @@ func (cmd *cmdRegister) aggregatedRegister(f io.Writer, acc *coin.Account) {
 	})
 	totals.sanitize()
 	var accounts []*coin.Account
+	total := totals[acc] // top may drop it
 	totals, accounts = totals.top(cmd.top)
-	totals.mergeTime(totals[acc])
+	if len(accounts) == 0 {
+		return // no postings
+	}
+	totals.mergeTime(total)
 
 	if cmd.cumulative {
 		totals.makeCumulative()
diff --git a/cmd/coin/totals.go b/cmd/coin/totals.go
index 0b33064..570cea1 100644
--- a/cmd/coin/totals.go
+++ b/cmd/coin/totals.go
@@ -416,7 +416,7 @@ func (ats accountTotals) top(n int) (topn accountTotals, order []*coin.Account)
 	}
 	rest := accounts[n:]
 	accounts = accounts[:n]
-	if len(rest) > 1 {
+	if len(rest) > 0 {
 		others := ats[rest[0]]
 		for _, acc := range rest[1:] {
 			others.merge(ats[acc])
-- 
2.43.0


From 1653e858824065f67e9e9f3497f8d7a746b32eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:58 +0000
Subject: [PATCH 35/93] fix: aggregate transactions without a payee

---
 cmd/coin/totals.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/cmd/coin/totals.go b/cmd/coin/totals.go
index 570cea1..125e130 100644
--- a/cmd/coin/totals.go
+++ b/cmd/coin/totals.go
@@ -483,9 +483,11 @@ func (ats accountTotals) print(f io.Writer,
 ) {
 	firstCol := ats[order[0]]
 	format := []string{"%*s "}
+	hasPeriod := firstCol.timeReducer != nil
+	hasCategory := firstCol.categoryReducer != nil
 	periodWidth := firstCol.maxPeriodWidth()
 	categoryWidth := firstCol.maxCategoryWidth()
-	if periodWidth > 0 && categoryWidth > 0 {
+	if hasPeriod && hasCategory {
 		format = append(format, " %*s ")
 	}
 	widths := ats.widths(order)
@@ -502,10 +504,10 @@ func (ats accountTotals) print(f io.Writer,
 			format2 = append(format2, " %*s ")
 		}
 		var args []interface{}
-		if periodWidth > 0 {
+		if hasPeriod {
 			args = append(args, periodWidth, "")
 		}
-		if categoryWidth > 0 {
+		if hasCategory {
 			args = append(args, categoryWidth, "")
 		}
 		for i := range widths {
@@ -528,25 +530,25 @@ func (ats accountTotals) print(f io.Writer,
 		}
 		for _, category := range categories {
 			var args []interface{}
-			if periodWidth > 0 {
+			if hasPeriod {
 				tm := period.Time.Format(firstCol.format)
 				args = append(args, periodWidth, tm)
 			}
-			if categoryWidth > 0 {
+			if hasCategory {
 				args = append(args, categoryWidth, category)
 			}
 			for ii, acc := range order {
 				ts := ats[acc]
 				check.If(ts != nil, "nil totals for %s\n", label(acc))
 				t := ts.current
-				if periodWidth > 0 {
+				if hasPeriod {
 					t = ts.all[i]
 					check.If(period.Time.Equal(t.Time), "%s[%d]: %s != %s\n", label(acc), i,
 						t.Time.Format(firstCol.format),
 						period.Time.Format(firstCol.format))
 				}
 				amt := t.total
-				if category != "" {
+				if hasCategory {
 					amt = t.totals[category]
 				}
 				args = append(args, widths[ii], amt)
@@ -606,7 +608,7 @@ func (ats accountTotals) rows(
 						period.Time.Format(firstCol.format))
 				}
 				amt := t.total
-				if category != "" {
+				if hasCategory {
 					amt = t.totals[category]
 				}
 				row = append(row, amt.String())
-- 
2.43.0


From b974e871ffc06915cb9c4669df80b76f3d611a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:51 +0000
Subject: [PATCH 36/93] fix: accept double colons in account expressions of
 postings

---
 account.go     | 3 +++
 transaction.go | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/account.go b/account.go
index 6cb18e9..96b196b 100644
--- a/account.go
+++ b/account.go
@@ -81,6 +81,9 @@ func (a *Account) Write(w io.Writer, ledger bool) error {
 
 var accountNameREX = rex.MustCompile(`([A-Za-z][\w/_\-]*)`)
 var AccountREX = rex.MustCompile(`(?P<account>%s(:%s)*)`, accountNameREX, accountNameREX)
+
+// accountExpREX matches an account name or an abbreviation of it (see MustFindAccount).
+var accountExpREX = rex.MustCompile(`(?P<account>%s(::?%s)*)`, accountNameREX, accountNameREX)
 var accountHeadREX = rex.MustCompile(`account\s+%s`, AccountREX)
 var accountBodyREX = rex.MustCompile(``+
 	`(\s+note\s+(?P<note>\S.*))|`+
diff --git a/transaction.go b/transaction.go
index 54111e3..2da6142 100644
--- a/transaction.go
+++ b/transaction.go
@@ -121,7 +121,7 @@ var transactionREX = rex.MustCompile(`%s(\s+\((?P<code>\w+)\))?(\s+(?P<descripti
 var postingREX = rex.MustCompile(``+
 	`^\s+%s(\s+%s(\s+=\s+%s)?)?(\s*; ?(?P<shortNote>.*))?|`+
 	`^\s+; ?(?P<note>.*)`,
-	AccountREX, AmountREX, AmountREX)
+	accountExpREX, AmountREX, AmountREX)
 
 func (p *Parser) parseTransaction(fn string) (*Transaction, error) {
 	match := transactionREX.Match(p.Bytes())
-- 
2.43.0


From 96dc6ac83fd6ec680b7461e768382f8ae4eb00c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:55 +0000
Subject: [PATCH 37/93] fix: keep the Unbalanced account as declared

---
 coin.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/coin.go b/coin.go
index 513a609..a8b4948 100644
--- a/coin.go
+++ b/coin.go
@@ -168,8 +168,11 @@ func ResolveAccounts() {
 		}
 	}
 	if Unbalanced == nil {
-		Unbalanced = accountFromName("Unbalanced")
-		AccountsByName["Unbalanced"] = Unbalanced
+		Unbalanced = AccountsByName["Unbalanced"]
+		if Unbalanced == nil {
+			Unbalanced = accountFromName("Unbalanced")
+			AccountsByName["Unbalanced"] = Unbalanced
+		}
 	}
 
 	// create parents if missing
-- 
2.43.0


From 2443ab2805688c10f7da1a3e7dff68f98f8f01c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:15 +0000
Subject: [PATCH 38/93] fix: read amounts of any size

---
 amount.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/amount.go b/amount.go
index d9f422e..763c636 100644
--- a/amount.go
+++ b/amount.go
@@ -5,7 +5,6 @@ import (
 	"fmt"
 	"io"
 	"math/big"
-	"strconv"
 	"strings"
 
 	"github.com/mkobetic/coin/rex"
@@ -75,11 +74,10 @@ func (a *Amount) Format(f fmt.State, c rune) {
 func parseAmount(s string, c *Commodity) (*Amount, error) {
 	ss := strings.Split(s, ".")
 	if len(ss) == 1 {
-		i, err := strconv.ParseInt(ss[0], 10, 64)
-		if err != nil {
-			return nil, err
+		bi, ok := new(big.Int).SetString(ss[0], 10)
+		if !ok {
+			return nil, fmt.Errorf("malformed value %s", s)
 		}
-		bi := big.NewInt(i)
 		if c.Decimals > 0 {
 			bi.Mul(bi, bigPow10(c.Decimals))
 		}
@@ -89,11 +87,10 @@ func parseAmount(s string, c *Commodity) (*Amount, error) {
 		return nil, fmt.Errorf("malformed value %s", s)
 	}
 	s = strings.Join(ss, "")
-	i, err := strconv.ParseInt(s, 10, 64)
-	if err != nil {
-		return nil, err
+	bi, ok := new(big.Int).SetString(s, 10)
+	if !ok {
+		return nil, fmt.Errorf("malformed value %s", s)
 	}
-	bi := big.NewInt(i)
 	decimals := len(ss[1])
 	if c.Decimals != decimals {
 		bi.Mul(bi, bigPow10(c.Decimals))
-- 
2.43.0


From 67f49ababc1c6f022eb09f20ba23417115debca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:54 +0000
Subject: [PATCH 39/93] fix: accept any white space after the keywords of
 entries

---
 parser.go | 12 +++++++++---
 price.go  |  2 +-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/parser.go b/parser.go
index 1e66dcb..5290876 100644
--- a/parser.go
+++ b/parser.go
@@ -45,11 +45,11 @@ func (p *Parser) Next(fn string) (Item, error) {
 		return p.parseInclude(fn)
 	case bytes.HasPrefix(line, []byte("account")):
 		return p.parseAccount(fn)
-	case bytes.HasPrefix(line, []byte("commodity ")):
+	case hasKeyword(line, "commodity"):
 		return p.parseCommodity(fn)
-	case bytes.HasPrefix(line, []byte("test ")):
+	case hasKeyword(line, "test"):
 		return p.parseTest(fn)
-	case bytes.HasPrefix(line, []byte("P ")):
+	case hasKeyword(line, "P"):
 		return p.parsePrice(fn)
 	case '0' <= line[0] && line[0] <= '9':
 		return p.parseTransaction(fn)
@@ -57,3 +57,9 @@ func (p *Parser) Next(fn string) (Item, error) {
 		return nil, fmt.Errorf("unrecognized item: %s", line)
 	}
 }
+
+// hasKeyword reports whether the line starts with the keyword followed by a space or a tab.
+func hasKeyword(line []byte, keyword string) bool {
+	rest, found := bytes.CutPrefix(line, []byte(keyword))
+	return found && len(rest) > 0 && (rest[0] == ' ' || rest[0] == '\t')
+}
diff --git a/price.go b/price.go
index ee41dd0..5c3976b 100644
--- a/price.go
+++ b/price.go
@@ -38,7 +38,7 @@ func (p *Price) Write(w io.Writer, ledger bool) error {
 	return err
 }
 
-var priceREX = rex.MustCompile(`P %s\s+%s\s+%s`, DateREX, CommodityREX, AmountREX)
+var priceREX = rex.MustCompile(`P\s+%s\s+%s\s+%s`, DateREX, CommodityREX, AmountREX)
 
 func (p *Parser) parsePrice(fn string) (*Price, error) {
 	match := priceREX.Match(p.Bytes())
-- 
2.43.0


From b8d3e30c5d206150a40492e2ad1489f8a2215a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:29 +0000
Subject: [PATCH 40/93] fix: run and fill in all the test clauses of all the
 files

---
 cmd/coin/test.go | 57 +++++++++++++++++++++---------------------------
 test.go          |  2 +-
 2 files changed, 26 insertions(+), 33 deletions(-)

diff --git a/cmd/coin/test.go b/cmd/coin/test.go
index 7933356..45b9f46 100644
--- a/cmd/coin/test.go
+++ b/cmd/coin/test.go
@@ -44,22 +44,14 @@ func (cmd *cmdTest) execute(f io.Writer) {
 	if len(coin.Tests) == 0 {
 		return
 	}
-	lastTestFile := file(coin.Tests[0])
-	var toUpdate []*coin.Test
-	success := true
+	var files []string // test files in the order they were loaded
+	toUpdate := map[string][]*coin.Test{}
+	failed := map[string]bool{}
 	for _, t := range coin.Tests {
-		// assume the tests are sorted file by file
-		// and in the order they are in the file
 		testFile := file(t)
-		startingNewFile := testFile != lastTestFile
-		var oldTestFile string // this is set only when moving to new file
-		if startingNewFile {
-			oldTestFile = lastTestFile
-		}
-		lastTestFile = testFile
-		if startingNewFile && len(toUpdate) > 0 {
-			updateTestFile(toUpdate)
-			toUpdate = nil
+		if _, found := failed[testFile]; !found {
+			files = append(files, testFile)
+			failed[testFile] = false
 		}
 		var args []string
 		scanner := bufio.NewScanner(strings.NewReader(t.Cmd))
@@ -69,14 +61,16 @@ func (cmd *cmdTest) execute(f io.Writer) {
 		}
 		if len(args) == 0 {
 			fmt.Fprintf(os.Stderr, "FAIL: test item is missing command %s\n", t.Location())
-			return
+			failed[testFile] = true
+			continue
 		}
 		// fmt.Println(args)
 		// continue
 		command, found := aliases[args[0]]
 		if !found {
 			fmt.Fprintf(os.Stderr, "FAIL: command unknown: %s %s\n", args[0], t.Location())
-			return
+			failed[testFile] = true
+			continue
 		}
 		command = command.newCommand(command.Name())
 		if len(args) > 1 {
@@ -90,18 +84,16 @@ func (cmd *cmdTest) execute(f io.Writer) {
 		// once we collect all the tests to be updated
 		if len(t.Result) == 0 {
 			t.Result = b.Bytes()
-			toUpdate = append(toUpdate, t)
+			toUpdate[testFile] = append(toUpdate[testFile], t)
 			continue
 		}
 		if bytes.Equal(b.Bytes(), t.Result) {
 			if cmd.verbose {
 				fmt.Fprintf(f, "OK %s %s\n", t.Location(), t.Cmd)
-			} else if oldTestFile != "" {
-				fmt.Fprintf(f, "OK %s\n", oldTestFile)
 			}
 			continue
 		}
-		success = false
+		failed[testFile] = true
 		fmt.Fprintf(f, "FAIL %s %s\n", t.Location(), t.Cmd)
 		difflib.WriteUnifiedDiff(f,
 			difflib.UnifiedDiff{
@@ -112,21 +104,23 @@ func (cmd *cmdTest) execute(f io.Writer) {
 				Context:  3,
 			})
 	}
-	if len(toUpdate) > 0 {
-		updateTestFile(toUpdate)
-	}
-	if !cmd.verbose {
-		result := "OK"
-		if !success {
-			result = "FAIL"
+	for _, testFile := range files {
+		if len(toUpdate[testFile]) > 0 {
+			updateTestFile(toUpdate[testFile])
+		}
+		if !cmd.verbose {
+			result := "OK"
+			if failed[testFile] {
+				result = "FAIL"
+			}
+			fmt.Fprintf(f, "%s %s\n", result, testFile)
 		}
-		fmt.Fprintf(f, "%s %s\n", result, lastTestFile)
 	}
 }
 
 func file(t *coin.Test) string {
-	file, _, _ := strings.Cut(t.Location(), ":")
-	return file
+	location := t.Location()
+	return location[:strings.LastIndexByte(location, ':')]
 }
 
 // assume ts are tests from the same file in the order in which they are in the file,
@@ -146,8 +140,7 @@ func updateTestFile(ts []*coin.Test) {
 	writer := bufio.NewWriter(tf)
 	line := 0
 	for i, t := range ts {
-		_, ln, _ := strings.Cut(t.Location(), ":")
-		tLine, _ := strconv.Atoi(ln)
+		tLine, _ := strconv.Atoi(t.Location()[len(fn)+1:])
 
 		for ; line < tLine && scanner.Scan(); line++ {
 			_, err := writer.Write(scanner.Bytes())
diff --git a/test.go b/test.go
index 2a5d88e..94b6332 100644
--- a/test.go
+++ b/test.go
@@ -14,7 +14,7 @@ type Test struct {
 	file string
 }
 
-var testHead = regexp.MustCompile(`test\s+(.+)`)
+var testHead = regexp.MustCompile(`test\s+(.*)`)
 
 func (p *Parser) parseTest(fn string) (*Test, error) {
 	matches := testHead.FindSubmatch(p.Bytes())
-- 
2.43.0


From 769ec91bdcf16d9c0d27829573b3403d5c8929d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:45 +0000
Subject: [PATCH 41/93] fix: compare amounts of different precision exactly

---
 amount.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amount.go b/amount.go
index 763c636..d7c484f 100644
--- a/amount.go
+++ b/amount.go
@@ -141,6 +141,9 @@ func (a *Amount) IsEqual(b *Amount) bool    { return a.Cmp(b) == 0 }
 func (a *Amount) IsLessThan(b *Amount) bool { return a.Cmp(b) < 0 }
 func (a *Amount) IsMoreThan(b *Amount) bool { return a.Cmp(b) > 0 }
 func (a *Amount) Cmp(b *Amount) int {
+	if a.Decimals < b.Decimals {
+		return a.adjustedTo(b).Cmp(b.Int)
+	}
 	return a.Int.Cmp(b.adjustedTo(a))
 }
 
-- 
2.43.0


From 1722405f9aadb36cfc24009f16bbad189eeccf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:53 +0000
Subject: [PATCH 42/93] fix: postings of different commodities are not
 duplicates

---
 posting.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/posting.go b/posting.go
index 76aa24f..d9d0d5f 100644
--- a/posting.go
+++ b/posting.go
@@ -56,6 +56,7 @@ func (s *Posting) String() string {
 
 func (s *Posting) IsEqual(s2 *Posting) bool {
 	return s.Account == s2.Account &&
+		s.Quantity.Commodity == s2.Quantity.Commodity &&
 		s.Quantity.IsEqual(s2.Quantity)
 }
 
-- 
2.43.0


From 95b811fecfc91a607f256541ced52a2e07b26203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:13 +0000
Subject: [PATCH 43/93] fix: csv2coin keeps the notes of the matching rule when
 the source has a note

---
 cmd/csv2coin/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/csv2coin/main.go b/cmd/csv2coin/main.go
index 99584b2..0d5acae 100644
--- a/cmd/csv2coin/main.go
+++ b/cmd/csv2coin/main.go
@@ -143,7 +143,8 @@ func transactionFrom(row []string, fields map[string]Fields, allRules *Rules) *c
 	}
 
 	if n := trim(valueFor("note")); len(n) > 0 {
-		t.Notes = []string{n}
+		// the notes of the matching rule apply as well
+		t.Notes = append([]string{n}, notes...)
 	}
 
 	var amount *coin.Amount
-- 
2.43.0


From b1106cf2a78be4c1f44c37894c31c71b9a7fd26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:16 +0000
Subject: [PATCH 44/93] fix: csv2coin skips headers with a different number of
 fields than the records

---
 cmd/csv2coin/main.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/cmd/csv2coin/main.go b/cmd/csv2coin/main.go
index 0d5acae..338da36 100644
--- a/cmd/csv2coin/main.go
+++ b/cmd/csv2coin/main.go
@@ -89,14 +89,12 @@ func main() {
 
 func readTransactions(in io.Reader, src *Source, rules *Rules) (transactions []*coin.Transaction) {
 	r := csv.NewReader(in)
+	r.FieldsPerRecord = -1 // header lines can have any number of fields
 	for i := 0; i < src.skip; i++ {
-		row, err := r.Read()
-		if err, ok := err.(*csv.ParseError); ok && err.Err == csv.ErrFieldCount {
-			r.FieldsPerRecord = len(row)
-			continue
-		}
+		_, err := r.Read()
 		check.NoError(err, "Failed to read header line %d", i)
 	}
+	r.FieldsPerRecord = 0 // the rest must have the same number of fields
 	for {
 		rec, err := r.Read()
 		if err == io.EOF {
-- 
2.43.0


From 25e4b2f28ad4dfba4362c27863ad8290d758eb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:22 +0000
Subject: [PATCH 45/93] fix: do not import records without an account id into
 an arbitrary account

---
 coin.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/coin.go b/coin.go
index a8b4948..64dcb33 100644
--- a/coin.go
+++ b/coin.go
@@ -312,6 +312,9 @@ func MustFindAccount(pattern string) *Account {
 }
 
 func FindAccountOfxId(acctId string) (account *Account) {
+	if acctId == "" {
+		return nil // accounts without an id do not match
+	}
 	AccountsDo(func(a *Account) {
 		if account == nil && a.OFXAcctId == acctId {
 			account = a
-- 
2.43.0


From 59acb66db938efe050bcead5dd0a54891fa87c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:49 +0000
Subject: [PATCH 46/93] fix: accept csv sources without a header line count

---
 cmd/csv2coin/rules.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/csv2coin/rules.go b/cmd/csv2coin/rules.go
index c08273d..ab09f1b 100644
--- a/cmd/csv2coin/rules.go
+++ b/cmd/csv2coin/rules.go
@@ -104,8 +104,12 @@ func ScanSource(line []byte, s *bufio.Scanner) *Source {
 	if match == nil {
 		return nil
 	}
-	skip, err := strconv.Atoi(match["skip"])
-	check.NoError(err, "parsing header line count")
+	skip := 0
+	if s := match["skip"]; s != "" {
+		var err error
+		skip, err = strconv.Atoi(s)
+		check.NoError(err, "parsing header line count")
+	}
 	src := &Source{name: match["source"], skip: skip, fields: make(map[string]Fields)}
 	check.If(s.Scan(), "reading next source line: %s\n", s.Err())
 	line = s.Bytes()
-- 
2.43.0


From f2492b16365d0ff935c721ba8c129d3a915fc3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:01 +0000
Subject: [PATCH 47/93] fix: convert GnuCash books with online ids that are not
 numbers

---
 gnucash/account.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gnucash/account.go b/gnucash/account.go
index 6e1dffd..ff14038 100644
--- a/gnucash/account.go
+++ b/gnucash/account.go
@@ -101,9 +101,10 @@ func resolveAccounts(accounts []*Account) {
 			a.Commodity = coin.DefaultCommodity()
 		}
 		if online_id := gca.slot("online_id"); online_id != "" {
-			ids := gc_online_id.FindStringSubmatch(online_id)
-			a.OFXBankId = ids[2]
-			a.OFXAcctId = ids[3]
+			if ids := gc_online_id.FindStringSubmatch(online_id); ids != nil {
+				a.OFXBankId = ids[2]
+				a.OFXAcctId = ids[3]
+			}
 		}
 	}
 	// Link parents and children.
-- 
2.43.0


From af726b0377b4ee1eec5086aa519ad223baa7b928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:06 +0000
Subject: [PATCH 48/93] fix: convert GnuCash books without the built-in default
 commodity

---
 cmd/gc2coin/main.go | 6 +++++-
 gnucash/account.go  | 9 +++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/cmd/gc2coin/main.go b/cmd/gc2coin/main.go
index 21d505a..314078a 100644
--- a/cmd/gc2coin/main.go
+++ b/cmd/gc2coin/main.go
@@ -67,7 +67,11 @@ func main() {
 		if err != nil {
 			panic(err)
 		}
-		_, err = io.WriteString(f, "\n")
+		end := "\n"
+		if c.Id == coin.DefaultCommodityId {
+			end = "  default\n\n"
+		}
+		_, err = io.WriteString(f, end)
 		if err != nil {
 			panic(err)
 		}
diff --git a/gnucash/account.go b/gnucash/account.go
index ff14038..a435ac1 100644
--- a/gnucash/account.go
+++ b/gnucash/account.go
@@ -84,6 +84,15 @@ var (
 )
 
 func resolveAccounts(accounts []*Account) {
+	if coin.Commodities[coin.DefaultCommodityId] == nil {
+		// not a commodity of this book, use that of the first account
+		for _, gca := range accounts {
+			if gca.CommodityId != "" {
+				coin.DefaultCommodityId = gca.CommodityId
+				break
+			}
+		}
+	}
 	for _, gca := range accounts {
 		if gca.Guid == "" {
 			panic("account without guid: " + gca.Name)
-- 
2.43.0


From 199cecc5519398b6d13513c043bcf7ae9e391aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:37 +0000
Subject: [PATCH 49/93] fix: recurring dates of samples are in order and not
 repeated

---
 cmd/gen2coin/dates.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/cmd/gen2coin/dates.go b/cmd/gen2coin/dates.go
index ebcdf9f..34ce4b4 100644
--- a/cmd/gen2coin/dates.go
+++ b/cmd/gen2coin/dates.go
@@ -48,20 +48,33 @@ func weekly(count int, interval int, days ...time.Weekday) dateGen {
 					candidates = candidates[:len(candidates)-1]
 					picks = append(picks, pick)
 				}
-				sort.Slice(picks, func(i, j int) bool { return picks[i] < picks[j] })
 			}
+			var newDates []time.Time
 			for _, pick := range picks {
 				pick := current.AddDate(0, 0, int(pick))
 				if !(end.Before(pick) || pick.Before(begin)) {
-					dates = append(dates, pick)
+					newDates = append(newDates, pick)
 				}
 			}
+			dates = append(dates, sortedDates(newDates)...)
 			current = current.AddDate(0, 0, 7*interval)
 		}
 		return dates
 	}
 }
 
+// sortedDates sorts the dates and drops repeated ones
+// (different picks can be the same date, e.g. the 31st and the last day of a month).
+func sortedDates(dates []time.Time) (sorted []time.Time) {
+	sort.Slice(dates, func(i, j int) bool { return dates[i].Before(dates[j]) })
+	for i, d := range dates {
+		if i == 0 || !d.Equal(dates[i-1]) {
+			sorted = append(sorted, d)
+		}
+	}
+	return sorted
+}
+
 var mDays = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31}
 
 // monthly generates ascending list of dates for @count out of @days every @interval months.
@@ -107,8 +120,7 @@ func monthly(count int, interval int, days ...int) dateGen {
 					newDates = append(newDates, pick)
 				}
 			}
-			sort.Slice(newDates, func(i, j int) bool { return newDates[i].Before(newDates[j]) })
-			dates = append(dates, newDates...)
+			dates = append(dates, sortedDates(newDates)...)
 			current = current.AddDate(0, 1*interval, 0)
 		}
 		return dates
-- 
2.43.0


From 56ab8e71dc1c31d455efdffe21e7565e826fd1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:03 +0000
Subject: [PATCH 50/93] fix: which unknown account commodity is reported does
 not vary

---
 coin.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coin.go b/coin.go
index 64dcb33..7c242c5 100644
--- a/coin.go
+++ b/coin.go
@@ -218,7 +218,7 @@ func ResolveAccounts() {
 	}
 
 	// sort children, link commodities
-	for _, a := range AccountsByName {
+	AccountsDo(func(a *Account) {
 		if pn := a.ParentName(); pn != "" {
 			warn.If(!(pn == a.Parent.FullName), "%s doesn't match parent name %s\n", a.Parent.Name, pn)
 			warn.If(!isChild(a.Parent, a), "%s is not a child of %s\n", a.FullName, a.Parent.FullName)
@@ -231,7 +231,7 @@ func ResolveAccounts() {
 		sort.Slice(a.Children, func(i, j int) bool {
 			return a.Children[i].Name < a.Children[j].Name
 		})
-	}
+	})
 
 }
 
-- 
2.43.0


From 1adeb376a02528d47d6630270b68dacf05860e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:39 +0000
Subject: [PATCH 51/93] fix: failed writes of output make the commands fail

---
 check/check.go        | 15 +++++++++++++++
 cmd/coin/main.go      |  4 +++-
 cmd/coin2html/main.go |  5 +++--
 cmd/csv2coin/main.go  |  7 ++++---
 cmd/gen2coin/main.go  | 12 +++++++-----
 cmd/ofx2coin/main.go  | 11 ++++++-----
 6 files changed, 38 insertions(+), 16 deletions(-)

diff --git a/check/check.go b/check/check.go
index ef23c99..25c09d8 100644
--- a/check/check.go
+++ b/check/check.go
@@ -2,6 +2,7 @@ package check
 
 import (
 	"fmt"
+	"io"
 	"os"
 )
 
@@ -32,3 +33,17 @@ func Includes(list []string, s string, format string, args ...interface{}) {
 	fmt.Fprint(os.Stderr, "Bad value %s\n"+format, append([]interface{}{s}, args...))
 	os.Exit(1)
 }
+
+// Writer returns a writer that passes everything on to w and fails the process
+// when it cannot be written, so that partial output does not look like success.
+func Writer(w io.Writer) io.Writer {
+	return writer{w}
+}
+
+type writer struct{ io.Writer }
+
+func (w writer) Write(p []byte) (int, error) {
+	n, err := w.Writer.Write(p)
+	NoError(err, "writing output")
+	return n, err
+}
diff --git a/cmd/coin/main.go b/cmd/coin/main.go
index 3400f93..c44d682 100644
--- a/cmd/coin/main.go
+++ b/cmd/coin/main.go
@@ -6,6 +6,8 @@ import (
 	"io"
 	"os"
 	"sort"
+
+	"github.com/mkobetic/coin/check"
 )
 
 var (
@@ -78,5 +80,5 @@ func main() {
 		cmd.Parse(nil)
 	}
 	cmd.init()
-	cmd.execute(os.Stdout)
+	cmd.execute(check.Writer(os.Stdout))
 }
diff --git a/cmd/coin2html/main.go b/cmd/coin2html/main.go
index 2101912..8a32337 100644
--- a/cmd/coin2html/main.go
+++ b/cmd/coin2html/main.go
@@ -7,6 +7,7 @@ import (
 	"os"
 
 	"github.com/mkobetic/coin"
+	"github.com/mkobetic/coin/check"
 )
 
 //go:generate npm --prefix js run build
@@ -19,7 +20,7 @@ var htmlBody string
 
 func main() {
 	coin.LoadAll()
-	var f = os.Stdout
+	var f = check.Writer(os.Stdout)
 	var encoder = json.NewEncoder(f)
 	encoder.SetIndent("", "\t")
 	fmt.Fprintln(f, "<!DOCTYPE html>")
@@ -53,5 +54,5 @@ func main() {
 
 	fmt.Fprint(f, htmlBody)
 	fmt.Fprintln(f, "</body>\n</html>")
-	f.Close()
+	check.NoError(os.Stdout.Close(), "closing output")
 }
diff --git a/cmd/csv2coin/main.go b/cmd/csv2coin/main.go
index 338da36..2f3a3a1 100644
--- a/cmd/csv2coin/main.go
+++ b/cmd/csv2coin/main.go
@@ -53,7 +53,7 @@ func main() {
 	}
 
 	if *dumpRules {
-		rules.Write(os.Stdout)
+		rules.Write(check.Writer(os.Stdout))
 		return
 	}
 
@@ -81,9 +81,10 @@ func main() {
 	// write transactions
 	sort.Stable(transactions)
 
+	out := check.Writer(os.Stdout)
 	for _, t := range transactions {
-		t.Write(os.Stdout, false)
-		fmt.Fprintln(os.Stdout)
+		t.Write(out, false)
+		fmt.Fprintln(out)
 	}
 }
 
diff --git a/cmd/gen2coin/main.go b/cmd/gen2coin/main.go
index b54fc26..202ff40 100644
--- a/cmd/gen2coin/main.go
+++ b/cmd/gen2coin/main.go
@@ -71,14 +71,15 @@ func main() {
 	}
 
 	if dir == "" { // just dump everything into stdout
+		out := check.Writer(os.Stdout)
 		if asJson {
-			encoder := json.NewEncoder(os.Stdout)
+			encoder := json.NewEncoder(out)
 			encoder.SetIndent("", "\t")
 			encoder.Encode(transactions)
 		 } else {
 				for _, t := range transactions {
-					t.Write(os.Stdout, false)
-					fmt.Fprintln(os.Stdout)
+					t.Write(out, false)
+					fmt.Fprintln(out)
 				}
 			}
 		return
@@ -113,8 +114,9 @@ func main() {
 		w, err = os.Create(filepath.Join(dir, label+".coin"))
 		check.NoError(err, "opening transaction file %s.coin", label)
 		for _, t := range batch {
-			t.Write(w, false)
-			fmt.Fprintln(w)
+			check.NoError(t.Write(w, false), "writing transaction file %s.coin", label)
+			_, err = fmt.Fprintln(w)
+			check.NoError(err, "writing newline")
 		}
 		check.NoError(w.Close(), "closing transaction file %s.coin", label)
 	}
diff --git a/cmd/ofx2coin/main.go b/cmd/ofx2coin/main.go
index f57cf7c..3f362e4 100644
--- a/cmd/ofx2coin/main.go
+++ b/cmd/ofx2coin/main.go
@@ -39,14 +39,15 @@ func init() {
 func main() {
 	flag.Parse()
 	coin.LoadAll()
+	out := check.Writer(os.Stdout)
 
 	if *dumpOFXIDs {
 		coin.AccountsDo(func(a *coin.Account) {
 			if a.OFXAcctId != "" {
 				if a.OFXBankId != "" {
-					fmt.Printf("%s/%s %s\n", a.OFXBankId, a.OFXAcctId, a.FullName)
+					fmt.Fprintf(out, "%s/%s %s\n", a.OFXBankId, a.OFXAcctId, a.FullName)
 				} else {
-					fmt.Printf("%s %s\n", a.OFXAcctId, a.FullName)
+					fmt.Fprintf(out, "%s %s\n", a.OFXAcctId, a.FullName)
 				}
 			}
 		})
@@ -64,7 +65,7 @@ func main() {
 	}
 
 	if *dumpRules {
-		rules.Write(os.Stdout)
+		rules.Write(out)
 		return
 	}
 
@@ -118,8 +119,8 @@ func main() {
 	}
 
 	for _, t := range transactions {
-		t.Write(os.Stdout, false)
-		fmt.Fprintln(os.Stdout)
+		t.Write(out, false)
+		fmt.Fprintln(out)
 	}
 }
 
-- 
2.43.0


From 761b314c0b2864fcd4dfc3aa6c84c38fce952730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:41 +0000
Subject: [PATCH 52/93] fix: gc2coin reports files it cannot complete

---
 cmd/gc2coin/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/gc2coin/main.go b/cmd/gc2coin/main.go
index 314078a..b39e1c6 100644
--- a/cmd/gc2coin/main.go
+++ b/cmd/gc2coin/main.go
@@ -41,7 +41,11 @@ func next(fn string) (*os.File, func()) {
 	if err != nil {
 		panic(err)
 	}
-	return f, func() { f.Close() }
+	return f, func() {
+		if err := f.Close(); err != nil {
+			panic(err)
+		}
+	}
 }
 
 func main() {
-- 
2.43.0


From 542389800e74329160c2971f693a06cb7f95bf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:17 +0000
Subject: [PATCH 53/93] fix: csv2coin reports rules it cannot read to the end

---
 cmd/csv2coin/rules.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/csv2coin/rules.go b/cmd/csv2coin/rules.go
index ab09f1b..797ee60 100644
--- a/cmd/csv2coin/rules.go
+++ b/cmd/csv2coin/rules.go
@@ -207,6 +207,7 @@ func ReadRules(r io.Reader) *Rules {
 	for {
 		if bytes.Equal(line, separator) {
 			if !s.Scan() { // nothing after separator
+				check.NoError(s.Err(), "Failed reading rules")
 				return &rules
 			}
 			break
@@ -216,6 +217,7 @@ func ReadRules(r io.Reader) *Rules {
 		rules.sources[source.name] = source
 		for line = s.Bytes(); len(line) == 0; line = s.Bytes() {
 			if !s.Scan() { // no separator
+				check.NoError(s.Err(), "Failed reading rules")
 				return &rules
 			}
 		}
-- 
2.43.0


From 1a3f615f0a36adea20380583c869906ccba894ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:14 +0000
Subject: [PATCH 54/93] fix: trimming keeps words of any length

---
 cmd/coin/utils.go     | 13 +------------
 cmd/csv2coin/utils.go | 18 ++----------------
 cmd/ofx2coin/utils.go | 18 ++----------------
 3 files changed, 5 insertions(+), 44 deletions(-)

diff --git a/cmd/coin/utils.go b/cmd/coin/utils.go
index 8466dc4..564fc57 100644
--- a/cmd/coin/utils.go
+++ b/cmd/coin/utils.go
@@ -69,18 +69,7 @@ func trim(ps []*coin.Posting, begin, end coin.Date) []*coin.Posting {
 
 func trimWS(in ...string) (out []string) {
 	for _, line := range in {
-		var w strings.Builder
-		words := bufio.NewScanner(strings.NewReader(line))
-		words.Split(bufio.ScanWords)
-		wIsFirst := true
-		for words.Scan() {
-			if !wIsFirst {
-				w.WriteByte(' ')
-			}
-			w.Write(words.Bytes())
-			wIsFirst = false
-		}
-		out = append(out, w.String())
+		out = append(out, strings.Join(strings.Fields(line), " "))
 	}
 	return out
 }
diff --git a/cmd/csv2coin/utils.go b/cmd/csv2coin/utils.go
index 5c47a7c..b09b14c 100644
--- a/cmd/csv2coin/utils.go
+++ b/cmd/csv2coin/utils.go
@@ -1,21 +1,7 @@
 package main
 
-import (
-	"bufio"
-	"strings"
-)
+import "strings"
 
 func trim(in string) string {
-	scanner := bufio.NewScanner(strings.NewReader(strings.TrimSpace(in)))
-	scanner.Split(bufio.ScanWords)
-	var w strings.Builder
-	isFirst := true
-	for scanner.Scan() {
-		if !isFirst {
-			w.WriteByte(' ')
-		}
-		w.Write(scanner.Bytes())
-		isFirst = false
-	}
-	return w.String()
+	return strings.Join(strings.Fields(in), " ")
 }
diff --git a/cmd/ofx2coin/utils.go b/cmd/ofx2coin/utils.go
index 5c47a7c..b09b14c 100644
--- a/cmd/ofx2coin/utils.go
+++ b/cmd/ofx2coin/utils.go
@@ -1,21 +1,7 @@
 package main
 
-import (
-	"bufio"
-	"strings"
-)
+import "strings"
 
 func trim(in string) string {
-	scanner := bufio.NewScanner(strings.NewReader(strings.TrimSpace(in)))
-	scanner.Split(bufio.ScanWords)
-	var w strings.Builder
-	isFirst := true
-	for scanner.Scan() {
-		if !isFirst {
-			w.WriteByte(' ')
-		}
-		w.Write(scanner.Bytes())
-		isFirst = false
-	}
-	return w.String()
+	return strings.Join(strings.Fields(in), " ")
 }
-- 
2.43.0


From 974ab76d63c83c22be7003c4055f99cdf0ba3af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:51 +0000
Subject: [PATCH 55/93] fix: -bmo keeps a last line without newline

---
 cmd/ofx2coin/bmo.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/ofx2coin/bmo.go b/cmd/ofx2coin/bmo.go
index ac33eb6..77da5bf 100644
--- a/cmd/ofx2coin/bmo.go
+++ b/cmd/ofx2coin/bmo.go
@@ -39,7 +39,8 @@ func (r *bmoReader) Read(p []byte) (n int, err error) {
 	loop:
 		for {
 			r.lastLine, err = r.ReadBytes('\n')
-			if err != nil {
+			// the last line does not have to end with a newline
+			if err != nil && !(err == io.EOF && len(r.lastLine) > 0) {
 				return 0, err
 			}
 			if !r.reachedHeader {
-- 
2.43.0


From fc6934a4da04caffb596ef771fd7bce0554c28fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:01 +0000
Subject: [PATCH 56/93] fix: an include line may end with blanks

---
 include.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include.go b/include.go
index 054b376..e4dcc75 100644
--- a/include.go
+++ b/include.go
@@ -21,7 +21,7 @@ type Include struct {
 	file string
 }
 
-var includeHead = regexp.MustCompile(`include\s+(.+)`)
+var includeHead = regexp.MustCompile(`include\s+(.+?)\s*$`)
 
 func (p *Parser) parseInclude(fn string) (*Include, error) {
 	matches := includeHead.FindSubmatch(p.Bytes())
-- 
2.43.0


From 656f18e4b1df6603f4dcd624160292aee1702c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:00 +0000
Subject: [PATCH 57/93] fix: gc2coin keeps a commodity named template

---
 cmd/gc2coin/main.go  | 3 ---
 gnucash/commodity.go | 3 +++
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/gc2coin/main.go b/cmd/gc2coin/main.go
index b39e1c6..91e7b51 100644
--- a/cmd/gc2coin/main.go
+++ b/cmd/gc2coin/main.go
@@ -64,9 +64,6 @@ func main() {
 	f, done := next(coin.CommoditiesFilename)
 	defer done()
 	coin.CommoditiesDo(func(c *coin.Commodity) {
-		if c.Name == "template" {
-			return
-		}
 		err := c.Write(f, *ledger)
 		if err != nil {
 			panic(err)
diff --git a/gnucash/commodity.go b/gnucash/commodity.go
index e55c50e..5971c16 100644
--- a/gnucash/commodity.go
+++ b/gnucash/commodity.go
@@ -55,6 +55,9 @@ func CommodityFrom(c *Commodity) *coin.Commodity {
 
 func resolveCommodities(commodities []*Commodity) {
 	for _, gc := range commodities {
+		if gc.Space == "template" {
+			continue // internal to scheduled transactions
+		}
 		c := CommodityFrom(gc)
 		coin.Commodities[c.Id] = c
 	}
-- 
2.43.0


From 023cdef8588f33b5913e49591747163c46679a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:25 +0000
Subject: [PATCH 58/93] fix: the viewer's Cum.Total with sub-accounts is the
 running total

---
 cmd/coin2html/js/src/viewsRegister.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/coin2html/js/src/viewsRegister.ts b/cmd/coin2html/js/src/viewsRegister.ts
index a7b8836..dc018e7 100644
--- a/cmd/coin2html/js/src/viewsRegister.ts
+++ b/cmd/coin2html/js/src/viewsRegister.ts
@@ -188,7 +188,7 @@ function viewRegisterAggregatedWithSubAccounts(
       columns.unshift([row[0], (g) => dateToString(g.date), "date"]);
       // append total correctly
       if (options.aggregatedTotal)
-        columns.push([total, (g) => balanceOrSum(g).toString(), "amount"]);
+        columns.push([total, (g) => g.total.toString(), "amount"]);
       return columns;
     })
     .join("td")
-- 
2.43.0


From 38f19a44026015bd23b6a5057fba5c5335e9c7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:27 +0000
Subject: [PATCH 59/93] fix: the viewer aggregates the partial periods at both
 ends of the selected dates

---
 cmd/coin2html/js/src/utils.ts                        | 10 +++++++++-
 cmd/coin2html/js/src/viewsAggregatedRegisterChart.ts |  5 +++--
 cmd/coin2html/js/src/viewsRegister.ts                |  5 +++--
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/cmd/coin2html/js/src/utils.ts b/cmd/coin2html/js/src/utils.ts
index 19c5920..62f91f6 100644
--- a/cmd/coin2html/js/src/utils.ts
+++ b/cmd/coin2html/js/src/utils.ts
@@ -38,6 +38,14 @@ export function balanceOrSum(g: PostingGroup) {
     : g.balance;
 }
 
+// start dates of all the periods overlapping the selected time range
+export function periods(groupKey: d3.TimeInterval): Date[] {
+  return groupKey.range(
+    groupKey.floor(State.StartDate),
+    new Date(State.EndDate.getTime() + 1),
+  );
+}
+
 export function groupBy(
   postings: Posting[],
   groupBy: d3.TimeInterval,
@@ -53,7 +61,7 @@ export function groupBy(
   const data: PostingGroup[] = [];
   const total = new Amount(0, commodity);
   let balance = new Amount(0, commodity);
-  return groupBy.range(State.StartDate, State.EndDate).map((date) => {
+  return periods(groupBy).map((date) => {
     let postings = groups.get(dateToString(date));
     const sum = new Amount(0, commodity);
     if (!postings || postings.length == 0) {
diff --git a/cmd/coin2html/js/src/viewsAggregatedRegisterChart.ts b/cmd/coin2html/js/src/viewsAggregatedRegisterChart.ts
index be06439..da77427 100644
--- a/cmd/coin2html/js/src/viewsAggregatedRegisterChart.ts
+++ b/cmd/coin2html/js/src/viewsAggregatedRegisterChart.ts
@@ -13,6 +13,7 @@ import {
 } from "./views";
 import {
   groupByWithSubAccounts,
+  periods,
   PostingGroup,
   shortenAccountName,
 } from "./utils";
@@ -40,7 +41,7 @@ export function viewAggregatedRegisterChart(options?: {
   addExcludedSubAccountsSpan(containerSelector, account);
 
   const groupKey = Aggregation[State.View.Aggregate] as d3.TimeInterval;
-  const dates = groupKey.range(State.StartDate, State.EndDate);
+  const dates = periods(groupKey);
   const maxAccounts = State.View.AggregatedSubAccountMax;
   const accountGroups = groupByWithSubAccounts(
     account,
@@ -99,7 +100,7 @@ export function viewAggregatedRegisterChart(options?: {
     .attr("transform", "translate(" + margin.left + "," + margin.top + ")");
 
   var x = scaleLinear([0, max], [0, width]).nice();
-  var y = scaleTime([State.StartDate, State.EndDate], [0, height]);
+  var y = scaleTime([dates[0], State.EndDate], [0, height]);
   var z = scaleOrdinal([0, maxAccounts], schemeCategory10);
   var xAxis = axisTop(x);
   var yAxis = axisLeft(y).ticks(groupKey, "%Y/%m/%d");
diff --git a/cmd/coin2html/js/src/viewsRegister.ts b/cmd/coin2html/js/src/viewsRegister.ts
index dc018e7..936e04e 100644
--- a/cmd/coin2html/js/src/viewsRegister.ts
+++ b/cmd/coin2html/js/src/viewsRegister.ts
@@ -21,6 +21,7 @@ import {
   groupBy,
   groupByWithSubAccounts,
   last,
+  periods,
   PostingGroup,
   shortenAccountName,
   trimToDateRange,
@@ -84,7 +85,7 @@ function viewRegisterAggregated(
   if (options.aggregatedTotal) labels.push("Cum.Total");
   const table = addTableWithHeader(containerSelector, labels);
   const data = groupBy(
-    account.postings,
+    trimToDateRange(account.postings, State.StartDate, State.EndDate),
     groupKey,
     (p) => p.transaction.posted,
     account.commodity,
@@ -121,7 +122,7 @@ function viewRegisterAggregatedWithSubAccounts(
     exclude: Account[];
   },
 ) {
-  const dates = groupKey.range(State.StartDate, State.EndDate);
+  const dates = periods(groupKey);
   const groups = groupByWithSubAccounts(
     account,
     groupKey,
-- 
2.43.0


From 629a9cf131d64a06b3402b8d073a40022a656815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:29 +0000
Subject: [PATCH 60/93] fix: the viewer's balances carry over from before the
 selected dates

---
 cmd/coin2html/js/src/account.ts       | 5 +++++
 cmd/coin2html/js/src/utils.ts         | 3 ++-
 cmd/coin2html/js/src/viewsRegister.ts | 1 +
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/cmd/coin2html/js/src/account.ts b/cmd/coin2html/js/src/account.ts
index 38af2b9..eda76c8 100644
--- a/cmd/coin2html/js/src/account.ts
+++ b/cmd/coin2html/js/src/account.ts
@@ -48,6 +48,10 @@ export class Account {
     );
     return p ? p.balance : new Amount(0, this.commodity);
   }
+  // balance before the first posting on or after the date
+  balanceBefore(date: Date): Amount {
+    return this.balanceAt(new Date(date.getTime() - 1));
+  }
   toString(): string {
     return this.fullName;
   }
@@ -85,6 +89,7 @@ export class Account {
         groupKey,
         (p) => p.transaction.posted,
         acc.commodity,
+        acc.balanceBefore(from),
       ),
     }));
   }
diff --git a/cmd/coin2html/js/src/utils.ts b/cmd/coin2html/js/src/utils.ts
index 62f91f6..fd1981f 100644
--- a/cmd/coin2html/js/src/utils.ts
+++ b/cmd/coin2html/js/src/utils.ts
@@ -51,6 +51,7 @@ export function groupBy(
   groupBy: d3.TimeInterval,
   date: (p: Posting) => Date,
   commodity: Commodity,
+  opening = new Amount(0, commodity), // balance before the first posting
 ): PostingGroup[] {
   const groups = new Map<string, Posting[]>();
   for (const p of postings) {
@@ -60,7 +61,7 @@ export function groupBy(
   }
   const data: PostingGroup[] = [];
   const total = new Amount(0, commodity);
-  let balance = new Amount(0, commodity);
+  let balance = opening;
   return periods(groupBy).map((date) => {
     let postings = groups.get(dateToString(date));
     const sum = new Amount(0, commodity);
diff --git a/cmd/coin2html/js/src/viewsRegister.ts b/cmd/coin2html/js/src/viewsRegister.ts
index 936e04e..22dcf0a 100644
--- a/cmd/coin2html/js/src/viewsRegister.ts
+++ b/cmd/coin2html/js/src/viewsRegister.ts
@@ -89,6 +89,7 @@ function viewRegisterAggregated(
     groupKey,
     (p) => p.transaction.posted,
     account.commodity,
+    account.balanceBefore(State.StartDate),
   );
   table
     .append("tbody")
-- 
2.43.0


From bf50eb24cba9cac753133de1878e1364bdd04b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:31 +0000
Subject: [PATCH 61/93] fix: the viewer's date inputs allow whole years

---
 cmd/coin2html/js/src/ui.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/coin2html/js/src/ui.ts b/cmd/coin2html/js/src/ui.ts
index 2d4fe01..7aaa256 100644
--- a/cmd/coin2html/js/src/ui.ts
+++ b/cmd/coin2html/js/src/ui.ts
@@ -34,8 +34,8 @@ function initializeUI() {
   State.EndDate = MaxDate;
   State.ShowClosedAccounts = false;
 
-  const minDate = dateToString(new Date(MinDate.getFullYear(), 1, 1));
-  const maxDate = dateToString(new Date(MaxDate.getFullYear() + 1, 1, 1));
+  const minDate = dateToString(new Date(MinDate.getFullYear(), 0, 1));
+  const maxDate = dateToString(new Date(MaxDate.getFullYear() + 1, 0, 1));
   select(EndDateInput)
     .property("valueAsDate", State.EndDate)
     .property("min", minDate)
-- 
2.43.0


From db4c80bc8a67bea4db87ac229a09bdfc666892cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:33 +0000
Subject: [PATCH 62/93] fix: the viewer shows the same dates in all time zones

---
 cmd/coin2html/js/src/account.ts                      |  9 +++++----
 cmd/coin2html/js/src/commodity.ts                    | 12 ++++++------
 cmd/coin2html/js/src/ui.ts                           |  8 ++++++--
 cmd/coin2html/js/src/utils.ts                        |  5 +++++
 cmd/coin2html/js/src/views.ts                        | 10 +++++-----
 cmd/coin2html/js/src/viewsAggregatedRegisterChart.ts |  4 ++--
 6 files changed, 29 insertions(+), 19 deletions(-)

diff --git a/cmd/coin2html/js/src/account.ts b/cmd/coin2html/js/src/account.ts
index eda76c8..91eb4f1 100644
--- a/cmd/coin2html/js/src/account.ts
+++ b/cmd/coin2html/js/src/account.ts
@@ -3,6 +3,7 @@ import { State } from "./views";
 import {
   AccountBalanceAndTotal,
   AccountPostingGroups,
+  dateFromString,
   dateToString,
   groupBy,
   trimToDateRange,
@@ -232,7 +233,7 @@ export function loadAccounts(source: string) {
       impAccount.fullName,
       Commodity.find(impAccount.commodity),
       parent,
-      impAccount.closed ? new Date(impAccount.closed) : undefined,
+      impAccount.closed ? dateFromString(impAccount.closed) : undefined,
       impAccount.location,
     );
     Accounts[account.fullName] = account;
@@ -245,7 +246,7 @@ export function loadAccounts(source: string) {
 export function loadTransactions(source: string) {
   const importedTransactions = JSON.parse(source) as importedTransactions;
   for (const impTransaction of Object.values(importedTransactions)) {
-    const posted = new Date(impTransaction.posted);
+    const posted = dateFromString(impTransaction.posted);
     if (posted < MinDate) MinDate = posted;
     if (MaxDate < posted) MaxDate = posted;
     const transaction = new Transaction(
@@ -273,6 +274,6 @@ export function loadTransactions(source: string) {
       );
     }
   }
-  MinDate = new Date(MinDate.getFullYear(), 0, 1);
-  MaxDate = new Date(MaxDate.getFullYear(), 11, 31);
+  MinDate = new Date(Date.UTC(MinDate.getUTCFullYear(), 0, 1));
+  MaxDate = new Date(Date.UTC(MaxDate.getUTCFullYear(), 11, 31));
 }
diff --git a/cmd/coin2html/js/src/commodity.ts b/cmd/coin2html/js/src/commodity.ts
index 64c0895..49974e8 100644
--- a/cmd/coin2html/js/src/commodity.ts
+++ b/cmd/coin2html/js/src/commodity.ts
@@ -1,6 +1,6 @@
-import { scaleTime } from "d3-scale";
-import { timeWeek } from "d3-time";
-import { dateToString, last } from "./utils";
+import { scaleUtc } from "d3-scale";
+import { utcWeek } from "d3-time";
+import { dateFromString, dateToString, last } from "./utils";
 
 // Commodity, Amount and Price
 
@@ -19,7 +19,7 @@ export function newConversion(knownPrices: Price[]): Conversion {
     throw new Error("cannot create conversion from empty price list");
   const from = knownPrices[0].date;
   const to = last(knownPrices)!.date;
-  const dates = timeWeek.range(from, to);
+  const dates = utcWeek.range(from, to);
   const params = {
     from: knownPrices[0].commodity,
     to: knownPrices[0].value.commodity,
@@ -31,7 +31,7 @@ export function newConversion(knownPrices: Price[]): Conversion {
     return Object.assign((d: Date) => knownPrices[0], params);
   }
   // scale from dates to the index of the week in the date range
-  const scale = scaleTime([from, to], [0, dates.length - 1]).clamp(true);
+  const scale = scaleUtc([from, to], [0, dates.length - 1]).clamp(true);
   // generate array of weekly prices
   let cpi = 0;
   const weeklyPrices = dates.map((d) => {
@@ -339,7 +339,7 @@ export function loadPrices(source: string) {
       }
       const price = new Price(
         commodity,
-        new Date(imported.time),
+        dateFromString(imported.time),
         amount,
         imported.location
       );
diff --git a/cmd/coin2html/js/src/ui.ts b/cmd/coin2html/js/src/ui.ts
index 7aaa256..6ce23c6 100644
--- a/cmd/coin2html/js/src/ui.ts
+++ b/cmd/coin2html/js/src/ui.ts
@@ -34,8 +34,12 @@ function initializeUI() {
   State.EndDate = MaxDate;
   State.ShowClosedAccounts = false;
 
-  const minDate = dateToString(new Date(MinDate.getFullYear(), 0, 1));
-  const maxDate = dateToString(new Date(MaxDate.getFullYear() + 1, 0, 1));
+  const minDate = dateToString(
+    new Date(Date.UTC(MinDate.getUTCFullYear(), 0, 1)),
+  );
+  const maxDate = dateToString(
+    new Date(Date.UTC(MaxDate.getUTCFullYear() + 1, 0, 1)),
+  );
   select(EndDateInput)
     .property("valueAsDate", State.EndDate)
     .property("min", minDate)
diff --git a/cmd/coin2html/js/src/utils.ts b/cmd/coin2html/js/src/utils.ts
index fd1981f..977ea12 100644
--- a/cmd/coin2html/js/src/utils.ts
+++ b/cmd/coin2html/js/src/utils.ts
@@ -6,6 +6,11 @@ export function dateToString(date: Date): string {
   return date.toISOString().split("T")[0];
 }
 
+// all dates are UTC midnight, just like the values of date inputs
+export function dateFromString(date: string): Date {
+  return new Date(date.replaceAll("/", "-"));
+}
+
 export function trimToDateRange(postings: Posting[], start: Date, end: Date) {
   const from = postings.findIndex((p) => p.transaction.posted >= start);
   if (from < 0) return [];
diff --git a/cmd/coin2html/js/src/views.ts b/cmd/coin2html/js/src/views.ts
index c42468b..9d4d4a4 100644
--- a/cmd/coin2html/js/src/views.ts
+++ b/cmd/coin2html/js/src/views.ts
@@ -1,5 +1,5 @@
 import { select } from "d3-selection";
-import { timeMonth, timeWeek, timeYear } from "d3-time";
+import { utcMonth, utcWeek, utcYear } from "d3-time";
 import {
   renderPostings,
   renderPostingsWithSubAccounts,
@@ -13,10 +13,10 @@ import { viewBalancesChart } from "./viewsBalancesChart";
 
 export const Aggregation = {
   None: null,
-  Weekly: timeWeek,
-  Monthly: timeMonth,
-  Quarterly: timeMonth.every(3),
-  Yearly: timeYear,
+  Weekly: utcWeek,
+  Monthly: utcMonth,
+  Quarterly: utcMonth.every(3),
+  Yearly: utcYear,
 };
 
 export enum AggregationStyle {
diff --git a/cmd/coin2html/js/src/viewsAggregatedRegisterChart.ts b/cmd/coin2html/js/src/viewsAggregatedRegisterChart.ts
index da77427..6a07c68 100644
--- a/cmd/coin2html/js/src/viewsAggregatedRegisterChart.ts
+++ b/cmd/coin2html/js/src/viewsAggregatedRegisterChart.ts
@@ -19,7 +19,7 @@ import {
 } from "./utils";
 import { Account } from "./account";
 import { axisLeft, axisTop } from "d3-axis";
-import { scaleLinear, scaleOrdinal, scaleTime } from "d3-scale";
+import { scaleLinear, scaleOrdinal, scaleUtc } from "d3-scale";
 import { schemeCategory10 } from "d3-scale-chromatic";
 import { select } from "d3-selection";
 
@@ -100,7 +100,7 @@ export function viewAggregatedRegisterChart(options?: {
     .attr("transform", "translate(" + margin.left + "," + margin.top + ")");
 
   var x = scaleLinear([0, max], [0, width]).nice();
-  var y = scaleTime([dates[0], State.EndDate], [0, height]);
+  var y = scaleUtc([dates[0], State.EndDate], [0, height]);
   var z = scaleOrdinal([0, maxAccounts], schemeCategory10);
   var xAxis = axisTop(x);
   var yAxis = axisLeft(y).ticks(groupKey, "%Y/%m/%d");
-- 
2.43.0


From 638b9265e0087efd0c2f96e277943da39ebd19fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:34 +0000
Subject: [PATCH 63/93] fix: the viewer keeps accounts named Root below other
 accounts

---
 cmd/coin2html/js/src/account.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/coin2html/js/src/account.ts b/cmd/coin2html/js/src/account.ts
index 91eb4f1..f89d341 100644
--- a/cmd/coin2html/js/src/account.ts
+++ b/cmd/coin2html/js/src/account.ts
@@ -226,7 +226,7 @@ export const Roots: Account[] = [];
 export function loadAccounts(source: string) {
   const importedAccounts = JSON.parse(source) as importedAccounts;
   for (const impAccount of Object.values(importedAccounts)) {
-    if (impAccount.name == "Root") continue;
+    if (impAccount.fullName == "Root") continue;
     const parent = Accounts[impAccount.parent];
     const account = new Account(
       impAccount.name,
-- 
2.43.0


From 010764d0d74e4be000283f7431945ec2890cca19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:36 +0000
Subject: [PATCH 64/93] fix: the viewer survives From after To

---
 cmd/coin2html/js/src/utils.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/coin2html/js/src/utils.ts b/cmd/coin2html/js/src/utils.ts
index 977ea12..400af62 100644
--- a/cmd/coin2html/js/src/utils.ts
+++ b/cmd/coin2html/js/src/utils.ts
@@ -149,7 +149,9 @@ export function groupByWithSubAccounts(
   );
   // compute average for each account
   const averages = groups.map((g, i) => {
-    const lastGroup = last(g.groups)!;
+    const lastGroup = last(g.groups);
+    // no groups if the time range is empty
+    if (!lastGroup) return { index: i, avg: 0 };
     return {
       index: i,
       avg:
-- 
2.43.0


From 6a71c0842570fdea049f86d8cf339772251efbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:06 +0000
Subject: [PATCH 65/93] fix: tell the file and line of a ledger line that
 cannot be parsed

---
 coin.go        | 2 +-
 price.go       | 5 ++++-
 transaction.go | 6 +++++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/coin.go b/coin.go
index 7c242c5..9d62057 100644
--- a/coin.go
+++ b/coin.go
@@ -97,7 +97,7 @@ func Load(r io.Reader, fn string) {
 	p := NewParser(r)
 	for {
 		i, err := p.Next(fn)
-		check.NoError(err, "Parsing error")
+		check.NoError(err, "Parsing error at %s:%d", fn, p.lineNr)
 		if i == nil {
 			return
 		}
diff --git a/price.go b/price.go
index 5c3976b..cd93378 100644
--- a/price.go
+++ b/price.go
@@ -45,7 +45,10 @@ func (p *Parser) parsePrice(fn string) (*Price, error) {
 	if match == nil {
 		return nil, fmt.Errorf("invalid price line")
 	}
-	date := mustParseDate(match, 0)
+	date, err := parseDate(match, 0)
+	if err != nil {
+		return nil, err
+	}
 	currencyId := string(match["commodity2"])
 	line := p.lineNr
 	location := fmt.Sprintf("%s:%d", fn, line)
diff --git a/transaction.go b/transaction.go
index 2da6142..48f7b0e 100644
--- a/transaction.go
+++ b/transaction.go
@@ -128,8 +128,12 @@ func (p *Parser) parseTransaction(fn string) (*Transaction, error) {
 	if match == nil {
 		return nil, fmt.Errorf("invalid transaction line: %s", p.Text())
 	}
+	posted, err := parseDate(match, 0)
+	if err != nil {
+		return nil, err
+	}
 	t := &Transaction{
-		Posted:      mustParseDate(match, 0),
+		Posted:      posted,
 		Code:        match["code"],
 		Description: strings.TrimRight(match["description"], " \t"),
 		line:        p.lineNr,
-- 
2.43.0


From 41c7c92e909c7845877d9a2d4242544581c7897c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:07 +0000
Subject: [PATCH 66/93] fix: refuse a commodity line without a valid commodity

---
 commodity.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/commodity.go b/commodity.go
index 529de6c..449951c 100644
--- a/commodity.go
+++ b/commodity.go
@@ -156,6 +156,9 @@ var commodityBodyREX = rex.MustCompile(``+
 func (p *Parser) parseCommodity(fn string) (*Commodity, error) {
 	c := &Commodity{Decimals: 2, line: p.lineNr, file: fn}
 	match := commodityHeadREX.Match(p.Bytes())
+	if match == nil {
+		return nil, fmt.Errorf("invalid commodity line: %s", p.Text())
+	}
 	c.Id = match["commodity"]
 	for p.Scan() {
 		line := p.Bytes()
-- 
2.43.0


From 81c194d1db007951dd7a55746faa163cce04a420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:08 +0000
Subject: [PATCH 67/93] fix: tell the place of an account line without a valid
 name

---
 account.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/account.go b/account.go
index 96b196b..e3f4606 100644
--- a/account.go
+++ b/account.go
@@ -118,6 +118,9 @@ func (a *Account) ParentName() string {
 
 func (p *Parser) parseAccount(fn string) (*Account, error) {
 	match := accountHeadREX.Match(p.Bytes())
+	if match == nil {
+		return nil, fmt.Errorf("invalid account line: %s", p.Text())
+	}
 	a := accountFromName(match["account"])
 	a.line = p.lineNr
 	a.file = fn
-- 
2.43.0


From aafb03136c059fff5863913da126832e85c96b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:09 +0000
Subject: [PATCH 68/93] fix: refuse an include without a path instead of
 crashing

---
 include.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include.go b/include.go
index e4dcc75..6d4fda0 100644
--- a/include.go
+++ b/include.go
@@ -25,6 +25,9 @@ var includeHead = regexp.MustCompile(`include\s+(.+?)\s*$`)
 
 func (p *Parser) parseInclude(fn string) (*Include, error) {
 	matches := includeHead.FindSubmatch(p.Bytes())
+	if matches == nil {
+		return nil, fmt.Errorf("invalid include line: %s", p.Text())
+	}
 	i := &Include{Path: string(matches[1]), line: p.lineNr, file: fn}
 	p.Scan()
 	return i, nil
-- 
2.43.0


From 0736e16b89d1db8bb39b5b904b2be780dca97eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:10 +0000
Subject: [PATCH 69/93] fix: refuse an account closed on something that is not
 a date

---
 account.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/account.go b/account.go
index e3f4606..fdec44e 100644
--- a/account.go
+++ b/account.go
@@ -145,6 +145,8 @@ func (p *Parser) parseAccount(fn string) (*Account, error) {
 			a.OFXAcctId = i
 		} else if i := match["csv_acctid"]; i != "" {
 			a.CSVAcctId = i
+		} else {
+			return a, fmt.Errorf("unrecognized account line: %s", p.Text())
 		}
 	}
 	return a, p.Err()
-- 
2.43.0


From c0a44529c4300e2236663fc735517fd46d06a282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:11 +0000
Subject: [PATCH 70/93] fix: refuse a test clause that does not end, it hides
 the rest of the file

---
 test.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/test.go b/test.go
index 94b6332..c2261e6 100644
--- a/test.go
+++ b/test.go
@@ -29,7 +29,10 @@ func (p *Parser) parseTest(fn string) (*Test, error) {
 		b.Write(p.Bytes())
 		fmt.Fprintln(&b)
 	}
-	return t, p.Err()
+	if err := p.Err(); err != nil {
+		return nil, err
+	}
+	return nil, fmt.Errorf("test clause without end test: %s", t.Location())
 }
 
 func (t *Test) Location() string {
-- 
2.43.0


From 17e6ad2874d9d109ea1789d8d30dd4173355126f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:32 +0000
Subject: [PATCH 71/93] fix: tell the place of a posting whose account cannot
 be found

---
 coin.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/coin.go b/coin.go
index 9d62057..d18ba4e 100644
--- a/coin.go
+++ b/coin.go
@@ -2,6 +2,7 @@
 package coin
 
 import (
+	"errors"
 	"fmt"
 	"io"
 	"os"
@@ -241,7 +242,9 @@ func ResolveTransactions(checkPostings bool) {
 		var commodity *Commodity
 		var commodities = map[*Commodity]bool{}
 		for _, s := range t.Postings {
-			s.Account = MustFindAccount(s.accountName)
+			account, err := findAccount(s.accountName)
+			check.NoError(err, "%s", t.Location())
+			s.Account = account
 			s.Account.addPosting(s)
 			commodity = s.Account.Commodity
 			commodities[commodity] = true
@@ -286,15 +289,23 @@ func ResolveTransactions(checkPostings bool) {
 // This is to avoid having to spell out non-leaf accounts in full.
 // Otherwise panic.
 func MustFindAccount(pattern string) *Account {
+	a, err := findAccount(pattern)
+	if err != nil {
+		panic(err)
+	}
+	return a
+}
+
+func findAccount(pattern string) (*Account, error) {
 	if a := AccountsByName[pattern]; a != nil {
-		return a
+		return a, nil
 	}
 	as := FindAccounts(pattern)
 	if len(as) == 0 {
-		panic(fmt.Errorf("cannot find account %s", pattern))
+		return nil, fmt.Errorf("cannot find account %s", pattern)
 	}
 	if len(as) == 1 {
-		return as[0]
+		return as[0], nil
 	}
 	parent := as[0].FullName + ":"
 	all := true
@@ -302,13 +313,13 @@ func MustFindAccount(pattern string) *Account {
 		all = all && strings.HasPrefix(a.FullName, parent)
 	}
 	if all {
-		return as[0]
+		return as[0], nil
 	}
 	msg := fmt.Sprintf("Found %d accounts matching %s", len(as), pattern)
 	for _, a := range as {
 		msg += "\n" + a.FullName
 	}
-	panic(msg)
+	return nil, errors.New(msg)
 }
 
 func FindAccountOfxId(acctId string) (account *Account) {
-- 
2.43.0


From 725569071dfe18fa75471e47ffaed1cd46cd131c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:33 +0000
Subject: [PATCH 72/93] fix: csv2coin crashed on a template ending with $

---
 cmd/csv2coin/rules.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/csv2coin/rules.go b/cmd/csv2coin/rules.go
index 797ee60..6d6f7d6 100644
--- a/cmd/csv2coin/rules.go
+++ b/cmd/csv2coin/rules.go
@@ -44,7 +44,7 @@ func (f *Field) derivedField(row []string, fields map[string]Fields) string {
 	}
 	out := []string{parts[0]}
 	for _, p := range parts[1:] {
-		if p[0] == '{' {
+		if strings.HasPrefix(p, "{") {
 			i := strings.IndexByte(p, '}')
 			if i > 0 {
 				f := p[1:i]
@@ -68,7 +68,7 @@ func (f *Field) directField(s string) string {
 	}
 	out := []string{parts[0]}
 	for _, p := range parts[1:] {
-		if '0' <= p[0] && p[0] <= '9' {
+		if p != "" && '0' <= p[0] && p[0] <= '9' {
 			out = append(out, match[p[0:1]]+p[1:])
 		} else {
 			out = append(out, p)
-- 
2.43.0


From 327639f7ac05fe88d19bd03941345bc8a315bb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:34 +0000
Subject: [PATCH 73/93] fix: csv2coin crashed on a field index the records do
 not have

---
 cmd/csv2coin/rules.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/csv2coin/rules.go b/cmd/csv2coin/rules.go
index 6d6f7d6..e8556bb 100644
--- a/cmd/csv2coin/rules.go
+++ b/cmd/csv2coin/rules.go
@@ -27,6 +27,7 @@ func (f *Field) Value(row []string, fields map[string]Fields) string {
 	if f.idx == nil {
 		return f.derivedField(row, fields)
 	}
+	check.If(0 <= *f.idx && *f.idx < len(row), "no field %d in record %q", *f.idx, row)
 	s := row[*f.idx]
 	if f.re == nil {
 		return s
-- 
2.43.0


From c1400f0cb87809e0db93eefc03708fd0da4da353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:34 +0000
Subject: [PATCH 74/93] fix: ofx2coin crashed on a statement without
 transactions

---
 cmd/ofx2coin/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/ofx2coin/main.go b/cmd/ofx2coin/main.go
index 3f362e4..9de7d41 100644
--- a/cmd/ofx2coin/main.go
+++ b/cmd/ofx2coin/main.go
@@ -134,6 +134,9 @@ func readTransactions(r io.Reader, rules *coin.RuleIndex) (transactions []*coin.
 	for _, resp := range responses.Bank {
 		resp := resp.(*ofxgo.StatementResponse)
 		rules := rules.AccountRulesFor(resp.BankAcctFrom.AcctID.String())
+		if resp.BankTranList == nil {
+			continue // no transactions in the statement
+		}
 		last := len(resp.BankTranList.Transactions) - 1
 		for i, t := range resp.BankTranList.Transactions {
 			var balance *big.Rat
@@ -154,6 +157,9 @@ func readTransactions(r io.Reader, rules *coin.RuleIndex) (transactions []*coin.
 	for _, resp := range responses.CreditCard {
 		resp := resp.(*ofxgo.CCStatementResponse)
 		rules := rules.AccountRulesFor(resp.CCAcctFrom.AcctID.String())
+		if resp.BankTranList == nil {
+			continue // no transactions in the statement
+		}
 		for _, t := range resp.BankTranList.Transactions {
 			if nt := newTransaction(rules,
 				t.DtPosted.Time,
-- 
2.43.0


From 9f04bfa344ad855a1dbacb8bc1997db38295f64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:35 +0000
Subject: [PATCH 75/93] fix: gc2coin crashed on a price of an unknown commodity

---
 gnucash/price.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gnucash/price.go b/gnucash/price.go
index a40cf49..a1adbd9 100644
--- a/gnucash/price.go
+++ b/gnucash/price.go
@@ -39,8 +39,8 @@ type Price struct {
 func resolvePrices(prices []*Price) {
 	for _, gp := range prices {
 		p := &coin.Price{}
-		p.Commodity = coin.Commodities[gp.CommodityId]
-		p.Currency = coin.Commodities[gp.CurrencyId]
+		p.Commodity = coin.MustFindCommodity(gp.CommodityId, "gnucash price")
+		p.Currency = coin.MustFindCommodity(gp.CurrencyId, "gnucash price")
 		p.Value = mustParseAmount(gp.ValueFraction, p.Currency)
 		p.Time = mustParseTimeStamp(gp.Date)
 		p.Commodity.Prices[p.Currency] =
-- 
2.43.0


From c99355fbed373aa0de71b80429826daaf8de685e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:36 +0000
Subject: [PATCH 76/93] fix: gc2coin refuses malformed fractions instead of
 converting something else

---
 gnucash/gnucash.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gnucash/gnucash.go b/gnucash/gnucash.go
index 29069a4..f15d061 100644
--- a/gnucash/gnucash.go
+++ b/gnucash/gnucash.go
@@ -78,10 +78,11 @@ func mustParseAmount(f string, c *coin.Commodity) *coin.Amount {
 	if len(values) != 2 {
 		panic("invalid fraction: " + f)
 	}
-	num := new(big.Int)
-	num.SetString(values[0], 10)
-	den := new(big.Int)
-	den.SetString(values[1], 10)
+	num, okNum := new(big.Int).SetString(values[0], 10)
+	den, okDen := new(big.Int).SetString(values[1], 10)
+	if !okNum || !okDen {
+		panic("invalid fraction: " + f)
+	}
 	if den.Sign() <= 0 {
 		panic("invalid denominator: " + den.String())
 	}
-- 
2.43.0


From 49a997edd140aea8b07bdfc1394355edfd9a1e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:00 +0000
Subject: [PATCH 77/93] fix: refuse an include of blanks

---
 include.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include.go b/include.go
index 6d4fda0..f2f22d5 100644
--- a/include.go
+++ b/include.go
@@ -21,7 +21,7 @@ type Include struct {
 	file string
 }
 
-var includeHead = regexp.MustCompile(`include\s+(.+?)\s*$`)
+var includeHead = regexp.MustCompile(`include\s+(\S.*?)\s*$`)
 
 func (p *Parser) parseInclude(fn string) (*Include, error) {
 	matches := includeHead.FindSubmatch(p.Bytes())
-- 
2.43.0


From 42d7d5b25ffc5921e4d78a9cdad210d341c95da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:45 +0000
Subject: [PATCH 78/93] fix: csv2coin crashed on a value derived from itself

---
 cmd/csv2coin/rules.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/csv2coin/rules.go b/cmd/csv2coin/rules.go
index e8556bb..f34352a 100644
--- a/cmd/csv2coin/rules.go
+++ b/cmd/csv2coin/rules.go
@@ -35,7 +35,13 @@ func (f *Field) Value(row []string, fields map[string]Fields) string {
 	return f.directField(s)
 }
 
+// derived fields whose values are being computed
+var computing = map[*Field]bool{}
+
 func (f *Field) derivedField(row []string, fields map[string]Fields) string {
+	check.If(!computing[f], "value depends on itself: %q", f.out)
+	computing[f] = true
+	defer delete(computing, f)
 	if f.condField != "" && len(f.re.Match([]byte(fields[f.condField].Value(row, fields)))) == 0 {
 		return ""
 	}
-- 
2.43.0


From 0b0be6c871b46792b8dc32c03c12778f6b93755b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:33 +0000
Subject: [PATCH 79/93] fix: gc2coin crashed on an account that is its own
 ancestor

---
 gnucash/account.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gnucash/account.go b/gnucash/account.go
index a435ac1..462f718 100644
--- a/gnucash/account.go
+++ b/gnucash/account.go
@@ -122,6 +122,15 @@ func resolveAccounts(accounts []*Account) {
 		a.Parent.Children = append(a.Parent.Children, a)
 	}
 
+	for _, a := range AccountsByGuid {
+		depth := 0
+		for p := a.Parent; p != nil; p = p.Parent {
+			if depth++; depth > len(AccountsByGuid) {
+				panic("account is its own ancestor: " + a.Name)
+			}
+		}
+	}
+
 	// Sort children.
 	for _, a := range AccountsByGuid {
 		a.FullName = buildFullName(a)
-- 
2.43.0


From 9b12fa8686e8a9883c3028221df435180d319afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:54 +0000
Subject: [PATCH 80/93] fix: tell the place of an include that cannot be
 resolved

---
 coin.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coin.go b/coin.go
index d18ba4e..b037ec7 100644
--- a/coin.go
+++ b/coin.go
@@ -121,10 +121,10 @@ func Load(r io.Reader, fn string) {
 			Tests = append(Tests, i)
 		case *Include:
 			files, err := i.Files()
-			check.NoError(err, "Failed to resolve include %s", i.Path)
+			check.NoError(err, "Failed to resolve include %s: %s", i.Path, i.Location())
 			for _, f := range files {
 				// This won't catch nested loops, but should catch the easier to make errors.
-				check.If(f != fn, "Include loop detected %s", f)
+				check.If(f != fn, "Include loop detected %s: %s", f, i.Location())
 				LoadFile(f)
 			}
 		default:
-- 
2.43.0


From b99126e305efe8af9feae98c2129c97afe205c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:02 +0000
Subject: [PATCH 81/93] fix: coin register crashed on a negative -g

---
 cmd/coin/register.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/coin/register.go b/cmd/coin/register.go
index bbcf140..59d79ef 100644
--- a/cmd/coin/register.go
+++ b/cmd/coin/register.go
@@ -71,6 +71,7 @@ func (cmd *cmdRegister) init() {
 }
 
 func (cmd *cmdRegister) execute(f io.Writer) {
+	check.If(cmd.top >= 0, "-g cannot be negative")
 	pattern := cmd.Arg(0)
 	acc := coin.MustFindAccount(pattern)
 	if cmd.output == "text" {
-- 
2.43.0


From 672ace32d72391ed6b807299581126a9feb38061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:04 +0000
Subject: [PATCH 82/93] fix: refuse a transaction line that goes on after its
 date

---
 transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transaction.go b/transaction.go
index 48f7b0e..c8db01f 100644
--- a/transaction.go
+++ b/transaction.go
@@ -117,7 +117,7 @@ func (t *Transaction) Write(w io.Writer, ledger bool) error {
 	return nil
 }
 
-var transactionREX = rex.MustCompile(`%s(\s+\((?P<code>\w+)\))?(\s+(?P<description>[^\s;][^;]*))?(\s*; ?(?P<shortNote>.*))?`, DateREX)
+var transactionREX = rex.MustCompile(`^%s(\s+\((?P<code>\w+)\))?(\s+(?P<description>[^\s;][^;]*))?\s*(; ?(?P<shortNote>.*))?$`, DateREX)
 var postingREX = rex.MustCompile(``+
 	`^\s+%s(\s+%s(\s+=\s+%s)?)?(\s*; ?(?P<shortNote>.*))?|`+
 	`^\s+; ?(?P<note>.*)`,
-- 
2.43.0


From dbd3872ff6ba3d06328703e41c23bf976639ab6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:06 +0000
Subject: [PATCH 83/93] fix: refuse a posting with text that is neither an
 amount nor a note

---
 transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transaction.go b/transaction.go
index c8db01f..1ee472b 100644
--- a/transaction.go
+++ b/transaction.go
@@ -119,7 +119,7 @@ func (t *Transaction) Write(w io.Writer, ledger bool) error {
 
 var transactionREX = rex.MustCompile(`^%s(\s+\((?P<code>\w+)\))?(\s+(?P<description>[^\s;][^;]*))?\s*(; ?(?P<shortNote>.*))?$`, DateREX)
 var postingREX = rex.MustCompile(``+
-	`^\s+%s(\s+%s(\s+=\s+%s)?)?(\s*; ?(?P<shortNote>.*))?|`+
+	`^\s+%s(\s+%s(\s+=\s+%s)?)?\s*(; ?(?P<shortNote>.*))?$|`+
 	`^\s+; ?(?P<note>.*)`,
 	accountExpREX, AmountREX, AmountREX)
 
-- 
2.43.0


From f040ba1742e6d48b86ef886682c050bcb829f8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:09 +0000
Subject: [PATCH 84/93] fix: refuse the first line of an entry when only a part
 of it can be read

---
 account.go   | 2 +-
 commodity.go | 2 +-
 include.go   | 2 +-
 price.go     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/account.go b/account.go
index fdec44e..b328fab 100644
--- a/account.go
+++ b/account.go
@@ -84,7 +84,7 @@ var AccountREX = rex.MustCompile(`(?P<account>%s(:%s)*)`, accountNameREX, accoun
 
 // accountExpREX matches an account name or an abbreviation of it (see MustFindAccount).
 var accountExpREX = rex.MustCompile(`(?P<account>%s(::?%s)*)`, accountNameREX, accountNameREX)
-var accountHeadREX = rex.MustCompile(`account\s+%s`, AccountREX)
+var accountHeadREX = rex.MustCompile(`^account\s+%s\s*(;.*)?$`, AccountREX)
 var accountBodyREX = rex.MustCompile(``+
 	`(\s+note\s+(?P<note>\S.*))|`+
 	`(\s+commodity\s+%s)|`+
diff --git a/commodity.go b/commodity.go
index 449951c..7df1dae 100644
--- a/commodity.go
+++ b/commodity.go
@@ -144,7 +144,7 @@ func (c *Commodity) Write(w io.Writer, ledger bool) error {
 }
 
 var CommodityREX = rex.MustCompile(`(?P<commodity>[A-Za-z][\w]*)`)
-var commodityHeadREX = rex.MustCompile(`commodity\s+%s`, CommodityREX)
+var commodityHeadREX = rex.MustCompile(`^commodity\s+%s\s*(;.*)?$`, CommodityREX)
 var commodityBodyREX = rex.MustCompile(``+
 	`(\s+note\s+(?P<note>.+))|`+
 	`(\s+format\s+(?P<format>%s))|`+
diff --git a/include.go b/include.go
index f2f22d5..201621f 100644
--- a/include.go
+++ b/include.go
@@ -21,7 +21,7 @@ type Include struct {
 	file string
 }
 
-var includeHead = regexp.MustCompile(`include\s+(\S.*?)\s*$`)
+var includeHead = regexp.MustCompile(`^include\s+(\S.*?)\s*$`)
 
 func (p *Parser) parseInclude(fn string) (*Include, error) {
 	matches := includeHead.FindSubmatch(p.Bytes())
diff --git a/price.go b/price.go
index cd93378..d688720 100644
--- a/price.go
+++ b/price.go
@@ -38,7 +38,7 @@ func (p *Price) Write(w io.Writer, ledger bool) error {
 	return err
 }
 
-var priceREX = rex.MustCompile(`P\s+%s\s+%s\s+%s`, DateREX, CommodityREX, AmountREX)
+var priceREX = rex.MustCompile(`^P\s+%s\s+%s\s+%s\s*(;.*)?$`, DateREX, CommodityREX, AmountREX)
 
 func (p *Parser) parsePrice(fn string) (*Price, error) {
 	match := priceREX.Match(p.Bytes())
-- 
2.43.0


From c7628cd6fd8ebc3630eb07d345c509b91d1e7766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:11 +0000
Subject: [PATCH 85/93] fix: refuse a property when only a part of it can be
 read

---
 account.go   | 18 +++++++++++-------
 commodity.go | 10 +++++-----
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/account.go b/account.go
index b328fab..3ee10cf 100644
--- a/account.go
+++ b/account.go
@@ -86,12 +86,12 @@ var AccountREX = rex.MustCompile(`(?P<account>%s(:%s)*)`, accountNameREX, accoun
 var accountExpREX = rex.MustCompile(`(?P<account>%s(::?%s)*)`, accountNameREX, accountNameREX)
 var accountHeadREX = rex.MustCompile(`^account\s+%s\s*(;.*)?$`, AccountREX)
 var accountBodyREX = rex.MustCompile(``+
-	`(\s+note\s+(?P<note>\S.*))|`+
-	`(\s+commodity\s+%s)|`+
-	`(\s+closed\s+%s)|`+
-	`(\s+ofx_bankid\s+(?P<ofx_bankid>\d+))|`+
-	`(\s+ofx_acctid\s+(?P<ofx_acctid>\d+))|`+
-	`(\s+csv_acctid\s+(?P<csv_acctid>\w+))`,
+	`^\s+((note\s+(?P<note>\S.*))|`+
+	`(commodity\s+%s)|`+
+	`(closed\s+%s)|`+
+	`(ofx_bankid\s+(?P<ofx_bankid>\d+))|`+
+	`(ofx_acctid\s+(?P<ofx_acctid>\d+))|`+
+	`(csv_acctid\s+(?P<csv_acctid>\w+)))\s*(;.*)?$`,
 	CommodityREX, DateREX)
 
 func accountFromName(fullName string) *Account {
@@ -138,7 +138,11 @@ func (p *Parser) parseAccount(fn string) (*Account, error) {
 		} else if c := match["commodity"]; c != "" {
 			a.CommodityId = c
 		} else if d := match["date"]; d != "" {
-			a.Closed = mustParseDate(match, 0)
+			closed, err := parseDate(match, 0)
+			if err != nil {
+				return nil, err
+			}
+			a.Closed = closed
 		} else if i := match["ofx_bankid"]; i != "" {
 			a.OFXBankId = i
 		} else if i := match["ofx_acctid"]; i != "" {
diff --git a/commodity.go b/commodity.go
index 7df1dae..64eabed 100644
--- a/commodity.go
+++ b/commodity.go
@@ -146,11 +146,11 @@ func (c *Commodity) Write(w io.Writer, ledger bool) error {
 var CommodityREX = rex.MustCompile(`(?P<commodity>[A-Za-z][\w]*)`)
 var commodityHeadREX = rex.MustCompile(`^commodity\s+%s\s*(;.*)?$`, CommodityREX)
 var commodityBodyREX = rex.MustCompile(``+
-	`(\s+note\s+(?P<note>.+))|`+
-	`(\s+format\s+(?P<format>%s))|`+
-	`(\s+(?P<nomarket>nomarket)\s*)|`+
-	`(\s+symbol\s+(?P<symbol>[\w\.]+))|`+
-	`(\s+(?P<default>default)\s*)`,
+	`^\s+((note\s+(?P<note>\S.*))|`+
+	`(format\s+(?P<format>%s))|`+
+	`(?P<nomarket>nomarket)|`+
+	`(symbol\s+(?P<symbol>[\w\.]+))|`+
+	`(?P<default>default))\s*(;.*)?$`,
 	AmountREX)
 
 func (p *Parser) parseCommodity(fn string) (*Commodity, error) {
-- 
2.43.0


From 69a5bbfa1ac1d621106d2970acb8c53707e922bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:14 +0000
Subject: [PATCH 86/93] fix: refuse a date when only a part of it is one

---
 date.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/date.go b/date.go
index d53a80f..6ec0f1f 100644
--- a/date.go
+++ b/date.go
@@ -39,7 +39,7 @@ func (d *Date) String() string {
 }
 
 func (d *Date) Set(s string) (err error) {
-	match := DateREX.Match([]byte(s))
+	match := wholeDateREX.Match([]byte(s))
 	if match == nil {
 		return fmt.Errorf("invalid date: %s", s)
 	}
@@ -54,8 +54,9 @@ var YearFormat = "2006"
 var ymd = rex.MustCompile(`` +
 	`((?P<ymd>((?P<ymdy>\d\d(\d\d)?)/)?(?P<ymdm>\d{1,2})/(?P<ymdd>\d{1,2}))|` +
 	`(?P<ym>(?P<ymy>\d{4})(/(?P<ymm>\d{1,2}))?))`)
-var offset = rex.MustCompile(`(?P<offset>[+-]\d+[d|w|m|y])`)
+var offset = rex.MustCompile(`(?P<offset>[+-]\d+[dwmy])`)
 var DateREX = rex.MustCompile(`(?P<date>%s?%s?)`, ymd, offset)
+var wholeDateREX = rex.MustCompile(`^%s$`, DateREX)
 
 func mustParseDate(match map[string]string, idx int) time.Time {
 	d, err := parseDate(match, idx)
@@ -66,7 +67,7 @@ func mustParseDate(match map[string]string, idx int) time.Time {
 }
 
 func MustParseDate(s string) time.Time {
-	match := DateREX.Match([]byte(s))
+	match := wholeDateREX.Match([]byte(s))
 	return mustParseDate(match, 0)
 }
 
-- 
2.43.0


From d0e2553abbe5288c6e2dce87322d33f04a931776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:16 +0000
Subject: [PATCH 87/93] fix: refuse a day that does not exist instead of
 reading another one

---
 date.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/date.go b/date.go
index 6ec0f1f..239d465 100644
--- a/date.go
+++ b/date.go
@@ -71,14 +71,21 @@ func MustParseDate(s string) time.Time {
 	return mustParseDate(match, 0)
 }
 
-// closestYear returns the year in which given day is the closest to today.
+// closestYear returns the year in which given day is the closest to today,
+// or this year if there is no such day in any year.
 func closestYear(m time.Month, d int) (year int) {
 	today := time.Date(Year, Month, Day, 12, 0, 0, 0, time.UTC)
-	var closest time.Duration
-	for _, y := range []int{Year, Year - 1, Year + 1} {
-		distance := time.Date(y, m, d, 12, 0, 0, 0, time.UTC).Sub(today).Abs()
-		if y == Year || distance < closest {
-			year, closest = y, distance
+	closest := time.Duration(-1)
+	year = Year
+	for i := 0; i <= 8; i++ { // leap days may be eight years apart
+		for _, y := range []int{Year - i, Year + i} {
+			date := time.Date(y, m, d, 12, 0, 0, 0, time.UTC)
+			if date.Day() != d {
+				continue
+			}
+			if distance := date.Sub(today).Abs(); closest < 0 || distance < closest {
+				year, closest = y, distance
+			}
 		}
 	}
 	return year
@@ -122,6 +129,9 @@ func parseDate(match map[string]string, idx int) (t time.Time, err error) {
 	}
 
 	t = time.Date(y, time.Month(m), d, 12, 0, 0, 0, time.UTC)
+	if t.Month() != time.Month(m) || t.Day() != d {
+		return t, fmt.Errorf("no such day: %s", match["date"])
+	}
 	if offset != "" {
 		e := len(offset) - 1
 		o, _ := strconv.Atoi(offset[:e])
-- 
2.43.0


From 08bbdad96e4b2a19584846003a4affe674f57953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:19 +0000
Subject: [PATCH 88/93] fix: refuse dates moved beyond the years that can be
 written

---
 date.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/date.go b/date.go
index 239d465..f379b9c 100644
--- a/date.go
+++ b/date.go
@@ -54,7 +54,7 @@ var YearFormat = "2006"
 var ymd = rex.MustCompile(`` +
 	`((?P<ymd>((?P<ymdy>\d\d(\d\d)?)/)?(?P<ymdm>\d{1,2})/(?P<ymdd>\d{1,2}))|` +
 	`(?P<ym>(?P<ymy>\d{4})(/(?P<ymm>\d{1,2}))?))`)
-var offset = rex.MustCompile(`(?P<offset>[+-]\d+[dwmy])`)
+var offset = rex.MustCompile(`(?P<offset>[+-]\d{1,7}[dwmy])`)
 var DateREX = rex.MustCompile(`(?P<date>%s?%s?)`, ymd, offset)
 var wholeDateREX = rex.MustCompile(`^%s$`, DateREX)
 
@@ -145,6 +145,9 @@ func parseDate(match map[string]string, idx int) (t time.Time, err error) {
 		case 'y':
 			t = t.AddDate(o, 0, 0)
 		}
+		if t.Year() < 0 || t.Year() > 9999 {
+			return t, fmt.Errorf("date out of range: %s", match["date"])
+		}
 	}
 	return t, nil
 }
-- 
2.43.0


From 13f681407c3203c1c17416eb76160ff94047e6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:57 +0000
Subject: [PATCH 89/93] fix: read four digit years below 100 as written

---
 date.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/date.go b/date.go
index f379b9c..5e283e0 100644
--- a/date.go
+++ b/date.go
@@ -103,7 +103,7 @@ func parseDate(match map[string]string, idx int) (t time.Time, err error) {
 		mm, _ := strconv.Atoi(match["ymdm"])
 		if yy := match["ymdy"]; yy != "" {
 			yyy, _ := strconv.Atoi(yy)
-			if yyy < 100 {
+			if len(yy) == 2 {
 				yyy = y/1000*1000 + yyy
 				if yyy < y && y-yyy > 50 {
 					yyy += 100
-- 
2.43.0


From 19813c69ca70d397026bc0f245b28c044be235f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:01 +0000
Subject: [PATCH 90/93] fix: write and scale amounts of more than 50 digits

---
 pow10.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pow10.go b/pow10.go
index 155aada..0e19e08 100644
--- a/pow10.go
+++ b/pow10.go
@@ -62,12 +62,15 @@ func bigLog10(bi *big.Int) int {
 			return i
 		}
 	}
-	panic("number too big")
+	return len(new(big.Int).Abs(bi).String()) - 1
 }
 
 func bigPow10(i int) *big.Int {
 	if i < 1 {
 		return big1
 	}
+	if i > len(bigPow10s) {
+		return new(big.Int).Exp(big10, big.NewInt(int64(i)), nil)
+	}
 	return bigPow10s[i-1]
 }
-- 
2.43.0


From 43098d551825421f5f6fa0fcb45ad19ec55f116b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:03 +0000
Subject: [PATCH 91/93] fix: keep the permissions of files rewritten in place

---
 cmd/coin/test.go  |  3 +--
 cmd/coin/utils.go | 20 +++++++++++++++++++-
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/cmd/coin/test.go b/cmd/coin/test.go
index 45b9f46..c5d57c8 100644
--- a/cmd/coin/test.go
+++ b/cmd/coin/test.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
 	"io"
 	"os"
-	"path"
 	"strconv"
 	"strings"
 
@@ -128,7 +127,7 @@ func file(t *coin.Test) string {
 // then write the results from the test commands into the file.
 func updateTestFile(ts []*coin.Test) {
 	fn := file(ts[0])
-	tf, err := os.CreateTemp(path.Dir(fn), path.Base(fn))
+	tf, err := createTemp(fn)
 	check.NoError(err, "creating temp file")
 	// read file fn by lines up to line
 	// write the lines into tf
diff --git a/cmd/coin/utils.go b/cmd/coin/utils.go
index 564fc57..35715e1 100644
--- a/cmd/coin/utils.go
+++ b/cmd/coin/utils.go
@@ -25,10 +25,28 @@ func decode(name, encoded string) (decoded []byte) {
 	return decoded
 }
 
+// createTemp creates a file in the directory of fn that can take its place, with the same permissions.
+func createTemp(fn string) (*os.File, error) {
+	fi, err := os.Stat(fn)
+	if err != nil {
+		return nil, err
+	}
+	tf, err := os.CreateTemp(path.Dir(fn), path.Base(fn))
+	if err != nil {
+		return nil, err
+	}
+	if err = tf.Chmod(fi.Mode().Perm()); err != nil {
+		tf.Close()
+		os.Remove(tf.Name())
+		return nil, err
+	}
+	return tf, nil
+}
+
 // replaceFile replaces the contents of file fn with whatever write produces.
 // The old contents stay in place until the new contents are written out completely.
 func replaceFile(fn string, write func(w io.Writer)) {
-	tf, err := os.CreateTemp(path.Dir(fn), path.Base(fn))
+	tf, err := createTemp(fn)
 	check.NoError(err, "creating temp file")
 	w := bufio.NewWriter(tf)
 	write(w)
-- 
2.43.0


From 0810ae4586df88b3d9e6dedc4b43a17c3bd091bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:12 +0000
Subject: [PATCH 92/93] fix: a quote becomes its exact amount

---
 commodity.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/commodity.go b/commodity.go
index 64eabed..df4127d 100644
--- a/commodity.go
+++ b/commodity.go
@@ -237,11 +237,12 @@ func (c *Commodity) convert(amount *Amount, c2 *Commodity, previous []*Commodity
 }
 
 func (c *Commodity) NewAmountFloat(f float64) *Amount {
-	return NewAmount(
-		// FIXME: the int64 conversion can overflow
-		big.NewInt(int64(f*float64(pow10(c.Decimals)))),
-		c,
-	)
+	// the shortest decimal number that reads back as f, f times a power of 10 would not be exact
+	r, ok := new(big.Rat).SetString(strconv.FormatFloat(f, 'f', -1, 64))
+	if !ok {
+		return NewZeroAmount(c)
+	}
+	return NewAmountFrac(r.Num(), r.Denom(), c)
 }
 
 func (c *Commodity) SetFraction(frac int64) {
-- 
2.43.0


From ac6fe8ed986c43368f012fe2258130fdf8819474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:14 +0000
Subject: [PATCH 93/93] fix: a symbol without a quote does not crash

---
 cmd/coin/commodities.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/coin/commodities.go b/cmd/coin/commodities.go
index 66760b9..b32e4b4 100644
--- a/cmd/coin/commodities.go
+++ b/cmd/coin/commodities.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"errors"
 	"fmt"
 	"io"
 	"os"
@@ -75,10 +76,13 @@ func (cmd *cmdCommodities) execute(f io.Writer) {
 				} else {
 					var fx *finance.ForexPair
 					fx, err = forex.Get(c.Id + coin.DefaultCommodityId + "=X")
-					if err == nil {
+					if err == nil && fx != nil {
 						q = &fx.Quote
 					}
 				}
+				if err == nil && q == nil {
+					err = errors.New("no quote found")
+				}
 				if err != nil {
 					fmt.Fprintf(os.Stderr, "%s: %s\n", c.Id, err)
 					return
-- 
2.43.0

