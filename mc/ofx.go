package main

import "strings"

// OFX statements for the import checks.

type ofxLine struct {
	date, amt, name, memo string // date as in OFX, YYYYMMDD with optional time and zone
}

type ofxStatement struct {
	card  bool
	id    string
	lines []ofxLine
	bal   string
}

func ofxEscape(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;").Replace(s)
}

func (s ofxStatement) list() string {
	b := "<BANKTRANLIST>\n<DTSTART>20190101\n<DTEND>20211231\n"
	for i, l := range s.lines {
		typ := "CREDIT"
		if strings.HasPrefix(l.amt, "-") {
			typ = "DEBIT"
		}
		b += "<STMTTRN>\n<TRNTYPE>" + typ + "\n<DTPOSTED>" + l.date + "\n<TRNAMT>" + l.amt + "\n<FITID>id" + strings.Repeat("x", i+1) + "\n<NAME>" + ofxEscape(l.name) + "\n"
		if l.memo != "" {
			b += "<MEMO>" + ofxEscape(l.memo) + "\n"
		}
		b += "</STMTTRN>\n"
	}
	return b + "</BANKTRANLIST>\n"
}

func ofxText(ss []ofxStatement) string {
	out := "OFXHEADER:100\nDATA:OFXSGML\nVERSION:102\nSECURITY:NONE\nENCODING:USASCII\nCHARSET:1252\nCOMPRESSION:NONE\nOLDFILEUID:NONE\nNEWFILEUID:NONE\n\n<OFX>\n" +
		"<SIGNONMSGSRSV1><SONRS><STATUS><CODE>0<SEVERITY>INFO</STATUS><DTSERVER>20200101120000<LANGUAGE>ENG<FI><ORG>B<FID>1</FI></SONRS></SIGNONMSGSRSV1>\n"
	for _, card := range []bool{false, true} {
		b := ""
		for _, s := range ss {
			if s.card != card {
				continue
			}
			if card {
				b += "<CCSTMTTRNRS><TRNUID>0<STATUS><CODE>0<SEVERITY>INFO</STATUS><CCSTMTRS><CURDEF>CAD<CCACCTFROM><ACCTID>" + s.id + "</CCACCTFROM>\n" + s.list() +
					"<LEDGERBAL><BALAMT>" + s.bal + "<DTASOF>20200201</LEDGERBAL></CCSTMTRS></CCSTMTTRNRS>\n"
			} else {
				b += "<STMTTRNRS><TRNUID>0<STATUS><CODE>0<SEVERITY>INFO</STATUS><STMTRS><CURDEF>CAD<BANKACCTFROM><BANKID>1<ACCTID>" + s.id + "<ACCTTYPE>CHECKING</BANKACCTFROM>\n" + s.list() +
					"<LEDGERBAL><BALAMT>" + s.bal + "<DTASOF>20200201</LEDGERBAL></STMTRS></STMTTRNRS>\n"
			}
		}
		if b == "" {
			continue
		}
		if card {
			out += "<CREDITCARDMSGSRSV1>\n" + b + "</CREDITCARDMSGSRSV1>\n"
		} else {
			out += "<BANKMSGSRSV1>\n" + b + "</BANKMSGSRSV1>\n"
		}
	}
	return out + "</OFX>\n"
}
