#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the texts stay readable)."""
import json, os
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("P01","Only balanced transactions are admitted",
  "A transaction whose accounts all share one commodity is accepted exactly when its amounts sum to zero, or exactly one amount is left out, in which case the missing amount becomes the exact negation of the sum of the others. A transaction across accounts of different commodities is accepted exactly when every posting states its amount. A ledger with any rejected transaction makes the reporting commands exit with a non-zero status, name the file and line of a rejected transaction, and print no report.",
  ["inputs","programs"],"every transaction over a small alphabet of accounts, commodities and amounts (2-5 postings, elided amounts at every position), at every position of a multi-file ledger",
  "The fixtures contain only balanced ledgers with at most one missing amount; no test feeds an unbalanced one and looks at the outcome.",
  ["transaction.go","coin.go","cmd/coin/main.go"],[("transaction balancing and inference of the missing amount","coin.go ResolveTransactions"),("posting parsing","transaction.go parseTransaction")],observe=["exit status and stderr of coin balance/register/stats","amounts printed by coin register"])
p("P02","Amounts are exact decimals",
  "An amount written in a ledger is read as exactly the decimal number written, however many digits it has, cut toward zero at the decimal places of its commodity; it is printed back with exactly that many decimals, with the right sign and no digit lost. Sums, differences, negation and comparison of amounts of one commodity are exact for every sign, number of decimals and magnitude, with no rounding and no overflow however many are added. Comparison is by value, whatever number of decimals the amounts are held with.",
  ["inputs"],"every amount text over a small digit alphabet with 0-6 integer and 0-5 decimal digits and boundary magnitudes around powers of ten (up to 81 digits) and of two with the point at every place, for commodities of 0-5 decimals, and every pair of them",
  "Unit tests check a dozen literal values, mostly positive and with two decimals.",
  ["amount.go","pow10.go"],[("amount parsing and formatting","amount.go parseAmount, Format, String, Width"),("amount arithmetic","amount.go AddIn, Negated, Cmp, adjustedTo, NewAmountFrac")])
p("P03","Currency conversion uses the latest price and follows chains",
  "When amounts of different commodities must be combined, an amount is converted with the most recent known price of its commodity in the target commodity, whatever order the prices are written in, and the product is cut toward zero at the decimal places of the target. Without such a price the conversion goes through a chain of prices of intermediate commodities, each step using the latest price. The conversion always terminates, also with cyclic prices, and fails with an error exactly when no chain of prices leads to the target.",
  ["inputs","configurations"],"every price graph over 4 commodities (every subset of directed edges up to a size bound, cycles included), every order of up to 6 and every transposition of up to 14 dated prices of one pair, and amounts of both signs and of several precisions",
  "One test converts along a fixed pair of prices; cycles, several prices per pair, multi-step chains and negative amounts are not exercised.",
  ["commodity.go","coin.go","price.go"],[("price lookup and chain search","commodity.go convert"),("sorting of prices","coin.go ResolvePrices")])
p("P04","Running balances and balance assertions",
  "The balance of an account after a posting is the exact sum of its postings up to it, taken in date order whatever order the files are in, and in written order within a day. A warning that names the account, the date, the actual and the asserted balance and the transaction's place in the files is given for exactly those postings whose asserted balance differs from that sum. A failed assertion changes no amount or balance and does not stop the report.",
  ["inputs","histories"],"every sequence of up to 5 dated postings on two accounts with equal, earlier and later dates, an assertion that holds or fails at any subset of them, and long histories of up to 40 postings",
  "No fixture contains a failing assertion; warnings are never looked at.",
  ["account.go","coin.go","transaction.go"],[("running balances and assertion check","account.go CheckPostings"),("ordering of postings","account.go addPosting, sortPostings")])
p("P05","How a ledger is split into files does not matter",
  "Every entry of the ledger directory is read exactly once, whether it stands in one file or in several .coin files, in a file reached through (nested or wildcard) include entries, or, for prices, in prices.coin, in .prices files or among the transactions. Reports depend only on the entries, not on which file they stand in or in what order files and entries of different days come, and every entry reports the file and line where it really stands.",
  ["configurations","inputs"],"every assignment of up to 5 transactions and 3 prices to up to 3 files, every order within them, and every include tree up to depth 3 over them",
  "The fixtures are single files with at most one include, loaded through the test command rather than from a ledger directory.",
  ["coin.go","include.go","parser.go"],[("loading of the ledger directory","coin.go LoadAll, LoadPrices, Load"),("include resolution","include.go Files")],observe=["coin balance/register -f/stats on the directory"])
p("P06","An account name or abbreviation selects the right account or none",
  "An account's full name always selects that account. Any other expression, compared without regard to case, matches the accounts whose path contains its parts in order, where parts joined by a single colon must lie in consecutive path elements and a double colon skips any number of them; it selects the only matching account, or the one matching account that is an ancestor of all the others. In every other case it is refused, so that no posting and no report ever silently goes to the wrong account.",
  ["inputs","configurations"],"every account tree over a small name alphabet up to depth 4 and every expression of up to 3 parts over that alphabet with single and double colons in both cases",
  "One test looks up a handful of unambiguous abbreviations in one tree; ambiguous ones are not tested.",
  ["coin.go"],[("account lookup","coin.go MustFindAccount, FindAccounts, ToRegex")])
p("P07","Date entry means what the documentation says",
  "A date written as [[YY]YY/]M/D, YYYY or YYYY/M, or any of these or nothing followed by an offset of days, weeks, months or years, denotes the documented day: a two-digit year is the one closest to today, an omitted year gives the date closest to today, an omitted month or day is the first one, and an offset moves from that date or, standing alone, from today. Any other text, and a day that does not exist, is refused. This holds in ledger entries and in date options alike, on every day of the year.",
  ["inputs","configurations"],"every day of a leap and a non-leap year as today, and every valid month/day with omitted, two-digit (all 100) and four-digit years and offsets of every unit in both directions; every text of up to 5 characters of dates, and of up to 3 after the beginnings of dates, right or wrong",
  "Tests cover about twenty date strings on one fixed today.",
  ["date.go"],[("date parsing","date.go parseDate")])
p("P08","Account hierarchy and listing",
  "Every account implied by the full name of another exists, each account is child of the account its full name says, and reports visit each exactly once. The account listing shows, in order of full names, every account with its commodity and description, limited to those matching the given expression; an account that is closed or below a closed one is left out exactly when closed accounts are not asked for.",
  ["inputs","configurations"],"every set of account declarations over a name tree of depth 4 with every subset of them closed, in every declaration order up to a size bound",
  "One fixture lists one tree; implied parents of undeclared accounts, nested closing and filters are sampled once at most.",
  ["account.go","coin.go","cmd/coin/accounts.go"],[("tree construction","coin.go ResolveAccounts"),("listing","cmd/coin/accounts.go execute"),("closing","account.go IsClosed")])
p("P09","Tags are read from notes as documented",
  "Notes of transactions and postings yield exactly the tags written in them: #key gives a tag without value, and '#key: some value' a tag whose value is the text up to the next comma or the end of the line without surrounding blanks, for any number of tags per note and notes per entry, in either short or long notes. A tag filter key or key:value selects the postings that carry, themselves or through their transaction, a tag whose key and value match the given expressions regardless of case.",
  ["inputs"],"every note built of up to 4 fragments from an alphabet of simple tags, value tags, values of one or more characters, commas, blanks and plain text, and every small filter",
  "Tests parse a few notes with multi-character values.",
  ["tags.go","transaction.go"],[("tag parsing","tags.go ParseTags"),("tag filters","tags.go NewTagMatcher, Match")])
p("P10","Account posting lists stay consistent under any history of edits",
  "After any sequence of posting transactions, moving postings between accounts and dropping all transactions, every account lists exactly the postings that belong to it, each once, ordered by date, and postings of one day in the order they arrived there. Moving a posting affects no other posting, and dropping leaves every account empty and reusable.",
  ["histories"],"every sequence of post / move / drop operations up to a depth over 3 accounts and 3 dates, by breadth-first search over the reached states, plus long lists that cross every capacity boundary",
  "One test moves single postings in a fixed list.",
  ["account.go","posting.go","transaction.go"],[("sorted insertion and deletion","account.go addPosting, deletePosting, findPosting"),("move and drop","posting.go MoveTo, transaction.go DropTransactions")])
p("P11","Written commodities, accounts and prices read back the same",
  "A commodity, account or price entry written by coin and read again is the same entry: same id, description, decimal places, market flag and quote symbol of a commodity; same name, commodity, description, closing date and import ids of an account; same date, commodities and exact value of a price. Writing what was read again reproduces the text.",
  ["inputs"],"every combination of the optional directives with values from a small alphabet including one-character and boundary values, 0-5 decimals, in every order of directives",
  "Tests write a couple of entries but never read them back.",
  ["commodity.go","account.go","price.go"],[("writing","Write of commodity.go, account.go, price.go"),("parsing","parseCommodity, parseAccount, parsePrice")])
p("P12","Layout of ledger files carries no meaning",
  "Blank lines, full-line comments between entries, the amount and kind of white space used for indentation and between fields, trailing blanks, the style of line ends and a missing final line end change nothing in what a ledger means. An entry ends where the next entry, a comment line or a blank line starts, so neighbouring entries never leak into each other.",
  ["inputs"],"every layout variation at every gap of a ledger with all kinds of entries, one and two at a time",
  "The fixtures are all written in the canonical layout.",
  ["parser.go","transaction.go","commodity.go","account.go","price.go","test.go"],[("line scanner and entry dispatch","parser.go Next"),("entry regular expressions","transactionREX, postingREX and siblings")])
p("P13","Formatting preserves the meaning of a file",
  "Formatting a file and reading the result gives the same transactions: the same date, code, description, notes and tags, and for every posting the same account, amount, balance assertion, notes and tags, with left-out amounts filled in. No transaction is lost, duplicated or merged, postings keep their order, and amounts, names and notes are never cut off or run together whatever their length.",
  ["inputs"],"every transaction over an alphabet of optional parts (code, description, short and long notes, assertions, left-out amounts, several commodities), with note, description and account lengths swept across the line-length threshold",
  "Fixtures format about ten transactions and compare text; none is read back.",
  ["transaction.go","posting.go","amount.go","cmd/coin/format.go"],[("writing","transaction.go Write, posting.go Write"),("reading","transaction.go parseTransaction"),("command","cmd/coin/format.go")])
p("P14","Formatting sorts and is idempotent",
  "Formatted output is ordered by date; transactions of one day keep their relative order except that those with a balance assertion come after those without. Formatting formatted output reproduces it byte for byte, in place and on standard output alike, and trimming changes only the amount of white space inside descriptions and notes.",
  ["inputs","histories"],"every arrangement of up to 5 transactions over 3 dates with and without assertions, long days of up to 30 transactions, every P13 transaction, and repeated formatting in every mode",
  "No fixture formats its own output or has more than a few transactions per day.",
  ["transaction.go","coin.go","cmd/coin/format.go"],[("ordering","transaction.go Less, sort in ResolveTransactions"),("writing","transaction.go Write")])
p("P15","In-place rewriting never loses the file",
  "Rewriting a file in place (format -i, modify, filling in results of test clauses) leaves, whatever moment the process is killed at and whichever file operation fails or falls short, either the complete old or the complete new content under the file's name. A failed write is reported through a non-zero exit status and leaves the old content in place.",
  ["crash_points","fault_sequences"],"every system call of the rewrite of one and two files of several sizes: kill before and after it, kill after half of a write, failure with an error, short write",
  "No test kills a command or injects an input/output error.",
  ["cmd/coin/format.go","cmd/coin/modify.go","cmd/coin/test.go"],[("replacement of the old file","format.go execute, modify.go execute, test.go updateTestFile")],observe=["content of the directory after the run","exit status"])
p("P16","Modify changes exactly what was selected",
  "The modify command changes exactly what its options select, every selected posting and transaction of every file given and each once: within the transactions that match the payee and transaction-tag conditions, it moves or tags the postings that are on the given account or carry a tag matching the posting-tag condition, and it tags the transactions themselves, only those with a posting on the given account if one is given. It leaves every other transaction and posting and all dates, amounts, descriptions, assertions and existing tags and notes as they were. A tag it adds can be read back with the value given, and the existing tags keep their values.",
  ["inputs","configurations"],"every combination of selection and change options over every ledger of up to 2 transactions with up to 4 postings over small account, payee and tag alphabets",
  "The fixture directory for modify is empty; the command has no test.",
  ["cmd/coin/modify.go","posting.go","account.go"],[("selection and change","cmd/coin/modify.go modify, modifyPosting, addTagLine"),("moving","posting.go MoveTo")])
p("P17","Test clauses are judged and filled in faithfully",
  "Running the test command on a file executes every test clause, reports failure for exactly the clauses whose recorded result differs from what the command prints, and success otherwise. A clause without result gets the actual output written into it, all other lines of the file stay as they were in the same order, and running the completed file again reports success and changes nothing.",
  ["inputs","configurations"],"every file of up to 4 clauses with right, wrong or missing results over several commands, with entries and comments around them, in one or two (included) files",
  "The fixtures are run by this command itself, all with right results.",
  ["cmd/coin/test.go","test.go"],[("execution and update","cmd/coin/test.go execute, updateTestFile"),("clause parsing","test.go parseTest")])
p("P18","Balance report totals are right",
  "The balance report shows for every account the exact sum of its selected postings and the exact sum over it and all its descendants, with amounts of other commodities converted at the latest price, and accounts whose total is zero only when asked for; the grand total over all accounts of one commodity is zero when nothing is filtered out. Begin date (inclusive), end date (exclusive), payee and tag filters each restrict the postings counted, and combine, and the level option hides deeper accounts without changing the totals of those shown.",
  ["inputs","configurations"],"every ledger of up to 4 two- and three-posting transactions over a 4-level account tree, and every combination of account argument and options with boundary dates",
  "Fixtures compare one ledger's report for half a dozen option combinations.",
  ["cmd/coin/balance.go","cmd/coin/utils.go","account.go"],[("totals","cmd/coin/balance.go execute"),("date filter","cmd/coin/utils.go trim")])
p("P19","Register lists the right postings with right running totals",
  "The register lists exactly the selected account's postings (with its descendants' when recursive) that pass the begin (inclusive), end (exclusive), payee and tag filters, inverted ones included, in date order, each once, with its date, description, counter-account, amount, assertion mark and location. The total in each row is the exact sum of the amounts of the rows up to it.",
  ["inputs","configurations"],"every ledger of up to 4 transactions over a small account tree and 3-4 dates, every account and every combination of filters with boundary dates",
  "Fixtures compare a few registers of one ledger.",
  ["cmd/coin/register.go","cmd/coin/postings.go","cmd/coin/utils.go"],[("selection","cmd/coin/register.go trim, fullRegister"),("rows and totals","cmd/coin/postings.go print, printLong, totals")])
p("P20","Aggregated register loses and invents nothing",
  "Aggregated by week (from Sunday), month, quarter or year, by payee or tags, or both, the register shows for every period and category in which any shown account has selected postings, in order, the exact sum of each account's own postings, or with its descendants' when recursive. Keeping only the largest accounts never drops amounts: the rest is summed up as Other, so a row adds up to the same as with no limit, and cumulative rows are the running sums of the plain rows.",
  ["inputs","configurations"],"every ledger of up to 5 postings over up to 8 accounts and dates around period boundaries, all periods and categories, recursive or not, cumulative or not, limits 1-9, filters",
  "Fixtures aggregate one ledger of two accounts; the limit and the merging of disjoint periods are covered by two unit tests.",
  ["cmd/coin/totals.go","cmd/coin/register.go"],[("aggregation and merging of timelines","cmd/coin/totals.go add, mergeTotals, top, makeCumulative"),("period boundaries","cmd/coin/totals.go week, month, quarter, year")])
p("P21","Text, CSV and JSON registers agree",
  "For the same ledger and options the aggregated register has the same header, rows and figures in text, CSV and JSON output. CSV and JSON output are well formed and keep payees, tags and labels intact whatever characters they contain.",
  ["inputs","configurations"],"every P20 configuration and payees/tag values over an alphabet of separators, quotes and multi-byte characters",
  "CSV and JSON output of the register have no fixture.",
  ["cmd/coin/totals.go"],[("rendering","cmd/coin/totals.go output, print, rows, writeCSV, writeJSON")])
p("P22","Output is a function of the ledger alone",
  "For a given ledger and command line every command prints the same bytes and exits the same way on every run, whatever order internal tables happen to be iterated in (apart from the addresses in the trace of a panic), and whatever time zone, language, terminal, home or number of processors it runs with.",
  ["schedules","inputs"],"every iteration order the runtime can choose at each table iteration of a run (deviation bound 1, and 2 on small ledgers), for ledgers with ties, many commodities, accounts, tags and prices, over all reporting and importing commands; and each of them in a dozen other environments",
  "A test run sees one random iteration order; a dependence on it shows up as rare flakiness at best.",
  ["coin.go","commodity.go","cmd/coin/totals.go","cmd/coin/commodities.go","cmd/coin/tags.go","rules.go","cmd/csv2coin/rules.go"],[("sorted traversal of tables","coin.go AccountsDo, CommoditiesDo; tags.go Keys; totals.go top")])
p("P23","Ledger statistics and duplicate detection",
  "The statistics command counts every commodity, price, account and selected transaction exactly once; its duplicate check reports exactly the pairs of transactions of the same day with the same code and the same accounts and amounts, each with its own place in the files. Its check for unbalanced imports reports exactly the postings to the Unbalanced account, and its conversion check exactly the two-posting transactions moving one and the same number between different commodities, within the given begin (inclusive) and end (exclusive) dates.",
  ["inputs","configurations"],"every ledger of up to 5 transactions over 2-3 days, a small alphabet of codes, accounts and amounts, and every option with boundary dates",
  "One fixture prints the counts of one ledger.",
  ["cmd/coin/stats.go","transaction.go","posting.go"],[("checks","cmd/coin/stats.go execute"),("equality","transaction.go IsEqual")])
p("P24","Tag and commodity listings are complete",
  "The tag listing shows every tag key used by any transaction or posting once, in order, optionally limited by an expression, with all its distinct values and all accounts of the postings (or of the transaction's postings) carrying it. The commodity listing shows every commodity in order, and for a commodity or with price statistics, every known price of it, the latest first, and per currency the latest price and the right count.",
  ["inputs","configurations"],"every ledger of up to 3 transactions with tags on transactions and postings over a small key/value alphabet; every set of up to 5 prices over 3 commodities and 2 currencies",
  "One fixture each.",
  ["cmd/coin/tags.go","cmd/coin/commodities.go","commodity.go","price.go"],[("listing","cmd/coin/tags.go execute, collectKeys; cmd/coin/commodities.go execute; commodity.go String")])
p("P25","Import rules pick the first matching account",
  "For each imported description the counter-account (or the decision to drop it) and the notes come from the first rule in the order written, with referenced groups expanded in place, whose expression matches, and is Unbalanced when none does; expressions are taken exactly as written, whatever their length. Dumping loaded rules and loading the dump gives rules that decide every description the same way and attach the same notes.",
  ["inputs","programs"],"every rule file of up to 2 groups and 3 rules per account over a small alphabet of expressions (one character, anchors, alternatives), references, drop rules and notes, against all short descriptions",
  "Tests read one rule file and look at its structure.",
  ["rules.go","cmd/ofx2coin/main.go","cmd/csv2coin/rules.go"],[("rule parsing and matching","rules.go ScanRules, RuleFor"),("rule writing","rules.go Write")])
p("P26","OFX import conserves the statement",
  "Converting statements writes, in date order, one balanced transaction per statement line with the line's exact signed amount on the statement's account, its date and description and the counter-account chosen by the rules; the statement's closing balance is asserted on its last bank line. The output is a valid ledger, and only lines the rules drop or that repeat a transaction already present on that day are left out.",
  ["inputs","configurations"],"every statement of up to 4 lines over small alphabets of dates (also times and zones), signed amounts, names and memos, bank and credit-card, one and two files and accounts, with and without rules",
  "Tests convert two literal statements.",
  ["cmd/ofx2coin/main.go","cmd/ofx2coin/bmo.go","transaction.go"],[("conversion","cmd/ofx2coin/main.go readTransactions, newTransaction"),("posting order","transaction.go PostConversion")])
p("P27","Importing the same statement twice adds nothing",
  "Transactions of a statement that are already in the ledger, or that occur twice among the imported ones, are dropped, reported with the place of the ledger transaction they repeat, and never written again, so importing a statement whose result is already in the ledger writes nothing; a closing balance carried by a dropped repetition of another imported transaction is kept on the one that stays. With duplicates kept, everything is written.",
  ["inputs","histories"],"every import history of up to 3 overlapping statements of up to 3 lines, with the earlier results added to the ledger (formatted or not) or not",
  "One unit test drops a duplicate inside one statement; no test imports into a ledger that already has the transactions.",
  ["cmd/ofx2coin/main.go","transaction.go"],[("duplicate filter","cmd/ofx2coin/main.go main"),("lookup by day and equality","transaction.go Day, FindEqual, IsEqual, MergeDuplicate")])
p("P28","CSV import follows the source mapping",
  "Each CSV record after the skipped header lines becomes exactly one transaction unless a rule drops it, with the account, description, date, amount, currency, symbol, quantity and note the source mapping derives for it: the first rule of a value that yields text wins, templates are filled with the captured groups or other values, and conditions are respected. Postings go to the account and the counter-account, each replaced by its first sub-account of fitting commodity (sub-accounts come before the account itself; Unbalanced when none fits), with opposite signs, and the output is a valid ledger in date order. Mappings dumped and loaded again map every record the same way.",
  ["inputs","programs"],"every mapping built from direct, extracting, derived and conditional rules over records of up to 4 fields and every record over small field alphabets, with and without symbol and quantity of both signs",
  "Tests map one record through a few mappings.",
  ["cmd/csv2coin/main.go","cmd/csv2coin/rules.go"],[("value mapping","cmd/csv2coin/rules.go Value, directField, derivedField"),("transaction building","cmd/csv2coin/main.go transactionFrom, findAccountForCommodity")])
p("P29","GnuCash conversion conserves the book",
  "Converting a GnuCash book writes every commodity, account, price and transaction of it exactly once, with the full account paths (spaces removed), online ids, exact quantities in the account's commodity, exact prices in their currency, posting dates, codes, descriptions and notes (what follows the first \" - \" of a description, and the memos of its splits), to one stream or to the files of a ledger directory, by year if asked. The ledger written loads and shows for every account the balance the book's splits add up to.",
  ["inputs","configurations"],"every book of up to 3 accounts in every nesting, 3 prices and 3 transactions over year boundaries with small value alphabets, in every output mode",
  "One test parses one book and looks at a few fields; the writing command has no test.",
  ["gnucash/gnucash.go","gnucash/account.go","gnucash/transaction.go","gnucash/split.go","gnucash/price.go","cmd/gc2coin/main.go"],[("book resolution","gnucash/*.go resolve*"),("writing and splitting by year","cmd/gc2coin/main.go main")])
p("P30","Generated samples are valid ledgers in the asked period",
  "Whatever random choices it makes, the sample generator writes transactions in date order that all lie between the begin and end dates, whose split into files by year or month loses and duplicates none, and that load as a valid ledger together with the account and commodity files it writes. Recurring dates fall on the asked weekdays or days of month, every asked number of weeks or months, without duplicates and in order; balances it includes are the true running balances.",
  ["schedules","inputs"],"every sequence of random choices up to a deviation bound and all short ranges around month, year and leap-day boundaries, in every output mode",
  "Four fixed date sequences are tested; the generated ledger is not.",
  ["cmd/gen2coin/main.go","cmd/gen2coin/dates.go","cmd/gen2coin/rule.go"],[("date generators","cmd/gen2coin/dates.go weekly, monthly"),("file split","cmd/gen2coin/main.go batchesByLabel")])
p("P31","HTML export carries the whole ledger",
  "The page written by the HTML export embeds, as well-formed JSON that cannot break out of its place in the page, every account, commodity, price and transaction of the ledger exactly once, with names, parents, closing dates, dates, notes, tags, exact quantities and the balance after every posting (the asserted one where one is asserted).",
  ["inputs"],"every ledger of up to 3 transactions with all optional parts and texts over an alphabet of quotes, angle brackets, ampersands, backslashes and multi-byte characters",
  "The exporter has no test at all.",
  ["cmd/coin2html/main.go","account.go","transaction.go","posting.go","price.go","commodity.go","amount.go"],[("serialisation","MarshalJSON of account, amount, commodity, posting, price, transaction"),("embedding","cmd/coin2html/main.go")])
p("P32","Failed reads and writes are never passed off as results",
  "Whenever reading the ledger, rules or files to import, or writing output, to the standard output or to a file, fails or falls short, a command either does all the same work as without the failure or exits with a non-zero status. It never reports success with output that is incomplete or computed from only a part of its input, and it always ends.",
  ["fault_sequences"],"every open, read, write and close of some 80 command lines of all six commands: failing with an error, with a full disk, or falling short",
  "No test injects an input/output error.",
  ["check/check.go","coin.go","parser.go","cmd/coin/main.go","cmd/csv2coin/main.go","cmd/ofx2coin/main.go","cmd/gc2coin/main.go","cmd/gen2coin/main.go","cmd/coin2html/main.go"],[("checks of results","uses of check.NoError, check.Writer"),("scanning","parser.go Next, rules.go ScanRules")],observe=["exit status","standard output","files written"])
p("P33","The page's viewer shows exactly the selected postings and balances",
  "Whatever was clicked and entered before, and in whatever time zone, the exported page opened in a browser shows without errors, for the chosen account and dates (both included): in the register every posting of the account (with sub-accounts: and of the accounts below it) in that range exactly once, in date order, with its date, description, an account of the other side, exact amount, balance, location and notes, and the running total; in the balances view and chart every account below it that is not closed on the To date (or all, if asked) down to the chosen depth, with its balance on the To date and the total including the accounts below it, converted by the prices where commodities differ. The lists of accounts, roots and views offer all there is to choose.",
  ["inputs","histories","configurations"],"every sequence of up to 3 user actions over all controls, every choice of From and To around every posting date, in time zones on both sides of UTC, ledgers with postings around year, month, week and leap-day boundaries, closed accounts, every way four commodities can be connected by prices, amounts of all magnitudes at 0-7 decimals, odd names",
  "The viewer's unit tests cover amounts, conversions and one sorting function; no test opens the page.",
  ["cmd/coin2html/js/src/account.ts","cmd/coin2html/js/src/commodity.ts","cmd/coin2html/js/src/ui.ts","cmd/coin2html/js/src/views.ts","cmd/coin2html/js/src/viewsRegister.ts","cmd/coin2html/js/src/viewsBalances.ts","cmd/coin2html/js/src/viewsBalancesChart.ts"],[("selection of postings and accounts","account.ts withAllChildPostings, withAllChildBalances, allChildren; utils.ts trimToDateRange"),("state and events","views.ts State, updateView, updateAccount; ui.ts initializeUI"),("loading","account.ts loadAccounts, loadTransactions; commodity.ts loadPrices")],observe=["tables, lists, inputs, tooltips and errors of the page after every event"])
p("P34","The viewer's aggregated views account for every posting once",
  "In the aggregated register and its chart there is one row for every period (week, month, quarter, year) overlapping the chosen dates, and in Flows style its amounts add up exactly the postings of the account (with sub-accounts: one column or layer for each account, the largest ones by average, all others together in Other) that fall into the period and the chosen dates; Total is the sum of the row and Cum.Total the running total. In Balances style the amounts are the balances at the end of the period or of the chosen dates, carried over where a period has no postings. The bars of the chart follow each other and are as long as the amounts (those of income and liabilities negated; negative ones are left out). Excluding a sub-account takes exactly it and the accounts below it out, clicking it in the list of excluded ones puts it back. The details of an amount list the 20 largest of its postings.",
  ["inputs","histories","configurations"],"every aggregation, style, sub-account limit and exclusion over ledgers with postings around every kind of period boundary, every From and To date around them, and sequences of up to 3 user actions",
  "No test touches the aggregated views.",
  ["cmd/coin2html/js/src/utils.ts","cmd/coin2html/js/src/viewsRegister.ts","cmd/coin2html/js/src/viewsAggregatedRegisterChart.ts","cmd/coin2html/js/src/account.ts","cmd/coin2html/js/src/views.ts"],[("grouping","utils.ts groupBy, periods, groupByWithSubAccounts, sumAll, topN"),("rows and layers","viewsRegister.ts viewRegisterAggregated, viewRegisterAggregatedWithSubAccounts; viewsAggregatedRegisterChart.ts")],observe=["tables, chart layers, tooltips, legend and details of the page after every event"])
p("P35","Input that is not understood is refused, with its place",
  "A ledger file with a line that cannot be read as what its place calls for (an unknown keyword, an entry line without its name, date or amount, a property its entry does not have, a posting or property under no entry, a test clause without end, a commodity or account that is not defined, several amounts left out) makes every program that loads it stop with a non-zero status, no output, and a message that names the file and a line of the entry at fault; a file whose lines can all be read is loaded completely. No text in ledger, rules, CSV, OFX or GnuCash files or in options, however malformed, cut short or with parts missing, ends in a runtime error of the program or keeps it running: it is either read or refused with a message.",
  ["inputs","configurations"],"every sequence of up to 3 (longer over fewer) of 68 right and wrong lines, every line of up to 3 of 38 tokens under every kind of entry, every kind of line with every ending of up to 3 characters, a fault in every file of a ledger under every command, every file of up to 3 rule or source lines, statements with up to 3 parts removed, books with 2 elements removed or any value replaced, every cut of them, odd values of every option",
  "Tests parse right input; three of them look at one refusal.",
  ["parser.go","coin.go","commodity.go","account.go","price.go","transaction.go","test.go","include.go","rules.go","cmd/csv2coin/rules.go","cmd/ofx2coin/main.go","gnucash/gnucash.go","cmd/coin/register.go"],[("reading","parser.go Next, parse* of every entry; coin.go Load, Resolve*"),("imports","rules.go ScanRules; cmd/csv2coin/rules.go ScanSource; cmd/ofx2coin/main.go readTransactions; gnucash/*.go resolve*")],observe=["exit status","standard output","messages","what is loaded"])
p("P36","Only what is asked for is ever written",
  "Reports, listings, imports, exports and formatting to the standard output leave every file and directory as it was, whatever options they are given and whether they succeed or not. Rewriting in place (format -i, modify) writes the files named on the command line and no other, and of these none from the first that cannot be read on; coin test writes only files holding a test clause without a result; all of them keep the permissions of the files they rewrite. Generated and converted ledgers go into the documented files of the directory asked for, and nowhere else. When a command ends, succeeding or refusing its input, no temporary or other file is left behind.",
  ["inputs","configurations"],"every set of up to 2 options of every command with every kind of argument on ledgers in order and with every kind of fault; every sequence of up to 3 files to rewrite, broken and missing ones among them, in 8 ways; every pair of test files with up to 2 clauses of 7 kinds; generated and converted ledgers with every split into 4 directories",
  "Tests run commands on data in memory; none looks at the files around a run.",
  ["cmd/coin/utils.go","cmd/coin/format.go","cmd/coin/modify.go","cmd/coin/test.go","cmd/gen2coin/main.go","cmd/gc2coin/main.go"],[("rewriting in place","cmd/coin/utils.go replaceFile; cmd/coin/test.go updateTestFile"),("files of generated ledgers","cmd/gen2coin/main.go main; cmd/gc2coin/main.go next")],observe=["every file and directory around a run: contents, permissions, identity, time of change"])
p("P37","Ledger compatible output says the same to Ledger",
  "What format -ledger and gc2coin -l write can be read by Ledger and means there what it means in coin: every commodity whose id holds a character that Ledger does not allow in a bare symbol (blanks, digits and the punctuation, operators and brackets of its manual) stands in double quotes wherever it occurs (commodity and format lines, accounts, prices, amounts, asserted balances), accounts are set off from amounts by two blanks or more, properties only coin knows (symbols, bank and CSV account ids) are left out, and nothing else is added, lost or changed: every commodity, account, price and transaction is there with the same dates, codes, descriptions, exact amounts, asserted balances and notes.",
  ["inputs"],"every commodity id of up to 3 characters everywhere a transaction can have one, notes of every length at every kind of line, GnuCash commodities with every string of up to 2 special characters at the beginning, middle and end of their ids, in every mode",
  "One test looks at a quoted commodity.",
  ["commodity.go","posting.go","amount.go","price.go","account.go","transaction.go","cmd/coin/format.go","cmd/gc2coin/main.go"],[("quoting","commodity.go SafeId"),("writing of entries","Write of commodity, account, price, transaction, posting, amount")])
p("P38","A command line means the same however and wherever it is given",
  "Every name of a command (balance, bal, b, ...) does the same, and so does coin without arguments what coin balance does. Options mean the same in any order, with one dash or two, with their value after a blank or after =, repeated, with others switched off by =false and with -- before the arguments; of an option given twice with different values the last one counts. Help of a command tells its names and all its options. A command, an option or an option's value (a number, a date, a yes or no) that is not understood or is missing is refused: with a message that names it, an exit code other than 0 and nothing on the standard output. A command in a test clause says what it says on the command line, whichever clauses came before it in the file.",
  ["inputs","histories"],"every set of up to two options in every order and spelling with every kind of argument, every kind of malformed value next to every other option, every sequence of two (thorough: three) commands as test clauses",
  "The tests run single commands with options in one spelling; nothing runs main.",
  ["cmd/coin/main.go","cmd/coin/test.go","cmd/coin/balance.go","cmd/coin/register.go","cmd/coin/stats.go","cmd/coin/tags.go","cmd/coin/accounts.go","cmd/coin/modify.go","cmd/coin/format.go","cmd/ofx2coin/main.go","cmd/csv2coin/main.go","date.go"],[("names and options","cmd/coin/main.go newCommand, main; newCommand of every command"),("commands of clauses","cmd/coin/test.go execute"),("dates of options","date.go Set")],observe=["standard output and exit code of pairs of command lines; results of test clauses"])
p("P39","Fetched quotes become exact prices",
  "coin commodities -q asks for every commodity that is not marked nomarket and is not the default one, once, under its symbol or else as the pair of it and the default commodity, and for nothing else. Every quote whose currency is a commodity of the ledger becomes one line P with the day, that commodity and that currency, which reads back as the same price; its amount is the quote exactly whenever the decimals of the currency allow it, however large, and otherwise less than one unit off. A commodity without a usable answer (none, an error, no network, a currency that is not known) gets no line, is named on the standard error, and does not keep the others from theirs; nothing makes the command crash.",
  ["inputs","faults"],"all quotes of up to 200.00 and of a tenth as many units at 0 to 7 decimals, numbers around powers of 2 and 10 up to 15 digits, every list of up to three commodities with 11 kinds of answers and failures of the service",
  "Nothing tests it: it needs the network.",
  ["cmd/coin/commodities.go","commodity.go","amount.go","price.go"],[("quotes","cmd/coin/commodities.go execute"),("amount of a quote","commodity.go NewAmountFloat")],observe=["requests below the HTTP client, standard output and error, prices read back"])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
