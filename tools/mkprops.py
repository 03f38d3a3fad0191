import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,obs,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p("C01","Balance report equals the sum of real postings, per account and currency",
 "For every journal silverfox accepts, the balance report lists each account that has postings exactly once and shows, for each currency, the sum of the real (non-envelope) amounts posted to that account over all transactions, to eight decimal places. Envelope postings and automatic envelope movements never change it. Consequently, when every transaction uses a single currency, each currency's totals sum to zero over all accounts.",
 ["inputs","histories"],"all accepted journals: any number of accounts, currencies, transactions, postings (several postings of one transaction to one account included), any order, and after any history of automatic movements",
 "Unit tests never build a ledger or print a balance; the sum must be right for every combination of accounts, currencies, omitted amounts and envelope activity.",
 ["src/ledger/mod.rs","src/amount.rs","src/entry.rs"],
 [("totals by account","src/ledger/mod.rs: get_totals, display_flat_balance"),("per-currency pools","src/amount.rs: AmountPool")],["stdout of `silverfox balance`"],
 [("entries","all transactions, sorted by date","src/ledger/mod.rs")])
p("C02","An omitted posting amount is the one that balances its transaction",
 "When a transaction leaves one posting's amount out, every report (balance, register, envelopes) treats it as the value that makes the transaction balance: the negated sum of the other real postings in their common currency, or, if native amounts are mixed with foreign amounts that carry a unit price or total cost in the native currency, the negated sum of the native values, in the native currency. Envelope postings in the same transaction never influence it, and neither does the position of the omitted posting or whether its account was seen before.",
 ["inputs"],"all transactions with one omitted amount: any posting count, position, currency, price form, with and without envelope postings",
 "The only entry test has no omitted amount; the importer test never evaluates one.",
 ["src/entry.rs","src/posting.rs","src/ledger/mod.rs","src/account.rs"],
 [("inference","src/entry.rs: get_blank_amount, has_mixed_currencies"),("native value","src/posting.rs: get_original_native_value")],["stdout of balance, register and envelopes"])
p("C03","Invalid journals are rejected with an error and without any effect",
 "A journal is rejected, wherever in it the fault lies, if a transaction has a missing or unknown status, an unparsable date, an undeclared account, an unparsable amount, more than one omitted amount, an omitted amount next to more than one currency symbol, an unclosed payee bracket, or complete amounts in a single currency (no prices) that do not sum to zero; or if an account definition has no name or a name with spaces, an account has two envelopes of the same name, an envelope is of an unknown type, has no due date or one that is not understood, an unparsable amount or starting date, an unknown property or funding method, a property without a value, more than one account in one `for`, or is due every year or every other week or month without a starting date. Rejected means: an error on standard error, no report on standard output, and no file changed.",
 ["inputs"],"all journals derived from a valid one by one such fault at any position, under every report and import command",
 "Tests cover two malformed account headers only; nothing tests that rejection happens before effects on the journal file.",
 ["src/entry.rs","src/posting.rs","src/account.rs","src/envelope.rs","src/ledger/mod.rs"],
 [("entry validation","src/entry.rs: parse_header, validate"),("posting validation","src/posting.rs: validate"),("account/envelope parsing","src/account.rs: parse_header, add_envelope; src/envelope.rs: extract_frequency, Frequency::parse, add_body")],["stderr, stdout and the bytes of the journal"])
p("C04","Amounts mean the same however they are written, and currencies never mix",
 "An amount has the same value and currency whichever way it is written: symbol before or after the number, with or without a space, minus sign before or after the symbol, with thousands commas, with doubled minus signs (which cancel), with up to eight decimals. Amounts in different currencies are never combined, and every report shows each amount in its own currency and to eight decimal places without loss.",
 ["inputs"],"all magnitudes up to 10^7 with up to eight decimals, all symbols free of digits, dots, commas and dashes, all notations",
 "No unit test parses or prints an amount directly; the importer test samples five.",
 ["src/amount.rs","src/posting.rs"],[("parsing and display","src/amount.rs: Amount::parse, Display, rounded_mag"),("pools","src/amount.rs: AmountPool")],["stdout of balance, register and envelopes"])
p("C05","The journal is append-only, through crashes and I/O faults too",
 "Whatever command is run, and even if it is killed or its file operations fail at any point, the bytes already in the journal are never changed or removed: the journal afterwards begins with its previous content. If silverfox ends without reporting an error, everything it recorded is completely in the journal, also when the system writes less than asked or interrupts it. No other existing file is modified.",
 ["crash_points","fault_sequences","inputs"],"all commands that write (automatic movement, import), killed before, in the middle of or after any file operation, or with any one of them failing, short or interrupted",
 "Unit tests never write a file, let alone crash while doing it.",
 ["src/ledger/mod.rs"],[("append","src/ledger/mod.rs: append_entry (open for append, write)")],["bytes of every file in the journal's directory after each run"])
p("C06","What silverfox writes to the journal it reads back with the same meaning",
 "After any successful command that wrote to the journal (automatic envelope movement or CSV import), the journal can be loaded again and means what the writing run said: the envelopes and balance reports of a following run that moves nothing equal those of the run that wrote, and each written transaction has the date, status, description, payee, accounts, amounts, prices and balance assertions it was made from. This holds for every declared date format, currency symbol and amount size, and whether or not the file ended in a newline.",
 ["inputs","histories"],"all journals and CSV files, over repeated write/read generations",
 "No test writes an entry or re-reads one.",
 ["src/ledger/mod.rs","src/entry.rs","src/posting.rs","src/amount.rs"],[("rendering","src/entry.rs: as_parsable; src/posting.rs: Display; src/amount.rs: Display"),("append","src/ledger/mod.rs: append_entry")],["journal bytes, reports of the writing run and of the next run"])
p("C07","CSV import adds each record exactly once, faithfully, all or nothing",
 "A successful import appends exactly one transaction per CSV record after the skipped ones, in record order, with the date, status, description, payee, comment, accounts and amounts that the rules assign, field values being inserted verbatim; a record that yields one posting gets the omitted-amount counterpart expenses:unknown, income:unknown or unknown when its amount is negative, positive or zero. If any record or rule is in error, or a record would make the journal unreadable, the import reports an error and none of its records is added: with --no-move the journal is left byte for byte as it was, otherwise at most the day's automatic movement is recorded.",
 ["inputs"],"all CSV files and rules, good and bad records at any position, hostile field contents (quotes, newlines, percent signs, brackets, comment markers)",
 "One five-record sample without files is tested; appending to a journal and errors are not.",
 ["src/importer.rs","src/ledger/mod.rs"],[("record iteration","src/importer.rs: from_strs, Iterator"),("entry from record","src/importer.rs: get_entry_from_record, inject_variables"),("append","src/ledger/mod.rs: import_csv")],["journal bytes before and after, stderr"])
p("C08","Import rules: defaults, resets, includes and conditional blocks",
 "For each record the first conditional block one of whose patterns occurs in the record (ignoring case) decides: its rules override the general rules that stand before it, for that record only; records matched by no block use the general rules alone. Omitted rules have their defaults (skip 1, status ~, date format %Y/%m/%d, decimal point, %date%, %description%, %account%, %amount%), a value of - restores the default, and included rules act as if written in place.",
 ["inputs"],"all rules files built from general rules, resets, included files and any number of conditional blocks with any number of patterns, against all records and record orders",
 "One rules text with three blocks is tested; overlaps between blocks, resets, includes and leakage between records are not.",
 ["src/importer.rs"],[("rules parsing","src/importer.rs: Rules::add_from_str, add_from_line"),("selection","src/importer.rs: Subrules::applies_to, get_entry_from_record")],["transactions appended to the journal"])
p("C09","Automatic movements never overdraw an account or overfill an envelope",
 "An automatic movement only ever puts a positive amount into an envelope that has automatic funding and a coming due date, in the envelope's own currency; it never takes more in total than the account's available balance in that currency (nothing when that is zero or negative) and never leaves the amount saved for the next due date (what was overspent taken off) above the envelope's target. Envelopes with manual or no funding, and those whose only due date has passed or that have no date, are never moved automatically, and movements change no account balance.",
 ["inputs","histories"],"all envelope configurations, balances (negative, zero, short of the needs), currencies, competing envelopes and days",
 "No test funds an envelope.",
 ["src/envelope.rs","src/account.rs","src/ledger/mod.rs"],[("limits","src/envelope.rs: get_filling_amount"),("running available value","src/account.rs: get_filling_postings"),("posting of movements","src/ledger/mod.rs: fill_envelopes")],["transaction appended to the journal, envelopes report"])
p("C10","Aggressive funding moves all it can; conservative funding is done just in time",
 "On a day on which an envelope is funded, aggressive funding moves the whole missing amount and conservative funding moves the missing amount divided by the days left until the due date (and an overspent envelope gets at least what brings it back to zero), each limited only by the available balance (money short of all needs is used up entirely). Hence, if silverfox runs every day and there is enough money, an aggressive envelope is full on the first day and a conservative one is full on the day before each due date and not earlier.",
 ["histories","inputs"],"all sequences of days (every day, or with days left out) over all frequencies, across month ends, leap days and several due dates, with income and spending in between",
 "The clock is not controllable in unit tests and no test runs a sequence of days.",
 ["src/envelope.rs","src/account.rs"],[("amount per day","src/envelope.rs: get_filling_amount"),("due dates","src/envelope.rs: get_next_due_date")],["transactions appended day by day"])
p("C11","At most one automatic movement per envelope and day",
 "However often and with whatever commands silverfox is run on one calendar day (local time), each envelope receives at most one automatic movement that day, and none if a transaction of that day already moved money in or out of it; other transactions in the journal, earlier or later in the file, backdated or future-dated, do not change that. A repeated run without new transactions leaves the journal as it is.",
 ["histories"],"all sequences of runs (one after another) and of user edits (backdated, same-day and future transactions, inserted anywhere) within a day and across midnight, in any time zone",
 "Needs several runs against one file under a controlled clock.",
 ["src/envelope.rs","src/ledger/mod.rs"],[("last movement date","src/envelope.rs: apply_amount, get_filling_amount (last_transaction_date)")],["journal bytes after each run"],
 [("last_transaction_date","last date the envelope was affected","src/envelope.rs")])
p("C12","The next due date shown is the first scheduled date after today",
 "For every recurring envelope (every weekday, every other week, every n-th, every other month on the n-th, every year) the next due date is the first date of its schedule that lies strictly after today and not before its starting date; a day that a month does not have means that month's last day, and February 29 of other years means February 28. A one-time date is shown while it lies ahead and no date afterwards; for every-other and yearly schedules the first scheduled date on or after the starting date is itself a due date.",
 ["inputs"],"all dates as today (month ends, leap years, year ends, centuries), all schedules and starting dates before, on and after today, all time zones",
 "Depends on the wall clock; the one date test covers two month subtractions.",
 ["src/envelope.rs"],[("schedules","src/envelope.rs: Frequency::get_next_due_date, next_date_by_day_of_month, get_last_date_of_month"),("starting date","src/envelope.rs: Envelope::get_next_due_date")],["`next (on DATE)` in the envelopes report"])
p("C13","Saved money is split correctly between now and next, and none is lost",
 "In the envelopes report, money put into an envelope before its latest due date that has come (today included, and not before the starting date) counts as ready now and all other money put in counts towards the next due date, while money taken out is taken from what is ready now and, once that is used up, shown as missing from the next amount. So now plus next always equals everything put in minus everything taken out, for every day the report is made.",
 ["inputs","histories"],"all envelopes, schedules, transaction dates around due dates, and all days of reporting",
 "Depends on the wall clock and on a whole ledger; untested.",
 ["src/envelope.rs"],[("split","src/envelope.rs: apply_amount, Frequency::get_last_due_date"),("display","src/envelope.rs: Display for Envelope")],["now and next amounts in the envelopes report"],
 [("now_amount","ready to be spent","src/envelope.rs"),("next_amount","saved for the next due date","src/envelope.rs")])
p("C14","Spending through a linked account takes from the envelope, refunds give back",
 "A transaction without envelope postings that moves money between an envelope's account and one or more of the accounts the envelope is for changes that envelope by the smaller of the two amounts moved: out of the envelope when money leaves the account, into it when money comes back. (What happens when the account and the linked accounts both gain, or both lose, is left open.) A transaction with envelope postings changes exactly the envelopes named, by the amounts given, and nothing is inferred; every other transaction and every other envelope is unaffected. Money that would change an envelope but is in another currency and has no value in the envelope's (an envelope posting in another currency; linked money in a foreign currency without a native price, or in any other currency than that of an envelope kept in a foreign one) is answered with an error, not guessed at.",
 ["inputs"],"all transactions over accounts with several envelopes and several linked accounts, splits, refunds, omitted amounts, priced foreign amounts, manual postings",
 "No test processes an entry through an envelope.",
 ["src/envelope.rs","src/account.rs"],[("inference","src/envelope.rs: infer"),("manual","src/envelope.rs: process_manual_postings")],["envelopes report"])
p("C15","Available money plus envelopes always equals the account's real balance",
 "In the envelopes report, for every account with envelopes and every currency, the available amount equals the account's balance as shown by the balance report minus everything held in its envelopes (now and next), for every journal and after every automatic movement. Money moved into or out of one account's envelopes never shows in another account.",
 ["inputs","histories"],"all journals with any number of accounts and envelopes in any currencies, declared in any order or several times",
 "Relates two reports of a whole ledger; untested.",
 ["src/account.rs","src/ledger/mod.rs"],[("available","src/account.rs: get_available_value, process_entry")],["envelopes and balance reports"],[("real_value","real balance of the account","src/account.rs")])
p("C16","The register is chronological, complete, and its running totals are right",
 "The register lists, by date and for equal dates in journal order, each transaction whose net change to asset accounts (names beginning with asset) is not zero exactly once with its date, status, description and the accounts that money came from and went to, and shows for each currency the net change and a running total that is the sum of all net changes up to there. The last running total of each currency equals the sum of the asset accounts in the balance report; envelope postings do not count.",
 ["inputs","histories"],"all accepted journals, any order of dates, currencies, splits, omitted amounts, transfers between assets",
 "Needs a terminal and a whole ledger; untested.",
 ["src/ledger/register.rs","src/entry.rs","src/ledger/mod.rs"],[("rows","src/entry.rs: as_register_data"),("running totals","src/ledger/register.rs: print_lines"),("order","src/ledger/mod.rs: add_entry")],["stdout of `silverfox register` on a terminal"])
p("C17","Comments, blank lines and layout never change a result",
 "Adding, removing or changing comments (// or ;, at the end of any line or on lines of their own, indented or not), blank lines, trailing whitespace, indentation width, spacing (spaces or tabs) between the parts of a transaction line or the words of an envelope definition, or line endings in a journal changes neither whether it is accepted nor any report nor any automatic movement. The same holds for comments and blank lines in import rules, and for the spacing between the name of a rule (or `if`) and what follows it.",
 ["inputs"],"all journals and rules and all placements of such text",
 "Metamorphic over whole files; tests use fixed layouts without comments.",
 ["src/utils.rs","src/ledger/mod.rs","src/account.rs","src/envelope.rs","src/posting.rs","src/importer.rs"],[("comment removal","src/utils.rs: remove_comments"),("chunking","src/ledger/mod.rs: add_from_str")],["all reports and journal bytes appended"])
p("C18","Included files act in place, and paths do not matter",
 "A journal split over included files, in any nesting (up to 256 levels) and in any directories (paths taken relative to the including file), gives the same reports and movements as the same text in one file; written transactions always go to the end of the main journal, never to an included or other file. Results do not depend on the working directory or on how the path to the journal is spelled; relative paths on the command line are relative to the user's working directory, and a missing included file or a file including itself (directly or through others) is an error.",
 ["inputs","configurations"],"all splits into include trees, all working directories and path spellings (relative, absolute, with . and .., symbolic links), all commands",
 "No test reads a journal file at all.",
 ["src/ledger/mod.rs"],[("include","src/ledger/mod.rs: include, add_from_file"),("path of the main journal","src/ledger/mod.rs: from_file, append_entry")],["all reports, bytes of every file in the tree"])
p("C19","Any input ends in a report or an error message, never a crash or hang",
 "For every journal, rules and CSV text, every command line and every date between 1970 and 2200, silverfox ends by itself with a report or an error message; it does not panic, abort, overflow the stack, loop, or violate memory safety.",
 ["inputs","configurations"],"arbitrary and mutated texts (including non-UTF-8 and non-ASCII), all commands and flags, all dates in 1970-2200, with years in the texts from 1 to 9999",
 "Tests sample eight well-formed inputs.",
 ["src/entry.rs","src/envelope.rs","src/importer.rs","src/ledger/mod.rs","src/ledger/register.rs","src/amount.rs","src/posting.rs","src/flags.rs"],[("error returns","src/errors.rs and every parser"),("partial functions","src/entry.rs: parse_header, get_blank_amount; src/envelope.rs: date arithmetic; src/importer.rs: add_from_line")],["exit status, signal, stderr; AddressSanitizer reports"])
p("C20","Reports depend only on the transactions and the date, not on their order",
 "Running the same command on the same files on the same day always gives the same report and records the same movements (as a set). Reordering the transactions of a journal, or the account definitions among themselves, leaves the balance and envelopes reports and the movements unchanged, and the register too up to the order of transactions of the same date (journals without balance assertions).",
 ["inputs","histories","schedules"],"all journals, all permutations of transactions and of account definitions, repeated runs (each with its own hash seeds)",
 "Hash iteration order differs on every run; a test samples one.",
 ["src/ledger/mod.rs","src/account.rs","src/entry.rs"],[("sorted output","src/ledger/mod.rs: display_flat_balance, display_envelopes, add_entry"),("hash maps","src/ledger/mod.rs: accounts; src/importer.rs: accounts, inject_variables")],["all reports, transactions appended"])
p("C21","Balance assertions are enforced",
 "A posting with a balance assertion (! amount) is accepted exactly if, after it, its account's real balance over the journal so far (in journal order, envelopes not counted) equals the asserted amount in that currency, the posting's own currency if the assertion names none. Otherwise the journal is rejected with an error, no report is given and no file is changed; a true assertion changes no report.",
 ["inputs","histories"],"all journals with true and false assertions at any position, several currencies, omitted amounts, several postings to one account in a transaction",
 "No test has an assertion.",
 ["src/account.rs","src/posting.rs","README.md"],[("assertion check","src/account.rs: process_entry"),("assertion parsing","src/posting.rs: parse_balance_assertion_amount")],["stderr, stdout, journal bytes"])
p("C22","The right journal is used, and reports with --no-move write nothing",
 "The journal is the file given with -f or --file, else the one named by SILVERFOX_FILE, else the one named by LEDGER_FILE, and without any of them an error is given; the first letter of the first argument selects the command and flags may stand in any order. With --no-move (-n) the balance, register and envelopes commands change no file and create none; without it exactly the selected journal can grow, by automatic movements only.",
 ["configurations","inputs"],"all combinations of flags, flag orders, environment variables and commands",
 "src/flags.rs has no tests.",
 ["src/flags.rs","src/ledger/mod.rs"],[("flag parsing","src/flags.rs: parse_from_env, get_file_from_env, execute")],["reports, bytes of all files present"])
p("C23","The envelopes report is complete, in order, and its bars are true",
 "The envelopes report lists every account that has envelopes exactly once, in alphabetical order (as the balance report does with accounts), and under it every envelope of that account exactly once, under expenses or goals as it was declared, with its own target, currency, amounts and due date, also when accounts have envelopes of the same name. Behind each amount stands a progress bar, all bars equally wide, whose filled part is the saved part of the target in whole characters, rounded down: empty when nothing is saved or the envelope is overspent, full exactly when the target is reached or exceeded.",
 ["inputs","histories"],"all journals with any number of accounts and envelopes, declared in one or several definitions, saved amounts below, at and above any fraction of the target, on any day",
 "No test prints an envelope.",
 ["src/envelope.rs","src/account.rs","src/ledger/mod.rs"],[("bars","src/envelope.rs: make_bar, Display"),("sections","src/account.rs: display_envelopes"),("order","src/ledger/mod.rs: display_envelopes")],["stdout of `silverfox envelopes`"])
p("C24","Dates mean the same in whatever format the journal declares",
 "A journal in which all dates (of transactions, due dates and starting dates) are rewritten in another declared date format, or in several formats each from its declaration on, is accepted just as before and gives the same balances, envelopes, due dates and automatic movements, and the same register, which shows dates in the format declared last. What silverfox records is dated in the format declared last and is read back. A date that does not exist, or that is not written in the format in force, is rejected.",
 ["inputs"],"all date formats that name a full date without spaces (numeric in any field order, month and weekday names, day of year, ISO weeks, two-digit years within 1970-2068, literal text), all journals and all positions of the declarations",
 "Tests use two formats, neither in a journal.",
 ["src/ledger/mod.rs","src/entry.rs","src/envelope.rs"],[("declaration","src/ledger/mod.rs: parse_chunk (date_format)"),("date parsing","src/entry.rs: parse_header; src/envelope.rs: Frequency::parse, extract_starting"),("rendering","src/entry.rs: as_parsable, as_register_data")],["all reports, transactions appended"])
p("C25","Runs at the same time never damage the journal",
 "If two silverfox processes work on one journal at the same time, or the user adds transactions to the journal while silverfox runs, then, whatever the interleaving of their file operations, nothing that any of them recorded is lost, torn or duplicated: the journal afterwards is its previous content followed by the whole transactions of all, those of each run in their order, and can be read. Each automatic movement is right for a state the journal was in, and a report made meanwhile shows the state before or after what was being recorded.",
 ["schedules","inputs"],"all pairs of commands and all points between two file operations at which one process can be stopped while the other goes on",
 "Tests run one process and write no file.",
 ["src/ledger/mod.rs"],[("append in one write to a file opened for appending","src/ledger/mod.rs: append_entries"),("reading in one go before parsing","src/ledger/mod.rs: add_from_file")],["journal bytes, stdout and stderr of both processes"])
p("C26","Only the journal and the local date matter, not the surroundings",
 "The balance and register reports show the same whatever the date, time and time zone; the envelopes report and the automatic movements of a day are the same whatever the time of that local calendar day and the time zone, and movements are dated with the local calendar date. None of them is changed by the locale, the width of the terminal (beyond the layout of the register, which needs a terminal), standard input, or environment variables other than the ones that select the journal.",
 ["configurations","inputs"],"all journals, all times of day including those around midnight, all time zones, locales, terminal widths and environment variables",
 "Tests run in one environment at one time.",
 ["src/ledger/mod.rs","src/envelope.rs","src/ledger/register.rs"],[("today","src/ledger/mod.rs: fill_envelopes; src/envelope.rs: get_next_due_date, get_filling_amount (Local::now)"),("terminal","src/ledger/register.rs")],["all reports and transactions appended under a controlled clock and environment"])
p("C27","A run has one date, even when midnight passes during it",
 "If the date changes while silverfox is running (midnight passes, the clock is set, or the computer sleeps meanwhile), the run as a whole behaves like one made on the day before or like one made on the day after: its report, the amounts it moves, the choice of envelopes, the due dates and the date of the recorded transaction all go by the same day.",
 ["schedules","inputs"],"all journals and commands, the date changing before any of the program's looks at the clock, by a day or by more, forward or backward",
 "A test cannot let midnight pass between two chosen looks at the clock.",
 ["src/ledger/mod.rs","src/envelope.rs"],[("today","src/utils.rs: today; src/ledger/mod.rs: fill_envelopes; src/envelope.rs: get_next_due_date, apply_amount, get_filling_amount")],["report and appended transactions of runs under a clock that jumps at the n-th look"])
p("C28","An import takes exactly the CSV and rules files it was told to take",
 "An import reads its records from the file given with --csv or --csv-file, and its rules from the file given with --rules or --rules-file or else from the file whose path is that of the CSV file with .rules added, whatever these files are called and wherever they lie, relative paths being relative to the user's working directory. Other files of similar names, beside them or beside the journal, make no difference, and the import changes no file but the selected journal and creates none. If no CSV file is given, or one of the files cannot be read, the import is answered with an error and adds no transaction (other than the day's automatic movement, without --no-move).",
 ["inputs"],"all layouts of journal, CSV and rules files over directories, all file names the system allows (spaces, no or several extensions, not valid unicode), all working directories, spellings of paths, orders of flags and files around them",
 "Tests build the importer from strings; no test goes through files, paths and flags.",
 ["src/importer.rs","src/flags.rs"],[("rules beside the CSV file","src/importer.rs: get_sibling_rules_path, from_file, from_file_with_rules"),("flags","src/flags.rs: parse_from_env, execute")],["transactions appended to the journal, bytes of all other files, standard error"])
p("C29","Names are only names: renaming consistently changes no amount and no date",
 "If the accounts of a journal (keeping which of them begin with `asset`), the envelopes of each account, the currency symbols, the descriptions and the payees are consistently called something else, different things keeping different names, the journal is accepted as before, and balance report, envelopes report, register and automatic movements show the same amounts, due dates and rows up to the new names. This holds for any names that a journal can spell, also for words of the journal's own language (other than an account called `envelope`), names inside one another and names that differ only in case. Only how money that does not suffice for all needs is shared among envelopes may depend on the names.",
 ["inputs"],"all journals and all injective renamings of accounts, envelopes, currencies and texts",
 "Tests use a handful of tame names; prefixes, keywords, case variants and other scripts in every position of a journal cannot be listed.",
 ["src/envelope.rs","src/account.rs","src/posting.rs","src/ledger/mod.rs"],[("header clauses after the name","src/envelope.rs: from_header, extract_frequency, extract_starting"),("names compared whole","src/envelope.rs: infer, process_manual_postings; src/posting.rs: parse"),("assets in the register","src/entry.rs: as_register_data; src/ledger/register.rs")],["standard output and appended transactions of both journals"])
p("C30","Trouble with the output harms no journal and is not passed over",
 "Whatever happens to standard output and standard error during a run (a write is interrupted or takes only part of the text, the disk or quota of the file it goes to is full, the device fails, the reader goes away, or the process is killed there), the run ends by itself, changes no other file, and leaves the journal as it was or with the whole of what the undisturbed run records (an import may have recorded the day's automatic movement alone). Interrupted and partial writes change nothing: report, error message and recorded transactions are complete and the same as in the undisturbed run. If a part of the report cannot be written, the run does not pass for a success (it fails or says so on standard error; only a reader that has gone away may be met with silence), and what was written until then is the beginning of the undisturbed report.",
 ["crash_points","inputs"],"all journals and commands, every write to standard output and standard error, every outcome a write can have",
 "Tests print nothing; a failing, interrupted or partial write at a chosen place cannot be brought about by a unit test.",
 ["src/ledger/mod.rs","src/account.rs","src/ledger/register.rs","src/main.rs"],[("reports","src/ledger/mod.rs: display_flat_balance, display_envelopes; src/account.rs: display_envelopes; src/ledger/register.rs: print_lines"),("error messages","src/main.rs")],["standard output, standard error, exit status, bytes of all files, output writes seen by the preload monitor"])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+"\n")
for d in P:
    assert len(d['title'])<=80,(d['id'],len(d['title']))
    import re
    n=len(re.findall(r'[.](?:\s|$)',d['statement']))
    print(d['id'],len(d['title']),n)
