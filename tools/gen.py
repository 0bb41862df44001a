#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json; a property is claimed when harness/h has harnesses for it."""
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                  observe_at=["result and error of ParseAddressList / ParseDateTime"], hook_needed=None)))
G, L, PA = "RFC5322Parser.g4", "RFC5322Lexer.g4", "parser.go"
PG = "parser/rfc5322_parser.go"
PL = "parser/rfc5322_lexer.go"
I = ["inputs"]

prop("C01", "Bare addresses come back unchanged",
 "Every bare address made of a dotted local part, an at sign and a dotted domain of RFC 5322 atom characters (RFC 6532 non-ASCII included) is accepted as one mailbox whose address is exactly the text and whose display name is empty. The same holds when the address stands alone between angle brackets.",
 I, "all atom characters, part lengths and label counts", "The tests parse about twenty fixed addresses; each character of each position can be lexed, predicted and copied differently.",
 ["addr_spec.go","local_part.go","domain.go","dot_atom.go","mailbox.go","angle_addr.go",PA,PG,PL],
 [("dotAtom and addrSpec rules",G),("text copied by EnterDotAtom","dot_atom.go"),("address assembled by withAddrSpec","mailbox.go, angle_addr.go, name_addr.go")])
prop("C02", "Display names keep every word, joined by single spaces",
 "A display name made of atoms and quoted strings comes back as the contents of those words in order, with exactly one space between two words and none beside a period or an at sign that stands between them. Empty quoted strings before the first other word add nothing. The address that follows in angle brackets is not affected by the name.",
 I, "all word counts, word contents and amounts of white space between them", "The tests have some fifteen fixed names; joining depends on the order and kinds of the words.",
 ["display_name.go","word.go","unspaced.go","name_addr.go","atom.go",PG], [("withWord/withUnspaced state","display_name.go"),("displayName rule",G)])
prop("C03", "Quoted strings give their exact content",
 "A quoted string, as a display name or a local part, contributes its content with the enclosing quotes removed, every quoted pair replaced by the character it quotes, folds removed, and every other character (white space included, at the edges too) kept as it stands. Characters that mean something outside quotes mean nothing inside them.",
 I, "all quoted contents: every qtext character, every quoted pair, every placement of white space and folds", "The tests have a dozen quoted strings; content is rebuilt from per-character callbacks whose order and nesting matters.",
 ["quoted_string.go","quoted_value.go","quoted_content.go","quoted_pair.go","quoted_char.go","qtext.go","fws.go","obs_qp.go",PG], [("content assembled by withQuotedContent/withFws","quoted_value.go, quoted_string.go"),("pair unescaped","quoted_pair.go, quoted_char.go, obs_qp.go")])
prop("C04", "Comments and folding white space never change the result",
 "Adding a comment (nested ones and quoted pairs included) or folding white space where RFC 5322 allows it, around words, addresses, list separators, angle brackets, local parts and domains, yields the same mailboxes as the input without it. In particular the text of a comment never shows up in a name or address.",
 I, "all comment contents within the bound at every allowed place of every template", "The tests put comments in about ten places; the quantifier ranges over places times contents.",
 ["RFC5322Parser.g4",PG,"display_name.go","dot_atom.go","domain.go","local_part.go","angle_addr.go"], [("cfws kept out of the text-bearing rules",G)])
prop("C05", "Lists return every mailbox once, in order",
 "An address list separated by commas or semicolons, in any mixture and with white space around the separators, returns one mailbox per element, in the order of the input, repeated mailboxes included. Empty elements between commas add nothing and the empty input gives the empty list.",
 I, "all list lengths within the bound, element kinds, separators and element contents", "The tests have a handful of two- and three-element lists.",
 ["address_list.go","address.go","obs_mbox_list.go",PG], [("withAddress appends in order","address_list.go"),("addressList/obsAddrList rules",G)])
prop("C06", "Groups contribute exactly their members",
 "A group contributes its member mailboxes, in order, to the list, an empty group contributes none, and the group's name, comments and separators never appear as mailboxes or names. Mailboxes before and after the group are unaffected.",
 I, "all group names, member counts and kinds, and positions of the group in the list", "The tests have about six groups.",
 ["group.go","group_list.go","mailbox_list.go","obs_mbox_list.go","address.go",PG], [("withGroupList/withMailboxList hand members upwards","group.go, group_list.go, mailbox_list.go, address.go")])
prop("C07", "Encoded words decode to exactly the text they encode",
 "An RFC 2047 encoded word in the B or Q encoding with charset utf-8, iso-8859-1 or us-ascii (any letter case), standing as a word of a display name, is replaced by exactly the text it encodes; an underscore in a Q word is a space. An encoded word is never decoded in the middle of an atom, inside a quoted string or in an address.",
 I, "all encoded payload characters, charset and encoding letter cases, and positions", "The tests have about ten encoded words with fixed payloads.",
 ["encoded_word.go","word.go","display_name.go",PG], [("WordDecoder.Decode on the whole word","encoded_word.go"),("word: encodedWord+ rule",G)])
prop("C08", "Adjacent encoded words join without a space, other words with one",
 "Encoded words that are adjacent, or separated by white space only, are concatenated without anything in between; an encoded word next to an atom or quoted string is separated from it by exactly one space. The order of the words is kept.",
 I, "all sequences of words within the bound, and all separators between them", "The tests have about five such sequences.",
 ["word.go","display_name.go","encoded_word.go",PG], [("withEncodedWord concatenates","word.go"),("withWord spaces words","display_name.go")])
prop("C09", "Other charsets go through the installed reader, failures keep the word",
 "For a charset other than the three built-in ones the installed charset reader is consulted, with the lower-case charset name and the decoded bytes, and what it produces becomes the word. When decoding fails - no reader, a reader error, an unknown encoding letter or a broken payload - the encoded word stays in the name as it was written and the rest of the input is unaffected.",
 ["inputs","configurations","fault_sequences"], "all charset names, payloads and reader behaviours (absent, failing, succeeding, failing part-way)", "The tests install one reader and feed two charsets.",
 ["encoded_word.go",PA], [("CharsetReader passed to the decoder","encoded_word.go"),("fallback to the source text","encoded_word.go")])
prop("C10", "No code point is lost, changed or merged",
 "Every Unicode code point above ASCII that appears in an atom, a quoted string, a quoted pair or a domain shows up unchanged, once, and in place in the result, whatever the number of bytes it takes. In a comment it changes nothing.",
 I, "every code point from U+0080 to U+10FFFF except surrogates, at every place that can hold text", "The tests contain about ten non-ASCII characters, all from the basic multilingual plane.",
 [PL,L,PG,G], [("UTF8NonAscii token and ATN ranges",L),("UTF8NonAscii alternatives",G)])
prop("C11", "Malformed addresses are refused as a whole",
 "An input that is not an address list - no at sign, an empty local part or domain, an unterminated quote, comment or angle bracket, unquoted specials, stray control characters, missing separators, text after the end - is refused with an error and no mailboxes. Nothing is salvaged from the well-formed part of such an input.",
 I, "all inputs of the malformed families within the bound, with symbolic characters", "The tests have a dozen malformed inputs, all fixed.",
 [PA,"walker.go",PG,G], [("SyntaxError sets the error","walker.go"),("error checked before walking",PA)])
prop("C12", "Every input ends in a result or an error",
 "For any byte string whatever, valid UTF-8 or not, both parsers return: they never crash, an error comes without a result, and a result comes with no nil mailboxes. Inputs that are not valid UTF-8 are no exception.",
 I, "all byte strings up to the stated length, and all completions of the stated templates", "Tests cannot enumerate byte strings; error recovery builds partial trees whose shapes are open-ended.",
 [PA,"walker.go","*.go (listener callbacks)",PG], [("no walk after a syntax error",PA),("enter/exit stack","walker.go")])
prop("C13", "A date-time gives exactly the instant it states",
 "A date-time with day, month name, four-digit year, hours, minutes, seconds and zone denotes exactly the instant those fields state, for every valid combination of them, a leap second (60) being the second after 59. Month names are recognised in any letter case.",
 I, "all field values: days 1-31, twelve months in every letter case, years 0000-9999, all times of day", "The tests have about thirty fixed dates.",
 ["date_time.go","day.go","month.go","year.go","hour.go","minute.go","second.go"], [("fields handed to time.Date","date_time.go"),("digits converted","day.go, year.go, hour.go, minute.go, second.go"),("month switch","month.go")])
prop("C14", "Two-digit years fall in the hundred years up to now",
 "A two-digit year denotes the year ending in those digits that is not after the current year: in the 2000s when the digits are not above those of the current year, otherwise in the 1900s. This holds whatever the current date.",
 ["inputs","configurations"], "all two-digit years and all clock values within 2000-2099", "The tests run with one clock value and two years.",
 ["year.go"], [("comparison with time.Now","year.go")])
prop("C15", "Numeric offsets shift the instant by exactly the stated time",
 "A numeric zone of a sign and four digits shifts the instant by exactly that many hours and minutes, east for plus and west for minus, and an offset without a sign counts as east. The offset is also what the returned time reports.",
 I, "all signs and all hhmm combinations", "The tests have about eight offsets.",
 ["offset.go","zone.go","date_time.go"], [("hhmm turned into a duration","offset.go"),("FixedZone","zone.go")])
prop("C16", "Named zones mean their offsets in any letter case; no zone means UTC",
 "UT, UTC, GMT, EST, EDT, CST, CDT, MST, MDT, PST and PDT in any letter case denote the offsets RFC 5322 gives them. A date-time without a zone is in UTC, whatever the local zone.",
 I, "all letter cases of the eleven names, all dates", "The tests have one spelling of each name.",
 ["obs_zone.go","zone.go","date_time.go"], [("zone switch","obs_zone.go"),("default location","date_time.go")])
prop("C17", "Malformed dates are refused",
 "A text that is not a date-time - an unknown month, day or zone name, a missing or extra field, a wrong number of digits, non-digits in a number, text after the end - is refused with an error and the zero time.",
 I, "all texts of the malformed families within the bound, with symbolic characters", "The tests have no more than a few malformed dates.",
 [PA,"month.go","obs_zone.go",PG], [("SyntaxError sets the error","walker.go"),("error checked before walking",PA)])
prop("C18", "Optional parts of a date change nothing else",
 "Adding a day of the week, a comment or folding white space where RFC 5322 allows it, or leading zeros of the day, leaves the instant as it was; leaving out the seconds means zero seconds. The day of the week is recognised in any letter case.",
 I, "all combinations of the optional parts and of their contents", "The tests cover some fifteen combinations out of the product.",
 ["date_time.go","day.go",PG,G], [("optional parts of the dateTime rule",G)])
prop("C19", "Results do not depend on earlier calls",
 "Parsing an input gives the same result whatever was parsed before, successfully or not, and however often; results returned earlier are not changed by later calls. Changing the charset reader affects later calls only.",
 ["histories","inputs"], "all histories of up to the stated number of calls over symbolic inputs", "Each test parses one input once.",
 [PA,"walker.go","encoded_word.go",PG], [("fresh walker, lexer and parser per call",PA),("static ATN and caches shared by all calls",PG)])
prop("C20", "Domain literals and ports are kept",
 "A domain literal comes back with its brackets and exactly its text, folds removed; a port after a domain (a colon and digits) stays part of the address. Neither disturbs a list they stand in.",
 I, "all literal contents, all port digits, all positions", "The tests have three literals and two ports.",
 ["domain_literal.go","port.go","addr_spec.go",PG], [("EnterDomainLiteral","domain_literal.go"),("withPort","addr_spec.go")])
prop("C21", "Obsolete syntax means what the modern form means",
 "A source route in angle brackets is dropped and the address after it kept; a local part written as words joined by dots (quoted strings among them) is those words' contents joined by dots; names may hold unquoted periods; lists may have empty elements. All of it parses to what the equivalent modern form parses to.",
 I, "all routes, word sequences and contents within the bound", "The tests have about eight obsolete forms.",
 ["obs_angle_addr.go","obs_local_part.go","obs_domain.go","obs_mbox_list.go",PG,G], [("route has no listener","obs_angle_addr.go"),("words joined by dots","local_part.go, obs_local_part.go")])
prop("C22", "Tolerated deviations parse as documented",
 "The deviations the tests bless are accepted for every content: an empty angle address, a domain or local part with a trailing period, a group without its closing semicolon, a group quoted as a whole, an unquoted at sign or period in a display name, and dates with single-digit days and hours. Each yields what the blessed examples yield, with the content in its place.",
 I, "all contents of the tolerated forms", "The tests have one or two examples of each.",
 ["angle_addr.go","group.go","display_name.go","hour.go",PG,G], [("relaxed rules",G)])
prop("C23", "What net/mail writes, this parser reads back",
 "For every mailbox, the text that the standard library's mail.Address writes for it parses to that same mailbox, whatever the display name contains.",
 I, "all display names and addresses within the bound", "No test does a round trip.",
 ["quoted_string.go","encoded_word.go","display_name.go",PA], [("quoted strings and encoded words inverted","quoted_content.go, encoded_word.go")])

prop("C24", "Every RFC 5322 address list is read as RFC 5322 says",
 "Every text that the current (not the obsolete) grammar of RFC 5322 with RFC 6532 defines as an address list is accepted, and the mailboxes returned are the ones a direct reading of that grammar gives: the same number, order, display names and addresses. No well-formed list is refused or read differently, however its parts are combined.",
 I, "all texts up to the stated length, and all completions of well-formed text around symbolic characters at every kind of place", "The tests parse about a hundred fixed lists; the grammar's alternatives interact through unbounded look-ahead.",
 [PA,"RFC5322Parser.g4",PG,PL,"*.go (listener callbacks)"], [("rules and ATN of the whole grammar",G),("full-context prediction between overlapping alternatives",PG),("listener stack","walker.go")])
prop("C25", "Every RFC 5322 date-time is read as RFC 5322 says",
 "Every text that the current grammar of RFC 5322 defines as a date-time with a four-digit year is accepted and denotes the instant and offset that a direct reading of the grammar gives, whatever the combination of optional parts, white space and letter case.",
 I, "all completions of well-formed dates around symbolic characters at every place", "The tests parse about thirty fixed dates.",
 [PA,"date_time.go","day.go","month.go","year.go","hour.go","minute.go","second.go","zone.go","offset.go","obs_zone.go",PG], [("dateTime rule",G),("fields handed to time.Date","date_time.go")])

prop("C90", "Concurrent calls do not interfere",
 "Parsing from several goroutines at once gives each caller the result it would get alone, without data races, from the very first calls on. (The charset reader is not changed meanwhile, and is itself safe to call from several goroutines.)",
 ["schedules","inputs"], "all interleavings of two calls on all inputs within the bound", "The tests are sequential, and a race shows only under some schedules.",
 [PA,"walker.go","encoded_word.go",PG,PL], [("fresh walker, lexer and parser per call",PA),("static data initialised under sync.Once",PG),("no package variable written by a call","*.go")])

NA = {}
exec(open(os.path.join(root, "tools", "na.py")).read())

have = set()
for f in glob.glob(os.path.join(root, "harness/h/c*.go")):
    have |= set(re.findall(r"^func (C\d+)_", open(f).read(), re.M))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
bounds = json.load(open(os.path.join(root, "harness/bounds.json")))
TECH = {"C90": "symbolic execution of the Go SSA of the real code recording shared accesses, locks and once bodies; z3 decides over all schedules (order variables) whether two conflicting accesses can meet; counterexamples replayed under the race detector"}
checks, na = [], []
for p in P:
    i = p["id"]
    if i in NA:
        na.append(dict(property=i, reason=NA[i])); continue
    if i not in have:
        na.append(dict(property=i, reason="its harnesses are not written yet")); continue
    checks.append(dict(property=i, quick_cmd="./check.sh " + i, thorough_cmd="VERIF_TIER=thorough ./check.sh " + i,
      technique=TECH.get(i) or "symbolic execution of the Go SSA of the real parser, lexer, ATN interpreter and listener with z3 deciding path conditions and assertions",
      level="model_checking",
      level_note="Every path of the real code within the bounds is enumerated and the assertion decided for all values of its symbolic characters by z3; counterexamples count only when the compiled code reproduces them. Bounds: " + bounds.get(i, "see DESIGN.md") + " Trusted: the engine's SSA semantics and its models of a few library functions, the rule summaries and LL prediction argument of DESIGN.md, z3; all cross-checked by replaying path witnesses on the compiled code."))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
  notes="No hooks in /repo. check.sh builds the engine, loads /repo's current source into SSA, explores the harnesses of one property and replays witnesses on a binary built from the same source.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "claimed;", len(na), "not applicable")
