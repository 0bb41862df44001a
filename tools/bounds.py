#!/usr/bin/env python3
"""Writes harness/bounds.json: what each property's harnesses range over."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = {
"C01": "parts of 1-6 free atext characters with one non-ASCII character anywhere (or none), 1-3 with '='; dotted parts of 1-3; up to 10 labels; single parts of 31-80 (thorough 300) characters; bare and angle form. One part of 17-260 (thorough 520) free characters or labels, alone and beside another address.",
"C02": "names of 1-3 words of 1-3 free characters with 8 kinds of separators, quoted and unquoted, joined by up to 2 periods or at signs; 20 words and words of 130 characters; 5 spacings of the angle address. All sequences of 2-5 (thorough 6) words of 3 kinds and joints with 4 separators; any 2 (3) printable characters in quotes at 5 places; generated angle addresses departing from the plain form in at most 2 (3) places. Names of 17-260 (520) free characters, words or periods, in and out of quotes.",
"C03": "quoted contents of 1-2 pieces of 9 kinds (plain, quoted, special, non-ASCII, control, white space), 3 of 3 kinds (thorough 3 of 9, 4 of 4), 150 characters with one quoted pair, 12 quoted pairs in a row; folds at 3 places; as name, word and local part. Generated lists (harness/h/gen.go: gaps of 7 forms, names of 18, local parts of 11, domains of 7, groups and elements of 8, separators of 6, routes of 5, free characters throughout) departing from the plain form in at most 2 places of names, local parts and forms, of 1-3 elements. Quoted contents of 17-260 (520) free characters, quoted pairs, folds or blanks, as name and local part.",
"C04": "one of 16 shapes of comment or fold, with free characters, in every gap of 15 templates (thorough: two gaps of 3 templates); nesting 1-6; comments of up to 130 characters; 3 or 6 comments in a row. White space around the dots of a domain and over a blank line: recorded findings. Generated lists (harness/h/gen.go: gaps of 7 forms, names of 18, local parts of 11, domains of 7, groups and elements of 8, separators of 6, routes of 5, free characters throughout) departing from the plain form in at most 2 (thorough 3) gaps or forms, of 1-2 elements. White space of 4-66 blanks, comments, quoted pairs, folds or levels, and comments of as many free characters, at 5 places.",
"C05": "lists of 2-3 elements of 6 kinds with 6 separators, 5 elements with a free separator each, 65 (thorough 257) elements of one kind; 0-3 empty elements at 6 places. Generated lists (harness/h/gen.go: gaps of 7 forms, names of 18, local parts of 11, domains of 7, groups and elements of 8, separators of 6, routes of 5, free characters throughout) departing from the plain form in at most 2 (thorough 3) separators or forms, of 2-4 elements; 2-4 elements whose characters are all free, so that any may be equal. 17-260 (520) mailboxes of 3 kinds with 3 separators; as many empty elements at 3 places.",
"C06": "group names of 5 shapes, 1-2 members of 6 kinds, 20 members of one kind, 7 arrangements of groups and mailboxes, empty elements at 4 places. Generated groups of 0-4 members, with empty elements before, between and after them, at any place of a list departing from the plain form in at most 1 (thorough 2) places. 4-33 (66) members of 3 kinds, groups of one, and empty groups.",
"C07": "Q payloads of 1-3 (thorough 4) free characters, underscores, one or two escaped bytes in every charset, every 2- to 4-byte UTF-8 sequence, Latin-1 bytes; B payloads of 1-2 groups and both paddings; payloads of 64 characters; 8 places in a list, 11 where nothing may be decoded. Decoded text that looks like an encoded word, quoted string, address or comment again (6 shapes), control characters at both edges of it; encoded words at 4 places of an obsolete local part with every gap around them, and 7 shapes of local part that no encoded word may make. Generated lists of 1-2 elements with encoded words departing in at most 2 places. Payloads of 17-260 (520) characters, escapes or triples.",
"C08": "2 encoded words of 4 kinds with 6 separators, 3-5 with free white space, 24 in a row, all sequences of 4 (thorough 6) words of 3 kinds, 4 arrangements of two runs. All sequences of 2-5 (thorough 6) of encoded words, atoms and quoted strings that look like encoded words, with 3 separators. 4-66 encoded words in a row, every second one, or all but the last, with 3 separators.",
"C09": "8 charset names and every name of 1-4 characters, 5 reader behaviours and none, one free payload byte in Q, three in B, unknown encodings of 1-2 letters, 4 shapes of broken Q and of broken B payloads.",
"C10": "every code point of every UTF-8 length in 23 places, alone, two and three in a row of any lengths, ten of one length, beside ASCII. 2-32 (65) code points of any value of each length in a row at 4 places.",
"C11": "all ASCII texts of 5 (thorough 7) characters, 3 (4) free ASCII characters at 26 places of well-formed text, and 2 (3) inserted at every place of 14 lists, one replaced, one or two deleted or one doubled there, against the reference reader; 44 families of malformed input with free characters; stray characters at 10 places. One mistake of 11 kinds in or at the end of 17-260 (520) elements, members, characters, words, labels or levels.",
"C12": "all byte strings of 0-3 (thorough 4) bytes for addresses, 0-2 (4) for dates, all ASCII texts of 5 (7), 1 (2) free bytes at 22 places of address lists and at every place of a date, runs of 9 and nesting of 30; without cutting at the first error. One edit at every place of 14 lists and 4 dates; encoded words with 0-1 (2) free payload bytes under 5 charset readers and none; readers giving back 0-3 free bytes; two decoded bytes of any value. 8 texts of 4-66 repeated pieces with one free character after them.",
"C13": "every day, month in every letter case, year 0000-9999 (29 February of every leap year), hour, minute and second at once; four turns of the year with offsets. Second 60 at all three kinds of turn. Day, hour, minute, second and offset free together in 3 (thorough 12) months of two years with 3 spacings, with and without day of the week, seconds and zone.",
"C14": "every clock year 2000-2099 at 8 days and 3 times of day with every two-digit year, both sides of every new year, leap days, six spellings.",
"C15": "every offset 0000-9959 (minutes up to 59) with each sign and none, in each month and at each hour, 9 spellings around it, and any two of them.",
"C16": "eleven names in every letter case with days, years, hours and minutes free; 48 spellings; every date without a zone, under a local zone that is not UTC.",
"C17": "all ASCII texts of 5 (thorough 7) characters, 1-4 (5) free ASCII characters before or instead of every part of 2 dates, one at each of two nearby places, against the reference reader; every three letters as month, day or zone; 40 families. 1-2 (3) characters inserted at, or one edit of, every place of 4 dates.",
"C18": "16 shapes of comment or fold in each of 12 gaps of a full and a short date, all gaps at once in 8 shapes, day names in every letter case, zeros of day and hour. Comments next to a four-digit year: recorded finding. Generated dates departing from a plain one in at most 2 (thorough 3) of 12 gaps (7 forms), day name, day digits, month, year form, hour digits, seconds and zone (15 forms). White space of 4-66 blanks, comments, levels or comment characters in each gap of a date.",
"C19": "two calls between two equal ones for all pairs of 14 input shapes (8 refused among them) with free characters, up to 2 calls before a known one, up to 12 calls, all pairs of 6 reader settings, 7 date shapes, any two clock years. The shared DFA caches of the ANTLR runtime are not part of the modelled history.",
"C20": "literals of 9 shapes with 1-8 free characters in 5 places, of up to 60 characters, 16 shapes of comment or fold around them, ports of 1-6 digits in 6 places, lists and groups of two (thorough three) such elements. Generated lists (harness/h/gen.go: gaps of 7 forms, names of 18, local parts of 11, domains of 7, groups and elements of 8, separators of 6, routes of 5, free characters throughout) departing from the plain form in at most 2 places of domains, gaps, forms and separators, of 1-2 elements. Literals and ports of 17-260 (520) characters.",
"C21": "routes of 10 shapes in 5 places and of 16 domains, local parts of 2 (thorough 3) words of 5 kinds and of 16 words, one of 16 shapes of comment or fold in each gap, 6 spellings of periods in names, empty elements of 6 shapes. Generated lists (harness/h/gen.go: gaps of 7 forms, names of 18, local parts of 11, domains of 7, groups and elements of 8, separators of 6, routes of 5, free characters throughout) departing from the plain form in at most 2 places (thorough 3 for one element) of names, local parts, domains, gaps, routes, separators and forms, of 1-3 elements. Routes of 17-260 (520) domains, local parts of as many words, quoted or not, and long ones.",
"C22": "each deviation with 1-2 free characters per part: 7 names with an empty address in 6 places, trailing periods in 6 places, 6 groups without semicolon, 7 quoted groups, 4 unspaced signs with 6 spacings in 5 names, single digits of day and hour in all months. Generated lists (harness/h/gen.go: gaps of 7 forms, names of 18, local parts of 11, domains of 7, groups and elements of 8, separators of 6, routes of 5, free characters throughout) departing from the plain form in at most 2 places, of 1-2 elements. 17-260 (520) at signs in a name, characters before a trailing period or an empty address; 4-33 (66) members of groups without semicolon and of quoted ones.",
"C23": "names of 1-3 (thorough 5) printable characters, one control character or one code point of any length among others, encoded names with one free ASCII (thorough two), names of 70 characters, local parts of 1-3 (thorough 4) printable characters, domains and literals, lists of two.",
"C24": "all ASCII texts of 5 (thorough 7) characters, 3 (4) free ASCII characters at 24 places of well-formed lists, 2 (3) inserted at, or one edit of, every place of 13 lists, against the reference reader. Generated lists (harness/h/gen.go: gaps of 7 forms, names of 18, local parts of 11, domains of 7, groups and elements of 8, separators of 6, routes of 5, free characters throughout) departing from the plain form in at most 2 (thorough 3 for one element) places of the current grammar, of 1-2 elements, and 1 (2) of 3-4 elements.",
"C25": "1-4 (thorough 5) free ASCII characters before or instead of every part of 2 dates, 0-5 (6) after a minute, 2 (3) inserted at, or one edit of, every place of 4 dates, and names with digits free together, against the reference reader.",
"C90": "two calls at once, on address lists of 14 kinds (accepted and refused, with encoded words, quoted strings, groups, routes) and date-times of 7 kinds in any combination, generated lists departing from the plain form in at most 1 (thorough 2) places, and three charset readers; characters free; the first calls of a process (initialisation included) and later ones; every schedule of the recorded accesses to memory both can reach, locks, once bodies, atomics, sync.Map and sync.Pool.",
}
json.dump(B, open(os.path.join(root, "harness/bounds.json"), "w"), indent=1, ensure_ascii=False)
