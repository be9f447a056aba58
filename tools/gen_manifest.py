#!/usr/bin/env python3
"""Writes MANIFEST.json and bounds.json from one table."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CTX = "12 parser states (start of file, inside func/type headers, comments, each literal, parameter lists, struct bodies)"
OPEN = "16 openings of func/type declarations"
BIG = "12 families of long texts (up to 20 / 120 repetitions: lines, literals, nesting, parameters, fields, declarations) with one symbolic byte"
CLOSED = "every parser state with up to 3 / 4 lexically distinguished bytes, closed again in front of another declaration"
LONG = "literals, comments and words of 5 000 and 70 000 bytes, separators and rows of 5 000 and 20 000 bytes"
DEEP = "1 100 / 3 000 nested brackets, closed or cut off"
SEQ = "every sequence of 2 / 3 out of 20 sorts of top-level declarations (symbolic names, 3 separations)"
EDGE = "one literal, comment, word or run of separators of every length up to 23 / 139 and within 2 of 9 + 4 / 7 common buffer sizes (32 .. 10 000 / 65 536)"
NEAR = "20 literals, comments, brackets and words with 1 / 2 arbitrary bytes before and 1 behind, in 3 / 5 surroundings, closed or cut off"
DECL = "gofmt-layout func, method and type declarations from a grammar (29 type forms, 12 parameter and 6 result forms, 10 receiver forms, 4 forms of type parameters, 5 bodies, 24 type definitions, a comment in any gap) over symbolic identifiers"
MARK = "15 byte order marks, parts of one and control bytes before, inside and after every sort of declaration, next to an arbitrary byte"
TP = "12 forms of type parameters with brackets, literals and comments in front of further ones"
AFTER = "every text that differs in one place (6 replacements, a byte left out, cut off) from one of 241 bytes with long words, numbers and literals, parsed after it and the other way round (every third place in the quick tier)"
STMTS = "functions and methods with 12 sorts of statements around 19 sorts of expressions (func literals, anonymous structs and interfaces, local types, conversions) in 4 layouts"
EXPRS = "10 sorts of variable and constant declarations with these expressions as values"
PRAGMA = "35 comments that mean something to some tool before, behind and inside 10 sorts of declarations"
def raw(q, t): return f"every text of {q} / {t} arbitrary bytes after each of {CTX}"
def lex(q, t): return f"every text of {q} / {t} bytes over the 15 bytes the tokenizer tells apart, after each of them"
def pieces(q, t): return f"every sequence of {q} / {t} out of 28 tokens after each of {OPEN}"
B = {
"C01": [raw(3, 4), lex(3, 5), pieces("3 (12 tokens) and 2 (28)", "4 (13) and 3 (28)"), DECL, BIG, CLOSED, LONG, DEEP, SEQ, EDGE, NEAR, MARK, AFTER, STMTS, EXPRS, PRAGMA, "a comment and a raw literal of a megabyte"],
"C02": [raw(3, 4), lex(4, 5), "complete literals and comments of every sort with 5 / 6 bytes inside over 20 bytes, in 4 surroundings", "pairs of literals with 2 / 3 bytes each in 4 arrangements", "literals of 300 / 3000 bytes with one symbolic byte", BIG, "literals of 5 000 and 70 000 bytes", DEEP, SEQ, EDGE, NEAR, "oracle: a reference lexer written from the Go specification's rules for literals and comments (common_util.go zzLex)", PRAGMA],
"C03": ["every text of 0..6 / 0..12 arbitrary bytes", "texts of keyword lengths over their letters, every keyword and basic type with one arbitrary byte before, behind or inside", "one-class texts of up to 20 / 60 bytes with one arbitrary byte anywhere", "GetClose of every exported kind and of kinds with arbitrary text", "String/Comment kinds of parsed literals: " + "; ".join([raw(2, 3), lex(3, 5), BIG]), AFTER, "14 words before and after every text that differs from them in one arbitrary byte, is longer or shorter", "one-class texts of 17 lengths from 31 to 4 097 with one arbitrary byte"],
"C04": [raw(2, 4), lex(3, 5), pieces(2, 3), DECL, "3 / 4 pieces that break lines after 3 / 6 beginnings", "NewNodes of up to 4 / 5 texts of 0-2 arbitrary bytes, 3-4 newlines or 300 / 70 000 newlines", BIG, CLOSED, LONG, DEEP, SEQ, EDGE, NEAR, "start line: symbolic integer", "127 .. 66 000 newlines in a raw literal, two of them, a comment, a parameter list, blank lines and rows", AFTER, STMTS, EXPRS, PRAGMA, "a comment and a raw literal of a megabyte"],
"C05": [raw(3, 4), lex(3, 5), "words around every keyword with arbitrary neighbours at the start of a line", BIG, CLOSED, LONG, DEEP, SEQ, EDGE, NEAR, MARK, AFTER, STMTS, EXPRS, PRAGMA, "a comment and a raw literal of a megabyte", "260 and 1 030 declarations"],
"C06": ["functions: names of 2 / 3 symbolic bytes × type parameters × 12 parameter lists × 6 results × bodies × a comment in any gap", "methods: the same with 10 receiver forms", "types: 24 definitions × type parameters × alias × comment gaps", "4 surroundings before and after", "31 odd names (blank, predeclared, beyond ASCII, 31 .. 65 536 bytes) x 3 forms of type parameters, as function, method, type and receiver", "other scopes with 2 trailing words out of 20", TP + " on functions, structs, interfaces and other types × 4 parameter lists × 13 results × 4 surroundings", "one-line and other bodies: 11 bodies × 13 results × 4 parameter lists × 5 receivers", STMTS, PRAGMA, "the last of 130 .. 520 / 1 030 declarations"],
"C07": ["functions, methods, interface methods, func types: 12 parameter × 6 result forms over 29 type forms × comment gaps × surroundings", "struct rows: every row form, every pair of adjacent row forms, fields of multi-line struct and interface types (their rows and methods included)", "12 / 40 parameters and fields", "31 odd names as function, parameter, field, method and result names", TP + " × 27 types of a parameter or field × comment gaps", "6 bodies × 29 result types × 4 receivers", STMTS, PRAGMA, "types nested 2 .. 70 / 300 deep in 8 ways, in 5 places", "70 .. 1 030 parameters, results, fields and methods"],
"C08": [raw(3, 4), lex(3, 5), pieces("3 (12 tokens) and 2 (28)", "4 (13) and 3 (28)"), "declarations cut off at every byte", "handmade scopes of any kind over 2 / 3 arbitrary nodes", "every node method on nil receivers and with nil arguments", BIG, DEEP, "termination: at most 120 000 000 SSA instructions and 100 000 frames deep per path", PRAGMA],
"C09": ["map orders: 8 / 14 rotations and reversals of every package-level table and map range", raw("2 (1 state)", "3 (1 state)"), lex("2", "4"), "parse A, edit everything, parse B, parse A again: 12 texts each way with symbolic bytes", "map orders of SEQ, NEAR and long texts: " + SEQ + "; " + NEAR, "shared writes: on every path of raw (3/4 bytes), lex (2/4), pieces (2/3), big, long, edge and sequence texts no write to package-level memory and none to the caller's bytes; since paths without shared writes commute this covers every interleaving of any number of parses", "a race-detector build replays sampled paths with 4 goroutines"],
"C10": ["one operation from every consistent arrangement of 4 / 5 nodes (chains and rings) with symbolic arguments including nil; node kinds symbolic over every kind, texts of 0-2 bytes symbolic", "sequences of 2 / 3 operations", "chains from NewNodes of up to 5 / 9 texts and from parsed texts (raw 2/4, lex 2/4, pieces 2/3, declarations)", "one step from an arbitrary consistent state: histories of any length within that many nodes"],
"C11": ["one operation from every arrangement of 7 / 9 nodes in chains and 5 / 7 with rings, every receiver and argument", "sequences of 2 / 3 operations on 4 nodes", "chains of 30 .. 1 025 / 5 000 nodes"],
"C12": ["2 arguments out of 6 / 7 nodes, 3 out of 4 / 5, 0-1 with rings out of 5 / 6, nil receiver with up to 3 arguments, in every arrangement", "texts of arbitrary bytes and symbolic lengths, kinds symbolic over every kind", "40 .. 5 000 arguments"],
"C13": ["every arrangement of 6 / 8 nodes and start node, 8 edits on either side", "scopes and trees of parsed texts: raw 2 / 3, pieces 2 / 3, declarations", "scopes of any kind and line over any arrangement of nodes", "trees of 10 / 40 declarations", "chains of 200 .. 20 000 nodes", "trees of 3 / 5 handmade scopes of 7 kinds, one of them twice"],
"C14": ["every arrangement of 8 / 10 nodes, start node, stopping point", "edits from the callback at each of 5 places", "NewNodes of up to 7 / 11 texts of arbitrary bytes", "accessors with arbitrary text, line and kind", "chains of 300 .. 66 000 nodes"],
"C15": ["every string of up to 5 / 8 arbitrary bytes against every affix of up to 4 / 7", "strings of 20 .. 70 000 bytes differing in one place, affixes of 34 lengths", "slices and element lists of up to 3 / 5 with spare capacity", "texts of up to 4 / 5 arbitrary bytes and long ones", "sets of up to 4 / 6 elements; membership of every text of up to 13 / 15 bytes in the parser's tables"],
"C16": ["names of up to 4 / 5 bytes over '.goa' in 6 directories", "41 odd names (capital extensions, spaces, several extensions, 300 bytes, 60 directories)", "files of 17 lengths around buffer sizes up to 70 001 bytes", "handmade scopes of every kind, without nodes, twice, with nodes of any kind", "every edit out of 4 at every node of a 7-scope file", "round trips of raw (2/3 bytes in 5/12 states), declaration, long texts, with short reads", "data of up to 4 / 6 arbitrary bytes through the helpers", "formatter and importer outcomes: accepted with a visible change, shortened, emptied, lengthened, rejected; old files longer than, as long as and equal to the new text", "scopes that begin within a chain", "files of a megabyte", "older files that differ from the new one in a byte at any of 5 places, or in length"],
"C17": ["every combination of failing calls among up to 6 / 8 consecutive file-system calls (mkdir, create, open, read, write, close), failing writes that wrote one byte, failing reads that delivered one byte", "formatter rejection", "directory in the way, file in the way", "data of up to 3 / 5 arbitrary bytes, texts of 512 .. 70 000 bytes with the k-th call of one sort failing, k up to 12", "15 error values (not-exist, exist, permission, closed, short write, unexpected EOF, system errors, wrapped ones)", "4 formatter outcomes, text returned along with an error"],
"C18": ["with and without a byte order mark; package names of up to 2 / 4 symbolic bytes (letters, digits, _, bytes beyond ASCII) × 8 leading comments × inner comments × 3 line ends × 4 rests", "13 odd names, names and comments of up to 8 000 and 80 000 bytes, up to 130 comments in front of the clause, 6 forms of comments inside it", "texts of up to 2 / 3 bytes that have no clause, against the reference lexer", "paths of up to 4 / 6 bytes over 'a./go' in 5 directories, 22 odd paths", "every outcome of opening, reading and formatting with 9 error values, a directory of that name", "handmade scopes of 7 sorts around the package scope", "white space of up to 2 / 3 bytes out of blank, tab, carriage return and newline and a comment in every place of the clause"],
"C19": ["every sequence of 3 / 4 operations (append 0-2 scopes, new list of 0-2, another tree's list whole or shortened, iterate to any stop, caller goes on with its list) on trees derived from one another, with and without spare capacity", "lines: symbolic integer -1..2^40", "handmade trees of 4 scopes in every order of 3 sorts, with kinds and lines varied", "lists of 7 .. 1025 scopes growing in turns", "the same scope up to 4 times in a row"],
"C20": ["two texts of up to 2 / 3 arbitrary bytes and a lookup of up to 2", "3 / 4 texts of up to 3 bytes over {a,b} in any order, lookups over {a,b,c}", "2 / 3 of 10 non-ASCII texts", "5 base maps in 8 map orders", "values: symbolic integers; the place of every text and of every prefix", "2 / 3 Insert calls with an arbitrary byte at any of 4 places", "texts added below another text's place", "12 texts side by side and below one another", "one place with 17 / 256 successors", "texts of 400 / 4000 bytes that part at 13 places"],
"C21": ["every exported kind; scope kinds of up to 7 / 9 arbitrary bytes", "scopes and nodes of parsed texts: raw 2 / 3, lex 2 / 4", "scopes of pieces 2, declarations, SEQ, NEAR and long texts: " + SEQ, "handmade nodes of every kind, 10 lines, texts of up to 2 / 3 arbitrary bytes, long texts of 11 lengths up to 70 000"],
"C22": ["39 values of every kind but complex numbers, with symbolic numbers, bools and texts of up to 2 bytes", "all pairs of the 22 comparable ones", "messages of 0 to 3 texts", "12 ways for a function to end; run time errors by symbolic index and type"],
"C23": [raw(2, 3), lex(2, 4), pieces(2, 2), DECL, SEQ, BIG, NEAR, "headers: 12 parameter and 6 result forms over 29 type forms, 10 receiver forms, 12 forms of type parameters, 39 forms of fields with 6 sorts of tags and comments, interface methods, func types, a comment in any gap", "5 bodies; 2 / 3 of 28 tokens inside 5 beginnings of a body behind functions and methods", "2 / 3 of 28 tokens in 9 beginnings of other declarations (func literals, structs and interfaces in var, const, import, comments)", AFTER, STMTS, EXPRS, PRAGMA],
"C24": [raw(2, 3), lex(2, 4), pieces("2 (14 tokens)", "2 (28)"), DECL, SEQ, EDGE, NEAR, EXPRS, LONG, BIG, DEEP, "18 node operations on every pair of 6 nodes of two chains, nil included, texts of 1 arbitrary byte", "printing of nodes with texts of 0-2 / 0-3 arbitrary bytes, 5 kinds, 4 lines, nil, and of scopes of every kind", "histories of up to 3 switches of debug output, up to 2 arguments of up to 2 arbitrary bytes", "loading and saving with none or one of the first 8 file-system calls failing, with and without rejected formats", "helpers, kinds, sets and the trie on texts of up to 2 arbitrary bytes", PRAGMA],
"C25": [raw(2, 3) + ", start line 0 and -3", lex(2, 4), CLOSED, NEAR, SEQ, BIG, EDGE, MARK, EXPRS, "one of 28 tokens after each of 16 openings, between 2 declarations", "declarations of the grammar and of STMTS among 2 / 10 neighbouring texts: " + DECL + "; " + STMTS, "2 / 3 declarations of 20 sorts in any order with 3 separations", "20 / 60 times 3 declarations", PRAGMA, "one of 130 .. 520 / 1 030 declarations"],
"C26": [raw(2, 2), lex(2, 3), pieces("2 (20 tokens)", "2 (28)"), DECL, NEAR, EDGE, SEQ, EXPRS, BIG, PRAGMA, "scopes built by hand of 7 kinds over 3 / 4 nodes in any arrangement, line and kinds symbolic", "trees of these and of parsed scopes, asked, iterated, copied and saved (stand-in file system)", "every question asked twice"],
}
ASSUME = [
 "bounds are given as quick / thorough; nothing is claimed beyond them",
 "the encoding is go/ssa of /repo's current source, executed by /verif/engine; standard library functions are executed from their own source except those listed in engine/intrinsics.go and the models in harness/zzv/models.go",
 "C16-C19, C24 and C26 replace os, go/format and golang.org/x/tools/imports by the in-memory stand-ins in harness/zzos, zzformat, zzimports (the formatter and the importer are outside the claim)",
 "allocation never fails; the garbage collector and goroutine scheduler are not modelled (C09 argues by absence of shared writes)",
 "paths ending in a construct the engine does not support are counted as paths_not_decided and not claimed",
]
TECH = {
 "C09": "symbolic execution of the real code (go/ssa to SMT) over inputs and map orders; shared-write freedom on every path",
 "C10": "symbolic execution of the real code, one inductive step from an arbitrary consistent link state",
 "C17": "symbolic execution of the real code with symbolic fault outcomes of every file-system call",
}
titles = {}
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l); titles[p["id"]] = p["title"]
checks = []
for i in sorted(titles):
    checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
        evidence_file=f"evidence/{i}.json",
        technique=TECH.get(i, "symbolic execution of the real code: go/ssa of /repo's source to SMT (z3), counterexamples replayed natively"),
        level="model_checking",
        level_note="Holds for every value within the bounds (quick / thorough): " + "; ".join(B[i]) + ". Trusts the engine's translation (validated on every run by replaying sampled paths natively) and the solver."))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=[],
    notes="No hooks in /repo: harnesses are overlaid into package goast at load and build time. See DESIGN.md."),
    open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
b = dict(B); b["assumptions"] = ASSUME
json.dump(b, open(os.path.join(root, "bounds.json"), "w"), indent=1, ensure_ascii=False)
