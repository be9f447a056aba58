#!/usr/bin/env python3
"""Writes known_findings.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = """
C04 bc07c8a the line of an opening bracket is that of the text buffered before it: "var a =\\n{" gives "{" an earlier line, and ParseScope splits scopes inside a line
C02 53d3db4 "\\\\" followed by the closing quote does not end a string literal
C02 d5c04eb /*/ is taken for a complete comment
C02 7589498 a rune literal that holds a quote, bracket or comment opening starts a string, bracket or comment
C03 079d46c a comment or literal that ends the text has no kind and the line of its end
C01 aef52a0 a comment or repeated node between the parts of a type is lost or doubled when the type is joined
C05 474d7d0 a word that merely begins with a keyword (variable, typed, functional) starts a scope
C05 57b923b ParseScope with a start line other than 0 misses a declaration on the first line
C18 cbed266 a package name that is also a keyword-like or basic type name (string, main1) is not found
C12 2ef769d combining with a nil receiver drops the requested kind and panics on a nil first argument
C04 355aab6 NewNodes does not count the newlines of its first text
C20 49a30b2 adding a text resets the values of its prefixes
C20 a981a2c FindText looks up runes where AddText stored bytes, so non-ASCII texts are not found
C15 01e2c2b HasPrefix compares runes with bytes and fails for non-ASCII text
C17 072c92e a failing close is not reported by SaveFile
C19 9318b38 the description of a scope names a line one below its Line()
C06 8c4dd9e a type that merely mentions struct or interface (func(struct{}), map[string]struct{}) is reported as one
C07 9840451 unnamed composite parameters ([]T, *T, func) are classified as names
C07 ccf7c9e an embedded field with a tag or comment is classified as a field name
C07 8111178 the result of a func type is not classified as a type
C07 5049db6 the results of a func parameter are taken for the parameters that follow
C06 ff5911a a func, type or method named like a basic type has no name
C18 aa48aeb a package clause behind a /* */ comment on its line is reported as missing
C07 62f0cfd the closing bracket of an interface written on one line is classified as a method's result type
C07 f8f6679 parameters behind one with an anonymous interface type are not classified
C07 2467dcc the parameter names of func types behind ... * [] or map[K] are classified as types
C06 f36fe69 a comment between a generic struct's name and its type parameters hides the struct's name
C06 0bcce60 the blank identifier is no name: func _() T is named T, type _ T is named T
C07 60be0b5 the methods of a field's interface type over several lines are classified as fields
C07 ce1a084 of several parameter names that share a type all but the last are classified as types
C05 f1f767a a byte order mark hides the first declaration, so that a file with one has no package clause or loses its first scope
C18 bdcdd43 a package name behind a comment that starts a line ("package\\n/* c */ p") is reported as missing
C22 29161c5 assertions panic on arrays and take nil funcs for values
C19 347566b appending scopes writes into the spare capacity of a list shared with another tree or the caller
"""
fixed = []
for l in F.strip().splitlines():
    p, c, w = l.split(" ", 2)
    fixed.append(f"fixed: property={p} {c} {w}")
json.dump(dict(findings=[], fixed=fixed), open(os.path.join(root, "known_findings.json"), "w"), indent=1, ensure_ascii=False)
