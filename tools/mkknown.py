#!/usr/bin/env python3
"""Writes known-findings.jsonl: genuine defects, all repaired with a fix: commit in /repo."""
import json, os
FIXED = [
 ("P02", "58caab2", "'/*/' was read as a whole block comment and '---' as an ended line comment: the characters that open a comment also closed it"),
 ("P04", "56bb1ba", "a reader error inside a line comment looped forever; elsewhere it was lost and a module came back"),
 ("P11", "0407f0b", "looking ahead beyond the buffered input panicked at the end of the text and at short reads (also P03)"),
 ("P10", "aa400d0", "a word that ends in a hyphen at the end of a line was reported on the next line"),
 ("P10", "d06f496", "a lexical error was replaced by the parser's later 'unexpected $end'"),
 ("P09", "6d65878", "a module followed by a block comment that is never closed was accepted"),
 ("P06", "4d300eb", "every DEFAULT shared one variable with values parsed later, so that defaults changed (also P05)"),
 ("P06", "baa8161", "the leading reference of an OBJECT IDENTIFIER value shared one variable with values parsed later"),
 ("P06", "0bb2a9d", "1.05 was read as 1.5 and exponents were computed with rounding errors"),
 ("P14", "f1c7b0f", "a CHOICE represented as asn1.RawValue did not import encoding/asn1"),
 ("P12", "848f661", "UTCTime was reported as unresolved (also P16)"),
 ("P11", "e5fc39a", "cyclic type references made generation loop or recurse forever (also P16)"),
 ("P12", "cb685c5", "a CHOICE whose alternative is tagged behind several references became interface{}"),
 ("P12", "7fe143a", "SEQUENCE OF SET ... was declared with the SET suffix although the list is no SET OF (also P18)"),
 ("P13", "c6d5df7", "a field that refers to a SET type was not annotated as set, so a SEQUENCE was encoded (also P18)"),
 ("P13", "50714c7", "a field that refers to a named string type lost its kind annotation (also P18)"),
 ("P14", "e18e124", "REAL values: integer literals became big.NewInt and infinities +Inf, which does not compile (also P17)"),
 ("P14", "66e72c0", "a named number that refers to a value without declaration produced source that does not compile (also P15)"),
 ("P20", "facb503", "error messages that contain % were printed garbled"),
 ("P08", "932e7ad", "IMPORTS from several modules without object identifiers was rejected"),
 ("P11", "d6b094b", "deeply nested block comments exhausted the stack and ended the process"),
 ("P21", "4476482", "a column -1 of a hex dump became the byte ff, -100 the byte 00, +1 the byte 01"),
]
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known-findings.jsonl"), "w") as f:
    for p, c, w in FIXED:
        f.write(json.dumps({"property": p, "status": "fixed", "commit": c, "what": w, "entry": "fixed: property=%s %s %s" % (p, c, w)}) + "\n")
