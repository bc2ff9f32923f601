#!/usr/bin/env python3
"""Writes known_findings.json (committed; never written by a check)."""
import json, os
F = [
 ("C04", "C04-deep-nesting-4000000", "Unmarshal of a recursive message nested 4,000,000 levels deep (24 MB of input) exhausts the goroutine stack and kills the process; nesting depth is not limited."),
 ("C15", "C15-oneof-not-decoded", "Fields of a oneof are silently skipped by Unmarshal: the generated interface field (tag protobuf_oneof) is not known to the runtime."),
 ("C15", "C15-oneof-not-encoded", "Fields of a oneof are silently left out by Marshal: the generated interface field (tag protobuf_oneof) is not known to the runtime."),
 ("C15", "C15-group-unsupported", "Messages with a proto2 group are generated with the tag \"group,N,...\", on which Marshal and Unmarshal panic (unsupported wire type in struct tag)."),
 ("C15", "C15-double-public-forward", "Two files of one Go package which both publicly import the same file of another Go package both forward its symbols, so the package does not compile (redeclared)."),
 ("C15", "C15-directive-comment", "A comment in the schema that reads as a directive to the Go tools (//go:..., //line ..., // +build) is copied as it is, so the generated file does not compile or is excluded."),
]
X = [
 ("C02", "bdd3c0a", "map values were sized with the codec of the key, so length prefixes and Size were wrong (C01, C03 too)"),
 ("C01", "5371d42", "an empty non-nil map was encoded as one entry (C02 too)"),
 ("C01", "f87a1ad", "zigzag map keys and values were decoded as plain varints"),
 ("C01", "a4e9516", "repeated and map fields of fixed width integers were encoded as varints (C02 too)"),
 ("C01", "16242e3", "pointers to fixed width integers were treated as values (C04 too)"),
 ("C08", "925daef", "slice and pointer codecs were cached by the Go type alone, so the first use decided the encoding"),
 ("C01", "e96a089", "sfixed32 and sfixed64 fields were encoded as varints (C15 too)"),
 ("C12", "047496b", "a pointer to a zero scalar lost its presence"),
 ("C09", "ad65c20", "struct infos and codecs were published before their walk was finished (C08 after a panic, too)"),
 ("C05", "9c664b7", "decodeBool looked at the first byte of the varint only"),
 ("C07", "dd3228a", "a new element of a repeated message field was merged into stale contents of the spare capacity"),
 ("C01", "64d3025", "empty elements of repeated bytes were dropped if they were nil"),
 ("C14", "76a0d20", "nil and non-struct arguments made Marshal and Unmarshal panic"),
 ("C15", "302dad4", "the label req, which the generator writes, made the runtime panic"),
 ("C08", "1a23ebd", "a map codec cached by its type made unsupported types such as []map pass"),
 ("C08", "9cf74d5", "*[]byte was treated as a slice header (C04 too)"),
 ("C15", "98bf656", "optional fields of a named enum type made the runtime panic (C01 too)"),
 ("C15", "7abf7de", "packed repeated scalars, which standard encoders write for proto3, were rejected (C05 too)"),
 ("C15", "35830de", "the getter of a oneof member of an enum type from a Go package named x did not compile"),
 ("C19", "f564af7", "with Go 1.24 and 1.25 built with GOEXPERIMENT=noswissmap, Size and Marshal of any non-empty map overwrote memory beside the iterator (crash): the copied iterator struct was 8 bytes too short"),
]
out = {"findings": [{"property": p, "key": k, "what": w} for p, k, w in F],
       "fixed": ["fixed: property=%s %s %s" % x for x in X]}
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
open(p, "w").write(json.dumps(out, indent=1) + "\n")
