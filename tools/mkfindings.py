"""Writes known_findings.json from the lists below (known defects by their exact input, repaired ones by commit)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
known, fixed = [], []
def K(prop, sub, case, what):
    known.append({"status": "known", "property": prop, "sub": sub, "case": case, "what": what})
def F(prop, commit, what):
    fixed.append({"status": "fixed", "property": prop, "commit": commit, "what": what, "line": "fixed: property=%s %s %s" % (prop, commit, what)})

for op in ["ge", "gt", "le", "lt"]:
    for ty in "iudy":
        K("F08", "flip", {"op": op, "type": ty}, "the short notation of %s(constant, variable) over type %s swaps its operands (funcs.Sprint of ge(2,$int) is '>= int(2)', which reads ge($int,2)); pinned by TestTrim in relapse/funcs/trim_test.go" % (op, ty))

for x in ["eq(1,1)", 'eqFold($string,"a")', "elem([]int{1},0)", "empty(1)"]:
    K("S04", "glued", {"op": "<", "x": x}, "a<%s is rejected, though the notation allows it: the lexer generated by gocc takes <e for the start of <empty> and does not go back to < (the generator's own code; a patch of it would be lost at the next generation)" % x)

F("F02","73a5dfd","negating a comparison gave a comparison that is not its complement when the label lacks the type (not(ge($int,1)) became lt)")
F("V08","d961afa","simplifying a value expression changed its meaning (text round trip of the predicate)")
F("F01","2792f5f","negative list indexes panicked")
F("V08","b9c8cfa","simplifying an interleave removed equal operands")
F("S02","1f5ca86","NewHasSuffix built the has-prefix notation")
F("V09","524b752","HasRecursion reported references that are only used twice")
F("V08","0d83d64","simplifying changed the expressions of the original pattern")
F("V04","0288fcf","compiling an automaton lost the complement of an implied condition")
F("F03","dfef32c","Compare of a constant and another function was 1 in both directions")
F("S05","0f7c3fe","int, uint and double literals in octal or hexadecimal and out of range panicked or had other values; char and octal byte elements likewise; string literals without a value were kept quoted")
F("S01","65b4514","double constants printed without double( ), which parses as an int or not at all")
F("S02","4a8918d","the names _, true and false printed unquoted, which are keywords")
F("S01","7c1d5ad","the comma or arrow before a built-in expression was not printed")
F("F08","99863b4","double constants printed with six digits, string constants with a backtick or carriage return printed in backticks")
F("F08","97e6c49","the expression of a regex printed unquoted")
F("F05","8c05186","FuncToName refused nested names, complements of choices and the empty set")
F("V02","737fc66","a grammar whose main pattern is declared as #main panicked in the interning engine and the memoising validator")
F("F06","3b30d40","a context did not reach functions under a zero or more pattern")
F("V05","12dc2dd","merging two patterns overwrote alternatives of the left one (aliased slices), which changed verdicts of the record optimised validator depending on earlier documents")
F("S02","b83c9ca","two tokens were printed next to each other that are lexed as one (a name before :: with a colon, #r= before ==, < before elem)")
F("S02","ef0308f","a value pattern built from a constant, a variable or a list printed without its arrow")
F("S02","aab4906","constants and names of nil bytes had no value and panicked when they were printed")
F("P01","a14ba9b","JSON strings with unicode escapes were refused")
F("P01","53bb832","brackets inside of JSON strings were counted as structure when a value was skipped or entered")
F("P02","a2c83b3","truncated and empty JSON panicked")
F("P02","264b2ba","trailing commas, text after the document and numbers without digits were accepted as JSON")
F("P01","1acf67a","an integer just below the smallest int64 was read as the smallest int64; whole numbers in exponent notation were not readable as uint")
F("P03","d3fea45","field types and extensions were looked up by the simple name of the message: messages of one name in two scopes were confused, messages nested deeper than two levels and extensions declared inside of messages were not found")
F("P04","1faf6cc","a length beyond the end of a message panicked")
F("P03","6086d52","negative sint32 values were decoded as positive ones")
F("P03","ed87d97","the index of a packed element was also readable as the name of the field")
F("P03","bd4c5ac","packed elements after unpacked ones were read as one element")
F("P09","f7cb244","leaving an xml element early left the parser inside of it; Up panicked on errors; a parser could not be reused from every point")
F("P06","f7cdc49","a truncated xml document was presented as a complete tree")
F("P05","e0ef8c4","an xml attribute with ]]> was refused")
F("P05","a66fde5","text was lost around xml processing instructions, and space around the root element was presented as text")
F("P07","3c4f498","the index of an element of a reflected slice was also readable as an empty string")
F("P07","ed08cfa","reading the bytes of a reflected uint8 or int8 panicked")
F("P08","e0fdd3a","a yaml key or scalar was cut at a colon that no space follows")
F("P08","24a010e","numbers and booleans behind a yaml key were only readable as strings; others were read as rounded or non-numbers (an integer just below the smallest int64, inf)")
F("P08","52a1e2e","spaces behind a yaml key without a colon were part of the key")
F("P08","a31813a","a yaml key without a value in the last array element was a string with a colon")
F("P08","9f257c9","a dash without a value at the end of a yaml document panicked; one at the end of a line had the text before it as its value")
F("E01","cde29f7","an empty object was encoded as null in JSON")
F("E02","074829e","a protobuf encoder for a recursive message type overflowed the stack")
F("E02","e525f3a","an empty nested message at the end of a buffer panicked in the protobuf encoder")
F("E02","5e39f5e","packed fields were encoded as malformed protobuf")
F("E02","fd42822","extensions were dropped by the protobuf encoder")
F("E02","23a5d90","a value where a protobuf message or list is expected made the encoder step into a leaf")
F("E02","a4a3555","values beyond 32 bits were silently cut in 32 bit protobuf fields")
F("V07","55fc0f5","a parser error inside of a field was swallowed by the protobuf encoder")
F("E03","577a4d0","encoding into Go values panicked on 32 bit, floating, pointer and bytes fields, on nulls and on parser errors, and on values that overflow")
F("E04","f5f3e18","text that spells a number was rewritten by the XML encoder (007 became 7)")
F("S07","a934c9f","an expression object used as the parameter of two functions printed with the punctuation of the other place, and Value panicked on it")
F("S07","a94dcf2","Value(LT(IntConst(5), IntVar())) became < 5: the shorthand swapped the operands of order comparisons, contains, prefix, suffix and regex")
F("Z01","5dd608a","duplicates survived zipping (and the order of or and and) when another pattern had the same hash")
F("V10","a97ae25","nested alternatives were not merged in derivatives: ([.*,.*,_:<empty>])* took time and stack exponential in the length of the document (a crash at 40 nodes)")
F("S08","5d6b2e7","reading a damaged serialised grammar panicked on a length close to the largest integer")
F("E03","987b930","strings encoded into a Go value shared memory with the buffer a protobuf parser read them from")
F("P03","24d8779","a protocol buffer with millions of unknown fields in a row overflowed the stack of the parser")
F("P14","16211c9","UnreadRune of the xml buffer went back over two bytes after a rune of one byte that is no UTF-8 and follows a byte above 0x7f")
F("P14","c19eb60","WriteRune of the xml buffer wrote a negative rune as an arbitrary byte")
F("P12","1d85530","two fields of one message, one of them an extension with the name of the other, were reported as one that requires merging")
open(os.path.join(here, "..", "known_findings.json"), "w").write(json.dumps(known + fixed, indent=1) + "\n")
