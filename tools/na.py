P.append(dict(id="C91", title="Work grows reasonably with the input", statement="Parsing time and memory stay polynomial, of a small degree, in the length of the input, whatever its nesting.", quantifier=dict(over=["inputs"], text="all inputs of all lengths"), why_tests_cant="The benchmarks time a few inputs.", anchors=dict(files=["RFC5322Parser.g4","parser/rfc5322_parser.go"], mechanism=[dict(name="adaptive LL prediction", where="ANTLR runtime")])))
NA["C91"] = "A growth rate is a statement about unbounded lengths; bounded symbolic execution only sees the fixed lengths it unrolls, and prediction cost lives in the ANTLR simulator that the engine replaces by an equivalent."
