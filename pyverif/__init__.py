"""pyverif: a small contract-based deductive verifier for the Python code of BibleOrgSys.

It symbolically executes the functions found in /repo's *current* working tree (their AST is re-read on
every run), path by path, against sidecar contracts, and hands the proof obligations to z3 / cvc5.
"""
