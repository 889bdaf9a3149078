"""What the proofs rest on without checking it (see DESIGN.md)."""
BASE = [
    'rustc: the MIR it prints is the MIR it compiles (the MIR is taken from the compilation the replays run)',
    'engine/*.py: the symbolic machine, its decision procedures and the models of the libraries (syn, quote, '
    'proc_macro2, proc_macro_error2, std); implied decisions are confirmed by SMT solvers',
    'contracts of syn for tokens, literals, paths and groups (engine/symspec.py), replayed on real inputs',
    'engine/spec.py states what the properties mean (the same text is the oracle of the replays)',
]
ASSUMPTIONS = [
    'derived Clone, PartialEq, Default and Debug do what the derives do',
    'the keyword types of the custom_keyword macro parse exactly their identifier',
    'the input holds no None-delimited groups (they only arise from other macros)',
    'sequences of tokens are finite; allocation does not fail; the stack suffices for the nesting of the input',
    'spans are not compared: only that they are computed without a panic',
    'rustc type checks the expansion: it is not proved that the expansion compiles, only what tokens it holds',
    'a path where the contract reports an error need not agree in its tokens',
]
