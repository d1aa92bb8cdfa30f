"""Reasons of the properties which are not claimed"""
NA = {
    "N01": "whether arbitrary generated C++ compiles is a question about another compiler's semantics applied to an unbounded family of inputs; no static argument about the Python generator reaches it (C04, C10 decide necessary conditions)",
    "N02": "equivalence of rendered and original C++ depends on srcML's output (an external program) and on the semantics of C++ text for every input; it can only be sampled by running the code",
    "N03": "the behaviour of compiled bindings called from Python (buffers, strides, defaults) is that of generated C++ and of pybind11/nanobind, which are not in the analysed sources (C08 decides that the wrappers forward their arguments)",
    "N04": "which code lies inside which preprocessor region depends on srcML's token stream; the state machine quantifies over run-time sequences of XML nodes that no type or data-flow argument bounds",
    "N05": "termination and running time depend on the sizes and shapes of run-time trees and strings (e.g. backtracking of regular expressions given by the user); no sound static bound is in reach",
}
