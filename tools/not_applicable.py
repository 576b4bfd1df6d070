from collections import defaultdict

NA = defaultdict(lambda: "check not built yet")
NA.update(
    N01="The printed text is produced by arbitrary user-defined __repr__ methods and evaluated by the Python compiler; neither can be given a symbolic encoding within reach.",
    N02="The final filter runs CPython's C regex matcher on a pattern that is itself a program; encoding that matcher for symbolic strings and patterns is out of reach.",
    N03="Quantifies over arbitrary importable Python modules and needs the Python compiler as its oracle; there is no bounded symbolic input that stands for them.",
    N04="Quantifies over arbitrary Python types and their metaclass machinery (isinstance hooks, typing internals in C); no symbolic encoding of a type exists here.",
    N05="Thread interleavings of CPython's queue and threading primitives (implemented in C) cannot be made symbolic by re-executing the source; a hand-written model of them would not be the real code.",
)
