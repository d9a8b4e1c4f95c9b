# property: (technique, level note)
REF = "Random exploration within the stated sizes; trusts the reference models in harness/ref*.go, the Go toolchain and the harness's own printer of grammars."
CHECKS = {
    "C01": ("generated lexical grammars and inputs vs a subset-construction reference lexer", REF),
    "C02": ("generated lexical grammars with string literals vs a reference lexer and a metamorphic move of the definitions", REF),
    "C03": ("metamorphic: generated lexers with and without suppression marks on the same inputs", REF),
    "C04": ("generated grammars and arbitrary rune sequences vs tiling and position invariants", REF),
    "C05": ("generated character sets, every rune of Unicode vs the Unicode tables of the Go library", REF),
    "C06": ("metamorphic: markdown documents vs the same with the text outside the fences blanked", REF),
    "C07": ("metamorphic: generated token definitions vs the same with references inlined or laws of regular expressions applied", REF),
    "C08": ("generated grammars, token tables and accessors vs the grammar and a reference unescape", REF),
    "C09": ("generated grammars and inputs vs a CFG membership fixpoint", REF),
    "C10": ("generated grammars and sentences vs the forest of a derivability fixpoint", REF),
    "C11": ("generated grammars and sentences vs a count of derivation trees", REF),
    "C12": ("generated grammars and rejected inputs vs Earley viable prefixes", REF),
    "C13": ("generated grammars and sentences vs a reference binarised SPPF", REF),
    "C14": ("generated grammars, every node of each forest vs the reference forest", REF),
    "C16": ("generated LR(1) grammars and inputs vs a membership fixpoint, Knuth vs Pager", REF),
    "C17": ("generated LR(1) grammars with recording action routines and injected action errors vs a reference derivation", REF),
    "C18": ("generated grammars vs the canonical LR(1) automaton", REF),
    "C19": ("generated LR(1) grammars and rejected inputs vs Earley viable prefixes", REF),
    "C15": ("generated grammars, random schedules of concurrent parses under the race detector vs sequential runs", REF + " Schedules are those the Go scheduler produces under the race detector."),
    "C20": ("generated and mutated grammar files vs an independent reader of the notation and scope rules", REF),
    "C21": ("generated grammars with awkward names, literals and shapes, compiled with the Go compiler", REF),
    "C22": ("generated histories of gogll runs, edits and removals vs a model of the files; repeated runs compared", REF),
    "C23": ("metamorphic: generated grammars vs the same renamed, reordered and laid out differently", REF),
    "C24": ("generated grammars, reports vs the least solution of the FIRST/FOLLOW equations and the LR(1) closure conditions; the reported automaton run against the generated parser", REF),
    "C25": ("differential: gogll vs a gogll built with the packages it generates from gogll.md, on generated and mutated grammar files", REF),
    "C26": ("generated grammars and families of growing inputs; steps of the instrumented generated code and allocated bytes at two or three lengths vs the bound of growth", REF + " Growth is measured between two lengths (200 and 1600 tokens, 50 and 100 for cubic), with slack for lower order terms."),
    "C27": ("generated command lines (spellings, order, repetition, wrong flags, file names, output directories) on generated grammars; exit status, messages and the whole scratch tree vs a model of the command line and a plain run in a fresh directory", REF + " Arguments behind the source file, -go=false, -gll=false, -rust and -t are not used."),
    "C28": ("generated grammars; the reports of -v read back and compared with the grammar and, as automata, with a subset-construction reference of the token definitions", REF + " Grammars with line breaks or item marks in literals are left out; the automata are compared where the reference has at most 400 states and no partially overlapping sets."),
}
NOT_APPLICABLE = {}
NOTES = "See DESIGN.md. Each check builds the harness and gogll from the current tree into a scratch directory under /tmp, which it removes."
