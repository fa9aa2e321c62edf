NA = {
 "C29": "Quantifies over all client queries and the semantics of query execution; no static argument over this code base bounds it. Its code-level consequences are claimed as C01-C09.",
}
VDG = "value-dependence-graph dataflow analysis (gated SSA, BDD guards) compared with a reference model's graph"
NOTE = "Every path of the analysed functions is covered (no bound); sound up to the stated assumptions about documents, the standard library and the parser, and the analyser itself. A construct the analyser cannot interpret is reported as a violation."
CLAIMED = {i: (VDG, NOTE) for i in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C27 C28".split()}
CLAIMED["C26"] = ("inclusion-based points-to analysis over SSA (field-sensitive): no write reachable from the analyses may target the parsed document",
  "Sound over-approximation of all paths and aliases in the repository's code and in the parts of gqlparser, slices, maps and sort it calls; other library functions are assumed not to write into a document they are given.")
CLAIMED["C23"] = ("product construction (bisimulation up to an inductive relation) over the SSA of both scanners, with affine-equality and partition-refinement domains",
  "Every path of both scanners with all helpers inlined, for inputs of any length (no bound); relations between states are inductive invariants. bytes.Buffer, strings and unicode/utf8 are modelled by their documentation; documents of 2 GB and more are excluded.")
CLAIMED["C30"] = ("ranking-function synthesis by path-wise symbolic execution of one loop turn over linear expressions, structural-recursion check on the call graph, loop-carried growth dataflow",
  "Every loop, recursion and size of every function of the module; the parser, the standard library and cobra are assumed to finish in polynomial time on finite input, and parsed documents to be finite trees. A loop whose bound the analysis cannot find is reported as a violation.")
CLAIMED["C31"] = ("abstract interpretation of the start-up code: the tree of commands and option registrations that reaches the framework is compared with the documented one; status of the refusing run from the value-dependence graph",
  "Every path of main up to and after the framework's refusal; that cobra and pflag refuse what is not registered is assumed as documented.")
CLAIMED["C32"] = ("inclusion-based points-to and effect analysis: memory reachable from package-level variables against every write reachable from the exported functions",
  "Sound over-approximation of all paths, aliases and call sequences in the repository's code and in the parts of gqlparser, slices, maps and sort it calls; other library functions are taken to change any package-level memory they are given, except values made for sharing (regular expressions, mutexes, files).")
