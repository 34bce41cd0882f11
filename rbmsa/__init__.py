"""rbmsa: static analyser specialised for phausamann/rigid-body-motion.

The analyser parses /repo's current sources, builds an interprocedural
value-flow graph (gated SSA) by abstract interpretation and runs
domain-specific type and effect inferences over it.  No code of the
analysed package is ever imported or executed.
"""
