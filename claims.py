"""What is claimed, and how (input of tools/gen_manifest.py)."""
DEFAULT_TECHNIQUE = 'abstract interpretation of the package source (byte-layout domain, trace partitioning)'
DEFAULT_NOTE = (
    'Sound for the enumerated client programs with unknown values: every obligation is decided on every trace '
    'partition; unknown lengths are split into 0, 1 and a representative larger class, loops over them unrolled for '
    'those. Trusted: the models of struct, io, typing and builtins in sa/. Constructs the analysis cannot model '
    'leave an obligation undecided (reported in the evidence), never violated.')
TECHNIQUE = {}
NOTE = {}
NOT_APPLICABLE = {
    'C29': 'Thread interleavings: the package makes no locking promise and keeps size on shared serializer objects by '
           'design; no static argument short of an escape analysis against an unstated contract decides it.',
}
