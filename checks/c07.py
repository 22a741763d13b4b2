"""C07: every encoder is the standard's encoder, for every history of scalar values."""
from coders import *

LEVEL = "other"
RULE = ("Every encoder class is explored in lock-step with a transcription of the encoding standard's algorithm: product of the abstract states to a fixpoint, one symbolic scalar value or end-of-queue per step, "
        "comparing result kind, bytes, the code point of an error, code points given back to the input and (through the next steps) the state.")
ASSUME = ["index tables are uninterpreted in this check (their contents are C08's)", "input items are scalar values, as the standard requires of an encoder's input"]


def check(rep):
    R = CoderRun(export("encoding.cpp"))
    for cls, (spec, init) in ENCODERS.items():
        rep.guard(cls, R.explore, rep, cls, spec, init, SCALARS, True)
    for n in SINGLE:
        cls = "single_byte_encoder<index_pointer_%s_0, index_pointer_%s_1>" % (n, n)
        rep.guard(cls, R.explore, rep, cls, e_single(n), dict, SCALARS, True)
    rep.need("coders", 20)
