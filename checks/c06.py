"""C06: every decoder is the standard's decoder, for every byte history."""
from coders import *

LEVEL = "other"
RULE = ("Every decoder class is explored in lock-step with a transcription of the encoding standard's algorithm: product of the abstract states to a fixpoint, one symbolic byte or end-of-queue per step, "
        "comparing result kind, code points, bytes given back to the input and (through the next steps) the state.")
ASSUME = ["index tables are uninterpreted in this check (their contents are C08's)", "the state after a fatal error is the standard's"]


def check(rep):
    R = CoderRun(export("encoding.cpp"))
    cl = R.classes()
    for cls, (spec, init) in DECODERS.items():
        rep.guard(cls, R.explore, rep, cls, spec, init, BYTES, False)
    for n in SINGLE:
        cls = "single_byte_decoder<index_code_point_%s>" % n
        rep.guard(cls, R.explore, rep, cls, single_byte(n), dict, BYTES, False)
    rep.need("coders", 20)
