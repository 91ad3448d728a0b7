import gen_inc


def generate(select=None, shards=8):
    return gen_inc.generate("sequence.inc", '#include "sequence_probes.hpp"\nusing namespace probe;\n', "seq", select, shards)
