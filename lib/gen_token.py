import gen_inc


def generate(select=None, shards=8):
    return gen_inc.generate("token.inc", '#include "token_probes.hpp"\nusing namespace probe;\n', "token", select, shards)
