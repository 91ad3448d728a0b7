import gen_inc


def generate(select=None, shards=8):
    return gen_inc.generate("search.inc", '#include "search_probes.hpp"\nusing namespace probe;\n', "search", select, shards)
