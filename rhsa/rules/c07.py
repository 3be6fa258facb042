"""C07: reading a tag file never panics, whatever it contains."""
from .. import panics
from .c06 import floors

RULE = ('Every bounds check, arithmetic check, index, slice, unwrap, explicit panic, conditional library call and allocation in the code that reads a tag file is ruled out by the conditions under which it is reached; '
        'structure readers are judged one by one under the contract that the structure fits, which every call of a reader is shown to establish.')
EXPLANATION = 'Abstract evaluation of the tag file loader and of each reader it calls, for every group; each place that could panic is an obligation proved by linear arithmetic over branch facts.'
ROOTS = ('read_any_tag_from_file_buffer', 'tag::TagFile::load_header_and_data')


def check(P, R):
    pp = panics.Panics(P, R)
    for n in ROOTS:
        pp.run(P.one(n))
    pp.drain()
    floors(R, {'readers called': 5500, 'arithmetic and bounds assertions': 700, 'index and slice expressions': 100, 'unwraps': 3, 'library calls with conditions': 8})
