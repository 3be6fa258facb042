"""C06: opening a cache file or resource map, and reading the structures of its tags, never panics."""
from .. import panics
from ..report import where

RULE = ('Every bounds check, arithmetic check, index, slice, unwrap, explicit panic, conditional library call and allocation in the code that opens cache files and resource maps and reads structures out of them is ruled out by the '
        'conditions under which it is reached; structure readers are judged one by one under the contract that the structure fits, which every call of a reader is shown to establish.')
EXPLANATION = ('Abstract evaluation of the opening functions and of each reader they call; each place that could panic is an obligation proved by linear arithmetic over branch facts. Not decided here: the places listed in APART.')
ROOTS = ('map::xbox::XboxCacheFile::new', 'map::gearbox::GearboxCacheFile::new', 'map::header::ParsedCacheFileHeader::read_from_map_data', 'map::header::get_map_details',
         'map::resource::ResourceMap::from_data', 'read_any_tag_from_map')
# left out by the wording of the property: these rest on relations between whole collections
APART = (('map::util::fixup_bsp_addresses', ('unwrap', 'bounds')),
         ('GearboxCacheFile::patch_up_external_custom_edition_sound_tag', ('unwrap', 'index')),
         ('map::gearbox::GearboxCacheFile::new', ('unwrap',)))


class Maps(panics.Panics):
    def apart(self, ev, e, tag):
        return any(e.fn.endswith(f) and tag in k for f, k in APART)


def check(P, R):
    pp = Maps(P, R)
    for n in ROOTS:
        pp.run(P.one(n))
    pp.drain()
    floors(R, {'readers called': 5500, 'arithmetic and bounds assertions': 600, 'index and slice expressions': 25, 'unwraps': 20, 'allocations': 4, 'library calls with conditions': 12})


def floors(R, want):
    for k, n in want.items():
        R.floor(k, n * 2 // 3)
