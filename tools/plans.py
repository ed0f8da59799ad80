"""What each property is tried on: families of cases, observations asked for, models it rests on."""
from itertools import chain

LEVEL = 'model_checking'
ASSUME = [
    'The specification (spec/*.tla) states the SMBIOS standard correctly; its tables were compared with the standard text quoted in the sources.',
    'The harness reports what the public API returned (it decides nothing); rustc, TLC and the JVM are trusted.',
]
DECODE = 'nsebgldt'


SCALE = 5   # quick tier: how many times the basic number of cases


def q(tier, a, b):
    if tier == 'thorough':
        return b
    return a if not isinstance(a, int) or a < 100 else a * SCALE if b is None else max(a, min(b, a * SCALE))


def sample(g, seq, n):
    seq = list(seq)
    return seq if len(seq) <= n else g.rng.sample(seq, n)


def plan(prop, tier):
    T = lambda a, b: q(tier, a, b)
    P = {}

    def add(name, want, cases, **kw):
        P[name] = dict(want=want, cases=cases, **kw)

    def walks(g, c, n):
        return (g.shaped(s) for s in sample(g, c['walk'], n))

    def anchors(g, c, n):
        return (g.anchored(s) for s in sample(g, c['search'], n))

    def values(g, k=1):
        """value-level conversions"""
        return chain(g.code_tables(), g.sm_types(100 * k), g.access(20 * k), g.devices(200 * k), g.elements(100 * k), g.descriptors(),
                     g.roms(60 * k), g.capacities(200 * k), g.cachesizes(256), g.cachesizes2(200 * k), g.cacheconfs(), g.pitches(),
                     g.revisions(100 * k), g.fields(100 * k), ['VO', 'ELT', 'DFN'])

    # C01: totality
    add('C01', 'nsebgldtwpq', lambda g, c: chain(
        ['Q 255 32768'],
        walks(g, c, T(2500, 40000)), g.malformed(T(5000, 60000)), g.noise(T(1500, 20000)), g.records(T(1200, 10000)),
        sample(g, g.grid(), T(2000, 100000)), sample(g, g.everylen(), T(1000, 100000)), g.stringlists(T(300, 3000)), g.manystrings(),
        g.dumps(T(600, 8000), c['data']), sample(g, g.truncations(T(4, 60)), T(800, 20000)), g.search(T(1500, 20000)), anchors(g, c, T(400, 6000)),
        sample(g, g.codes(T(6, None)), T(600, 40000)), sample(g, g.wide(), T(400, 3000)), sample(g, g.bits(), T(300, 3000)),
        g.roms(40, units=True), g.capacities(60), g.devices(60), g.elements(60), ['VO', 'ELT', 'DFN', 'VDF'], g.cacheconfs(), g.cachesizes(256),
        g.cachesizes2(40), g.sm_types(40), g.access(10), g.customs(T(150, 2000)), g.big(T(2, 6)), g.giant(T(3, None)), g.vast(T(2, None)), sample(g, g.code_tables(), T(60, 1000)), sample(g, g.pitches(), T(20, 300)),
        g.sizes(T(160, 1500)), g.late(T(20, 200)), g.named(T(1200, None)), g.bytewise(T(2500, 127744), None), sample(g, g.everyversion(), T(500, 3000))),
        walk=T(2, 3), search=2)
    # C02: places in memory
    add('C02', DECODE, lambda g, c: chain(
        walks(g, c, T(1500, 20000)), sample(g, g.grid(), T(2500, 100000)), g.malformed(T(1500, 20000)), g.records(T(500, 6000)),
        sample(g, g.everylen(), T(800, 60000)), g.noise(T(500, 6000)), sample(g, g.truncations(T(4, 40)), T(900, 20000)),
        g.dumps(T(60, 2000), c['data']), g.search(T(1200, 15000)), anchors(g, c, T(300, 5000)), sample(g, g.refs(), T(500, 20000)),
        g.stringlists(T(150, 3000)), g.devices(T(60, 1000)), g.sizes(T(80, 800)), g.late(T(10, 100)), sample(g, g.everyversion(), T(300, 3000)),
        g.bytewise(T(600, 20000), None)),
        walk=T(2, 3), search=2, places=True, chunk=4000)
    # entry points
    add('C03', '', lambda g, c: chain(anchors(g, c, T(6000, 60000)), g.search(T(6000, 60000)), sample(g, g.sums(T(30, 300)), T(2500, 60000)), g.lengths_ep(),
                                      g.prefixes(T(10, 100)), g.far(T(30, 150)), g.vast(T(4, None)), g.valid_eps(T(2000, 20000)), g.versions_ep()), search=T(2, 3))
    add('C04', '', lambda g, c: chain(g.search(T(3000, 30000)), g.valid_eps(T(5000, 60000)), anchors(g, c, T(1000, 10000)), g.lengths_ep(), g.far(T(15, 60)), g.vast(T(3, None))), search=T(2, 3))
    add('C05', '', lambda g, c: chain(anchors(g, c, T(5000, 60000)), g.search(T(6000, 60000)), sample(g, g.sums(T(30, 300)), T(2500, 60000)), g.lengths_ep(),
                                      g.prefixes(T(10, 100)), g.far(T(30, 150)), g.vast(T(4, None)), g.valid_eps(T(2000, 20000)), g.versions_ep()), search=T(2, 3))
    # the walk
    tables = lambda a, b: (lambda g, c: chain(
        walks(g, c, T(a, b)), g.tables(T(1500, 20000)), g.wellformed(T(800, 10000)), sample(g, g.truncations(T(10, 80)), T(2500, 30000)),
        g.dumps(T(100, 2000), c['data']), g.noise(T(800, 10000)), g.endmarks(T(500, 6000)), g.big(T(6, 24)), g.crowded(T(1, 3)), g.huge(T(2, 3)), g.giant(T(3, None)), g.terminators(T(40, None)),
        g.sizes(T(240, 3000)), g.late(T(40, 400), 1200)))
    add('C06', 'ne', lambda g, c: chain(tables(3000, 40000)(g, c), g.rawtypes(1)), walk=T(2, 3))
    add('C07', '', tables(4000, 60000), walk=T(2, 3))
    add('C08', '', tables(4000, 60000), walk=T(2, 3))
    # decoding
    add('C09', DECODE + 'w', lambda g, c: chain(
        g.contexts(T(1200, 15000)), g.wellformed(T(500, 8000)), walks(g, c, T(1200, 20000)), g.plain(T(1500, 20000)), g.dumps(T(80, 2000), c['data']),
        sample(g, g.grid(), T(1200, 100000)), g.malformed(T(500, 10000)), g.endmarks(T(100, 1000)), g.sizes(T(240, 3000)), g.late(T(60, 600)),
        g.bytewise(T(1500, 40000), None), g.named(T(800, None)), g.echoes(T(800, None))), walk=2)
    add('C10', 's' + 'de', lambda g, c: chain(sample(g, g.refs(T(1, 3)), T(9000, 100000)), g.manystrings(), g.plain(T(600, 8000)), sample(g, g.grid(), T(800, 20000)),
                                       sample(g, g.wide(), T(500, 4000)), g.records(T(400, 4000)), g.utf8(T(1200, 12000)), g.edges(T(1, 6)),
                                       g.spoken(), g.sizes(T(400, 4000)), g.late(T(10, 100)), sample(g, g.everyversion(), T(600, 3000))))
    add('C11', 'l', lambda g, c: chain(g.stringlists(T(4000, 50000)), g.manystrings(), sample(g, g.refs(types=[11, 12, 13]), T(1000, 20000)),
                                       sample(g, g.grid([11, 12, 13]), T(800, 20000)), g.utf8(T(300, 3000), [11, 12, 13]), g.edges(T(1, 4), [11, 12, 13]),
                                       g.spoken(None, [11, 12, 13]), g.sizes(T(400, 4000), [11, 12, 13])))
    add('C12', DECODE, lambda g, c: chain(g.grid(per=T(1, 6)), g.plain(T(1500, 20000)), sample(g, g.wide(), T(500, 4000)), g.orders(T(300, 3000)),
                                          g.everyversion(T(1, 6)), g.sizes(T(60, 600)), g.bytewise(T(600, 20000), None), g.echoes(T(800, None))))
    add('C13', DECODE, lambda g, c: chain(g.grid(per=T(1, 6)), sample(g, g.everylen(), T(5000, 70000)), g.records(T(800, 8000)),
                                          g.everyversion(T(1, 6)), g.sizes(T(60, 600))))
    add('C14', 'n', lambda g, c: chain(g.nonzero(T(4000, 60000)), g.boundary(T(2, 10)), g.plain(T(2500, 30000)), g.rawtypes(1), g.all_methods(),
                                       g.named(T(5000, None)), g.bytewise(), g.echoes(), g.everyversion(T(1, 4)), g.sizes(T(60, 600)), g.late(T(10, 60))))
    add('C15', DECODE, lambda g, c: chain(g.wide(T(1, 3)), g.boundary(T(2, 10)), g.plain(T(800, 8000)), g.families(sorted(g.rng.sample(range(65536), T(300, 8000)) + list(range(300)))),
                                          g.named(T(2500, None)), g.bytewise(), g.echoes(), sample(g, g.everyversion(), T(800, 3000))))
    add('C16', 'e', lambda g, c: chain(g.code_tables(), g.codes(None), g.echoes(T(1200, None)), g.families(sorted(set(g.rng.sample(range(65536), T(300, 8000))) | set(range(0, 768)))),
                                       g.descriptors(), g.sm_types(T(200, 4000)), g.all_methods(), g.cacheconfs()))
    add('C17', 't', lambda g, c: chain(g.code_tables(), g.codes(None), g.access(T(60, 600)), g.all_methods(), g.sm_types(T(300, 6000)),
                                       g.devices(T(300, 5000)), g.elements(T(300, 5000)), g.pitches(), g.revisions(T(300, 5000)), ['VO'],
                                       sample(g, g.wide(), T(800, 4000)), g.plain(T(1200, 15000)), g.records(T(500, 6000)),
                                       g.batteries(T(600, 6000)), g.dates(), sample(g, g.everyversion(), T(600, 3000)), g.named(T(1200, None))))
    add('C18', 'w', lambda g, c: chain(g.bits(T(2, 10)), g.fields(T(200, 3000)), g.customs(T(2500, 40000)), g.plain(T(600, 6000), [0, 9, 13, 15]), g.bitpairs(T(2500, None))))
    add('C19', 'g', lambda g, c: chain(g.bits(T(6, 60)), g.plain(T(1500, 20000), [2, 4, 7, 17]), ['VO', 'BN'], sample(g, g.grid([2, 4, 7, 17]), T(1000, 20000)), g.bitpairs(T(3500, None))))
    add('C20', 'l', lambda g, c: chain(g.records(T(6000, 80000)), sample(g, g.grid([3, 9, 14, 15]), T(1500, 30000)), sample(g, g.everylen([3, 9, 14, 15]), T(1500, 13000)),
                                       g.descriptors(), g.devices(T(200, 3000)), g.elements(T(200, 3000)),
                                       g.sizes(T(60, 600), [3, 9, 14, 15])))
    add('C21', 'd', lambda g, c: chain(g.roms(T(800, 32768)), g.capacities(T(1500, 30000)), g.cachesizes(256), g.cachesizes2(T(600, 10000)), g.cacheconfs(), ['VO'],
                                       g.devices(T(300, 4000)), g.access(T(40, 400)), g.plain(T(2500, 30000), [0, 4, 7, 9, 22]), sample(g, g.wide(), T(800, 4000)),
                                       sample(g, g.bits(), T(600, 6000)), g.batteries(T(800, 8000)), g.extroms(T(500, 6000)),
                                       g.named(T(1500, None)), g.bytewise(T(2000, None)), g.echoes(T(800, None)), sample(g, g.everyversion(), T(600, 3000))))
    add('C22', '', lambda g, c: chain(g.descriptors(), ['ELT', 'DFN', 'VDF'], g.access(T(150, 2000)), g.all_methods(), g.devices(T(3000, 50000))))
    add('C23', 'ne', lambda g, c: chain(g.rawtypes(T(8, 60)), g.wellformed(T(300, 4000)), g.plain(T(600, 6000)), sample(g, g.everyraw(), T(2500, 40000)), g.everyversion(), g.late(T(20, 200))))
    add('C24', '', lambda g, c: chain(g.rawops(T(900, 12000))), chunk=3000)
    add('C25', DECODE, lambda g, c: chain(g.pairs(T(5000, 60000)), g.listpairs(T(2000, 20000)), g.prefixpairs(T(2400, 30000)), g.entrypairs(T(800, 10000)), g.copies(T(1200, 15000)), g.everypair(T(1, 4)), g.allbits(T(4000, None))))
    add('C26', 'c', lambda g, c: chain(walks(g, c, T(1500, 20000)), sample(g, g.refs(), T(3000, 60000)), sample(g, g.grid(), T(2500, 60000)), g.search(T(2000, 20000)),
                                       anchors(g, c, T(800, 8000)), g.malformed(T(800, 10000)), g.big(T(4, 12)), sample(g, g.truncations(4), T(500, 5000)),
                                       g.stringlists(T(200, 2000)), g.manystrings(), g.sizes(T(100, 1000)), g.errors(T(400, 6000)), sample(g, g.everyversion(), T(300, 3000))), walk=2, search=2)
    add('C27', DECODE + 'w', lambda g, c: chain(walks(g, c, T(800, 15000)), sample(g, g.grid(), T(1200, 60000)), g.malformed(T(800, 15000)), g.plain(T(800, 10000)), g.records(T(300, 4000)),
                                       g.dumps(T(40, 1000), c['data']), g.search(T(1200, 15000)), anchors(g, c, T(300, 5000)), sample(g, g.refs(), T(400, 20000)),
                                       g.stringlists(T(150, 2000)), g.manystrings(), g.capacities(60), g.roms(60), g.cachesizes2(60), sample(g, g.cachesizes(256), 60),
                                       g.devices(60), g.elements(60), g.sm_types(60), g.access(10), sample(g, g.customs(200), 200), sample(g, g.bits(), T(200, 3000)),
                                       sample(g, g.wide(), T(300, 4000)), g.named(T(600, None)), g.bytewise(T(600, 20000), None), g.sizes(T(60, 600)), g.late(T(8, 60)),
                                       sample(g, g.everyversion(), T(300, 3000)),
                                       g.big(1), g.terminators(T(10, None)), sample(g, g.versions_ep(), T(80, 600))),
        walk=2, search=2, builds=True)
    add('C28', '', lambda g, c: chain(g.programs(T(4000, 50000)), g.viewprograms(T(600, 8000))))
    return P[prop]


# (module, quick bounds, thorough bounds)
def M(name, a, b):
    return ('MC_' + name, {'MAXLEN': str(a)}, {'MAXLEN': str(b)})


WALK, SEARCH, STRINGS, LAYOUT, RECORDS = M('Walk', 5, 7), M('Search', 6, 8), M('Strings', 3, 5), M('Layout', 96, 255), M('Records', 40, 120)
FLAGS, CODES, BYTES, ACCESS, COPY = M('Flags', 4, 7), M('Codes', 300, 2000), M('Bytes', 97, 1), M('Access', 24, 255), M('Copy', 6, 8)
SPARSE = M('Sparse', 5, 6)
VAST = M('SparseSearch', 6, 8)
SEQUENCE = M('Sequence', 7, 20)
MODELS = {'C01': [WALK, SEARCH, SPARSE, VAST], 'C02': [WALK, SEARCH], 'C03': [SEARCH, VAST], 'C04': [SEARCH, VAST], 'C05': [SEARCH, VAST],
          'C06': [WALK, SPARSE], 'C07': [WALK, SPARSE], 'C08': [WALK, SPARSE], 'C09': [WALK], 'C10': [STRINGS], 'C11': [STRINGS],
          'C12': [LAYOUT], 'C13': [LAYOUT], 'C14': [LAYOUT, BYTES], 'C15': [LAYOUT], 'C16': [CODES], 'C17': [CODES, BYTES], 'C18': [FLAGS],
          'C19': [BYTES], 'C20': [RECORDS], 'C21': [BYTES], 'C22': [CODES], 'C23': [WALK, CODES], 'C24': [ACCESS, STRINGS],
          'C25': [COPY], 'C26': [SEARCH, BYTES], 'C27': [WALK, SEARCH, BYTES], 'C28': [SEQUENCE, WALK]}
