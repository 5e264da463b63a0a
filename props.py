"""Which harness runs, over which bounds, decide each property."""
def r(entry, covers=(), **kw):
    about = kw.pop('about', ''); time = kw.pop('time', None)
    d = {'entry': entry, 'params': kw, 'covers': list(covers), 'about': about}
    if time: d['time'] = time
    return d
def cf(ch, bf, ln, **kw):
    return dict(chunk_lo=ch[0], chunk_hi=ch[1], bf_lo=bf[0], bf_hi=bf[1], len_lo=ln[0], len_hi=ln[1], **kw)
def tree(entry, covers=(), **kw):
    d = dict(raw=0, segs=0, name=0, ops=2, fixed=0, utf8=0, cids=0, wide=0, limit=0, meta=0, plain=0)
    if entry == 'h_tree_content': d.update(failing=0, borrow=0)
    if entry == 'h_tree_back': d.update(walk=1, plain=1)
    d.update(kw)
    return r(entry, covers, **d)
def walk(covers=(), **kw):
    d = dict(fan=1, depth=1, meta=0, hamt=0, names=1, parts=1, share=0)
    d.update(kw)
    return r('h_walk_tree', covers, **d)
def hamt(covers=(), **kw):
    d = dict(links=2, name=1, needle=1, badcid=0, full=0, other=0, cache=0, blocks=2, last=1)
    d.update(kw)
    return r('h_resolve_hamt', covers, **d)
def rdir(covers=(), **kw):
    d = dict(links=2, name=1, needle=1, badcid=0, types=0)
    d.update(kw)
    return r('h_resolve_dir', covers, **d)
def visit(covers=(), entry='h_visit_validation', **kw): return r(entry, covers, **kw)
def raw(entry, covers, n, wrap, ty): return r(entry, covers, n=n, wrap=wrap, ty=ty)

# "big" runs: that many large shapes (drawn once, from fixed seeds), with symbolic contents
BIGF = cf((1, 40), (2, 9), (0, 400), big=32, dup=1)
BIG1 = cf((1, 1), (2, 2), (0, 80), big=32, dup=1)
WIDEF = cf((1, 2), (255, 300), (300, 600), big=4)
LONG = cf((250, 300), (2, 5), (700, 1500), big=12)
RNG = cf((1, 6), (2, 4), (8, 28), big=12, bits=8)
def bigtree(entry, covers=(), **kw): return tree(entry, covers, **{**dict(ops=60, fixed=1, segs=5, deep=1, pool=30, meta=1, cids=1, big=200), **kw})
def wide(entry, covers=(), **kw): return tree(entry, covers, **{**dict(ops=900, fixed=1, segs=3, deep=2, pool=2000, meta=1, cids=1, big=4), **kw})
def deep(entry, covers=(), **kw): return tree(entry, covers, **{**dict(ops=20, fixed=1, segs=3, deep=40, pool=10, meta=1, cids=1, big=16), **kw})
def bigwalk(covers=(), **kw): return walk(covers, **{**dict(fan=6, depth=5, meta=1, parts=4, share=1, dup=1, big=200), **kw})
def widewalk(**kw): return walk((), **{**dict(fan=2, depth=1, meta=1, parts=2, share=1, dup=1, big=3, wide=300), **kw})
def only(run):
    """only panics (and texts, with `show`) count here: what is computed is another property's business"""
    run['params']['only'] = 1
    return run

PROPS = {
 'C01': {'quick': [r('h_file_roundtrip', (1, 2, 3), **cf((1, 4), (2, 4), (0, 16), steps=5)),
                   r("h_file_roundtrip", (2,), **cf((126, 129), (2, 2), (250, 260), steps=1)),
                   r('h_file_roundtrip', (3,), **cf((1, 1), (174, 174), (174, 177), steps=2)),
                   r('h_file_roundtrip', (1, 2), **cf((0, 3), (0, 2), (0, 6), steps=2)),
                   r('h_file_roundtrip', (1,), **cf((1, 2), (2, 3), (0, 5), steps=3), huge=1), r('h_file_roundtrip', (1, 2), **cf((1, 2), (2, 3), (0, 5), steps=3), huge=2),
                   r('h_file_defaults', (1,), len=262149)]
                   + [r('h_file_roundtrip', (2, 3), **BIGF, steps=50), r('h_file_roundtrip', (3,), **BIG1, steps=1), r('h_file_roundtrip', (3,), **WIDEF, steps=50), r('h_file_roundtrip', (1, 2, 3), **cf((1, 4), (2, 4), (0, 10), steps=3), dup=1, cache=1)],
         'thorough': [r('h_file_roundtrip', (1, 2, 3), **cf((1, 6), (2, 6), (0, 40), steps=7)),
                      r('h_file_roundtrip', (2,), **cf((126, 130), (2, 4), (500, 525), steps=3)),
                      r('h_file_defaults', (1,), len=524290)]},
 'C02': {'quick': [r('h_file_segmentation', (1, 2), **cf((1, 4), (2, 3), (0, 7), piece=5))]
                   + [r('h_file_segmentation', (1, 2), **{**BIGF, 'big': 80}, piece=60), r('h_file_segmentation', (1, 2), **{**LONG, 'big': 48}, piece=900), r('h_file_segmentation', (), **cf((60000, 70000), (2, 3), (200000, 300000), big=3), piece=150000), r('h_file_segmentation', (1,), **BIG1, piece=7), r('h_file_segmentation', (1, 2), **cf((1, 4), (2, 3), (0, 6), piece=3), dup=1), r('h_file_segmentation', (), **cf((1, 2), (2, 3), (0, 5), piece=3), huge=1), r('h_file_segmentation', (1,), **cf((1, 2), (2, 3), (0, 5), piece=3), huge=2)],
         'thorough': [r('h_file_segmentation', (1, 2), **cf((1, 5), (2, 3), (0, 11), piece=6))]},
 'C03': {'quick': [r('h_file_blocks', (1, 2), **cf((1, 4), (2, 4), (0, 16)))]
                   + [r('h_file_blocks', (2,), **BIGF), r('h_file_blocks', (2,), **{**WIDEF, 'big': 2}), r('h_file_blocks', (1, 2), **cf((1, 4), (2, 4), (0, 10)), dup=1), r('h_file_blocks', (1, 2), **cf((1, 2), (2, 3), (0, 5)), huge=2), r('h_file_blocks', (2,), **cf((16000, 17000), (2, 3), (30000, 60000), big=2))],
         'thorough': [r('h_file_blocks', (1, 2), **cf((1, 6), (2, 5), (0, 28)))]},
 'C04': {'quick': [r('h_file_layout', (1, 2), **cf((1, 4), (2, 4), (0, 16))),
                   r('h_file_layout', (2,), **cf((1, 1), (173, 174), (173, 176))),
                   r('h_file_defaults', (1,), len=262145)]
                   + [r('h_file_layout', (2,), **BIGF), r('h_file_layout', (2,), **WIDEF), r('h_file_layout', (2,), **BIG1), r('h_file_layout', (1, 2), **cf((1, 4), (2, 4), (0, 10)), dup=1), r('h_file_layout', (1, 2), **cf((1, 2), (2, 3), (0, 5)), huge=2)],
         'thorough': [r('h_file_layout', (1, 2), **cf((1, 6), (2, 6), (0, 40))),
                      r('h_file_defaults', (1,), len=524289)]},
 'C05': {'quick': [r('h_file_range', (1, 2, 3), **cf((1, 3), (2, 3), (0, 7)))]
                   + [r('h_file_range', (1, 2, 3), **RNG, dup=1), r('h_file_range', (3,), **LONG, near=3), r('h_file_range', (), **cf((66000, 66001), (2, 2), (190000, 200000), big=2), near=2)],
         'thorough': [r('h_file_range', (1, 2, 3), **cf((1, 4), (2, 4), (0, 12)))]},
 'C06': {'quick': [r('h_file_range_fetch', (1, 2, 3), **cf((1, 3), (2, 3), (0, 7)))]
                   + [r('h_file_range_fetch', (1, 2, 3), **RNG), r('h_file_range_fetch', (4,), **cf((1, 2), (2, 2), (0, 8)), dup=1), r('h_file_range_fetch', (4,), **cf((1, 6), (2, 4), (8, 40), big=12), dup=1, near=2), r('h_file_range_fetch', (2,), **LONG, near=4), r('h_file_range_fetch', (), **cf((2, 3), (255, 300), (600, 1200), big=4), near=4)],
         'thorough': [r('h_file_range_fetch', (1, 2, 3), **cf((1, 4), (2, 4), (0, 12)))]},
 'C07': {'quick': [visit((1, 2, 10, 11, 12, 14, 19, 20, 21, 22, 30, 31, 32, 33, 34, 35, 38, 39, 40, 41, 42), links=2, faults=1, range=0, bits=64),
                   visit((1, 2, 35, 36, 38), links=2, faults=0, range=1, bits=16)]
                   + [visit(links=2, faults=1, range=0, bits=64, blocks=3), visit(links=4, faults=1, range=0, bits=64, blocks=5, big=40)],
         'thorough': [visit(links=3, faults=1, range=0, bits=64, blocks=6, big=250), visit((1, 2, 35, 36, 38), links=2, faults=0, range=1, bits=64),
                      visit((1, 2), links=1, faults=2, range=0, bits=64), visit((1, 2), links=3, faults=0, range=0, bits=64)]},
 'C08': {'quick': [raw('h_raw_entry', (1, 2, 3, 6, 9, 11, 13, 14, 15), 5, 1, 0), raw('h_raw_entry', (2, 3, 5, 7, 11), 5, 0, 0), raw('h_raw_entry', (1, 2, 3, 5), 5, 2, 2)]
                  + [raw('h_raw_entry', (1, 2), 4, 3, t) for t in (0, 1, 2, 4, 5)]
                   + [only(r('h_decode_unixfs', (1, 2), fields=1)), only(r('h_decode_node', (1,), fields=1, sub=1)), only(r('h_decode_unixfs', (1, 2), fields=20, big=64)), only(r('h_decode_node', (1,), fields=20, sub=6, big=64)),
                      only(r('h_visit_hostile', (2, 3), links=1, faults=1, blocks=1, bits=64)), only(r('h_dir_properties', (1,))), only(rdir((1, 3, 4), links=60, badcid=1, types=1, big=100)), only(hamt((1, 2), links=40, badcid=1, full=1, other=1, blocks=2, last=30, big=100))],
         'thorough': [raw('h_raw_entry', (1, 2), 7, 1, 0), raw('h_raw_entry', (2,), 7, 0, 0)] + [raw('h_raw_entry', (1, 2), 6, w, t) for w in (2, 3) for t in range(6)]},
 'C09': {'quick': [r('h_visit_hostile', (1, 2, 3), links=1, faults=1, blocks=2, bits=64), r('h_visit_hostile', (2, 3), links=2, faults=0, blocks=1, bits=64),
                   raw('h_visit_raw', (1, 2, 3, 4), 6, 1, 2), raw('h_visit_raw', (1, 2, 3, 4), 4, 3, 2), raw('h_visit_raw', (1, 4), 6, 0, 0)],
         'thorough': [r('h_visit_hostile', (1, 2, 3), links=2, faults=1, blocks=1, bits=64), r('h_visit_hostile', (2, 3), links=2, faults=0, blocks=2, bits=32),
                      raw('h_visit_raw', (1, 2, 3, 4), 8, 1, 2), raw('h_visit_raw', (1, 4), 8, 0, 0), raw('h_visit_raw', (1, 4), 6, 2, 2), raw('h_visit_raw', (1, 4), 6, 3, 0)]},
 'C10': {'quick': [r('h_walk_hostile', (1, 2, 3, 4, 5, 10, 11), blocks=2, links=1, name=2, badcid=0), r('h_walk_hostile', (1, 2, 3, 4, 5, 10, 11), blocks=1, links=2, name=1, badcid=1),
                   r('h_walk_hostile', (2, 3, 10), blocks=1, links=1, name=4, badcid=0), r('h_walk_hostile', (1, 2, 3, 4, 5, 10, 11), blocks=1, links=1, name=2, badcid=0, roots=3), r('h_walk_hostile', (1, 2, 3, 4, 5, 10, 11), blocks=2, links=1, name=2, badcid=0, roots=1),
                   r('h_walk_hostile', (1, 2, 3, 4, 5, 10, 11), blocks=8, links=12, name=2, badcid=1, big=200), r('h_walk_hostile', (2, 3, 4, 5, 10, 11), blocks=1, links=1, name=2, badcid=0, long=1),
                   raw('h_walk_raw', (2, 4, 5, 10), 5, 1, 2), raw('h_walk_raw', (10,), 5, 0, 0), raw('h_walk_raw', (10,), 4, 2, 1)] + [raw('h_walk_raw', (10,), 3, 3, t) for t in (1, 2, 4, 5)],
         'thorough': [r('h_walk_hostile', (1, 2, 3, 4, 5, 10, 11), blocks=3, links=1, name=2, badcid=0), r('h_walk_hostile', (1, 2, 3, 4, 5, 10, 11), blocks=2, links=2, name=1, badcid=0),
                      raw('h_walk_raw', (2, 4, 5, 10), 7, 1, 2), raw('h_walk_raw', (10,), 7, 0, 0), raw('h_walk_raw', (10,), 6, 2, 1)] + [raw('h_walk_raw', (10,), 5, 3, t) for t in range(6)]},
 'C11': {'quick': [r('h_lookup_hostile', (1, 2, 3, 4), needle=2, links=2, name=3, blocks=1, badcid=0), r('h_lookup_hostile', (1, 2, 3, 4), needle=1, links=1, name=5, blocks=1, badcid=1),
                   r('h_lookup_hostile', (1, 2, 3), blocks=6, links=20, needle=2, name=2, badcid=1, big=100),
                   raw('h_lookup_raw', (4,), 5, 1, 5), raw('h_lookup_raw', (4,), 5, 0, 5), raw('h_lookup_raw', (4,), 4, 2, 5), raw('h_lookup_raw', (3, 4), 4, 3, 5)],
         'thorough': [r('h_lookup_hostile', (1, 2, 3, 4), needle=2, links=2, name=4, blocks=1, badcid=0), r('h_lookup_hostile', (1, 2, 3, 4), needle=2, links=1, name=3, blocks=3, badcid=0), raw('h_lookup_raw', (4,), 7, 1, 5), raw('h_lookup_raw', (4,), 7, 0, 5)]},
 'C12': {'quick': [r('h_codec_unixfs', range(1, 9)), r('h_codec_node', (1, 2, 3, 10, 11, 12))]
                   + [r('h_codec_unixfs', big=64), r('h_codec_node', big=64)]},
 'C13': {'quick': [r('h_decode_unixfs', (1, 2), fields=2)]
                   + [r('h_decode_unixfs', (1, 2), fields=20, big=64)], 'thorough': [r('h_decode_unixfs', (1, 2), fields=3)]},
 'C14': {'quick': [r('h_decode_node', (1, 2, 3), fields=2, sub=1), r('h_decode_node', (1, 2, 3), fields=1, sub=2)]
                   + [r('h_decode_node', (1,), fields=20, sub=6, big=64), r('h_decode_node', (1, 2, 3), fields=1, sub=1, pad=1)], 'thorough': [r('h_decode_node', (1, 2, 3), fields=3, sub=1), r('h_decode_node', (1, 2, 3), fields=2, sub=2)]},
 'C15': {'quick': [rdir((1, 3, 4, 5, 6, 7, 8), badcid=1, types=1), rdir((1, 3, 4, 8), name=2, needle=2), rdir((1, 3, 4, 8), links=3)]
                   + [rdir((1, 3, 4, 7, 8), links=60, badcid=1, types=1, big=250)],
         'thorough': [rdir((1, 3, 4, 5, 6, 8), links=3, badcid=1), rdir((1, 3, 4, 8), links=2, name=3, needle=3), rdir((1, 3, 4, 8), links=4)]},
 'C16': {'quick': [hamt((1, 2, 3, 4, 8, 21, 23), dup=1), hamt((1, 2, 3, 4, 7, 8, 9, 21, 23, 24, 27, 28, 29), blocks=3, other=1), hamt((1, 2, 3, 6, 8), links=1, name=4, needle=2, badcid=1, full=1, blocks=1),
                   hamt((4, 5, 6, 26), badcid=1), hamt((1, 2, 3, 8), links=1, name=3, needle=3, blocks=1), hamt((1, 2, 3, 4, 21, 23, 24), links=3, blocks=2, last=2)]
                   + [hamt((1, 2, 3, 4, 6, 7, 8, 9, 21, 23), links=40, badcid=1, full=1, other=1, cache=1, blocks=8, last=30, big=250)],
         'thorough': [hamt((1, 3, 21, 23), links=2, blocks=4, last=2), hamt((1, 3, 21, 23), links=2, name=2, needle=2, blocks=2, last=2), hamt((1, 2, 3), links=2, name=3, needle=1, full=1, blocks=2, last=1)]},
 'C17': {'quick': [r('h_dir_properties', (1, 10, 11, 12)), r('h_dir_properties_text', (1, 2))]},
 'C18': {'quick': [tree('h_tree_admission', (1, 2, 41, 42, 43, 44, 45, 46, 50, 51, 52), raw=4, meta=1), tree('h_tree_admission', (41, 43, 44, 46), raw=2, ops=3, fixed=1), tree('h_tree_admission', (44, 45, 46), segs=3, name=1, ops=3, fixed=1, meta=1),
                   tree('h_tree_admission', (41, 42, 43), raw=4, ops=1, utf8=1)]
                   + [bigtree('h_tree_admission', (2, 41, 42, 43, 44, 45, 46, 50, 51, 52)), tree('h_tree_admission', (), segs=4, name=1, ops=2, fixed=1), deep('h_tree_admission')],
         'thorough': [tree('h_tree_admission', (41, 42, 43, 44, 45, 46), raw=6, meta=1), tree('h_tree_admission', (41, 43, 44, 45, 46), raw=4, ops=3, fixed=1), tree('h_tree_admission', (44, 45, 46), segs=3, name=1, ops=4, fixed=1)]},
 'C19': {'quick': [tree('h_tree_content', (1, 2, 5, 44, 45, 46, 51), segs=2, name=1, meta=1, failing=1), tree('h_tree_content', (1, 2, 5, 41, 42, 43), raw=3, failing=1), tree('h_tree_content', (1, 2, 5, 44, 45, 46), segs=2, name=1, ops=3, fixed=1, failing=1),
                   tree('h_tree_content', (1, 5, 44, 45, 46), segs=3, name=1, fixed=1, failing=1)]
                   + [bigtree('h_tree_content', (1, 2, 3, 5), failing=1), tree('h_tree_content', (), segs=4, name=1, ops=2, fixed=1, failing=1)],
         'thorough': [tree('h_tree_content', (1, 2, 5, 44, 45, 46), segs=3, name=1, ops=3, fixed=1, failing=1), tree('h_tree_content', (1, 2, 5, 44, 45, 46), segs=2, name=1, ops=3, fixed=1, meta=1, failing=1)]},
 'C20': {'quick': [tree('h_tree_content', (1, 2, 3, 5), segs=3, name=1, ops=3, fixed=1), tree('h_tree_content', (1, 2, 3), segs=2, name=2, fixed=1, cids=1), tree('h_tree_content', (1, 2), segs=2, name=1, wide=4, fixed=1), tree('h_tree_content', (1, 2, 3), segs=2, name=1, ops=4, fixed=1)]
                   + [bigtree('h_tree_content', (1, 2, 3, 5), borrow=1), wide('h_tree_content', ()), deep('h_tree_content'), tree('h_tree_content', (), segs=4, name=1, ops=2, fixed=1)],
         'thorough': [tree('h_tree_content', (1, 2, 3, 5), segs=4, name=1, ops=3, fixed=1), tree('h_tree_content', (1, 2, 3), segs=3, name=2, fixed=1, cids=1), tree('h_tree_content', (1, 2, 3), segs=3, name=1, ops=4, fixed=1)]},
 'C21': {'quick': [tree('h_tree_back', (2, 3), segs=2, name=1, meta=1, fixed=1), tree('h_tree_back', (2, 3), segs=3, name=1, cids=1, fixed=1), tree('h_tree_back', (2, 3), segs=2, name=1, ops=3, fixed=1), tree('h_tree_back', (1, 2, 3), raw=3),
                   tree('h_tree_back', (1, 2, 3), segs=1, name=3, ops=1, utf8=1), tree('h_tree_back', (2, 3), segs=2, name=2, fixed=1)]
                   + [bigtree('h_tree_back', (2, 3)), wide('h_tree_back', ()), deep('h_tree_back'), tree('h_tree_back', (), segs=4, name=1, ops=2, fixed=1)],
         'thorough': [tree('h_tree_back', (2, 3), segs=3, name=1, ops=3, fixed=1), tree('h_tree_back', (2, 3), segs=2, name=1, ops=4, fixed=1), tree('h_tree_back', (2, 3), segs=3, name=2, fixed=1)]},
 'C22': {'quick': [tree('h_tree_content', (1, 2, 3, 4), segs=2, name=1, limit=1, fixed=1, borrow=1), tree('h_tree_content', (1, 2, 4), segs=2, name=2, limit=1, fixed=1, ops=2), tree('h_tree_content', (1, 2, 4), segs=1, name=1, limit=1, meta=1, ops=2), tree('h_tree_content', (1, 2), segs=2, name=1, limit=2, fixed=1)]
                   + [r('h_tree_default_limit', (1, 2), entries=6), bigtree('h_tree_content', (1, 2, 3), limit=1)],
         'thorough': [tree('h_tree_content', (1, 2, 3, 4), segs=3, name=1, limit=1, fixed=1, ops=3)]},
 'C23': {'quick': [r('h_symlink', (1, 2), lens=21)]},
 'C24': {'quick': [walk((3, 4), depth=0, extra=1), walk((1, 3, 4), fan=2, depth=2, share=1), walk((1, 3, 4), fan=2, depth=1, names=9), walk((1, 3, 4), fan=1, depth=4), walk((1, 3, 4), fan=3, depth=1)]
                   + [bigwalk((1, 3, 4), hamt=0), widewalk(), walk((1, 2, 3, 4), fan=1, depth=3, hamt=1, roots=4), walk((1, 3, 4), fan=2, depth=1, roots=1), bigwalk((1, 2, 3, 4), fan=3, depth=30, hamt=1, parts=1, big=100), walk((), fan=2, depth=1, parts=2, share=1, dup=1),
                      walk((), fan=1, depth=300, hamt=1, chain=1, big=3)],
         'thorough': [walk((1, 3, 4), fan=2, depth=2, parts=2), walk((1, 3, 4), fan=1, depth=7), walk((1, 3, 4), fan=4, depth=1)]},
 'C25': {'quick': [walk((1, 2, 3, 4), fan=2, depth=1, hamt=1, share=1), walk((1, 2, 3, 4), fan=1, depth=4, hamt=1), walk((1, 2, 3, 4), fan=1, depth=2, hamt=1, names=9)]
                   + [bigwalk((1, 2, 3, 4), hamt=1, fan=4), bigwalk((1, 2, 3, 4), hamt=1, fan=4, roots=1, big=60), widewalk(hamt=1), bigwalk((1, 2, 3, 4), fan=3, depth=30, hamt=1, parts=1, big=100), walk((), fan=1, depth=300, hamt=1, chain=1, big=3)],
         'thorough': [walk((1, 2, 3, 4), fan=3, depth=1, hamt=1), walk((1, 2, 3, 4), fan=1, depth=6, hamt=1), walk((1, 2, 3, 4), fan=2, depth=1, hamt=1, names=9)]},
 'C26': {'quick': [visit((1, 2, 3, 4), 'h_walk_as_visit', links=2, faults=1, bits=64), walk((3,), fan=0, depth=0, parts=6), walk((3, 1), fan=2, depth=1, parts=3, share=1)]
                   + [visit((1, 2, 3, 4), 'h_walk_as_visit', links=4, faults=1, bits=64, blocks=6, big=40), walk((), fan=0, depth=0, parts=9, big=24), bigwalk((1, 3, 4), hamt=0), walk((), fan=1, depth=0, parts=400, share=1, dup=1, big=3)],
         'thorough': [visit((1, 2, 3, 4), 'h_walk_as_visit', links=1, faults=2, bits=64), visit((1, 2, 3, 4), 'h_walk_as_visit', links=3, faults=1, bits=64)]},
 'C27': {'quick': [walk((1, 2, 3, 4), fan=1, depth=1, meta=1, hamt=1), walk((1, 3, 4), fan=2, depth=1, meta=1), visit((2,), links=1, faults=2, range=0, bits=8), r('h_decode_unixfs', (1,), fields=1)]
                   + [bigwalk((1, 2, 3, 4), hamt=1, fan=4)],
         'thorough': [walk((1, 2, 3, 4), fan=1, depth=2, meta=1, hamt=1), walk((1, 2, 3, 4), fan=1, depth=3, meta=1, hamt=1), r('h_decode_unixfs', (1, 2), fields=2)]},
 'C28': {'quick': [hamt((1, 2, 3, 4, 5, 6, 8, 21, 23, 26, 28), badcid=1, cache=1), walk((1, 3, 4), fan=2, depth=1, parts=2, share=1), walk((1, 3, 4), fan=2, depth=2, parts=1, share=1)]
                   + [r('h_file_roundtrip', (1, 2, 3), **cf((1, 4), (2, 4), (0, 10), steps=3), dup=1, cache=1), walk((), fan=2, depth=1, parts=2, share=1, used=1), walk((1, 2, 3, 5), fan=1, depth=2, hamt=1, parts=2, share=1, fault=1), hamt((1, 2, 3, 4, 6, 7, 8, 9, 21, 23), links=40, badcid=1, full=1, other=1, cache=1, blocks=8, last=30, big=250), bigwalk((1, 2, 3, 4), hamt=1, fan=4, used=1)],
         'thorough': [hamt((1, 3, 21, 23), cache=1, links=2, blocks=3, last=2), walk((1, 2, 3, 4), fan=2, depth=1, hamt=1, parts=2, share=1)]},
 'C29': {'quick': [tree('h_tree_content', (1, 2), segs=1, name=1, ops=1, fixed=1, meta=1, wide=1), tree('h_tree_content', (1, 2), segs=2, name=1, ops=1, fixed=1, meta=1, wide=2), tree('h_tree_content', (1, 2, 3), segs=2, name=1, ops=2, fixed=1, meta=1), tree('h_tree_back', (2, 3), segs=2, name=1, meta=1, fixed=1)]
                   + [bigtree('h_tree_content', (1, 2, 3, 5), borrow=1), bigtree('h_tree_back', (2, 3)), wide('h_tree_content', ()), deep('h_tree_content'), tree('h_tree_content', (), segs=4, name=1, ops=2, fixed=1, meta=1)],
         'thorough': [tree('h_tree_content', (1, 2, 3), segs=2, name=1, ops=3, fixed=1, meta=1), tree('h_tree_content', (1, 2, 3), segs=2, name=1, ops=2, fixed=1, meta=1, wide=2)]},
 'C30': {'quick': [tree('h_tree_content', (1, 2, 3, 4), segs=2, name=1, ops=2, borrow=1, limit=1, fixed=1), tree('h_tree_content', (1, 2, 3), segs=3, name=1, ops=2, borrow=1, fixed=1)]
                   + [bigtree('h_tree_content', (1, 2, 3, 5), borrow=1), tree('h_tree_content', (), segs=4, name=1, ops=2, fixed=1, borrow=1)],
         'thorough': [tree('h_tree_content', (1, 2, 3, 4), segs=3, name=1, ops=3, borrow=1, limit=1, fixed=1)]},
 'C31': {'quick': [r('h_walk_errors', (5, 6, 7, 10, 11, 12, 13, 14), name=2), r('h_walk_errors', (5, 6, 7, 10, 11, 12, 13, 14), name=1, many=300), r('h_walk_errors', (5, 6, 7, 10, 11, 12, 13, 14), name=1, long=1)]
                   + [walk((1, 2, 3, 5), fan=1, depth=2, hamt=1, parts=2, share=1, fault=1)], 'thorough': [r('h_walk_errors', (5, 6, 7, 10, 11, 12, 13, 14), name=3)]},
 'C32': {'quick': [r('h_error_texts', (1, 2, 3, 4, 5, 6, 7, 8, 9), name=1)]
                   + [only(x) for x in [
                      raw('h_raw_entry', (1, 2, 6, 9, 11, 12, 13, 14, 15), 4, 1, 0), raw('h_raw_entry', (2, 7, 11, 13, 15), 3, 0, 0), raw('h_raw_entry', (1, 2, 3, 5, 6, 7, 11, 13, 15), 4, 2, 2), raw('h_raw_entry', (1, 2, 9, 11), 3, 3, 1), raw('h_visit_raw', (2, 3, 4), 4, 1, 2),
                      r('h_walk_hostile', (1, 2, 3, 4, 5, 10, 11), blocks=2, links=1, name=1, badcid=1), r('h_lookup_hostile', (1, 2, 3, 4), needle=1, links=1, name=2, blocks=1, badcid=1),
                      r('h_visit_hostile', (2, 3), links=1, faults=0, blocks=2, bits=8), r('h_walk_errors', (5, 6, 7, 10, 11, 12, 13, 14), name=1), hamt((1, 2, 3, 4, 5, 6, 8), badcid=1),
                      r('h_file_roundtrip', (1, 2, 3), **cf((1, 2), (2, 4), (0, 16), steps=2)), r('h_file_roundtrip', (2, 3), **BIGF, steps=50),
                      tree('h_tree_content', (1, 2, 4), segs=2, name=1, ops=1, fixed=1, borrow=1, limit=1), tree('h_tree_admission', (1, 41, 42, 43, 50, 51), raw=3, ops=1, meta=1), bigtree('h_tree_content', (1, 2, 3, 5), borrow=1, big=60)]],
         'thorough': [r('h_error_texts', (1, 2, 3, 4, 5, 6, 7, 8, 9), name=2)]},
}
for x in PROPS['C32']['quick'] + PROPS['C32']['thorough']: x['params']['show'] = 1
