"""What each property's check explores, replays and judges."""

ITER = {'it_ref', 'it_mut', 'it_own', 'it_drain'}
CLONE = {'clone', 'clone_from', 'pool_clone', 'pool_default'}
IO = {'io_write', 'io_read'}
LIE = {'lie_extend', 'lie_insert', 'lie_from_iter', 'lie_collect'}
TRANSFER = {'drain_from', 'append', 'from_front', 'from_back', 'drain_from_front', 'drain_from_back', 'split_off', 'from_inline', 'from_inline_mut'}


def seqmodel(name, configs):
    """configs: list of (kind, n, m, {op groups})"""
    sets = '<<' + ', '.join('<<"%s", %d, %d, {%s}>>' % (k, n, m, ', '.join('"%s"' % s for s in sorted(g))) for k, n, m, g in configs) + '>>'
    return dict(name=name, module='MCSeq', defs={'ConfigsDef': sets},
                cfg='CONSTANTS Configs <- ConfigsDef\n Emit = TRUE\nSPECIFICATION Spec\nINVARIANT TypeOK\nCHECK_DEADLOCK FALSE\n')


def seq(name, binary, configs, mode, want, walks=60, **kw):
    return dict(name=name, bin=binary, models=[seqmodel(name, configs)], mode=mode, judge='SeqTrace', want=want,
                args=['--walks', str(walks)] + (['--deep'] if kw.pop('deep', False) else []), **kw)


def anysize(module, *steps):
    """proofs for numbers of any size; steps: (init, next, length)"""
    return [dict(name='-'.join([module, i, nx]) if nx != 'Next' else '-'.join([module, i]), module=module, init=i, next=nx, length=k, emit=False) for i, nx, k in steps]


def anylink(kind, deep):
    """those proofs speak of the same moves as the models of small capacities"""
    return [dict(name='anylink', module='AnyLink', defs={'KindsDef': '{"%s"}' % kind}, emit=False,
                 cfg='CONSTANTS Kinds <- KindsDef MaxN = %d MaxSolo = %d\nSPECIFICATION Spec\nINVARIANT Linked\nCHECK_DEADLOCK FALSE\n' % ((4, 9) if deep else (2, 7)))]


ANYRING = [('InitIdle', nx, 1) for nx in ('GoShort', 'GoDrainFront', 'GoDrainBack', 'GoAppend', 'GoFromFront', 'GoFromBack', 'GoSplit')] + [('Init', 'Loop', 1)]


def runs(kind, want, deep, groups='core move clone fewiter'):
    """containers of many thousand elements, contents written as runs"""
    cfg = ', '.join('<<"%s", %d, {%s}>>' % (kind, n, ', '.join('"%s"' % g for g in groups.split())) for n in ((0, 1, 2, 3, 4) if deep else (0, 1, 2, 3)))
    return dict(name=kind + '-runs', bin=kind, mode=kind + '/runs', judge='RunTrace', want=want, args=['--walks', str(600 if deep else 100)],
                models=[dict(name='runs', module='MCRun', defs={'ConfigsDef': '<<' + cfg + '>>'}, emit=False,
                             cfg='CONSTANTS Configs <- ConfigsDef\nSPECIFICATION Spec\nINVARIANT Linked\nCHECK_DEADLOCK FALSE\n')])


def more(suite, models):
    suite['models'] += models
    return suite


def same(kind, ns, groups):
    return [(kind, n, n, set(groups.split())) for n in ns]


def plain(rec):
    return rec['flt'] == 0 and rec['op'] not in LIE



def after(rec):
    return rec['pre'] == [1] and plain(rec)


def c01(deep):
    cfg = same('chunk', [0, 1, 2, 3, 4], 'core move clone fewiter extref') + same('chunk', [8], 'solo fewiter')
    if deep:
        cfg += same('chunk', [5], 'core move clone fewiter')
    want = lambda r, c: plain(r) and r['k'] == 'chunk' and c in ('content', 'refuse', 'guard') and r['op'] not in ITER | CLONE | IO
    return [more(seq('chunk', 'chunk', cfg, 'chunk/graph,chunk/walk,chunk/random', want, 4000 if deep else 150), anysize('AnyChunk', ('Init', 'Next', 1)) + anylink('chunk', deep)), runs('chunk', want, deep)]


def c02(deep):
    cfg = same('ring', [0, 1, 2, 3], 'core move clone fewiter pairs extref') + same('ring', [4], 'core move pairs extref') + same('ring', [8], 'solo pairs')
    if deep:
        cfg += same('ring', [4], 'clone fewiter') + same('ring', [5], 'core move')
    want = lambda r, c: plain(r) and r['k'] == 'ring' and c in ('content', 'refuse', 'guard') and r['op'] not in ITER | CLONE | IO
    return [more(seq('ring', 'ring', cfg, 'ring/graph,ring/walk,ring/random', want, 4000 if deep else 150), anysize('AnyRing', *(ANYRING if deep else ANYRING[-1:])) + anylink('ring', deep)), runs('ring', want, deep)]


def c04(deep):
    cfg = same('inline', [0, 1, 2, 3, 4, 5], 'core move clone fewiter extref') + same('inline', [8, 20], 'solo fewiter')
    want = lambda r, c: plain(r) and r['k'] == 'inline' and c in ('content', 'refuse', 'guard') and r['op'] not in (ITER - {'it_drain'}) | CLONE
    return [seq('inline', 'inline', cfg, 'inline/graph,inline/walk,inline/random', want, 4000 if deep else 200), runs('inline', want, deep)]


def allseq(want, groups, nc, nr, ni, walks, modes='graph walk random', extra=''):
    """the list-like containers together; groups: op groups"""
    def mode(k):
        return ','.join('%s/%s' % (k, m) for m in modes.split())
    x = ' ' + extra if extra else ''
    return [seq('chunk', 'chunk', same('chunk', nc, groups), mode('chunk'), want, walks),
            seq('ring', 'ring', same('ring', nr, groups + x), mode('ring'), want, walks),
            seq('inline', 'inline', same('inline', ni, groups) + [('xfer', n, m, {'xfer'}) for n, m in XFER_CAPS],
                mode('inline') + ',' + mode('xfer'), want, walks)]


XFER_CAPS = [(0, 3), (2, 3), (3, 3), (4, 3), (3, 0), (2, 1), (5, 6)]


def c05(deep):
    want = lambda r, c: plain(r) and c in ('refuse', 'guard')
    return [sparse(want, SPALL, [(1, 'core two'), (2, 'core two'), (3, 'core two'), (4, 'core')] + [(n, 'core') for n in SPARSE_BIG], 1000 if deep else 40)] + allseq(want, 'core move', [0, 1, 2, 3] + ([4] if deep else []), [0, 1, 2, 3] + ([4] if deep else []), [0, 1, 2, 3, 4, 5, 8], 2000 if deep else 60, extra='pairs')


def c06(deep):
    want = lambda r, c: plain(r) and c in ('own', 'guard')
    return [sparse(want, SPALL, [(n, 'core two pool fewiter') for n in [1, 2, 3]] + [(4, 'core fewiter'), (8, 'core fewiter'), (65, 'core fewiter')], 1500 if deep else 50)] + allseq(want, 'core move clone fewiter leak', [0, 1, 2, 3] + ([4] if deep else []), [0, 1, 2, 3] + ([4] if deep else []), [0, 1, 2, 3, 4, 5, 8], 3000 if deep else 80) + [runs(k, want, deep) for k in ('chunk', 'ring', 'inline')]


def unwind(n, care, expect=None):
    """the micro step model; with a precaution left out TLC must find the corruption"""
    return dict(name='unwind' + ('-' + '-'.join(care) if expect else ''), module='Unwind', emit=False, expect=expect,
                defs={'KindsDef': '{"chunk", "ring", "inline"}', 'CareDef': '{%s}' % ', '.join('"%s"' % x for x in care)},
                cfg='CONSTANTS Kinds <- KindsDef Care <- CareDef MaxN = %d\nSPECIFICATION Spec\nINVARIANT PanicSafe\n%sCHECK_DEADLOCK FALSE\n' % (n, '' if expect else 'INVARIANT Refines\n'))


SPCARE = ['cloneorder', 'inserttake', 'clearbit']


def unwind_sparse(n, care, expect=None):
    return dict(name='unwind-sparse' + ('-' + '-'.join(care) if expect else ''), module='UnwindSparse', emit=False, expect=expect,
                defs={'CareDef': '{%s}' % ', '.join('"%s"' % x for x in care)},
                cfg='CONSTANTS Care <- CareDef MaxN = %d\nSPECIFICATION Spec\nINVARIANT PanicSafe\n%sCHECK_DEADLOCK FALSE\n' % (n, '' if expect else 'INVARIANT Refines\n'))


def c07(deep):
    want = lambda r, c: r['flt'] != 0 or after(r)
    ordf = ordcases(want, 'chunk/fault,ring/fault', [('chunk', n, 'FALSE') for n in [1, 3] + [4] * deep] + [('ring', n, 'FALSE') for n in [1, 3] + [4] * deep], [1, 2, 4], 1)
    ordf['models'] += [unwind(6 if deep else 4, ['release', 'hole', 'count'])] + [unwind(3, care, 'PanicSafe') for care in (['hole', 'count'], ['release', 'count'], ['release', 'hole'])]
    ordf['models'] += [unwind_sparse(6 if deep else 4, SPCARE)] + [unwind_sparse(2, [x for x in SPCARE if x != out], 'PanicSafe') for out in SPCARE]
    return [ordf, sparse(want, 'sparse/fault,sparse/faultwalk', [(2, 'core two pool fewiter'), (3, 'core two pool fewiter'), (65, 'core fewiter')], 1500 if deep else 40)] + allseq(want, 'core move clone fewiter', [1, 2, 3], [1, 2] + ([3] if deep else []), [1, 2, 3] + ([4] if deep else []), 1500 if deep else 40, 'fault faultwalk', extra='fewslice')


def c08(deep):
    want = lambda r, c: r['op'] in LIE or after(r)
    return [sparse(want, 'sparse/lie,sparse/liewalk', [(2, 'step'), (3, 'step')], 2000 if deep else 60)] + allseq(want, 'step', [0, 3, 4], [0, 3, 4], [2, 3, 4], 2000 if deep else 60, 'lie liewalk')


def c09(deep):
    want = lambda r, c: plain(r) and r['op'] in ITER | SPITER
    return [more(sparse(want, SPALL, [(n, 'iter step') for n in [1, 2, 3, 4, 8, 64, 65, 129]], 1500 if deep else 50), anysize('AnyIter', ('InitStart', 'Next', 0), ('Init', 'Next', 1)))] + allseq(want, 'iter step', [0, 1, 3] + ([4, 5] if deep else []), [0, 1, 3] + ([4, 5] if deep else []), [0, 1, 2, 3, 5], 3000 if deep else 100) + [runs(k, want, deep, 'iter') for k in ('chunk', 'ring', 'inline')]


SLICE = {'sl_view', 'sl_index', 'sl_get', 'sl_iter', 'sl_owned', 'sm_index', 'sm_get_mut', 'sm_set', 'sm_swap', 'sm_map_pair', 'sm_iter', 'sm_ends', 'sm_split'}


def c10(deep):
    want = lambda r, c: plain(r) and r['op'] in SLICE
    return [more(seq('ring', 'ring', same('ring', [0, 1, 2, 3] + ([4, 5] if deep else [4]), 'slice step'), 'ring/graph,ring/walk,ring/slices', want, 6000 if deep else 300), anysize('AnySlice', ('Init', 'Next', 0))), runs('ring', want, deep, 'slice')]


def c12(deep):
    want = lambda r, c: plain(r) and r['op'] in CLONE
    return [sparse(want, SPALL, [(n, 'core two pool') for n in [1, 2, 3]] + [(65, 'step pool'), (9, 'step pool')], 1500 if deep else 50)] + allseq(want, 'clone core', [0, 1, 2, 3] + ([4] if deep else []), [0, 1, 2, 3] + ([4] if deep else []), [0, 1, 2, 3, 4, 5, 8], 3000 if deep else 100)


def c13(deep):
    want = lambda r, c: plain(r) and r['op'] in IO
    ns = [2, 4, 8] if deep else [2, 4]
    return [seq('chunk', 'chunk', same('chunk', ns, 'io step'), 'chunk/graph/u8,chunk/walk/u8,chunk/iorandom', want, 6000 if deep else 300),
            seq('ring', 'ring', same('ring', ns, 'io step'), 'ring/graph/u8,ring/walk/u8,ring/iorandom', want, 6000 if deep else 300)]


def c15(deep):
    want = lambda r, c: plain(r) and r['op'] in TRANSFER
    suites = allseq(want, 'move', [0, 1, 2, 3, 4] + ([5] if deep else []), [0, 1, 2, 3, 4] + ([5] if deep else []), [0, 1, 2, 3, 4, 5, 8], 4000 if deep else 150, 'graph walk random moves')
    if deep:
        more(suites[0], anysize('AnyChunk', ('Init', 'Next', 1)))
        more(suites[1], anysize('AnyRing', *ANYRING))
    return suites + [runs(k, want, deep, 'move') for k in ('chunk', 'ring')]


SPARSE_POOLS = {1: [0], 2: [0, 1], 3: [0, 1, 2], 4: [0, 1, 2, 3]}
SPARSE_BIG = [7, 8, 9, 16, 17, 32, 33, 63, 64, 65, 128, 129, 256, 1024]


def pool(n):
    """indices around the word boundaries of the bitmap"""
    if n in SPARSE_POOLS:
        return SPARSE_POOLS[n]
    want = [0, n - 1, 63 if n > 64 else 31, n - 2, 32, 64, 127, 128, 255, 1]
    return sorted([i for k, i in enumerate(want) if 0 <= i < n and i not in want[:k]][:4])


def sparse(want, mode, cfgs, walks, name='sparse'):
    """cfgs: list of (n, op groups)"""
    seqs = '<<' + ', '.join('<<%d, <<%s>>, {%s}>>' % (n, ', '.join(map(str, pool(n))), ', '.join('"%s"' % g for g in sorted(g.split()))) for n, g in cfgs) + '>>'
    return dict(name=name, bin='sparse', models=[dict(name=name, module='MCSparse', defs={'ConfigsDef': seqs},
                cfg='CONSTANTS Configs <- ConfigsDef\n Emit = TRUE\nSPECIFICATION Spec\nINVARIANT TypeOK\nCHECK_DEADLOCK FALSE\n')],
                mode=mode, judge='SparseTrace', want=want, args=['--walks', str(walks)])


SPITER = {'sp_ref', 'sp_mut', 'sp_own', 'sp_entries', 'sp_indices', 'sp_opt', 'sp_optmut', 'sp_optdrain'}
SPALL = 'sparse/graph,sparse/walk,sparse/random'


def c03(deep):
    want = lambda r, c: plain(r) and c in ('content', 'refuse', 'guard') and r['op'] not in SPITER | CLONE
    return [sparse(want, SPALL, [(n, 'core two pool fewiter') for n in ([1, 2, 3] + ([4] if deep else []))] + [(4, 'core fewiter')] * (not deep) + [(n, 'core fewiter') for n in SPARSE_BIG], 3000 if deep else 100)]


def cases(name, module, defs, binary, mode, judge, want, walks=1, consts=''):
    """a model that prints test cases; consts: further lines of its configuration"""
    return dict(name=name, bin=binary, models=[dict(name=name, module=module, defs=defs,
                cfg='CONSTANTS %s Emit = TRUE\n%s\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n' % (' '.join('%s <- %s\n' % (k[:-3], k) for k in defs), consts))],
                mode=mode, judge=judge, want=want, args=['--walks', str(walks)])


def ordcases(want, mode, cfgs, values, walks):
    return cases('ord', 'MCOrd', {'ConfigsDef': '<<' + ', '.join('<<"%s", %d, %s>>' % c for c in cfgs) + '>>', 'ValuesDef': '{%s}' % ', '.join(map(str, values))},
                 'ord', mode, 'OrdTrace', want, walks)


def c11(deep):
    want = lambda r, c: True
    n = 3
    defs = {'ConfigsDef': '<<' + ', '.join('<<"%s", %d>>' % (k, n) for k in ['chunk', 'inline', 'ring', 'slice', 'sparse', 'map']) + '>>', 'ValuesDef': '{0, 1, 2}'}
    return [cases('cmp', 'MCCmp', defs, 'cmp', 'cmp', 'CmpTrace', want, 4000 if deep else 120)]


def c14(deep):
    want = lambda r, c: True
    return [dict(name='layout', bin='layout', models=[dict(name='layout', module='MCLayout', defs={'AlignsDef': '{1, 2, 4, 8, 16, 32, 64}'},
                 cfg='CONSTANTS Aligns <- AlignsDef MaxHost = %d MaxElem = %d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n' % ((400, 128) if deep else (160, 70)), emit=False)],
                 mode='', judge='LayoutTrace', want=want, args=[])]


def c16(deep):
    want = lambda r, c: r['flt'] == 0
    cfg = [('chunk', n, 'FALSE') for n in [0, 1, 2, 3, 4] + ([5] if deep else [])] + [('ring', n, 'TRUE') for n in [0, 1, 2, 3] + ([4] if deep else [])] + \
          [('ring', n, 'FALSE') for n in ([5] if deep else [4])]
    return [more(ordcases(want, 'chunk/cases,ring/cases,history', cfg, [1, 2, 4], 3000 if deep else 100), anysize('AnySearch', ('InitStart', 'Next', 0), ('Init', 'Next', 1)))]


def c17(deep):
    want = lambda r, c: True
    return [dict(name='arb', bin='arb', models=[dict(name='arb', module='MCArb', defs={'BytesDef': '{0, 1, 2, 3}', 'CapsDef': '{0, 1, 2, 3, 4}', 'KindsDef': '{"u8", "u16", "unit", "bool", "pick"}'},
                 cfg='CONSTANTS Caps <- CapsDef Bytes <- BytesDef Kinds <- KindsDef MaxLen = %d Emit = TRUE\nSPECIFICATION Spec\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n' % (7 if deep else 5))],
                 mode='', judge='ArbTrace', want=want, args=['--walks', str(5000 if deep else 400)])]


def c18(deep):
    want = lambda r, c: True
    cfg = 'CONSTANT WithHarmful = %s\nSPECIFICATION Spec\nINVARIANT TypeOK Safe\nCHECK_DEADLOCK FALSE\n'
    return [dict(name='thread', bin='thread', mode='thread', judge='ThreadsTrace', want=want, args=['--walks', str(5000 if deep else 300)], models=[
        dict(name='threads', module='MCThreads', defs={}, cfg=cfg % 'FALSE', emit=False),
        dict(name='threads-harmful', module='MCThreads', defs={}, cfg=cfg % 'TRUE', emit=False, expect='Safe')])]


SUITES = {k.upper(): v for k, v in list(globals().items()) if len(k) == 3 and k[0] == 'c' and k[1:].isdigit()}

_T = 'TLA+ specification model checked with TLC; its transitions replayed on, and recorded transitions of, the real code judged by TLC against the specification'
_N = ('TLC exhausts the implementation shaped model (refinement of the abstract specification) within the stated capacities; every transition of it and '
      'random histories at larger capacities are run on the real containers in two build profiles and every distinct observed transition is decided by TLC. '
      'Trusted: TLC, rustc, the ledger of tracked elements; element identities may be renamed (the containers are polymorphic).')
_A = '; the index arithmetic also proved inductively with Apalache for capacities of any size'
TECH = {None: (_T, _N)}
for _p in ('C01', 'C02', 'C09', 'C10', 'C15', 'C16'):
    TECH[_p] = (_T + _A, _N)
TECH['C18'] = ('TLA+ model of two threads and a handle checked with TLC; what the compiler says of the real types, and what two real threads saw, judged by TLC against it',
               'TLC exhausts the histories of two threads with a handle for every combination of Send/Sync; every public type with four classes of elements is judged. '
               'Concurrent reading of the real containers is sampled. Trusted: TLC, rustc.')
