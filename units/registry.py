from runner import Unit
UNITS = []
TRUSTED_COMMON = [
    'CBMC 6.11 (goto-cc front end, goto-instrument --dfcc contract instrumentation, propositional back end CaDiCaL)',
    'the C library models of CBMC (memcpy, malloc, calloc, abs, memset); malloc assumed to succeed',
    'machine arithmetic is modelled bit-precisely (two\'s complement, LP64, little endian); signed-overflow itself is not an obligation',
]
TRUSTED = {}
LEVEL = {'C07': 'other', 'C16': 'other'}   # the deciding functions are bounded stand-ins; every other property: proof
NL = ['nextSelection.0:5', 'nextAggregate.3:5']
Q = ['query', 'schema', 'embedDB', 'spline']


def add(*a, **k):
    UNITS.append(Unit(*a, **k))


for w, tier in ((16, 'quick'), (127, 'thorough')):
    add('cmp_unsigned_%d' % w, 'q_cmp.c', 'compareUnsignedNumbers', Q, ['C13'], unwind=w + 2, defs=['F_CMPU', 'W=%d' % w], cfg='values of 1..%d bytes' % w, tier=tier, timeout=700)
    add('cmp_signed_%d' % w, 'q_cmp.c', 'compareSignedNumbers', Q, ['C13'], unwind=w + 2, defs=['F_CMPS', 'W=%d' % w], cfg='values of 1..%d bytes' % w, tier=tier, timeout=700)
add('compare_8', 'q_cmp.c', 'compare', Q, ['C13'], unwind=10, defs=['W=8'], cfg='values of 1..8 bytes, all operator codes')
add('compare_32', 'q_cmp.c', 'compare', Q, ['C13'], unwind=34, defs=['W=32'], cfg='values of 1..32 bytes, all operator codes', tier='thorough', timeout=700)
for i, (sch, col) in enumerate((('-4,8,3', 0), ('4,-2,1', 1), ('1,-8', 1), ('8,4,-4', 2), ('5', 0))):
    add('nextSelection_%d' % i, 'q_select.c', 'nextSelection', Q, ['C13'], unwind=34, defs=['SCH=' + sch, 'COL=%d' % col, 'LC_nextSelection'],
        loops=True, nlset=NL, cfg='columns {%s}, predicate on column %d, any number of input records' % (sch, col))
add('nextAggregate', 'q_agg.c', 'nextAggregate', Q, ['C15'], unwind=12, defs=['LC_nextAggregate'], loops=True, nlset=NL,
    cfg='8-byte records, two aggregate functions, any number of input records, any group relation on a masked key byte')

SA, SB = '1,-2,3,-4,5,-6,7,-8', '-1,2,-3,4,-5,6,-7,8'
for k, sch in (('a', SA), ('b', SB)):
    for f, d in (('sumAdd', 'F_SUM'), ('minAdd', 'F_MM'), ('maxAdd', 'F_MM'), ('minReset', 'F_MM'), ('maxReset', 'F_MM'), ('avgAdd', 'F_AVG'), ('avgReset', 'F_AVG')):
        add('%s_%s' % (f, k), 'q_fn.c', f, Q, ['C15'], unwind=40, defs=['O_' + f, d, 'SCH=' + sch], cfg='columns {%s}, any column' % sch)
for f, d in (('sumReset', 'F_SUM'), ('countReset', 'F_CNT'), ('countAdd', 'F_CNT')):
    add(f, 'q_fn.c', f, Q, ['C15'], unwind=20, defs=['O_' + f, d, 'SCH=4,-8'], cfg='all values')
for f, d, o in (('sumCompute', 'F_SUM', '4,-8,2'), ('countCompute', 'F_CNT', '-8,4,2'), ('minMaxCompute', 'F_MM', '4,-5,2'), ('avgCompute', 'F_AVG', '4,8,2'), ('avgCompute', 'F_AVG', '8,4,2')):
    add('%s_%s' % (f, o.split(',')[1].strip('-')), 'q_fn.c', f, Q, ['C15'], unwind=20, defs=['O_' + f, d, 'SCH=4,-8', 'OSCH=' + o, 'OCOL=1'], cfg='output columns {%s}' % o, solver='cvc5' if f == 'avgCompute' else None)

for kw, k, tier in ((4, 3, 'quick'), (8, 2, 'quick'), (8, 4, 'thorough'), (2, 5, 'thorough')):
    add('nextKeyJoin_%d_%d' % (kw, k), 'q_join.c', 'nextKeyJoin', Q, ['C16'], unwind=14, defs=['KW=%d' % kw, 'K=%d' % k], tier=tier, timeout=800, cfg='%d-byte keys, from any mid-join state' % kw,
        bounded='at most K=%d rows are read from each input per call (every loop iteration starts from an arbitrary mid-join state)' % k)
add('nextKeyJoin_wide', 'q_join.c', 'nextKeyJoin', Q, ['C16'], unwind=14, defs=['KW=4', 'K=1', 'WIDE', 'RBMAX=400'], timeout=800, cfg='4-byte keys, 306-byte left records, from any mid-join state', bounded='at most K=1 rows are read from each input per call')
add('nextProjection_wide', 'q_proj.c', 'nextProjection', Q, ['C14'], unwind=410, defs=['SCH=4,100,-100,100,7', 'NP=4', 'COLS=1,2,3,4', 'O_next', 'MAXC=100', 'RBMAX=400'], timeout=800, cfg='311-byte records')
add('nextSelection_wide', 'q_select.c', 'nextSelection', Q, ['C13'], unwind=34, defs=['SCH=4,100,-100,100,-4', 'COL=4', 'LC_nextSelection', 'RBMAX=400'], timeout=800, loops=True, nlset=NL, cfg='308-byte records, predicate on a column at offset 304, any number of input records')
add('initAggregate_wide', 'q_init.c', 'initAggregate', Q, ['C14', 'C15'], unwind=14, defs=['O_agg', 'SCH=100,-100,100'])
for i, sch in enumerate(('4,-2,1,8', '8,-8,5')):
    for f, d in (('nextProjection', 'O_next'), ('initProjection', 'O_init')):
        for np, cols, tier in ((1, '', 'quick'), (2, '1,2', 'quick'), (2, '0,1', 'quick'), (3, '0,1,2', 'quick'), (2, '0,2', 'thorough'), (3, '', 'thorough'), (2, '', 'thorough')):
            add('%s_%d_%d_%s' % (f, i, np, cols.replace(',', '') or 'any'), 'q_proj.c', f, Q, ['C14'], unwind=70, tier=tier, timeout=800, defs=['SCH=' + sch, 'NP=%d' % np, d] + (['COLS=' + cols] if cols else []),
                cfg='input columns {%s}, %s' % (sch, 'columns ' + cols if cols else 'any choice of %d columns' % np))
for f, d in (('getColOffsetFromSchema', 'O_off'), ('getRecordSizeFromSchema', 'O_size'), ('copySchema', 'O_copy'), ('embedDBCreateSchema', 'O_create'), ('createBufferFromSchema', 'O_buf')):
    add(f, 'q_schema.c', f, ['schema'], ['C14'], unwind=50, defs=[d], cfg='up to 6 columns of any size')

add('nextTableScan', 'q_scan.c', 'nextTableScan', ['query', 'schema'], ['C14'], unwind=14, defs=['O_next'], cfg='4-byte keys, 7-byte data', dist=False)
add('initTableScan', 'q_scan.c', 'initTableScan', ['query', 'schema'], ['C14'], unwind=14, defs=['O_init'], cfg='schemas of up to 3 columns', dist=False)
add('initAggregate', 'q_init.c', 'initAggregate', Q, ['C14', 'C15'], unwind=14, defs=['O_agg', 'SCH=4,-8,3'])
add('initSelection', 'q_init.c', 'initSelection', Q, ['C13', 'C14'], unwind=14, defs=['O_sel', 'SCH=4,-8,3'])
for i, (a, b) in enumerate((('4,-8,3', '4,2'), ('4,1', '8,1'), ('-4,1', '-4,1'))):
    add('initKeyJoin_%d' % i, 'q_init.c', 'initKeyJoin', Q, ['C14', 'C16'], unwind=14, defs=['O_join', 'SCH=' + a, 'SCH2=' + b], cfg='schemas {%s} and {%s}' % (a, b))
for f, d, p in (('createSumAggregate', 'O_sum', 'C15'), ('createCountAggregate', 'O_count', 'C15'), ('createMinAggregate', 'O_min', 'C15'), ('createMaxAggregate', 'O_max', 'C15'), ('createAvgAggregate', 'O_avg', 'C15'),
                ('createAggregateOperator', 'O_agg', 'C15'), ('createKeyJoinOperator', 'O_join', 'C16'), ('createProjectionOperator', 'O_proj', 'C14'), ('createSelectionOperator', 'O_sel', 'C13'), ('createTableScanOperator', 'O_scan', 'C14')):
    add(f, 'q_create.c', f, Q, [p], unwind=12, defs=[d], cfg='all arguments')
for f, d in (('int32Comparator', []), ('int64Comparator', ['INT64V'])):
    for off in (0, 1):
        add('%s_%d' % (f, off), 'u_util.c', f, ['util'], ['C20'], unwind=10, defs=['O_cmp', 'FN=' + f, 'OFFS=%d' % off] + d, cfg='all pairs of values, %s operands' % ('unaligned' if off else 'aligned'))
for w, bw, d in ((8, 1, ['INT16V']), (16, 2, []), (64, 8, [])):
    up, rg, inn = ('updateBitmapInt%d' % w, 'buildBitmapInt%dFromRange' % w, 'inBitmapInt%d' % w)
    for f, o in ((up, 'O_update'), (rg, 'O_range'), (inn, 'O_in')):
        add(f, 'u_util.c', f, ['util'], ['C04'], unwind=66, defs=[o, 'FN=' + f, 'UPD=' + up, 'BW=%d' % bw] + d, cfg='all %s-bit values' % ('16' if w == 8 else '32'))
C = ['embedDB', 'spline']
EST = ['embedDBEstimateKeyLocation']
VL = ['VNB=2', 'VPS=24', 'VHD=6', 'VRS=6', 'VNP=8']
def lookup(prop, file, n, defs, **k):
    add('searchNode' + n, file, 'embedDBSearchNode', C, [prop], unwind=12, defs=['O_node', 'MR=9'] + defs, replace=EST, **k)
    add('searchBuffer' + n, file, 'searchBuffer', C, [prop], unwind=12, defs=['O_buf'] + defs, replace=['embedDBSearchNode'], **k)
    add('binarySearch' + n, file, 'binarySearch', C, [prop], unwind=30, defs=['O_bin', 'LC_binarySearch'] + VL + defs, loops=True, nlset=['binarySearch.0:5'], **k)
    add('splineSearch' + n, file, 'splineSearch', C, [prop], unwind=10, defs=['O_spl', 'PAR=0'] + defs, replace=['splineFind', 'linearSearch'], wrap=['splineFind'], **k)
    add('linearSearch' + n, file, 'linearSearch', C, [prop], unwind=30, defs=['O_lin', 'LC_linearSearch', 'PAR=0'] + VL + defs, loops=True, nlset=['linearSearch.0:5'], **k)
    add('get_bs' + n, file, 'embedDBGet', C, [prop], unwind=10, defs=['O_get'] + defs, replace=['embedDBSearchNode', 'searchBuffer', 'binarySearch'], **k)
    add('get_sp' + n, file, 'embedDBGet', C, [prop], unwind=10, defs=['O_get', 'PAR=0'] + defs, replace=['embedDBSearchNode', 'searchBuffer', 'splineSearch'], **k)
lookup('C01', 'c_get.c', '', [], cfg='8 data pages, any key and page contents', timeout=600)
UME = ['updateMaxiumError']
IB = ['initBufferPage.0:80']
add('put_plain', 'c_put.c', 'embedDBPut', C, ['C02', 'C05', 'C22'], unwind=12, replace=UME, unwindset=IB, timeout=600, cfg='8 data pages')
add('put_sum', 'c_put.c', 'embedDBPut', C, ['C11', 'C02'], unwind=12, replace=UME, unwindset=IB, defs=['PAR=(EMBEDDB_USE_BINARY_SEARCH|EMBEDDB_USE_MAX_MIN|EMBEDDB_USE_BMAP)'], timeout=600, cfg='8 data pages')
add('put_idx', 'c_put.c', 'embedDBPut', C, ['C04', 'C05', 'C22', 'C11'], unwind=12, replace=UME, unwindset=IB, defs=['PAR=(EMBEDDB_USE_BINARY_SEARCH|EMBEDDB_USE_INDEX|EMBEDDB_USE_BMAP)'], timeout=600, cfg='8 data pages, 4 index pages')
add('put_fault', 'c_put.c', 'embedDBPut', C, ['C17'], unwind=12, replace=UME, unwindset=IB, defs=['FAULTS'], timeout=600, cfg='8 data pages; any one storage operation fails')
XP = 'PAR=(EMBEDDB_USE_BINARY_SEARCH|EMBEDDB_USE_INDEX|EMBEDDB_USE_BMAP)'
SP_ = 'PAR=(EMBEDDB_USE_BINARY_SEARCH|EMBEDDB_USE_MAX_MIN|EMBEDDB_USE_BMAP)'
add('flush_plain', 'c_put.c', 'embedDBFlush', C, ['C12', 'C05', 'C22'], unwind=12, unwindset=IB, defs=['O_flush'], timeout=600, cfg='8 data pages')
add('flush_idx', 'c_put.c', 'embedDBFlush', C, ['C12', 'C04', 'C11'], unwind=12, unwindset=IB, defs=['O_flush', XP], timeout=600, cfg='8 data pages, 4 index pages')
add('flush_fault', 'c_put.c', 'embedDBFlush', C, ['C17'], unwind=12, unwindset=IB, defs=['O_flush', 'FAULTS'], timeout=600, cfg='8 data pages; any one storage operation fails')
add('flush_idx_fault', 'c_put.c', 'embedDBFlush', C, ['C17'], unwind=12, unwindset=IB, defs=['O_flush', 'FAULTS', XP], timeout=600, cfg='8 data pages, 4 index pages; any one storage operation fails')
add('put_idx_fault', 'c_put.c', 'embedDBPut', C, ['C17'], unwind=12, unwindset=IB, replace=UME, defs=['FAULTS', XP], timeout=600, cfg='8 data pages, 4 index pages; any one storage operation fails')
RL = 'PAR=(EMBEDDB_USE_BINARY_SEARCH|EMBEDDB_RECORD_LEVEL_CONSISTENCY)'
add('put_rlc', 'c_put.c', 'embedDBPut', C, ['C10', 'C05', 'C22', 'C02'], unwind=12, unwindset=IB, replace=UME, defs=[RL], timeout=600, cfg='8 data pages, blocks of 2')
add('put_rlc_fault', 'c_put.c', 'embedDBPut', C, ['C10', 'C17'], unwind=12, unwindset=IB, replace=UME, defs=[RL, 'FAULTS'], timeout=600, cfg='8 data pages, blocks of 2; any one storage operation fails')
add('flush_rlc', 'c_put.c', 'embedDBFlush', C, ['C10', 'C12'], unwind=12, unwindset=IB, defs=['O_flush', RL], timeout=600, cfg='8 data pages, blocks of 2')
add('put_rlc_4', 'c_put.c', 'embedDBPut', C, ['C10'], unwind=12, unwindset=IB, replace=UME, defs=[RL, 'NP=16', 'ER=4'], timeout=600, cfg='16 data pages, blocks of 4')
add('next_plain', 'c_iter.c', 'embedDBNext', C, ['C03'], unwind=10, unwindset=['__CPROVER_contracts_write_set_check_assigns_clause_inclusion.0:20', 'setup.0:60', 'memcpy.0:130'], defs=['O_next', 'LC_embedDBNext'] + VL, loops=True, nlset=['embedDBNext.1:4'], solver='minisat', timeout=600, cfg='8 data pages')
VLX = ['MR=2', 'VMR=2', 'VNB=4', 'VPS=19', 'VHD=7', 'VRS=6', 'VNP=8', 'VNX=4', 'VMIR=3']
add('next_idx', 'c_iter.c', 'embedDBNext', C, ['C03'], unwind=10, unwindset=['__CPROVER_contracts_write_set_check_assigns_clause_inclusion.0:20', 'setup.0:60', 'memcpy.0:130'], defs=['O_next', 'LC_embedDBNext', XP] + VLX, loops=True, inner=3, nlset=['embedDBNext.1:4'], timeout=600, cfg='8 data pages, 4 index pages')
for n, d in (('bs', []), ('sp', ['PAR=0']), ('bs_bm', ['PAR=(EMBEDDB_USE_BINARY_SEARCH|EMBEDDB_USE_BMAP)']), ('sp_idx', ['PAR=(EMBEDDB_USE_INDEX|EMBEDDB_USE_BMAP)'])):
    add('iterinit_' + n, 'c_iter.c', 'embedDBInitIterator', C, ['C03'] + (['C04'] if 'b' in n[2:] or 'i' in n else []), unwind=12, defs=['O_init'] + d, replace=['splineFind'], wrap=['splineFind'], timeout=300, cfg='8 data pages')
VB_ = ['initBufferPage.0:60', '__CPROVER_contracts_write_set_check_assigns_clause_inclusion.0:20', '__CPROVER_contracts_obj_set_copy.0:30']
add('var_wvp', 'c_var.c', 'writeVariablePage', C, ['C08', 'C07', 'C22'], unwind=12, unwindset=VB_, defs=['O_wvp', 'MR=1', 'FAULTS'], timeout=600, cfg='4 variable-data pages in blocks of 2; any one storage operation fails')
add('var_put', 'c_var.c', 'embedDBPutVar', C, ['C07', 'C08', 'C22'], unwind=10, unwindset=VB_ + ['setup.0:50', 'setup.1:50', 'memcpy.0:120', 'embedDBPutVar.0:5'], defs=['O_put', 'MR=1', 'NLOG=5', 'LMAX=17'], replace=['embedDBPut'], timeout=600, bounded='variable data of at most 17 bytes, spanning up to three 16-byte pages', cfg='4 variable-data pages in blocks of 2')
add('var_flush', 'c_var.c', 'embedDBFlushVar', C, ['C07', 'C08', 'C12', 'C17', 'C22'], unwind=12, unwindset=VB_, defs=['O_flush', 'MR=1', 'FAULTS'], timeout=600, cfg='4 variable-data pages in blocks of 2; any one storage operation fails')
add('var_setup', 'c_var.c', 'embedDBSetupVarDataStream', C, ['C07', 'C08', 'C22'], unwind=20, unwindset=VB_, defs=['O_setup', 'MR=1', 'FAULTS'], timeout=600, cfg='4 variable-data pages in blocks of 2; the read may fail')
add('var_read', 'c_var.c', 'embedDBVarDataStreamRead', C, ['C07', 'C22'], unwind=10, unwindset=VB_ + ['embedDBVarDataStreamRead.0:6'], defs=['O_read', 'MR=1', 'LMAX=24', 'FAULTS'], solver='minisat', timeout=600, bounded='reads of at most 24 bytes, spanning up to four 16-byte pages', cfg='4 variable-data pages in blocks of 2')
add('var_get', 'c_var.c', 'embedDBGetVar', C, ['C07', 'C08'], unwind=12, unwindset=VB_, defs=['O_get'], replace=['searchBuffer', 'embedDBFlushVar', 'embedDBGet', 'embedDBSearchNode', 'embedDBSetupVarDataStream'], timeout=600, cfg='4 variable-data pages in blocks of 2')
add('var_next', 'c_var.c', 'embedDBNextVar', C, ['C07', 'C08'], unwind=12, unwindset=VB_, defs=['O_next'], replace=['embedDBFlushVar', 'embedDBNext', 'embedDBSetupVarDataStream'], timeout=600, cfg='4 variable-data pages in blocks of 2')
VP_ = 'PAR=(EMBEDDB_USE_BINARY_SEARCH|EMBEDDB_USE_VDATA)'
add('put_var', 'c_put.c', 'embedDBPut', C, ['C07', 'C02'], unwind=12, unwindset=IB, replace=UME, defs=[VP_], timeout=600, cfg='8 data pages, 4 variable-data pages')
add('flush_var', 'c_put.c', 'embedDBFlush', C, ['C12', 'C07'], unwind=12, unwindset=IB, replace=['embedDBFlushVar'], defs=['O_flush', VP_], timeout=600, cfg='8 data pages, 4 variable-data pages')
VREC = VB_ + ['setup0.0:10', 'memcpy.0:60']
add('rec_data', 'c_rec.c', 'embedDBInitDataFromFile', C, ['C09', 'C22'], unwind=12, unwindset=VREC, defs=['O_data'], replace=UME, timeout=600, cfg='8 data pages in blocks of 2')
add('rec_idx', 'c_rec.c', 'embedDBInitIndexFromFile', C, ['C09'], unwind=12, unwindset=VREC, defs=['O_idx', XP], timeout=600, cfg='4 index pages in blocks of 2')
add('rec_idx_6', 'c_rec.c', 'embedDBInitIndexFromFile', C, ['C09'], unwind=12, unwindset=VREC, defs=['O_idx', XP, 'NX=8'], timeout=600, cfg='8 index pages in blocks of 2')
add('rec_idx_align', 'c_rec.c', 'embedDBInitIndexFromFile', C, ['C09'], unwind=12, unwindset=VREC, defs=['O_idx', XP, 'ALIGNED'], timeout=600, cfg='4 index pages in blocks of 2')
add('rec_var', 'c_rec.c', 'embedDBInitVarDataFromFile', C, ['C09', 'C08'], unwind=12, unwindset=VREC, defs=['O_var', 'MR=1', VP_], timeout=600, cfg='4 variable-data pages in blocks of 2')
add('rec_var_rlc', 'c_rec.c', 'embedDBInitVarDataFromFile', C, ['C09'], unwind=12, unwindset=VREC, defs=['O_var', 'MR=1', 'PAR=(EMBEDDB_USE_BINARY_SEARCH|EMBEDDB_USE_VDATA|EMBEDDB_RECORD_LEVEL_CONSISTENCY)'], timeout=600, cfg='4 variable-data pages in blocks of 2, record-level consistency')
add('rec_spl', 'c_rec.c', 'embedDBInitSplineFromFile', C, ['C09'], unwind=12, unwindset=VREC, defs=['O_spl', 'PAR=0'], replace=['splineAdd'], wrap=['splineAdd'], timeout=600, cfg='8 data pages in blocks of 2')
add('rec_rlc', 'c_rec.c', 'embedDBInitDataFromFileWithRecordLevelConsistency', C, ['C09', 'C10'], unwind=12, unwindset=VREC, defs=['O_rlc', RL], replace=UME, timeout=600, cfg='8 data pages in blocks of 2, record-level consistency')

# files of many pages (physical page numbers beyond 16 bits)
WG = ['NP=131076', 'ER=4']
WP = ['NP=131072', 'ER=4']
add('put_wide', 'c_put.c', 'embedDBPut', C, ['C02', 'C05', 'C22'], unwind=12, replace=UME, unwindset=IB, defs=WG, timeout=600, cfg='131076 data pages in blocks of 4')
add('put_idx_wide', 'c_put.c', 'embedDBPut', C, ['C04', 'C05'], unwind=12, replace=UME, unwindset=IB, defs=WP + [XP, 'NX=131072'], timeout=600, cfg='131072 data and index pages in blocks of 4')
add('put_rlc_wide', 'c_put.c', 'embedDBPut', C, ['C10'], unwind=12, unwindset=IB, replace=UME, defs=WP + [RL], timeout=600, cfg='131072 data pages in blocks of 4')
add('flush_wide', 'c_put.c', 'embedDBFlush', C, ['C12', 'C05'], unwind=12, unwindset=IB, defs=WG + ['O_flush'], timeout=600, cfg='131076 data pages in blocks of 4')
VLW = [d for d in VL if not d.startswith('VNP')] + ['VNP=131072']
add('binarySearch_wide', 'c_get.c', 'binarySearch', C, ['C01'], unwind=30, defs=['O_bin', 'LC_binarySearch'] + VLW + WP, loops=True, nlset=['binarySearch.0:5'], timeout=600, cfg='131072 data pages')
add('linearSearch_wide', 'c_get.c', 'linearSearch', C, ['C01'], unwind=30, defs=['O_lin', 'LC_linearSearch', 'PAR=0'] + VLW + WP, loops=True, nlset=['linearSearch.0:5'], timeout=600, cfg='131072 data pages')
add('splineSearch_wide', 'c_get.c', 'splineSearch', C, ['C01'], unwind=10, defs=['O_spl', 'PAR=0'] + WP, replace=['splineFind', 'linearSearch'], wrap=['splineFind'], timeout=600, cfg='131072 data pages')
add('next_wide', 'c_iter.c', 'embedDBNext', C, ['C03'], unwind=10, unwindset=['__CPROVER_contracts_write_set_check_assigns_clause_inclusion.0:20', 'setup.0:60', 'memcpy.0:130'], defs=['O_next', 'LC_embedDBNext'] + VLW + WP, loops=True, nlset=['embedDBNext.1:4'], solver='minisat', timeout=600, cfg='131072 data pages')
VW = ['NV=8192', 'NP=131072', 'ER=4', 'MR=1']
add('var_wvp_wide', 'c_var.c', 'writeVariablePage', C, ['C08', 'C07', 'C22'], unwind=12, unwindset=VB_, defs=['O_wvp', 'FAULTS'] + VW, timeout=600, cfg='8192 variable-data pages in blocks of 4')
add('var_flush_wide', 'c_var.c', 'embedDBFlushVar', C, ['C07', 'C12'], unwind=12, unwindset=VB_, defs=['O_flush', 'FAULTS'] + VW, timeout=600, cfg='8192 variable-data pages in blocks of 4')
add('var_setup_wide', 'c_var.c', 'embedDBSetupVarDataStream', C, ['C07', 'C08'], unwind=20, unwindset=VB_, defs=['O_setup', 'FAULTS'] + VW, timeout=600, cfg='8192 variable-data pages in blocks of 4')
add('put_var_wide', 'c_put.c', 'embedDBPut', C, ['C07'], unwind=12, unwindset=IB, replace=UME, defs=[VP_, 'NV=8192', 'NP=131072', 'ER=4'], timeout=600, cfg='131072 data pages, 8192 variable-data pages')
# pages of many records
add('put_big', 'c_big.c', 'embedDBPut', C, ['C02'], unwind=5, defs=['O_put'], replace=['writePage', 'initBufferPage', 'updateMaxiumError'], timeout=600, cfg='pages of 300 records, not full')
add('next_big', 'c_big.c', 'embedDBNext', C, ['C03'], unwind=5, defs=['O_next'], timeout=600, cfg='pages of 300 records, no bounds on the query')
add('maxkey_big', 'c_big.c', 'embedDBGetMaxKey', C, ['C01', 'C02', 'C03'], unwind=5, defs=['O_max'], timeout=600, cfg='pages of 300 records')
XB2 = [XP, 'BMS=2']
add('put_idx_bm2', 'c_put.c', 'embedDBPut', C, ['C04', 'C11'], unwind=12, replace=UME, unwindset=IB, defs=XB2, timeout=600, cfg='8 data pages, 4 index pages, 2-byte bitmaps')
add('flush_idx_bm2', 'c_put.c', 'embedDBFlush', C, ['C04', 'C12'], unwind=12, unwindset=IB, defs=['O_flush'] + XB2, timeout=600, cfg='8 data pages, 4 index pages, 2-byte bitmaps')
