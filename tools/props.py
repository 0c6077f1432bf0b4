HOOKS = ['79b847f', '4daa951']
COMMON = 'Every contract clause, frame, memory-safety and unwinding obligation generated from the current /repo sources is discharged by CBMC; schemas/geometries are fixed per unit (listed in the evidence), contents are fully symbolic. '
GEO = 'Concrete geometry per unit (8, 16 or 131072 data pages in blocks of 2 or 4, 4 index pages, 3 (some units 300) records a page, 4-byte keys, 2-byte data); page ids, window position, keys, data, buffers and the watched page are fully symbolic and constrained only by the representation invariant, which every operation re-establishes, so histories of any length are covered. '

WIN = [('page window', 'logical pages [minDataPageId, nextDataPageId) are retained, page i at physical i mod numDataPages', 'embedDBState'), ('page cache', 'bufferedPageId names the physical page held in the read buffer', 'embedDBState')]
p('C01', 'A lookup finds exactly the stored records',
  'embedDBGet succeeds exactly when the key is stored in a retained page or in the write buffer, and then returns exactly the data inserted with that key, wherever the record lies (page boundaries, first and last record, wrapped files). It changes neither storage nor the write buffer. This holds for the binary search and for the spline-guided search, given bounds that contain the page of the key.',
  ['inputs', 'histories', 'configurations'], 'every key, every page contents in ascending key order, every window position (wrapped or not), every cached page',
  'Tests look up keys of a few regular sequences; which page boundary, record position, wrap position or gap a key falls on is unsampled.',
  [E, SP], [('lookup', 'embedDBGet, searchBuffer, embedDBSearchNode'), ('page search', 'binarySearch, splineSearch, linearSearch, readPage')],
  COMMON + GEO + 'The page searches are proved with loop contracts. Keys are compared as unsigned 32-bit numbers. embedDBEstimateKeyLocation is replaced by a contract that lets it return anything; splineFind by its bound contract, which is assumed.', WIN)
p('C02', 'Inserts accept exactly ascending keys and store records intact',
  'embedDBPut accepts a record exactly when its key is larger than every key stored before; a rejected insert changes nothing. An accepted record is placed after those already buffered with exactly its key and data, previously buffered records are not altered, and a full buffer page is written to storage whole before it is reused, with its records in ascending order.',
  ['inputs', 'histories'], 'every key, data value, buffer fill level and history, including after flushes and reopening',
  'Tests insert regular ascending sequences; duplicates and descending keys are tried at a few buffer states only.',
  [E], [('insert', 'embedDBPut'), ('page write', 'writePage, initBufferPage')],
  COMMON + GEO, WIN)
p('C03', 'Iteration returns every matching record once, in key order',
  'An iterator returns exactly the stored and buffered records that satisfy all of its key and data bounds, each once, in ascending order, with exactly their key and data, and reports the end only when no matching record is left; starting points chosen through the spline and pages skipped through the bitmap index never hide a match. If pages are reclaimed while it is open it continues with the oldest retained record. Iteration changes neither the database nor the query.',
  ['inputs', 'histories', 'configurations'], 'every combination of bounds, every page contents, every iterator position, window position and index contents',
  'Tests iterate over a few regular files with a few bounds; bounds falling on page ends, partial index pages and wrapped windows are unsampled.',
  [E], [('iterator', 'embedDBInitIterator, embedDBNext'), ('page skipping', 'readIndexPage, bitmapOverlap')],
  COMMON + GEO + 'The page loop is proved with a loop contract (any number of pages and skipped pages); an arbitrary record position is watched for omission, an arbitrary page for exactness. The bound contract of splineFind is assumed.', WIN)
p('C04', 'Bitmap summaries and the index never lose a record',
  'Updating a bitmap with a value and then testing it for that value always reports a match; the bitmap built for a range covers every value of the range (including open ends). When an index is kept, every data page written gets exactly one index entry holding its bitmap, entries stay aligned with data page ids across flushes, full index pages are written whole at their place, and index pages are reclaimed oldest first and only when the index file is full.',
  ['inputs', 'histories'], 'every 16-, 32- and 64-bit value and range; every index buffer fill level and history of puts and flushes',
  'Tests use a few values and never a flush in the middle of an index page.',
  [U, E], [('bitmaps', 'updateBitmapInt*/inBitmapInt*/buildBitmapInt*FromRange'), ('index entries', 'embedDBPut, embedDBFlush, writeIndexPage')],
  COMMON + GEO, WIN)
p('C05', 'Retained pages stay intact; reclaiming takes only the oldest block',
  'Page i of the data file is written at physical position i mod the number of pages and carries its id. Space is reclaimed only when the file is full, one erase block at a time, oldest first, and the window of retained pages always matches what is on storage: a retained page is never overwritten or erased, and its content is what was written.',
  ['histories', 'configurations'], 'every window position, wrap count and buffer contents',
  'Wrap-around tests use a few file sizes and run lengths; off-by-one errors at block boundaries depend on position and history.',
  [E], [('page write and reclaim', 'writePage, writeIndexPage, embedDBPut, embedDBFlush')], COMMON + GEO + 'Every page of the file is covered through one arbitrarily chosen watched page.', WIN)
VARST = [('write position', 'currentVarLoc: next byte of variable data, on the page that will be written next', 'embedDBState'), ('oldest data', 'minVarRecordId: first key whose variable data is still stored', 'embedDBState')]
p('C07', 'Variable-length data is read back byte for byte',
  'Variable-length data stored with a record is returned by lookup and iteration with exactly its length and bytes, whatever its length, its position relative to page boundaries, and the sizes of the individual stream reads; records without data have none. Flushing writes all buffered variable data; data of buffered records can be read like that of stored ones.',
  ['inputs', 'histories'], 'every data length and content, write position, page alignment, split into reads, and wrap of the variable-data file',
  'Tests use a few lengths and read each stream in one piece.',
  [E], [('write', 'embedDBPutVar, writeVariablePage, embedDBFlushVar, embedDBPut (pointer)'), ('read', 'embedDBGetVar, embedDBNextVar, embedDBSetupVarDataStream, embedDBVarDataStreamRead')],
  COMMON + 'Writer and reader are proved against the same byte layout from any write position of a 4-page file. BOUNDED: the byte-copy loops of embedDBPutVar and embedDBVarDataStreamRead (at most 17 and 24 bytes per call on 16-byte pages, up to four pages); everything else has no bound. 32-bit wrap of the write position is excluded.', VARST)
p('C08', 'Reclaimed variable data is reported as lost, retained data never',
  'When the variable-data file is full its oldest block is reclaimed; from then on exactly the records whose data lay (or began) in reclaimed pages are reported as having lost their data, their fixed part stays readable, and data of all other records stays readable. Each page with data is labelled with the key of the last record with data on it, and pages without data are not written.',
  ['histories'], 'every write position, record key and length, and wrap position of the variable-data file',
  'Which record straddles the reclaimed block, and flushed or empty pages at its end, depend on the whole history.',
  [E], [('reclaim', 'writeVariablePage'), ('labels', 'embedDBPutVar'), ('report', 'embedDBSetupVarDataStream, embedDBGetVar')],
  COMMON + 'Same units and bounds as C07.', VARST)
p('C09', 'Reopening recovers exactly the stored pages, also after a crash',
  'Opening the engine on the files of an earlier session, stopped at any point between two storage operations, recovers every retained data, index and variable-data page (at most the oldest block of a full file may be given up), only pages that are really on storage, and the position of the next one; nothing is erased that is still needed. With record-level consistency the buffered records are recovered from their newest image. Variable data is considered lost exactly for records up to the last one on the oldest page if older pages were reclaimed. All recovered pages are added to the spline in order.',
  ['histories', 'crash_points', 'configurations'], 'every window position, wrap count and crash point between storage operations; reclaimed pages erased or left as they were; every page content',
  'Recovery tests reopen a few regular files at a few fill levels; a crash between erase and write is never produced.',
  [E], [('recovery', 'embedDBInitDataFromFile, embedDBInitDataFromFileWithRecordLevelConsistency, embedDBInitIndexFromFile, embedDBInitVarDataFromFile, embedDBInitSplineFromFile')],
  COMMON + 'Files of 8 data pages, 4 or 8 index pages and 4 variable-data pages in blocks of 2; page ids, window, contents and the state of reclaimed pages are symbolic; the scan loops are unwound completely for these geometries. Page writes are atomic; erased bytes are 0xFF or 0x01; ids stay below 2^24 so that they do not look like erased bytes.', WIN)
p('C10', 'Record-level consistency makes every accepted record durable at once',
  'With record-level consistency on, a successful insert leaves an image of the write buffer with all buffered records on storage in the two blocks after the one being filled; these temporary pages never overlap a retained page, they are moved and erased one block ahead as data pages fill blocks (also when a flush fills the block and when the file has wrapped), and the newest image is always the last temporary page written.',
  ['histories', 'crash_points'], 'every window position, temporary-page position, buffer fill level; any single storage failure',
  'The crash point and the relative position of data block, temporary blocks and wrap are unsampled.',
  [E], [('temporary pages', 'writeTemporaryPage, shiftRecordLevelConsistencyBlocks, embedDBPut, embedDBFlush')], COMMON + GEO, WIN)
p('C11', 'Page summaries describe exactly the records of the page',
  'The minimum and maximum key and data value and the bitmap kept in a page header are exactly those of the records on that page, from the first record on, and a fresh page starts with an empty summary.',
  ['inputs', 'histories'], 'every record content, fill level and configuration of the header',
  'Tests never read the header fields of pages produced by arbitrary data orders.',
  [E], [('summaries', 'embedDBPut, initBufferPage')], COMMON + GEO, WIN)
p('C12', 'A successful flush puts every buffered record on synced storage',
  'embedDBFlush writes the buffered page (and the pending index entries, including the one of the flushed page) once, whole and under the next id, syncs the files, and leaves an empty buffer ready for the next insert; with nothing buffered it writes no data page. Pages already stored are untouched.',
  ['histories', 'configurations'], 'every buffer fill level, window position and index buffer level',
  'Tests flush at a few points of regular sequences.',
  [E], [('flush', 'embedDBFlush, writePage, writeIndexPage')], COMMON + GEO, WIN)
p('C17', 'Storage failures are reported and lose nothing already stored',
  'If a read, write, erase or flush of a file fails during an insert or a flush, the operation reports it (an insert need not report a failed write of the advisory index), no page id is consumed for a page that was not written, records already buffered or stored remain intact, and the state stays consistent so that the operation can be retried.',
  ['inputs', 'histories', 'fault_sequences'], 'any single failing storage operation of an insert or flush, from any state',
  'No test makes a storage operation fail.',
  [E], [('error paths', 'embedDBPut, embedDBFlush, writePage, writeIndexPage, readPage, shiftRecordLevelConsistencyBlocks')], COMMON + GEO, WIN)
p('C22', 'The page caches never serve stale content',
  'The read buffers hold exactly the current content of the retained page that the cache id names (or are marked empty) after every insert, flush and lookup: a page that is overwritten, erased or reclaimed, or whose read failed, is not served from the cache.',
  ['histories'], 'every cached page and window position, in every insert, flush and lookup',
  'A stale read needs a specific page to be cached while a specific write or reclaim happens.',
  [E], [('caches', 'readPage, readIndexPage, dropBufferedPages, writePage, shiftRecordLevelConsistencyBlocks')], COMMON + GEO, WIN)
p('C13', 'Selection returns exactly the matching records, in order, unmodified',
  'A selection over any input delivers, in input order, a byte-exact copy of every record whose column compares true with the operand under the chosen operator (=, !=, <, <=, >, >=), and no other record. Comparisons use the numeric order of the little-endian integer of the column\'s width and signedness, for every width. The end of the result is reported only when the input is exhausted, and the predicate, operand and schema are left unchanged.',
  ['inputs', 'programs'], 'every record content, column width/signedness, operator and operand, and input sequences of any length',
  'The suite runs a handful of predicates on two data files with 4-byte columns; sign, width and boundary values and input lengths are unbounded.',
  [Q], [('comparison of column bytes', 'compareUnsignedNumbers/compareSignedNumbers/compare'), ('filter loop', 'nextSelection'), ('set-up', 'initSelection, createSelectionOperator')],
  COMMON + 'The filter loop is proved with a loop contract (no bound on input records) for five schemas; comparators for widths 1..16 (127 thorough). The input operator is a ghost stub that may return any record.')
p('C14', 'Projection, schemas and table scans deliver the right columns and rows',
  'A projected record consists of exactly the selected columns of the current input record, in the selected order, with the selected columns\' sizes and signedness in the output schema. Column offsets, record sizes and buffers derived from a schema equal the sums of the absolute column sizes, and malformed schemas are rejected. A table scan delivers each stored key followed by its data, and ends exactly when the underlying iteration ends.',
  ['inputs', 'programs', 'configurations'], 'every schema of up to six columns of any size and sign, every column choice, every record content',
  'Tests project one or two fixed column lists of one fixed schema.',
  [Q, S], [('projection', 'initProjection, nextProjection'), ('schema arithmetic', 'getColOffsetFromSchema, getRecordSizeFromSchema, copySchema, embedDBCreateSchema, createBufferFromSchema'), ('scan', 'initTableScan, nextTableScan')],
  COMMON + 'Projection is proved per listed schema and column count (any column choice in thorough).')
p('C15', 'Aggregation yields correct groups and SUM, COUNT, MIN, MAX, AVG values',
  'Consecutive input records that the group function puts together form one group; every group, including the last, is reported exactly once, and every record contributes to exactly one group. COUNT, SUM, MIN, MAX and AVG of a column are the mathematical values over the group\'s records for every column width and signedness, within the output column\'s width, and written at the output column\'s place and nowhere else.',
  ['inputs', 'programs'], 'every record content, column width 1..8 signed or unsigned, group relation, and group length',
  'Tests aggregate one or two 4-byte columns of fixed files; wide, narrow or negative columns and last/empty group boundaries are unsampled.',
  [Q], [('group loop', 'nextAggregate'), ('aggregate functions', 'sum*/count*/min*/max*/avg* Reset/Add/Compute'), ('set-up', 'initAggregate, create*Aggregate')],
  COMMON + 'The group loop is proved with a loop contract (groups of any length) with ghost aggregate functions; each aggregate step function is proved against exact integer semantics. AVG float division is compared with the float of the exact quotient (cvc5 back end).')
p('C16', 'Sort-merge join returns exactly the matching pairs',
  'Joining two inputs sorted ascending on their key columns returns a record for each pair of records with equal keys (inputs with unique keys), consisting of all columns of the left record followed by all columns of the right one, and returns no other record. The join ends only when one of the inputs is exhausted.',
  ['inputs', 'programs'], 'every pair of sorted key sequences and every record content, from any mid-join state',
  'Tests join one pair of data files; skew, gaps and ends in either input are unsampled.',
  [Q], [('merge loop', 'nextKeyJoin'), ('set-up', 'initKeyJoin, createKeyJoinOperator')],
  COMMON + 'BOUNDED stand-in for the merge loop: at most K rows (2..5) are read from each input per call, starting from an arbitrary mid-join state (the loop is entered by goto, which CBMC loop contracts cannot handle).')
p('C20', 'The supplied key comparators are exactly the signed integer order',
  'The supplied 32-bit and 64-bit comparison functions return a negative, zero or positive result exactly when the first value is less than, equal to or greater than the second, for every pair of values at any alignment.',
  ['inputs'], 'all pairs of 32-bit and 64-bit values', 'Tests only use small positive values, where a difference cannot overflow.',
  [U], [('comparators', 'int32Comparator, int64Comparator')], COMMON + 'All values, aligned and unaligned operands.')
