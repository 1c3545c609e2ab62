"""Per-property configuration of the checks.  gen.py writes properties.jsonl
and MANIFEST.json from this file."""
CORE = ['core.cc', 'simfs.cc']
MKV = ['mkvmuxer/*.cc', 'mkvparser/*.cc', 'common/*.cc']
GROUPS = {
    'wp': {'repo': ['webm_parser/src/*.cc'], 'sim': CORE + ['wdoc.cc', 'wsession.cc', 'scen_wp.cc']},
    'mux': {'repo': MKV, 'sim': CORE + ['ebml.cc', 'mux.cc', 'scen_mux.cc']},
    'parse': {'repo': MKV, 'sim': CORE + ['ebml.cc', 'mux.cc', 'pdoc.cc', 'psession.cc', 'scen_parse.cc', 'scen_seek.cc', 'scen_files.cc']},
    'm2ts': {'repo': MKV + ['m2ts/*.cc'], 'sim': CORE + ['scen_m2ts.cc']},
    'vtt': {'repo': MKV + ['webvtt/*.cc', 'sample_muxer_metadata.cc'], 'sim': CORE + ['ebml.cc', 'mux.cc', 'vttgen.cc', 'scen_vtt.cc']},
    'live': {'repo': MKV + ['webm_parser/src/*.cc'], 'sim': CORE + ['ebml.cc', 'mux.cc', 'tails.cc', 'scen_live.cc']},
    'inst': {'repo': MKV + ['webm_parser/src/*.cc', 'm2ts/*.cc', 'webvtt/*.cc', 'sample_muxer_metadata.cc'],
             'sim': CORE + ['ebml.cc', 'mux.cc', 'tails.cc', 'scen_live.cc', 'wdoc.cc', 'wsession.cc', 'scen_wp.cc', 'scen_mux.cc', 'pdoc.cc', 'psession.cc',
                            'scen_parse.cc', 'scen_seek.cc', 'scen_files.cc', 'scen_m2ts.cc', 'vttgen.cc', 'scen_vtt.cc', 'scen_inst.cc']},
    'tools': {'repo': MKV + ['m2ts/webm2pes.cc', 'm2ts/vpxpes2ts.cc', 'm2ts/vpxpes_parser.cc', 'webvtt/*.cc', 'sample_muxer_metadata.cc'],
              'sim': CORE + ['ebml.cc', 'mux.cc', 'pdoc.cc', 'psession.cc', 'scen_hostile.cc', 'vttgen.cc', 'scen_tools.cc', 'scen_info.cc', 'tool_remux.cc', 'tool_info.cc', 'tool_sample.cc', 'tool_dumpvtt.cc', 'tool_pes.cc', 'tool_vttdemux.cc'],
              'cflags': '-fwrapv -fno-sanitize=signed-integer-overflow'},
    'hostile': {'repo': MKV, 'sim': CORE + ['ebml.cc', 'mux.cc', 'pdoc.cc', 'psession.cc', 'scen_hostile.cc']},
}
COMMON_ASSUMPTIONS = [
    'clang 18 at -O1 with ASan+UBSan, asserts enabled; 64-bit Linux, glibc stdio',
    'seeded search: absence of a violation is evidence over the runs made, not a proof',
]
TECH = 'deterministic simulation with fault injection: '
PROPS = {}


def P(pid, group, quick, thorough, title, statement, over, qtext, why, files, mechanism, rule, nontrivial, real, stub,
      technique, note, **kw):
    PROPS[pid] = dict(group=group, runs=(quick, thorough), title=title, statement=statement, over=over, qtext=qtext,
                      why=why, files=files, mechanism=mechanism, rule=rule, nontrivial=nontrivial, real=real, stub=stub,
                      technique=TECH + technique, note=note, **kw)


# ------------------------------------------------------------- webm_parser
WP_REAL = ['all of webm_parser/src (WebmParser and every element parser)', 'webm_parser/include/webm types']
WP_STUB = ['byte source (simulated Reader: partial reads/skips, would-block, arrival delays)',
           'application callback (records, skips, pauses, partial frame reads)',
           'reference EBML/WebM parser written from the public element tables, used as oracle']
WP_SCHED = ('A document tree is drawn from the seed over all elements of the public DOM (sizes, encodings, unknown sizes, '
            'lacing, void/unknown elements) and serialised; the real parser is fed through a simulated reader whose every '
            'read/skip length, would-block, arrival and callback pause is a scheduler decision. ')
P('C01', 'wp', 30000, 600000,
  'Parsed content is the same for every delivery schedule',
  'Feeding a well-formed WebM document to the incremental parser produces exactly the notifications and values that the '
  'document encodes, in document order and each exactly once, no matter how the bytes are split into reads, how often the '
  'source says it has no data yet, or how often the application pauses a notification. Every feed that does not finish '
  'reports the status that interrupted it, and the feed that reaches the end of the document reports completion with every byte consumed.',
  ['schedules', 'inputs'],
  'all well-formed documents x all splits of the byte stream into reads, skips and would-block points x all callback pauses',
  'Unit tests feed each element parser a handful of fixed byte strings, mostly in one read or strictly byte by byte; they do '
  'not cover combinations of nested elements, pauses inside callbacks and arbitrary read boundaries.',
  ['webm_parser/src/master_parser.cc', 'webm_parser/src/webm_parser.cc', 'webm_parser/src/block_parser.cc',
   'webm_parser/src/master_value_parser.h', 'webm_parser/src/parser_utils.cc', 'webm_parser/src/id_parser.cc',
   'webm_parser/src/size_parser.cc', 'webm_parser/src/int_parser.h', 'webm_parser/src/byte_parser.h',
   'webm_parser/src/float_parser.cc', 'webm_parser/src/recursive_parser.h'],
  [('resumable state machines that accumulate partial progress', 'webm_parser/src/*_parser.*'),
   ('document-level driver', 'webm_parser/src/webm_parser.cc')],
  WP_SCHED, 'at least one partial read, would-block or callback pause was injected and the document produced more than five notifications',
  WP_REAL, WP_STUB,
  'seeded read/pause schedules against a reference parser',
  'Search over seeded documents and schedules; every notification is compared with an independent reference parse as it arrives.')
P('C02', 'wp', 30000, 600000,
  'Notifications are well nested and carry exact positions and sizes',
  'Every element, block and frame notification carries the identifier, header length, payload size and absolute stream position '
  'that the element really has in the stream, and every frame notification covers exactly the bytes of that frame. Begin and end '
  'notifications are properly nested, in stream order and delivered exactly once, under every read and pause schedule and with elements skipped.',
  ['schedules', 'inputs'],
  'all well-formed documents and start positions x all delivery schedules x all skip decisions',
  'Tests check metadata for single hand-written elements at a zero base position; positions after cached headers, unknown sizes, '
  'laced blocks and pauses are not sampled.',
  ['webm_parser/src/master_parser.cc', 'webm_parser/src/webm_parser.cc', 'webm_parser/src/block_parser.cc',
   'webm_parser/src/segment_parser.cc', 'webm_parser/src/cluster_parser.h', 'webm_parser/src/var_int_parser.cc'],
  [('header position capture and cached child metadata', 'webm_parser/src/master_parser.cc'),
   ('frame metadata arithmetic for all lacing modes', 'webm_parser/src/block_parser.cc')],
  WP_SCHED, 'at least one schedule fault was injected and the document produced more than five notifications',
  WP_REAL, WP_STUB,
  'seeded schedules, metadata compared with the generator',
  'Search over seeded documents and schedules; metadata is compared with positions known from serialisation.')
P('C03', 'wp', 40000, 600000,
  'Skipping elements never disturbs the rest of the parse',
  'When the application asks to skip an element, nothing inside it is reported or kept and no completion is reported for it; every other '
  'element of the document is reported exactly as if nothing had been skipped. This holds for any set of skipped elements, for elements of '
  'unknown size, and for any split of the skip itself into partial skips and pauses.',
  ['schedules', 'inputs', 'histories'],
  'all documents x all subsets of skip requests x all delivery schedules',
  'Tests skip a single element in an otherwise trivial document; sets of skips combined with unknown sizes and partial skips are untested.',
  ['webm_parser/src/master_parser.cc', 'webm_parser/src/skip_parser.cc', 'webm_parser/src/skip_callback.h',
   'webm_parser/src/master_value_parser.h', 'webm_parser/src/block_parser.cc'],
  [('action switch in element headers', 'webm_parser/src/master_parser.cc'), ('header-only parsing of unknown-size children', 'webm_parser/src/skip_callback.h')],
  WP_SCHED + 'Each element is skipped with a probability of 1/2 to 1/12.', 'at least one schedule fault was injected and the document produced more than five notifications',
  WP_REAL, WP_STUB, 'seeded skip decisions and partial skips against a reference parser',
  'Search over seeded documents, skip sets and schedules against a reference parser.')
P('C04', 'wp', 45000, 800000,
  'Truncated or malformed streams end in the exact error, and parsing can resume',
  'A stream cut at any byte is reported as ending prematurely exactly when an element is incomplete, and a malformed element is reported '
  'with the error class it deserves, after exactly the notifications that precede the defect; the verdict does not depend on the delivery schedule '
  'and is repeated on every further call. If a stream that ended prematurely later grows, feeding continues from where it stopped and the whole '
  'parse is the same as if the data had always been there.',
  ['crash_points', 'inputs', 'schedules'],
  'all cut points and single malformations of all documents x all delivery schedules x all resumption points',
  'Tests use a few malformed byte strings per element type, never inside a nested document, never with resumption.',
  ['webm_parser/src/master_parser.cc', 'webm_parser/src/webm_parser.cc', 'webm_parser/src/block_parser.cc', 'webm_parser/src/parser_utils.cc',
   'webm_parser/include/webm/status.h'],
  [('size checks against the enclosing element', 'webm_parser/src/master_parser.cc'), ('premature-end detection', 'webm_parser/src/parser_utils.cc')],
  WP_SCHED + 'The stream is then cut at a drawn byte, or one element is malformed (12 kinds), and optionally grows again.',
  'the reference verdict is an error', WP_REAL, WP_STUB, 'seeded stream cuts, malformations and resumption against a reference parser',
  'Search over seeded cuts, malformations and schedules; verdict and notifications compared with a reference parser.')
P('C05', 'wp', 30000, 500000,
  'Parsing after a seek equals parsing that part of the document afresh',
  'After the application seeks its source to the start of any element and tells the parser, the parser reports from there on exactly what the '
  'document contains from that element onwards, with positions that match the stream, whatever was parsed before, however the previous parse was '
  'interrupted, and however many seeks came before. Nothing of the abandoned parse is reported afterwards.',
  ['histories', 'inputs', 'schedules'],
  'all sequences of partial parses and seeks to element starts in all documents x all delivery schedules',
  'Tests perform single seeks in small documents after complete parses; abandoned mid-element states and repeated seeks are not covered.',
  ['webm_parser/src/webm_parser.cc', 'webm_parser/src/ancestory.cc', 'webm_parser/src/ancestory.h', 'webm_parser/src/master_parser.cc'],
  [('state reset after a seek', 'webm_parser/src/webm_parser.cc'), ('ancestry table', 'webm_parser/src/ancestory.cc')],
  WP_SCHED + 'Up to four seeks to element starts (or arbitrary bytes) after parses abandoned at arbitrary bytes.',
  'at least one seek was made', WP_REAL, WP_STUB, 'seeded abandon/seek histories against a reference parser',
  'Search over seeded histories of partial parses and seeks against a reference parser.')
P('C06', 'wp', 300000, 2000000,
  'Byte-source adapters deliver exactly the bytes of their source',
  'The memory, file and stream adapters deliver the bytes of their source in order with no loss, repetition or invention, keep their position equal to the '
  'bytes consumed, report a full result only when everything asked for was delivered, report partial progress as partial, and report the end of data only at the end. '
  'A file or stream that is shorter than the document it should hold is therefore never parsed as complete, also when skipping, on pipes, with short reads, after read or seek errors and after the adapter was moved.',
  ['fault_sequences', 'histories', 'inputs'],
  'all operation sequences x all sources (memory, files, pipes, streams) x all disk faults',
  'Tests use small complete in-memory or temporary files and never short reads, failed seeks or truncated sources.',
  ['webm_parser/src/buffer_reader.cc', 'webm_parser/src/file_reader.cc', 'webm_parser/src/istream_reader.cc'],
  [('reader adapters', 'webm_parser/src/{buffer,file,istream}_reader.cc')],
  'Random operation sequences (read, skip, seek, move) on an adapter over a simulated disk or stream buffer, or a full parse of a drawn (possibly truncated) document through the adapter.',
  'more than four operations completed or the parse produced more than three notifications',
  ['BufferReader, FileReader, IstreamReader', 'webm_parser (parse mode)', 'glibc stdio buffering'],
  ['disk (in-memory files behind FILE* with short reads, read errors, seek errors, pipes)', 'std::streambuf sources'],
  'simulated disk and streams, byte-exact source model', 'Search over seeded operation sequences and disk faults against a byte-exact model.',
  assumptions=['a read error of a FILE is allowed to look like the end of the file (the adapter has no other status for it)'])
P('C14', 'wp', 90000, 1000000,
  'Arbitrary bytes never harm the incremental parser',
  'For any byte string whatsoever, delivered in any way and from any seek position, parsing ends with a definite status without crashing, hanging, reading or writing out of '
  'bounds, or leaking, and everything reported before the verdict is really in the bytes. An allocation failure at any point leaves the parser destructible without leaks.',
  ['inputs', 'schedules', 'fault_sequences'],
  'all byte strings x all delivery schedules x all single allocation failures',
  'Tests contain a few dozen malformed strings; the fuzz targets in the repository are not part of the suite and do not vary delivery.',
  ['webm_parser/src/*.cc', 'webm_parser/src/*.h'],
  [('size validation in every parser', 'webm_parser/src'), ('recursion limit', 'webm_parser/src/recursive_parser.h')],
  'Token soup of real element ids with arbitrary sizes, or drawn documents with 1-30 byte mutations, deletions, insertions and splices, fed under a drawn schedule, optionally from a seek position or with one failing allocation.',
  'the reference verdict is an error or more than three notifications were expected', WP_REAL, WP_STUB,
  'seeded hostile input, schedules and allocation failures under ASan/UBSan against a reference parser',
  'Search over seeded hostile inputs; memory safety by sanitizers, notifications by a reference parser.')

# --------------------------------------------------------------- mkvmuxer
MUX_REAL = ['all of mkvmuxer', 'mkvmuxer::MkvWriter and glibc stdio (chunked mode)', 'mkvparser (read-back)']
MUX_STUB = ['output device (simulated IMkvWriter / simulated disk)', 'application (seeded plan of tracks, metadata and frames)',
            'strict EBML walker written from the format, used as oracle', 'time() and rand() replaced by virtual ones']
MUX_RULE = ('A muxing plan is drawn from the seed: mode (file/live), seekable or not, chunked or not, cues, timecode scale, cluster limits, 1-4 video/audio/text tracks with '
            'full metadata, chapters, tags, and up to 60 frame operations through every frame API; it runs against the real muxer. ')
P('C07', 'mux', 160000, 2000000,
  'Everything handed to the muxer can be read back unchanged',
  'After a recording is finalised without errors, the output contains every frame that was accepted, exactly once, in order per track, with the same bytes, track, key flag, side data, '
  'padding and time (to the precision of the chosen time scale), and all track, segment, chapter and tag settings with the values that were given. Valid input is never refused, and '
  'refused frames leave no trace in the output. The library\'s own file reader reads the same frames back.',
  ['histories', 'configurations', 'inputs'],
  'all valid sequences of frames and settings x all muxer modes (file, live, non-seekable, chunked, accurate durations, cluster limits)',
  'Tests compare about thirty fixed short recordings with stored files; queued audio, time gaps, limits, track layouts and their combinations are not sampled.',
  ['mkvmuxer/mkvmuxer.cc', 'mkvmuxer/mkvmuxerutil.cc', 'mkvmuxer/mkvmuxer.h', 'mkvparser/mkvparser.cc'],
  [('audio queueing and cluster cutting', 'mkvmuxer/mkvmuxer.cc Segment::AddGenericFrame/DoNewClusterProcessing/WriteFramesAll'),
   ('block serialisation', 'mkvmuxer/mkvmuxerutil.cc WriteFrame')],
  MUX_RULE, 'more than one frame was accepted', MUX_REAL, MUX_STUB,
  'seeded muxing histories over a simulated writer, bytes judged by an independent EBML walker and by mkvparser',
  'Search over seeded histories; the output bytes are decoded independently of the library and compared with what was handed in.')
P('C08', 'mux', 220000, 3000000,
  'The muxer\'s output is a valid, consistently indexed WebM file',
  'Every successfully finalised file is well-formed: element sizes are exact, clusters start at the time of their first frame and obey the configured limits, a video key frame starts a cluster, '
  'the seek index and every cue entry point at the element and block they name, and duration, document type and version match the content. The same holds for the copy with the cues moved to the front and for chunked output, whose pieces joined together form the file.',
  ['histories', 'configurations', 'inputs'],
  'all valid sequences of frames and settings x all muxer modes',
  'Tests compare fixed recordings with stored files or only check that a parser accepts them.',
  ['mkvmuxer/mkvmuxer.cc', 'mkvmuxer/mkvmuxerutil.cc'],
  [('size and offset patching at finalisation', 'mkvmuxer/mkvmuxer.cc Segment::Finalize, Cluster::Finalize, SeekHead, Cues'),
   ('cue relocation', 'mkvmuxer/mkvmuxer.cc CopyAndMoveCuesBeforeClusters')],
  MUX_RULE, 'the output has more than one cluster', MUX_REAL, MUX_STUB,
  'seeded muxing histories, whole-file structural judge', 'Search over seeded histories; structural rules evaluated over the decoded bytes.')
P('C09', 'mux', 300000, 3000000,
  'The muxer never hides an output failure',
  'If every call of a recording reports success, the output is complete and correct, even when writes, seeks, file opens or closes, or memory allocations failed or the disk filled up at any point. '
  'When something could not be written some call reports failure, and after any failure the muxer can still be destroyed safely, without crash, leak or open files; without a failure underneath it reports none.',
  ['fault_sequences', 'histories'],
  'all single and sticky failures of any write, seek, open, close, or allocation, and all disk capacities, during any recording in any mode',
  'No test injects an output or allocation failure.',
  ['mkvmuxer/mkvmuxer.cc', 'mkvmuxer/mkvmuxerutil.cc', 'mkvmuxer/mkvwriter.cc'],
  [('status propagation from the writer to every public call', 'mkvmuxer/*.cc')],
  MUX_RULE + 'A fault-free pass counts the I/O operations and allocations; then one of them (or a disk capacity) is made to fail.',
  'a fault was injected', MUX_REAL, MUX_STUB, 'seeded write/seek/open/disk-full/allocation faults, success implies complete output',
  'Search over seeded recordings and fault points; a run that reports success everywhere is judged like a fault-free one.',
  assumptions=['ftell() on an open plain file is assumed not to fail', 'only allocations made with nothrow new are failed; others terminate by design'])
P('C10', 'mux', 160000, 2000000,
  'A recording cut off by a crash keeps every settled frame',
  'If the process dies at any byte written before finalisation, what reached the output up to then is a readable WebM stream holding every frame the muxer no longer held back, with correct content, and no frame that was never handed in. '
  'Only the element being written at the moment of the crash may be incomplete.',
  ['crash_points', 'histories', 'configurations'],
  'all crash points (write-log prefixes, including torn writes) of all recordings before finalisation',
  'No test looks at an unfinalised output.',
  ['mkvmuxer/mkvmuxer.cc', 'mkvmuxer/mkvmuxerutil.cc'],
  [('append-only cluster writing with sizes patched afterwards', 'mkvmuxer/mkvmuxer.cc')],
  MUX_RULE + 'The write log is cut at drawn byte positions and replayed onto an empty device; the survivor is decoded tolerantly.',
  'at least one crash point lies after a settled frame', MUX_REAL, MUX_STUB, 'seeded crash points over the write log, surviving bytes judged',
  'Search over seeded recordings and crash points; writes reach the device in order (no reordering across the writer interface).',
  assumptions=['the device applies writes in order; loss of an arbitrary subset of unsynced writes is not modelled because the writer interface has no sync'])

# --------------------------------------------------------------- mkvparser
PAR_REAL = ['all of mkvparser/mkvparser.cc (EBMLHeader, Segment, SeekHead, Tracks, Cues, Cluster, Block, Chapters, Tags)']
PAR_STUB = ['byte source (simulated IMkvReader: bytes become available over time, length unknown until the stream closes, reads fail)',
            'memory allocator (nothrow allocations of the library fail on demand)',
            'the application reading the file (seeded choice of access style)']
PAR_RULE = ('A Matroska document is drawn from the seed with known content (EBML header, info, video/audio/other tracks with colour, projection, '
            'encodings, chapters, tags, seek head, cues before or after the clusters, void elements, clusters and segment of known or unknown size, '
            'simple blocks and block groups with every lacing) and read by the real parser; every value reported is compared with the generated truth. ')
P('C11', 'parse', 160000, 3000000,
  'A file read while it is still arriving reads like the complete file',
  'Reading a valid file through the pull parser gives exactly its header values, tracks, chapters, tags, seek index, clusters, blocks, frames and cues, whether '
  'the whole file is there from the start or its bytes arrive bit by bit with the total length known or not. A call that lacks data says so, asks only for data the file can have, '
  'and succeeds when repeated after enough of it arrived; once everything is there every call completes. All ways of walking the clusters and blocks agree.',
  ['schedules', 'inputs', 'histories'],
  'all valid files x all arrival schedules x all ways to walk the file',
  'The parser tests read complete small files from disk; the not-enough-data paths are never taken.',
  ['mkvparser/mkvparser.cc', 'mkvparser/mkvparser.h'],
  [('E_BUFFER_NOT_FULL returns that leave the parse state restartable', 'mkvparser/mkvparser.cc')],
  PAR_RULE + 'After each call that lacks data the scheduler decides how many more bytes arrive.',
  'at least four calls had to wait for data and the document has more than two blocks', PAR_REAL, PAR_STUB,
  'seeded arrival schedules, values compared with the generator',
  'Search over seeded documents, arrival schedules and access styles.',
  assumptions=['the application repeats the call that lacked data, as the API documents', 'the EBML header holds no empty element (EBMLHeader::Parse refuses those)', 'cue points are loaded once their bytes have arrived'])
P('C12', 'parse', 180000, 3000000,
  'A file that cannot be read completely is never passed off as complete',
  'If the byte source fails at any read, an allocation fails, or the file ends early, reading through the pull parser ends with an error at the call concerned or the failure does no harm; '
  'it never crashes, loops or leaks, and every value, block and frame that is reported is what the file contains, with nothing missing before it. Without a failure no error is reported.',
  ['fault_sequences', 'crash_points', 'inputs'],
  'all valid files x all single, sticky and burst failures of reads and allocations x all truncation points x all access styles',
  'No test makes a read or an allocation fail.',
  ['mkvparser/mkvparser.cc'],
  [('status propagation from IMkvReader and nothrow allocations to every public call', 'mkvparser/mkvparser.cc')],
  PAR_RULE + 'A fault-free pass counts reads and allocations; then one of them (once, sticky, or a burst) fails or the file is cut.',
  'a fault was injected into a document with more than one block', PAR_REAL, PAR_STUB,
  'seeded read errors, allocation failures and truncations, reported values compared with the generator',
  'Search over seeded documents and fault points. Seek index entries and cue points that cannot be read may be absent without an error (they are hints, and their API has no error result).',
  assumptions=['a session that reported an error is not continued', 'only allocations made with nothrow new are failed; others terminate by design'])

P('C13', 'parse', 250000, 4000000,
  'Random access finds the right cluster and block in any order of use',
  'Looking up a time in the cues gives the last cue point at or before it, and following a cue gives exactly the block it names; seeking in a video track gives the last key frame at or before the time '
  '(other tracks: the first block of the last cluster at or before it), and finding a cluster by time or position gives that cluster. Walking on from any block or cluster found this way visits exactly the following ones in file order. '
  'All of it holds however loading, preloading, cue loading, seeking and walking are interleaved and while data is still arriving, each cluster has one object, and after a failed read or allocation no wrong block is returned as found.',
  ['histories', 'schedules', 'fault_sequences'],
  'all files with ordered times and clusters of known size x all interleavings of load, preload, find, seek, walk calls x arrival schedules x single faults',
  'The tests seek in three sample files; none mixes preloaded and loaded clusters or has a read fail.',
  ['mkvparser/mkvparser.cc'],
  [('sorted cluster array with a loaded prefix and preloaded rest', 'mkvparser/mkvparser.cc'),
   ('binary searches over clusters and cue points', 'mkvparser/mkvparser.cc')],
  PAR_RULE + 'A seeded sequence of up to 60 calls on one segment is compared after every call with a model of the loaded prefix.',
  'the document has more than four blocks and at least four blocks were found', PAR_REAL, PAR_STUB,
  'seeded call histories against a model of the file, with late data, read and allocation faults',
  'Search over seeded documents, call sequences and faults. Cluster times increase, block times do not decrease within a cluster; clusters and segment have known sizes (preloading a cluster of unknown size is an open TODO in the library).',
  assumptions=['FindCluster() and walking on from a preloaded cluster have no error result; their outcome is not judged when a fault fired in them'])
P('C15', 'hostile', 300000, 4000000,
  'Arbitrary bytes never harm the pull parser',
  'For any byte string, complete or still arriving, every call of the pull parser on whatever it claims to have found ends with a definite result, without crash, endless loop, out-of-bounds access or leak, '
  'also when reads or allocations fail on top. Frames it reports have a valid position and length, and reading one delivers the bytes at that place of the file.',
  ['inputs', 'fault_sequences', 'schedules'],
  'all byte strings x access patterns x arrival schedules x read and allocation failures',
  'The tests hold about thirty fixed invalid files.',
  ['mkvparser/mkvparser.cc'],
  [('bounds checks on element sizes and positions', 'mkvparser/mkvparser.cc')],
  'Bytes are drawn as element soup, by damaging the element tree of generated documents (elements inserted, emptied, repeated, dropped, moved, renamed, given extreme values or false sizes, with consistent sizes around them) or by mutating their bytes (bit flips, extreme integers, deleted, inserted and copied ranges, truncation, aimed at element headers half of the time) and read through every public call. ',
  'the headers parsed and clusters, cues and tracks were probed', PAR_REAL, PAR_STUB,
  'seeded hostile inputs, arrival schedules and faults under sanitizers',
  'Search over seeded hostile inputs.',
  assumptions=['library allocations above 192 MB are refused like a failing allocator would'])
P('C16', 'parse', 400000, 4000000,
  'File adapters never deliver or store wrong bytes without an error',
  'A read through the file reader either delivers exactly the bytes of the file at that position or reports an error, and the length it reports is the length of the file; data written through the file writer, with seeks back and forth, '
  'is in the file exactly as written if every call up to and including the close succeeded. Failed opens, seeks, reads, writes and closes and full disks are reported, nothing else is, a reader or writer never closes a file it was only lent, and none is left open. '
  'A file parsed through the reader under disk faults is read completely and correctly or with an error.',
  ['fault_sequences', 'histories'],
  'all sequences of reads, writes, seeks and closes x all disk faults',
  'No test makes a file operation fail.',
  ['mkvparser/mkvreader.cc', 'mkvmuxer/mkvwriter.cc'],
  [('stdio calls and their error checks', 'mkvparser/mkvreader.cc'), ('fwrite/fseek/fclose status', 'mkvmuxer/mkvwriter.cc')],
  'A seeded sequence of calls on MkvReader or MkvWriter over the simulated disk (real glibc stdio above it), or a whole generated document parsed through MkvReader, with a seeded fault plan. ',
  'a disk fault fired and more than a few calls succeeded', ['mkvparser/mkvreader.cc', 'mkvmuxer/mkvwriter.cc', 'mkvparser/mkvparser.cc', 'glibc stdio buffering'],
  ['disk (fopencookie): short reads, read/seek/write/close errors, torn writes, full disk, pipes, open failures'],
  'seeded disk faults against a byte-array model of the file',
  'Search over seeded call sequences and fault plans.',
  assumptions=['ftell() on an open plain file is assumed not to fail'])

M2_REAL = ['m2ts/webm2pes.cc', 'm2ts/vpxpes2ts.cc', 'm2ts/vpxpes_parser.cc', 'common/libwebm_util.cc', 'mkvparser (MkvReader, Segment)', 'glibc stdio buffering']
M2_STUB = ['disk (fopencookie): short reads, read/seek/write/close errors, torn writes, full disk, open failures', 'packet receiver (records, may refuse)',
           'PES and transport stream demultiplexers written from the format, used as oracle']
M2_RULE = ('A WebM file is drawn (1-4 tracks with arbitrary numbers, VP8/VP9, superframes, laced and grouped blocks, frames up to 130 kB rich in start-code-like bytes, times up to 30 hours), put on the simulated disk and converted. ')
P('C17', 'm2ts', 180000, 1000000,
  'Conversion to PES and TS keeps every frame, or reports failure',
  'Converting a WebM file to a PES file, to a packet receiver or to a transport stream delivers every frame of its first VP8/VP9 video track, in order, with exactly its bytes (one entry per sub-frame of a superframe) and its time on the 90 kHz clock, '
  'and nothing else; start-code-like bytes are escaped, transport packets are whole and numbered without gaps, and the library\'s PES reader reads the same frames and times back, also from a file that was cut off, up to the cut. '
  'A failing read, write, seek, open, close or allocation, a full disk or a refusing receiver makes the conversion fail or does no harm; a valid file is never refused.',
  ['inputs', 'fault_sequences', 'crash_points'],
  'all WebM files with VP8/VP9 video x all frame contents and times x all disk and allocation faults x all truncation points of the PES file',
  'The tests convert one sample file of one second and one constant 100 kB buffer, without faults.',
  ['m2ts/webm2pes.cc', 'm2ts/vpxpes2ts.cc', 'm2ts/vpxpes_parser.cc', 'common/libwebm_util.cc'],
  [('start-code escaping, PTS bit packing and fragmentation', 'm2ts/webm2pes.cc'), ('reverse of it', 'm2ts/vpxpes_parser.cc'), ('transport packetisation', 'm2ts/vpxpes2ts.cc')],
  M2_RULE, 'the conversion succeeded with more than one frame', M2_REAL, M2_STUB,
  'seeded files and disk faults, output judged by independent demultiplexers',
  'Search over seeded files and fault plans. The packet length field counts unescaped bytes (as reader and writer agree); a start-code-like sequence formed by the end of a header and the first payload bytes is not claimed to be escaped.',
  assumptions=['VP9 frames end with a valid superframe index or with a byte that is no index marker (a requirement of VP9)'])
P('C18', 'm2ts', 200000, 2000000,
  'Damaged PES streams never harm the PES reader',
  'For any bytes offered as a PES file, the PES reader ends with a definite answer without crash, endless loop, out-of-bounds access or leak, reports no empty frame and no more frame bytes than the file has, '
  'and every frame that lies wholly before the first damaged byte is reported unchanged.',
  ['inputs', 'fault_sequences'],
  'all byte strings (damaged conversions and packet soup) x allocation failures',
  'The tests read only undamaged streams.',
  ['m2ts/vpxpes_parser.cc', 'common/video_frame.cc'],
  [('bounds checks on packet and frame lengths', 'm2ts/vpxpes_parser.cc')],
  M2_RULE + 'The PES bytes are then damaged by 1-8 byte changes, deletions, insertions or cuts, or replaced by packet soup. ', 'a frame was read or lies before the damage', M2_REAL, M2_STUB,
  'seeded damage under sanitizers, undamaged prefix compared with the source', 'Search over seeded damage.')

P('C19', 'vtt', 250000, 2000000,
  'WebVTT cues are read exactly and survive the way through a WebM file',
  'Reading a WebVTT file yields exactly its cues in order - identifier, start and stop time, settings and payload lines - for every legal way to write them (line ends, time formats, byte order mark, blank lines); a cut or malformed file yields the cues before the defect and then an error '
  'or, where what is left is a complete file, its end, and a read error is reported as an error. Cues and chapters put into a WebM file by the sample muxer and extracted by vttdemux come out with the same content, '
  'and vttdemux reports success only if everything was extracted and written, whatever fails.',
  ['inputs', 'fault_sequences', 'crash_points'],
  'all WebVTT files and sets of files x all truncations and damages x all disk faults on reading and writing',
  'No test of the suite exercises the WebVTT parser or vttdemux.',
  ['webvtt/webvttparser.cc', 'webvtt/vttreader.cc', 'sample_muxer_metadata.cc', 'vttdemux.cc'],
  [('line reader and cue grammar', 'webvtt/webvttparser.cc'), ('cue to block and chapter conversion', 'sample_muxer_metadata.cc'), ('reverse of it', 'vttdemux.cc')],
  'WebVTT files are drawn from the seed (cues, line ends, time formats, damage) and either parsed from a simulated reader or disk, or loaded by SampleMuxerMetadata next to video frames, muxed, and extracted by the vttdemux program on the simulated disk. ',
  'more than one cue was read', ['webvtt/webvttparser.cc', 'webvtt/vttreader.cc', 'sample_muxer_metadata.cc', 'vttdemux.cc (its main)', 'mkvmuxer', 'mkvparser', 'glibc stdio buffering'],
  ['disk (fopencookie) with faults', 'character source', 'reference WebVTT reader written from the documented grammar, used as oracle'],
  'seeded text, damage and disk faults against a reference reader',
  'Search over seeded files and fault plans. Cues with zero duration, and lines holding NUL bytes, are not claimed.')

# ------------------------------------------------------------- whole pipeline
P('C20', 'live', 110000, 1000000,
  'Live viewers get every frame, in order, as soon as its bytes arrive',
  'A stream being muxed to a non-seekable output (or in chunks) can be consumed while it is written: whatever the network delays, splits or cuts, every viewer using either parser '
  'reports exactly the frames of the stream in stream order - track, time, key flag, data - from the cluster at which it joined, never a frame whose bytes have not arrived, and each frame no later than when its last byte has arrived. '
  'A viewer may join at any announced cluster with the header in front. The muxer holds back no frame but audio awaiting the next video frame, announced cluster positions and published chunks are final, and when the producer dies nothing that arrived is lost.',
  ['schedules', 'histories', 'crash_points'],
  'all recordings x all interleavings of producer, network and viewers x all join points, cuts and producer deaths',
  'Tests mux complete files and parse complete files; no test runs a parser on a stream that is still being written.',
  ['mkvmuxer/mkvmuxer.cc', 'mkvparser/mkvparser.cc', 'webm_parser/src/webm_parser.cc', 'webm_parser/src/cluster_parser.h', 'webm_parser/src/block_parser.cc', 'webm_parser/src/segment_parser.cc'],
  [('live and chunked writing, frame queue', 'mkvmuxer/mkvmuxer.cc'), ('incremental cluster loading with unknown sizes', 'mkvparser/mkvparser.cc'), ('resumable parsing', 'webm_parser/src/master_parser.cc')],
  'A recording plan is executed step by step against the real muxer; a seeded scheduler interleaves producer steps, deliveries of any number of bytes per viewer link, idle polls, joins at announced clusters, link loss, producer death and connection cuts. '
  'After the faults stop everything published is delivered. ',
  'two viewers or more, two clusters or more and more than three frames',
  ['mkvmuxer', 'mkvparser', 'webm_parser'], ['network links and origin server', 'disk for chunks (fopencookie)', 'reference EBML walker over the published bytes, used as oracle'],
  'seeded interleaving of producer, network and viewers, history checked against the published bytes',
  'Search over seeded interleavings; the progress bound is checked at every viewer step.')
P('C21', 'inst', 15000, 1000000,
  'Instances do not influence each other, whatever their interleaving',
  'Muxers, parsers, readers, writers and converters keep their state to themselves: any number of them used side by side in one process - several of a kind or of different kinds, '
  'one being called while others are inside their reader, writer or callback - each behaves exactly as it does alone: the same results, notifications, bytes and error reports, including its reaction to its own I/O and allocation faults. The same holds for an instance created after others were used and destroyed.',
  ['schedules', 'histories'],
  'all sets of sessions of the other properties x all interleavings at I/O and callback boundaries',
  'Tests exercise one instance at a time from start to end.',
  ['mkvmuxer/mkvmuxer.cc', 'mkvmuxer/mkvmuxerutil.cc', 'mkvmuxer/mkvwriter.cc', 'mkvparser/mkvparser.cc', 'mkvparser/mkvreader.cc', 'webm_parser/src/webm_parser.cc', 'webm_parser/src/parser_utils.cc', 'm2ts/webm2pes.cc', 'm2ts/vpxpes_parser.cc', 'webvtt/webvttparser.cc'],
  [('all state is held in instances, no mutable globals', 'mkvmuxer, mkvparser, webm_parser, webvtt, m2ts'), ('user callbacks run inside library calls', 'mkvmuxer/mkvmuxer.h, mkvparser/mkvparser.h, webm_parser/include/webm/reader.h')],
  'Two or three whole simulations of the other properties are drawn; each runs alone first, fixing its choices and history, then all run interleaved on separate stacks with the same choices, a seeded scheduler switching between them at I/O steps. Their histories must not change. ',
  'more than eight switches between sessions took place',
  ['mkvmuxer', 'mkvparser', 'webm_parser', 'm2ts', 'webvtt', 'sample_muxer_metadata.cc', 'vttdemux.cc'], ['disks, readers, writers, callbacks of the other properties', 'scheduler (fibers)'],
  'seeded preemptive interleaving of whole sessions compared with their solo histories',
  'Search over seeded sets of sessions and interleavings. A session that fails alone is the business of its own property and is skipped here. Switches happen at I/O and callback boundaries, not between arbitrary instructions.')

# ------------------------------------------------------------- programs
TL_REAL = ['mkvmuxer', 'mkvparser', 'm2ts', 'webvtt', 'sample_muxer_metadata.cc', 'glibc stdio buffering']
TL_STUB = ['disk (fopencookie) with faults', 'standard output (captured)', 'reference EBML walker, used as oracle']
P('C22', 'tools', 250000, 1200000,
  'Remuxing a file with mkvmuxer_sample keeps its content, or the program fails',
  'When mkvmuxer_sample exits successfully, its output is a well-formed WebM file holding every selected audio and video frame of the input, in order, with the same bytes, time, key flag and discard padding and nothing else, and tracks with the input\'s codec, codec data, name, picture or sound format, colour and projection; '
  'requested tags, duration, track numbers and cue placement are honoured, for every combination of options and every legal input layout. A failing read, write, seek, open or close or a full disk at any point makes the program fail or does no harm; a good file is never refused and no temporary file stays behind.',
  ['inputs', 'fault_sequences'],
  'all input files x option combinations x disk faults at any operation',
  'No test runs the program.',
  ['mkvmuxer_sample.cc', 'common/hdr_util.cc', 'mkvmuxer/mkvmuxer.cc', 'mkvparser/mkvparser.cc'],
  [('parser to muxer copy loop and exit status', 'mkvmuxer_sample.cc'), ('colour metadata copy', 'common/hdr_util.cc')],
  'An input is drawn from the seed (a simulated recording, or a document with lacing, unknown sizes and void elements), put on the simulated disk and remuxed by the real main() with drawn options and a drawn disk fault. The output is decoded by the reference walker and compared with the source. ',
  'more than two frames were copied', TL_REAL + ['mkvmuxer_sample.cc (its main)', 'common/hdr_util.cc'], TL_STUB,
  'seeded inputs, options and disk faults, output compared with the source', 'Search over seeded inputs, options and fault plans. Settings the program does not copy (languages, display size, block additions, content encodings, chapters) are not claimed, nor is moving cues that are not written (-output_cues 0 with -cues_before_clusters 1).')

P('C23', 'tools', 500000, 1500000,
  'Damaged files and failing disks never crash or hang the command-line programs',
  'Whatever bytes webm_info, mkvparser_sample, mkvmuxer_sample, webm2pes, webm2ts, vttdemux and dumpvtt are given, with whatever options and with any failing open, read, seek, write or close, they end after finite work with an exit status, stay inside the memory they own and close the files they opened.',
  ['inputs', 'fault_sequences'],
  'all byte strings x option combinations x disk faults at any operation',
  'No test runs the programs; the sample files of the tests are well formed.',
  ['webm_info.cc', 'mkvparser_sample.cc', 'mkvmuxer_sample.cc', 'vttdemux.cc', 'dumpvtt.cc', 'm2ts/webm2pes.cc', 'm2ts/vpxpes2ts.cc', 'common/vp9_header_parser.cc', 'common/hdr_util.cc', 'common/vp9_level_stats.cc'],
  [('cue, codec and encryption listing', 'webm_info.cc'), ('VP9 header reader', 'common/vp9_header_parser.cc')],
  'Hostile bytes (random element soup, damaged documents, VP8/VP9/encrypted recordings with damaged places, damaged WebVTT text) are put on the simulated disk with a drawn fault plan; the real main() of a drawn program runs under ASan and UBSan with its output captured and bounded. ',
  'the input was damaged', TL_REAL + ['the main() of every program', 'common/*'], TL_STUB,
  'seeded hostile files and disk faults under sanitizers', 'Search over seeded inputs and faults. Memory left allocated at exit is not claimed; allocation failures are not injected (the programs use the throwing new).')

P('C24', 'tools', 200000, 1200000,
  'The inspection programs print what the file holds, or fail',
  'When webm_info or mkvparser_sample exits successfully, everything it prints is what the file holds: the EBML header, seek head, segment information, tracks (names, codec data, VP9 features, content encodings, colour, mastering data, projection, picture and sound format), tags, clusters, blocks and laced frames, cue points, encryption marks, VP8/VP9 frame headers and VP9 stream statistics and level; same order, numbers, positions, sizes, times and flags, for every option combination and nothing else. A read, seek or open error makes the program fail or changes nothing it prints (cue points, seek entries and encryption excepted), and a good file is never refused.',
  ['inputs', 'fault_sequences'],
  'all recordings x options x disk faults at any operation',
  'No test runs the programs.',
  ['webm_info.cc', 'mkvparser_sample.cc', 'common/vp9_header_parser.cc', 'common/vp9_level_stats.cc', 'common/indent.cc'],
  [('listing', 'webm_info.cc'), ('listing', 'mkvparser_sample.cc'), ('VP9 header reader', 'common/vp9_header_parser.cc'), ('VP9 statistics', 'common/vp9_level_stats.cc')],
  'A recording with VP8, VP9 of every profile (superframes, intra-only and shown frames, scaling, tiles), laced, encrypted and other frames is drawn field by field from the seed, so every line that must be printed is known; the real main() runs on the simulated disk with a drawn fault and its captured output is compared line by line. ',
  'more than two blocks were listed', TL_REAL + ['webm_info.cc and mkvparser_sample.cc (their main)', 'common/vp9_header_parser.cc', 'common/vp9_level_stats.cc'], TL_STUB,
  'seeded recordings, options and disk faults, output compared with a model', 'Search over seeded inputs and faults. Cue points and seek entries that cannot be read are left out silently by the library and not claimed.')

# ------------------------------------------------------------- not applicable
def NA(pid, title, statement, files, reason):
    return {'reason': reason, 'line': {
        'id': pid, 'title': title, 'statement': statement,
        'quantifier': {'over': ['inputs'], 'text': 'all inputs of the function'},
        'why_tests_cant': 'Tests sample a few inputs of a large space.',
        'anchors': {'files': files, 'mechanism': [{'name': 'pure function of its arguments', 'where': files[0]}],
                    'observe_at': ['return values'], 'hook_needed': None}}}


NOT_APPLICABLE = [
    NA('N01', 'VP9 frame headers are read as the bitstream specification says',
       'For every VP9 frame the header parser reports the profile, key flag, dimensions, colour configuration and tile columns that the uncompressed header encodes, never reads past the frame, and rejects malformed headers.',
       ['common/vp9_header_parser.cc'],
       'A pure function of one in-memory buffer: no schedule, time, I/O, fault or history for a simulator to control. Example-based or exhaustive input testing would decide it, which is another technique.'),
    NA('N02', 'VP9 level statistics give the lowest level whose limits hold',
       'After any sequence of frames the reported level is the lowest VP9 level all of whose limits the sequence keeps within the configured grace percentage.',
       ['common/vp9_level_stats.cc'],
       'Pure arithmetic over the values handed in (times are arguments, not a clock): no nondeterminism or fault to simulate.'),
    NA('N03', 'VPx codec private data is decoded and range-checked',
       'ParseVpxCodecPrivate accepts exactly the well-formed feature lists of the VP codec private format and returns the values in them.',
       ['common/hdr_util.cc'],
       'A pure function of one in-memory buffer; nothing to schedule and no fault to inject.'),
]
