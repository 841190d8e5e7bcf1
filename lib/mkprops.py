# generates /verif/properties.jsonl (kept as a script only so that the statements stay readable)
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=()):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=mech))
    if state: d['anchors']['state']=[dict(name=a,meaning=b) for a,b in state]
    P.append(d)

p('C01','A random FST file answers every call as the record store of its history',
  "For every history of writes, rewrites, deletions, directory edits, searches and reads on an open random-access standard file, a search from the start returns the first live record in directory order that matches the criteria, continued searches visit every further match exactly once in that order and then report not-found, and the parameters, data and record counts returned are those of the last write to each record. A rewrite replaces exactly the first matching record and otherwise appends; a deletion removes exactly one record; handles of deleted records are refused for writing and deletion without side effects.",
  ['histories','inputs'],"all histories of public FST operations (including enough records to span several directory pages) and all search criteria",
  "The existing tests that build here do not touch standard files at all; a sampled test sees one history, while the guarantee is over all of them (page boundaries, deletion patterns, rewrite of a grown record).",
  ['src/fstd98/fstd98.c','src/fstd98/xdf98.c'],['c_fstecr','c_fstinf','c_fstsui','c_fstinl','c_fstluk','c_fstprm','c_fsteff','c_fst_edit_dir','c_xdfput','c_xdfdel','c_xdfloc2','next_match'],
  [('file_table[]','open files, their directory pages and current search state')])
p('C02','Standard files persist: close, checkpoint, read-only and crash behaviour',
  "After a close or a checkpoint, any later reader (including another process, and including after the writer is killed at any later moment outside the next checkpoint or close) finds exactly the records that were live at that point, with the same order and parameters, and the same data except for records the dead writer had since rewritten in place. A file that a writer left in the write state (checkpoint without close) is refused to another writer but not to readers; a new file that was never checkpointed nor closed is refused instead of being read as if complete. A unit opened read-only never changes the file.",
  ['histories','crash_points'],"all write histories, all points at which a process closes, checkpoints or dies",
  "No test kills a writer or reopens a file; crash points are a quantifier that no finite sample settles.",
  ['src/fstd98/xdf98.c','src/fstd98/fstd98.c','src/primitives/c_baseio.c'],['c_xdfcls','c_fstckp','c_xdfopn','c_xdfput','header rwflg'])
p('C03','Linked standard files are searched as one ordered collection',
  "While a list of open random files is linked, a search on a unit visits the live matching records of that unit and of every unit linked after it in link order, each exactly once, and handles it returns designate the record in the file that holds it, for reading and deletion. Writes and rewrites only concern the unit's own file. Unlinking restores each file's own view. Counts and searches made on the last unit are unaffected by the link.",
  ['histories'],"all link lists, file contents and search criteria",
  "No test links files.",
  ['src/fstd98/xdf98.c','src/fstd98/fstd98.c'],['c_xdflnk','c_xdfunl','c_xdfloc2','next_match'])
p('C04','Sequential standard files: position, order and end-of-file levels',
  "On a sequential standard file, records are found in the order written starting from the current position, searching past the last record reports not-found, rewinding restores the start, skipping moves exactly the requested number of records in either direction without crossing the ends, and end-of-file marks are reported with the level they were written with. Appending after positioning at the end never damages earlier records.",
  ['histories'],"all histories of write, search, rewind, skip, append and end-of-file operations",
  "No test uses sequential files.",
  ['src/fstd98/fstd98.c','src/fstd98/xdf98.c'],['c_fstrwd','c_fstskp','c_fstapp','c_fstweo','c_fsteof','next_match'])
p('C05','Packed fields come back with the fidelity their data type promises',
  "Every field written to a standard file reads back with the same dimensions and with the value fidelity of its data type: exactly for raw, integer, character and full-precision IEEE types at sufficient bit width, and within the quantisation step of its value range for packed real types, whatever the dimensions, bit count, optional compression and element size. Reading never touches memory outside the field's elements, and fields flagged with missing values return missing exactly where they were missing.",
  ['inputs'],"all dimensions, data types, bit counts, compression flags and field contents",
  "The packing tests that exist need the absent App submodule and sample one field each; the guarantee is over every width and shape.",
  ['src/fstd98/fstd98.c','src/fstd98/fst_missing.c','src/packers/compact.tmplc','src/packers/compact_integer.c','src/packers/float_packer.c','src/compresseur/c_zfstlib.c','src/compresseur/armn_compress_32.c'],
  ['c_fstecr','c_fstluk','compact_integer','compact_short','compact_char','compact_float','c_float_packer','armn_compress'])
p('C06','XDF record buffers behave as bit-addressed sequences of elements',
  "For every sequence of append, insert, replace, cut and extract operations on an XDF record buffer, the buffer's contents are those of the same edits on a sequence of 64-bit units, an extract returns the elements last stored at that position, and an operation that would exceed the buffer is refused without changing it. The primary keys and data written to a generic XDF file are found and returned unchanged, with key matching limited to the unmasked keys.",
  ['histories','inputs'],"all edit histories, positions, element widths and data types, and all key definitions",
  "No test uses the generic XDF layer.",
  ['src/fstd98/xdf98.c'],['c_xdfini','c_xdfadd','c_xdfins','c_xdfrep','c_xdfcut','c_xdfxtr','c_xdfput','c_xdfget','c_xdfloc'])
p('C07','BURP reports return the blocks and headers last stored in them',
  "For every history of building, storing, finding and editing BURP reports, a report read back has the header and the ordered blocks that were stored, adding, replacing or deleting a block changes only that block, and searching for a report or block returns the first one matching the given criteria from the given starting point. Integer element values within the block's bit width come back exactly.",
  ['histories','inputs'],"all histories of report and block operations",
  "No test opens a BURP file in this build.",
  ['src/fstd98/burp98.c','src/fstd98/c_burp.c'],['c_mrfput','c_mrfget','c_mrfloc','c_mrbadd','c_mrbdel','c_mrbrep','c_mrbxtr','c_mrbloc','c_mrbprm'])
p('C08','File units: connection table and word-addressable files',
  "At any time a unit number designates at most one connected file, connecting an already connected unit, or an unknown unit in any other call, is refused, and a disconnected unit, or one whose connection was refused, can be reused any number of times; automatic units are free ones. A word-addressable file behaves as an array of words: every read returns the words last written at those addresses, also after close and reopen, for any mix of overlapping writes and with or without the page cache (WA_CONFIG); a write past the end leaves zeros between; short reads are reported as such; CMCARC subfiles give their own words; streams give back the bytes written.",
  ['histories'],"all histories of connect, open, read, write, close and disconnect on any set of units",
  "The tests for these need the absent App submodule; histories (overlap, reuse, extension past the end) are unbounded.",
  ['src/primitives/c_baseio.c'],['c_fnom','c_fclos','c_waopen2','c_waclos2','c_waread2','c_wawrit2','c_getfdsc'],
  [('FGFDT[]','unit table')])
p('C09','The white board is a faithful dictionary with per-entry policies',
  "For every history of defining, setting and getting white-board entries, a get returns the value, type and size last successfully stored under that name, read-only and write-once entries never change after their allowed assignment, and a refused operation reports an error and leaves every readable value unchanged (a put refused for its type, dimension or length may mark the entry unreadable until the next accepted put, and a lock that meets an entry without value is refused and may have locked others). Listing keys returns exactly the defined names with the prefix, and locking, checkpoint and reload preserve these contents.",
  ['histories','inputs'],"all histories of white-board operations and all names, types, sizes and policies",
  "White-board tests are not built here and sample one directive file; policy interaction over histories is combinatorial.",
  ['src/whiteboard/WhiteBoard_c.c','src/whiteboard/WhiteBoard_f.F90','src/whiteboard/wb_put.tmpl90','src/whiteboard/wb_get.tmpl90'],
  ['c_wb_put','c_wb_get','c_wb_lock','c_wb_check','c_wb_checkpoint','c_wb_reload'])
p('C10','GMM keeps every named field, its attributes and its time-level identity',
  "For every history of create, get, update-metadata, rename, delete and shuffle operations, a field is found under its name with the shape, attributes and content it was given, creating an existing name, fetching an unknown one or fetching one with another type is reported, and distinct live fields never share storage. A shuffle permutes exactly the named fields' contents cyclically and nothing else changes.",
  ['histories'],"all histories of GMM operations over any set of names",
  "Nothing in the built tests exercises GMM.",
  ['src/gmm/rmn_gmm_mod.F90','src/gmm/gmm_create.tmpl90','src/gmm/gmm_get.tmpl90'],['gmm_create','gmm_get','gmm_delete','gmm_shuffle','gmm_updatemeta','gmm_rename'])
p('C11','A data jar returns what was inserted, in order, and refuses overruns intact',
  "For every sequence of insertions, extractions, seeks, resets and raw loads on a serialization jar, extracted elements are exactly those inserted at the corresponding positions, and usage, capacity and high-water figures agree with the contents. An insertion or extraction that does not fit is refused, leaves the jar's contents and positions unchanged, and touches no memory outside the jar.",
  ['histories','inputs'],"all histories of jar operations with any element kind, size and position",
  "The two jar tests follow one straight history each; refused and repositioned operations are never combined.",
  ['src/serializer/jar_mod.F90'],['jar_put_into','jar_get_outof','jar_new','jar_reset','jar_free'],[('data_jar','size, bot, top, content')])
p('C12','Messages are shown, redirected and kept exactly as the verbosity rules say',
  "A message is written exactly when writing is allowed to the process (or the message is for all) and its level reaches the current verbosity, once, on the unit configured for that level and with that level's prefix. Independently of what is shown, every message that reaches the verbosity of the buffer is kept; a flush of the buffer writes each kept message once (immediate repetitions once, the latest 256), latest first, with its own level and on the unit of its level, and empties the buffer. Changing the verbosity, redirections or the process-wide settings affects only later messages, and only what the call names.",
  ['histories'],"all histories of message, verbosity, redirect and buffer calls",
  "No test exercises the message system.",
  ['src/primitives/msg.F90'],
  ['msg','msg_toall','msg_set_minMessageLevel','msg_buffer_flush','msg_set_redirect2fileUnit'])
p('C13','The interpolator is history-independent: grids, options and caches never leak',
  "Defining a grid twice yields the same identity while different definitions yield different identities with their own dimensions and parameters, and released identities no longer resolve while the others are undisturbed. Options read back as last set, and the result of an interpolation or coordinate query depends only on the grids, options and input field, never on what was defined, queried or interpolated before.",
  ['histories','configurations'],"all histories of grid definition, release, option setting, and interpolation calls",
  "No built test interpolates; cache reuse bugs appear only for particular histories.",
  ['src/interp/ezqkdef.c','src/interp/ezdefset.c','src/interp/gdrls.c','src/interp/ezsint.c','src/interp/ezsetopt.c','src/interp/ezgetopt.c','src/interp/ez_identifygrid.c','src/interp/ez_addgrid.c'],
  ['c_ezqkdef','c_ezgdef_fmem','c_ezdefset','c_ezsint','c_gdrls','c_gdll','c_gdxyfll','c_ezsetopt'],[('Grille[][]','grid registry'),('groptions','options')])
p('C14','Interpolated values honour the interpolation degree and extrapolation rules',
  "For every grid pair and field, nearest-neighbour results are values of the source field at a closest grid point, linear results lie within the range of the surrounding source values and reproduce affine fields, interpolating onto the source points themselves reproduces the field for every degree, and points outside the source follow the selected extrapolation option (given value, minimum, maximum, or abort) exactly. Coordinate-to-index and index-to-coordinate queries invert each other inside the grid.",
  ['inputs','configurations'],"all fields, grid pairs, interpolation and extrapolation options",
  "No built test interpolates horizontally.",
  ['src/interp/ez_corrval.c','src/interp/ez_interp.c','src/interp/gdinterp.c','src/interp/gdxyfll.c','src/interp/gdllfxy.c','src/interp/ez_rgdint_0.inc','src/interp/ez_rgdint_1_nw.inc'],
  ['c_gdinterp','ez_corrval','c_gdxysval','c_gdllsval'])
p('C15','Vertical interpolation brackets every target and extrapolates as documented',
  "For every monotonic column of source levels, ascending or descending, the level finder returns for each target the index of the bracketing pair, clamped to the ends, and nearest-neighbour interpolation returns the source value at the nearest level while out-of-range targets receive exactly the documented extrapolation. Columns are independent of each other.",
  ['inputs'],"all column heights, level orders (ascending, descending), targets and extrapolation switches",
  "The four vertical tests compare a handful of fixed columns.",
  ['src/interpv/Interp1D_FindPos_Body.inc','src/interpv/Interp1D_NearestNeighbour_Body.inc','src/interpv/Extrap1D_Fixed_Body.inc','src/interpv/Extrap1D_LapseRate_Body.inc'],
  ['Interp1D_FindPos','Interp1D_NearestNeighbour','Extrap1D_Fixed','Extrap1D_LapseRate'])
p('C16','Date stamps and calendar arithmetic agree with the calendar',
  "Every conversion between date stamps, printable dates and Julian days is invertible over its domain and order-preserving, adding a number of hours and taking the difference are inverse to each other, and impossible dates are refused. Under the no-leap and 360-day calendar options the same laws hold with those calendars' month lengths.",
  ['inputs','configurations'],"all dates of the supported range, all hour increments, all calendar options",
  "Only sampled dates could be tested; the module is not built by the test suite at all. Century leap rules and month ends are where errors hide.",
  ['src/base/moduledate.f90','src/base/jdatec.f','src/base/datec.f'],['newdate','incdatr','difdatr','datec','jdatec','set_calendar'])
p('C17','Level/time parameter encodings decode to the values encoded',
  "For every level, time or hybrid value within an encoding kind's range, encoding to an IP parameter and decoding returns the same kind and a value equal within the encoding's resolution, decode followed by encode is the identity on every valid parameter, and the three-parameter form keeps level and time in their own parameters, with ranges ordered. Values or combinations outside the range are reported as errors.",
  ['inputs'],"all parameter values and kinds, old and new encoding style",
  "Encodings span 2^28 codes; tests sample a few.",
  ['src/fstd98/convip_plus.f90','src/fstd98/convert_ip123.f90','src/fstd98/convip.f'],['convip_plus','encode_ip','decode_ip','conv_kind_15'])
p('C18','Checksums, digests and stream ciphers do not depend on how data is chunked',
  "For every byte string and every way of splitting it into successive update calls, the checksum, digest or cipher output equals that of the published algorithm on the whole string, and a context is not affected by other contexts in use. Decrypting with the same key and position restores the input.",
  ['inputs','histories'],"all byte strings, chunkings and interleavings of contexts",
  "The self-tests check fixed vectors in one call each.",
  ['src/primitives/crc32.c','src/primitives/crc_16_24_32.c','src/primitives/crc16_.c','src/primitives/crc24_.c','src/primitives/crc32_.c','src/primitives/calc_crc.c','src/primitives/md5.c','src/primitives/arc4.c'],
  ['f_crc','crc','MD5Update','MD5Final','arc4_setup','arc4_crypt'])
p('C19','Bit-slice streams return the slices that were put, in order',
  "For every sequence of slice widths and values written to a bit stream, reading back with the same widths returns exactly the same values (truncated to their width), regardless of word boundaries. Byte-swapping a buffer is an involution that touches only the given number of words.",
  ['inputs'],"all sequences of widths 1..32 and values",
  "No test covers the slicer; boundary cases (a slice ending exactly on a word) depend on the history of widths.",
  ['src/primitives/f_bit_slicer.c','src/primitives/swap_buffer.c'],['f_bits_put','f_bits_get','f_bits_end','swap_buffer'])
p('C20','System wrappers report the real state of files, directories and environment',
  "Each portable wrapper for file tests, directory and file operations, path handling, environment access and character classification returns the result that the operating system state implies, performs exactly the requested change, and reports failure without side effects otherwise. Strings returned are complete, blank-padded and never overrun the caller's variable.",
  ['histories','inputs'],"all histories of operations on a directory tree and the environment, all argument strings and buffer lengths",
  "Only character classification has a test.",
  ['src/primitives/clib_interface.c','src/primitives/clib_interface2.c','src/primitives/ftn2c_helper_c.c','src/primitives/getenvc.c'],
  ['clib_mkdir','clib_rename','clib_remove','clib_isdir','clib_glob','clib_basename','clib_getenv','ftn2c_string_copy'])
p('C21','Command-line keys are parsed into the values, counts and defaults documented',
  "For every key table and command line, each key ends with the value given for it, its alternate default when named without a value, or its default when not named, list keys receive their values in order with the count reported, and negative-number and positional arguments follow the documented escapes. Parsing always terminates, and unknown keys are reported.",
  ['inputs'],"all key tables and argument vectors",
  "One fixed command line is tested.",
  ['src/primitives/c_ccard.c','src/primitives/ccard.F90'],['c_ccard','c_jfc_les_valeurs','c_jfc_positionel'])
p('C22','Option strings in environment variables are delivered without altering them',
  "Every option assignment and list in an option variable is delivered once, in order, to the consumer with quotes and parentheses removed; an option whose quotes or parentheses do not match is never delivered and ends the reading; and the variable itself still has its original value afterwards. A second reading therefore delivers the same options again.",
  ['inputs','histories'],"all option strings and repeated readings",
  "No test covers it.",
  ['src/primitives/c_env_var_cracker.c'],['c_env_var_cracker'])
p('C23','Gossip channels transfer every message intact, whole and in order',
  "Over a connected gossip channel every record sent is received exactly once, in order, with the same length and content after byte-order adjustment, whatever the fragmentation of the transport; a peer that closes or a timeout is reported as such and never as data. Concurrent channels never mix their data.",
  ['schedules','histories','fault_sequences'],"all interleavings of sends and receives, all fragmentations, lengths and peer failures",
  "No test opens a socket.",
  ['src/primitives/gossip_sock.c'],['write_stream','read_stream','get_ack_nack','put_record','get_record','write_ft_nonblocking_socket_record'])
p('C24','MGI channels are FIFO queues with per-type framing',
  "Whatever the interleaving of writer and reader, a channel delivers each written record once, in order, with the elements written; a read of another byte length than the record waiting is reported as an error and consumes nothing; a record the server refused, or a peer that closed, is reported as an error and never as data; a channel opened in a mode stays in that mode, and one that is closed or was never opened transfers nothing.",
  ['schedules','histories'],"all interleavings of one writer and one reader, all type/length sequences",
  "No test opens a channel.",
  ['src/primitives/mgilib2.c'],['mgi_open','mgi_write','mgi_read','mgi_clos','mgi_term'])
p('C25','Sorting and permutation routines return the sorted permutation',
  "For every input array, the sorting routines return an ordered rearrangement of exactly the input values, the index-sorting routines return a permutation that orders the values, and row-flipping and array-moving helpers apply exactly the documented element mapping, leaving everything outside the given extent untouched.",
  ['inputs'],"all array contents (with duplicates), sizes and strides",
  "No test sorts anything.",
  ['src/base/ipsort.c','src/base/sort.f','src/base/isort.f','src/base/permut.f'],['ipsort','sort','isort','permut'])
p('C26','Strings cross the Fortran/C boundary unchanged',
  "Every string converted between blank-padded and null-terminated form comes back with the same characters, trailing blanks aside, is truncated only when the receiving variable is too short, and never reads or writes outside either variable, including blank and empty strings; arrays of strings keep one result per entry.",
  ['inputs'],"all strings, lengths (including zero, blank and exactly full) and array sizes",
  "No test covers them; the failures are at the length edges.",
  ['src/primitives/ftn2c_helper_c.c','src/primitives/ftn2c_helper_f.F90','src/primitives/f_c_strings_mod.F90','src/primitives/up2low.f'],
  ['ftn2c_string_copy','ftn2c_cstra_fstra','strncpy_f2c','up2low','low2up'])
p('C27','Application variables return the value set last',
  "Whatever the history of sets, reads and clearings of the application variable table, a read of a variable returns the value last set under that name (never that of a variable with a longer or shorter name), cut or blank-padded to the reader's variable and nothing outside it, with the length documented; an unset or cleared variable reads as empty, and a full table refuses new names without damage.",
  ['histories','inputs'],"all histories of sets, reads and clearings, all names, values and buffer lengths, tables up to and past capacity",
  "No test covers it; it takes names that are prefixes of one another, short buffers or a full table.",
  ['src/primitives/appl_var.c','src/primitives/get_ccard_arg.c'],['set_appl_var','get_appl_var','c_get_appl_var_'])
p('C28','Search filters admit exactly the records the first matching request admits',
  "While desire/exclude requests are active, a search of a standard file finds, of the records that match it, exactly those the filters admit: the first request of the active group whose criteria (names, label, dates, levels, grid) are all satisfied decides, and a record that satisfies none is admitted when nothing is desired. Lists, ranges open on either side and ranges with an interval mean what the interface documents, levels are compared by what they mean, a rewrite ignores the filters, and a refused selection changes nothing.",
  ['histories','inputs'],"all histories of selections, resets, groups and switches, all criteria and all file contents",
  "No test uses filters; the verdict depends on the order and the combination of requests and on the edges of ranges.",
  ['src/fstd98/excdes_new.c','src/fstd98/xdf98.c','src/fstd98/fstd98.c'],['C_fstmatch_parm','match_ip','Xc_Select_ip1','Xc_Select_date','C_requetes_reset','C_select_groupset','next_match'],
  [('Requests[]','the table of desire/exclude requests')])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
