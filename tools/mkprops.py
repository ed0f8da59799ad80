import json
L='src/lib.rs'; S='src/structures/'
ALL=[L,'src/bitfield.rs','src/structures/']
P=[]
def p(id,title,st,over,text,why,files,mech,obs,state=()):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None)))
p('C01','No input makes the library panic, overflow or loop forever',
 "Searching for an entry point, iterating a structure table, decoding every structure in it, walking every sequence a structure holds, rendering every decoded value as text and converting it to its derived quantities all finish normally for arbitrary bytes. Malformed firmware data is answered with an error value or an absent field, never with a panic, an arithmetic overflow or an endless iteration.",
 ['inputs','histories'],'All entry point buffers, all table buffers, all versions and declared lengths, all sequences of calls on the resulting iterators and values.',
 'The tests decode a few well-formed dumps and hand-made structures; one bad length byte, count or string number in any of the 20 decoders is enough for a crash, and the space of byte strings cannot be sampled by examples.',
 ALL,[('bounds checks before every read','src/lib.rs next_raw/get/get_slice'),('length checks per decoder','src/structures/*.rs try_from'),('widening arithmetic','003_enclosure, 015_system_event_log, 022_portable_battery')],
 ['EntryPoint::search','Structures::next','Display/Debug of decoded values','From conversions'])
p('C02','Nothing outside the given buffer is read or influences a result',
 "Every result is a function of the entry point and of the bytes of the buffer that was handed in, and of nothing else. The same bytes placed at another address, with other memory before and after them or with no accessible memory around them at all, give the same entry point, the same structures and the same errors.",
 ['inputs','configurations'],'All buffers, all placements of the buffer in memory, all contents of the memory around it.',
 'A read a few bytes past a slice returns plausible neighbouring bytes, so assertions on expected values still pass; the tests never vary what lies around the buffer.',
 [L,S],[('slice bounds; packed reads only after a length check','src/lib.rs let_as_struct, ensure_data_len; src/structures/*.rs')],['EntryPoint::search','Structures::next'])
p('C03','Entry point search accepts exactly the first well-formed anchor',
 "The first 16-byte-aligned position that starts with a 32-bit or a 64-bit anchor string decides the search: it succeeds exactly when the entry point there declares at least its minimum size, lies completely inside the buffer, has major version 2 or later and its declared bytes sum to zero modulo 256. No unaligned anchor, no later anchor and no amount of data before or after changes the outcome.",
 ['inputs'],'All buffers: any length, any number and placement of anchors, any declared length, version and checksum.',
 'The tests search four dumps with one valid entry point each; alignment, competing anchors, truncation, checksum coverage and long buffers are not varied.',
 [L],[('find_signature 16-byte stride','src/lib.rs find_signature'),('size, version and checksum checks','src/lib.rs EntryPoint::search')],['EntryPoint::search'])
p('C04','Entry point fields report the bytes at their standard offsets',
 "For every accepted entry point the reported format, length, version, revisions, structure limits, checksums, table length and table address are the little-endian values at the offsets the standard gives for that format. The format-independent accessors agree with the format's own fields and lose no bits.",
 ['inputs'],'All accepted entry points of both formats, with all field values.',
 'The tests compare a few fields of fixed dumps, whose high bytes are mostly zero, so swapped, truncated or shifted fields can go unnoticed.',
 [L],[('packed entry point layouts','src/lib.rs EntryPointV2/EntryPointV3'),('accessors','src/lib.rs impl EntryPoint')],['EntryPoint accessors and public fields'])
p('C05','A failed search reports the actual reason and the offending value',
 "A search without any aligned anchor reports that nothing was found; otherwise the error names a condition that the first anchor's entry point really violates and carries the value that violates it: the size that is too small, the major version, or the non-zero byte sum. When only one condition is violated, that one is reported.",
 ['inputs'],'All rejected buffers, single and multiple violations.',
 'Only one rejection (nothing found) is tested; kinds and carried values of the other errors are not.',
 [L],[('ordered checks','src/lib.rs EntryPoint::search'),('InvalidEntryPointError','src/lib.rs')],['EntryPoint::search error'])
p('C06','Iteration yields every structure once, in order, with no gap or overlap',
 "Starting at the beginning of the table, each structure yielded occupies its header, its formatted section of the declared length and its string-set up to and including the first double NUL, and the next one starts at the very next byte. Structures come out in table order, none is skipped, repeated or split, and type, handle, length and body are the bytes of that structure.",
 ['inputs','histories'],'All tables: any number, type, length and string-set of structures, any number of iteration steps.',
 'The dumps in the tests only check that some structures decode; the position bookkeeping over arbitrary sequences is never compared with an independent account of the table.',
 [L],[('position advance','src/lib.rs next_raw'),('double NUL search','src/lib.rs find_nulnul')],['Structures::next'],[('idx','offset of the next structure','src/lib.rs Structures'),('smbios_len','declared end of the table','src/lib.rs Structures')])
p('C07','Iteration ends where the table ends and stays ended',
 "Iteration ends when fewer than a header's bytes of the declared table length remain; with major version 3 or later the end-of-table structure is the last one yielded, with version 2 it does not stop the iteration. After an end, or after an error about a structure that does not fit, every further step yields nothing, so the number of steps is bounded by the table length.",
 ['inputs','histories'],'All tables, declared lengths and versions; all numbers of further steps, also on copies of the iterator.',
 'The tests run each iterator once to its first end on well-formed data; over-iteration, missing or early end markers and declared lengths that differ from the data are not exercised.',
 [L],[('end conditions','src/lib.rs Structures::next, next_raw')],['Structures::next'],[('smbios_len','lowered to the position to stop','src/lib.rs')])
p('C08','A structure that does not fit is reported with its offset',
 "A structure whose formatted section does not lie inside both the declared table and the buffer, or whose declared length is smaller than a header, is reported as a size error carrying its offset and declared length; one whose string-set has no double NUL before the end of the buffer is reported as unterminated with its offset. No such structure is ever yielded as data, and no structure that fits is reported this way.",
 ['inputs'],'All tables cut off or corrupted at any byte, all declared lengths.',
 'The tests contain one truncated dump; truncation at every byte position and corrupted length bytes are not covered.',
 [L],[('fit checks','src/lib.rs next_raw'),('MalformedStructureError','src/lib.rs')],['Structures::next error'])
p('C09','A structure is decoded from its own bytes alone, whatever surrounds it',
 "What a structure decodes to depends only on its own bytes and on the version, not on its position, on its neighbours or on what was iterated before. A structure whose content cannot be decoded yields exactly one error in its place, and every structure before and after it is yielded as if that one were well-formed.",
 ['inputs','histories'],'All tables, all positions of a malformed or well-formed structure among arbitrary neighbours, all orders.',
 'Tests decode structures in isolation or in fixed dumps; that neighbours cannot influence each other is a statement about all combinations.',
 [L,S],[('per-structure slices','src/lib.rs next_raw RawStructure'),('decode errors do not move the iterator','src/lib.rs Structures::next')],['Structures::next'])
p('C10','Every string reference resolves to exactly the string it numbers',
 "In every decoded structure a string field whose number is n (n > 0) is the n-th string of that structure's own string-set, byte for byte, and number 0 is the empty string. A number beyond the string-set, or of a string that is not valid text, is reported as an invalid string index with the structure's type, its handle and that number, or as an absent value where the field is optional by content.",
 ['inputs'],'All string fields of all structure types, all numbers 0..255, all string-sets including non-ASCII, invalid and more than 255 strings.',
 'Tests use in-order string numbers in well-formed string-sets; permuted, repeated, zero and out-of-range numbers in each of the about 50 string fields are not covered.',
 [L,S],[('find_string','src/lib.rs RawStructure::find_string'),('string fields','src/structures/*.rs')],['decoded string fields','MalformedStructureError::InvalidStringIndex'])
p('C11','String lists contain every string of the structure, in order',
 "OEM strings, system configuration options and installable BIOS languages iterate over the strings of the structure's string-set in their order from the first one, each exactly once and unaltered, up to the end of the set or the first string that is not valid text. Configuration options are only accepted when the declared count equals the number of strings listed, and otherwise report that count as an invalid string index.",
 ['inputs','histories'],'All string-sets (0 to more than 255 strings, any bytes), all declared counts, partial and repeated iteration on copies.',
 'Tests list one or two short well-formed string-sets with the right count.',
 [L,S+'011_oem_strings.rs',S+'012_system_configuration_options.rs',S+'013_bios_language.rs'],[('StructureStrings::next','src/lib.rs'),('count check','012_system_configuration_options.rs'),('InstallableLanguages::next','013_bios_language.rs')],['OemStrings, SystemConfigurationOptions, BiosLanguage iterators'])
p('C12','A field is only reported for versions that define it',
 "For structures whose layout depends on the version, a field introduced by a later version is absent under every older version, whatever bytes lie at its place, and is present under that version and all later ones when the structure is long enough. Versions compare by major number first and then by minor number. Structure types that have no layout under a version go by their length alone.",
 ['inputs','configurations'],'All 65,536 versions, all structure types, all structure contents.',
 'Tests decode each structure under the one or two versions of their dumps; the thresholds themselves (the version before, the version, the next major) are not tested.',
 [L,S],[('version comparisons','000_bios.rs, 001_system.rs, 004_processor.rs, 007_cache.rs, 013_bios_language.rs, 016_physical_memory_array.rs')],['optional fields'])
p('C13','The formatted length decides which fields exist and which structures pass',
 "A field is reported only if all of its bytes lie inside the formatted section, and a longer section with bytes the decoder does not know yields the same known fields. A section that is shorter than the smallest layout, or differs from the exact length a version prescribes where one is prescribed, is rejected with a length or missing-bytes error, length errors naming the structure's type and handle and a length that the layout really requires and this structure does not have; every length the version permits is accepted.",
 ['inputs'],'All structure types, all formatted lengths 4..255, all versions.',
 'Tests use one length per structure; the boundary lengths around each field, where values silently come from the string-set, are not tested.',
 [L,S],[('length checks','src/structures/*.rs try_from; src/lib.rs get, ensure_data_len')],['optional fields','MalformedStructureError::InvalidFormattedSectionLength'])
p('C14','Every numeric field is the little-endian value at its standard offset',
 "Each number, handle, address, identifier and UUID in a decoded structure equals the little-endian value of the bytes at the offset the standard defines for it, in full width and with no bit changed. UUIDs follow the byte order their version prescribes.",
 ['inputs'],'All structure types and all field values, for every byte and bit of every field.',
 'Test data has many equal or zero bytes, so swapped neighbours, wrong widths and wrong endianness survive; each field is checked for one value.',
 [S],[('packed layouts and get::<T>(offset)','src/structures/*.rs')],['decoded numeric fields'])
p('C15','Reserved "unknown" values become absent and extended fields take over exactly',
 "Where the standard reserves a value to mean unknown or not provided, exactly that value is reported as absent and every other value is reported unchanged. Where it reserves a value to mean that a wider field holds the data (processor family and core counts, array capacity, battery date, serial and chemistry), the wider field is used exactly for that value and never otherwise.",
 ['inputs'],'All field values including both neighbours of each reserved value, all combinations of the basic and the extended field, all versions and lengths.',
 'Tests contain at most one side of each rule.',
 [S],[('sentinel filters','016_physical_memory_array.rs, 017_memory_device.rs, 009_system_slots.rs, 018_memory_error_32.rs, 019, 020, 022'),('extended selection','004_processor.rs, 016, 022')],['optional fields'])
p('C16','Every enumerated code maps to its documented meaning, unknown codes are kept',
 "For every enumerated field each defined code decodes to the one meaning the standard assigns to it, independent of the structure it appears in. Every other code is reported as undefined, available or vendor-specific together with its original value, so distinct undefined codes never collapse into one.",
 ['inputs'],'All 256 codes of each 8-bit enumeration and all 65,536 of each 16-bit one, in about 45 enumerations.',
 'Tests touch a handful of codes per enumeration; a swapped or missing arm is invisible.',
 [L,S],[('From<u8>/From<u16> tables','src/lib.rs InfoType; src/structures/*.rs')],['decoded enum fields','From conversions'])
p('C17','Values render as the text the standard gives for them',
 "The text form of every enumerated value, flag, revision, date, serial number, access method and contained element is the documented text for that value, in normal and alternate form. An undefined code renders with its number.",
 ['inputs'],'All values of all types with a text form, both forms.',
 'Tests render a few values.',
 [L,'src/bitfield.rs',S],[('Display impls','src/lib.rs; src/structures/*.rs')],['Display output'])
p('C18','Bit-field views report every flag of the value, named and grouped right',
 "A view over a bit-field yields one flag per bit of its width in ascending position, each set exactly when that bit of the raw value is set and carrying that position's own short and long description; the significant view is exactly the set, non-reserved flags. The reserved view is exactly the maximal runs of equally described reserved positions, and collecting positions back gives the value with exactly those bits.",
 ['inputs','programs'],'All values of all bit-fields of the library, all layouts a user of the view can define, all partial iterations.',
 'Tests check a few values of three layouts.',
 ['src/bitfield.rs',S],[('Iter, Significants, Reserved, FromIterator','src/bitfield.rs'),('layouts','src/structures/000_bios.rs, 009, 013, 015')],['BitField iterators'])
p('C19','Flag words keep exactly the defined bits',
 "Flag sets (board features, processor status and characteristics, cache SRAM types, memory type details and operating modes) contain exactly those defined flags whose bits are set in the field's word. Undefined bits are dropped and have no influence on the defined ones, and each named flag stands for exactly the bits the standard gives it.",
 ['inputs'],'All 256 or 65,536 values of each flag word.',
 'Tests check one or two values of each word.',
 [S],[('bitflags and from_bits_truncate','002_baseboard.rs, 004_processor.rs, 007_cache.rs, 017_memory_device.rs')],['decoded flag fields'])
p('C20','Record lists inside a structure have the right records and nothing else',
 "Contained elements, group members, event log type descriptors and slot peer groups list exactly the records the structure's own counts and sizes delimit, in order, each from its own bytes. When those counts do not fit the formatted section the list is absent or the structure is rejected, and no record ever uses bytes outside the list; event log descriptors of a size other than two bytes are not listed.",
 ['inputs','histories'],'All counts, record sizes and section lengths, partial and repeated iteration on copies.',
 'Tests have one list of each kind with the common record size.',
 [S+'003_enclosure.rs',S+'009_system_slots.rs',S+'014_group_associations.rs',S+'015_system_event_log/'],[('ContainedElements','003_enclosure.rs'),('peer devices','009_system_slots.rs'),('GroupItems','014_group_associations.rs'),('SupportedEventLogTypeDescriptors','015_system_event_log/mod.rs')],['list iterators'])
p('C21','Derived quantities equal the documented formula for every raw value',
 "BIOS ROM sizes, cache sizes, battery capacities, processor voltages, cache configuration parts, manufacture dates and slot bus addresses computed by the library equal the standard's formula over the raw fields. No value in the fields' range overflows, saturates or loses precision.",
 ['inputs'],'All raw values of the fields involved.',
 'Tests compute a few small values; overflow and unit boundaries are not reached.',
 [S+'000_bios.rs',S+'004_processor.rs',S+'007_cache.rs',S+'009_system_slots.rs',S+'022_portable_battery.rs'],[('conversions','From<RomSize>, CacheSize::bytes, From<DesignCapacity>, Voltage, CacheConfiguration, ManufactureDate')],['From/bytes results'])
p('C22','Conversions back to raw codes return what was decoded',
 "Where a decoded value can be turned back into its raw form (event log types, variable data formats, log type descriptors, access method addresses, slot device and function numbers, peer devices), converting any raw value and back gives the original raw value, except for the bytes an access method defines as unused, which come back as zero.",
 ['inputs'],'All raw values of the convertible types.',
 'Tests convert a few values one way.',
 [S+'015_system_event_log/','src/bitfield.rs'],[('From both ways','015_system_event_log/mod.rs, log_record_format.rs'),('FromIterator<Position>','src/bitfield.rs')],['conversions'])
p('C23','The type byte alone selects the decoder; other types stay raw and complete',
 "Each of the 20 supported type codes is decoded as its own structure kind and no other code is. Every other structure is handed out raw with its type code, version, declared length, handle and complete formatted section.",
 ['inputs'],'All 256 type codes with all contents and versions.',
 'Tests decode supported types only.',
 [L],[('InfoType and dispatch','src/lib.rs InfoType::from, Structures::next')],['Structures::next'])
p('C24','Raw structure accessors return exactly the addressed bytes or an error',
 "On a raw structure, reading a number or a slice at an offset counted from the start of the structure returns exactly those bytes when they lie completely inside the formatted section and an error or nothing otherwise, including offsets inside the header and at the largest representable values. Reading a string at an offset resolves the number stored there.",
 ['inputs'],'All offsets and sizes, all widths, all structure lengths and string numbers.',
 'Accessors are only used indirectly by tests with valid offsets.',
 [L],[('get, get_slice, get_string, find_string','src/lib.rs RawStructure')],['RawStructure methods'])
p('C25','Equality, hash and copies follow the content of decoded values',
 "Decoding the same bytes under the same version twice, at the same or different addresses, gives equal values with equal hashes, and values whose reported fields differ are not equal. A copy of an iterator or of a decoded value continues independently and yields what the original would have.",
 ['inputs','histories'],'All pairs of tables, all points at which an iterator is copied.',
 'Tests compare each value with a hand-written one only; hand-written comparison and hash code of the list types is not covered.',
 [L,S],[('derived and hand-written Eq/Hash/Clone','003_enclosure.rs ContainedElements, 015_system_event_log SupportedEventLogTypeDescriptors')],['PartialEq, Hash, Clone'])
p('C26','Error messages state the structure, offset and values of the error',
 "The text of every error contains its documented message with the offset, length, structure kind, handle, string number or version the error carries. Errors that wrap a cause expose it as their source and others have none.",
 ['inputs'],'All error values.',
 'No test renders an error.',
 [L],[('Display and source of the error types','src/lib.rs')],['Display, Error::source'])
p('C27','Results do not depend on build settings',
 "With and without the standard library feature, and with and without optimisation and overflow checks, the same input gives the same entry point, the same structures, the same errors and the same texts.",
 ['configurations','inputs'],'The feature and profile combinations of the crate, all inputs.',
 'The tests run in one configuration with overflow checks on.',
 ALL,[('no_std core only; cfg(feature)','src/lib.rs'),('arithmetic without wrap-around','src/**')],['all results in each build'])
p('C28','However a sequence is gone through, it yields the same items',
 "For every iterator of the library (structure tables, string lists, record lists, bit-field views) skipping, taking, stepping, counting, folding and asking for the last item give what repeated single steps would give, from any point on, and the announced bounds hold the true number of items left. A table has exactly as many items as it has structures up to its end or its first misfit.",
 ['inputs','histories','programs'],'All tables and lists, all programs of iterator operations on them and on copies.',
 'Tests only use plain loops and nth on fixed data; other ways of consuming an iterator rely on the same hidden cursor state.',
 [L,'src/bitfield.rs',S],[('Iterator impls','src/lib.rs Structures, StructureStrings; src/bitfield.rs; 003, 009, 013, 014, 015')],['Iterator methods'],[('cursor','what has been handed out','all iterator types')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
