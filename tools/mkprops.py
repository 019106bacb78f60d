import json
P=[]
def p(id,title,st,over,q,why,files,mech,obs=None):
    mechs=[{"name":n,"where":w} for n,w in mech]
    d={"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":mechs,"observe_at":obs or [],"hook_needed":None}}
    assert len(title)<=80,(id,len(title))
    P.append(d)
IMG="All 15 tests read one well-formed 2 MiB image (testdata/testfs1) plus a few constants; "
p("N01","Boot sector: opened exactly when valid, with the geometry it encodes",
 "Opening a volume succeeds exactly when its 512-byte boot sector carries the 0x55AA signature and a supported geometry (sector size a power of two in 512..=4096; sectors per cluster a power of two up to 128 or a negated exponent up to 12; cluster size 512..=2 MiB; record size a positive cluster count or 2^10..=2^12; non-zero MFT cluster; no 64-bit overflow). When it succeeds, cluster size, sector size, file record size, volume size, MFT position and serial number equal the values the boot sector encodes under the NTFS rules. No boot sector makes opening panic.",
 ["inputs"],"every 512-byte boot sector",IMG+"one boot sector out of 2^4096.",
 ["src/boot_sector.rs","src/ntfs.rs"],[("validation and size decoding of the BIOS parameter block","src/boot_sector.rs BiosParameterBlock"),("Ntfs::new","src/ntfs.rs")],["Ntfs::new and the Ntfs getters"])
p("N02","Torn or corrupt sectors never surface: update-sequence protection",
 "A record (FILE or INDX) is handed out only if every 512-byte sector covered by its update sequence array ends in the update sequence number; then every covered sector's last two bytes are the array's bytes for that sector and all other bytes are those on disk. Otherwise an error is returned. No record header makes this panic or read outside the record.",
 ["inputs","crash_points"],"every record content (update sequence offset, count, number, array and all sector tails), i.e. every torn multi-sector write",IMG+"no torn sector is ever presented.",
 ["src/record.rs","src/file.rs","src/index_record.rs"],[("fixup","src/record.rs Record::fixup"),("validation after fixup","src/file.rs validate_sizes")],["Ntfs::file, NtfsIndexAllocation::record_from_vcn"])
p("N03","File lookup: record N comes from where the MFT's data runs put it",
 "Asking for file record N returns the record whose bytes lie at offset N times the record size of the MFT's own data stream, however that stream is fragmented, together with the record number asked for and header fields (sequence number, link count, flags, sizes) equal to those bytes. The MFT's data stream is what the MFT's first record describes. A number whose offset lies outside every MFT extent, in a hole, or overflows yields an error, never a different record. Records without the FILE signature or with inconsistent sizes are rejected.",
 ["inputs","configurations"],"every record number, every layout of up to 3 MFT extents, and every record header",IMG+"its MFT is a single contiguous run and only low record numbers are used.",
 ["src/ntfs.rs","src/file.rs"],[("Ntfs::file","src/ntfs.rs"),("NtfsFile::new","src/file.rs")],["Ntfs::file, NtfsFile getters"])
p("N04","Raw attribute walk reports exactly the attributes stored in the record",
 "Walking a file record's attributes yields, in order and with exact type, length, flags, instance, name, residency and value length, every attribute from the first-attribute offset up to the end marker (or the end of the record), and then stops for good. A malformed attribute ends the walk with an error; nothing outside the record is ever read as an attribute and the walk always makes progress. No record content makes the walk or the accessors panic.",
 ["inputs"],"every content of a file record, from every starting offset",IMG+"only well-formed attributes occur.",
 ["src/attribute.rs"],[("NtfsAttributesRaw::next","src/attribute.rs"),("validate_attribute_length","src/attribute.rs")],["NtfsFile::attributes_raw, NtfsAttribute getters"])
p("N05","Resident values read and seek like a flat byte array",
 "For every sequence of reads and seeks, a resident value behaves as a cursor over the value's bytes in the record: reads return exactly the next bytes, reads at or past the end return zero bytes, seeks land where asked or fail without moving. The reported length equals the stored value length. No operation panics.",
 ["inputs","histories"],"every value placement in the record, every seek target (all 64-bit offsets, all three origins) and every read length within the bound, in sequences",IMG+"one 5-byte value with a handful of seeks.",
 ["src/attribute_value/resident.rs","src/attribute_value/mod.rs"],[("read/seek","src/attribute_value/resident.rs"),("seek_contiguous","src/attribute_value/mod.rs")],["NtfsAttributeValue::{read,seek,stream_position,len}"])
p("N06","Data runs decode to the extents the mapping pairs encode",
 "Decoding a non-resident attribute's mapping pairs yields exactly the extents they encode: unsigned lengths times the cluster size, start clusters accumulated from signed relative offsets, holes for pairs without an offset, in order, ending at the terminator. Malformed pairs (bad sizes, truncated fields, overflowing clusters) end the sequence with an error. No mapping-pair bytes make decoding panic, loop or read past the attribute.",
 ["inputs"],"every mapping-pair byte string up to the length bound, every cluster size in the bound",IMG+"only a few run shapes occur.",
 ["src/attribute_value/non_resident.rs","src/types.rs"],[("NtfsDataRuns::next","src/attribute_value/non_resident.rs"),("Lcn::checked_add","src/types.rs")],["NtfsNonResidentAttributeValue::data_runs"])
p("N07","Non-resident reads return the file's bytes: data, holes as zeros, never past end",
 "Reading a non-resident value from any position returns exactly the bytes of the file: bytes of the mapped clusters for allocated extents, zeros for holes, and never a byte at or beyond the value's data size. A read that crosses extents continues seamlessly; reads at or past the end return zero bytes and change nothing.",
 ["inputs","histories","configurations"],"every run list of up to 3 extents (allocated or hole, any cluster), every data size, every position and read length within the bound",IMG+"two non-resident files, read from the start.",
 ["src/attribute_value/non_resident.rs"],[("NtfsNonResidentAttributeValue::read","src/attribute_value/non_resident.rs"),("NtfsDataRun::read","src/attribute_value/non_resident.rs")],["NtfsAttributeValue::read"])
p("N08","Non-resident seeks land exactly where asked, from any position",
 "After any sequence of seeks a non-resident value's stream position equals the requested position, a following read returns the bytes stored there, and seeks to negative or overflowing positions fail and leave the position unchanged. Seeks past the end are allowed and then read zero bytes. No seek panics.",
 ["inputs","histories"],"every run list within the bound, every pair of consecutive seeks (any origin, any 64-bit offset)",IMG+"seeks from the start only.",
 ["src/attribute_value/non_resident.rs"],[("seek, optimize_seek, seek_data_run","src/attribute_value/non_resident.rs")],["NtfsAttributeValue::{seek,read,stream_position}"])
p("N09","Attribute lists are followed: the flattened view is complete and duplicate-free",
 "For a file whose attributes are spread over several records, the flattened attribute view yields each attribute described by the base record and its attribute list exactly once, from the record and instance the list names, and merges the parts of a split value into one item. Lists that reference missing records or attributes yield an error rather than dropping or inventing an attribute.",
 ["inputs","configurations"],"every attribute list of up to 4 entries over base and extension records (types, instances, record numbers symbolic)",IMG+"no file in it has an attribute list.",
 ["src/attribute.rs","src/structured_values/attribute_list.rs"],[("NtfsAttributes::next","src/attribute.rs"),("NtfsAttributeListEntry::to_attribute","src/structured_values/attribute_list.rs")],["NtfsFile::attributes"])
p("N10","A value split over several records reads and seeks as one contiguous value",
 "A value whose extents are split over several attributes in several records reads and seeks exactly like the concatenation of those extents, up to the total data size. If a part cannot be loaded, an error is reported and no read ever returns bytes from a wrong position.",
 ["inputs","histories","fault_sequences"],"every split of up to 3 parts, every seek and read position within the bound, every single I/O fault",IMG+"no file in it has an attribute list.",
 ["src/attribute_value/attribute_list_non_resident.rs"],[("read/seek over connected attributes","src/attribute_value/attribute_list_non_resident.rs")],["NtfsAttributeValue::{read,seek}"])
p("N11","Attribute list entries parse exactly; malformed lists give errors",
 "Iterating an attribute list, resident or not, yields each entry with exactly the type, length, name, lowest cluster, record reference and instance stored, and ends exactly at the end of the list. An entry that does not fit its declared length or the list is reported as an error, never silently dropped. No list content makes the iteration panic or run forever.",
 ["inputs"],"every attribute list content up to the length bound, resident and non-resident",IMG+"no attribute list occurs in it.",
 ["src/structured_values/attribute_list.rs"],[("NtfsAttributeListEntries::next","src/structured_values/attribute_list.rs")],["NtfsAttributeList::entries"])
p("N12","Index node entries parse exactly and stay inside their node",
 "Iterating the entries of an index node yields entries in stored order with exactly the stored length, flags, file reference, key bytes and subnode number, stops at the entry flagged last, and never reads outside the node's used area. Malformed lengths yield an error. No node content makes the iteration panic or stand still.",
 ["inputs"],"every content of an index root or index record up to the bound",IMG+"only well-formed nodes occur.",
 ["src/index_entry.rs","src/index_record.rs","src/structured_values/index_root.rs"],[("NtfsIndexNodeEntries/IndexNodeEntryRanges","src/index_entry.rs"),("validate_sizes","src/index_record.rs, src/structured_values/index_root.rs")],["NtfsIndexRoot::entries, NtfsIndexRecord::entries, NtfsIndexEntry getters"])
p("N13","Directory listing visits every entry exactly once, in tree order",
 "Listing an index yields every entry of its B-tree that carries a key exactly once, in in-order (sorted) sequence, whatever the tree's shape, and then ends. If a node cannot be read or is invalid, an error is reported at that point. Listing up to its end or its first error always terminates.",
 ["inputs","configurations"],"every tree shape within the bound (root of up to 3 entries, subnodes up to depth 3, any subset of entries with subnodes)",IMG+"two directories, both two-level at most.",
 ["src/index.rs"],[("NtfsIndexEntries::next","src/index.rs")],["NtfsIndex::entries"])
p("N14","Index search finds a name exactly when it is present",
 "On an index sorted by its collation, searching for a name returns an entry whose key equals the name case-insensitively if there is one, and nothing otherwise, whatever the tree's shape. A search agrees with a full listing. The same finder can be reused with the same results.",
 ["inputs","configurations","histories"],"every sorted tree within the bound, every stored key and every searched name (short names, any characters), any upcase table",IMG+"only present names of one directory are searched.",
 ["src/index.rs","src/indexes/file_name.rs"],[("NtfsIndexFinder::find","src/index.rs"),("NtfsFileNameIndex::find","src/indexes/file_name.rs")],["NtfsFileNameIndex::find"])
p("N15","An index node is accepted only as the node it claims to be",
 "Fetching the index record for a virtual cluster number returns the record stored at that cluster of the index allocation, and only if it has the INDX signature, passes sector protection, declares that same cluster number, and has sizes that fit; otherwise an error. No record content or requested number makes this panic or allocate more than the index's record size.",
 ["inputs"],"every requested number, every record header, every declared index record size within the bound",IMG+"only valid index records occur.",
 ["src/structured_values/index_allocation.rs","src/index_record.rs"],[("record_from_vcn","src/structured_values/index_allocation.rs"),("NtfsIndexRecord::new","src/index_record.rs")],["NtfsIndexAllocation::record_from_vcn, records"])
p("N16","Case-insensitive name order is a total order for every upcase table",
 "Comparing two names case-insensitively gives the order of their upcased UTF-16 code units, a shorter prefix first; it is antisymmetric, transitive and consistent between UTF-16 and UTF-8 spellings of the same name. Two names compare equal exactly when their upcased code units are identical.",
 ["inputs","configurations"],"every upcase table and every triple of names up to the length bound, including unpaired surrogates and supplementary characters",IMG+"one upcase table and ASCII names.",
 ["src/upcase_table.rs"],[("UpcaseOrd","src/upcase_table.rs")],["UpcaseOrd::upcase_cmp"])
p("N17","The upcase table is loaded verbatim or not at all",
 "Loading the upcase table succeeds only for a table of exactly 65536 UTF-16 code units and then maps every code unit to exactly the value stored at its position. Any other size or a read failure gives an error and leaves the volume usable.",
 ["inputs","fault_sequences"],"every table content, every declared size, every single read fault",IMG+"26 letters of one table are checked.",
 ["src/upcase_table.rs"],[("UpcaseTable::read","src/upcase_table.rs")],["Ntfs::read_upcase_table + comparisons"])
p("N18","File names parse exactly, from attributes and from index keys",
 "A file name attribute or index key is accepted exactly when its size, name length and namespace are consistent, and then parent reference, four timestamps, sizes, attributes, namespace and name equal the stored bytes. Otherwise an error naming the problem is returned. No content panics.",
 ["inputs"],"every value content and length up to the bound, via the attribute and via the index key path",IMG+"a few file names.",
 ["src/structured_values/file_name.rs"],[("NtfsFileName::new","src/structured_values/file_name.rs")],["NtfsAttribute::structured_value, NtfsIndexEntry::key"])
p("N19","Standard information, object id, volume information and label parse exactly",
 "The fixed-layout attribute values (standard information in both sizes, object id with 16 to 64 bytes, volume information, volume name) are accepted exactly when long enough (and not too long for a label), every reported field equals the stored bytes, and optional fields are present exactly when stored. Otherwise an error naming the right attribute is returned; no content panics.",
 ["inputs"],"every value content and every value length up to the bound",IMG+"one instance of each.",
 ["src/structured_values/standard_information.rs","src/structured_values/object_id.rs","src/structured_values/volume_information.rs","src/structured_values/volume_name.rs"],[("from_resident_attribute_value / new","src/structured_values/*.rs")],["NtfsAttribute::resident_structured_value"])
p("N20","Timestamps convert exactly in both directions",
 "Every 64-bit NTFS timestamp converts to a calendar time and back unchanged, denotes the instant that many 100-nanosecond intervals after 1601-01-01 UTC, and keeps its order. Converting a calendar time, or a system time from 1970 on, to an NTFS timestamp yields that instant rounded towards the epoch by less than one interval, or an error if it is not representable. No conversion panics.",
 ["inputs"],"every 64-bit timestamp; every calendar time and every system time representable",IMG+"three dates.",
 ["src/time.rs"],[("From/TryFrom","src/time.rs")],["NtfsTime conversions"])
p("N21","GUIDs print in the canonical 8-4-4-4-12 hexadecimal form",
 "Printing any GUID yields exactly 36 characters: uppercase zero-padded hexadecimal groups of 8, 4, 4, 4 and 12 digits separated by hyphens, from which the GUID can be read back. Object identifiers print the stored bytes.",
 ["inputs"],"every 128-bit GUID","One GUID without leading zeros in any field is tested.",
 ["src/guid.rs"],[("Display for NtfsGuid","src/guid.rs")],["NtfsGuid::to_string"])
p("N22","I/O faults surface as errors and never corrupt what is read",
 "When the underlying reader returns short reads, interrupted reads, end of file or errors in any order, every value read reports exactly the file's bytes or an error, never wrong or missing bytes counted as read. After an error, continuing or retrying from the reported position returns correct data. A reader error is passed on to the caller, not swallowed and not turned into a panic.",
 ["fault_sequences","inputs"],"every sequence of up to 3 faults (short, empty, interrupted, error) on the reader's calls during a read of a multi-extent value",IMG+"an in-memory reader that never fails.",
 ["src/attribute_value/non_resident.rs","src/traits.rs","src/file.rs"],[("NtfsDataRun::read","src/attribute_value/non_resident.rs"),("read_exact","src/traits.rs")],["NtfsReadSeek::read/read_exact, Ntfs::new, Ntfs::file"])
p("N23","Library errors convert faithfully to standard I/O errors",
 "Every error of the library converts into a standard I/O error: an underlying I/O error keeps its kind, every other error becomes one of kind Other which carries the library's error, and the conversion never panics. Reads through a standard-reader adapter report the same bytes and errors as the direct interface.",
 ["inputs"],"every error kind and every adapter operation within the bound","No test exercises the conversion or the adapter's error path.",
 ["src/error.rs","src/attribute_value/mod.rs"],[("From<NtfsError> for io::Error","src/error.rs"),("NtfsAttributeValueAttached","src/attribute_value/mod.rs")],["NtfsAttributeValue::attach, io::Error::from"])
p("N24","Cluster arithmetic is exact or refused",
 "Adding a signed cluster delta to a cluster number and converting cluster numbers to byte positions give the exact mathematical result, or are refused when it does not fit; they never wrap around and never panic.",
 ["inputs"],"all 2^64 cluster numbers, all 2^64 deltas, all cluster sizes",  "No test touches the boundaries.",
 ["src/types.rs"],[("Lcn::checked_add, Lcn::position, Vcn::offset","src/types.rs")],["Lcn, Vcn methods"])
p("N25","File references split into 48-bit record number and 16-bit sequence number",
 "A file reference stored in an index entry, file name or attribute list reports its low 48 bits as record number and its high 16 bits as sequence number, and resolving it opens exactly that record number.",
 ["inputs"],"all 2^64 references",IMG+"no reference with bits above 32 occurs.",
 ["src/file_reference.rs"],[("NtfsFileReference","src/file_reference.rs")],["NtfsIndexEntry::file_reference, to_file"])
p("N26","Streams, names and directory indexes are selected by what was asked for",
 "Asking a file for a data stream, a file name in a namespace and parent, its standard information or its directory index returns the first stored attribute that matches all the criteria, with the unnamed stream chosen only for the empty name, and reports absence when none matches. A file that is not a directory never yields a directory index, and only the index named $I30 is used.",
 ["inputs","configurations"],"every record of up to 3 attributes with symbolic types, names, namespaces, parents and flags",IMG+"files with one stream and one name each.",
 ["src/file.rs"],[("data, name, info, directory_index, find_attribute","src/file.rs")],["NtfsFile::{data,name,info,directory_index}"])
p("N27","Volume label and version are those stored in the volume's own record",
 "The volume information and label come from record 3 of the MFT; the label is reported absent exactly when the record has no such attribute, and errors are passed on.",
 ["inputs","fault_sequences"],"every content of record 3's attributes within the bound",IMG+"one label.",
 ["src/ntfs.rs","src/structured_values/volume_name.rs","src/structured_values/volume_information.rs"],[("volume_info, volume_name","src/ntfs.rs")],["Ntfs::{volume_info,volume_name}"])
p("N28","Reported byte positions are where the bytes really are",
 "Whenever a value, attribute, entry or record reports a byte position on the volume, the bytes it describes are stored at exactly that position; where no byte is stored (holes, past the end of the extents) it reports no position; only at the very end of a value the position just after its last byte may be reported.",
 ["inputs","histories"],"every placement within the bounds, after every sequence of reads and seeks within the bounds",IMG+"positions are compared only with each other, never with the bytes on the volume.",
 ["src/attribute_value/resident.rs","src/attribute_value/non_resident.rs","src/attribute.rs","src/index_entry.rs","src/types.rs"],[("data_position/position","src/attribute_value/*.rs, src/types.rs")],["data_position(), position()"])
p("N29","The sector reader shows the same bytes using only aligned accesses",
 "Through the sector reader, every seek and read returns exactly the bytes the underlying reader holds at that position and fails only when the underlying reader fails or the range does not exist; the underlying reader is only ever accessed at sector-aligned positions in whole sectors (it is assumed to return whole sectors, and seeking from the end is not supported). Position arithmetic never panics.",
 ["inputs","histories"],"every position and length within the bound, in sequences of seeks and reads, for power-of-two sector sizes","It has no tests.",
 ["examples/ntfs-shell/sector_reader.rs"],[("SectorReader::read/seek","examples/ntfs-shell/sector_reader.rs")],["SectorReader as Read + Seek"])
p("N30","No volume content crashes a whole read-out",
 "Opening a file record with arbitrary content and reading out everything it offers (attributes, names, values, structured values, index entries, attribute list) ends with data or errors: it never panics, never overflows, never accesses memory out of bounds and never allocates more than the volume's own record sizes call for.",
 ["inputs"],"every content of a whole small file record, through the complete public read path",IMG+"no corrupt image is ever read.",
 ["src/file.rs","src/attribute.rs","src/attribute_value/mod.rs","src/structured_values/mod.rs","src/index_entry.rs"],[("bounds validation throughout","src/**")],["the whole public API"])
p("N31","Values share a reader without disturbing each other",
 "Reading several values, files and indexes through one reader in any interleaving returns for each exactly what it returns alone: results never depend on where the reader was left by earlier operations.",
 ["histories","schedules"],"every interleaving of up to 4 operations on two values over one reader, with the reader left at any position",IMG+"operations are run one after another on a fresh reader.",
 ["src/attribute_value/non_resident.rs","src/file.rs","src/ntfs.rs"],[("absolute seek before every read","src/attribute_value/non_resident.rs NtfsDataRun::read, src/file.rs NtfsFile::new")],["NtfsReadSeek"])
p("N32","Opening, record and attribute failures are reported as the error that occurred",
 "A truncated volume, record or value is reported as an I/O or size error carrying the position, type and sizes that are really involved; parsing failures never turn into panics or misattributed errors.",
 ["inputs","fault_sequences"],"every truncation length of the boot sector, records and structured values",IMG+"no truncated input is presented.",
 ["src/error.rs","src/ntfs.rs","src/structured_values/index_root.rs","src/structured_values/volume_information.rs"],[("From<binrw::Error> for NtfsError","src/error.rs")],["NtfsError values"])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
