#!/usr/bin/env python3
# Generates properties.jsonl (kept as a script so that the text stays readable).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        observe_at=observe,hook_needed=None)))

p("C01","The archive read out is byte for byte the zip of the entries in order",
 "Reading a reader from start to end yields exactly the Zip64 store-only archive of the entries in the order they were added: for each entry a local header, name, zip64 extra field, the data of its source and a data descriptor, then one central directory header per entry and the zip64 end records. Every field (signatures, versions, flags, timestamps, CRC, sizes, name lengths, header offsets, entry counts, directory size and offset, attributes) has the value that entry and position require. This holds for any number of entries, any UTF-8 names, any data sizes (including empty) and any metadata.",
 ["inputs","configurations"],"every list of entries the builder admits, with sources that deliver what they declare",
 "The tests compare a sampled set of generated entry lists through an independent unzipper, which ignores many fields (local header fields, descriptor sizes, zip64 offsets of entries beyond the sampled sizes); no test covers every field for every entry list.",
 ["src/reader.rs","src/structs.rs","src/builder.rs"],
 [("chunk sequence and header construction","reader.rs ReadState::read, read_local_header, read_entry_data, read_data_descriptor, read_cd_file_header, read_eocd, Chunk::next/size"),
  ("byte layout of the structures","structs.rs packed structs"),
  ("offset computation","builder.rs Builder::build")],
 ["bytes returned by reading the Reader (AsyncRead)"],
 [("current_chunk","cursor over the structural blocks","reader.rs ReadState"),("offset","offset of local header of an entry","reader.rs ReaderEntry")])

p("C02","The size announced up front is exactly the number of bytes delivered",
 "The builder's size, at any moment, equals the size of the reader that would be built at that moment, and the reader's size equals the number of bytes a full read delivers. This holds after any sequence of additions (accepted or refused), metadata changes and removals of entries, and never overflows or wraps.",
 ["inputs","histories"],"every builder history and every entry list whose sources deliver what they declare",
 "Tests check the equality for sampled small builders only; the announced size must be exact for every list, since it becomes the HTTP Content-Length.",
 ["src/builder.rs","src/reader.rs"],
 [("running total","builder.rs Builder::add_entry, Builder::size"),("size derivation","builder.rs Builder::build, local_header_size, cd_header_size, eocd_size"),("chunk sizes","reader.rs Chunk::size")],
 ["Builder::size, Reader::size, number of bytes read"],
 [("total_size","running total of archive size","builder.rs Builder")])

p("C03","Seeking anywhere and reading gives the same bytes as a sequential read",
 "After seeking to any offset by any seek operation (from start, current or end; pinned or not; at any time, including in the middle of a pending read), the reported position is that offset and reading continues with exactly the bytes a sequential read has from that offset. Seeking at or past the end is allowed and gives end of file, and a seek to before the start fails with an InvalidInput error and leaves position and subsequent data as they were.",
 ["inputs","histories","schedules"],"all entry lists, all sequences of seeks and reads at all offsets",
 "The tests seek to a handful of sampled offsets in sampled archives; the chunk lookup, skip bookkeeping and staging interact differently for each offset and history.",
 ["src/reader.rs","src/crc_reader.rs"],
 [("offset to chunk translation","reader.rs ReadState::seek_from_start"),("skip inside chunks","reader.rs read_packed_struct, read_str, read_from_staging, read_entry_data"),("seek entry points","reader.rs Reader::seek_from_start_mut, seek_from_start_pinned, AsyncSeek for Reader")],
 ["AsyncSeek/AsyncRead on Reader, Reader::tell"],
 [("to_skip","bytes still to be skipped","reader.rs ReadState"),("position","reported position","reader.rs ReadState")])

p("C04","Output and position do not depend on read sizes or on readiness of sources",
 "The concatenation of the bytes delivered by any sequence of reads is the same whatever the buffer sizes and whenever sources report not-ready or deliver short reads, and after every read the reported position has advanced by exactly the number of bytes delivered. A read into a non-empty buffer that completes with no bytes happens only at the end of the archive, and a read reports not-ready only when it delivered nothing and a source reported not-ready in that call.",
 ["schedules","inputs"],"all sequences of buffer sizes, all readiness and short-read schedules of the sources",
 "Tests use a few fixed buffer sizes and sources that are nearly always ready; not-ready in the middle of a call that has already delivered bytes is not exercised.",
 ["src/reader.rs","src/crc_reader.rs"],
 [("main read loop","reader.rs ReadState::read"),("staging of structures that do not fit","reader.rs read_packed_struct, read_str, read_from_staging")],
 ["AsyncRead on Reader, Reader::tell"],
 [("staging_buffer","bytes produced but not delivered","reader.rs ReadState"),("position","bytes delivered so far","reader.rs ReadState")])

p("C05","Every CRC-32 written or reported is that of the entry's data",
 "For an entry without a supplied CRC, the CRC in its data descriptor, in its central directory header and in the list of computed CRCs is the CRC-32 of its complete data, whether it was obtained while delivering the data, while skipping over it or by a separate pass, and after any history of seeks and partial reads. A supplied CRC is written as given, and the list of CRCs reports for each entry only such a value, under that entry's name, in entry order.",
 ["inputs","histories","schedules"],"all entry lists, all histories of seeks and reads, all short-read and readiness schedules",
 "Tests cover a few seek targets; whether a partially read or partially skipped entry gets a wrong cached CRC depends on the history.",
 ["src/crc_reader.rs","src/reader.rs"],
 [("hash of what passes through","crc_reader.rs CrcReader"),("separate CRC pass","reader.rs ReaderEntry::get_crc"),("skip by reading when CRC unknown","reader.rs ReadState::read_entry_data"),("CRC listing","reader.rs Reader::crc32s")],
 ["descriptor and central directory bytes, Reader::crc32s"],
 [("crc32","known CRC of entry","reader.rs ReaderEntry"),("did_seek","hash no longer covers the whole data","crc_reader.rs CrcReader")])

p("C06","Sequential reading never accepts a wrong declared size or supplied CRC",
 "When an entry with non-zero declared size is read sequentially from its beginning to its end and its source delivers a different number of bytes than declared, or data whose CRC-32 differs from a supplied one, reading fails with an error that names the entry and the expected and actual value, instead of going on to the following parts of the archive. Retrying the read without a seek does not get past the error.",
 ["inputs","fault_sequences","schedules"],"all entry lists, all wrong sizes and CRCs, all buffer sizes and short-read schedules",
 "Two tests check one wrong size and one wrong CRC each; every combination of buffer size and entry position needs to detect it.",
 ["src/reader.rs","src/crc_reader.rs"],
 [("end of data check","reader.rs ReadState::read_entry_data")],
 ["error returned by AsyncRead on Reader"],
 [("chunk_processed_size","bytes obtained from the source","reader.rs ReadState")])

p("C07","A source error loses and duplicates nothing and the read can be retried",
 "If opening, reading or seeking an entry source fails, the read reports that error, delivers no bytes in that call and leaves the reported position unchanged. Reading again afterwards does not panic and, as soon as the source works again, continues with exactly the bytes that follow that position.",
 ["fault_sequences","schedules","inputs"],"every entry list, every point at which a source operation fails (open, read, seek), every number of failures",
 "No test injects a failing source in the middle of an archive and reads on.",
 ["src/reader.rs","src/crc_reader.rs"],
 [("error path of the read loop","reader.rs ReadState::read"),("source state kept between calls","reader.rs ReaderEntry::get_reader, get_crc"),("seek in progress flag","crc_reader.rs CrcReader::seek")],
 ["AsyncRead on Reader, Reader::tell"],
 [("pinned","source being opened or read","reader.rs Reader")])

p("C08","The builder admits exactly the representable entries and refuses without effect",
 "Adding an entry fails if and only if its name is longer than 65535 bytes, its name is already present, or the archive would become larger than the largest 64-bit size, and the error tells which and carries the name. A refused addition leaves the set of entries, their order, their metadata and the announced size as they were, and an accepted one appends the entry with default metadata.",
 ["inputs","histories"],"all names, declared sizes and sequences of additions",
 "Tests try a few names and three overflow configurations; the arithmetic must be right at every boundary.",
 ["src/builder.rs"],
 [("admission checks","builder.rs Builder::add_entry")],
 ["Builder::add_entry, Builder::get_entries, Builder::size"],
 [("entries","ordered map of entries","builder.rs Builder"),("total_size","archive size","builder.rs Builder")])

p("C09","Timestamps are stored as the given fields, or rejected or defaulted as promised",
 "Setting a modification time whose fields are in range stores exactly these fields (seconds rounded down to even) in the local and central headers; out-of-range fields are rejected without changing the entry by the setters that report failure. The setters with a default, and entries with no time set, store 1980-01-01 00:00:00 instead, including when a system time is given and there is no converter, and system times are converted by the converter that was configured when the entry was added.",
 ["inputs","histories"],"all field values, all sequences of setter calls, all converters",
 "Tests use about a dozen dates and a fresh entry each time; sequences of setters and range boundaries are not covered.",
 ["src/structs.rs","src/builder.rs"],
 [("encoding and range checks","structs.rs DosDatetime::new, Default for DosDatetime"),("setters","builder.rs BuilderEntry::datetime_fields, datetime_fields_or_default, datetime_system, datetime_system_or_default, datetime, datetime_or_default")],
 ["time and date fields in the archive, return value of the setters"],
 [("datetime","chosen time, if any","builder.rs BuilderEntry")])

p("C10","Entry type and permissions reach the archive's external attributes",
 "The upper half of an entry's external attributes is the unix mode made of the type bits of its type (file, directory, symlink; the last one set wins) and nine permission bits: those set explicitly (masked to nine bits, the last setter wins), else 644 or 444 for read-only, with execute bits added for directories. Symlinks always have 777, and the lower half is zero. Setting metadata from the file system gives the type, permissions and modification time of that metadata.",
 ["inputs","histories"],"all type and permission values and all sequences of setter calls",
 "Tests check a few combinations, each with one setter call.",
 ["src/builder.rs"],
 [("attribute computation","builder.rs get_external_attributes"),("setters","builder.rs BuilderEntry::file, directory, symlink, unix_permissions, permissions, readonly, metadata")],
 ["external attributes field of central directory headers"],
 [("file_type, permissions","chosen type and permissions","builder.rs BuilderEntry")])

p("C11","Cloning or taking a reader preserves archive, position and computed CRCs",
 "A clone of a reader, and the reader taken out of a pinned one, have the same size, position and known CRCs as the original and deliver the same remaining bytes, independently of what is done with the original afterwards. After the taking, the original is a valid reader of an empty archive at its start, and a reader created for an empty archive delivers the archive of no entries.",
 ["histories","inputs","schedules"],"all entry lists and all histories before the clone or take, including an unfinished read",
 "Tests take or clone in one or two situations; the operation must be right in every state of a partially finished read.",
 ["src/reader.rs"],
 [("state transfer","reader.rs Reader::take_pinned, Clone for Reader, Reader::new_empty_file")],
 ["bytes, size, position and CRCs of both readers"],
 [("read_state","cursor, skip, staging","reader.rs Reader")])

p("C12","In-memory data is delivered exactly, whatever reads and seeks are made on it",
 "The source for in-memory data (slices, vectors, strings and the like) declares the length of the data as its size, is ready at once, and each read delivers the next bytes of the data at its position, as many as fit and remain. A seek relative to start, current position or end moves to exactly that position, beyond the end meaning end of data; a seek that would be negative or overflow fails with InvalidInput and leaves the position as it was.",
 ["inputs","histories"],"all contents, buffer sizes, positions and sequences of reads and seeks",
 "Tests use a few sampled contents and seeks and do not cover reads at positions past the end after a seek.",
 ["src/entry_data.rs"],
 [("in-memory reader","entry_data.rs AsRefReader"),("blanket implementation","entry_data.rs EntryData for T: AsRef<[u8]>")],
 ["EntryReader operations of in-memory data, seen through Reader"],
 [("position","offset in data","entry_data.rs AsRefReader")])

p("C13","File system entries get the right names, types, sizes and data",
 "Adding a directory tree adds every file, directory and symbolic link below it exactly once, named by its path relative to the root with the prefix (if given) and one slash before it, directories ending in exactly one slash and other objects in none; with a prefix the root itself is added under it. A file's data is its content, a link's data is its target and links are not followed, a directory has no data and is never opened, and a single added object has its name normalised to end in one slash for directories and none otherwise. Adding something that is not a directory as a tree is refused.",
 ["inputs","configurations"],"all directory trees, names, prefixes and objects",
 "Tests use a few small fixed trees and generated ones with plain names; prefixes with different slashes, links to directories and deep trees are sampled only.",
 ["src/filesystem_entry.rs"],
 [("traversal","filesystem_entry.rs Builder::add_directory_recursive"),("name construction","filesystem_entry.rs make_entry_name, sanitize_entry_name_slashes"),("entry sources","filesystem_entry.rs FilesystemEntry, EntryType::with_metadata, FilesystemEntryFuture, FilesystemEntryReader")],
 ["Builder::get_entries names, archive content"],
 [("entry_type","kind and size of object","filesystem_entry.rs FilesystemEntry")])

p("C14","HTTP responses carry exactly the requested range of the archive",
 "A request without a Range header gets status 200 and the whole archive; a satisfiable range gets exactly the bytes of its first range, with Content-Length and Content-Range stating that range and status 206 if it is not the whole archive; an unparsable header gets 400, and one outside the archive 416 with the size in Content-Range. The body delivers exactly the announced number of bytes and then ends, whatever block sizes the archive is produced in, and when the response body is dropped the reader is handed back if that was asked for.",
 ["inputs","schedules"],"all archives and all range headers, all block sizes",
 "Tests try a handful of ranges on one small archive.",
 ["src/actix_web.rs"],
 [("range handling","actix_web.rs Responder for ActixWebAdapter"),("length limiting","actix_web.rs MessageBody for Body"),("hand back on drop","actix_web.rs PinnedDrop for Inner")],
 ["status, headers and body of the response, channel"],
 [("remaining","bytes still to be delivered","actix_web.rs Body")])

p("C15","The byte stream delivers the remaining archive in non-empty blocks, then ends",
 "A byte stream over a reader, whether made by conversion or by cloning another stream at any time, yields non-empty blocks whose concatenation is what the reader would deliver from its position, ends exactly at the end of the archive and keeps reporting the end afterwards. Source errors are passed on without losing data, and giving the reader back returns it at the position reached by the blocks yielded.",
 ["schedules","inputs","histories"],"all archives, start positions, readiness schedules and clone points",
 "Tests stream a sampled archive from the start only and never clone a stream.",
 ["src/bytes.rs"],
 [("block production","bytes.rs Stream for BytesStream"),("construction and clone","bytes.rs BytesStream::new, Clone")],
 ["items of the stream, BytesStream::into_reader"],
 [("buffer","buffer for the next block","bytes.rs BytesStream")])

p("C16","Sources are opened only when their data or CRC is needed",
 "A source is never opened before a read reaches it, an entry with declared size zero is never opened at all, and an entry that is skipped over by a seek is opened only if its CRC is neither supplied nor already computed. An entry read sequentially is opened once, its CRC is not recomputed for the descriptor or the central directory, and at most one source is kept open at a time.",
 ["histories","inputs"],"all entry lists and all histories of seeks and reads",
 "One test checks that one skipped entry is not opened; the guarantee is about every history.",
 ["src/reader.rs"],
 [("lazy opening","reader.rs ReaderEntry::get_reader, get_crc"),("CRC cached after data","reader.rs ReadState::read_entry_data"),("chunk skipping","reader.rs ReadState::read")],
 ["calls that open sources"],
 [("pinned","the only open source","reader.rs Reader")])

with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
