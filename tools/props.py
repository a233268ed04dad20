#!/usr/bin/env python3
"""Writes properties.jsonl (run by hand after editing)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":["src/"+f for f in files],
       "mechanism":[{"name":n,"where":"src/"+w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":"src/"+w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

H="cfg(meerkat_verif) re-exports of crate-private items"

p("C01","Column buffers hold exactly the rows appended since the last clear",
 "After any sequence of appends of values and nulls and of clears, starting from any capacity, a column buffer of any kind (binary, integer, float, bool, bitmap) reports exactly the rows appended since it was created or last cleared: their number, which of them are null, every non-null value bit for bit in order, and whether any is null. Nothing from before a clear, and no unused capacity, shows in the row count, the values or the validity bitmap, including its padding bits.",
 ["histories","inputs"],"every sequence of append value / append null / clear on every kind of buffer, with any initial capacity and any lengths, in particular around byte and word boundaries of the bitmaps",
 "The tests append a handful of rows to one buffer each and never reuse a buffer after clear nor cross growth boundaries in every phase; stale bits and off-by-one rows only show in particular lengths and histories.",
 ["store/indexing_buffer.rs"],
 [("Bitmap append/clear/growth","store/indexing_buffer.rs"),("PrimitiveBuffer, BinaryBuffer and BoolBuffer append/append_null/clear","store/indexing_buffer.rs")],
 [("validity bitmap","one bit per row, set when the row has a value","store/indexing_buffer.rs"),("offsets","start of each binary value","store/indexing_buffer.rs")],
 ["len, num_values, has_nulls, validity, values, offsets, data, item_len"],H)

p("C02","Copying rows between buffers preserves values, nulls and order",
 "Copying consecutive spans of rows from one column buffer into another appends exactly those rows (same values, same nulls, same order) after what the destination already holds, and for nullable columns reports the source row to continue from, for any source, any destination contents and any way of cutting the source into spans. The source is not changed. Copying between a nullable and a non-nullable buffer is refused, never done silently wrong.",
 ["histories","inputs"],"every source buffer, every prior content of the destination (including one that was cleared), every partition of the source into spans, at every bit alignment of source and destination",
 "The tests copy one or two fixed spans; bit alignment of source and destination validity, empty spans, spans of only nulls and repeated copies from a moving start multiply far beyond them.",
 ["store/indexing_buffer.rs"],
 [("append_from of Bitmap, PrimitiveBuffer and BinaryBuffer","store/indexing_buffer.rs")],
 None,["append_from return value and the destination's whole public interface"],H)

p("C03","Validity bitmap compression is lossless and compact",
 "Every sequence of validity bits, added one by one or copied from any span of a bitmap, is encoded into a byte stream whose decoding yields exactly those bits (followed only by zero padding to a whole byte), also when the encoder is reused after being cleared. The stream is never larger than the one that stores each run of three or more equal bytes as a single run and everything else literally, and the decoder reads every well-formed stream back to exactly the positions of its set bits.",
 ["inputs","histories"],"every bit sequence, every run structure (including runs longer than one frame length field can hold in one byte), every way of feeding it, every reuse of the encoder",
 "Tests encode a few hand-picked sequences; transitions between run and literal frames depend on the position modulo 8, on run lengths around the threshold and on varint size changes of frame lengths.",
 ["store/encoding/bitmap_rle.rs","store/encoding/varint.rs","store/indexing_buffer.rs"],
 [("Encoder::put/put_from/flush/clear","store/encoding/bitmap_rle.rs"),("decode","store/encoding/bitmap_rle.rs")],
 None,["encoded_values, num_values, decode"],H)

p("C04","Varints round-trip and have the standard little-endian base-128 form",
 "Encoding any 64-bit unsigned integer yields its standard LEB128 form, of minimal length, appended after whatever the output buffer already holds, and the announced encoded length equals the number of bytes written. Decoding any buffer that starts with a complete encoding returns that value and its length, whatever follows it; an encoding that is still incomplete after ten bytes is reported as an error, and a truncated one never yields a value.",
 ["inputs"],"all 2^64 values and all byte strings given to the decoder",
 "Tests try a few values per length; the fast and slow decoding paths differ by buffer length and number of bytes.",
 ["store/encoding/varint.rs"],
 [("encode_varint/encoded_len_varint/decode_varint and its slow path","store/encoding/varint.rs")],
 None,["encoded bytes, (value, length), error"],H)

p("C05","Packed lists of item lengths decode to the lengths given",
 "For any list of item lengths, including an empty one and lists of any size and magnitude, the packed representation decodes to exactly the list given: its bit width, the packed groups and the trimmed tail contain every length. Reusing the packer for another list leaves no trace of the previous one.",
 ["inputs","histories"],"every list of 32-bit lengths of any size, around every multiple of the packing group, for every bit width and position of the largest item; every order of reuse",
 "The single test packs one list; widths, tails and reuse are never combined.",
 ["store/encoding/offsets.rs"],
 [("OffsetEncoder::encode, padding and trimming around bitpacking's 128-value groups","store/encoding/offsets.rs")],
 None,["packed bytes as written into binary blocks"],H)

p("C06","Numeric columns written as blocks read back exactly",
 "For any rows of a numeric column (i32, i64, u64, f64; nullable or not), in any batches of any sizes and with any block size, the blocks produced up to the end of a flush hold, in order, exactly the rows given so far: every value bit for bit and every null in its place, nothing lost, repeated or moved. Rows handed over before a flush are all in blocks after it, and the column can be continued after a flush.",
 ["inputs","histories"],"every sequence of rows, every way of batching them, every placement of flushes, every block size, nullable and not, all four types",
 "Tests write one or two batches with one block size and look at bytes; loss and duplication happen at particular coincidences of batch end, block end, trailing nulls and remainders.",
 ["store/encoding/raw/primitive_enc.rs","store/encoding/bitmap_rle.rs","store/encoding/varint.rs","store/indexing_buffer.rs"],
 [("encode/write_remaining/flush of the raw primitive encoder","store/encoding/raw/primitive_enc.rs")],
 [("remaining buffer","rows not yet in a block","store/encoding/raw/primitive_enc.rs")],
 ["blocks handed to the sink, decoded independently"],H)

p("C07","Binary columns written as blocks read back exactly",
 "For any rows of a binary column (nullable or not), values of any length including empty, in any batches and with any block size, the blocks produced up to the end of a flush hold, in order, exactly the rows given so far: every value byte for byte with its own length and every null in its place, nothing lost, repeated or moved. Rows handed over before a flush are all in blocks after it, and the column can be continued after a flush.",
 ["inputs","histories"],"every sequence of rows and lengths, every way of batching them, every placement of flushes, every block size, nullable and not",
 "Tests write one or two batches of equal items with one block size; loss happens at coincidences of item length, batch end, block end, trailing nulls and remainders.",
 ["store/encoding/raw/binary_enc.rs","store/encoding/offsets.rs","store/encoding/bitmap_rle.rs","store/indexing_buffer.rs"],
 [("encode/write_remaining/flush of the raw binary encoder","store/encoding/raw/binary_enc.rs")],
 [("remaining buffer","rows not yet in a block","store/encoding/raw/binary_enc.rs")],
 ["blocks handed to the sink, decoded independently"],H)

p("C08","Every block is labelled with the row it ends at",
 "Each block a column produces is announced with a row id that is the position, in the whole column, of the last row it covers; ids strictly increase from block to block and the last one covers the last row written. The values of row r are therefore always in the first block whose id is not less than r, for nullable and non-nullable columns, across batches and flushes.",
 ["inputs","histories"],"every history of batches and flushes, every null pattern, every block size, all column kinds",
 "Tests check the ids of a few blocks in single-batch histories; ids are accumulated over batches, remainders and skipped nulls.",
 ["store/encoding/raw/primitive_enc.rs","store/encoding/raw/binary_enc.rs","store/encoding/util.rs"],
 [("row id accounting of both encoders","store/encoding/raw/"),("translation of value positions to row positions through the validity bitmap","store/encoding/util.rs")],
 None,["row ids passed to the block sink"],H)

p("C09","Blocks are cut at the configured size",
 "A block is closed as soon as the value bytes it holds reach the configured block size and not earlier: every block not ended by an explicit flush holds at least that many bytes of values and would hold fewer without its last value, and no batch leaves that many behind when it returns. In segments the size is 128 KiB, whatever the sizes of batches and values.",
 ["inputs","histories"],"every sequence of value sizes, batches and block sizes, all column kinds, values larger than a block included",
 "Tests use one block size and equal items, so exact boundaries, remainders carried between batches, and units (items or bytes) never matter.",
 ["store/encoding/raw/primitive_enc.rs","store/encoding/raw/binary_enc.rs","store/segment_writer.rs"],
 [("block cutting in both encoders","store/encoding/raw/"),("segment block size","store/segment_writer.rs")],
 None,["data length of every block"],H)

p("C10","How rows are batched does not change what is stored",
 "The blocks of a column (their bytes, their order and the rows they are labelled with) depend only on the rows appended, not on how the rows were divided into batches: any partition into batches, empty ones included, gives the same blocks as one single batch.",
 ["histories","inputs"],"every row sequence x every partition into batches x every block size, all column kinds",
 "Tests compare nothing between partitions; a difference needs a specific remainder at a specific boundary.",
 ["store/encoding/raw/primitive_enc.rs","store/encoding/raw/binary_enc.rs","store/indexing_buffer.rs"],
 [("carry-over of the remaining rows between batches","store/encoding/raw/")],
 None,["blocks handed to the sink"],H)

p("C11","Columns and segments being written at the same time do not affect each other",
 "Writing two columns or two segments concurrently, switching between them at any point where the writer waits for storage, produces for each of them exactly the blocks, files and metadata it produces when written alone. Waiting, however often and wherever, does not change the result.",
 ["schedules","inputs"],"every interleaving of two writers at all suspension points, over several inputs and mixes of column kinds",
 "No test runs two writers at once or suspends one; state shared by accident between instances is invisible to sequential tests.",
 ["store/encoding/raw/primitive_enc.rs","store/encoding/raw/binary_enc.rs","store/encoding/offsets.rs","store/segment_writer.rs"],
 [("per-instance state of encoders and writers; no globals","store/")],
 None,["blocks of each encoder, files of each segment"],H)

p("C12","The file holds exactly the blocks written, at the reported positions",
 "Whatever blocks are written, of whatever sizes, and however flushes and syncs are interspersed and however the operating system splits or interrupts the calls, the reported position is the total number of bytes written so far, and after a successful flush or sync the file holds exactly the concatenation of the blocks, starting at offset zero and with nothing left of an older file of that name. A block can be read back from the range between the positions reported before and after writing it.",
 ["histories","fault_sequences","inputs"],"every sequence of writes, flushes and syncs, every block size (around the asynchronous file layer's internal buffer), new and existing files, every short or interrupted system call",
 "The test writes two or three blocks on an idle disk; buffers, short writes and truncation of old files are never exercised.",
 ["store/io/default_block_writer.rs","store/io/mod.rs"],
 [("Writer::new/write_block/flush/sync/pos","store/io/default_block_writer.rs")],
 [("pos","bytes accepted so far","store/io/default_block_writer.rs")],
 ["file content, pos()"],H)

p("C13","A storage failure is never reported as success",
 "If the operating system refuses any call made on behalf of a block writer, a segment or a column (creating, writing or syncing a file, accepting a block), some operation up to and including the next flush, sync or close that covers the affected data returns an error. A flush, sync or close that reports success has really handed over all the data written before it, and a sync has really made it durable.",
 ["fault_sequences","histories"],"every history x every call it makes to the operating system or to the block sink x {fails once, keeps failing}",
 "The tests never inject a failure; errors of asynchronous writes surface in a later call and are easily dropped.",
 ["store/io/default_block_writer.rs","store/block_sink.rs","store/segment_writer.rs","store/encoding/raw/primitive_enc.rs","store/encoding/raw/binary_enc.rs"],
 [("error propagation of write_block/flush/sync","store/io/default_block_writer.rs"),("error propagation of encoders, sink and segment writer","store/")],
 None,["Result of every operation, file content, fsync calls"],H)

p("C14","Reading a block returns exactly its bytes, or an error",
 "Reading any range inside a file returns exactly the bytes of that range, however the operating system splits or interrupts the reads; a range that reaches beyond the end of the file, or whose reading fails, gives an error and never a short, padded or wrong result. Reading does not change the file, and the reader's reported length is the file's.",
 ["inputs","fault_sequences"],"every file size, every range, every short, interrupted or failing system call, readers shared by clones",
 "The tests read a few ranges of a fully cached file; partial reads and ranges past the end are never seen.",
 ["store/io/unix_disk_block_reader.rs","store/io/mod.rs"],
 [("Reader::read_block","store/io/unix_disk_block_reader.rs")],
 None,["returned bytes or error"],H)

p("C15","A stream of block reads yields every result once, in order, with its own data",
 "A request to read several ranges yields exactly one result per range, in the order requested, each carrying the bytes of its own range together with the caller's information for that range, whatever order the underlying reads complete in and however many streams are read at once. A failing read yields an error for its own range only, the others are still delivered, and the stream then ends.",
 ["schedules","fault_sequences","inputs"],"all completion orders and failures of outstanding reads and all polling orders, for up to several ranges (overlapping, empty, beyond the end) and two streams",
 "The test reads a few blocks on an idle machine where reads complete in order.",
 ["store/io/unix_disk_block_reader.rs","store/io/mod.rs"],
 [("Reader::read_blocks: ordered buffering of concurrent reads","store/io/unix_disk_block_reader.rs")],
 None,["items of the stream"],H)

p("C16","The data file of a segment holds every column's rows in its blocks",
 "When a segment has been closed its data file consists of the data signature followed by the blocks of its columns, in the order the columns were written, with nothing between, before or after them; decoding the blocks of a column gives exactly the rows written to that column. This holds for any number of columns, batches, rows, null patterns and value sizes, and on slow storage.",
 ["histories","inputs"],"every segment: number of columns, batches per column, null patterns and value sizes around the block size",
 "One test writes one small column and checks nothing of the file's content.",
 ["store/segment_writer.rs","store/block_sink.rs","store/block_index.rs","store/io/default_block_writer.rs","store/encoding/raw/binary_enc.rs"],
 [("SegmentWriter/ColumnWriter write and close","store/segment_writer.rs"),("BlockSinkImpl","store/block_sink.rs")],
 None,["bytes of the .dat file"],H)

p("C17","The index file of a segment describes the segment as it was given",
 "When a segment has been closed its index file starts with the index signature and ends with an 8-byte little-endian pointer to the metadata, which decodes to exactly what was declared: segment id, database, table, shard, number of rows, and for every column its name, type, encoding, index type and nullability, with the layout of its encoder. Every column written appears once, with its own attributes, whatever names and values are used and however many columns there are.",
 ["inputs","histories"],"every combination of segment and column attributes (any text, any number), any number of columns",
 "The test never decodes the index file.",
 ["store/segment_writer.rs","store/segment_metadata.rs","store/segment_metadata.proto"],
 [("ColumnWriter::close and SegmentWriter::close fill and write the metadata","store/segment_writer.rs")],
 [("metadata","segment and column descriptions collected until close","store/segment_writer.rs")],
 ["bytes of the .idx file"],H)

p("C18","Different segments never share files, and a segment's files are found by its id",
 "A segment is stored in exactly two files of the directory it is given, one for data and one for the index, whose names are the URL-safe unpadded base64 form of its 16-byte id with the data and index extensions. Segments with different ids, however close, never touch each other's files or any other file.",
 ["inputs","histories"],"all 16-byte ids and all sequences of segments written to one directory",
 "The test uses one random id per run; characters that are unsafe in file names and ids that collide after encoding need particular ids.",
 ["store/segment_writer.rs"],
 [("file naming in SegmentWriter::new","store/segment_writer.rs")],
 None,["directory listing and file contents"],H)

p("C19","A synced segment survives any crash",
 "Once closing and syncing a segment has been reported successful, both of its files are complete on stable storage: after a crash at any later moment the segment reads back exactly as written, whatever unsynced writes to other files are lost, torn or reordered. Writing further segments to the same directory never damages it.",
 ["crash_points","histories"],"every crash point of the history of one or two segments x every surviving subset of writes not yet made durable",
 "No test crashes or drops unsynced writes; on a live system unsynced data is always visible.",
 ["store/segment_writer.rs","store/io/default_block_writer.rs"],
 [("SegmentWriter::sync, Writer::sync","store/segment_writer.rs")],
 None,["file system call history and reconstructed disk states"],H)

p("C20","An encoding a column accepts stores its data and is recorded as itself",
 "For every kind of column and every encoding that can be named, either the column is refused with an error before anything is written, or the rows written with it can be read back exactly and the recorded layout names that encoding. No accepted encoding silently stores something else.",
 ["configurations","inputs"],"every (column kind, encoding, nullability) x inputs",
 "Tests create one encoder of each kind with the plain encoding only.",
 ["store/encoding/mod.rs","store/encoding/snappy/snappy_enc.rs","store/segment_writer.rs"],
 [("encoder factories","store/encoding/mod.rs")],
 None,["factory results, blocks, encoder layout"],H)

p("C21","The server starts with exactly the configuration it was given",
 "For every combination of command line options and environment variables, in any order and spelling, the server starts with exactly that configuration: the data directory as given, the gossip port as given (7775 by default), and the comma-separated seeds in order, trimmed and without empty entries (none by default); an option on the command line overrides its environment variable. A missing data directory or an invalid port stops the program with an error before the server starts.",
 ["configurations","inputs"],"every combination of sources (flag, environment, both, none) of every option, every order and spelling, every seed list, valid and invalid ports",
 "No test runs the executable.",
 ["main.rs","server/mod.rs"],
 [("argument definitions and construction of the configuration","main.rs")],
 None,["configuration the server is started with"],"cfg(meerkat_verif) println of the configuration at server start")

p("C22","The block index of a column locates every row of it",
 "For every column of a segment, the block index lists its blocks in order with, for each, the id of the last row it holds and the offset at which it ends in the data file, so that any row can be located without reading other blocks. The index of each column starts empty, covers all its rows, and is stored in the range of the index file recorded for that column.",
 ["histories","inputs"],"every segment: columns, batches, null patterns and value sizes around the block size",
 "The test never looks at the block index.",
 ["store/block_index.rs","store/block_sink.rs","store/segment_writer.rs"],
 [("BlockSinkImpl::write_block, BlockIndex, new column clears the index","store/block_sink.rs"),("BlockIndex::flush","store/block_index.rs")],
 [("block index","(last row id, end offset) of each block of the current column","store/block_index.rs")],
 ["index entries, recorded range, bytes of both files"],"cfg(meerkat_verif) accessor of the index entries")

os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)),".."))
with open("properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
