#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text},
      "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
        "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
        "observe_at": observe, "hook_needed": None}})

p("C01", "The HDU walk yields every HDU, in file order, with its exact extent",
  "For every well-formed FITS stream, iterating over the file yields exactly its HDUs, in file order, each with the right kind (primary, image, ASCII table, binary table), the byte offset where its data unit starts and the data unit's byte size derived from the header (the array, plus for binary tables the gap and heap counted by PCOUNT). The walk then ends without an error; a last data unit that lacks its trailing padding to 2880 bytes is accepted.",
  ["inputs"], "all sequences of HDU kinds, header lengths (around the 36-card block boundary), axis counts and sizes, PCOUNT of binary tables, data sizes including 0 and exact multiples of 2880, final padding present or absent",
  "Tests walk a handful of sample files with one or two HDUs and assert few offsets; block-boundary header/data lengths and long chains of mixed HDUs are a product space they sample a few times.",
  ["src/fits.rs", "src/hdu/mod.rs", "src/hdu/primary.rs", "src/hdu/header/mod.rs", "src/hdu/header/extension/"],
  [("Fits::next / consume_until_next_hdu", "src/fits.rs"), ("HDU::new_xtension dispatch", "src/hdu/mod.rs"), ("get_num_bytes_data_block", "src/hdu/header/extension/*.rs")],
  ["Fits iterator items", "get_data_unit_byte_offset()", "get_data_unit_byte_size()"],
  [("start_pos/first_hdu", "where the current data unit begins, used to find the next header", "src/fits.rs")])
p("C02", "The HDU walk does not depend on what was read of earlier data units",
  "Whatever the caller does with the data of the HDUs met so far (nothing, a partial read, a complete read, row seeks, heap reads, random pixel accesses), the next HDU delivered is the one that follows in the file, with the same header and location. After the end, asking again keeps answering 'no more HDU', and a clone of the reading handle walks on independently with the same results.",
  ["histories"], "all interleavings of 'next HDU' with data operations of any kind and extent on the HDU just delivered, and repeated calls after the end",
  "Tests either skip the data or read it whole; the history of partial reads, seeks and heap jumps between two HDUs is unbounded.",
  ["src/fits.rs", "src/hdu/data/iter.rs", "src/hdu/data/bintable/data.rs"],
  [("consume_until_next_hdu", "src/fits.rs"), ("stream position bookkeeping by the data readers", "src/hdu/data/")],
  ["sequence of HDUs delivered after each history", "position of the underlying reader"],
  [("reader position", "where the shared reader stands relative to the data unit", "src/fits.rs")])
p("C03", "Every header card is decoded to the keyword, value and comment it spells",
  "Every legal 80-byte card decodes to the keyword, value (type and contents) and comment written on it: integers, floats (with E or D exponents), logicals, strings with doubled quotes, slashes inside quotes and insignificant trailing blanks, undefined values, commentary, HISTORY, CONTINUE, HIERARCH, blank and END cards. A string without closing quote or a number with stray characters is reported as invalid, undefined or an error, never as some other legal value.",
  ["inputs"], "all 80-byte cards: keyword length, value position (fixed or free format), number spelling, quoting, comment placement, value field filling the card to its last byte",
  "The card unit tests give a few dozen literal cards; the space is 80 bytes wide with interacting quoting, slash and padding rules.",
  ["src/card.rs"],
  [("Card::try_from", "src/card.rs"), ("split_value_and_comment / parse_string / parse_number", "src/card.rs")],
  ["Card variants", "Value variants", "Value::unit()"])
p("C04", "A header holds all its cards in order; lookup and continued strings are right",
  "For every header, the list of cards has every card up to END in file order, looking a keyword up returns the value of its last occurrence, looking a value up returns the first keyword that has it, the keywords enumerated are exactly those carrying a value, and HISTORY text is returned in order. A string continued over several cards (ending in '&' followed at once by CONTINUE cards) is looked up as the concatenation with the joined comment, while a CONTINUE that does not directly continue a string changes nothing.",
  ["inputs"], "all sequences of cards: repeated keywords, commentary interleaved, any number of continuation cards, orphan CONTINUE cards, '&' at the end of strings that are not continued, any header length",
  "A few sample headers with one continued keyword are tested; sequences and repetition patterns are unbounded.",
  ["src/hdu/header/mod.rs", "src/card.rs"],
  [("Header::parse / process_cards", "src/hdu/header/mod.rs"), ("Value continuation (append_string)", "src/card.rs")],
  ["Header::cards/get/iter/keywords/history"],
  [("ValueMap", "keyword to value index built from the card list", "src/hdu/header/mod.rs")])
p("C05", "Typed keyword access and deserialization return the stored value or an error",
  "Reading a keyword as an integer, boolean or string type returns exactly the stored value when it has that type and is in range, and as a float type the number rounded to nearest; otherwise it fails, and never returns a wrapped or truncated value. Deserializing a header into a user structure fills each field with the value that keyword lookup gives, leaves optional fields of absent keywords empty, and fails when a required keyword is missing or has another type; an enumerated field takes the variant its string value names.",
  ["inputs"], "all pairs (stored value, requested type), including boundary integers, fractional floats, missing and undefined keywords, and structures with renamed and optional fields",
  "Tests deserialize one sample header; conversions at the limits of each type and type mismatches are not sampled.",
  ["src/hdu/header/mod.rs", "src/card.rs"],
  [("ValueMap::get_parsed", "src/hdu/header/mod.rs"), ("IntoDeserializer for ValueMap / Value", "src/hdu/header/mod.rs")],
  ["get_parsed::<T>()", "serde Deserialize results"])
p("C06", "Image data come back as exactly the stored array, in file order",
  "For every image HDU, of every BITPIX type, number of axes and axis sizes, sequential reading delivers exactly product(NAXISn) values, equal bit for bit to the big-endian array stored in the file (NaN payloads included), in file order, and then ends; the raw bytes of the data unit, when asked for, are exactly those of the file.",
  ["inputs"], "all BITPIX types, axis counts and lengths (0, 1, sizes crossing internal buffers), value contents (extremes, NaNs, signed zeros), preceding HDUs and reader types",
  "Tests check lengths and a few checksums on sample images; contents are mostly not compared and buffer-boundary sizes not explored.",
  ["src/hdu/data/image.rs", "src/hdu/data/iter.rs", "src/hdu/header/extension/image.rs"],
  [("It iterator", "src/hdu/data/iter.rs"), ("ImageData::pixels / raw_bytes", "src/hdu/data/image.rs")],
  ["Pixels iterator items", "raw_bytes()"])
p("C07", "Random pixel access returns the addressed value and mixes with iteration",
  "Reading the pixel at index i returns the stored value i for every valid index, in any order and any number of times, and an error for an index outside the array. Sequential reading resumed afterwards continues consistently from the pixel that follows the last one accessed, and never delivers data from outside the array.",
  ["histories"], "all histories of random reads (any index, in or out of range) and sequential reads on images of all types, at any offset in the file",
  "Random access has at most one sample test; histories mixing it with iteration are unbounded.",
  ["src/hdu/data/iter.rs"],
  [("It::read_value", "src/hdu/data/iter.rs")],
  ["values returned by read_value and next"],
  [("idx/reader position", "next pixel to be delivered", "src/hdu/data/iter.rs")])
p("C08", "Binary tables deliver every fixed-width cell once, exact, tagged, in row order",
  "Iterating over a binary table delivers every element of every cell of fixed width (logical, bit, byte, 16/32/64-bit integer, character, float, double, complex), exactly once, row by row and column by column, with the stored value, tagged with its column index and its position in the cell (bit cells are delivered byte by byte). Row iteration of a table that stores anything delivers NAXIS2 rows, each with exactly those elements; the raw bytes are those of the file.",
  ["inputs"], "all lists of columns (types, repeat counts including 0 and large ones, named or not, more than 9 or 99 columns), row counts including 0, cell contents, rows narrower or wider than internal buffers",
  "Tests read two or three catalogue files and assert few values; column type and repeat combinations are a product space.",
  ["src/hdu/data/bintable/data.rs", "src/hdu/data/bintable/row.rs", "src/hdu/header/extension/bintable.rs"],
  [("TableData::next / parse_next_item", "src/hdu/data/bintable/data.rs"), ("TFORM parsing", "src/hdu/header/extension/bintable.rs"), ("TableRowData::next", "src/hdu/data/bintable/row.rs")],
  ["DataValue sequence", "row contents"],
  [("row_idx/col_idx/item_idx", "position of the next element", "src/hdu/data/bintable/data.rs")])
p("C09", "Variable-length array cells deliver exactly the elements stored in the heap",
  "A cell of a variable-length array column (32- or 64-bit descriptors, any element type) delivers exactly the elements its descriptor designates in the heap, wherever the heap starts (default or THEAP, with or without gap), in whatever order cells point into it, including overlapping and empty arrays; cells of fixed width around them are unaffected. Row iteration attributes every element to its row, including rows whose arrays are all empty.",
  ["inputs"], "all tables mixing fixed and variable-length columns, all descriptor contents within the heap, heap gap sizes, element types, empty arrays in any position",
  "One or two sample files contain variable arrays, laid out contiguously by one writer; empty arrays, gaps and out-of-order heaps are not sampled.",
  ["src/hdu/data/bintable/data.rs", "src/hdu/header/extension/bintable.rs"],
  [("jump_to_heap / heap iteration / jump back", "src/hdu/data/bintable/data.rs")],
  ["DataValue sequence", "row contents"],
  [("heap/main-table switch", "which of the two areas is being read and where to come back", "src/hdu/data/bintable/data.rs")])
p("C10", "Selecting columns and seeking rows only restricts what is delivered",
  "Reading a binary table with a selection of columns (by index or by name, in any order, with repeats, unknown names or indices) delivers exactly the elements that full iteration delivers for those columns, in row and column order; a selection made in the middle of a row starts that row again. Seeking to a row, from any state of the reading and with or without a selection, makes reading continue at the first selected element of that row and go on to the end of the table; seeking past the last row is refused with an error and changes nothing.",
  ["histories"], "all selections of columns and all histories of reads and row seeks (forward, backward, mid-cell, mid-heap), on all tables of C08/C09",
  "Tests select a few columns of one catalogue; seeks combined with selections and heap reads are an unbounded history space.",
  ["src/hdu/data/bintable/data.rs", "src/hdu/data/bintable/row.rs"],
  [("select_fields", "src/hdu/data/bintable/data.rs"), ("seek_to_row", "src/hdu/data/bintable/data.rs")],
  ["DataValue sequence after each history"],
  [("cols_idx", "selected columns", "src/hdu/data/bintable/data.rs")])
p("C11", "Tile-compressed integer images decompress to exactly the original pixels",
  "For every integer image tile-compressed with GZIP_1, GZIP_2 or RICE_1 (4-byte pixels, ZBITPIX 8, 16 or 32, tiles of whole or partial rows, any Rice block size up to 255, any tile contents), reading delivers exactly the original pixels of every tile, tile after tile, and then ends.",
  ["inputs"], "all image shapes, tile shapes covering one or several rows (including a smaller last tile), compression algorithms, block sizes, pixel statistics (constant, noise, extremes, high entropy), descriptor types, positions of the compressed column in the table",
  "Sample files compressed by one writer with default row tiles are compared loosely; entropy classes and Rice code lengths (low, normal, high entropy blocks) are barely sampled.",
  ["src/hdu/data/bintable/tile_compressed/"],
  [("RICEDecoder::decode", "src/hdu/data/bintable/tile_compressed/rice.rs"), ("TileCompressedData pixels iterators", "src/hdu/data/bintable/tile_compressed/pixels.rs")],
  ["TileCompressed pixels iterator"])
p("C12", "Tile-compressed float images undo quantization, dithering and blanking",
  "For every floating-point image stored as quantized, tile-compressed integers, each delivered pixel equals, to single precision, its quantized integer scaled and shifted by its own tile's ZSCALE and ZZERO (columns or keywords), with subtractive dithering undone as ZQUANTIZ prescribes (the first random offset of a tile being selected by its row number plus ZDITHER0, modulo 10000, and the first random number following the last). Quantized values equal to ZBLANK (column or keyword) come out as NaN without disturbing their neighbours, and with SUBTRACTIVE_DITHER_2 the reserved zero code comes out as exactly 0.",
  ["inputs"], "all scales, zero points, dither methods and seeds, blank placements, tile counts (beyond the length of the random sequence), tile sizes, compression algorithms and element types",
  "One sample file is rendered without comparing pixels; per-tile parameters, blanks and dither offsets interact tile by tile.",
  ["src/hdu/data/bintable/tile_compressed/pixels.rs", "src/hdu/data/bintable/tile_compressed/dithering.rs"],
  [("unquantize / dither state per tile", "src/hdu/data/bintable/tile_compressed/pixels.rs"), ("random sequence", "src/hdu/data/bintable/tile_compressed/dithering.rs")],
  ["TileCompressed pixels iterator"])
p("C13", "Gzip-compressed files read exactly like the plain files",
  "Opening a FITS file that was gzip-compressed as a whole (any compression level, optional gzip header fields, one or several concatenated gzip members) gives the same HDUs, headers, locations and data as opening the uncompressed file. A file is treated as compressed because of its contents, not its name. A compressed file that was cut or altered in its compressed bytes or checksums is refused with an error, or gives the same data; it never gives other data.",
  ["inputs"], "all files of the other properties, all compression levels, member splits, gzip header options, file names, partial consumption of data units",
  "Tests open a few .gz samples written by one tool; multi-member and header variants are not sampled and equality with the plain file is not checked.",
  ["src/gz.rs", "src/file.rs"],
  [("GzReader", "src/gz.rs"), ("FITSFile::open", "src/file.rs")],
  ["full read trace of both files"])
p("C14", "The kind of reader and the sizes of its reads never change the result",
  "Everything delivered from a FITS stream (HDUs, headers, locations, values, errors or their absence) is the same whatever legal reader it comes from: in memory, a file, buffered with any capacity, or one that returns short reads of any size or interrupts reads transiently.",
  ["schedules", "configurations"], "all splits of the byte stream into read results, all positions of transient interruptions, all buffer sizes",
  "Tests use in-memory or file readers that always fill the buffer; the split schedule is never varied.",
  ["src/fits.rs", "src/hdu/", "src/gz.rs"],
  [("read_exact everywhere a fixed amount is needed", "src/hdu/"), ("BufReader wrappers", "src/hdu/data/")],
  ["full read trace per reader schedule"])
p("C15", "The asynchronous reader agrees with the synchronous one on every schedule",
  "For every FITS stream and every way its bytes become available (any chunk sizes, any number of 'not ready yet' answers at any point), the asynchronous reader delivers the same HDUs, headers, and data as the synchronous one, and ends. On a truncated stream it delivers a prefix and then ends instead of yielding without end: a data unit or header that is cut short ends with an error item, not as if it were complete.",
  ["schedules", "inputs"], "all chunkings and pending points of the asynchronous source, all amounts of data read or skipped between HDUs, all truncation points",
  "Async tests read in-memory buffers that are always ready; no pending point is ever exercised.",
  ["src/async_fits.rs", "src/hdu/data/stream.rs", "src/hdu/header/mod.rs", "src/hdu/mod.rs"],
  [("AsyncFits poll_next", "src/async_fits.rs"), ("St stream", "src/hdu/data/stream.rs"), ("Header::parse_async", "src/hdu/header/mod.rs")],
  ["stream items", "wakeups and polls"])
p("C16", "No input makes the library panic, hang or take memory out of proportion",
  "On arbitrary bytes (corrupted, adversarial or random) every reading operation of the library returns a value, an error or an end: it never panics, overflows, aborts or loops without consuming input. Memory taken stays within a fixed bound plus a multiple of the bytes actually present in the stream, whatever sizes the headers announce.",
  ["inputs", "histories"], "all byte strings, in particular mutated valid files, extreme keyword values, hostile descriptors and compressed tiles, and all sequences of library calls on them",
  "Fuzz-like inputs are not part of the tests; panics hide behind unwraps, arithmetic and indexing on attacker-controlled numbers.",
  ["src/"],
  [("Result-returning parsers", "src/card.rs, src/hdu/header/"), ("checked sizes", "src/hdu/header/extension/")],
  ["panics, allocation high-water mark, reader operation counts"])
p("C17", "Truncation or a read error never invents, alters or reorders data",
  "If the stream ends early at any byte, or the reader fails at any operation, everything delivered before is a prefix of what the intact file delivers, and the remaining part is reported as an error or as the end, never as made-up values. A header cut short (after its first card), or a read error met while walking, is reported as an error, not taken for the end of the file. After a failure the reading stops within a bounded number of further calls.",
  ["crash_points", "fault_sequences"], "all truncation points and all read/seek operations at which the reader fails, for all kinds of HDUs and data",
  "No test injects an I/O failure; a few use truncated samples at one point.",
  ["src/fits.rs", "src/hdu/"],
  [("error propagation", "src/fits.rs, src/hdu/data/"), ("read_exact", "src/hdu/")],
  ["trace with fault vs. trace without"])
p("C18", "The image-crate decoder renders exactly the stored pixels",
  "For every FITS file with a displayable image, decoding through the image crate gives its width, height, colour type and, pixel by pixel, the stored values converted as documented (BSCALE/BZERO applied to integers and not to floats; 8-bit and 16-bit kept as such, rounded to nearest, with saturation at both ends; 32/64-bit integers divided by their type's maximum and floats as they are, as 32-bit float RGB; three planes as RGB; one plane as grey), from the first HDU that holds an image, be it plain or tile-compressed row by row. Unsupported shapes and truncated data are refused with an error.",
  ["inputs"], "all BITPIX types, sizes, one or three planes, scale and zero values, empty primary HDUs, tile-compressed images, and truncated data",
  "Tests render two or three samples and look at few pixels; type, scale and plane combinations are a product space.",
  ["src/image_integration.rs"],
  [("FitsDecoder", "src/image_integration.rs")],
  ["ImageDecoder dimensions, color_type, orientation, read_image bytes"])
p("C19", "The command-line structure listing describes the file exactly",
  "For every FITS file, the structure command lists one entry per HDU, in order, with its kind, axis or column and row counts, BITPIX, dimensions, data offset and data size as they are in the file, and exits with success; for a missing or malformed file it reports the problem without crashing.",
  ["inputs"], "all files of C01, plus missing, empty and malformed files",
  "The command has no tests.",
  ["crates/cli/src/main.rs", "crates/cli/src/struct.rs"],
  [("struct subcommand", "crates/cli/src/struct.rs")],
  ["stdout, exit status"])
p("C20", "Huge files are walked and read with 64-bit offsets, in small memory",
  "On files whose data units exceed 4 GiB (or any size a 64-bit offset addresses), locations, sizes, random pixel reads, row seeks, heap reads and the following HDUs are exact. Walking over HDUs and reading a few values costs memory and bytes read that do not grow with the size of the data units skipped.",
  ["inputs", "histories"], "all sizes of data units up to the 64-bit range, positions of accesses beyond 2^31 and 2^32, chains of huge HDUs",
  "The only large-file test needs a sample that is not distributed; 32-bit truncations do not show on small files.",
  ["src/fits.rs", "src/hdu/data/iter.rs", "src/hdu/data/bintable/data.rs"],
  [("u64 offsets", "src/fits.rs"), ("lazy data readers", "src/hdu/data/")],
  ["values, offsets, bytes read and memory high-water mark over a synthetic giant stream"])
p("C21", "ASCII tables expose their layout and exactly their bytes",
  "For every ASCII table HDU the header gives the row count, row width and, for each column, the position (TBCOL) and the format (TFORM: A, I, F, E or D with width and decimals) written in the file (a column whose TBCOL or TFORM is missing or unreadable is left out of both lists, the others stay paired), and the data delivered are exactly the NAXIS1 x NAXIS2 bytes of the table, no more and no fewer.",
  ["inputs"], "all column lists (more than 9 or 99 columns), formats, widths and decimals, row counts including 0, table sizes crossing buffers",
  "One sample ASCII table is read by the tests.",
  ["src/hdu/header/extension/asciitable.rs", "src/hdu/data/asciitable.rs"],
  [("AsciiTable::parse", "src/hdu/header/extension/asciitable.rs"), ("Take-limited reader", "src/hdu/data/asciitable.rs")],
  ["header accessors", "bytes read"])
p("C22", "Invalid mandatory keywords are rejected; header metadata equal the cards",
  "A header one of whose mandatory keywords (SIMPLE or XTENSION, BITPIX, NAXIS, every NAXISn; for tables also PCOUNT, GCOUNT and TFIELDS; for binary tables a NAXIS1 equal to the width of the columns) is missing, of the wrong type or out of its legal range is refused with an error rather than accepted with invented values, and the walk then ends. For a legal header the structural metadata exposed (bit depth, axis lengths, pixel count, numbers of columns and rows, position of a named column, size and bit depth of a tile-compressed image) equal what its cards say.",
  ["inputs"], "all single defects (missing, mistyped, negative, out of range) of each mandatory keyword of each HDU kind, and all legal combinations of the structural keywords",
  "Tests contain a few hand-written bad headers; each keyword times each defect times each HDU kind is not enumerated.",
  ["src/hdu/header/mod.rs", "src/hdu/header/extension/", "src/hdu/primary.rs"],
  [("check_for_* helpers and Xtension::parse", "src/hdu/header/")],
  ["Result of iteration", "Xtension accessors"])
p("C23", "World coordinates derived from a header agree with the WCS keywords",
  "For every image header with a celestial WCS, the pixel-to-sky and sky-to-pixel conversions offered agree with the WCS keywords and are inverse of each other inside the image.",
  ["inputs"], "all projections and WCS keyword values",
  "Needs an external reference implementation.",
  ["src/wcs.rs"], [("WCS wrapper around the wcs crate", "src/wcs.rs")], ["unproj/proj results"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
