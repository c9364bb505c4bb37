#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None)))

p("C01", "Every tile of every supported file decodes to exactly the stored pixels",
  "Opening a well-formed TIFF, fetching a tile by its column and row and decoding it yields exactly the sample values that the writer put at that place, with the right element type and shape. This holds for every combination of byte order, classic or BigTIFF layout, chunky or planar organisation, sample type, lossless compression, predictor and tile geometry, and whatever reader or metadata cache the bytes come through.",
  ["inputs", "configurations"],
  "all files in the product of byte order x classic/BigTIFF x chunky/planar x sample type x lossless codec x predictor x geometry x inline/out-of-line layout, and all reader/cache configurations",
  "The repository's own fixture-based tests sample a few rasterio files (and are not part of the stable suite); no test combines big-endian, BigTIFF, planar and predictors, or reads pixels through the stream reader.",
  ["src/tile.rs", "src/ifd.rs", "src/metadata/reader.rs", "src/predictor.rs", "src/decoder.rs", "src/array.rs"],
  [("tile fetch and decode pipeline", "src/ifd.rs fetch_tile, src/tile.rs Tile::decode"), ("IFD parsing", "src/metadata/reader.rs")],
  observe=["Array returned by Tile::decode"])

p("C02", "The metadata readahead cache is transparent",
  "Through any sequence of requests, the readahead cache answers every range with exactly the bytes the underlying source has there, cut off at the end of the file, whatever initial size and growth factor it is configured with. A failed or short answer of the source surfaces as an error or as the bytes that exist, never as other bytes, and does not corrupt later answers.",
  ["histories", "inputs", "configurations", "fault_sequences"],
  "all request sequences up to a depth over a small file, all cache configurations in a grid, all placements of errors, short and empty source answers",
  "Two unit tests run one fixed five-request history each against a healthy source.",
  ["src/metadata/cache.rs"],
  [("contiguous block list from offset 0, sliced across blocks", "src/metadata/cache.rs SequentialBlockCache"), ("append after fetch", "src/metadata/cache.rs ReadaheadMetadataCache::fetch")],
  [("cached blocks", "file prefix cached so far", "src/metadata/cache.rs SequentialBlockCache.buffers/len")],
  ["bytes returned by MetadataFetch::fetch"])

p("C03", "Concurrent and cancelled cache users get right bytes and never block",
  "When several tasks use one readahead cache at once, under every interleaving of their steps and every order of completion of the underlying requests, each task gets exactly the bytes it asked for and every task finishes once the requests it waits for are answered. Dropping a task at any point, or failing its request, neither blocks the others nor changes what they get.",
  ["schedules", "fault_sequences"],
  "all interleavings of 2-3 tasks with 1-2 requests each, all completion orders, every cancellation point and single failures",
  "No existing test runs two users of the cache at once; interleavings and cancellation points are not under a unit test's control.",
  ["src/metadata/cache.rs"],
  [("async mutex held across lookup, fetch and append", "src/metadata/cache.rs ReadaheadMetadataCache::fetch")],
  [("shared cache", "prefix cached so far, behind the mutex", "src/metadata/cache.rs ReadaheadMetadataCache.cache")],
  ["bytes returned to each task; tasks that stay pending"])

p("C04", "Readahead fetches each byte once, in growing contiguous requests",
  "A request that lies within what has been read costs no request to the source; any other costs exactly one, which starts where the cached prefix ends and is as long as the larger of what is needed and the configured growth (the initial size first, then the cached length times the multiplier, rounded). Consequently no byte of the file is requested twice after a successful answer, also when several tasks ask at once.",
  ["histories", "configurations", "schedules"],
  "all request sequences up to a depth, all cache configurations in a grid (zero, one, fractional and large factors), and all interleavings of 2-3 concurrent users",
  "Unit tests count requests for one history with the default growth and never look at sizes or concurrency.",
  ["src/metadata/cache.rs"],
  [("fetch size policy", "src/metadata/cache.rs next_fetch_size"), ("containment check before fetching", "src/metadata/cache.rs SequentialBlockCache::contains")],
  observe=["ranges requested from the wrapped source"])

p("C05", "The seekable-stream reader returns exactly the requested bytes",
  "Reading a range through the adapter for seekable async streams returns exactly those bytes of the stream, or an error if the stream ends before the range does, never fewer or other bytes. This holds however the stream splits its reads, wherever it is pending or fails, and for any interleaving and cancellation of concurrent requests on one reader.",
  ["schedules", "fault_sequences", "inputs"],
  "all request sequences and pairs of concurrent requests over a small stream, all short-read splits, pending points, errors and cancellation points within a deviation bound",
  "No existing test uses the stream reader at all.",
  ["src/reader.rs"],
  [("seek then read under one async mutex", "src/reader.rs TokioReader::make_range_request")],
  [("stream position", "shared by all requests", "src/reader.rs TokioReader.0")],
  ["bytes or error returned by get_bytes/get_byte_ranges"])

p("C06", "Multi-range reads return one buffer per range, in request order",
  "Asking any reader for several byte ranges yields exactly one buffer per range, in the order of the request, each with exactly the bytes of its range, whatever the order, overlap, adjacency or duplication of the ranges and in whatever order the backend completes its requests; an empty range gives an empty buffer or, where the backend refuses it, an error. Boxed and shared readers pass a multi-range request on as one request, and a failure of any part is an error of the whole.",
  ["inputs", "schedules", "fault_sequences"],
  "all lists of up to 3-4 ranges over a small object, all backend completion orders, a failure at every request, for every reader and wrapper",
  "Existing tests fetch through one local store and never look at ordering, duplicates or failures.",
  ["src/reader.rs"],
  [("default sequential implementation", "src/reader.rs AsyncFileReader::get_byte_ranges"), ("forwarding for Box and Arc", "src/reader.rs"), ("object store ranges", "src/reader.rs ObjectReader")],
  observe=["buffers returned by get_byte_ranges, requests seen by the backend"])

p("C07", "The HTTP reader asks for and returns exactly the requested byte range",
  "For every range the HTTP reader sends one range request with the inclusive bounds of that range, through the configured client, to the configured URL and returns exactly the bytes of the range. A server that ignores ranges gives the same bytes, an empty range gives no bytes, and an HTTP error status or a broken transfer is an error.",
  ["inputs", "fault_sequences"],
  "all ranges over a small file including empty, single-byte, past-the-end and beyond 4 GiB, all server behaviours in a menu (206, 200, 4xx/5xx, truncated body)",
  "The HTTP reader has no test.",
  ["src/reader.rs"],
  [("Range header and status handling", "src/reader.rs ReqwestReader::make_range_request")],
  observe=["requests seen by a loopback server, bytes returned"])

p("C08", "Every tag value reads back as the value that was written",
  "Reading an IFD entry of any of the sixteen field types yields exactly the values stored, in order and with their type, for every count (none, one, as many as fit in the entry, one more, many), both byte orders and both layouts, wherever in the file out-of-line values lie. Text ends at its first NUL.",
  ["inputs", "configurations"],
  "16 field types x all counts around every layout threshold and large counts x byte order x classic/BigTIFF x value patterns with distinct bytes and sign bits x placements, including offsets beyond 4 GiB",
  "Table tests use the value 42 repeated, so order, sign and byte-lane errors within a list are invisible, and no offset exceeds 20.",
  ["src/metadata/reader.rs", "src/metadata/fetch.rs", "src/reader.rs"],
  [("inline/out-of-line decision and per-type decoding", "src/metadata/reader.rs read_tag_value"), ("byte-order aware reads", "src/reader.rs EndianAwareReader")],
  observe=["TagValue returned by read_tag"])

p("C09", "Headers are validated and the IFD chain is followed completely, in order",
  "Opening accepts exactly the valid headers (byte-order mark, version 42, or 43 with 8-byte offsets) and reports byte order and layout. Reading yields every directory of the chain exactly once, in chain order, wherever the directories lie, all at once or step by step with the same result, until the zero terminator; a chain that loops is an error, and entries of unknown field type are skipped.",
  ["inputs", "histories", "configurations"],
  "all byte-order marks/versions/offset sizes, chains of up to 4 directories in every physical order and every link structure, all interleavings of the stepwise calls",
  "Tests open files with one or two consecutive directories; headers other than valid ones, permuted layouts and loops are never tried.",
  ["src/metadata/reader.rs"],
  [("header parsing", "src/metadata/reader.rs TiffMetadataReader::try_open"), ("chain traversal", "src/metadata/reader.rs read_next_ifd, ImageFileDirectoryReader::finish")],
  [("next directory offset", "where the chain goes on", "src/metadata/reader.rs TiffMetadataReader.next_ifd_offset")],
  ["IFDs, endianness(), bigtiff(), next_ifd_offset()"])

p("C10", "Each tag appears under its own accessor; defaults and unknown tags are kept",
  "Every tag a directory holds is exposed by the accessor documented for it with the value stored, an absent tag shows as absent or as its documented default, and a tag without an accessor is kept among the other tags unchanged. The result does not depend on the order in which tags are processed, and a missing mandatory tag or a value of the wrong kind is an error, not a wrong value.",
  ["inputs", "configurations"],
  "every known tag alone and in pairs on top of the mandatory ones, every accepted and rejected value type, every unknown tag number in a set, every processing order of small tag sets",
  "Tests look at a handful of accessors of real files; swaps between similar tags and hash-order dependence do not show.",
  ["src/ifd.rs"],
  [("tag dispatch", "src/ifd.rs ImageFileDirectory::from_tags")],
  observe=["ImageFileDirectory accessors"])

p("C11", "GeoKeys resolve to exactly the values the directory points at",
  "Each known GeoKey is exposed under its own field with the value its directory entry holds or points at: inline shorts, substrings of the text parameters without the trailing separator, and elements of the double parameters; unknown keys are skipped without effect on others. The CRS code is the projected one if there is one, else the geographic one.",
  ["inputs", "configurations"],
  "every known key in every storage form, all small key sets and orders, all offsets and counts within small parameter arrays, unknown keys and locations in every position",
  "One test reads one file's keys.",
  ["src/ifd.rs", "src/geo/geo_key_directory.rs"],
  [("key directory walk", "src/ifd.rs from_tags"), ("key to field mapping", "src/geo/geo_key_directory.rs GeoKeyDirectory::from_tags")],
  observe=["GeoKeyDirectory fields, epsg_code()"])

p("C12", "Tile coordinates map to the right byte ranges, and only valid ones do",
  "For every tile column and row of the grid, the byte range (chunky) or the list of byte ranges in band order (planar) is the one the offset and byte-count tables hold for that tile; the grid has as many columns and rows as are needed to cover the image. Coordinates outside the grid, tables that are too short, and files that are not tiled yield no range and a fetch error, never another tile.",
  ["inputs", "configurations"],
  "all grids up to a size with exact and ragged edges, 1-4 bands, all coordinates in and around the grid, offsets above 4 GiB, more than 65536 tiles, truncated tables",
  "Tests fetch tile (0,0) and few others of one-band files.",
  ["src/ifd.rs"],
  [("tile index arithmetic", "src/ifd.rs TileByteRange::from_ifd_tile, tile_count")],
  observe=["tile_byte_range, tiles_byte_ranges, tile_count, ranges requested by fetch_tile"])

p("C13", "Fetching tiles in a batch equals fetching them one by one",
  "For any list of coordinates, including repeated and unordered ones, the batch fetch returns one tile per coordinate in the order asked for, identical to the tile fetched alone, using one multi-range request to the reader. If any coordinate is invalid or the request fails, the whole batch is an error and no tile is lost or mixed up.",
  ["inputs", "configurations", "fault_sequences"],
  "all coordinate lists up to length 4 over small grids, chunky and planar with 1-3 bands, failures at each underlying read",
  "No test fetches more than one tile at a time with distinct content.",
  ["src/ifd.rs"],
  [("flatten and regroup planar ranges", "src/ifd.rs TilesByteRanges::into_fetch"), ("zip with coordinates", "src/ifd.rs fetch_tiles")],
  observe=["tiles and their coordinates, requests seen by the reader"])

p("C14", "Undoing predictors and byte order recovers the original samples",
  "For every sample size, sample count, row length, byte order and organisation, decoding data that was written with no predictor, horizontal differencing or the floating-point predictor gives back the original samples bit for bit, including wrap-around differences, NaN payloads, negative zero and infinities. The floating-point predictor on a sample size it is not defined for, and differencing on samples wider than 64 bits, are errors.",
  ["inputs", "configurations"],
  "all predictors x sample sizes 8-64 x 1-4 samples x small row lengths and heights x byte order x chunky/planar, with all short sequences over a boundary-value alphabet",
  "Predictor code has no unit tests of its own; fixtures cover a few little-endian chunky cases.",
  ["src/predictor.rs", "src/tile.rs"],
  [("horizontal differencing", "src/predictor.rs unpredict_hdiff"), ("floating point", "src/predictor.rs unpredict_float"), ("byte order", "src/predictor.rs fix_endianness")],
  observe=["Array returned by Tile::decode"])

p("C15", "Each compression code uses its own decoder with the tile's own parameters",
  "A tile is decoded by the decoder registered for its compression code, called once per chunky tile or once per band in band order with that tile's bytes and the sample count, bit depth, colour interpretation, tables and parameters of its directory. The built-in decoders restore what was encoded (exactly for lossless ones), user-registered decoders take precedence, and a code without decoder is an unsupported-compression error.",
  ["inputs", "configurations"],
  "all built-in codecs x layouts x parameters (tables present or shared, inner compression of LERC, alpha dropped by WebP, colour interpretations of JPEG), every registry state, every unregistered code",
  "Tests decode fixtures for some codecs; LERC, LZMA, WebP and JPEG 2000 decoders, the registry and its parameters are not exercised.",
  ["src/decoder.rs", "src/tile.rs"],
  [("registry", "src/decoder.rs DecoderRegistry"), ("decoder implementations", "src/decoder.rs"), ("per-band calls", "src/tile.rs Tile::decode")],
  observe=["calls seen by a recording decoder, decoded arrays"])

p("C16", "Decoded arrays have the type, shape and values their tags announce",
  "The element type of a decoded array follows from sample format and bit depth when these agree across samples and is otherwise unknown, the shape is rows x columns x bands (chunky) or bands x rows x columns (planar), the length always matches the shape, and one-bit samples expand most significant bit first. Conversion to an n-dimensional array keeps type, shape and every element; data that does not fit the announced shape is an error, surplus bytes after one-bit data aside.",
  ["inputs", "configurations"],
  "all sample formats x bit depths 0-128 x uniform and mixed tables x 1-4 bands x small shapes x data lengths around the right one, all bit patterns for one-bit rows",
  "Unit tests check the type table partly and one bitmask.",
  ["src/array.rs", "src/data_type.rs", "src/ndarray.rs", "src/tile.rs"],
  [("type table", "src/data_type.rs DataType::from_tags"), ("typed view and shape check", "src/array.rs"), ("ndarray conversion", "src/ndarray.rs")],
  observe=["Array, TypedArray, NdArray"])

p("C17", "Malformed metadata is an error, never a crash, hang or huge allocation",
  "Opening and reading any sequence of bytes as a TIFF, through any reader, ends after a bounded number of reads with a result or an error: no panic, abort, endless loop, or allocation out of proportion to the data actually read. The same holds for asking the resulting directories for any accessor, tile range or tile.",
  ["inputs"],
  "all single-field corruptions (every byte value at every position, every boundary value in every field) and all truncations of a set of valid files covering both layouts and byte orders, plus pairs of field corruptions; all entry type/count/offset combinations from a boundary alphabet",
  "Tests only read valid files.",
  ["src/metadata/reader.rs", "src/metadata/fetch.rs", "src/ifd.rs", "src/geo/geo_key_directory.rs", "src/tag_value.rs"],
  [("checked arithmetic and error returns", "src/metadata/reader.rs, src/ifd.rs")],
  observe=["result of open/read/accessors; panics, allocations, number of reads"])

p("C18", "Corrupt tile data is an error or a consistent array, never a crash",
  "Decoding a tile whose stored bytes, directory parameters or codec tables are corrupt or inconsistent with each other ends in an error or in an array whose length matches its shape and type: no panic, abort, endless loop or allocation out of proportion to what the tags and the stream itself announce. A stream that is cut short or fails its own checksum is never decoded to other samples. This holds for every codec, predictor and organisation.",
  ["inputs", "configurations"],
  "for every codec: all truncations, all single-byte substitutions of small streams, foreign streams, wrong dimensions, sample counts, bit depths, predictors and tables in all combinations of a small alphabet",
  "Tests only decode valid tiles.",
  ["src/tile.rs", "src/decoder.rs", "src/predictor.rs", "src/array.rs"],
  [("length checks", "src/predictor.rs, src/array.rs"), ("decoder errors", "src/decoder.rs")],
  observe=["result of Tile::decode; panics, aborts"])

p("C19", "Tag value conversions are exact or an error",
  "Converting a tag value to a number, string or list gives exactly the stored value or an error; it never truncates, wraps, reorders or drops elements, and a number that fits is accepted alike as a single value and as an element of a list.",
  ["inputs"],
  "every value kind x every conversion x all boundary values of every integer width, lists of up to 3 elements of mixed kinds",
  "Conversions have no direct tests.",
  ["src/tag_value.rs"],
  [("checked conversions", "src/tag_value.rs TagValue::into_*")],
  observe=["results of the conversion methods"])

p("C20", "A failed or short read anywhere surfaces as an error and is retryable",
  "Whatever request to the source fails or ends early while opening a file, reading its directories or fetching tiles, the operation reports an error instead of wrong metadata or pixels, and the error of the source is passed on. Repeating a step that failed, or that was dropped half-way, on the same reader object once the source works gives exactly the result of an undisturbed run, with or without the readahead cache; reading all directories goes on with the first one not read yet.",
  ["fault_sequences", "crash_points"],
  "a fault (error, empty answer, every short length) at every request of the reading history of files of every layout, pairs of faults, and retry at every stage",
  "No test injects a fault.",
  ["src/metadata/reader.rs", "src/metadata/cache.rs", "src/metadata/fetch.rs", "src/ifd.rs", "src/reader.rs"],
  [("error propagation, state advanced only after success", "src/metadata/reader.rs read_next_ifd"), ("cache append after success", "src/metadata/cache.rs")],
  [("next directory offset", "unchanged by a failed read", "src/metadata/reader.rs TiffMetadataReader.next_ifd_offset")],
  ["results of each call and its retry"])

p("C21", "The reported header size is enough to reread all metadata in one request",
  "The reported header size is the smallest non-zero tile or strip offset of all directories. For a file whose metadata precede its data, a metadata cache whose first request has that size rereads the whole file's metadata, with the same result, in one request that touches no pixel data.",
  ["inputs", "configurations"],
  "all sets of up to 3 directories with tiled, stripped, sparse (zero) and unordered offsets, both layouts",
  "One test compares the value with a re-implementation of itself on one file.",
  ["src/tiff.rs", "src/metadata/cache.rs"],
  [("minimum over all offsets", "src/tiff.rs TIFF::header_byte_size")],
  observe=["header_byte_size(), requests seen by the source"])

p("C22", "Numeric codes map to the TIFF-defined names, one to one, losing none",
  "Every 16-bit code of a tag, field type, compression, colour interpretation, organisation, predictor, resolution unit, sample format or extra-sample kind maps to the meaning the TIFF specification (or its registered extension) gives it and back to the same code. Codes without a defined meaning are kept as unknown with their number where the type allows that and are rejected where it does not.",
  ["inputs"],
  "all 65536 codes of every code type",
  "No test covers the mappings.",
  ["src/tags.rs"],
  [("code tables", "src/tags.rs")],
  observe=["from_u16, from_u16_exhaustive, to_u16"])

p("C23", "Python objects expose the same metadata, tiles and errors as the Rust core",
  "Opening a file from Python, from an object store or from an obspec backend, makes the requests the Rust library makes and shows the same directories: every attribute, mapping item, key, GeoKey and colormap has the value of the Rust accessor (codes as enumeration members or integers), byte order, header size, tile count and byte ranges too. Fetching tiles through the file or the directory, singly or in batches, gives the tiles asked for in order, with their bytes; decoding them, blocking or not, once, gives a read-only buffer with the shape, element type, byte length and elements of the Rust array, which keeps its object alive. Decoders given by Python are called for their compression alone, with the stored bytes. Invalid input raises: FileNotFoundError for missing objects, IndexError, KeyError, TypeError, ValueError or AsyncTiffException otherwise, with the message of the Rust error, never a panic. All this under any interleaving of awaitables on the event loop, whatever other awaitable fails or is cancelled.",
  ["inputs", "schedules"],
  "all files and call sequences of the other properties, through the Python API",
  "The Python tests need network fixtures and sample a few files.",
  ["python/src/tiff.rs", "python/src/ifd.rs", "python/src/tile.rs", "python/src/array.rs", "python/src/decoder.rs", "python/src/reader.rs", "python/src/geo.rs", "python/src/enums.rs", "python/src/value.rs", "python/src/colormap.rs", "python/src/error.rs"],
  [("wrappers around the Rust types", "python/src")],
  observe=["Python attribute values, buffers, exceptions, requests to a Python backend"])

p("C24", "The enumerations of the Python package carry the TIFF codes the library uses",
  "In async_tiff.enums (importable by itself) every member of Compression, ExtraSamples, PhotometricInterpretation, PlanarConfiguration, Predictor, ResolutionUnit and SampleFormat has the TIFF code of its name, equal to the code the Rust library gives that meaning; looking a code up yields the member of that meaning, for every 16-bit code, and fails only for codes without one. The members are integers equal to their codes, and no name or code is lost. Endianness has the two members LittleEndian (0) and BigEndian (1).",
  ["inputs"],
  "all 65536 codes and all members of every enumeration",
  "The Python tests compare a few members with the values of sample files.",
  ["python/python/async_tiff/enums.py", "src/tags.rs"],
  [("enumerations", "python/python/async_tiff/enums.py")],
  observe=["async_tiff.enums members and lookups"])

p("C25", "Uses of readers, directories, tiles and decoders do not influence each other",
  "Tasks that fetch tiles, singly or in batches, from one directory through one reader at the same time each get exactly the tiles they asked for, under every interleaving and order of completion and whatever other task is dropped or fails, also while the file is being opened by another task. What a fetch, a decoding or a metadata reader yields does not depend on what was fetched, decoded or read before, successfully or not, nor on whether an original or a clone is used; a decoder registry decodes with exactly the decoders registered at that moment.",
  ["schedules", "histories", "faults"],
  "all interleavings of 2-3 tasks with single and batch fetches, one dropped or failing; all sequences of decodings, registrations, fetches from two files of the same make, and steps of two metadata readers to a bound",
  "Tests fetch and decode each tile once, alone and in one order.",
  ["src/ifd.rs", "src/tile.rs", "src/decoder.rs", "src/reader.rs", "src/metadata/reader.rs"],
  [("fetching takes shared references only", "src/ifd.rs ImageFileDirectory::fetch_tile, fetch_tiles"), ("decoding by registry", "src/tile.rs Tile::decode"), ("registry", "src/decoder.rs DecoderRegistry"), ("position in the chain", "src/metadata/reader.rs TiffMetadataReader")],
  observe=["tiles and arrays returned to each task and at each step"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
