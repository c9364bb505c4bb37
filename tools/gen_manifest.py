#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENUM = "stateless model checking of the implementation: "
N = {
"C01": (ENUM + "exhaustive enumeration of file configurations",
  "Every combination of format, sample type, codec, predictor, organisation, geometry, reader and cache within the stated bounds is written by an independent TIFF writer, opened, fetched and decoded by the real code and compared element by element. Trusts the writer (mc/src/tiffw.rs) and the encoders; sample values follow one pattern per configuration."),
"C02": (ENUM + "all request sequences and source answers to a bound",
  "All histories of up to 3 requests (5 in a smaller alphabet) with every placement of failed and short answers run on the real cache and are compared with the file. Sources that answer with other bytes than the file's are out of scope."),
"C03": (ENUM + "all task interleavings, cancellations and faults under a controlled scheduler",
  "Every interleaving of polls and answers of 2-4 tasks on the real cache, every lock acquisition being a scheduling point, with cancellations and faults; a state in which no task can go on counts as a deadlock. Tasks are polled one at a time, so memory-model effects of parallel threads are left to tokio's locks."),
"C04": (ENUM + "all request sequences against a reference automaton of the cache",
  "Every request that reaches the source is compared with the one the reference automaton (a cached length) predicts, for all histories within the bounds, also under all interleavings of 2-3 tasks."),
"C05": (ENUM + "all poll answers, interleavings and cancellations of a simulated stream",
  "The real reader runs on a simulated seekable stream whose every poll answer (pending, short, error, end) is enumerated; several tasks under all interleavings. The stream follows the contract of tokio::fs::File."),
"C06": (ENUM + "all range lists, completion orders and failures",
  "All lists of up to 3 ranges through every reader and wrapper, with every order in which a gated backend completes and every failing part."),
"C07": (ENUM + "all ranges and server replies on a loopback server",
  "The real reader and HTTP client against a scripted server on 127.0.0.1; the requests received and the bytes returned are compared for every range and kind of reply. The HTTP library is trusted to frame messages."),
"C08": (ENUM + "all field types, counts, formats and layouts against an independent writer",
  "Every field type x count x format x layout x source is written and read back by the real code. Values follow a position-dependent pattern plus every type's extremes."),
"C09": (ENUM + "all header values and directory chains to a bound",
  "All 16-bit header fields and all chains of up to 4 directories in every order of positions with every target of the last pointer, read in several ways by the real code."),
"C10": (ENUM + "all tags, values, codes and tag pairs against a table of the TIFF specification",
  "The expected accessor and kind of each tag come from a table written from the specification; every tag x value, pair of tags and processing order runs through the real directory builder."),
"C11": (ENUM + "all GeoKey directories to a bound against a reference resolver",
  "Every key, location, offset, count and order of processing; expected values come from a resolver written from the GeoTIFF specification. Duplicate keys are out of scope."),
"C12": (ENUM + "all small grids, coordinates and table lengths",
  "Every coordinate in and around every small grid; expected ranges come from the tables by TIFF 6.0's formula."),
"C13": (ENUM + "all coordinate lists to a bound, every failing request",
  "All lists of up to 3 valid and invalid coordinates and long batches; batch results are compared with single fetches and with what was written."),
"C14": (ENUM + "all small tiles over extreme values, all geometries",
  "Forward predictors written independently are undone by the real decoder for all tiles of up to 4 samples over extreme values, all 16-bit values and all small geometries. Little-endian host only."),
"C15": (ENUM + "all compression codes and parameter combinations with recording decoders",
  "All codes and parameter combinations with recording decoders, all short byte strings through the lossless codecs, and sizes, types and tables of the image codecs. WebP and LERC streams come from the same C libraries that decode them."),
"C16": (ENUM + "all sample formats, depths, shapes and data lengths to a bound",
  "Every combination within the bounds, compared with a reference conversion."),
"C17": (ENUM + "all single-byte mutations, truncations and field mutations of files",
  "Every value of every metadata byte of 16 files, every truncation, all pairs of nearby fields at boundary values, through 7 readers; a separate process turns crashes, hangs and excess allocations into violations. Multi-byte corruptions beyond two fields are not covered."),
"C18": (ENUM + "all truncations, byte mutations and tag inconsistencies of tiles",
  "Every truncation and byte change of a valid tile of every codec and all inconsistent tag combinations within the bounds; crashes, hangs and excess allocations become violations. Streams whose own header announces an image of more than 32 MiB are left out."),
"C19": (ENUM + "all 16-bit numbers, boundary numbers and short lists",
  "All conversions of all values within the bounds against exact arithmetic in 128-bit integers."),
"C20": (ENUM + "all single and double faults at every request, then retry",
  "A fault at every request of opening, reading and fetching (and pairs of them), with retry on the same objects, compared with the undisturbed run."),
"C21": (ENUM + "all small sets of offset tables and file layouts",
  "All small tables and layouts within the bounds; requests are recorded."),
"C22": (ENUM + "all 16-bit codes of every coded type",
  "Complete over the 16-bit codes, against a table written from the TIFF specification and registered extensions."),
"C23": (ENUM + "all files, calls and schedules of awaitables to a bound through the sources of the Python extension",
  "The unchanged Rust sources of the extension run against stand-ins for pyo3 and its companions (not installed), called by name with Python signatures, and are compared with the Rust library on the same files. What those crates do themselves is modelled, not checked."),
"C24": (ENUM + "all 16-bit codes and members of every Python enumeration",
  "Complete over codes and members; the module is executed by the installed Python and compared with a table and with the Rust code tables."),
"C25": (ENUM + "all interleavings of tasks and all histories of decodings, registrations and fetches to a bound",
  "Every interleaving of polls and answers of 2-3 tasks fetching tiles through one gated reader, with a dropped task and a failed request, and every short history of decodings, registrations, fetches and directory reads, each result compared with what was written. A decoding is one step: parallel threads inside it are not explored."),
}
checks = [{
  "property": k,
  "quick_cmd": f"bash check.sh {k} quick",
  "thorough_cmd": f"bash check.sh {k} thorough",
  "evidence_file": f"evidence/{k}.json",
  "technique": t, "level": "model_checking", "level_note": n} for k, (t, n) in N.items()]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
 "not_applicable": [],
 "notes": "No hooks: every check drives the public interface of the crate. mc/ is one explorer with a module per property; see DESIGN.md."}
open(os.path.join(HERE, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
