#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one source for both)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TESTS = "The existing tests decode about 30 fixed pictures and a handful of hard-coded grids; "
P = []
def prop(id, title, statement, over, text, why, files, mech, obs, tech, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, obs=obs, tech=tech, note=note))

D, L, G, I, T, PR, GE, MC, VD = ("src/decode.rs", "src/lib.rs", "src/identify/grid.rs", "src/identify/mod.rs", "src/detect.rs",
                             "src/prepare.rs", "src/geometry.rs", "src/identify/match_capstones.rs", "src/version_db.rs")
CODE = "exhaustive enumeration of a bounded input space on the real code, judged by an independent reference model"
REFNOTE = "Every case of the stated finite spaces is executed on the real crate through its public API and compared with an ISO/IEC 18004 reference encoder/decoder that shares no code or table with the crate. "

prop("C01", "Every standard QR symbol decodes to exactly its content",
 "For every QR code version 1-40, error correction level, mask and content that fits, decoding the undamaged module square gives exactly the encoded bytes and reports the symbol's version, level and mask. The text-returning and the writer-based ways to decode agree.",
 ["inputs", "configurations"], "all 1280 (version, level, mask) configurations x all four data modes x all lengths up to capacity x all byte values",
 TESTS+"they reach a few of the 1280 configurations and never the capacity of a symbol, so a wrong entry in a table, a wrong block split or a wrong length at one version passes them.",
 [D, L, VD], [("codeword placement, unmasking, block split", "src/decode.rs"), ("block structure of the 160 version-level pairs", "src/version_db.rs")],
 ["Grid::decode", "Grid::decode_to"], CODE,
 REFNOTE+"All 1280 configurations at capacity in four modes, all lengths for versions 1-4. Contents are position-dependent patterns, not all strings.")
prop("C02", "Raw data is every data module once, in standard order, with right metadata",
 "The raw data of a grid holds each data module of the symbol exactly once, in the placement order of the standard, still masked, and has the right number of bits, for every version. The metadata that comes with it are the version, level and mask the symbol carries.",
 ["inputs", "configurations"], "all 40 versions x 32 format values; every single module",
 TESTS+"raw data extraction is compared for one code only, so a module that is skipped, read twice or out of order in another version (alignment patterns, version information areas) is not seen.",
 [D, L, VD], [("order of data modules, reserved areas", "src/decode.rs"), ("alignment pattern positions", "src/version_db.rs")],
 ["Grid::get_raw_data"], CODE,
 REFNOTE+"The binary numbering of all modules determines the position every bit was read from for all 40 versions and 32 formats.")
prop("C03", "Damage within the correction capacity never changes the result",
 "If in every block of a symbol with e error correction codewords at most floor(e/2) codewords are wrong, decoding gives the same content and metadata as the undamaged symbol.",
 ["inputs"], "all error patterns up to capacity, in every version, level and block",
 TESTS+"none of them damages codewords systematically; correction at full capacity, in the last block, at the last codeword or in long blocks is never exercised.",
 [D, VD], [("Reed-Solomon decoding (syndromes, error locator, correction)", "src/decode.rs")],
 ["Grid::decode_to"], CODE,
 REFNOTE+"Version 1: all sets of exactly floor(e/2) wrong codewords at every level, all single values; larger versions: windows that cover every position in every block of all 160 version-level pairs.")
prop("C04", "Damage beyond the capacity gives an error, never silently wrong content",
 "If a block has more wrong codewords than can be corrected, decoding reports a data error instead of content, unless the damaged block is within correction capacity of another valid block. No content other than that of the nearest valid blocks is ever returned as a success.",
 ["inputs"], "all error patterns beyond capacity",
 TESTS+"a decoder that does not verify its correction returns garbage only on uncorrectable inputs, which the tests hardly contain.",
 [D], [("verification after correction", "src/decode.rs")],
 ["Grid::decode_to", "Grid::decode"], CODE,
 REFNOTE+"The reference decoder is Peterson-Gorenstein-Zierler. Version 1: all sets of one more wrong codeword than can be corrected (levels L, M, Q).")
prop("C05", "Format information survives 3 wrong modules and the loss of one copy",
 "Level and mask are read correctly if the first copy of the format information has at most 3 wrong modules, whatever the second copy holds, or if the first copy is unreadable and the second has at most 3. If neither copy is within 3 modules of a valid format, decoding fails with a format error and writes nothing.",
 ["inputs"], "all 32768 words in either copy, all 40 versions",
 TESTS+"format damage is not tested systematically; there are 2^15 words per copy.",
 [D], [("format correction and fall back to the second copy", "src/decode.rs")],
 ["Grid::decode", "Grid::decode_to", "Grid::get_raw_data"], CODE,
 REFNOTE+"All 2^15 words per copy for version 1; all patterns of at most 2 wrong modules in all 40 versions.")
prop("C06", "Every sequence of data segments decodes to the concatenated content",
 "A data stream of any sequence of numeric, alphanumeric, byte, kanji and character-set-designator segments decodes to the concatenation of the segments' contents, for each of the three length-field classes, whether it ends with a full, a shortened or no terminator. What follows the terminator has no influence.",
 ["inputs", "programs"], "all sequences of segments up to the capacity of the symbol",
 TESTS+"they contain single-segment codes in few versions; value tables (10^3 digit groups, 45^2 pairs, 6879 kanji) and mixed streams are not reached.",
 [D], [("segment decoding per mode", "src/decode.rs")],
 ["Grid::decode_to"], CODE,
 REFNOTE+"All group values of all modes at all 8 bit alignments; all sequences of up to 3 (thorough: 4) segments over an alphabet of 29; all ordered pairs of modes that fill the symbol to within 0-7 bits.")
prop("C07", "Malformed data streams give the right error, never invented content",
 "A data stream that is cut off inside a segment is an underflow error, an unknown segment type is an unknown-type error, and whatever was complete before it may be written but nothing else. Bytes that are not UTF-8 are an encoding error when text is asked for; decoding never panics.",
 ["inputs"], "all bit streams with correct parity",
 TESTS+"no test contains a malformed stream.",
 [D, L], [("bounds checks of the bit stream", "src/decode.rs")],
 ["Grid::decode", "Grid::decode_to"], CODE,
 REFNOTE+"All 2^19 prefixes of the stream of a 1-H symbol with several tails, all count fields around the capacity. Streams without a meaning in the standard only have to return.")
prop("C08", "Decoding any grid terminates without panic and reads only cells inside it",
 "For a grid of any side and any cells, decoding and raw data extraction return a result or an error, without panic, arithmetic overflow or access to a cell outside the grid. Grids with a side below 21 or above 180 are rejected as an invalid version.",
 ["inputs"], "all sides and all module patterns",
 TESTS+"all of them use well-formed sides and valid symbols.",
 [D, L], [("size and version checks", "src/decode.rs"), ("BitGrid contract", "src/lib.rs")],
 ["Grid::decode", "Grid::decode_to", "Grid::get_raw_data"], CODE,
 REFNOTE+"All sides 0-260 and extremes with 33 formats; all version 1 symbols within two modules of a valid one. Sides of 21-180 that belong to no version need only return.")
prop("C09", "Mirrored symbols decode like straight ones and do not mask its errors",
 "A symbol whose module square is transposed decodes to the same content and metadata as the straight one, with damage up to the correction capacity as well. If neither reading succeeds, nothing is written and the error is that of the straight reading.",
 ["inputs", "configurations"], "all 1280 configurations; all format words",
 TESTS+"one mirrored picture is tested.",
 [D, L], [("second attempt on the transposed grid", "src/decode.rs"), ("MirroredGrid", "src/lib.rs")],
 ["Grid::decode", "Grid::decode_to"], CODE, REFNOTE)
prop("C10", "The writer gets exactly the content, whatever it does",
 "Whatever sequence of partial writes, interruptions and failures the writer answers with, decoding succeeds exactly if every byte was accepted, the accepted bytes are always a prefix of the content in order without gap or repetition, and a refused byte makes decoding fail with an input/output error.",
 ["fault_sequences", "inputs"], "all placements of writer faults on the sequence of write calls",
 TESTS+"all of them write to memory, which never refuses.",
 [D, L], [("writes of decoded groups", "src/decode.rs")],
 ["Grid::decode_to"], "exhaustive fault injection: all placements of up to two (thorough: three) writer deviations, on the real code",
 "Every placement of up to two (thorough: three) deviations {one byte, Interrupted, Ok(0), error, WouldBlock} on the writer's call sequence is executed and compared with the model content.")
prop("C11", "A symbol in an image is found once, sampled exactly and read",
 "A black and white or greyscale image with one undamaged symbol of any version, level and mask, in any of the 8 orientations, at 2 or more pixels per module, at any place in the image, yields exactly one grid, whose cells are the modules drawn and which decodes to the content. Symbols turned by any angle (versions up to 9) or in moderate perspective (versions up to 7), at 10 or more pixels per module, are found once and read as well, from version 2 on sampled exactly.",
 ["inputs", "configurations"], "all versions x sizes x orientations x positions x angles x perspectives",
 TESTS+"about 30 photos; whether a given version is found at a given scale, place, rotation and orientation is a different question for each.",
 [T, I, G, MC, GE, PR], [("finder pattern search", "src/detect.rs"), ("grid location, alignment pattern search, perspective fit", "src/identify/grid.rs")],
 ["PreparedImage::detect_grids", "Grid::decode_to"], "exhaustive enumeration of a lattice of drawn scenes on the real code, judged by the drawing",
 "All combinations of the stated finite lattices are drawn and searched. Symbols in which data modules imitate a finder pattern are excluded (decided by the model).")
prop("C12", "Several symbols in one image are each found once and read",
 "In an image with several undamaged upright symbols (two in any orientations, or a regular sheet in one orientation), each is found exactly once, its cells are exactly its own modules, it reads its own content, and no further grid is reported. Sheets that are turned or in moderate perspective are read as well, from version 2 on sampled exactly.",
 ["inputs", "configurations"], "all pairs of versions, scales, orientations and placements; all sheets up to 4 x 4, and one of 90; sheets up to 3 x 3 turned and tilted",
 TESTS+"two pictures with two codes each.",
 [I, MC, PR, G], [("grouping of finder patterns", "src/prepare.rs, src/identify/match_capstones.rs")],
 ["PreparedImage::detect_grids", "Grid::decode_to"], "exhaustive enumeration of a lattice of drawn scenes on the real code, judged by the drawing",
 "All combinations of the stated lattices. Scenes in which finder patterns of different symbols lie like those of one symbol are excluded (decided by the model).")
prop("C13", "Searching and reading any image terminates without panic, in bounds",
 "For an image of any size (sides of zero included) and any content, preparing, searching and reading all grids found returns without panic, arithmetic overflow or access to a pixel outside of the image. Every grid reported has the side of a QR version, from 21 to 177.",
 ["inputs"], "all images",
 TESTS+"pathological images (degenerate finder patterns, lines meeting at infinity, one-pixel images, very long ones) do not occur in them.",
 [T, I, G, MC, GE, PR], [("guards in geometry and region code", "src/geometry.rs, src/detect.rs, src/identify/grid.rs, src/prepare.rs")],
 ["PreparedImage::prepare", "PreparedImage::detect_grids", "Grid::decode"], "exhaustive enumeration of bounded image spaces on the real code with checked arithmetic and a bounds-checking image type",
 "All black and white images up to 17 (thorough: 20) pixels, all stacks of 7 row kinds, lattices of three finder-like shapes, cropped, blotted, stretched, sheared symbols, very long images. Larger arbitrary images are not all covered.")
prop("C14", "Searching only recolours: white stays white, dark zones stay whole",
 "Searching an image never makes a white pixel dark or a dark one white, and after it all pixels of a connected dark zone have one and the same shade. Cells and content of a grid found are the same each time they are read, and the same as those of a copy of its cells.",
 ["inputs", "histories"], "all images, any number of searches",
 TESTS+"the state of the image after a search is looked at for two flood fills only.",
 [PR, T, G], [("flood fill", "src/prepare.rs"), ("region cache with 251 shades", "src/prepare.rs")],
 ["PreparedImage::get_pixel_at", "Grid::decode_to"], "exhaustive enumeration of bounded images, invariant checked on every reached state of the real code",
 "All images up to 15 (thorough: 18) pixels, all 2^16 (2^20) mazes attached to a finder pattern, 0-560 zones around the number of shades.")
prop("C15", "Clutter around a symbol does not keep it from being read",
 "A symbol with its quiet zone is found exactly once, sampled exactly and read whatever number of dark zones that do not imitate finder patterns surround it, be it more than there are shades to mark them. Neither do a few lone finder patterns 27 or more modules beside a symbol of version 7 or higher.",
 ["inputs", "histories"], "any number (0-600) and kind of zones, before and after the symbol in scan order",
 TESTS+"no test has more than 251 dark zones examined before the symbol.",
 [PR, T], [("recycling of shades", "src/prepare.rs")],
 ["PreparedImage::detect_grids", "Grid::decode_to"], "exhaustive enumeration of clutter counts, kinds and places on the real code, judged by the drawing",
 "Every count from 0 to 600 (thorough: 1200) of three kinds of clutter on four sides, tall bars, and numbered noise.")
prop("C16", "Bounds are the four corners of the symbol in reading order",
 "The bounds of a grid found are the corners of the symbol in the image, in the order top-left, top-right, bottom-right, bottom-left of the symbol as read (for a mirrored symbol, with the axes exchanged), to within about a module.",
 ["inputs", "configurations"], "all versions, orientations, angles, perspectives",
 TESTS+"no test looks at bounds of detected grids.",
 [PR, G, GE], [("mapping of corners", "src/prepare.rs"), ("perspective", "src/geometry.rs")],
 ["Grid::bounds"], "exhaustive enumeration of a lattice of drawn scenes on the real code, judged by the drawing",
 "Tolerance: 1 module, at the far sides -1 to +2 modules (the crate reports the point one module beyond).")
prop("C17", "Copies are independent and repeated searches depend on the image alone",
 "A copy of a prepared image, made before or after a search, is independent of the original and behaves exactly like it from then on: same grids, same shades. The result of the k-th search of an image depends on its pixels and k only.",
 ["histories"], "all histories of searches and copies of two images",
 TESTS+"no test copies a prepared image or searches one twice.",
 [PR], [("Clone of pixels and region cache", "src/prepare.rs")],
 ["PreparedImage::clone", "PreparedImage::detect_grids", "PreparedImage::get_pixel_at"], "exhaustive enumeration of operation sequences on the real code against a reference history without copies",
 "All sequences of 4 (thorough: 5) operations on 31 scenes, of 5 (6) on few.")
prop("C18", "All ways to hand in an image agree",
 "The same pixels handed in as a bit function, as a brightness function or in an image buffer (the caller's own type included) give the same prepared image, the same grids and the same state after a search; the function is asked exactly once for each pixel with column and row in that order. Unprepared buffers are accepted only if they are black and white, a point outside reads the nearest pixel, and the picture written for inspection shows the state.",
 ["inputs", "configurations"], "all images, all pixel values, all points",
 TESTS+"they use one or the other entry point per picture and no rectangular function images.",
 [PR], [("constructors, pixel access", "src/prepare.rs")],
 ["PreparedImage::prepare*", "PreparedImage::without_preparation", "PreparedImage::get_pixel_at_point", "PreparedImage::write_state_to"], "exhaustive enumeration of bounded images on the real code, entry points compared with each other and the input",
 "All images up to 12 (16) pixels, all 256^2 pairs of luminance values, all 256 values at all places of a small image, symbols of all versions.")
prop("C19", "Thresholding separates light and dark in any sufficient contrast and light",
 "A greyscale symbol is found once and read for every pair of a light shade of at least 60 and a dark shade of at most half of it, and under light that varies smoothly across the image (150 to 255). An image of one single shade, of any size, becomes all white; the lightest pixels of an image never become dark.",
 ["inputs"], "all pairs of shades, all lattices of corner light, all uniform images",
 TESTS+"photos with their one lighting each.",
 [PR], [("adaptive threshold with a moving average", "src/prepare.rs")],
 ["PreparedImage::prepare_from_greyscale", "PreparedImage::get_pixel_at"], "exhaustive enumeration of shades and lightings on the real code, judged by the drawing",
 "All pairs of shades; images up to 16500 (66000) pixels wide or high; light at the four corners out of three (four) values; all uniform images up to 13 x 13 and 65 x 65.")
prop("C20", "No symbol is invented",
 "An image with fewer than three finder patterns (in any place, with or without noise), with three finder patterns and nothing between them, or with a symbol one or all of whose finder patterns are destroyed or replaced by something of clearly other proportions, broken up or joined to their middle, yields no grid.",
 ["inputs"], "all placements of up to two finder patterns; all versions with any finder pattern destroyed",
 TESTS+"two negative pictures.",
 [T, I, G, MC], [("finder pattern test, timing pattern test", "src/detect.rs, src/identify/grid.rs")],
 ["PreparedImage::detect_grids"], "exhaustive enumeration of a lattice of drawn scenes on the real code",
 "All offsets (quick: every third) of two finder patterns at three scales; all versions, 8 orientations and three kinds of destruction; every width of each of the five runs and of the stone with all others. Replacements that the model takes for a finder pattern, with more tolerance than the crate has, are counted, not judged.")
prop("C21", "Grid, version and raw data helpers do what they say",
 "A grid made from a function has the given side and exactly the cells of the function, also in a copy, and decodes like them; sides and versions convert into each other for versions 1-40 and other sides below 21 or above 180 are refused; bits pushed to raw data are stored in order, most significant first; the image written of a grid shows exactly its modules.",
 ["inputs"], "all sides and cells",
 TESTS+"only whole codes are tested, at few sides.",
 [L, VD, D], [("SimpleGrid, Version, RawData, write_grid_to", "src/lib.rs, src/version_db.rs, src/decode.rs")],
 ["SimpleGrid::from_func", "Version::from_size", "Version::to_size", "RawData::push", "BitGrid::write_grid_to"], CODE,
 "All sides 0-4096, all squares up to 4 x 4, binary numbering of all cells up to side 180 (260).")

prop("C22", "Stains within the correction capacity do not keep a symbol from being read",
 "A symbol in an image with a dark, light or inverted stain that leaves its function patterns alone and every block correctable is found exactly once, sampled exactly (stain included) and reads its content. A single wrong pixel anywhere beside the finder and timing patterns does no harm either. Nor does it matter what becomes of one of the two timing patterns, of one copy of the format information, of version information or of alignment patterns other than the last.",
 ["inputs"], "every place and size of a stain, every single pixel, every content of one timing pattern",
 TESTS+"error correction of a detected symbol happens in some photos, with damage that just happens to be there.",
 [T, G, I, D], [("alignment pattern search, sampling", "src/identify/grid.rs"), ("error correction", "src/decode.rs")],
 ["PreparedImage::detect_grids", "Grid::decode_to"], "exhaustive enumeration of stains and single pixel faults on the real code, judged by the drawing",
 "Versions 1-14 in part. Stains beyond the capacity (decided by the model) and images in which a stain completes an imitation of a finder pattern are counted, not judged.")
prop("C23", "Symbols at fractional sizes, stretched, sheared or smoothed are read",
 "A symbol drawn at a fractional number of pixels per module (4 or more), stretched differently in width and height, sheared by up to half a pixel per pixel (versions 2-7, 8 or more pixels per module), or smoothed as a greyscale image (versions 2-7, 6 or more) is found exactly once and read. Unless it is smoothed it is, from version 2 on, also sampled exactly.",
 ["inputs", "configurations"], "all sizes, ratios and shears of a fine lattice",
 TESTS+"none of them varies size or aspect systematically; rounding at one ratio is not seen.",
 [T, I, G, GE, PR], [("finder pattern search with tolerances", "src/detect.rs"), ("perspective fit", "src/geometry.rs, src/identify/grid.rs")],
 ["PreparedImage::detect_grids", "Grid::decode_to"], "exhaustive enumeration of a lattice of drawn scenes on the real code, judged by the drawing",
 "All combinations of the stated lattices (steps of a tenth of a pixel). Smaller drawings are sometimes not found: the tolerances of the search are integers.")

prop("C24", "A spoilt symbol does not keep its neighbours from being read",
 "If one symbol of a sheet is spoilt (a finder pattern, timing patterns, format information, data or half of it destroyed, or all of it dark), every other symbol is still found exactly once, sampled exactly and read. At most one further grid is reported, and reading it fails.",
 ["inputs", "configurations"], "all sheets up to 3 x 3 of a set of versions, each place, 9 kinds of destruction, 8 orientations",
 TESTS+"no test picture has a broken code beside a good one, where the finder patterns left over compete for those of the good one.",
 [I, MC, PR, G], [("grouping of finder patterns", "src/prepare.rs, src/identify/match_capstones.rs")],
 ["PreparedImage::detect_grids", "Grid::decode_to"], "exhaustive enumeration of a lattice of drawn scenes on the real code, judged by the drawing",
 "All combinations of the stated lattice. Scenes in which finder patterns of different symbols lie like those of one (decided by the model) are left out.")
prop("C25", "A bad picture of a symbol is never read as something else",
 "Whatever grids are found in a cropped, noisy, damaged, tiny, turned or steeply tilted picture of one symbol, reading them gives the content and metadata drawn or an error. The symbol is successfully read at most once.",
 ["inputs"], "all crops, numbered noise of every density, sizes from 0.6 pixels per module, all corner displacements of a lattice",
 TESTS+"the pictures are mostly good; a wrong answer on a bad one needs a picture bad in the right way.",
 [D, PR, G, T], [("error correction, format correction", "src/decode.rs"), ("sampling", "src/identify/grid.rs")],
 ["PreparedImage::detect_grids", "Grid::decode_to"], "exhaustive enumeration of a lattice of drawn scenes on the real code, judged by the drawing",
 "All crops at every row and column; noise patterns are numbered patterns at every density in steps, not all patterns.")

prop("C26", "White space around an image changes nothing",
 "White rows and columns to the right of and below a black and white image that has a wide white margin there change neither the grids found, nor what reading them gives, nor the shade of any pixel after one or two searches, whatever good or bad symbols the image shows. White rows and columns to the left and above only move the grids of undistorted symbols, spoilt ones included.",
 ["inputs", "histories"], "all pictures of a lattice x 8 margins, searched twice",
 TESTS+"no picture is searched in two frames.",
 [PR, T, I, G, MC], [("row scan, colouring, grouping", "src/detect.rs, src/prepare.rs"), ("alignment search, trial placements", "src/identify/grid.rs")],
 ["PreparedImage::detect_grids", "PreparedImage::get_pixel_at"], "exhaustive enumeration of a lattice of drawn scenes on the real code, each explored in several frames that have to agree",
 "All combinations of the stated lattice of good, spoilt, noisy and tilted pictures with 2 (thorough: 8) of the margins each. Trial placements of a grid that reach beyond the image are judged differently there, so the image has half its side of white to begin with.")

prop("C27", "Searching and decoding take effort in proportion",
 "Searching an image reads and writes its pixels at most a few times each, plus a fixed effort for each group of finder patterns it tries; sheets of good symbols take hardly more groups than symbols, other regular arrangements of n finder patterns at most about n squared. The memory needed is a few times that of the image, however many symbols it shows, and decoding asks for each cell at most a few times. (If one row crosses more zones that look like finder patterns than there are shades, the reads may grow with the number of rows.)",
 ["inputs"], "all images of a lattice of growing patterns, sheets and finder pattern arrays",
 TESTS+"no effort is measured.",
 [PR, D, I, G, MC], [("flood fill, shade cache", "src/prepare.rs"), ("ranking and trial of groups", "src/prepare.rs find_groupings, src/identify/match_capstones.rs"), ("fitting, alignment search", "src/identify/grid.rs")],
 ["PreparedImage::prepare", "PreparedImage::detect_grids", "Grid::decode", "Grid::get_raw_data"], "exhaustive enumeration of a lattice of images and grids on the real code, pixel accesses, copies and memory counted by the image type and the allocator of the explorer",
 "All images of the stated lattice up to 2 (thorough: 8) megapixels and 400 (1600) symbols. Effort is counted in accesses to pixels and cells, copies and bytes held, which do not depend on the machine; time is not judged beyond a cap of 45 s per case.")

prop("C28", "Calls do not influence each other",
 "What a call returns depends on its arguments alone: on no other call before, after or during it, on the same grid or image or another, on this thread or another, whether that other call succeeds, fails or is broken off by a panic of the caller's code. This includes calls made from within the caller's own grid, image or writer while the crate is using it. No call waits for another to end.",
 ["schedules", "histories", "crash_points"], "all interleavings of the steps of two and three jobs; every callback as a preemption or break-off point",
 TESTS+"each runs a single call on its own; memory kept between calls (a scratch buffer, a table filled on first use, a lock) only fails for the second caller in a particular state.",
 [D, L, PR, I], [("decoding works on its own buffers", "src/decode.rs"), ("all state of a search is held by the image", "src/prepare.rs")],
 ["PreparedImage::prepare", "PreparedImage::without_preparation", "PreparedImage::detect_grids", "Grid::get_raw_data", "Grid::decode", "Grid::decode_to"],
 "stateless exploration of schedules of the real code under a controlled scheduler: all interleavings of jobs in steps, all schedules of two calls with one preemption and, for small grids, two, at every call of the caller's grid, image or writer; all points to break off",
 "24 jobs (grids: good, mirrored, damaged, uncorrectable, malformed, impossible sides; images: symbols, clutter, nothing, more zones than shades), judged by the reference model when alone and against that in every schedule; on one thread, nested in callbacks, and on several threads of which one runs at a time. Scheduling points are calls into the caller's code and call boundaries; larger jobs are stopped at every 17th (197th) of these in the quick run.")

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["obs"], "hook_needed": None}}) + "\n")
man = {"version": 1, "setup_cmd": "bash run.sh build",
  "checks": [{"property": p["id"], "quick_cmd": f"bash run.sh check {p['id']} quick",
    "thorough_cmd": f"bash run.sh check {p['id']} thorough", "evidence_file": f"evidence/{p['id']}.json",
    "technique": "model checking: " + p["tech"], "level": "model_checking", "level_note": p["note"]} for p in P],
  "not_applicable": [],
  "notes": "No hooks: everything is observed through the public API. See DESIGN.md."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1); f.write("\n")
for p in P:
    assert len(p["title"]) <= 80, p["title"]
    n = p["statement"].count(". ") + 1
    assert n <= 3, (p["id"], n)
