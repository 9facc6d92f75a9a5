#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note))
NA = []

prop("P01", "Game items keep every record they are read from, byte for byte",
     "For every kind of game item, reading a record stream in the file format's order and writing the item again yields the same bytes: every number, flag, colour, text, enumerated value and drag point, with optional records staying absent when they were absent. A record of an unknown tag anywhere in the stream never disturbs the known ones.",
     ["inputs"], "every bit pattern of every fixed-size payload (floats included), every enumerated value, every absent-record choice, texts and lists up to the stated lengths, an unknown record at every position",
     "the tests write one or a few random items per kind and read them back; a wrong width, order, default or dropped value that their sample does not hit, or that reading and writing share, passes",
     ["src/vpx/gameitem.rs", "src/vpx/gameitem/*.rs", "src/vpx/biff.rs"],
     [("per kind reader and writer", "src/vpx/gameitem/*.rs biff_read/biff_write"), ("shared editor attributes", "src/vpx/gameitem/select.rs"), ("record framing", "src/vpx/biff.rs")],
     "all 21 item kinds of the format; texts up to 2 (thorough 3) symbolic characters, up to 2 (thorough 4) drag points / data pairs")
prop("P02", "Each record tag fills the field of that name, and only it",
     "A table's settings and each of its items expose, under the documented field, exactly the value the file stores under the format's tag for it: changing one record changes that field and no other. The item's type name and numeric type always agree.",
     ["inputs"], "all values of all records of every item kind, of the table settings and of the materials, each optional record absent in turn",
     "round-trip tests cannot see two tags swapped in reader and writer alike; only a fixed table of the format can, over all values",
     ["src/vpx/gameitem/*.rs", "src/vpx/gamedata.rs", "src/vpx/material.rs"],
     [("per kind reader", "biff_read of every item"), ("table settings reader", "src/vpx/gamedata.rs read_all_gamedata_records")],
     "the tag/field table (harness/spec.tsv) was transcribed from the pinned tree and reviewed against the Visual Pinball sources' names; same bounds as P01")
prop("P03", "Item queries report what the item's records say",
     "An item's name, lock state, editor layer, part group, referenced images and materials, physics material and visibility, as the library reports them, are those of its records, for every item kind. The part-group check warns about an item exactly when no group of the named group's name stands before it in the table.",
     ["inputs", "histories"], "all values and presence choices of the records concerned; every order of up to 4 (thorough 5) items over two groups",
     "the tests look at a few kinds with one hand-made item each",
     ["src/vpx/gameitem.rs", "src/vpx/gameitem/select.rs"],
     [("accessor matches per kind", "src/vpx/gameitem.rs GameItemEnum"), ("order validation", "src/vpx/gameitem.rs validate_part_group_order")],
     "all 21 kinds; texts of 0 or 1 symbolic characters in each field in turn; sequences of up to 4 (5) items")
prop("P04", "Table settings, materials, probes and script survive exactly",
     "Reading the table settings of a file of any version and writing them for the same version yields the same bytes: every setting, the legacy and the new materials, the render probes with their trailing bytes, the custom colours, the script and the lock counter. The full-single-screen flag keeps the place its file version gives it.",
     ["inputs"], "every file version, every bit pattern of every setting, each optional setting absent in turn, 0 to 2 (thorough 4) materials and probes, scripts up to 3 characters of 1 or 2 bytes",
     "one random table is written and read at one version in the tests",
     ["src/vpx/gamedata.rs", "src/vpx/material.rs", "src/vpx/renderprobe.rs", "src/vpx/model.rs", "src/vpx/biff.rs"],
     [("reader and writer in file order", "src/vpx/gamedata.rs"), ("76 and 48 byte legacy records", "src/vpx/material.rs"), ("version dependent EFSS", "src/vpx/gamedata.rs")],
     "legacy material names of 3 characters; unused padding bytes zero (the real program writes garbage there, which is documented to be dropped)")

prop("P05", "A table file keeps every part through writing and reading",
     "Writing a table to a file and reading it back gives the same table: version, settings, info, custom info values in their order, screenshot, every item, sound, image, font and collection in its order and with its bytes, for every number of each. The streams of the written file are the ones the format prescribes, with contiguous numbering, and each holds exactly its part.",
     ["inputs"], "every version from 1000 to 1099, all symbolic payload bytes of the parts, each info value absent or of any text within bounds, numbers of parts across the one and two digit stream names (thorough: three digits)",
     "the tests write one hand-made or bundled table; stream numbering, optional parts and part orders they do not contain are not exercised",
     ["src/vpx/mod.rs", "src/vpx/tableinfo.rs", "src/vpx/custominfotags.rs", "src/vpx/version.rs"],
     [("reading and writing of all streams", "src/vpx/mod.rs read_vpx / write_vpx"), ("info streams", "src/vpx/tableinfo.rs")],
     "0 to 24 (thorough up to 101) parts of a kind, screenshots across the mini-stream boundary of 4096 bytes (thorough up to 20000)")
prop("P06", "Images keep every record and every byte of their data",
     "Reading the record stream of an image and writing it again gives the same bytes, whether the image is a linked one, a file (any bytes) or a bitmap of one or more compressed blocks, with every optional record present or absent, and with records of unknown tags at any place.",
     ["inputs"], "all bytes of the data, dimensions, flags, digest and texts; the data of a bitmap may contain anything the block format allows except the one 7 byte sequence that cannot be told from the next record",
     "bitmap data ends without a length; only particular contents make the reader stop early or late, and test images do not contain them",
     ["src/vpx/image.rs", "src/vpx/biff.rs", "src/vpx/lzw.rs"],
     [("image records", "src/vpx/image.rs read/write"), ("end of bitmap data", "src/vpx/biff.rs")],
     "files up to 8 (thorough 40) bytes, up to 2 blocks of up to 9 (thorough 99) bytes, texts up to 2 (3) characters")
prop("P08", "Sounds keep their format and data, in the table and as files",
     "Reading a sound stream and writing it for the same file version gives the same bytes, for every file name, target, volume, balance and fade. Extracting a sound to a file and reading that file back gives the same wave format and data; a sound whose file name ends in .wav, in any case, or has no extension, is stored with a wave format, any other as its plain file.",
     ["inputs"], "all wave formats, all data bytes, all names and extensions within bounds, every file version on both sides of the format change",
     "the tests use one PCM sound with consistent header fields; stored headers in the wild are inconsistent",
     ["src/vpx/sound.rs", "src/vpx/wav.rs"],
     [("sound stream", "src/vpx/sound.rs read/write"), ("wav file", "src/vpx/sound.rs read_sound / write_sound, src/vpx/wav.rs")],
     "data up to 4 (thorough 40) bytes; names up to 3 (5) characters; for extraction of PCM the extension size is 0, as the format says")
prop("P09", "Fonts, collections and custom info tags keep their contents",
     "Reading the stream of a font, of a collection, or of the custom info tags and writing it again gives the same bytes: names, paths, data, item names in their order, and each flag in its own place, with unknown records at any position doing no harm.",
     ["inputs"], "all texts within bounds, all data bytes, all flag values, an unknown record at every position",
     "the tests use one instance of each with plain texts",
     ["src/vpx/font.rs", "src/vpx/collection.rs", "src/vpx/custominfotags.rs"],
     [("font records", "src/vpx/font.rs"), ("collection records", "src/vpx/collection.rs"), ("tag list", "src/vpx/custominfotags.rs")],
     "texts up to 2 (thorough 3) symbolic UTF-16 units or characters, up to 3 items or (12) tags, font data of 5 bytes")
prop("P10", "The integrity code of a written table covers what the format says",
     "The code stored in a written table is the MD2 digest, in the order and with the framing of the format, of the file version, the hashed info streams, the settings records and the records of items and collections, so that Visual Pinball accepts the file; reading a file and asking for its code gives the stored one.",
     ["inputs"], "all symbolic bytes of all parts that are hashed, presence or absence of each info value, every number of parts within bounds",
     "the tests compare the code of a few bundled tables",
     ["src/vpx/mod.rs", "src/vpx/biff.rs"],
     [("what is hashed, in which order", "src/vpx/mod.rs generate_mac")],
     "MD2 itself is replaced by a recorder of the hashed bytes (the md2 crate is not this repository's code); parts as in P05")
prop("P16", "Locking, unlocking and rewriting settings touch nothing else",
     "Locking a table changes exactly its lock counter and its integrity code, unlocking undoes it, and repeating either leaves the table as it was; rewriting only the settings of an open table gives a file whose code is right and whose other streams are unchanged.",
     ["inputs", "histories"], "all lock counters, all symbolic bytes of the table, sequences of up to 3 (thorough 4) operations in every order",
     "the tests lock one table once",
     ["src/vpx/mod.rs"],
     [("lock, unlock, settings rewrite", "src/vpx/mod.rs VpxFile::write_gamedata, lock, unlock")],
     "operation sequences up to 3 (4); table shapes as listed in jobs.py edits()")
prop("P07", "Bitmap pixels survive compression and the .bmp file",
     "Compressing the pixels of a bitmap and decompressing them gives the same bytes, and what is written is a stream that any decompressor of the format understands: blocks of 1 to 255 bytes holding codes of 9 to 12 bits between a clear and an end code. Streams of other compressors are read as well. Extracting a table writes a bitmap as a .bmp file which reads back with the same size and every pixel, alpha included. The size the table states for an image file is kept whatever the file says, and transparency is reported as the flag or, without one, the pixels say.",
     ["inputs"], "all choices of the free bytes of the pixels, every extension case, every alpha position and value chosen, every stated size chosen; the rest of the pixels follows fixed patterns that pass every code width and the clearing of the full table",
     "the tests compress a few sample files; code width changes, a full code table, block limits and single transparent pixels need particular data",
     ["src/vpx/lzw.rs", "src/vpx/image.rs", "src/vpx/expanded/images.rs"],
     [("compression in blocks", "src/vpx/lzw.rs"), ("bmp files", "src/vpx/expanded/images.rs write_image_bmp, read_image_bmp"), ("transparency", "src/vpx/image.rs image_has_transparency")],
     "up to 8 bytes of two values or one byte of any value free, lengths 0 to 9000 (thorough 40000) otherwise patterned; bitmaps to 31 x 33 (thorough 64 x 300) pixels with 4 free bytes")
prop("P17", "Changing a table changes what was asked, and only that",
     "Adding an item, adding or replacing an image (by name, whatever its case) and setting the script give a table which, written and read again, holds exactly the changed parts, in their order, with the right counts. Turning images into webp converts every readable png and bitmap, keeps each pixel, renames the path, leaves all other images and parts of the file as they were and the integrity code right, and lists exactly the conversions made.",
     ["inputs", "histories"], "every sequence of up to 2 (thorough 3) changes with any one-character image name, every mixture of image kinds over up to 2 (thorough 3) images",
     "the tests convert one image of one kind; mixtures, unreadable files, links, bitmaps without data and names differing in case are not among them",
     ["src/vpx/mod.rs", "src/vpx/image.rs"],
     [("changes in memory", "src/vpx/mod.rs VPX::add_game_item, add_or_replace_image, set_script"), ("webp conversion", "src/vpx/mod.rs images_to_webp")],
     "11 image kinds (2 x 3 pixels); the webp is decoded by the image crate, whose codec is trusted")
prop("P12", "The JSON form of a part keeps every value",
     "Turning an item, the settings, a material (new and legacy), a render probe, an image's or a sound's description, the collections or the table info into JSON and back gives the same part: every number, flag, colour byte, enumerated value and text, absent values staying absent, order kept. Malformed colours and numbers in a JSON text are refused with an error.",
     ["inputs"], "every finite float in every field, every NaN and infinity where the format allows them, every byte of colours, every enumerated value, each optional value absent in turn, texts up to the bounds",
     "the tests convert one random value of each part; serde attributes that drop or rename a value on one side only show for particular values",
     ["src/vpx/jsonmodel.rs", "src/vpx/json.rs", "src/vpx/color.rs", "src/vpx/gameitem/*.rs", "src/vpx/gamedata.rs", "src/vpx/material.rs", "src/vpx/renderprobe.rs", "src/vpx/image.rs", "src/vpx/sound.rs"],
     [("settings, info and collections", "src/vpx/jsonmodel.rs"), ("floats", "src/vpx/json.rs"), ("colours", "src/vpx/color.rs"), ("per kind JSON", "src/vpx/gameitem/*.rs Serialize/Deserialize")],
     "JSON values, not their text (number formatting belongs to serde_json); fields of plain f32 are finite; texts of 1 (thorough 3) symbolic characters; a bitmap image's path ends in .bmp and no other's does")
prop("P11", "An extracted table reads back as the table it came from",
     "Extracting a table to a directory succeeds whatever its parts are called, puts every file inside that directory, each part into files of its own even where names only differ in case, and gives file names that are plain names; reading the directory gives the same table: version, info, script, screenshot, settings, materials in either form, probes, collections, items in order with lock state and layer, images, sounds and fonts with their data.",
     ["inputs"], "every character in the names of parts that meet (equal, other case, equal after cleaning, equal to a made-up name, leading out of the directory) and in the extension of the path they were loaded from; every kind of item with each of its index values absent; every presence of info and custom values",
     "the tests extract a few tables with plain, distinct names; names come from table authors and can hold anything",
     ["src/vpx/expanded/mod.rs", "src/vpx/expanded/images.rs", "src/vpx/expanded/sounds.rs", "src/vpx/expanded/fonts.rs", "src/vpx/expanded/gameitems.rs", "src/vpx/expanded/materials.rs", "src/vpx/expanded/metadata.rs", "src/vpx/expanded/util.rs"],
     [("file names of resources", "src/vpx/expanded/{images,sounds,fonts}.rs, util.rs"), ("item files and their index", "src/vpx/expanded/gameitems.rs"), ("materials, info, script, version", "src/vpx/expanded/{materials,metadata,mod}.rs")],
     "up to 4 parts sharing names, one symbolic character (thorough: of latin1) in each; the numbers inside the parts are decided by P12, meshes by P13; the file system is a stand-in that follows paths and holds case-insensitively unique names")
prop("P13", "An extracted mesh reads back with every vertex, face and frame",
     "Extracting a table in any of the three mesh formats and reading it back keeps the mesh of every primitive: the bits of each coordinate, normal and texture coordinate, the faces in their order and with their corner order, the animation frames in their order, whatever the primitives are called and whatever special numbers the mesh holds.",
     ["inputs"], "every position of a special number (NaNs, infinities, signed zeros, subnormals, extremes, numbers that need all digits) in every component of a vertex or frame, every index in the faces, every bit pattern of texture coordinates and of each byte of a normal in the binary formats, every character in the name of a second primitive whose files might meet the first's",
     "the tests extract meshes of a few ordinary numbers under plain names; the formats store handedness and indices differently and numbers as text",
     ["src/vpx/expanded/primitives.rs", "src/vpx/obj.rs", "src/vpx/gltf.rs", "src/vpx/mesh/mod.rs"],
     [("mesh files of a primitive", "src/vpx/expanded/primitives.rs"), ("text form", "src/vpx/obj.rs"), ("binary forms", "src/vpx/gltf.rs")],
     "meshes of up to 3 (thorough 5) vertices and up to 3 (8) faces, 65535 and 65536 vertices in thorough, up to 11 frames; numbers in the text format and in positions are taken from 26 special ones; compression is replaced by a stand-in that keeps the bytes")
prop("P14", "A storage failure is reported, never taken for success",
     "When an operation on a table file or a table directory reports success, the result is complete on the disk: writing, locking, rewriting settings, importing a script, compacting, making a minimal table, extracting to a directory. If any call to the file system fails at any point (once, from then on, or because the disk is full), the operation returns an error instead of success with a part missing, and never panics; reading, verifying and extracting the script never return a wrong table. Transfers of only some of the bytes do no harm, and compacting leaves either the old or the new table in its place, whatever fails.",
     ["inputs", "fault_sequences", "crash_points"], "every point at which a call to the file system can fail, for a single failure, a lasting one and a full disk; every short transfer size in {1, 3, 64, 511}; all bytes of the parts",
     "the tests only run on a disk that works",
     ["src/vpx/mod.rs", "src/vpx/tableinfo.rs", "src/vpx/version.rs", "src/vpx/expanded/*.rs", "src/filesystem.rs"],
     [("streams of the file", "src/vpx/mod.rs write_*"), ("compacting", "src/vpx/mod.rs compact"), ("files of a directory", "src/vpx/expanded/*.rs, src/filesystem.rs")],
     "tables with one part of each sort (images of 5000 bytes in thorough, 600 in quick); the file system's calls are served from memory; extraction goes to a fresh directory; a failing status query means a missing file, as the standard library has it; without an fsync what the operating system loses after reporting success is outside")

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], hook_needed=None))) + "\n")
    hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
    na = {x["property"] for x in NA}
    m = dict(version=1, setup_cmd="python3 check.py --setup",
        hooks=dict(guard="cfg(vpin_verif)", enable="RUSTFLAGS='--cfg vpin_verif' (set by check.py for the harness build)",
                   source_commits=[h.split()[0] for h in hooks if " hook:" in h]),
        checks=[dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']} --tier quick", thorough_cmd=f"python3 check.py {p['id']} --tier thorough",
                technique="symbolic execution of the compiled crate's LLVM IR, Z3 decides every branch and assertion", level="model_checking",
                level_note="Exhaustive within the bounds: " + p["note"] + ". Trusts rustc's IR (the native binary is built by the same compiler run; sampled path models are replayed on it), the engine's IR semantics and Z3.") for p in P if p["id"] not in na],
        not_applicable=NA)
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
if __name__ == "__main__": main()
