#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below (run after changing it)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=list(observe), state=list(state)))


REPLAYTRACE = "TLA+ model checked with TLC; every transition of the bounded model replayed on the code, recorded histories validated against the model with TLC"
TRACE = "TLA+ specification; traces recorded from the code validated against it with TLC, bounded model checked"

IMG = ["objutils/image.py", "objutils/section.py"]
M_NOTE = ("Exhaustive for the bounded model (all operations over small images, every offset), sampled beyond it by seeded random histories "
          "whose complete memory contents are compared with the model after every call. Trusts TLC and the harness's projection of Image.sections.")

prop("M01", "An image is a byte-addressed memory: reads return what was last written",
     "After any sequence of insertions and (typed) writes on an image or section, reading any span returns for every address exactly the byte most recently stored there, at every start address including those beyond 32 and 64 bits. A write changes exactly the bytes of its span, never another byte, the number of bytes, nor the section layout, whatever bytes-like or sequence type the data has.",
     ["histories", "inputs"], "all histories of insert/read/write calls (all bytes-like data types), all addresses and lengths",
     "Tests perform a handful of single reads or writes at fixed addresses; the property ranges over histories and every offset.",
     IMG, [("Section.read/write", "objutils/section.py"), ("Image._call_address_function", "objutils/image.py")], REPLAYTRACE, M_NOTE,
     ["Image.read/write", "Image.sections"])
prop("M02", "Accesses outside of the address space are refused and change nothing",
     "Every read or write (raw, numeric, array, ndarray, string) whose span is not entirely within one section raises InvalidAddressError, and every call that raises leaves all sections exactly as they were. Accesses lying entirely inside a section are never refused for their address, up to and including its last byte.",
     ["inputs", "histories"], "all access kinds, all addresses and lengths relative to section edges, after any history",
     "Tests probe one address before and one after a section for some accessors; off-by-one at every edge, data type and partial writes need all offsets.",
     IMG, [("bounds checks of each accessor", "objutils/section.py"), ("Image._call_address_function", "objutils/image.py")], REPLAYTRACE, M_NOTE)
prop("M03", "Numeric values keep width, sign and byte order",
     "write_numeric stores a value as the two's complement or IEEE-754 encoding of exactly the type's width and byte order, read_numeric returns the value these bytes denote, optionally after masking the raw bits with bit_mask. A value not representable in the type, or an unknown type name, is refused without any change.",
     ["inputs"], "all data types (8..64 bit, signed/unsigned, float32/64, le/be), all values, masks and offsets",
     "Tests check one value per type; boundaries, rounding of floats, sign extension and masks need every value class at every type.",
     ["objutils/section.py"], [("Section.read_numeric/write_numeric/apply_bitmask", "objutils/section.py"), ("FORMATS, BYTEORDER", "objutils/section.py")], REPLAYTRACE, M_NOTE)
prop("M04", "Arrays and ndarrays are the concatenation of their elements",
     "Writing an array of n values of a type stores the n encodings back to back, and reading n values returns them in order (n = 0 included); ndarrays are stored in C order and read back with the requested shape, transposed when Fortran order is asked for. An array with any unrepresentable element or ill-fitting shape is refused as a whole.",
     ["inputs"], "all element types, lengths, shapes, orders and offsets",
     "Tests use one array per type with fixed length and shape.",
     IMG, [("Section.*_numeric_array, *_ndarray", "objutils/section.py")], REPLAYTRACE, M_NOTE)
prop("M05", "Strings are stored encoded and zero-terminated and read back unchanged",
     "write_string stores the encoded text followed by one zero byte and nothing else; read_string without length returns the text up to the first zero byte, with length exactly that many bytes decoded. Text that cannot be encoded, bytes that cannot be decoded, missing terminators and spans leaving the section (terminator included) are refused without any change.",
     ["inputs", "histories"], "all texts over ascii/latin1/utf-8, all offsets and lengths",
     "Tests write one ASCII string into a large section; multi-byte encodings and the section end are not reached.",
     IMG, [("Section.read_string/write_string", "objutils/section.py")], REPLAYTRACE, M_NOTE)
prop("M06", "Images stay sorted, disjoint and complete however they are built",
     "After any sequence of insertions (in any order, explicit or continued address, joined or not) an image's sections are sorted by address, pairwise disjoint and hold exactly the inserted bytes at their addresses; joining merges exactly the adjacent ones. An insertion overlapping existing bytes - partially, inside, or enclosing them - raises InvalidAddressError, one of data that is not a sequence of bytes some exception; both change nothing, and every other one succeeds.",
     ["histories"], "all insertion orders, addresses, lengths, data types and join flags; non-empty data",
     "Tests insert two or three sections in fixed order; ordering and overlap relations multiply with each insertion.",
     IMG, [("Image.insert_section, _address_contained", "objutils/image.py"), ("join_sections", "objutils/section.py")], REPLAYTRACE, M_NOTE)
prop("M07", "Images built from other objects share nothing with them",
     "An image built with joining from sections or from another image's sections is independent: no later write or insertion on either side is visible on the other, building leaves the sources unchanged, and sections created empty share no buffer. Bytes and arrays that were read are copies, and dumping, hex-dumping, printing and comparing never modify the objects involved.",
     ["histories"], "all histories of building images from sections and images, mutating any of them, keeping what was read, and dumping",
     "Tests never look at a source object again after building an image from it.",
     IMG + ["objutils/hexfile.py"], [("join_sections copies", "objutils/section.py"), ("Section.data factory", "objutils/section.py")], REPLAYTRACE, M_NOTE)
prop("M08", "Address queries agree with the memory contents",
     "Membership, length, indexing, iteration, get_section and equality of images agree with the address-to-byte mapping: an address is contained iff some section holds it, get_section returns that section or raises InvalidAddressError, images are equal iff their sections have equal addresses and bytes, sections compare by address and then bytes, and Section.find returns precisely the occurrences of a pattern.",
     ["inputs", "histories"], "all images, all addresses, all pairs of images, all literal patterns",
     "Tests query few addresses on one image and compare equal images only.",
     IMG, [("Image.__contains__/get_section/__eq__", "objutils/image.py"), ("Section.__contains__/find", "objutils/section.py")], REPLAYTRACE, M_NOTE)

exec(open(os.path.join(HERE, "tools", "meta_more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "meta_more.py")) else None


def main():
    na = []
    checks = []
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"], anchors=dict(files=p["files"], state=p["state"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                                                      observe_at=p["observe"], hook_needed=None))) + "\n")
            assert len(p["title"]) <= 80, p["title"]
            assert p["statement"].count(". ") <= 2, (p["id"], p["statement"])
            if os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py")):
                checks.append(dict(property=p["id"], quick_cmd=f"./run.py {p['id']} quick", thorough_cmd=f"./run.py {p['id']} thorough",
                                   evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level="model_checking", level_note=p["note"]))
            else:
                na.append(dict(property=p["id"], reason=NA.get(p["id"], "no check yet")))
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
             notes="TLA+ specifications in specs/, checked with TLC; run.py <id> <tier> runs one check. No hooks in /repo are needed: all abstract state is observable through the public API.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


NA = {}
if __name__ == "__main__":
    main()
