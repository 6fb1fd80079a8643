#!/usr/bin/env python3
"""Writes known_findings.json (run after changing the list)."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# subject of the fix commit -> (properties, what failed)
FIXED = {
    "S5 records of more than 65535 data records were malformed": ("F03", "dumps('srec', Image([Section(0, bytes(65536))]), row_length=1, s5record=True) ended in S50310000FB (five digits of count) and could not be read back"),
    "honour writer options in hexfile.Writer.dumps() and dump()": ("F03 F09", "dumps(row_length=, s5record=, start_address=, ...) ignored its options"),
    "ihex writer emits an extended address whenever the upper address part changes": ("F01", "image with a section at 0x10000 followed by one at 0x0: data written at the wrong base"),
    "Image accepts the valid flag passed by the readers": ("F02 F10", "Reader.read() raised TypeError: Image(valid=...)"),
    "images ending at the last address of a format's range can be written": ("F08", "image ending at 0xffff refused by 16-bit formats"),
    "terminating record of sig and tek keeps a 16-bit address": ("F05", "sig/tek image ending at 0xffff: footer address of five digits"),
    "string access never leaves the section": ("M05 M02", "write_string/read_string crossing the end of the section changed its length or read on"),
    "read_numeric() supports bit_mask for dtype byte": ("M03", "read_numeric(a, 'byte', bit_mask=1) raised TypeError"),
    "sections created without data don't share one buffer": ("M07", "Section() twice: writing to one shows in the other"),
    "joining sections works on copies": ("M07", "Image(sections=[a, b]) with adjacent sections extended a"),
    "insert_section() refuses a section enclosing an existing one": ("M06", "insert 16 bytes at 0 over a section at 4..8: accepted, overlapping sections"),
    "signed LEB128 decoding sign-extends only negative numbers": ("U03 D01", "SLEB128 of 64 decoded as negative number"),
    "PlainBinaryReader reads 32-bit values in native byte order": ("U03", "u32()/i32() of PlainBinaryReader raised"),
    "diff_bin() reports a modification at the end of the common part": ("U02", "diff_bin(b'a', b'b') reported nothing"),
    "symbols.fetch() honours every requested symbol type": ("E04", "symbols.fetch(types='func,object') returned the functions only"),
    "etek files can be read back": ("F05", "etek: loads(dumps(img)) raised"),
    "fpc writer emits the real byte count and pads to 4-byte groups": ("F05", "fpc: data of 5 bytes could not be read back"),
    "etek reader compares byte count and actual data exactly": ("F07", "etek record with wrong length accepted"),
    "ash addresses survive a round trip": ("F06", "ash: address of the second section lost"),
    "S0 records have a 16-bit address field regardless of the record type": ("F03", "srec: S0 record written with a 32-bit address"),
    "srec reader refuses data in records with a zero data count": ("F07", "S103... with byte count 3 and data behind it read as valid"),
    "srec writer refuses a record type too small for the image": ("F08", "record_type=1 with address 0x10000 truncated the address"),
    "writers refuse rows not fitting a record's length field": ("F08", "row_length=256 wrote a byte count of three digits"),
    "plain binary writer supports integer fillers": ("F06", "bin: filler=0xff raised"),
    "instantiating Registry again keeps the registered codecs": ("R01", "Registry() emptied the registry"),
    "codecs registered with upper-case letters can be looked up": ("R01", "register('FOO', ...), get('FOO') raised"),
    "insert_section() counts bytes, not items, of wider arrays": ("M06", "insert_section(array('H', ...)) continued at the wrong address"),
    "Section.write() never changes the section's length": ("M01", "write of an array('I') to a section changed its length"),
    "arrays of length zero have no elements": ("M04", "read_numeric_array(a, 0, ...) raised or read data"),
    "fpc reader refuses records shorter than their byte count": ("F07", "fpc record cut short accepted"),
    "ihex and cosmac readers can be used for more than one file": ("F11", "reader instance kept the extended address of the previous file"),
    "srec, titxt and ash writers can be used for more than one image": ("F11", "writer instance kept state of the previous image"),
    "blank lines in ASCII hex files are no empty sections": ("F06", "titxt: blank line produced an empty section / error"),
    "fill the ELF cache in a single transaction": ("E03", "crash while importing left a cache that was taken for complete"),
    "ELF values of 2**63 and above": ("E01", "symbol with st_value >= 2^63: OverflowError"),
    "ELF notes": ("E05", "notes of several sections, alignment of name and descriptor"),
    "header_bytes of ElfParser": ("E01", "header_bytes raised / of the wrong length"),
    "sections.fetch() honours its 'sections' argument": ("E04", "sections.fetch(sections='.text') ignored its argument"),
    "ELF files with empty symbol or string tables": ("E01", "empty .symtab raised"),
    "ELF names are UTF-8": ("E01", "non-ASCII symbol name: UnicodeDecodeError"),
    "ELF predicates weak, local, global_, is_debug, is_dwo": ("E04", "predicates raised or were always true"),
    "ARM attribute values without a description": ("E05", "unknown value of an ARM attribute raised KeyError"),
    "unknown tags in ARM attributes": ("E05", "unknown tag desynchronised the attribute parser"),
    "visibility of ELF symbols is in the low bits of st_other": ("E01", "hidden symbol with other bits of st_other set: visibility wrong"),
    "memory mapped files leak their file descriptors": ("E03", "every ElfParser leaked a file descriptor"),
    "name patterns for ELF sections and symbols": ("E02 E04", "name patterns raised (no REGEXP function)"),
    "segment types live in defs.ProgramHeader": ("E04", "section_in_segment raised NameError"),
    "DEL is not printable": ("U01", "byte 0x7f printed as itself"),
    "hexdumps of further sections start anew": ("U01", "second section's first row elided as repetition of the first one's last"),
    "word sums of lists of integers": ("C01", "lrc([1, 2], 16) raised"),
    "subclasses of singletons are singletons of their own": ("S01", "B() returned the instance of its parent class A"),
    "null entries end a list of children": ("D03", "siblings behind a list of children became children of its last entry's parent"),
    "map of DWARF entries misses the last entry of a unit": ("D03", "die_map lacked entries"),
    "last DWARF entry of a section may be a single byte": ("D03", "a unit ending with an entry without attributes lost it"),
    "attributes behind a DW_FORM_implicit_const at the end of a unit": ("D03", "attributes lost"),
    "DW_FORM_implicit_const is a signed number": ("D03", "implicit constant -1 shown as 127"),
    "DWARF values of 2**63 and above": ("D03", "DW_FORM_data8 of 2**63: OverflowError from SQLite"),
    "enumerated DWARF attributes given as blocks": ("D03", "DW_AT_upper_bound given as block: TypeError"),
    "vendor specific DWARF attributes with a constant of their own": ("D03", "DW_FORM_implicit_const of an unknown attribute: exception"),
    "operands of DWARF operations followed by a block": ("D02", "implicit_value: operands of the following operations were wrong"),
    "DWARF operations referring to other entries have offsets of four bytes": ("D02", "call_ref, implicit_pointer: wrong operand width"),
    "operands of GNU_implicit_pointer, GNU_addr_index and GNU_const_index": ("D02", "operands not consumed"),
    "byte order and address size belong to one DWARF stack machine": ("D02", "opening a second file changed the decoding of expressions of the first"),
    "oj_elf_info imports names where they are defined": ("T03", "the tool ended with ImportError for every file"),
    "the cache database is not kept open for reading its hash": ("D03", "do_dbg_info of a file opened from its cache always ended with 'database is locked'"),
    "AVR link-relax flag is not part of the machine number": ("T03", "link-relax was never shown: e_flags 0x85 shown as unknown architecture"),
    "ARM attribute Tag_compatibility is a number and a string": ("E05 T03", "attributes behind Tag_compatibility were read from the wrong place"),
    "tools show values that have no name as numbers": ("T03", "ValueError for unknown section, segment, file, ABI, binding or symbol types"),
    "oj_elf_info shows files with debug sections but without entries": ("T03", "TypeError for a file with .debug_line only"),
    ".debug_aranges and .debug_pubnames are read set by set": ("T03", "oj-elf-info ended with StreamError for object files of gcc -g (padding and 8-byte entries of .debug_aranges)"),
    "DWARF location expressions have addresses of the unit's size": ("D03", "AVR programs (32-bit files, addresses of two bytes): do_dbg_info ended with StreamError at the first DW_OP_addr"),
    "IEEE-695 numbers of several bytes can be read": ("I01", "TypeError for every number above 127"),
    "IEEE-695 load records can be read": ("I01", "TypeError for every load record"),
    "IEEE-695 optional letters are returned": ("I01", "the byte order of the address description was lost"),
    "IEEE-695 section indexes are numbers": ("I01", "section index 300 read as 130, the rest of the record from the wrong place"),
    "IEEE-695 string values of constants are strings": ("I01", "NotImplementedError for constants with a string value"),
    "bin_extractor() reads binary data": ("U04", "UnicodeDecodeError, or line ends changed, for binary files"),
    "options given to a writer hold for one image only": ("F11", "a writer object given options once (s5record, start_address, filler) used them for the following images, too"),
    "incremental records and blank lines of FPC files": ("F05", "IndexError for a blank line; InvalidRecordChecksumError for every incremental record"),
    "Intel HEX records of unknown type are ignored, not a formatting error": ("F02", "ValueError (a format code of the warning) instead of ignoring the record"),
    "checksums of terminating Tektronix records are verified": ("F07", "terminating records with a wrong checksum were accepted"),
    "S5 records of S2 and S3 files could be read back": ("F05", "InvalidRecordChecksumError for files objutils itself wrote with s5record=True and 24 or 32 bit addresses"),
    "log messages were repeated for every logger created, the level set was ignored": ("L01", "after n readers or writers were created every message was printed n times; setLevel() and verbose() had no effect below the level given at creation"),
}


def main():
    log = subprocess.run(["git", "-C", os.environ.get("REPO", "/repo"), "log", "--format=%h %s", "--reverse"], capture_output=True, text=True, check=True).stdout
    fixed, seen = [], set()
    for line in log.splitlines():
        h, _, subj = line.partition(" ")
        if not subj.startswith("fix: "):
            continue
        props, what = FIXED[subj[5:]]
        seen.add(subj[5:])
        for p in props.split():
            fixed.append(f"fixed: property={p} {h} {what}")
    missing = set(FIXED) - seen
    assert not missing, missing
    with open(os.path.join(HERE, "known_findings.json"), "w") as f:
        json.dump({"known": [], "fixed": fixed}, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
