HEX = ["objutils/hexfile.py"]
F_NOTE = ("Format grammars, readers and acceptable files are specified in HexFormats.tla; bounded alphabets and all small images x options exhaustively, "
          "seeded random files beyond. Trusts TLC and the drivers' recording of text and sections.")

prop("F01", "Intel HEX files written denote exactly the image",
     "For every image with addresses below 2^32 and every row length up to 255, the Intel HEX writer produces only valid records (byte count, type, checksum) no longer than the row length and one end-of-file record at the end. Interpreted record by record - extended segment and linear addresses applying to the records after them, no record crossing a 64 KiB boundary - the file denotes exactly the image's bytes at their addresses, and reading it back restores the image.",
     ["inputs"], "all images (section layouts, addresses up to 2^32-1, contents), all row lengths",
     "Tests write one or two fixed images; page changes, 64 KiB boundaries and section order interact with the row length.",
     ["objutils/ihex.py"] + HEX, [("Writer.compose_row", "objutils/ihex.py"), ("Writer.dumps", "objutils/hexfile.py")], REPLAYTRACE, F_NOTE)
prop("F02", "Intel HEX files read denote what their records say",
     "Reading an Intel HEX file yields the image its valid records denote: each data record goes to its offset plus the base set by the latest extended segment (type 2) or linear (type 4) address record, start address records, blank lines and foreign lines have no effect, and records may come in any order, size and letter case. Adjacent data is merged into one section.",
     ["inputs"], "all sequences of valid records with disjoint data",
     "Tests read a few files whose records are in ascending order with at most one extended address kind.",
     ["objutils/ihex.py"] + HEX, [("Reader.special_processing", "objutils/ihex.py"), ("Reader.read", "objutils/hexfile.py")], REPLAYTRACE, F_NOTE)
prop("F03", "S-record files written denote the image and carry its metadata",
     "For every image below 2^32 the S-record writer uses the narrowest record type that holds all addresses, or the one asked for, with correct byte count and checksum, data records no longer than the row length, header records first, then, if asked for, an S5 record counting the data records and a start address record of the matching type (S9/S8/S7). Reading the file restores the image and its header records.",
     ["inputs"], "all images, record types, row lengths, s5record, start_address and image metadata",
     "Tests cover single options with one small image.",
     ["objutils/srec.py"] + HEX, [("Writer.pre_processing/compose_*", "objutils/srec.py")], REPLAYTRACE, F_NOTE)
prop("F04", "S-record files read denote what their records say",
     "Reading an S-record file places the bytes of every S1, S2 and S3 record at its 16, 24 or 32 bit address, whatever the order, size and mixture of records. S0, S5, S7, S8 and S9 records contribute no data; S0 records are kept as metadata; blank and foreign lines have no effect.",
     ["inputs"], "all sequences of valid S-records with disjoint data",
     "Tests read ascending files of one record type.",
     ["objutils/srec.py"] + HEX, [("Reader.check_line/is_data_line", "objutils/srec.py"), ("Reader.read", "objutils/hexfile.py")], REPLAYTRACE, F_NOTE)
prop("F05", "Checksummed vendor formats round-trip and denote the image",
     "For Signetics, Tektronix, MOS Technology, Elektor EMON52, extended Tektronix and Four Packed Code every writable image is written as valid records of the format (lengths, address and data checksums, padding, terminating record with the end address) that denote exactly the image. Reading any sequence of valid records yields the image they denote.",
     ["inputs"], "all images within the formats' address ranges, all row lengths, all orders of valid records",
     "Tests use one image with rows of one length per format.",
     ["objutils/sig.py", "objutils/tek.py", "objutils/mostec.py", "objutils/emon52.py", "objutils/etek.py", "objutils/fpc.py", "objutils/checksums.py"] + HEX,
     [("Writer.compose_row/compose_footer", "objutils/{sig,tek,mostec,emon52,etek,fpc}.py"), ("Reader.check_line", "objutils/{sig,tek,mostec,emon52,etek,fpc}.py")], REPLAYTRACE, F_NOTE)
prop("F06", "Formats without record checksums round-trip and denote the image",
     "For RCA, COSMAC, TI-TXT, ASCII space hex, SHF and plain binary every writable image is written as a file that denotes exactly its bytes at their addresses (binary: gaps filled with the filler byte), and reading it back restores the image. Files made of valid lines in any order, with data continuing at the current address where the format allows it, are read as the image they denote; SHF blocks that lack an attribute or whose length or digest is inconsistent are dropped.",
     ["inputs"], "all images within the formats' address ranges, row lengths, filler bytes, and all orders of valid lines",
     "Tests use one image with rows of one length per format.",
     ["objutils/rca.py", "objutils/cosmac.py", "objutils/titxt.py", "objutils/ash.py", "objutils/shf.py", "objutils/binfile.py"] + HEX,
     [("ASCIIHexReader/ASCIIHexWriter", "objutils/hexfile.py"), ("Reader.read, Writer.dumps", "objutils/shf.py")], REPLAYTRACE,
     F_NOTE + " The XML of SHF is taken apart and its SHA-1 verified by the driver, not by the specification.")
prop("F07", "Corrupted records are refused, never read as data",
     "When a record of a checksummed format (Intel HEX, S-record, Signetics, Tektronix, MOS Technology, EMON52, extended Tektronix, Four Packed Code) has a byte count or checksum that does not fit its contents, reading the file raises an exception. No single wrong hexadecimal digit in such a data record leads to an image (except in EMON52's unprotected address field).",
     ["inputs"], "all single-digit errors, losses, repetitions and swaps in records, and random corruption of files",
     "Tests corrupt one byte of one record for some of the formats.",
     ["objutils/checksums.py", "objutils/ihex.py", "objutils/srec.py", "objutils/sig.py", "objutils/tek.py", "objutils/mostec.py", "objutils/emon52.py", "objutils/etek.py", "objutils/fpc.py"],
     [("Reader.check_line", "objutils/*.py")], REPLAYTRACE, F_NOTE)
prop("F08", "Writers refuse what their format cannot express, and only that",
     "Writing an image raises an exception if its last address exceeds what the format (or the S-record type asked for) can express, if a record would carry more data bytes than its length field can count, if an unknown option is passed, or (plain binary) if the filler is not one byte. Otherwise, up to and including the last expressible address and the longest record, it is written.",
     ["inputs"], "all images at and around each format's limits, all row lengths, record types, unknown options",
     "Tests check one out-of-range image for one format.",
     HEX + ["objutils/srec.py", "objutils/etek.py", "objutils/fpc.py"], [("MAX_ADDRESS_BITS, MAX_ROW_LENGTH, calculate_address_bits", "objutils/hexfile.py"), ("Writer.pre_processing", "objutils/srec.py")], REPLAYTRACE, F_NOTE)
prop("F09", "File, file object and string interfaces are equivalent",
     "For every format, dump to a path, dump to a file object, dumps and the codec's own Writer produce the same bytes for the same image and options, and load from a path, load from a file object and loads from bytes, bytearray or str give equal images or all fail.",
     ["inputs"], "all formats, images, options and files",
     "Tests use dumps/loads nearly exclusively.",
     HEX + ["objutils/__init__.py", "objutils/registry.py"], [("Reader.load/loads, Writer.dump/dumps", "objutils/hexfile.py"), ("load/dump helpers", "objutils/__init__.py")], TRACE, F_NOTE)
prop("F10", "Converting between formats preserves the image",
     "Passing an image through any sequence of formats able to express its addresses, each time writing and reading it back, with any row lengths, ends with the same bytes at the same addresses.",
     ["histories"], "all sequences of formats and images",
     "Tests round-trip single formats; conversions combine the layouts produced by one reader with another writer.",
     HEX, [("join_sections", "objutils/section.py"), ("Reader.read/Writer.dumps", "objutils/hexfile.py")], TRACE, F_NOTE)
prop("F11", "Readers and writers keep no state between files",
     "A reader or writer object can be used for any number of files: each result equals what a fresh object gives, whatever was read or written before, including files refused because of corrupted records.",
     ["histories"], "all sequences of files and images handled by one reader or writer object",
     "Tests create a new codec object for each call.",
     HEX + ["objutils/ihex.py", "objutils/srec.py", "objutils/cosmac.py", "objutils/ash.py"], [("per-file state of readers and writers", "objutils/ihex.py, objutils/cosmac.py, objutils/hexfile.py, objutils/ash.py")], TRACE, F_NOTE)

ELF = ["objutils/elf/__init__.py", "objutils/elf/model.py", "objutils/elf/defs.py"]
E_NOTE = ("The meaning of an ELF file is specified in ElfFormat.tla as a function of its bytes; all files of a bounded model (class, byte order, address, "
          "up to two (thorough: three) sections of seven kinds) and seeded random files beyond it. Trusts TLC and the driver's projection of the parser's tables.")

prop("E01", "ELF files are decoded as the specification of the format says",
     "Opening a well-formed ELF file of either class and byte order yields exactly its header fields, program headers, section headers with names and contents, and all symbols of its symbol tables with name, value, size, binding, type, visibility, section and the section's access flags - whatever the values (up to 64 bits), the order of sections and tables and the layout of the file. The result is the same when it comes from the cache database.",
     ["inputs"], "all well-formed ELF files of both classes and byte orders",
     "The test suite contains no ELF file; field offsets, widths and byte order matter for every value, large ones included.",
     ELF, [("ElfParser._parse_*, _parser_extended_header", "objutils/elf/__init__.py"), ("tables", "objutils/elf/model.py")], REPLAYTRACE, E_NOTE)
prop("E02", "The image of an ELF file is its allocated content",
     "create_image() returns exactly the bytes of the allocated sections with contents at their addresses, in ascending order, adjacent sections joined if asked for; include and exclude patterns select by section name as re.match does. The callback is told about start, every section taken and stop.",
     ["inputs"], "all well-formed ELF files with disjoint sections, patterns and options",
     "No test creates an image from an ELF file; addresses above 2^31 and 2^63, names and flags interact with the query.",
     ELF + ["objutils/image.py", "objutils/section.py"], [("ElfParser.create_image", "objutils/elf/__init__.py"), ("regexer, unsigned_order", "objutils/elf/model.py")], REPLAYTRACE, E_NOTE)
prop("E03", "The ELF cache is never wrong, whatever happened before",
     "Whatever sequence of replacing files (by files of the same length or sharing the name of the cache as well), opening them, deleting the cache, and being killed or failing at any point while it is being filled came before, opening an ELF file shows exactly what the file contains now.",
     ["histories", "crash_points"], "all histories of file replacement, opens, cache removal, and process death or database failure at every database event",
     "A test cannot enumerate crash points of the loader and the histories leading to a stale or half-filled cache.",
     ELF, [("ElfParser.create_db_on_demand, load_data", "objutils/elf/__init__.py"), ("Model", "objutils/elf/model.py")], REPLAYTRACE,
     "ElfCacheMC.tla specifies the cache protocol (a variant committing the digest first is refuted); its histories and random ones run in processes killed or failed at a chosen database event. Power failure (PRAGMA SYNCHRONOUS=OFF) is outside of the model.")
prop("E04", "ELF queries return exactly the rows asked for, in order",
     "sections.fetch/get and symbols.fetch/get return exactly the sections and symbols satisfying all given filters (names, name pattern matched like re.match, any of the access rights, any of the bindings, any of the types), grouped by section and ordered by unsigned address or value or by name. Attributes (flags, visibility, binding, ...) agree with the raw fields, in memory and in queries. section_in_segment follows the rule of binutils.",
     ["inputs"], "all files and combinations of filters",
     "No test queries an ELF file; filters interact, and values of 2^63 and above are stored as negative numbers.",
     ELF, [("SymbolAPI, SectionAPI", "objutils/elf/__init__.py"), ("hybrid properties", "objutils/elf/model.py"), ("section_in_segment", "objutils/elf/__init__.py")], REPLAYTRACE, E_NOTE)
prop("E05", "Notes, comments and ARM attributes of ELF files are decoded",
     "All notes of all note sections (with padding, empty names and descriptions, in either byte order), the strings of the comment section and the file attributes of every vendor in .ARM.attributes are reported with their values; unknown attribute tags follow the rule of the ABI (odd: string, even: number).",
     ["inputs"], "all well-formed note, comment and ARM attribute sections",
     "Tests decode one ARM attributes section; alignment and unknown tags need many.",
     ELF + ["objutils/elf/arm/attributes.py"], [("ElfParser._parse_notes/_parse_comment", "objutils/elf/__init__.py"), ("parse", "objutils/elf/arm/attributes.py")], REPLAYTRACE,
     E_NOTE + " Section and symbol scopes of ARM attributes are not decoded by the code and not covered.")

U_NOTE = "Trusts TLC and the driver's recording; {} "

prop("C01", "Checksums equal their definitions",
     "Every checksum function gives the value of its mathematical definition for every frame and every kind of byte sequence: the sums modulo 2^8, 2^16 and 2^32 over bytes, 16-bit and 32-bit little-endian words (frames of whole words), CRC-16 (ARC), CRC-16-CCITT (preset FFFF) and CRC-32, the longitudinal redundancy check of any width up to 32 with no, one's or two's complement, exclusive or, rotated exclusive or and the nibble sum. The frame is not changed.",
     ["inputs"], "all frames, all algorithms, widths and complements",
     "Tests check one or two well-known frames per algorithm; table entries, carries and zero sums need every byte value and many lengths.",
     ["objutils/checksums.py"], [("lrc, xor, rotatedXOR, nibble_sum, adder, wordSum, Crc16, CRC32, check", "objutils/checksums.py")], REPLAYTRACE,
     "Checksums.tla defines all codes as machines fed byte by byte, ChecksumMC.tla shows them equal to long division of polynomials and to detect the errors they are for; all short frames over an alphabet (all single bytes) are replayed, random frames of up to 600 bytes validated.")
prop("U01", "Hex dumps show exactly the section",
     "A hex dump can be decoded back to exactly the section's bytes at their addresses: every row shows its address modulo the address width, its bytes in hex and as text (a dot for what is not printable), an asterisk stands for repetitions of the row above up to the next row, and the length is that of the section - for images of several sections and for dumpers used several times as well.",
     ["inputs", "histories"], "all sections, addresses and address widths, and sequences of dumps",
     "Tests compare a handful of dumps; elision interacts with the last row, with further groups of equal rows and with the dumper's previous section.",
     ["objutils/hexdump.py", "objutils/section.py", "objutils/image.py"], [("Dumper.dump_data, CanonicalDumper", "objutils/hexdump.py"), ("hexdump", "objutils/section.py, objutils/image.py")], TRACE,
     "HexDump.tla says what a dump denotes; HexDumpMC.tla checks an eliding dumper against it (a variant keeping state between sections is refuted) and generates all sections of up to three (thorough: five) rows of a few kinds.")
prop("U02", "Binary differences are a truthful, minimal edit script",
     "diff_bin(a, b) lists, in ascending order, exactly the maximal runs of differing bytes in the common part, with their offset and both contents, followed by one entry for what was appended to or deleted from the end of a. Applying the list to a yields b; the arguments are not changed. Anything but bytes and bytearray is refused with TypeError.",
     ["inputs"], "all pairs of byte strings",
     "Tests use a few pairs; runs at the ends, empty strings and the tail interact.",
     ["objutils/utils/diff.py"], [("diff_bin", "objutils/utils/diff.py")], REPLAYTRACE,
     "Diff.tla defines edit scripts, DiffMC.tla shows that the script required is unique (bounded) and prints all pairs of strings of up to four (thorough: five) bytes to be replayed.")
prop("U03", "Binary readers decode every value and keep their position",
     "PlainBinaryReader returns the value encoded at the current position - integers of 1, 2, 4 and 8 bytes, signed or not, in the byte order chosen, LEB128 numbers of any length, zero-terminated strings - and moves the position behind exactly the bytes consumed, after any sequence of reads and seeks. Values that are not completely there raise an exception.",
     ["inputs", "histories"], "all byte strings, byte orders and sequences of operations",
     "Tests read each kind of value once; wide LEB128 numbers, sign extension and the end of the data need many.",
     ["objutils/readers.py"], [("PlainBinaryReader", "objutils/readers.py")], REPLAYTRACE,
     "BinReader.tla and Leb.tla (encoding and decoding shown inverse); all strings over an alphabet up to four bytes with every operation at every position replayed, random histories validated.")
prop("U04", "Small helpers agree with their definitions",
     "ffs, int_to_array, slicer, make_list, cygpath_to_win, bin_extractor, filler and create_string_buffer return what they are defined to for every argument; a curried function is called with its pending and the new arguments, however often it was called before. A memory-mapped view shows exactly the bytes of the file, writes reach the file if and only if it was opened writeable, and enumerated fields of structures give the member of their value or are refused.",
     ["inputs", "histories"], "all arguments and sequences of calls",
     "Tests convert two paths; the other helpers are exercised only through the formats that use them.",
     ["objutils/utils/__init__.py"], [("ffs, slicer, make_list, int_to_array, Curry, bin_extractor, cygpath_to_win, StructureWithEnums, create_memorymapped_fileview", "objutils/utils/__init__.py")], TRACE,
     "Helpers.tla defines the results; HelpersMC.tla prints all small arguments, which are given to the code, random ones beyond; the outcomes are judged by HelpersTrace.tla.")
prop("L01", "Log messages are written once, according to the level set last",
     "Every message given to a Logger appears exactly once on standard error - with its severity and the logger's name - if it is at least as severe as the level set last for that name (by creating a logger, setLevel, verbose or silent), and not at all otherwise, however many loggers of that name were created before. getLastError() gives the severity and text of the last message given to that logger, once.",
     ["histories"], "all sequences of creating loggers, setting levels and logging",
     "No test looks at log output; every reader object creates a logger of the same name.",
     ["objutils/logger.py"], [("Logger", "objutils/logger.py")], TRACE,
     "LogModel.tla is the state machine of names, levels and last messages; LogMC.tla checks it and prints all histories of four (thorough: five) operations, which are carried out on the code with standard error recorded; longer random ones beyond; judged by LogTrace.tla.")
prop("I01", "IEEE-695 object modules are decoded record by record",
     "Reading an IEEE-695 object module gives exactly what its records say, in their order: processor, module and address description, pointers to the parts, absolute sections with all their attributes, names, symbols and external references with their values and attributes, the tree of debug blocks, and the bytes of all load records - for numbers of up to 64 bits and strings of any length, in each of their encodings. A module that refers to sections, symbols or blocks not declared, or that is cut short anywhere before its end record, is refused.",
     ["inputs"], "all sequences of records (absolute modules), all encodings of numbers and strings",
     "The test suite does not read any IEEE-695 module.",
     ["objutils/ieee695.py"], [("Reader", "objutils/ieee695.py")], TRACE,
     "Ieee695.tla reads modules as a state machine; Ieee695MC.tla builds modules from records in every encoding and shows reading to be inverse and every prefix to be refused; all modules of up to two (thorough: three) records of an alphabet of 50 are read by the code, random and damaged ones beyond.")
prop("R01", "The codec registry keeps what was registered first",
     "Names are looked up case-insensitively and exactly. A name, once registered, always gives the codec registered first - registering it again, in whatever case, is refused and changes nothing, unknown names are refused -, formats lists all names in ascending order, iteration follows the order of registration, every Registry() is the same registry, and load, loads, dump and dumps use its codecs.",
     ["histories"], "all histories of registrations and look-ups",
     "Tests look up fixed names; refused registrations and letter case depend on the history.",
     ["objutils/registry.py", "objutils/__init__.py"], [("Registry", "objutils/registry.py"), ("loads/dumps", "objutils/__init__.py")], TRACE,
     "RegistryModel.tla; all histories of three (thorough: four) operations and random ones, started with the library's codecs.")
prop("S01", "Singletons have one instance, whatever the schedule",
     "Under every interleaving of threads asking for instances of singleton classes (SingletonBase), all calls for a class return the same object of that very class - also for classes derived from a singleton class that already has an instance - and every call returns.",
     ["schedules"], "all interleavings of two and three threads at line and bytecode granularity",
     "No test runs two threads.",
     ["objutils/utils/__init__.py"], [("SingletonBase.__new__", "objutils/utils/__init__.py")], TRACE,
     "Singleton.tla specifies the double-checked lock (variants without lock, without second check or with inherited instances are refuted); all interleavings of two threads and those of three threads with up to three preemptions are forced onto the real code, stepped line by line, and random schedules bytecode by bytecode.")

DWARF = ["objutils/dwarf/__init__.py", "objutils/dwarf/encoding.py", "objutils/dwarf/sm.py", "objutils/dwarf/constants.py"]
D_NOTE = "DWARF 2 to 5 in the 32-bit format as far as the code supports it (exclusions in DESIGN.md). Trusts TLC and the driver's projection; {}"

prop("D01", "Elementary DWARF encodings are decoded and encoded exactly",
     "LEB128 numbers of any length, addresses of 1, 2, 4 and 8 bytes in either byte order, blocks of all four kinds, strings, references into the string table, include directories and file entries are parsed to exactly their value, and exactly the bytes they occupy are consumed. Encoding a number as LEB128 or an address gives the shortest bytes that denote it, negative numbers are refused by ULEB; encodings cut short are refused.",
     ["inputs"], "all values, lengths, byte orders and all byte strings",
     "The test suite does not exercise the DWARF code; sign bits, group boundaries and non-minimal encodings need many values.",
     ["objutils/dwarf/encoding.py"], [("ULEB, SLEB, Block, Address, StrP, ArrayOfCStrings, FilenameSequence", "objutils/dwarf/encoding.py")], REPLAYTRACE,
     D_NOTE.format("Leb.tla: encoding and decoding shown inverse and shortest for all small byte strings; DwarfInfo.tla defines the other encodings; random values and strings validated."))
prop("D02", "DWARF expressions are disassembled operation by operation",
     "Every location expression is shown as exactly its operations in order, each with its name and its operands - of the width, sign and byte order the operation, the file and its address size demand, blocks included. An expression that ends within an operation is refused, and decoding for one file does not depend on files of another byte order or address size opened before.",
     ["inputs", "histories"], "all expressions over the operations of DWARF 2 to 5 and GNU's extensions",
     "The test suite contains no expression; some 170 operations have operands of ten kinds.",
     ["objutils/dwarf/sm.py", "objutils/dwarf/encoding.py", "objutils/dwarf/__init__.py"], [("StackMachine, opcode factories", "objutils/dwarf/sm.py"), ("dwarf_expression", "objutils/dwarf/__init__.py")], TRACE,
     D_NOTE.format("DwarfNames.tla lists the operations, DwarfInfo.tla decodes them; every operation with boundary operands and random expressions for four machines used in turns are validated."))
prop("D03", "Debug information entries form the tree the file denotes",
     "do_dbg_info() gives one tree for every unit of .debug_info: each entry, at its offset and place in the tree, with its tag and the attributes of its abbreviation in order - names, values of any form (numbers up to 64 bits signed or unsigned as the form says, strings from any string section, blocks, flags, unit and section references, implicit constants), enumeration names, and locations disassembled. The map of entries lists all of them; so it is however often the file is read, from the file or from its cache.",
     ["inputs"], "all .debug_info and .debug_abbrev sections of DWARF 2 to 5 (32-bit format), both byte orders and address sizes of 1, 2, 4 and 8 bytes",
     "The test suite contains no debug information; null entries, unit ends and form sizes interact with what follows.",
     ["objutils/dwarf/__init__.py", "objutils/dwarf/encoding.py", "objutils/dwarf/constants.py"], [("DebugInfo, do_dbg_info, do_abbrevs", "objutils/dwarf/__init__.py"), ("Attribute encodings", "objutils/dwarf/encoding.py")], REPLAYTRACE,
     D_NOTE.format("DwarfInfo.tla decodes the sections from their bytes; DwarfMC.tla builds all trees of up to three (thorough: four) entries from templates of attributes and of two units, checks the decoder against the construction and hands the files to the code; random trees and some 250 programs compiled for 27 processors are validated as well."))

T_NOTE = ("ToolTrace.tla judges what the tools print by HexFormats, ElfFormat and HexDump, and names by tables of the gABI and its supplements (ElfNames.tla). "
          "Every run is a process of its own in a scratch directory; trusts TLC and the driver's parsing of the printed tables. {}")
prop("T01", "oj-hex-info shows the image a hex file denotes",
     "For a file of any of the thirteen formats it accepts, oj-hex-info prints the sections of the image the file denotes, in ascending order with number, start address and length, and the total number of bytes; asked for it, a dump of each section that decodes to exactly its bytes. It succeeds for every valid file, and for a missing file and one whose records are corrupted it does not.",
     ["inputs"], "all files of the formats and all ways to give the options",
     "No test runs the tools; what they print depends on the whole of the file.",
     ["objutils/scripts/oj_hex_info.py", "objutils/image.py", "objutils/section.py", "objutils/hexdump.py"], [("main", "objutils/scripts/oj_hex_info.py"), ("hexdump", "objutils/image.py")], TRACE,
     T_NOTE.format("Random images of every format written, shuffled, damaged or missing."))
prop("T02", "oj-elf-extract writes the loadable image of an ELF file",
     "oj-elf-extract writes to a file of the type asked for (Intel HEX by default, S-records, TI-TXT, SHF) exactly the image that the file's allocated sections with contents form, of sections whose names match the pattern to include and not the one to exclude, and prints these sections with address and length. An image the format cannot hold, and a file that is no ELF file, makes it fail; without anything to write it writes nothing.",
     ["inputs", "histories"], "all ELF files, patterns, types and options; files read for the first time and from their cache",
     "No test runs the tools; sections, patterns and the limits of formats interact.",
     ["objutils/scripts/oj_elf_extract.py", "objutils/elf/__init__.py", "objutils/ihex.py", "objutils/srec.py", "objutils/titxt.py", "objutils/shf.py"], [("main", "objutils/scripts/oj_elf_extract.py"), ("ElfParser.create_image", "objutils/elf/__init__.py")], REPLAYTRACE,
     T_NOTE.format("The bounded model ElfMC.tla hands its files and queries to the tool; random files and programs compiled for 29 processors besides."))
prop("T03", "oj-elf-info, -syms and -arm-attrs show what the ELF file says",
     "oj-elf-info prints class, byte order, type, machine, ABI and version, AVR architecture, all sections and segments with all their fields, the comment and the notes; oj-elf-syms exactly the symbols the options select, grouped by section in the order asked for, with value, size, binding, type and access; oj-elf-arm-attrs every attribute of an ARM file by vendor. Numbers have the names the ELF specifications give them, and numbers without a name are shown as they are. A file that is no ELF file makes them fail.",
     ["inputs", "histories"], "all ELF files, options and machines; files read for the first time and from their cache",
     "No test runs the tools; one of them could not even be started.",
     ["objutils/scripts/oj_elf_info.py", "objutils/scripts/oj_elf_syms.py", "objutils/scripts/oj_elf_arm_attrs.py", "objutils/elf/defs.py", "objutils/elf/__init__.py", "objutils/elf/arm/attributes.py"],
     [("main", "objutils/scripts/oj_elf_*.py"), ("machine_data, enumerations", "objutils/elf/defs.py"), ("SymbolAPI, SectionAPI, ElfParser", "objutils/elf/__init__.py")], REPLAYTRACE,
     T_NOTE.format("Bounded model, random files with varied headers and programs compiled for 29 processors (with DWARF 2 to 4 debug information)."))
