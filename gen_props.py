#!/usr/bin/env python3
# Source of properties.jsonl (run once; the jsonl is what is committed and read).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=False):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=state
    if observe: d["anchors"]["observe_at"]=observe
    if hook: d["anchors"]["hook_needed"]="build tag verif: exported pass-through wrappers around the unexported functions"
    P.append(d)
A="a2l/"
p("H01","Intel-HEX loading yields exactly the memory image the records describe",
 "Loading a well-formed Intel-HEX file (data, end-of-file, extended-linear-address and start-address records, any record lengths, any order and any banks, upper or lower case digits, LF or CRLF line ends) succeeds and returns exactly the bytes the file describes: every data byte at its full 32-bit address (the last extended-linear-address record before it, plus the record's offset, plus the byte's index), no byte lost, misplaced, altered or invented. Empty lines and the position of a record inside the file make no difference to the address arithmetic. An end-of-file record is optional and does not end the interpretation: in files glued together the records behind one count as well.",
 ["inputs","configurations"],"every well-formed I32HEX file x every number of CPUs the parser splits the file over",
 "The only test counts the entries of one demo file on one machine; bank switches, record sizes and chunk borders are an unbounded space.",
 ["ihex32/hex.go","ihex32/record.go"],[("line parsing","ihex32/record.go parseRecord"),("bank offsets","ihex32/record.go addOffsets"),("address arithmetic","ihex32/record.go calcDataEntries"),("collection","ihex32/hex.go parseHex")],observe=["ihex32.ParseFromFile"])
p("H02","A damaged or ambiguous Intel-HEX file is rejected, never partially loaded",
 "If any record of an Intel-HEX file is damaged (wrong checksum, a character that is no hex digit, missing start code, truncated line, byte count that disagrees with the line, a record type that cannot be honoured, an extended-linear-address record of other than two bytes) or two records define the same address, loading returns an error. It never reports success with an image from which bytes are missing or in which bytes are wrong.",
 ["inputs","fault_sequences"],"every well-formed file x every single damage at every record position x CPU counts",
 "No test feeds a damaged file; damage position relative to chunk borders decides which code notices it.",
 ["ihex32/hex.go","ihex32/record.go"],[("checksum","ihex32/record.go validateChecksum"),("record errors","ihex32/hex.go parseRecordRoutine"),("collision check","ihex32/hex.go parseHex")],observe=["ihex32.ParseFromFile"])
p("H03","Image loading does not depend on CPU count, scheduling or concurrent loads",
 "For one image file (Intel-HEX or S-record) the outcome - the same complete image, or rejection - is the same on every machine whatever its number of CPUs, in every repetition, and when several image files are loaded concurrently in one process each load returns its own file's image.",
 ["schedules","configurations","inputs"],"every image file x 1..8 CPUs x goroutine schedules x sets of concurrent loads",
 "Tests run one load on one machine; chunk borders and goroutine interleavings vary with CPU count and load.",
 ["ihex32/hex.go","ihex32/record.go","srec19/hex.go","srec19/record.go"],[("chunking over goroutines","ihex32/hex.go parseHex"),("chunking over goroutines","srec19/hex.go parseHex"),("offset propagation between goroutines","ihex32/record.go addOffsets")],observe=["ihex32.ParseFromFile","srec19.ParseFromFile"])
p("H04","Image loaders survive arbitrary file content",
 "Whatever bytes a file contains, loading it as Intel-HEX or as S-record returns - with an image or an error - and never panics, deadlocks or brings the process down; a path that cannot be read is reported as an error. When such a load does succeed, the image contains only bytes that some line of the file spells out.",
 ["inputs"],"every byte string as file content x CPU counts",
 "Crashing inputs are needles: short lines, odd lengths, empty files, single lines, binary data at chunk borders.",
 ["ihex32/hex.go","ihex32/record.go","srec19/hex.go","srec19/record.go"],[("line parsing","ihex32/record.go parseRecord"),("line parsing","srec19/record.go parseRecord")],observe=["ihex32.ParseFromFile","srec19.ParseFromFile"])
p("S01","S-record loading yields exactly the memory image the records describe",
 "Loading a well-formed Motorola S-record file whose data are 32-bit-address data records (S3), with or without header, count and termination records, succeeds and returns exactly the data bytes at their addresses: none lost, misplaced, altered or invented. Header, count and termination records contribute no bytes and do not affect the data around them.",
 ["inputs","configurations"],"every well-formed S3 file (any lengths, order, line ends, digit case) x CPU counts",
 "The repository's test loads one file; header and termination records, odd lengths and chunk borders are not sampled.",
 ["srec19/hex.go","srec19/record.go"],[("line parsing","srec19/record.go parseRecord"),("address arithmetic","srec19/record.go calcDataEntries"),("collection","srec19/hex.go parseHex")],observe=["srec19.ParseFromFile"])
p("S02","A damaged or ambiguous S-record file is rejected, never partially loaded",
 "If any data record of an S-record file is damaged (wrong checksum, non-hex character, missing start letter, truncated line, byte count that disagrees with the line), if data come in a record type the loader does not support, or if two records define the same address, loading returns an error. It never reports success with an image from which data bytes are missing or wrong.",
 ["inputs","fault_sequences"],"every well-formed S-record file x every single damage at every record position x CPU counts",
 "No test feeds a damaged S-record file.",
 ["srec19/hex.go","srec19/record.go"],[("checksum","srec19/record.go validateChecksum"),("record errors","srec19/hex.go parseRecordRoutine"),("collision check","srec19/hex.go parseHex")],observe=["srec19.ParseFromFile"])
# ---- A2L
obs=["a2l.ParseFromFile"]
p("A01","Every object of an A2L module is found under its identifier, and no other",
 "After successfully parsing a one-module A2L file in which no identifier is used twice within a kind, each kind of module-level object (characteristics, axis points, measurements, conversion methods and tables, record layouts, functions, groups, units, blobs, instances, type definitions, transformers, user rights, IF_DATA) contains exactly the identifiers the file defines, each with the content of its own definition. This holds for any number, order and size of objects and wherever the parallel parser splits the file.",
 ["inputs","configurations","schedules"],"every valid single-module A2L file x CPU counts (split positions) x schedules",
 "The demo files exercise one split of one object sequence; an object lost or duplicated at a chunk border needs a particular size and CPU count.",
 [A+"module.go",A+"token_generator.go"],[("parallel module parsing","a2l/module.go parseModuleMultithreaded"),("chunk tokenizing","a2l/token_generator.go buildTokenGeneratorFromString")],observe=obs)
p("A02","Characteristic, axis, blob, instance and type-definition contents are kept",
 "Every attribute written in a CHARACTERISTIC, AXIS_PTS, BLOB, INSTANCE or TYPEDEF_* definition (mandatory parameters, optional keywords and nested blocks such as axis descriptions, fixed axis parameters, matrix dimensions, limits, byte order, access rights, symbol links, dependent and virtual characteristics) is available in the parsed object with exactly the written value, attributes that were not written are not reported as set, and repeated blocks keep their number and order.",
 ["inputs"],"every valid definition of these blocks: any subset and order of optional parts, any in-range values",
 "Existing tests check single keywords in isolation; combinations and orders of optional parts are combinatorial.",
 [A+"characteristic.go",A+"axis_pts.go",A+"axis_descr.go",A+"instance.go",A+"blob.go",A+"matrix_dim.go",A+"overwrite.go",A+"type_def_characteristic.go"],[("block parsers","a2l/characteristic.go parseCharacteristic"),("axis description","a2l/axis_descr.go parseAxisDescr"),("enumerations","a2l/enums.go")],observe=obs)
p("A03","Measurement, function, group and other module block contents are kept",
 "Every attribute written in a MEASUREMENT, TYPEDEF_MEASUREMENT, FUNCTION, GROUP, FRAME, TRANSFORMER, USER_RIGHTS, VARIANT_CODING, IF_DATA or ANNOTATION block is available in the parsed object with exactly the written value: identifier lists keep all members in order, flags are set exactly if written, and repeated blocks keep their number and order.",
 ["inputs"],"every valid definition of these blocks: any subset and order of optional parts, any list lengths",
 "Existing tests do not look at these blocks' content at all.",
 [A+"measurement.go",A+"function.go",A+"group.go",A+"variant_coding.go",A+"if_data.go",A+"annotation.go",A+"user_rights.go",A+"transformer.go"],[("block parsers","a2l/measurement.go parseMeasurement"),("identifier lists","a2l/ref_characteristic.go")],observe=obs)
p("A04","Conversion methods, conversion tables and units are kept",
 "Every COMPU_METHOD, COMPU_TAB, COMPU_VTAB, COMPU_VTAB_RANGE and UNIT is parsed with exactly the written coefficients, table rows (all rows, in order, numeric keys paired with their own outputs), default values, formulas, references and SI exponents.",
 ["inputs"],"every valid definition of these blocks: any row counts and values",
 "Tests sample at most one instance; wrong pairing or loss shows only for particular row counts, signs or optional parts.",
 [A+"compu_method.go",A+"compu_tab.go",A+"compu_vtab.go",A+"compu_vtab_range.go",A+"unit.go"],[("table rows","a2l/compu_tab.go parseCompuTab"),("verbal rows","a2l/compu_vtab.go parseCompuVtab"),("ranges","a2l/compu_vtab_range.go parseCompuVtabRange"),("coefficients","a2l/coeffs.go")],observe=obs)
p("A05","Record layouts are kept exactly",
 "Every component written in a RECORD_LAYOUT (function values, axis points, point counts, rescale pairs, identification, distance/shift/offset operators, RIP and source addresses, reserved gaps, alignments, static flags) is parsed with exactly the written position, data type, index mode and addressing, for every subset and order of components, and components that were not written are not reported as set.",
 ["inputs"],"every valid RECORD_LAYOUT: any subset and order of the ~55 components, all data types",
 "One wrong axis letter or data type in one of fifty near-identical parsers is invisible to the demo file.",
 [A+"record_layout.go",A+"fnc_values.go",A+"axis_pts_x.go",A+"axis_rescale_x.go",A+"no_axis_pts_x.go",A+"reserved.go"],[("component dispatch","a2l/record_layout.go parseRecordLayout"),("component parsers","a2l/axis_pts_x.go ... a2l/src_addr_5.go"),("data types","a2l/enums.go parseDataTypeEnum")],observe=obs)
p("A06","Project, header, MOD_PAR, MOD_COMMON and version information are kept",
 "The file versions, project name and header, module name, A2ML text, MOD_COMMON settings (byte order, data size, deposit mode, all alignments) and MOD_PAR content (EPK addresses, supplier and ECU data, memory layouts and segments, calibration methods, every system constant with its value) are parsed with exactly the written values.",
 ["inputs"],"every valid combination and order of these parts, any values",
 "These settings govern the interpretation of all data, but only single keywords are unit-tested.",
 [A+"project.go",A+"header.go",A+"mod_par.go",A+"mod_common.go",A+"memory_segment.go",A+"memory_layout.go",A+"calibration_method.go",A+"system_constant.go",A+"asap2_version.go",A+"a2ml.go"],[("block parsers","a2l/mod_par.go parseModPar"),("block parsers","a2l/mod_common.go parseModCommon"),("memory segments","a2l/memory_segment.go")],observe=obs)
p("A07","Layout, comments and line breaks do not change the parsed A2L",
 "Two A2L files with the same token sequence parse to the same result however the tokens are separated: blanks, tabs, LF or CRLF line ends, indentation, blank lines, line comments and (multi-line) block comments between tokens are immaterial, including comments that contain quotes, keywords or begin/end pairs. Text inside quotes is kept: comment markers and keywords inside a string are part of the string (white space inside a string is significant as a separator only: a run of blanks, tabs or line breaks reads as one blank). An escaped quotation mark does not end a text; what escape sequences read as is not specified.",
 ["inputs","configurations"],"every valid token sequence x every pair of lexical renderings x CPU counts",
 "Lines are tokenized in parallel chunks, so the effect of a comment or string depends on where the chunk border falls.",
 [A+"token_generator.go",A+"a2l.go"],[("tokenizer","a2l/token_generator.go buildNextValidToken"),("comments","a2l/token_generator.go skipMultilineComment"),("strings","a2l/token_generator.go getTextInQuotationMarks")],observe=obs)
p("A08","A2L parsing does not depend on CPU count or scheduling",
 "Parsing one A2L file (no identifier used twice within a kind) gives the same outcome - equal content or rejection - on machines with any number of CPUs and in every repetition.",
 ["schedules","configurations"],"every A2L file x 1..8 CPUs x goroutine schedules",
 "Tests run on one machine with one split; races and border effects vary with CPU count.",
 [A+"module.go",A+"token_generator.go"],[("parallel module parsing","a2l/module.go parseModuleMultithreaded"),("parallel tokenizing","a2l/token_generator.go tokenBuilderRoutine")],observe=obs)
p("A09","A structurally broken A2L file is rejected",
 "If an A2L file is cut off before its project is closed, lacks the begin or end marker of a block (the end marker of the uninterpreted blocks A2ML and IF_DATA aside), carries a keyword that is not allowed where it stands, or has a non-numeric or out-of-range number or unknown enumeration value in a mandatory numeric or enumeration parameter, parsing returns an error instead of a silently incomplete result.",
 ["inputs","fault_sequences"],"every valid A2L file x every single structural damage at every token x CPU counts",
 "The parallel parser must carry an error from any goroutine to the caller; tests only damage single keywords in isolation.",
 [A+"module.go",A+"project.go",A+"token_generator.go",A+"enums.go"],[("error propagation","a2l/module.go parseModuleMultithreaded"),("end-of-file checks","all a2l block parsers"),("keyword check","a2l/token_generator.go isKeyword")],observe=obs)
p("A10","The A2L parser survives arbitrary file content",
 "Whatever a file contains - random bytes, mutated, spliced or truncated A2L text - parsing it returns with a result or an error and never panics, deadlocks, loops forever or brings the process down.",
 ["inputs"],"every byte string as file content x CPU counts",
 "A panic in a parsing goroutine cannot be recovered by the caller; crashing inputs are needles in an unbounded space.",
 [A+"a2l.go",A+"token_generator.go",A+"module.go"],[("tokenizer indices","a2l/token_generator.go moveToNextRawValue"),("goroutine pipeline","a2l/module.go parseModuleMultithreaded")],observe=obs)
p("A11","Multi-module A2L files keep all modules, in order and apart",
 "Parsing a project with several modules yields exactly those modules in file order, each containing exactly its own objects, also when modules reuse the same identifiers; the content of a module is the same as if it were the only module of the file.",
 ["inputs","configurations"],"every valid project with 1..n modules, overlapping identifiers",
 "No test has more than one module, although the multi-module path is a separate parser.",
 [A+"project.go",A+"module.go",A+"token_generator.go"],[("module counting","a2l/token_generator.go buildTokenList"),("sequential module parser","a2l/module.go parseModule"),("module list","a2l/project.go parseProject")],observe=obs)
p("A12","Parsing a file is not affected by what was parsed before",
 "In one process, any sequence of A2L parses - valid, multi-module, damaged and unreadable files in any order - returns for each file the same outcome as parsing it first in a fresh process, and results returned earlier are not changed by later parses.",
 ["histories"],"every history of parses over a pool of files",
 "The parser keeps its token list and mode in package-level variables; leaks need a particular order of calls.",
 [A+"token_generator.go",A+"a2l.go"],[("package-level token list and counters","a2l/token_generator.go"),("multithreading switch","a2l/a2l.go useMultithreading")],state=[dict(name="tokenList, moduleCount, useMultithreading",meaning="package-level state shared by all parses")],observe=obs)
# ---- reader
p("C01","Reading a calibration combines exactly the two files, or fails as a whole",
 "Reading a calibration from an A2L path and an image path succeeds if and only if both files can be parsed on their own, and then returns exactly the A2L content and the image which the individual parsers return, with the first module selected. If either file is unreadable or damaged, an error is returned and no partial data - in every scheduling of the two concurrent parsers and in every sequence of reads. (In a working directory where the reader can create its log file.)",
 ["inputs","schedules","histories","fault_sequences"],"pairs of valid/damaged/missing A2L and image files, sequences of reads",
 "The single test reads one good pair; the error plumbing between two goroutines is untested.",
 ["calib_data.go"],[("concurrent readers","calib_data.go ReadCalibration"),("error channel","calib_data.go readA2L/readHex")],observe=["calibrationReader.ReadCalibration"])
p("C02","The image format is chosen by the file name",
 "An image file named *.hex is read as Intel-HEX and one named *.s19 as S-record, whatever the letter case of the extension and whatever the directory; a file with any other extension is rejected with an error and never loaded as something else.",
 ["inputs"],"image file names x contents in either format",
 "One lower-case .hex name is tested.",
 ["calib_data.go"],[("dispatch","calib_data.go readHex")],observe=["calibrationReader.ReadCalibration"])
p("C03","Lookup by identifier returns exactly the matching objects of the selected module",
 "Looking up an identifier returns every axis-points, characteristic, conversion method, conversion table, verbal table, range table, function, group, measurement, record layout, system constant and unit object of the selected module that has this identifier - each once, with its content - and nothing else; an unknown identifier yields nothing. (System constants are looked up by their identifier as the file writes it, quotation marks included.)",
 ["inputs","configurations"],"every module content with shared identifiers across kinds and modules x selected module",
 "Tests never look anything up; omissions or mix-ups show only for particular kinds.",
 ["record_manager.go"],[("lookup","record_manager.go GetObjectByIdent")],observe=["CalibrationData.GetObjectByIdent"])
p("C04","Reading leaves nothing behind",
 "After a read has returned - of an A2L file, an image or both, successful or failed, in any sequence - none of its goroutines keeps running or waiting, none of its input files stays open, and the input files are unchanged byte for byte.",
 ["inputs","histories"],"every sequence of reads of valid, damaged and unreadable files",
 "Tests read one good pair; blocked goroutines of failed reads are invisible to them and accumulate in a long-running process.",
 ["calib_data.go",A+"module.go","ihex32/hex.go","srec19/hex.go"],[("collector shutdown","a2l/module.go"),("record routines","ihex32/hex.go parseHex, srec19/hex.go parseHex")],observe=["calibrationReader.ReadCalibration","a2l.ParseFromFile","ihex32.ParseFromFile","srec19.ParseFromFile"])
p("C05","Queries change nothing and do not disturb one another",
 "Looking up objects and constants, reading a characteristic's components, converting values, aligning addresses and computing layout orders leave the loaded A2L content and the image as they are; the answer depends only on the content of the calibration that is asked: it is the same whatever was asked before, of this or of another calibration, and while other questions are asked concurrently.",
 ["histories","schedules","inputs"],"every sequence and every concurrent mix of queries over generated calibrations",
 "Tests ask at most one question per loaded file; a cache, a scratch buffer or a table sorted in place shows only in what is asked next or at the same time.",
 ["calib_data.go","record_manager.go","compu_methods.go","characteristic_values.go",A+"record_layout.go"],[("lookup","record_manager.go GetObjectByIdent"),("conversion","compu_methods.go"),("component reading","characteristic_values.go"),("position map","a2l/record_layout.go GetRecordLayoutRelativePositions")],state=[dict(name="CalibrationData",meaning="the A2L content and image returned by a read, shared by all queries")],observe=["CalibrationData.GetObjectByIdent","RecordLayout.GetRecordLayoutRelativePositions","the conversion, alignment and component readers (hooks)"])
p("C06","Reading takes time and memory in proportion to the size of the file",
 "Reading an A2L file or an image takes processor time and memory in proportion to its size, whatever the file grows by (objects of any kind, list members, table rows, repeated keywords, texts, annotation and A2ML text, comments, white space, modules, records) and whether it is accepted or rejected: a file four times as large takes about four times, not sixteen times, the effort, and a part repeated in a file takes memory by its own length.",
 ["inputs"],"every family of files that grows at one place of the grammar or of the image format, up to 16 MB",
 "The test files are small or of one shape; effort that grows with the square of the size shows only in long files of the right shape, as a hang or an exhausted memory.",
 [A+"token_generator.go",A+"module.go",A+"a2ml.go",A+"annotation_text.go","ihex32/hex.go","srec19/hex.go"],[("texts","a2l/token_generator.go getTextInQuotationMarks"),("objects","a2l/module.go"),("records","ihex32/hex.go, srec19/hex.go")],observe=["a2l.ParseFromFile","ihex32.ParseFromFile","srec19.ParseFromFile"])
p("C07","Reads at the same time do not disturb one another",
 "When several A2L files, several images or several calibrations are read at the same time in one process, each read ends as it would alone: it is accepted with exactly its own content or rejected for its own damage, without crash or deadlock, whatever the others contain and however the reads interleave. (Mixing ReadCalibration, which replaces the process-wide logger, with direct calls of the parsers is not covered.)",
 ["schedules","histories","inputs"],"every set of up to five files or calibrations (also one file several times, valid, damaged, missing, one or several modules) read concurrently, repeatedly",
 "Tests read one file at a time; package-level state of a parser shows only when two reads overlap.",
 [A+"a2l.go",A+"token_generator.go","calib_data.go","ihex32/hex.go","srec19/hex.go"],[("A2L","a2l/a2l.go ParseFromFile"),("token list","a2l/token_generator.go tokenList, moduleCount"),("calibration","calib_data.go ReadCalibration")],state=[dict(name="tokenList, moduleCount, useMultithreading",meaning="package-level state of the A2L parser")],observe=["a2l.ParseFromFile","ihex32.ParseFromFile","srec19.ParseFromFile","ReadCalibration"])
p("C08","Whatever has been accepted can be asked",
 "For every A2L file that parses (well-formed, oddly filled or damaged in a way that is still accepted, without modules) and every image, every question - lookup of an identifier, system constants, conversion of any number by any method or table, decoding of any bytes, addresses, alignment, layout order and data types, reading the components of any characteristic - returns an answer or an error: it never panics, hangs or kills the process.",
 ["inputs"],"every accepted A2L content and image, including odd numbers, zero borders, incomplete tables, huge stored counts, holes",
 "Tests ask few questions about one good file; a division by zero, an index beyond a table or an oversized allocation needs odd content that is nevertheless accepted.",
 ["calib_data.go","record_manager.go","compu_methods.go","axis_pts.go","no_axis_pts.go",A+"record_layout.go"],[("lookup","record_manager.go GetObjectByIdent"),("alignment","calib_data.go getNextAlignedAddress"),("component reading","calib_data.go getValuesFromHex"),("conversion","compu_methods.go")],observe=["CalibrationData.GetObjectByIdent","RecordLayout.GetRecordLayoutRelativePositions","RecordLayout.GetDatatypeByFieldName","the conversion, alignment, decoding and component readers (hooks)"])
# ---- values
p("V01","Record-layout component order is computed from the written positions",
 "For every record layout, the computed component order maps each written position to exactly the component that was written with it, contains all positioned components and nothing else, and two components sharing one position are reported as an error; the data type reported for a component is the one written for it.",
 ["inputs"],"every record layout: any subset of components, any positions, with and without clashes",
 "The function is two 400-line hand-unrolled lists without any test.",
 [A+"record_layout.go"],[("position map","a2l/record_layout.go GetRecordLayoutRelativePositions"),("data type by component","a2l/record_layout.go GetDatatypeByFieldName")],observe=["RecordLayout.GetRecordLayoutRelativePositions","RecordLayout.GetDatatypeByFieldName"])
p("V02","Raw bytes decode to the value of their data type and byte order",
 "Decoding the bytes of a value gives the number its data type (8/16/32/64-bit unsigned and signed integers, IEEE 16/32/64-bit floats) and the module's byte order (big-endian when none is written) define; bytes behind the value do not matter; too few bytes and unsupported byte orders are reported as errors. The stated size of each data type is its standard size (8, 16, 32 or 64 bits), its stated Go type the one of that size and kind, and its stated name the written one; decoding does not change the bytes.",
 ["inputs"],"all data types x byte orders x bit patterns",
 "Not tested at all; sign, width and endianness errors show only for particular patterns.",
 ["record_manager.go",A+"enums.go"],[("decoding","record_manager.go convertByteSliceToDatatype"),("sizes","a2l/enums.go GetDatatypeLength")],observe=["decoded value"],hook=True)
p("V03","Alignment moves an address to the next multiple of the effective border",
 "The aligned address for a data type is the smallest address not below the given one that is a multiple of the effective alignment border: the record layout's own alignment for that data type, else the module-wide one, else the natural default (1, 2, 4, 8 bytes; 2/4/8 for floats). Aligned addresses are unchanged. (Borders of at least 1; addresses far enough from the end of the 32-bit space.)",
 ["inputs","configurations"],"all data types x layout/module alignment settings x addresses",
 "Not tested; a wrong fallback or rounding shows only for unaligned addresses and particular type/level combinations.",
 ["calib_data.go"],[("alignment","calib_data.go getNextAlignedAddress")],observe=["aligned address"],hook=True)
p("V04","Reading a characteristic's layout components returns what the image holds",
 "Reading the components of a characteristic's record layout from the image returns, for each positioned component (identification, point counts, rescale counts, distance/shift/offset operators, axis points), the value stored at its place: components follow one another in position order from the characteristic's address, each aligned for its data type and advancing by its size, reserved gaps skipped, with as many axis points as the fixed number or the stored point count says. This covers layouts with directly addressed axes, increasing index order, point counts placed before their axis, and no rescale axis pairs; the function values themselves and RIP/source addresses are not interpreted. If the image lacks a needed byte the affected values are not invented.",
 ["inputs"],"every record layout without function values x alignments x byte orders x images x start addresses",
 "No test reads any value from an image.",
 ["calib_data.go","axis_pts.go","no_axis_pts.go","distOp.go","shiftOp.go","offsetOp.go","identification.go","reserved.go","no_rescale_x.go"],[("component walk","calib_data.go getValuesFromHex"),("component readers","axis_pts.go, no_axis_pts.go, ..."),("byte access","calib_data.go getBytes/getValue")],observe=["CharacteristicValues after reading"],hook=True)
p("V05","Internal-to-physical conversion by formula is the defined one",
 "Converting an internal value with an identical, linear or rational conversion method gives the physical value the method defines: the value itself, a*x+b, or a value whose image under the rational function is the internal value whenever such a value is unique; missing coefficients, unsupported conversion types (formula, interpolated table) and unsolvable equations are reported as errors.",
 ["inputs"],"conversion methods x coefficients x internal values",
 "Not tested; degenerate coefficient combinations are numerous.",
 ["compu_methods.go"],[("dispatch","compu_methods.go convDecToPhy"),("rational function","compu_methods.go calcRatFunc")],observe=["converted value"],hook=True)
p("V06","Table conversions return the row that matches, else the default, else an error",
 "Converting an internal value through a numeric table without interpolation, a verbal table or a verbal range table returns the output of the row matching the value (for ranges: the row whose closed interval contains it; a limit shared by two adjoining rows belongs to the row that starts there), the table's default if no row matches, and an error if there is neither; a missing table is an error.",
 ["inputs"],"tables of any size with and without defaults x internal values on, between and at the edge of rows",
 "Not tested.",
 ["compu_methods.go"],[("numeric table","compu_methods.go calcTabNoIntp"),("verbal table","compu_methods.go calcTabVerb"),("range table","compu_methods.go calcTabVerbRange")],observe=["converted value"],hook=True)
p("V07","Address text denotes the same number in every module; constants are looked up",
 "A hexadecimal address text (0x and one to eight digits) denotes its numeric value, independently of the module's data byte order, and malformed text is an error; looking up a system constant of the selected module returns its written value and an unknown constant is an error.",
 ["inputs","configurations"],"address texts x byte orders; system-constant sets x selected module",
 "Not tested.",
 ["record_manager.go"],[("address text","record_manager.go convertStringToUint32Address"),("system constants","record_manager.go getSystemConstantValue")],observe=["converted address","constant value"],hook=True)
with open("properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
for d in P: assert len(d["title"])<=80,(d["id"],len(d["title"]))
