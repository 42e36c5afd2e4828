#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: ./props.py rewrites both."""
import json, os

V = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = state
    if observe:
        a["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a))


prop("C01", "Reading arbitrary bytes never panics, overflows or hangs",
     "Opening any byte string as GRIB2 data, listing its sections, templates and submessages, and pulling items from the section stream (also after it reported an error) ends with a result or an error. No input causes a panic, an arithmetic overflow or an endless loop.",
     ["inputs"], "every byte string (bounded length), every value of every length and number field",
     "Tests read a few valid files; malformed lengths that make offset arithmetic overflow are found only by considering every value of the length fields together.",
     ["src/reader.rs", "src/context.rs", "src/parser.rs"],
     [("section stream arithmetic", "src/reader.rs Grib2SectionStream"), ("section payload readers", "src/reader.rs SeekableGrib2Reader"), ("submessage validator", "src/parser.rs Grib2SubmessageValidator")])
prop("C02", "Reported sections tile each message exactly",
     "When data is accepted, the sections listed for each message lie inside the input, follow one another without gap or overlap from the GRIB indicator to the 7777 end marker exactly where the total length says, and their numbers and sizes are those in the section headers. Conversely, every well-formed sequence of messages, with or without bytes before, between or after them and wherever reading starts, is accepted and its sections are listed with their absolute offsets.",
     ["inputs"], "every input up to a length bound; every small combination of section sizes, messages and surrounding bytes",
     "Offsets accumulate over sections and messages; an error shows only for particular size combinations, positions relative to the reader's buffer, or malformed headers.",
     ["src/reader.rs"], [("offset and rest accounting", "src/reader.rs next_sect0/next_sect/next_sect8"), ("search for the indicator", "src/reader.rs read_sect0")])
prop("C03", "Submessages are grouped exactly as the section grammar prescribes",
     "For every sequence of sections, reading yields exactly the submessages of the grammar message = 0 1 ([[2] 3] 4 5 6 7)+ 8, each with its message and submessage number, its own sections 4 to 7, and the most recent sections 0 to 3 of the same message (never those of an earlier message). The first section that does not fit, a missing grid definition, a cut-off sequence or an error from the source is reported as the corresponding error and nothing follows it.",
     ["inputs", "histories"], "every sequence of section numbers up to a length bound, an error at any position, several messages",
     "The number of section sequences is exponential; tests list a dozen. Carry-over of sections between submessages and messages depends on the whole history.",
     ["src/parser.rs", "src/context.rs"], [("validator state machine", "src/parser.rs Grib2SubmessageValidator"), ("grouping", "src/parser.rs Grib2SubmessageStream, Grib2SubmessageIndexStream")])
prop("C04", "The result does not depend on how the reader delivers bytes",
     "Reading the same data through any reader that returns fewer bytes than requested, or is interrupted, at any call gives the same sections, submessages and decoded values as reading it from memory.",
     ["schedules", "inputs"], "every placement and size of short reads (bounded number per run), every maximum chunk size, an interruption at any read",
     "Tests read from files and memory, which always deliver everything at once.",
     ["src/reader.rs"], [("header reads", "src/reader.rs read_sect0/read_sect_header/read_sect8"), ("payload reads", "src/reader.rs read_sect_payload_as_slice")])
prop("C05", "Damaged, truncated or unreadable data is reported, not shortened",
     "If a read or seek fails, if the data ends inside a message after its first section, if an end marker, edition number or total length is wrong, opening the data fails with an error. It never yields fewer submessages as if the data were complete, and a failure while reading values for decoding is an error too.",
     ["fault_sequences", "inputs"], "a fault at every operation, a cut at every position, every wrong value of marker, edition and total length",
     "Faults have to be placed at every read and every byte position; tests use intact files.",
     ["src/reader.rs", "src/parser.rs", "src/decoder.rs"], [("end-of-data handling", "src/reader.rs check_size"), ("validator end states", "src/parser.rs"), ("end marker", "src/reader.rs read_sect8")])
prop("C06", "Header fields equal the octets at their specified positions",
     "Discipline, total length, all identification fields, template numbers, point counts, number of coordinate values, bitmap indicator and the raw section contents reported for a message are the big-endian values of the octets the GRIB2 specification assigns to them, both in the section list and through the submessage accessors.",
     ["inputs"], "every content of every section of one message layout",
     "A swapped or shifted octet shows only for contents in which the confused fields differ; here every content is considered at once.",
     ["src/datatypes/sections.rs", "src/context.rs", "src/reader.rs"], [("field accessors", "src/datatypes/sections.rs"), ("section dispatch", "src/reader.rs read_sect_payload")])
prop("C07", "Submessage iteration honours the iterator contract",
     "For every sequence of next, nth and fresh iterations over the submessages, each item is the one a plain walk would give, the size hint is the number left, and going past the end yields nothing and never panics. Submessages may be kept, in any number and from several iterators, and decoded in any order: each gives its own values.",
     ["histories"], "every sequence of iterator operations up to a length bound",
     "Only particular mixes of operations expose a wrong position.",
     ["src/context.rs"], [("SubmessageIterator", "src/context.rs")], state="position in the list of submessages")
prop("C08", "Template listing is sorted, complete and without duplicates",
     "The list of templates of a file contains exactly the grid, product and data representation templates its submessages use, each once, ordered by section and number.",
     ["inputs"], "every combination of template numbers over a few values in several submessages",
     "Duplicates and ordering depend on combinations across submessages.",
     ["src/context.rs"], [("get_templates", "src/context.rs")])

prop("C09", "Simple packing gives (R + X 2^E) / 10^D at every bit width",
     "For simple packed data of any bit width from 1 to 32, any reference value and any (sign-and-magnitude) binary and decimal scale factors, each grid point value is (R + X 2^E) 10^-D of its own n-bit big-endian integer X. With zero bits per value every point is R 10^-D, whichever packing is used.",
     ["inputs"], "every data content, reference value, scale factors and bit width",
     "Values at odd bit widths cross octets in many alignments; sample files use one or two widths and positive scale factors.",
     ["src/decoder/simple.rs", "src/decoder/stream.rs", "src/decoder/param.rs", "src/helpers.rs"],
     [("bit extraction", "src/decoder/stream.rs NBitwiseIterator"), ("formula", "src/decoder/simple.rs SimplePackingDecodeIterator"), ("parameters", "src/decoder/param.rs SimplePackingParam")])
prop("C10", "The bitmap decides which points have values, and the count is exact",
     "Decoding yields exactly one value per grid point of Section 3. A point whose bitmap bit is 1 takes the next decoded value, a point whose bit is 0 is not a number; without a bitmap every point has a value. A bitmap shorter than the grid, or one marking more points than there are values, is an error. The size hint is the number of values left at every moment.",
     ["inputs"], "every bitmap, number of points, number of values and data length up to bounds",
     "Off-by-one errors appear only for particular counts modulo 8 and particular last bits.",
     ["src/decoder/bitmap.rs", "src/decoder.rs"], [("bitmap iteration", "src/decoder/bitmap.rs BitmapDecodeIterator"), ("count check", "src/decoder.rs dispatch")])
prop("C11", "Complex packing restores group references, widths, lengths and missing values",
     "For complex packed data (template 5.2) with any group references, widths and lengths and any reference, increment and bit counts describing them, each value is (R + (group reference + X) 2^E) 10^-D; a group of width 0 repeats its reference; with missing value management 1 or 2 exactly the all-ones (and all-ones minus one) codes are not a number. Groups whose lengths do not add up to the number of values are an error.",
     ["inputs"], "every content of the group descriptors and data, every width and bit count up to 32",
     "Groups of different widths start at arbitrary bit positions; missing codes depend on each group's width.",
     ["src/decoder/complex.rs", "src/decoder/complex/missing.rs", "src/decoder/stream.rs", "src/decoder/param.rs"],
     [("group decoding", "src/decoder/complex.rs ComplexPackingValueDecodeIterator"), ("group descriptors", "src/decoder/complex.rs decode_complex_packing")])
prop("C12", "Spatial differencing is undone exactly",
     "For template 5.3 with first- or second-order differencing and descriptors of 1 to 4 octets, the first one or two present values are those stored (sign and magnitude), every later value is the stored difference plus the overall minimum plus the prediction from the previous present values, and missing values stay missing without disturbing the recurrence.",
     ["inputs"], "every descriptor and data content, every placement of missing values",
     "The recurrence carries state over all values; errors show for particular placements of missing values and negative descriptors.",
     ["src/decoder/complex/diff.rs", "src/decoder/complex.rs", "src/helpers.rs"],
     [("recurrence", "src/decoder/complex/diff.rs"), ("descriptors", "src/decoder/complex/diff.rs SpatialDifferencingExtraDescriptors")])
prop("C13", "Run-length packing expands to exactly the encoded levels",
     "For template 5.200 data the decoded levels are the literals repeated as the base-(2^n - 1 - V) digits after them say, level 0 is not a number and level k is its table value times 10^-D (D signed). A run before any literal, a total differing from the number of points and a level outside the table are errors.",
     ["inputs"], "every code sequence, bit width, maximum level and level table up to bounds",
     "Run lengths multiply up; particular digits overflow, overrun the grid or hit padding bits.",
     ["src/decoder/run_length.rs"], [("expansion", "src/decoder/run_length.rs rleunpack"), ("levels", "src/decoder/run_length.rs decode")])
prop("C14", "PNG and JPEG 2000 samples are used in order with the packing formula",
     "For PNG data the n-bit integers are read from the decoded pixel octets, for JPEG 2000 data from the single decoded component in its own geometry, in order, and put through the packing formula. An image that cannot be decoded, has several components or has too few samples is an error, and the end of the code stream is reported to the codec.",
     ["inputs"], "every sample, image geometry and bit width up to bounds, failure of the codec at each stage",
     "Image offsets, subsampling and short images do not occur in sample files.",
     ["src/decoder/png.rs", "src/decoder/jpeg2000.rs", "src/decoder/jpeg2000/ext.rs"], [("glue to the codecs", "src/decoder/png.rs, src/decoder/jpeg2000.rs"), ("stream callbacks", "src/decoder/jpeg2000/ext.rs")])
prop("C15", "Decoding any data ends with an error or with one value per point",
     "Whatever Sections 3, 5, 6 and 7 contain, setting up a decoder and decoding never panics, overflows or reads outside the data; it ends with an error or yields exactly as many values as Section 3 has grid points. Data too short for the number of values, bit counts above 32, unsupported templates and unsupported bitmap indicators are errors.",
     ["inputs"], "every content of Section 5 and 7 up to a length bound for every template",
     "Malformed parameters reach shifts, slices and multiplications that valid files never stress.",
     ["src/decoder.rs", "src/decoder/*.rs"], [("template dispatch", "src/decoder.rs"), ("length checks", "src/decoder/*.rs decode")])

prop("C16", "Grid points are enumerated once each in scanning order",
     "For every shape and scanning mode the (i, j) iterator yields each of the Ni x Nj points exactly once, in the order of flag table 3.4 (rows of consecutive i or columns of consecutive j, every other one reversed when the boustrophedon bit is set); its size hint is always the number left. Scanning modes with the low four bits set are errors, and so is a submessage whose Section 3 has another number of points than its shape.",
     ["inputs"], "every shape up to bounds (any 32-bit shape for count and first points), every scanning mode",
     "Sample files use two or three of the 16 supported scanning modes and never degenerate shapes.",
     ["src/grid.rs", "src/context.rs"], [("order", "src/grid.rs GridPointIndexIterator"), ("count", "src/context.rs SubMessage::ij, grid_shape")])
prop("C17", "Grid definitions carry the values of their octets",
     "For grid templates 0, 20, 30 and 40 every field of the definition is the value of its octets in the WMO layout, with latitudes, longitudes and angles as sign and magnitude; the Earth's axes follow code table 3.2 (scaled value / 10^scale factor, kilometres for shape 3). Other templates, sections too short for their template and lists of numbers of points are errors, never panics.",
     ["inputs"], "every content of Section 3 at the lengths listed",
     "Negative angles, scale factors and unusual shapes of the Earth are absent from sample files.",
     ["src/datatypes/sections.rs", "src/grid/latlon.rs", "src/grid/gaussian.rs", "src/grid/lambert.rs", "src/grid/polar_stereographic.rs", "src/grid/earth.rs", "src/helpers.rs"],
     [("fields", "src/grid/*.rs from_buf"), ("dispatch", "src/datatypes/sections.rs GridDefinitionTemplateValues::try_from"), ("axes", "src/grid/earth.rs EarthShapeDefinition::radii")])
prop("C18", "Coordinates of regular grids run evenly between the end points in data order",
     "latlons() of a latitude/longitude grid pairs the k-th value with the point of the k-th (i, j): latitudes run evenly from the first to the last, longitudes evenly in the scanning direction, through the 0/360 meridian if need be. A Gaussian grid has the same longitudes and latitudes in the direction of the scanning mode. Latitudes contradicting the scanning mode and point counts that differ from Section 3 are errors.",
     ["inputs"], "every first and last coordinate and scanning mode, shapes up to bounds",
     "Wrapping grids, negative scanning directions and single rows or columns are rarely sampled.",
     ["src/grid/latlon.rs", "src/grid/gaussian.rs", "src/grid/helpers.rs", "src/context.rs"],
     [("even spacing", "src/grid/helpers.rs evenly_spaced_degrees, evenly_spaced_longitudes"), ("pairing", "src/grid/helpers.rs RegularGridIterator"), ("consistency", "src/grid/latlon.rs is_consistent_for_j")])
prop("C19", "Projected grids hand the right definition and points to PROJ",
     "With feature gridpoints-proj, latlons() of polar stereographic and Lambert grids builds the projection from the Earth's axes and the template's angles, starts at the first point and steps by Dx and Dy (millimetres) in the direction of the scanning mode, in data order. Unknown shapes of the Earth, unknown projection centre flags and failures of PROJ are errors.",
     ["inputs"], "every first point, increment, scanning mode and shape up to bounds, selected angles, every point of failure of PROJ",
     "Sample files have one projection and scanning mode each.",
     ["src/grid/lambert.rs", "src/grid/polar_stereographic.rs", "src/grid/helpers.rs", "src/grid/earth.rs"],
     [("definition", "src/grid/lambert.rs latlons, src/grid/polar_stereographic.rs latlons"), ("stepping", "src/grid/helpers.rs latlons_from_projection_definition_and_first_point")])

prop("C20", "Product definitions carry the values of their octets",
     "For every product definition template the library knows, parameter category and number, type of generating process, forecast time and both fixed surfaces are the values of their octets in the WMO layout of that template, or absent where the template or a short section has none; unknown templates have none. parameter() combines discipline, Section 1 and Section 4. Sections below their minimal size are errors.",
     ["inputs"], "every content of Section 4 at the lengths listed, all 65536 template numbers but two",
     "Some seventy templates have their own offsets; sample files use four.",
     ["src/datatypes/sections.rs", "src/datatypes/product_attributes.rs", "src/context.rs"], [("offsets", "src/datatypes/sections.rs ProdDefinition::{generating_process, forecast_time, fixed_surfaces}"), ("minimal sizes", "src/datatypes/sections.rs from_payload"), ("parameter", "src/context.rs SubMessage::parameter")])
prop("C21", "Reference and forecast times are those of the file",
     "ref_time() gives the UTC time of octets 13-19 of Section 1 exactly when that date and time exist in the Gregorian calendar, an error otherwise, never a panic. Forecast times carry the unit of code table 4.4 by its number, unknown units by their code, and their text shows value and unit.",
     ["inputs"], "every octet of the reference time, every unit and value",
     "Leap years, years 0 and 65535 and impossible dates are not in sample files.",
     ["src/datatypes/sections.rs", "src/datatypes/product_attributes.rs", "src/codetables/grib2.rs", "src/codetables/old.rs"], [("ref_time", "src/datatypes/sections.rs Identification::ref_time"), ("units", "src/codetables/grib2.rs Table4_4")])
prop("C22", "Fixed surfaces have the value, unit and missing marks of their octets",
     "A fixed surface's value is scaled value x 10^-factor, and not a number exactly when it is marked missing; the unit is that of code table 4.5; describe() shows type, factor and value or Missing.",
     ["inputs"], "every type, factor and value",
     "Negative factors, missing marks and the full range of values are rarely sampled.",
     ["src/datatypes/product_attributes.rs"], [("value", "src/datatypes/product_attributes.rs FixedSurface::value"), ("unit", "FixedSurface::unit")])
prop("C23", "Codes are described by their own table",
     "Lookup of a code in a table, of a parameter or template description gives the entry of that table for that discipline and category, and nothing else for codes without an entry, which are shown as not implemented; third-party parameter codes stand for their discipline, category and number; describe() of a submessage shows its own values.",
     ["inputs"], "every parameter; every discipline and boundary codes of the tables",
     "There are dozens of tables selected by two numbers; tests look up a few.",
     ["src/codetables.rs", "src/codetables/core.rs", "src/codetables/external.rs", "src/datatypes/product_attributes.rs", "src/context.rs"], [("lookup", "src/codetables/core.rs, src/codetables/old.rs CodeTable4_1, CodeTable4_2"), ("third-party", "src/datatypes/product_attributes.rs Parameter::is_identical_to"), ("describe", "src/context.rs SubMessage::describe")])

prop("C24", "Generated code tables give each code its own meaning",
     "Given the WMO CSV files of a code table, the generated constant has at every code's position the meaning of the row (code or range of codes) containing it, nothing for reserved and missing codes, and never another code's meaning; tables are split by the discipline and category of the subtitle and exported once each under their own name. Ranges, numbers and file names that cannot be read are errors or skipped, never panics.",
     ["inputs"], "tables of up to 3 rows (thorough: 4) with every digit, form and order of codes",
     "The tests have a handful of tables; offsets after ranges, gaps and reserved codes depend on their order.",
     ["gen/src/lib.rs", "gen/src/grib2_codeflag_csv.rs", "gen/src/cct_csv.rs"], [("positions", "gen/src/lib.rs CodeTable::to_vec"), ("ranges", "gen/src/lib.rs CodeRange::from_str, size"), ("subtitles", "gen/src/grib2_codeflag_csv.rs OptArg::from_str, CodeDB::parse_file")])
prop("C25", "Generated parameter codes are those of the table",
     "The enum generated from a wgrib2 table has one variant per name, valued discipline x 65536 + category x 256 + number of the first line of that name; TryFrom<u32> maps the code of every line to the variant of its name and every other number to an error. Numbers above 255 are an error.",
     ["inputs"], "every 32-bit code for a table of 13 lines; every number and combination of equal names for tables of 3 lines",
     "Names repeated under several codes are merged; tests have one such name.",
     ["codegen/src/param_codes.rs", "codegen/src/lib.rs"], [("merging", "codegen/src/param_codes.rs Wgrib2Table::from_str_impl, enum_variants"), ("codes", "codegen/src/param_codes.rs Wgrib2TableEntry::id"), ("conversion", "codegen/src/lib.rs parameter_codes")])

prop("C26", "gribber decode exports exactly the decoded values of the chosen submessage",
     "gribber decode takes an index N.M of decimal digits and writes, with -b or -l, the decoded values of submessage M of message N as 32-bit floats in that byte order, four octets for each grid point in order, and nothing else; without them it prints one line for each grid point with its latitude, longitude (NaN when the grid has none) and value. Indices of other forms or of submessages that do not exist, files that are missing or no GRIB2 data, data that cannot be decoded and output that cannot be written are reported on standard error with a failing exit status and never panic; what cannot be decoded leaves no output; the same files make every other command fail likewise.",
     ["inputs"], "every index text of 3 and 5 characters; every value, bitmap and byte order of up to 3 points",
     "Tests of the tool compare the output for sample files; index texts, byte orders, bitmaps and broken files combine.",
     ["cli/src/main.rs", "cli/src/cli.rs", "cli/src/commands/decode.rs"], [("index", "cli/src/cli.rs CliMessageIndex::from_str"), ("export", "cli/src/commands/decode.rs write_output, exec"), ("failure", "cli/src/main.rs, cli/src/cli.rs grib")])
prop("C27", "gribber list, inspect and info show what the file contains",
     "list prints one line for each submessage, in order, with its index, parameter, generating process, forecast time, fixed surfaces, numbers of missing and of all points and grid type (--dump: its description); inspect prints each section with its extent and number, each submessage with its section and template numbers and each template once, or those asked for; info prints the identification of each message once and fails on a reference time that does not exist. None panics on a file the library accepts. A pager is started exactly if the text has more lines than the terminal.",
     ["inputs"], "every template number, parameter, process, identification octet and number of points one at a time; files of up to two messages of up to two submessages",
     "Files in tests have a few messages; shared sections, repeated submessages, unknown templates and numbers of points that contradict each other are not among them.",
     ["cli/src/commands/list.rs", "cli/src/commands/inspect.rs", "cli/src/commands/info.rs", "cli/src/cli.rs"], [("list", "cli/src/commands/list.rs ListView"), ("inspect", "cli/src/commands/inspect.rs InspectView"), ("info", "cli/src/commands/info.rs InfoView"), ("pager", "cli/src/cli.rs display_in_pager")])

prop("C28", "Latitudes of Gaussian grids are the roots of the Legendre polynomial",
     "For every number of parallels between a pole and the equator N that a Gaussian grid states, the latitudes are the 2 N roots of the Legendre polynomial of degree 2 N, from north to south or south to north as the grid is scanned, to the precision of 32-bit floats.",
     ["inputs"], "every N up to 65535",
     "Tests compare a few grids with values computed elsewhere.",
     ["src/grid/gaussian.rs"], [("roots", "src/grid/gaussian.rs compute_gaussian_latitudes")])
prop("C29", "Code tables carry the text of the WMO tables",
     "Every description of a code of tables 0.0, 1.x, 3.1, 4.x and 5.0 that the library gives is the text of the table published by WMO in the version the library states.",
     ["inputs"], "every code of every table",
     "Tests look up a handful of codes.",
     ["src/codetables/grib2.rs", "build.rs", "gen/src/grib2_codeflag_csv.rs"], [("text", "def/CCT and def/GRIB2 tables, which build.rs feeds to gen")])

NA = [
    {"property": "C28", "reason": "the roots are found by Newton iterations from a cosine estimate: cos has no encoding for the solver that says more than its value at single points, and the iteration is over floating-point division chains as long as N. The values the code computes for small N are compared with the exact roots in C18, which is evaluation, not a solver's verdict over all N."},
    {"property": "C29", "reason": "the tables are a submodule (def/) that is empty here, so there is neither the data nor the oracle; how tables are turned into code is C24, how they are looked up C23."},
]

LEVEL_NOTE = "Symbolic execution of the LLVM IR of the code in /repo (lsx, engine/) with every input bit symbolic within the stated bounds; each branch and assertion is decided by sound rewriting, interval refutation, validated models or Z3 ({note}). Exhaustive within the bounds, not beyond."


def main():
    import specs
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks = []
    na = list(NA)
    for p in P:
        if p["id"] not in specs.SPECS:
            if not any(n["property"] == p["id"] for n in na):
                na.append({"property": p["id"], "reason": "no check yet"})
            continue
        s = specs.SPECS[p["id"]]
        checks.append({
            "property": p["id"],
            "quick_cmd": "./run.py %s quick" % p["id"],
            "thorough_cmd": "./run.py %s thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": "solver-based symbolic execution of the compiled code (LLVM IR), SMT (Z3)",
            "level": "model_checking",
            "level_note": LEVEL_NOTE.format(note="; ".join(h["bound"] for h in s["harness"] if not h.get("thorough"))[:600]),
        })
    m = {"version": 1, "setup_cmd": "./run.py build", "checks": checks, "not_applicable": na,
         "notes": "All checks share one executor and one harness crate; see DESIGN.md. Exit 3 means no answer (bounds not exhausted, solver gave up, build failure)."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


main()
