"""Which harnesses decide which property, with their bounds."""

COMMON_ASSUMPTIONS = [
    "rustc's lowering to LLVM IR (opt-level 1, overflow checks and debug assertions on) is faithful; panics abort",
    "the executor's model of the LLVM IR and of malloc/memcpy-like externals is faithful; sampled paths are re-run natively in dev and release builds and must agree",
    "allocation succeeds; hash keys of std HashMap/HashSet are fixed; environment variables are unset; writes to stderr succeed",
    "the command line tool runs with stand-ins for clap, console, pager, regex and which (their documented behaviour as far as it is used) and its real anyhow and once_cell; print macros append to a string",
    "the WMO code-table text (absent submodules) is replaced by stand-in tables, the png and openjpeg crates by stand-ins with their documented contract",
]


def H(h, arg=None, bound="", **kw):
    d = dict(h=h, bound=bound, **kw)
    if arg is not None:
        d["arg"] = arg
    return d


SPECS = {
    "C01": dict(
        harness=[
            H("c01_raw", 40, "every byte string of 40 bytes", cover=[1, 2]),
            H("c01_msg", 44, "magic and edition followed by any 44 bytes", cover=[2]),
            H("c01_hdrs", 3, "any total length and any three section headers over zeroed bodies of 17 octets", cover=[2]),
            H("c01_stream", 20, "section stream asked up to 10 times over any 20 bytes after the magic", cover=[2]),
            H("c02_mut", 1, "an 11-section message with any one section header or the total length replaced by any value", cover=[1, 2]),
            H("c01_msg", 64, "magic and edition followed by any 64 bytes", cover=[2], thorough=True),
            H("c01_hdrs", 4, "any total length and any four section headers", cover=[2], thorough=True),
            H("c02_mut", 2, "any two section headers (or the total length) replaced by any value", cover=[1, 2], thorough=True),
        ],
        outside="inputs longer than stated; total lengths are any 64-bit value but input bytes are bounded",
    ),
    "C02": dict(
        harness=[
            H("c02_raw", 50, "every byte string of 50 bytes", cover=[2]),
            H("c02_msg", 44, "magic and edition followed by any 44 bytes", cover=[2]),
            H("c02_mut", 1, "an 11-section message with any one section header or the total length replaced by any value", cover=[1, 2]),
            H("c02_layout", 6, "one message, with or without section 2, one section up to 3 octets longer than minimal, 0-6 arbitrary leading bytes, trailing bytes; all contents"),
            H("c02_multi", 2, "two messages with junk between; all contents"),
            H("c02_far", 4096, "4076 to 4099 leading bytes"),
            H("c02_far", 8180, "8160 to 8183 leading bytes"),
            H("c02_far", 65560, "65540 to 65563 leading bytes", fuel=200000000),
            H("c02_far", 131080, "131060 to 131083 leading bytes", fuel=200000000),
            H("c02_offset", 20, "reading starts 0 to 20 bytes into the data"),
            H("c02_many", 40, "40 submessages in 40, 20, 4 or 1 messages, one of them with a Section 2", cover=[1]),
            H("c02_big", 11, "one section 250 to 70000 octets longer than minimal, any contents at its end", cover=[1]),
            H("c02_many", 300, "300 submessages in 300, 150, 30 or 1 messages, one of them with a Section 2", cover=[1]),
            H("c02_sparse", 0, "two sections 7 of 5 to 4294967295 octets (sizes less 5 with any first and last octet), a submessage to be decoded after them, up to 8 GB into the input", cover=[1, 2]),
            H("c02_multi", 3, "three messages", thorough=True),
            H("c02_mut", 2, "any two section headers (or the total length) replaced by any value", cover=[1, 2], thorough=True),
            H("c02_msg", 64, "magic and edition followed by any 64 bytes", cover=[2], thorough=True),
        ],
        outside="longer inputs; more than three messages; more than one section longer than minimal plus 3, lengths between 3 and 70000 other than the boundaries listed; lengths beyond for sections other than 7",
    ),
    "C03": dict(
        harness=[
            H("c03_stream", 20, "every sequence of 20 section numbers 0..8 from a stream", cover=[1, 2]),
            H("c03_stream", 17, "every sequence of 17 section numbers", cover=[1, 2]),
            H("c03_stream", 9, "every sequence of 9 section numbers", cover=[1, 2]),
            H("c03_err", 16, "every sequence of 16 section numbers with an error at any position", cover=[1, 2]),
            H("c03_handle", 12, "one message of 12 sections with any section numbers", cover=[1, 2]),
            H("c03_handle", 7, "one message of 7 sections", cover=[1, 2]),
            H("c03_handle2", 1012, "a message of 12 and one of 10 sections", cover=[1, 2]),
            H("c03_handle2", 607, "a message of 7 and one of 6 sections", cover=[1, 2]),
            H("c02_many", 300, "numbering of 300 submessages in 300, 150, 30 or 1 messages", cover=[1]),
            H("c03_stream", 28, "every sequence of 28 section numbers", cover=[1, 2], thorough=True),
            H("c03_handle", 20, "one message of 20 sections", cover=[1, 2], thorough=True),
        ],
        outside="longer sequences",
    ),
    "C04": dict(
        harness=[
            H("c04_short", 2, "three submessages in two messages, any two reads short by any amount (up to 23 bytes delivered)"),
            H("c04_max", 24, "at most k bytes per read, k = 1..24"),
            H("c04_intr", 0, "any one read interrupted"),
            H("c04_intr", 6, "at most 1 to 6 bytes per read and any one read interrupted, so also after a partial read"),
            H("c04_lead", 20, "0 to 19 leading bytes and one short read"),
            H("c04_decode", 2, "decoding with any two reads short"),
            H("c04_big", 70000, "70000 values and a bitmap, one value any octet; at most 1000 to 65536 bytes per read, or any one read interrupted", cover=[1], fuel=400000000),
            H("c04_short", 3, "any three reads short", thorough=True),
        ],
        outside="more than three short reads of different sizes in one run",
    ),
    "C05": dict(
        harness=[
            H("c05_fault", 48, "a read or seek failing at any of the first 48 operations, once or for good, with any of 7 kinds of error, after no or one octet", cover=[1, 2]),
            H("c05_fault_decode", 34, "a failure at any operation up to decoded values", cover=[1, 2]),
            H("c05_cut", 0, "two messages, three submessages, cut at every position", cover=[1, 2]),
            H("c05_marks", 0, "any wrong byte in either end marker or edition"),
            H("c05_length", 0, "any wrong 64-bit total length"),
            H("c05_big", 70000, "a message of 70000 values cut off at 13 places, or its source when the values are read", cover=[1, 2], fuel=400000000),
        ],
    ),
    "C06": dict(harness=[H("c06_fields", 0, "all contents of one eight-section message")]),
    "C07": dict(harness=[
        H("c07_ops", 4, "every sequence of 4 operations over 3 submessages"),
        H("c07_kept", 6, "every sequence of 6 steps that take, decode or drop submessages of two iterators"),
        H("c07_nth", 0, "nth() and skip() by any 64-bit number, from any position", cover=[1, 2]),
        H("c02_many", 40, "nth() and next() over 40 submessages in 40, 20, 4 or 1 messages", cover=[1]),
        H("c07_kept", 9, "every sequence of 9 such steps", thorough=True),
        H("c07_ops", 5, "every sequence of 5 operations", thorough=True),
    ]),
    "C08": dict(harness=[H("c08_templates", 2, "two submessages, template numbers from 8 values of 0..65535"),
                         H("c08_many", 300, "300 submessages in 300, 30 or 1 messages, one of them of six template numbers", cover=[1], fuel=400000000),
                         H("c08_templates", 3, "three submessages", thorough=True)]),
    "C09": dict(
        harness=[
            H("d_simple", 3, "three values of every bit width 1..32, all parameters and data; with and without a spare octet", cover=[1]),
            H("d_simple_long", 300, "300 values of 1, 5, 8, 12, 24, 31 bits, all parameters; data fixed but for any 5 octets at its start, middle or end", cover=[1]),
            H("d_const", 2, "zero bits per value in templates 5.0, 5.40, 5.41; all parameters", cover=[1]),
            H("d_const_long", 70000, "a constant field of 70000 points, all parameters", cover=[1], fuel=400000000),
            H("d_simple", 6, "six values", cover=[1], thorough=True),
        ],
        outside="more values; when the code's float operations are not the formula's, comparison with tolerance 1e-5 at single points only",
    ),
    "C10": dict(
        harness=[
            H("d_bitmap", 7, "7 points, all bitmaps, up to one spare octet, all 8-bit data and parameters", cover=[1]),
            H("d_bitmap", 9, "9 points", cover=[1]),
            H("d_bitmap_long", 601, "601 points, all parameters; bitmap and data fixed but for any 1 and 2 octets at the start, middle or end", cover=[1]),
            H("d_bitmap_count", 600, "600 points, any number of values, bitmap of ones but for any four octets: error or not", cover=[1, 2]),
            H("d_bitmap_count", 530000, "the same for 530000 points", cover=[1, 2], fuel=400000000),
            H("d_short", 2, "0..11 points, 0..11 values of {1, 3, 8, 16, 33, 255} bits in 0..1 octets, bitmaps of 0..2 octets or none", cover=[1, 2]),
            H("d_bitmap", 12, "12 points", cover=[1], thorough=True),
            H("d_short", 5, "data of up to 4 octets", cover=[1, 2], thorough=True),
        ],
        outside="larger bitmaps",
    ),
    "C11": dict(
        harness=[
            H("d_complex_width", 0, "two groups (1 and 2 values), first width 0..34, second 0, 1, 5, 32 or one more; all data; no missing values", cover=[1, 2]),
            H("d_complex_width", 1, "the same with primary missing values", cover=[1, 2]),
            H("d_complex_width", 2, "the same with primary and secondary missing values", cover=[1, 2]),
            H("d_complex_ref", 0, "two groups, references of 0..32 bits, widths 0 or 4; no missing values", cover=[1]),
            H("d_complex_ref", 1, "the same with primary missing values", cover=[1]),
            H("d_complex_ref", 2, "the same with primary and secondary missing values", cover=[1]),
            H("d_complex_long", 60, "60 groups, all parameters; group sizes, references and data fixed, all missing value managements", cover=[1]),
            H("d_complex_group", 300, "groups of 150 to 300 values of 8 to 31 bits; all parameters; data fixed but for any two octets, all missing value managements", cover=[1]),
            H("d_complex_group", 2100, "groups of 1050 to 2100 values", cover=[1], fuel=200000000),
            H("d_complex_large", 0, "one or two groups of up to 589823 values, less data than they need: error", cover=[1]),
            H("d_complex_len", 3, "0..3 groups, any length reference, increment, last length and scaled lengths of 0, 1, 4, 8, 32 bits, for 3 points", cover=[1, 2]),
            H("d_complex_len", 5, "the same for 5 points", cover=[1, 2], thorough=True),
        ],
        outside="more groups; integers beyond 32 bits signed; group splitting methods other than 1",
    ),
    "C12": dict(
        harness=[H("d_diff", k, "5 points in 2 groups, order 1 and 2, descriptors of 1..4 octets, all values, missing value management %d" % k, cover=[1]) for k in range(3)] + [
            H("d_complex_long", 1003, "27 points or fewer in 3 groups, order 1 and 2, all parameters; data fixed but for any two octets at the start, middle or end, all missing value managements", cover=[1]),
            H("d_complex_long", 1020, "the same with 20 groups (about 200 points)", cover=[1]),
            H("d_complex_long", 1030, "the same with 30 groups", cover=[1], thorough=True, time=300),
        ],
        outside="more points; sums beyond 32 bits signed",
    ),
    "C13": dict(
        harness=[
            H("d_rle", 1, "one octet of codes of 1..4 bits, 0 or 2 levels, 0..6 points, all codes, levels and scale factors", cover=[1, 2]),
            H("d_rle", 2, "two octets of codes of 4, 5, 7, 8, 12, 16 bits", cover=[1, 2]),
            H("d_rle_long", 20, "20 runs of codes of 4, 8, 12, 16 bits, up to 600 levels, fixed but for any 2 octets of levels and any scale factor", cover=[1]),
            H("d_rle_long", 200, "the same with 200 runs", cover=[1]),
            H("d_rle_run", 300, "one run of 300 to 302 points in codes of 8 and 16 bits; all levels and scale factors; grids of one point more or less", cover=[1, 2]),
            H("d_rle_run", 70000, "the same with 70000 points", cover=[1, 2], fuel=400000000),
            H("d_rle_max", 3, "three 8-bit codes, maximum level 5 .. 256", cover=[1, 2]),
            H("d_rle_max", 4, "four 8-bit codes", cover=[1, 2], thorough=True),
            H("d_rle", 3, "three octets of codes", cover=[1, 2], thorough=True, time=420),
        ],
        outside="longer data; more than two levels",
    ),
    "C14": dict(
        harness=[
            H("d_png", 2, "two values of 0..33 bits, pixel octets one less to one more than needed, all contents", cover=[1, 2]),
            H("d_png_long", 300, "300 values of 8, 16, 24 bits, all parameters; data fixed but for any 3 octets", cover=[1]),
            H("d_jpeg_long", 200, "600 values, all parameters; samples fixed but for any one", cover=[1]),
            H("d_jpeg_long", 22016, "the same with 66048 values", cover=[1], fuel=400000000),
            H("d_jpeg", 2, "0..3 values; image offsets, sizes, subsampling and number of components up to 2, all samples", cover=[1, 2]),
            H("d_jpeg", 3, "geometry up to 3", cover=[1, 2], thorough=True),
        ],
        outside="the PNG and JPEG 2000 codecs themselves, which are stand-ins; samples beyond 16 bits",
    ),
    "C15": dict(
        harness=[H("d_any", 10 * size + k, "template 5.%s, any Section 5 (complete or one octet short) and %d octets of data; fewer than 4 points" % (t, size), cover=[1, 2])
                 for k, t, size in [(0, 0, 3), (1, 2, 2), (2, 3, 3), (3, 40, 10), (4, 41, 3), (5, 200, 2)]]
        + [
            H("d_short", 2, "0..11 points, 0..11 values of {1, 3, 8, 16, 33, 255} bits in 0..1 octets, bitmaps of 0..2 octets or none", cover=[1, 2]),
            H("d_complex_short", 0, "complex packing with up to 19 octets missing or up to 4 too many, bit counts of 33 and 255", cover=[1, 2]),
            H("d_complex_short", 1, "the same with first-order differencing", cover=[1, 2]),
            H("d_complex_short", 2, "the same with second-order differencing", cover=[1, 2]),
            H("d_unsupported", 3, "every template number and bitmap indicator", cover=[1]),
            H("d_any", 31, "template 5.2, 3 octets of data", cover=[1, 2], thorough=True),
            H("d_any", 42, "template 5.3, 4 octets of data", cover=[1, 2], thorough=True),
            H("d_any", 62, "template 5.3, 6 octets of data", cover=[1, 2], thorough=True),
            H("d_any", 61, "template 5.2, 6 octets of data", cover=[1, 2], thorough=True),
            H("d_any", 80, "template 5.0, 8 octets of data", cover=[1, 2], thorough=True),
        ],
        outside="longer data; for complex and run-length packing bit counts other than the ones at the limits, more than 2 groups; JPEG 2000 images larger than 2x2",
    ),
    "C16": dict(
        harness=[
            H("g_ij", 4, "every shape up to 4 by 4, every scanning mode octet, all four templates", cover=[1, 2]),
            H("g_ij_big", 4, "any 32-bit Ni and Nj, every supported scanning mode: count and the first 4 points", cover=[1, 2]),
            H("g_ij_long", 300, "rows and columns of 0 to 301 points by 0 to 3, every supported scanning mode: every point", cover=[1]),
            H("g_sub", 0, "any 32-bit Ni, Nj and number of points, every scanning mode: ij() and grid_shape() of a submessage", cover=[1, 2]),
            H("g_ij", 7, "every shape up to 7 by 7", cover=[1, 2], thorough=True),
            H("g_ij_big", 12, "the first 12 points", cover=[1, 2], thorough=True),
        ],
        outside="points beyond the first ones of grids larger than the bounds, other than the long ones listed",
    ),
    "C17": dict(
        harness=[H("g_fields", k, "template 3.%d, every octet any value, sections of 9, 20, minimal-1, minimal, minimal+1 and minimal+9 octets" % t, cover=[1, 2]) for k, t in enumerate([0, 20, 30, 40])]
        + [
            H("g_any", 8, "any Section 3 of 13 octets", cover=[]),
            H("g_any", 67, "any Section 3 of 72 octets", cover=[1, 2]),
            H("g_any", 75, "any Section 3 of 80 octets", cover=[1, 2]),
            H("g_any", 300, "any Section 3 of 305 octets", cover=[1, 2]),
            H("g_radii", 0, "every shape, scale factor and scaled value", cover=[1, 2, 3]),
        ],
        outside="longer sections",
    ),
    "C18": dict(
        harness=[
            H("g_latlon", 3, "template 3.0, every shape up to 3 by 3, any first and last latitude and longitude, every scanning mode", cover=[1, 2, 3]),
            H("g_latlon", 13, "template 3.40, the same; latitudes of up to 3 rows compared with the roots", cover=[1, 2, 3]),
            H("g_latlon_long", 300, "template 3.0, rows and columns of 300 points by 1 or 2, any first and last latitude and longitude, every scanning mode", cover=[1, 2], fuel=200000000),
            H("g_gauss_long", 320, "template 3.40, 5, 160 and 320 rows of one point, every scanning mode: Legendre polynomial of degree 5, 160, 320 is 0 at the latitudes, to 1e-6", cover=[1, 2], fuel=200000000),
            H("g_sub", 1, "latlons() of a submessage, shapes up to 2 by 2, any number of points in Section 3", cover=[1, 2]),
            H("g_latlon", 4, "every shape up to 4 by 4", cover=[1, 2, 3], thorough=True),
            H("g_latlon", 14, "template 3.40, up to 4 by 4", cover=[1, 2, 3], thorough=True),
        ],
        outside="rounding: coordinates must be computed by the even-spacing formula in single precision, or be within 1e-6 of it for selected end points; grids of other sizes; Gaussian latitudes of other numbers of rows than 1 to 4, 5, 160, 320",
    ),
    "C19": dict(
        harness=[H("g_proj", k, "template 3.%d, every shape up to 2 by 2, any first point and increments, every scanning mode; 4 choices of projection angles and of the Earth, failures of PROJ at each step" % t, cover=[1, 2]) for k, t in enumerate([20, 30])]
        + [H("g_proj_long", 300, "rows and columns of 300 points by 1 or 2 of either template, any first point and increments, every supported scanning mode", cover=[1])],
        outside="PROJ itself, which is a stand-in; other projection angles (they are formatted as text)",
    ),
    "C20": dict(
        harness=[H("p_prod", n, "any Section 4 of %d octets, every template number" % (n + 5), cover=c) for n, c in [(4, [3]), (20, [1, 3]), (40, [1, 2, 3]), (62, [1, 2, 3]), (295, [1, 2, 3])]]
        + [H("p_sizes", k, "Section %d of 5..24 octets" % n) for k, n in enumerate([1, 3, 4, 5, 2])]
        + [H("p_prod", n, "any Section 4 of %d octets" % (n + 5), cover=[1, 2, 3], thorough=True) for n in (30, 33, 50, 80)]
        + [H("p_sub", 0, "parameter() of a submessage: every discipline, Section 1 and first 33 octets of Section 4", cover=[1, 2])],
        outside="templates 4.47 and 4.83; longer sections",
    ),
    "C21": dict(
        harness=[
            H("p_reftime", 0, "every year, month, day; hour 0 or 23: accepted exactly when the date exists", cover=[1, 2]),
            H("p_reftime", 1, "every hour, minute and second of three days", cover=[1, 2]),
            H("p_reftime", 2, "every month and day of nine years from 0 to 65535", cover=[1, 2]),
            H("p_time", 0, "every unit and value; text of eight values", cover=[1]),
        ],
        outside="month and day of the result for years other than the nine",
    ),
    "C22": dict(
        harness=[
            H("p_surface", 0, "every type, scale factor and scaled value", cover=[1, 2]),
            H("p_surface_text", 0, "types below 6 and above 250, eleven ranges of factors, eight values"),
        ],
        outside="a scale factor marked missing with a value that is present; rounding beyond nine digits",
    ),
    "C23": dict(
        harness=[
            H("p_param", 0, "every parameter", cover=[1, 2]),
            H("p_tables", 0, "table 4.2: selected disciplines and categories up to 255, codes at and beyond the ends"),
            H("p_tables", 1, "table 4.1: every discipline"),
            H("p_tables", 2, "the other tables and templates"),
            H("p_sub", 1, "describe() of a submessage with selected contents", cover=[1, 2, 3]),
        ],
        outside="the texts of the WMO tables, which are stand-ins here (their CSV files are a submodule that is absent)",
    ),
    "C24": dict(
        harness=[
            H("t_range", 4, "any four ASCII characters", cover=[1, 2, 3]),
            H("t_range", 0, "no characters", cover=[2]),
            H("t_flag", 2, "two rows: no code, a text, a code or range with digits below 6; a name or a mark", cover=[1, 2]),
            H("t_flag", 13, "three rows: codes or ranges with digits below 4", cover=[1, 2]),
            H("t_flag_long", 0, "five rows with ranges at the limits of one, two and three digits and of octets, up to 600 codes", cover=[1, 2]),
            H("t_sub", 0, "tables of two disciplines, one of one or two digits", cover=[1, 3]),
            H("t_sub", 1, "the same with categories", cover=[1, 3]),
            H("t_subtitle", 0, "numbers of up to three characters (any but + and separators)", cover=[1, 2]),
            H("t_names", 0, "five file names, one subtitle"),
            H("t_cct", 0, "tables C-0 of two rows", cover=[1, 2]),
            H("t_cct", 1, "tables C-11 of two rows", cover=[1, 2]),
            H("t_range", 7, "any seven ASCII characters", cover=[1, 2, 3], thorough=True),
            H("t_flag", 3, "three rows of any kind", cover=[1, 2], thorough=True),
            H("t_flag", 14, "four rows", cover=[1, 2], thorough=True),
            H("t_cct", 2, "tables C-0 of three rows", cover=[1, 2], thorough=True),
            H("t_cct", 3, "tables C-11 of three rows", cover=[1, 2], thorough=True),
        ],
        outside="longer tables; codes of more digits; quoting of the CSV dialect beyond commas and quotes; titles with line ends",
        assumptions=["The file system is modelled: a file holds the octets written to it, reads return as much as is asked for."],
    ),
    "C25": dict(
        harness=[
            H("t_macro", 0, "every 32-bit code, one table of 13 lines", cover=[1, 2], part="mac"),
            H("t_codes", 0, "tables of three lines, one number of one to three digits", cover=[1, 2], part="codes"),
            H("t_codes", 1, "tables of three lines, four names, every combination of equal names and eight codes", cover=[1, 3], part="codes"),
            H("t_codes_long", 300, "tables of 300 lines of 300, 150 or 10 names, lines of equal names together or apart, one number of eleven values", cover=[1, 2], part="codes", fuel=400000000),
        ],
        outside="other names; longer tables",
    ),
    "C26": dict(
        harness=[
            H("x_index", 3, "any index argument of 3 characters, after 19 digits or another digit of Unicode, with or without a line feed at its end; a file of three submessages", cover=[1, 2, 3], part="cli"),
            H("x_index", 5, "any index argument of 5 characters (as above)", cover=[1, 2, 3], part="cli"),
            H("x_export", 3, "three points, any bitmap, any reference value, scale factors and data; either byte order, the option before and after the other arguments", cover=[1, 2], part="cli"),
            H("x_export", 1, "one point (as above)", cover=[1, 2], part="cli"),
            H("x_full", 0, "1 to 4096 equal values of any reference value, to a file, a full device and a folder that is not there", cover=[1, 2], part="cli"),
            H("x_many", 300, "300 submessages in 300, 30 or 1 messages, indices at the ends and at the limits of digits and octets", cover=[1, 2], part="cli"),
            H("x_long", 70000, "70000 values, one of them any octet, either byte order", cover=[1], part="cli", fuel=400000000),
            H("x_text", 0, "text of a 2 by 2 grid with a bitmap; grids with, without and with unsupported coordinates; terminals around the number of lines", cover=[1, 2], part="cli"),
            H("x_bad", 0, "every command; files that are missing, have any 0 to 19 octets, are cut off anywhere, or have any other edition", cover=[1], part="cli"),
            H("x_index", 7, "any index argument of 7 characters (as above)", cover=[1, 2, 3], part="cli", thorough=True),
            H("x_export", 6, "six points", cover=[1, 2], part="cli", thorough=True),
        ],
        outside="templates other than simple packing (C09 to C15 decide what the decoders return); the text of the values beyond five digits; arguments that clap itself rejects",
    ),
    "C27": dict(
        harness=[
            H("y_inspect", 0, "one submessage, any template number, sections and submessages", cover=[1], part="cli"),
            H("y_inspect", 1, "one message of one or two submessages in every form, every combination of options, terminals around the number of lines", cover=[1], part="cli"),
            H("y_inspect", 300, "300 submessages in 300, 30 or 1 messages of alternating forms, 0 or 70000 leading bytes", cover=[1], part="cli", fuel=400000000),
            H("y_points", 0, "any number of grid points and of values", cover=[1], part="cli"),
            H("y_points", 1, "known numbers of grid points and of values", cover=[1], part="cli"),
            H("y_list", 0, "one submessage with any discipline, category, number, process or time", cover=[1], part="cli"),
            H("y_list", 1, "one message of one or two submessages of known and unknown templates; one line and --dump; terminals around the number of lines", cover=[1], part="cli"),
            H("y_list", 300, "300 submessages in 300, 30 or 1 messages", cover=[1], part="cli", fuel=400000000),
            H("y_info", 0, "one message, any value of one of discipline, centre, sub-centre, versions, significance, status and type", cover=[1, 2], part="cli"),
            H("y_info", 2, "one or two messages of one or two submessages, valid and invalid reference times", cover=[1, 2], part="cli"),
            H("y_inspect", 2, "one or two messages", cover=[1], part="cli", thorough=True),
            H("y_list", 2, "one or two messages", cover=[1], part="cli", thorough=True),
            H("y_info", 3, "up to three messages", cover=[1, 2], part="cli", thorough=True),
        ],
        outside="widths of columns, headings and colours; more messages",
    ),
}
