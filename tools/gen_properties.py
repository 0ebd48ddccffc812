#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=("lunify::unify",), state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": text},
              "why_tests_cant": why,
              "anchors": {"files": list(files),
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})

FN = "src/function/mod.rs"; UP = "src/function/upcast.rs"; CV = "src/function/convert.rs"; BU = "src/function/builder.rs"
ST = "src/serialization/stream.rs"; WR = "src/serialization/writer.rs"; LIB = "src/lib.rs"; FM = "src/format/mod.rs"
LAY = "src/function/instruction/operand/layout.rs"; MODE = "src/function/instruction/operand/mode.rs"; OPD = "src/function/instruction/operand/mod.rs"
L50 = "src/function/instruction/lua50.rs"; L51 = "src/function/instruction/lua51.rs"; NUM = "src/number.rs"; CON = "src/function/constant.rs"

p("C01", "Conversion is total: malformed byte code never crashes or hangs it",
  "For every input byte string, every output format and every valid setting, the conversion terminates and returns either a converted chunk or an error. It never panics, overflows an integer or the call stack, runs forever, or uses memory out of proportion to the size of the input.",
  ["inputs", "configurations", "fault_sequences"],
  "all byte strings (truncated, corrupted, hostile) x all output formats x all settings",
  "The unit tests feed eleven well-formed fixtures, one wrong signature and one padded file; a malformed count, jump, operand or length is never tried.",
  [LIB, ST, FN, UP, CV, BU],
  [("bounds checks on every read", ST), ("jump rewriting over the instruction list", BU), ("error type", "src/error.rs")])

p("C02", "The output is always Lua 5.1 in exactly the requested format",
  "Whenever a conversion succeeds, the output starts with the configured output signature, the Lua 5.1 version byte and exactly the header fields of the requested format, and the rest of the output is encoded in that format. This includes Lua 5.0 input whose own format coincides with the requested one, and input whose compile settings differ from the output settings.",
  ["inputs", "configurations"],
  "every supported input format and version x every output format x settings",
  "Tests convert to two output formats and under cfg(test) the shortcut for matching formats is compiled out, so no test reaches it.",
  [LIB, FM, "src/format/width.rs", "src/format/endianness.rs", WR],
  [("matching-format shortcut", LIB), ("header writer", FM)])

p("C03", "Format conversion preserves the whole function tree of a Lua 5.1 chunk",
  "Converting a Lua 5.1 chunk to another format keeps every function and its order and nesting, and for each function the source name, line numbers, upvalue count, parameter count, vararg flag, constants, instructions with the operands that affect execution (not the size hints of NEWTABLE), line info, local variable records and upvalue names; only their encoding changes. The required stack size is never lowered. An integer field that the output width cannot hold is reported as an error, never truncated silently.",
  ["inputs", "configurations"],
  "all Lua 5.1 chunks x all pairs of input and output format",
  "Tests never decode an output chunk again; they only check that conversion succeeds or that one script prints 9.",
  [FN, ST, WR, CV],
  [("function reader and writer", FN), ("width and endian aware primitives", "src/serialization/macros.rs")])

p("C04", "Strings survive byte for byte",
  "Every string in the input chunk (source name, string constant, local variable name, upvalue name) appears in the output with exactly the same bytes and length, whatever bytes it contains, including zero bytes and bytes above 127. An absent name stays absent, and equal or different strings stay equal or different.",
  ["inputs", "configurations"],
  "all byte strings in all string positions x both versions x all formats",
  "Every fixture contains only printable ASCII strings.",
  [ST, WR, CON], [("string reader", ST), ("string writer", WR)])

p("C05", "Number constants keep their value or the conversion reports an error",
  "A number constant keeps its exact value whenever the output number format can represent it, for every combination of integral or floating, 32 or 64 bit, little or big endian, in Lua 5.0 and Lua 5.1 input. A fraction or out-of-range value going to an integral format, and an integer a floating format cannot hold exactly, is reported as an error; only narrowing a floating number to 32 bit may round, and then to the nearest value.",
  ["inputs", "configurations"],
  "all number values x all 8 input number formats x all 8 output number formats",
  "Tests convert the single value 9 or 10 in each format and one out-of-range integer.",
  [NUM, WR, ST, FM], [("integer/float conversion", NUM), ("number writer", WR), ("Lua 5.0 test number detection", FM)])

p("C06", "Instructions keep opcode and operands across operand layouts and widths",
  "Re-encoding an instruction from any valid operand layout into any other keeps the opcode, registers, constant references, signed jumps and counts that the instruction uses, in 32 and 64 bit instruction words. When a value does not fit into the output layout or the output instruction word, the conversion reports an error instead of producing a different instruction.",
  ["inputs", "configurations"],
  "all opcodes x all operand values x all pairs of input and output layout x instruction widths",
  "Tests check single operands with the value 1 in the two default layouts.",
  [LAY, MODE, OPD, L50, L51, "src/function/instruction/macros.rs", WR],
  [("operand packing and unpacking", LAY), ("constant/register flag", MODE), ("signed jump bias", OPD)])

p("C07", "Instruction layout specifications are accepted exactly when usable",
  "A layout specification is accepted exactly when each of the four operands appears once, every size is within the documented limits (opcode 6, A 7, B and C 8, each below 32 bits), B and C are adjacent and the instruction fits into 64 bits; otherwise it is rejected as invalid. An accepted layout places the operands in the given order starting at the least significant bit.",
  ["configurations"],
  "all sequences of four operand types with all sizes",
  "Six specifications are tested, all of the default sizes.",
  [LAY], [("from_specification", LAY)], ("InstructionLayout::from_specification", "lunify::unify"))

p("C08", "Lua 5.0 control flow and expressions behave the same after conversion",
  "Running the converted chunk performs the same host calls with the same arguments in the same order, the same global assignments, the same results and the same termination as running the Lua 5.0 chunk, whatever the outcomes of its conditions, for any nesting of conditionals, while and repeat loops, break, and short-circuit expressions. Every jump still reaches the instruction it reached before, however many instructions were added or removed in between.",
  ["programs", "histories"],
  "all Lua 5.0 programs of bounded size x all outcomes of the conditions they evaluate",
  "Tests run a handful of scripts on one path each, or compare the translation of one isolated instruction.",
  [UP, BU, L50, L51], [("instruction mapping", UP), ("jump adjustment by line weights", BU)])

p("C09", "Numeric for loops from Lua 5.0 behave the same after conversion",
  "A Lua 5.0 numeric for loop runs its body the same number of times with the same loop values after conversion, for every start, limit and step, for every nesting of loops, breaks, conditionals and closures inside the body, and leaves every other live local variable untouched.",
  ["programs", "histories"],
  "all loop bounds and nestings of bounded size",
  "Two simple loops are executed by the tests; nested, empty, negative-step and early-exit loops are not.",
  [UP, BU], [("FORLOOP expansion", UP), ("adjusted loop destination", BU)])

p("C10", "Generic for loops from Lua 5.0 behave the same after conversion",
  "A Lua 5.0 generic for loop, over an iterator function or directly over a table, calls the iterator with the same arguments, assigns the same loop variables (any number of them) on every iteration and ends on the same iteration after conversion, for every sequence of iterator results and every nesting.",
  ["programs", "histories"],
  "all iterator answer sequences x number of loop variables x nestings",
  "Tests execute ipairs with two variables and never the one-variable, many-variable or direct table forms.",
  [UP, BU, CON], [("TFORLOOP expansion", UP), ("TFORPREP expansion", UP)])

p("C11", "Variadic Lua 5.0 functions receive their extra arguments",
  "A Lua 5.0 variadic function called with any number of arguments sees its named parameters and the table of extra arguments exactly as in Lua 5.0 after conversion, including none, nil and fewer arguments than parameters, and without disturbing its other local variables; a function that is not variadic is not given one.",
  ["programs", "inputs"],
  "parameter count x number and kind of arguments x function bodies",
  "One variadic call with two parameters and three extra arguments is tested.",
  [UP, FN], [("argument table prologue", UP), ("vararg flag", FN)])

p("C12", "Lua 5.0 table constructors build the same table after conversion",
  "A table constructor compiled by Lua 5.0 builds a table with the same contents after conversion, for any number of list items, any kind of item expression (constants, nil, calls, method calls, comparisons, short-circuit expressions, concatenations, closures, nested constructors, an open call at the end), any interleaved keyed fields, and any flush size configured for input and output. (Which of several assignments to the same key in one constructor comes last is unspecified by Lua and not covered.)",
  ["programs", "configurations"],
  "item counts x item kinds per position x keyed fields x flush sizes",
  "Tests build tables of constants of 4, 6, 9 and 20 items with flush sizes 5 and 8, and two fixtures.",
  [UP, BU, L51], [("SETLIST re-paging", UP), ("instruction removal and insertion", BU)])

p("C13", "Lua 5.1 table constructors survive a different flush size",
  "Converting a Lua 5.1 chunk to a different configured flush size keeps the behaviour of the program: every table constructor still builds the same table, for any item count and kind and whether the output flush size is smaller or larger, and all other code behaves as before. When the flush sizes are equal the instructions are left alone.",
  ["programs", "configurations"],
  "item counts x item kinds x pairs of flush sizes x surrounding control flow",
  "Tests convert constant tables of 4, 6, 9 and 20 items from flush size 5 to 8 only, and never run the result.",
  [CV, BU, L51], [("SETLIST re-paging", CV)])

p("C14", "Closures keep capturing the same variables",
  "After conversion every function instantiates the same nested function and captures the same enclosing local variables and upvalues in the same order, shared between closures and kept alive exactly as before, including closures created in loops, in table constructors and in several nesting levels. This does not depend on debug information being present.",
  ["programs", "histories"],
  "capture patterns x nesting x loop iterations x presence of debug info",
  "One closure without upvalues is exercised by a fixture.",
  [FN, UP, BU], [("upvalue count and CLOSURE operands", FN)])

p("C15", "Stripped byte code converts to the same program",
  "Byte code from which debug information was stripped (line info, local variable and upvalue names, source name, all or some of them) converts to a program that behaves exactly like the conversion of the unstripped chunk: no instruction or upvalue is lost, for Lua 5.0 and Lua 5.1 and for any settings.",
  ["inputs", "configurations"],
  "all subsets of stripped debug sections x versions x programs x settings",
  "Every fixture carries full debug information.",
  [FN, UP, CV, BU], [("line info pairing", UP), ("line info pairing", CV), ("upvalue count", FN)])

p("C16", "Debug information keeps describing the same code",
  "Every instruction of the output carries the source line of the input instruction it stems from, there is one line entry per instruction when the input had line info, and each local variable record covers the same part of the program as before the conversion. Line numbers reported at every call are those of the original chunk.",
  ["programs", "inputs"],
  "all programs of bounded size, every point of execution",
  "Only builder unit tests look at line info, and nothing looks at local variable records.",
  [BU, FN, UP, CV], [("line tracking", BU), ("local variable records", "src/function/local.rs")])

p("C17", "The declared stack size always covers the registers used",
  "In every function of the output the declared maximum stack size covers every register its instructions use and is not lower than the input's, and it never exceeds the configured limit as a result of the conversion: when the conversion needs a register beyond the limit, it reports an error instead, and it reports that error only then.",
  ["programs", "configurations"],
  "register positions up to the limit x every expansion x stack limits",
  "Two builder unit tests cover a single LOADK.",
  [BU, L51, UP], [("stack expansion", BU), ("stack_destination", L51)])

p("C18", "Truncated or padded byte code is rejected",
  "When a conversion is needed, every strict prefix of a valid chunk is rejected as too short (or as lacking the signature) and every valid chunk followed by extra bytes is rejected as too long, in every format and version. A complete chunk is never rejected as too short or too long.",
  ["inputs", "crash_points", "configurations"],
  "all truncation points and paddings of chunks in all formats",
  "One padded fixture is tested and no truncated one.",
  [LIB, ST, FN], [("end-of-stream checks", ST), ("trailing data check", LIB)])

p("C19", "Conversion is idempotent and independent of the path taken",
  "Converting a chunk that already is Lua 5.1 in the requested format under equal settings returns it unchanged, converting an output again changes nothing, and converting through any intermediate format gives the same bytes as converting directly if both formats can hold all values exactly (up to the size hints of NEWTABLE, which only the unchanged chunk keeps).",
  ["inputs", "configurations", "histories"],
  "all chains of formats over all chunks",
  "One fixture is compared with itself, with the shortcut compiled out.",
  [LIB, FM, FN, CV], [("matching-format shortcut", LIB)])

p("C20", "A real Lua 5.1 accepts and runs the output like the original",
  "For every valid input chunk, the converted chunk passes the byte code checks of the stock Lua 5.1 loader for which the requested format is native, and running it there produces the same observable calls and results as the original program.",
  ["programs", "inputs"],
  "all programs of bounded size x environment answers, executed by the stock VM",
  "Eight fixtures are executed by the tests, one path each.",
  [UP, FN, BU, L51], [("whole conversion", LIB)])

p("C21", "Conversion is a pure function of its arguments",
  "The result of a conversion depends only on the input bytes, the output format and the settings: it is the same whatever was converted, or failed to convert, before it or concurrently with it, and the input, format and settings are left unmodified.",
  ["histories", "schedules"],
  "all sequences of conversions over a set of inputs and configurations, sequential and concurrent",
  "Every test converts each input once.",
  [LIB, CON, UP], [("no shared state", LIB)])

p("C22", "Names introduced by the conversion never clash with the program's own",
  "Constants that the conversion adds are appended after the program's own constants, whose positions and values stay unchanged, and the global names it stores intermediate values under are never names that the same function already uses; two such values that are live at the same time never share a name.",
  ["programs", "inputs"],
  "all subsets of clashing names in the constant table x loops",
  "Two unit tests cover one clash in isolation.",
  [CON, UP], [("create_unique", CON), ("constant_for_str", CON)])

p("C23", "Unsupported input is rejected with the error that names the cause",
  "An unsupported version, endianness, integer, pointer, instruction or number width, Lua 5.0 operand size, opcode or constant type, and a missing signature, is rejected with the corresponding error carrying the offending value. No supported value of any of these is ever rejected.",
  ["inputs", "configurations"],
  "all values of every header byte, opcode and constant type, in both versions",
  "One unsupported value (6) of each header field is tested.",
  [FM, "src/format/version.rs", "src/format/width.rs", "src/format/endianness.rs", FN, "src/function/instruction/macros.rs", LIB],
  [("header parser", FM), ("opcode dispatch", "src/function/instruction/macros.rs")])

p("C24", "Compile settings apply to exactly the side they describe",
  "The signature, operand layout, flush size and stack limit configured for Lua 5.0 input, Lua 5.1 input and output each affect only the side they describe: Lua 5.0 settings never influence how Lua 5.1 input is read, or the reverse. Constants and registers in operands are told apart by the input's own settings and written by the output's.",
  ["configurations", "inputs"],
  "all combinations of non-default settings x both input versions",
  "Tests vary the signature of one fixture and one operand size in isolation.",
  [LIB, "src/function/instruction/settings.rs", MODE, OPD, FM], [("settings lookup", MODE)])

p("C25", "Optional features and the build profile never change a result",
  "The converter built with the `debug` feature, with the `serde` feature, with both or optimized without overflow checks gives the same result for every input, format and setting as the default build, valid or not, and never crashes where that does not. Every format, instruction layout, setting and error that is serialized with the `serde` feature is equal to the original when it is deserialized, and converts alike.",
  ["configurations", "inputs"],
  "all sets of optional features x all inputs, formats and settings",
  "The tests are built without these features, and nothing is ever serialized.",
  ["Cargo.toml", FN, BU, CV, UP, FM, LIB, "src/error.rs", LAY, "src/function/instruction/settings.rs"],
  [("printing of the debug feature", FN), ("derived serialization", LAY)])

p("C26", "The machine that converts does not influence the result",
  "Whether the converter runs on a machine with 32 or 64 bit pointers, little or big endian, the same input, format and settings give the same output or the same error, byte for byte; in particular lengths, counts, program counters and numbers in 64 bit fields are never cut to what the machine can address, and nothing crashes on one machine where it does not on another. Only the default format differs: it describes the endianness and the pointer width of the machine, with 32 bit integers and instructions and 64 bit floating point numbers.",
  ["configurations", "inputs"],
  "machines with 32 and 64 bit pointers of both byte orders x all inputs, formats and settings",
  "The tests run on the developer's 64 bit little-endian machine only.",
  ["src/serialization/stream.rs", "src/serialization/writer.rs", "src/serialization/macros.rs", FN, BU, CV, UP, FM, LIB, "src/number.rs"],
  [("default format of the machine", FM), ("lengths of strings", "src/serialization/stream.rs"), ("counts of lists", FN)])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
