#!/usr/bin/env python3
"""Writes properties.jsonl (run by hand when a property changes)."""
import json, os
R='src/spv/raw/mod.rs'; RD='src/spv/raw/reader.rs'; OP='src/spv/op.rs'; TY='src/spv/types.rs'
DIS='src/spv/dis.rs'; SM='src/spv/mod.rs'; LM='src/spv/logical/mod.rs'; PM='src/spv/logical/parser/mod.rs'
PP='src/spv/logical/parser/parser.rs'; CF='src/spv/logical/control_flow.rs'; G='src/glsl450/mod.rs'; GO='src/glsl450/op.rs'
FIX="The tests read five well-formed little-endian modules (16 tests, one fixed expectation each)"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,obs):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=m,where=files[0]) for m in mech],observe_at=obs,hook_needed=None)))
p("C01","Reading any byte sequence ends in a module or an error",
 "Reading an arbitrary byte sequence as a SPIR-V module, with any list of extended instruction sets, always ends, in time and memory proportionate to the input, with exactly one outcome: a module or an error value. It never panics, aborts, overflows the stack or runs forever, whatever the bytes say about lengths, counts, opcodes or strings. Every module it returns can be printed, and every error it returns can be shown as text, without a crash.",
 ["inputs"],"every byte sequence, of any length, truncated or corrupted anywhere",
 FIX+"; no malformed, truncated or large input is ever tried.",
 [RD,R,TY,OP],["stream word reads and the end-of-stream test","word count taken from the instruction head","operand block reads","string literal reads"],["return value or abnormal end of the public read function","display of its result"])
p("C02","The module header is checked and reported exactly",
 "A byte sequence is accepted only if it starts with five header words: the SPIR-V magic number in either byte order, version 1.0 with every other bit of the version word zero, any generator word, any id bound, and a zero schema word. The returned module reports the version, the generator tool (by its registered number, or as an unregistered number), the generator version and the bound exactly as written in the header. The first header word that is missing, incomplete or wrong decides the error, which identifies it (and carries the four version bytes when the version is wrong).",
 ["inputs"],"every value of each of the five header words, in both byte orders, and every truncation of the header",
 FIX+"; one generator word, one version word and no bad header are sampled.",
 [RD,TY],["magic, version, generator, bound and schema words are read in order"],["read result: version, generator, bound, error value"])
p("C03","Byte order does not change what is read",
 "Reversing the four bytes of every word of the input, so that the whole module is in the other byte order, never changes the outcome of reading it: the same module value (equal instruction by instruction) or the same error. This holds for string literals and extended instructions as much as for ids and numbers, and for inputs that end in an incomplete word.",
 ["inputs"],"every word sequence, read in little-endian and in big-endian byte order",
 "All five test modules are little-endian: the big-endian path has no test at all.",
 [RD,R],["byte order chosen from the magic number and used for every later word"],["pair of read results"])
p("C04","Instructions are framed by their word counts",
 "After the header, the input is consumed instruction by instruction, each taking exactly the number of words declared in its first word, with none skipped, repeated, merged or reordered, so the module lists exactly the instructions encoded, in order. A prefix of an accepted input is itself accepted exactly when it ends on an instruction boundary, and then yields exactly the instructions before that point. A declared count of zero, an input that ends inside an instruction and an input that ends inside a word are each rejected with their own error.",
 ["inputs"],"every instruction sequence, every declared word count from 0 to 65535, and every truncation point",
 FIX+"; no prefix, truncation or wrong word count is tried.",
 [RD],["head word split into opcode and word count","words of the instruction copied before decoding","loop until the end of the stream"],["read results of the input and of its prefixes"])
p("C05","Operands are decoded completely, in order and without loss",
 "For every supported instruction, the operand words decode to exactly the fields the SPIR-V grammar gives that instruction, in order: ids and literal numbers keep all 32 bits, optional operands are present exactly when their words are, and lists have exactly one element per word (or pair of words). An instruction with too few words for its mandatory operands, or with a half-finished pair, is rejected as too short, and one with words left over is rejected as having excess data; nothing is defaulted, dropped or ignored.",
 ["inputs"],"every supported opcode, every operand count, every 32-bit operand value",
 FIX+"; most of the supported opcodes, all optional operands and all over- and under-long instructions are never read.",
 [RD,R,OP],["per-instruction field list","option, list and pair readers","excess data test after decoding"],["fields of the instructions in the module, error value"])
p("C06","Each opcode number means its own instruction",
 "For each of the 65536 opcode numbers reading does exactly one thing: the opcodes the library supports yield that very instruction, opcodes of the SPIR-V standard it recognises but does not support are rejected by name, and every other number is rejected as unknown together with the number and the declared word count. No opcode is ever read as a different instruction or skipped.",
 ["inputs"],"all 65536 opcode numbers, with every word count",
 FIX+"; they contain about 35 of the 65536 opcode numbers.",
 [RD],["opcode dispatch table"],["instruction kind in the module, error value"])
p("C07","Enumerants and bit masks are read exactly",
 "Every enumerated operand (capability, storage class, decoration, built-in, execution model and mode, image properties and so on) is read as the enumerant its 32-bit value denotes in the standard, with the extra operands that enumerant takes, and every other value is rejected with an error of that operand's kind carrying the value. Every bit-mask operand is read as exactly the set of flags whose bits are set, and is rejected, with its value, if any undefined bit is set. Two different values never read as the same enumerant or flag set.",
 ["inputs"],"every enumerated or mask operand, every 32-bit value",
 FIX+"; a few dozen of several hundred enumerants occur in them and no invalid value does.",
 [R,TY],["one value table per operand kind","flag tests and the unknown-bits test of each mask"],["operand values in the module, error value"])
p("C08","String literals are decoded exactly",
 "A string literal is the bytes before the first zero byte, taken from each word lowest-order byte first, and always occupies the words up to and including the one holding that zero byte, so operands after a string are read from the right place. The string is delivered unchanged, whatever its length or characters, when those bytes are valid UTF-8, and rejected as an invalid string otherwise. A string whose terminator is missing is rejected as an instruction that is too short.",
 ["inputs"],"every byte string, of every length and alignment, in every string-carrying instruction",
 "The test modules contain a handful of short ASCII strings.",
 [R],["string literal reader"],["string fields in the module, fields after a string, error value"])
p("C09","Extended instructions go to the set their import names",
 "Importing an extended instruction set succeeds exactly when one of the sets supplied by the caller has that name, and binds the import's id to it from there on; a later extended instruction is decoded by the set bound to its set id, which is given exactly the instruction number and the operand words of that instruction. An import of an unknown name, a second import under an already bound id, a use of an unbound id, an instruction number the set does not define and leftover operand words are each rejected with their own error naming the culprit. Nothing carries over from one read to the next.",
 ["inputs","configurations","histories"],"every list of supplied sets, every sequence of imports and uses",
 "The tests supply one set, import it once and use two instructions.",
 [RD,SM,G,GO],["known sets searched by name","map from import id to set","set's own decoder"],["extended instructions in the module, calls seen by a caller-supplied set, error value"])
p("C10","Module layout is accepted exactly when its order is right",
 "A sequence of instructions is accepted as a logical module exactly when it is, in this order: capabilities, extensions, extended-set imports, one memory model, entry points, execution modes, debug instructions, annotations, types/constants/global variables, function declarations, function definitions. Any other sequence is rejected, and the error gives the kind of thing that was expected and the position of the first instruction that does not fit.",
 ["inputs"],"every sequence of instructions, of every length",
 "All five test modules are well-formed: no out-of-order module is ever validated.",
 [PP,PM],["one reading phase per section","classification of instructions into sections"],["validation result, error kind and index"])
p("C11","Validation loses and changes nothing",
 "A validated module contains every instruction of its input exactly once: reading its sections, then its functions with their parameters and blocks, in order, gives back the input instructions in the same order and with the same operand values.",
 ["inputs"],"every accepted instruction sequence with every operand value",
 "The tests only check that validation succeeds, never what it returns.",
 [PP,PM,LM],["each phase copies the instruction it consumes into its section"],["all fields of the logical module against the input list"])
p("C12","Functions are split into parameters and well-formed blocks",
 "Each function of a validated module has exactly the parameters and blocks between its start and its end; a function is listed as a declaration exactly when it has no blocks, and declarations come before all definitions. Each block is its label, its body instructions, at most one merge instruction directly before the terminator, and one terminator; a block or function that lacks one of these, or has it in the wrong place, is rejected at the position of the offending instruction. A variable belongs to a block exactly when its storage class is function-local and to the global section otherwise.",
 ["inputs"],"every arrangement of function, parameter, label, body, merge, terminator and function-end instructions",
 "The test modules have one small function each and the tests do not look at the blocks.",
 [PP,PM,LM],["declaration and definition phases","block reader: label, body, merge, terminator"],["functions and blocks of the logical module, error kind and index"])
p("C13","Validation ends for modules of any size",
 "Validating any list of instructions, in any order, of any length up to at least hundreds of thousands, with any number of functions, parameters or blocks, ends with a logical module or an error; it never panics or exhausts the stack, and its cost stays proportionate to the length.",
 ["inputs"],"every instruction list, including very long runs of one kind of instruction",
 "The largest test module has under 100 instructions.",
 [PP],["repetition of a phase over consecutive instructions"],["outcome of validation, abnormal end"])
p("C14","A recovered control-flow chain executes like the function",
 "Whenever control-flow recovery succeeds, the chain it returns is equivalent to the function it came from: for every sequence of branch outcomes, running the chain executes exactly the same blocks in the same order as running the function's blocks and branches, and both return, or continue, together. Every selection and loop in the chain carries the header block, hints and branch weights of the instruction it stands for.",
 ["programs","inputs"],"every function for which recovery succeeds, every sequence of branch outcomes, including infinite ones",
 "The tests only check that recovery succeeds for five functions; they never compare the chain with the function.",
 [CF],["search of blocks with the stack of enclosing merge points","construction of selections, loops, breaks and continues"],["chain against function"])
p("C15","Structured programs are recovered exactly",
 "Every function whose blocks encode a structured program (sequences; selections with either, both or no arm filled; loops with breaking and continuing conditions; any nesting of these; ending in a return) is accepted, and the chain returned is exactly that structure: the same nesting, order of blocks, arms, breaks, continues, hints and weights. The numbering of the blocks and the order in which they are listed after the first do not matter.",
 ["programs"],"every structured program, every block numbering and listing order",
 "Five functions are tried, each only for success, with at most two levels of nesting.",
 [CF],["recursive search and flattening of sequences"],["recovery result"])
p("C16","Control-flow recovery always ends",
 "Control-flow recovery ends with a chain or an error for every function, however its blocks branch: cycles without a loop header, branches to themselves, to enclosing headers or to missing blocks, merge instructions before any kind of terminator, duplicated or unreachable blocks. It never panics or recurses without end.",
 ["programs","inputs"],"every list of blocks with every combination of merge instruction, terminator and targets",
 "Only five well-structured functions are tried.",
 [CF],["search that follows branches","detection of a cycle in the search"],["outcome of recovery, abnormal end"])
p("C17","Unstructured functions are refused with the right error",
 "Control-flow recovery refuses every function it cannot describe, and never returns a chain for one whose selections do not rejoin at their merge block, whose loop bodies do not come back to their header, or that does not end by returning. The error tells what is wrong and names the block: no blocks at all, a block id defined twice, a branch to a block that does not exist, a conditional branch or cycle with no construct to explain it, or a selection or loop that does not converge; when several apply, it is the first one met following the function from its first block, the true side before the false side.",
 ["programs","inputs"],"every function that is not a structured program of the supported kind",
 "No function that should be refused is tried.",
 [CF],["duplicate check","convergence checks","error construction"],["error value of recovery"])
p("C18","Disassembly shows every instruction and operand",
 "The text of a module is its header lines (version, generator, bound, schema) followed by exactly one line per instruction, in order: the result id right-aligned before an equals sign (or the same width of blank space), the opcode name, then every operand in the standard's order, each preceded by one space. Ids are shown with a percent sign, numbers in decimal with all 32 bits, strings unchanged in quotes, enumerants and flags by name, absent optional operands not at all; no operand is dropped, merged, truncated or shown as another. When the destination fails, so does the printing, and what has been written is a beginning of this text.",
 ["inputs"],"every module value: every instruction, operand value, enumerant, flag combination and list length",
 "Five reference listings cover about a third of the instructions and few operand values.",
 [DIS,OP,TY,R,GO],["display of operands, instructions and modules"],["text produced by display"])
p("C19","Printed control flow matches the chain and the function",
 "Printing a control-flow chain, alone or together with its function, shows its blocks, selections, loops, breaks and continues in order, indented by nesting level, with an else part exactly when that arm is not empty and with every hint and weight. The printer given the function shows, for each block of the chain, every body instruction of that block and its terminator, in order, exactly as the disassembly shows them. When the destination fails, so does the printing, and what has been written is a beginning of this text.",
 ["programs","inputs"],"every chain that recovery can return, with every function",
 "Printing a chain is never tested.",
 [CF,LM],["recursive printing with an indentation level"],["text produced by display and by the printer"])
p("C20","Copies are equal and any difference makes values unequal",
 "Two modules, instructions or logical modules compare equal exactly when every field of every instruction is the same, and two recovered control-flow chains exactly when their structure, block ids, hints and weights are; this holds for extended instructions too, which are equal only if they come from the same kind of set and have the same instruction and operands. A copy is equal to its original and stays unchanged when the original is changed or dropped.",
 ["inputs"],"every pair of values, in particular pairs that differ in one operand only",
 "Equality is used once, on equal values; copying is never tested.",
 [SM,G,GO,OP,TY,R,LM],["derived and hand-written equality and cloning"],["result of comparing and cloning"])
p("C21","Results depend on the input alone",
 "Reading, validating, recovering control flow and printing give the same result for the same input every time: whatever was processed before, how often, in which order, and whatever other threads are doing with the library at the same time. No call changes what a later call returns.",
 ["histories","schedules"],"every history of calls on any inputs, every interleaving of calls from several threads",
 "Each test makes a single call sequence on one input.",
 [RD,PP,CF,SM,G],["absence of shared state between calls"],["results of repeated and concurrent calls"])
p("C22","A structured program survives the whole pipeline",
 "Encoding any well-formed module with structured functions as bytes, then reading, validating and recovering control flow, succeeds at each stage and gives back the program that was encoded: its header, declarations and functions, and for each function the control structure it was written with. Nothing valid at one stage is rejected or altered by the next, whatever the mix of instructions and functions.",
 ["programs"],"every well-formed module built from supported instructions and structured functions",
 "Five modules go through the stages, and the results of the later stages are not looked at.",
 [RD,R,PP,PM,CF],["hand-over from reader to validator to control-flow recovery"],["result of every stage"])
p("C23","Instructions that are never part of a module are shown, compared and copied in full",
 "The library also defines instructions that reading never produces (line information, specialisation constants, conversions, vector and matrix operations, memory copies, access chains, function calls and others) for callers to build and show. Each of them is displayed like the others: result id or blank space, its own name, then every operand in the standard's order, once each. Two of them are equal exactly when all their fields are, and a copy has the same fields and text.",
 ["inputs"],"every such instruction with every value of every operand",
 "No test builds one of these instructions.",
 [OP,DIS,TY],["definitions and display of instructions that are not in the module type"],["text, comparison and copy of one instruction"])
p("C24","Errors say what is wrong and can be told apart",
 "Every error of reading has a description of its own that names the kind of thing that is wrong; displaying the error shows exactly that description. Two errors, of reading or of validation, are equal exactly when they are the same kind with the same details (all bits of numbers, whole names).",
 ["inputs"],"every error value, every pair of errors",
 "The tests never look at the text of an error or compare two errors.",
 [R,PP],["description, display and equality of errors"],["text and comparison of error values"])
p("C25","Extended instruction sets are given exactly their operands",
 "A caller's extended instruction set is asked once for each of its instructions, in order, with the instruction's own number and exactly the operand words that follow it, in the module's byte order. From these it can take operands of any kind the library can read (words, ids, strings, enumerants, flags, decorations, pairs), one at a time, if there is one, or all that are left; each takes exactly the words that make it up and has the value those words stand for, and what is left is reported truly before each. Taking more than there is, or something that is not such an operand, is an error to the set and to the reader; what the set leaves over is refused, and an instruction the set refuses ends the reading with the set's own error. Nothing the set does with its operands makes the library panic.",
 ["inputs","histories"],"every list of operand words and every sequence of ways to take them, in every byte order, for any number of instructions",
 "The tests only use the library's own set, with two instructions of one operand.",
 [R,RD,SM],["operand block handed to extended instruction sets","reading of operands, optional operands and lists of operands"],["what the set sees, and the result of reading"])
p("C26","Operands and other parts show and compare by themselves as in a listing",
 "Every operand value that callers can hold (ids, indices, source languages, enumerants, flags, decorations, execution modes, phi and weight pairs), every instruction of a block, every extended instruction and every generator can be shown, compared and copied by itself. Its text is exactly what a listing shows for it, different values of one kind have different texts, two are equal exactly when all they hold is the same, and a copy holds the same. The operation name told by an extended instruction, and the vendor and tool told by a generator, are the ones shown.",
 ["inputs"],"every value of every operand type, every pair of values of one type",
 "The tests only show whole modules.",
 [TY,LM,GO,G,SM],["display and equality of operand types","names of tools and of extended instructions"],["text, names, comparison and copy of one value"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
