"""Text of the properties; gen.py writes properties.jsonl and MANIFEST.json from it."""
P = {}


def prop(pid, title, statement, over, text, why, files, mechanism, level=None, note="", na=None):
    P[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                  level=level, note=note, na=na)


TESTS = "The repository's tests compile a fixed set of source files and compare exit codes and outputs; "

prop("C01", "UTF-8 encoding and decoding are exact inverses",
     "Every code point up to U+1FFFFF is written as its shortest UTF-8 form, with the reported number of octets and a terminator, and "
     "reading that form gives the same code point back. The length announced by a leading octet is the length of the form, and "
     "stepping back from any octet of a character reaches its first octet.",
     ["inputs"], "all code points, all octet sequences that encode one, all positions in them",
     TESTS + "they contain ASCII and Cyrillic only, so three- and four-octet forms are never exercised.",
     ["libs/utils/utf8.c", "libs/utils/utf8.h"],
     [("utf8_to_string, utf8_convert, utf8_size, utf8_symbol_size, utf8_to_first_byte", "libs/utils/utf8.c")])
prop("C02", "Character classes and letter case are exact for the language's alphabet",
     "For every character, the letter, digit, hexadecimal digit, exponent-mark and russian-letter tests answer true exactly for the "
     "characters of the language's alphabet (ASCII letters, digits, underscore and the 66 russian letters); upper-casing maps every "
     "lower-case ASCII or russian letter to its capital and leaves everything else alone; the value of a hexadecimal digit is its value "
     "in either case.",
     ["inputs"], "all 2^32 character values",
     TESTS + "they use a few hundred distinct characters.",
     ["libs/utils/utf8.c"], [("utf8_is_*, utf8_to_upper, utf8_to_number", "libs/utils/utf8.c")])
prop("C03", "Code page conversion and transliteration follow the published tables",
     "Converting text from code page 866 or Windows-1251 yields the UTF-8 text of the characters those code pages assign; converting to them "
     "yields the assigned octet, or the replacement octet 0x1A where there is none; transliteration replaces each russian letter by its fixed "
     "latin spelling and leaves every other character unchanged. The reported size is the size of the terminated result, and missing strings give 0.",
     ["inputs"], "every octet, every code point up to U+10FFFF, every text made of them",
     TESTS + "code page 866 output is used only on Windows consoles and no test reads it back.",
     ["libs/utils/utf8.c"], [("utf8_from_cp866, utf8_from_cp1251, utf8_to_cp866, utf8_to_cp1251, utf8_transliteration", "libs/utils/utf8.c")])
prop("C04", "Wide values survive storage in tables of any target item type",
     "A 64-bit integer or a double stored for a target item type of 8, 16, 32 or 64 bits, signed or unsigned, occupies the reported number "
     "of items, each within the range of that type, touches nothing else, and reads back bit for bit. Invalid types and missing storage are refused, the range "
     "check accepts exactly the values of the type, and the type chosen by the command line flags is the requested one.",
     ["inputs", "configurations"], "all 2^64 values, all item types, all flag lists",
     TESTS + "almost all run with the default item type and small constants.",
     ["libs/utils/item.c", "libs/utils/item.h"],
     [("item_store_*, item_restore_*, item_check_var, item_get_status", "libs/utils/item.c")])
prop("C05", "A vector behaves as a finite sequence of items",
     "Appending, setting, reading, removing and resizing act on a vector as on a mathematical sequence: the addressed item (or wide value) changes or is "
     "returned, every other item keeps its value, new items of a grown vector are zero, and the reported index and size are right. An operation outside "
     "the sequence, on a missing vector or without memory reports failure and changes nothing, and no access leaves the storage.",
     ["inputs", "histories", "fault_sequences"], "vectors of any size and contents, any index and value, failing allocations",
     TESTS + "no test reaches an out-of-range index, a failing allocation or most sizes.",
     ["libs/utils/vector.c", "libs/utils/vector.h"], [("vector_*, change_size", "libs/utils/vector.c")])
prop("C06", "A stack is last in, first out",
     "A pushed item, double or 64-bit value is the one the next peek and pop return, pops return values in the reverse order of pushes, and values below "
     "the top never change. Peeking at or popping from an empty or missing stack reports the failure value and changes nothing.",
     ["inputs", "histories"], "stacks of any depth and contents, any value",
     TESTS + "the compiler only ever uses well-nested pushes and pops of small depth.",
     ["libs/utils/stack.h", "libs/utils/stack.c", "libs/utils/vector.c"], [("stack_*", "libs/utils/stack.h")])
prop("C07", "A hash table is a finite map from keys to rows of values",
     "After any history of additions, updates and removals, looking up a key finds its row exactly when the key was added and not removed since, with the "
     "declared number of values, each the last one set or zero. Adding a present key, updating outside of a row and removing an absent key report failure "
     "and change nothing; colliding keys never disturb each other.",
     ["histories", "inputs"], "all histories, keys and values",
     TESTS + "they never remove keys, rarely make keys collide and never address values outside of a row.",
     ["libs/utils/hash.c", "libs/utils/hash.h"], [("hash_add, hash_get_index, hash_set*, hash_remove", "libs/utils/hash.c")])

prop("C08", "A map from texts to values keeps every key apart, in every form of key",
     "After any history of additions, reservations and updates, looking a text up finds its record exactly when the text was added, at the index it was given "
     "when added, with the value set last and the key itself; keys given as octets, as characters or read from an input are the same key. Adding a present key "
     "fails and changes nothing (reserving it returns its record), setting an absent key fails, distinct keys with equal hashes never disturb each other, "
     "and growing the storage loses nothing.",
     ["histories", "inputs"], "all histories, texts and values",
     TESTS + "identifier tables of the tests hold few keys with equal hashes and never outgrow the initial storage.",
     ["libs/utils/map.c", "libs/utils/map.h"], [("map_add*, map_reserve*, map_set*, map_get*, map_to_string, map_last_read", "libs/utils/map.c")])
prop("C09", "A strings table is a sequence of texts",
     "Adding a text (as octets, characters or a vector of characters) appends it and returns its index; from then on that index gives exactly this text and its "
     "length in octets until it is removed; removing takes the last text away and returns it. Missing texts, indexes outside of the table and broken tables are "
     "refused, and an addition that fails for lack of memory leaves the table as it was.",
     ["histories", "inputs", "fault_sequences"], "all histories, texts and allocation failures",
     TESTS + "no test makes an allocation fail, and few string literals outgrow the initial storage.",
     ["libs/utils/strings.c"], [("strings_add, strings_add_by_utf8, strings_add_by_vector, strings_get, strings_get_length, strings_remove", "libs/utils/strings.c")])
prop("C10", "The tree table is an ordered tree of typed nodes with arguments",
     "After any history of adding children and arguments, inserting, swapping, reordering and removing nodes, every node has exactly the children, in order, the parent, "
     "the type and the arguments that history gives it, the walk to the next node visits the nodes in pre-order, and saved nodes load again. Operations on broken "
     "nodes and positions outside of the arguments report failure and change nothing.",
     ["histories", "inputs"], "all histories and shapes of trees",
     TESTS + "the compiler only appends children in a fixed order; swapping, reordering, inserting and removing are rarely exercised.",
     ["libs/utils/tree.c"], [("node_*", "libs/utils/tree.c")])
prop("C11", "Every source text is split into the tokens the language defines",
     "For every source text the scanner skips white space and comments of any length (a comment ends at its first closing mark, or at the end of the line), takes the longest "
     "punctuator that matches, reads whole names and keywords, and returns the kind and the exact location of the token; a character no token starts with and an "
     "unterminated comment are reported once and skipped. Peeking returns the kind of the next token and changes nothing. It always reaches the end of the text.",
     ["inputs"], "all texts; comments and white space of any length",
     TESTS + "they contain only well-formed, conventionally laid out programs.",
     ["libs/compiler/lexer.c", "libs/compiler/token.c"], [("lexer_create, lex, peek", "libs/compiler/lexer.c"), ("token_*", "libs/compiler/token.c")])
prop("C12", "Literals have the value they are written with",
     "An integer literal in base 2, 8, 10 or 16 of any length has its mathematical value while all but its last digit are worth less than 2^60, and is otherwise taken as a floating value with a warning; "
     "floating and character literals have the value written (escapes included), a string literal of any length keeps exactly its characters, adjacent "
     "literals are joined; a malformed literal, an unknown escape or a missing closing quote is reported and scanning goes on.",
     ["inputs"], "all literals",
     TESTS + "they use short decimal literals and few escapes.",
     ["libs/compiler/lexer.c", "libs/compiler/token.c"], [("lex", "libs/compiler/lexer.c")])
prop("C13", "Operators mean what their tokens say, in the order of precedence of the language",
     "Every operator token denotes its operator and no other token denotes one; operators bind in the order of precedence of the language and exactly the assignment operators "
     "assign. Every operator and built-in function has the instruction of its own name, and the floating, by-address and result-less versions of an instruction are versions "
     "of that same instruction, for every instruction that has one; the numbers of the instructions are those the virtual machine expects.",
     ["inputs"], "all tokens, operators, built-in functions and instructions",
     TESTS + "they use few of the combinations of operator, type, addressing and unused result.",
     ["libs/compiler/operations.c", "libs/compiler/instructions.c"],
     [("token_to_unary, token_to_binary, get_operator_precedence, operation_is_assignment", "libs/compiler/operations.c"),
      ("builtin_to_instruction, unary_to_instruction, binary_to_instruction, instruction_to_*_ver", "libs/compiler/instructions.c")])
prop("C14", "Expressions are typed by the rules of the language and constants fold to their value",
     "For operands of every type, an expression (unary, binary, assignment, conditional, subscript, member, call, initializer) is built exactly when the rules of the language allow it, and then has the "
     "type, category, operator, operands in order, conversions to floating and location the rules give it; otherwise exactly one error is reported and no node is built, and an operand that is wrong "
     "already is not reported again. Constants cannot be assigned, incremented or decremented. Expressions of literals fold to the value they would be computed to (integers wrap at 64 bits); "
     "division by zero and shifts by counts outside of 0..63 are left unfolded.",
     ["inputs"], "all pairs of operand types, every operator, all literal values",
     TESTS + "programs in them use an operator on one or two pairs of types and never fold at the edges of the number range.",
     ["libs/compiler/builder.c", "libs/compiler/AST.c"], [("build_*_expression, fold_*_expression, check_assignment_operands", "libs/compiler/builder.c"), ("expression_*", "libs/compiler/AST.c")], level="other")
prop("C15", "Types are built once, and say what they were built from",
     "Building a type a second time gives the same type, types built differently are different, and building never changes earlier types. A type gives back what it was "
     "built from: its class, element, unqualified type, members, parameters and result. Its size in cells is that of its members. The class tests hold exactly for the types of that class, "
     "const versions included; questions about a type of another class are refused. Declarations with any number of members, enumerators or parameters are built whole.",
     ["inputs", "histories"], "all types tables and types; histories of building types",
     TESTS + "programs in them have few types, and types that differ in one place only rarely meet.",
     ["libs/compiler/syntax.c"], [("type_*", "libs/compiler/syntax.c")], level="other")
prop("C16", "Expressions in preprocessor directives have their C value",
     "A directive's expression over numbers, characters, unary and binary operators and parentheses has the value precedence and associativity of C give it, in 64-bit arithmetic that wraps; "
     "division by zero and malformed sequences of tokens are reported as errors and never crash the preprocessor or give a value.",
     ["inputs"], "all sequences of tokens and numbers",
     TESTS + "directives in them hold one or two operators on small numbers.",
     ["libs/macro/computer.c"], [("computer_push_token, computer_push_number, computer_push_const, computer_pop_result", "libs/macro/computer.c")], level="other")
prop("C19", "Names refer to their innermost declaration and live variables have cells of their own",
     "Over every history of declarations, blocks and functions, a name refers to its innermost declaration that is still in scope, or to none; leaving a block or function brings back exactly what was "
     "visible before. A name is declared once in a scope, except for a function declared and then defined; functions declared and not defined stay listed. Variables that live at the same time never share a cell, "
     "and the frame size a function reports holds all its parameters and variables. A declaration's type, place and spelling stay as they were.",
     ["inputs", "histories"], "all histories of declarations and scopes",
     TESTS + "programs in them rarely shadow a name twice or reuse the cells of a block that ended.",
     ["libs/compiler/syntax.c"], [("ident_add, scope_*, repr_get_reference, repr_set_reference, ident_get_*", "libs/compiler/syntax.c")], level="other")

prop("C20", "Generated code preserves the meaning of the program",
     "For every program without errors, the instructions emitted for the virtual machine, LLVM and MIPS compute what the program means in the language, whatever its inputs.",
     ["inputs"], "all programs and inputs", TESTS + "they run a few hundred programs on fixed inputs.",
     ["libs/compiler/codegen.c", "libs/compiler/llvmgen.c", "libs/compiler/mipsgen.c"],
     [("encode_to_vm, encode_to_llvm, encode_to_mips", "libs/compiler")],
     na="A contract for it needs the semantics of the source language, of the virtual machine (which lives in another repository), of LLVM IR and of MIPS assembly as "
        "specifications, and an induction over syntax trees of unbounded depth built through the tree API; the bounded verifier at hand (CBMC contracts) has neither inductive "
        "predicates over trees nor those semantics, and a hand-written simulator would be a model instead of the code.")
