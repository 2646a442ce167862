#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table (run by hand after editing it; the outputs are committed)"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import props

def P(id, title, statement, over, text, why, files, mech, tech, note):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note)

EXH = "exhaustive execution of the real code over a bounded space, every execution compared with a reference model"
L = [
P("P01", "The hash map behaves as a map for every history of operations",
  "For every sequence of put, get, remove, length, iteration and destroy calls, with any hash function (including ones that collide on everything) and any initial capacity, the hash map returns exactly what a mathematical map with the same history would return. Iteration visits every present pair exactly once and honours early stop and removal requests. A failed allocation during growth or insertion leaves the map with its previous contents and is reported as out of memory.",
  ["histories", "inputs", "fault_sequences"], "all operation sequences, key sets, hash functions, capacities, and allocation-failure points", "The unit test runs two fixed sequences with one hash function and never fails an allocation.",
  ["src/hashmap.c", "include/metac/backend/hashmap.h"], [("hashmapPut/hashmapGet/hashmapRemove/hashmapForEach", "src/hashmap.c"), ("expandIfNecessary", "src/hashmap.c")],
  "stateless model checking: all operation sequences to a depth on the real hash map, lockstep with a reference map; every allocation-failure point", "complete within the stated bound on sequence length, key count, capacities and hash regimes"),
P("P02", "The task iterator completes every task tree in the right order",
  "For every tree of dependent tasks and every order in which a task adds dependents and consumes their results, each task is resumed exactly when its pending dependents are finished, dependents are processed first-in first-out, and every result reaches the task that asked for it exactly once. Nesting depth is limited by memory only. State values and failure markers are delivered unchanged.",
  ["programs", "histories"], "all task programs: how many dependents each activation adds, consumes or leaves, at any depth", "The unit test runs one fixed task tree; interleavings of adding and consuming over several activations are never exercised.",
  ["src/iterator.c", "include/metac/backend/iterator.h"], [("metac_recursive_iterator_next", "src/iterator.c"), ("create_and_append_dep / dequeue_and_delete_dep", "src/iterator.c")],
  "stateless model checking: all task programs up to a bound executed on the real iterator, lockstep with a reference scheduler", "complete for the stated task/activation bounds; memory exhaustion inside the iterator itself is asserted out by the library"),
P("P03", "Deep copy reproduces the whole object graph, independent of the source",
  "Copying a value in depth produces a destination that compares equal to the source and has the same shape: what pointed back points back inside the copy, NULL stays NULL, interior pointers become the corresponding interior pointers, and (in the default memory mode) what was shared is shared; in tree mode sharing is unfolded instead. No pointer reachable in the copy refers to memory of the source, and every block the copy needed was allocated exactly once. The source is not modified.",
  ["inputs", "configurations"], "all object graphs (sharing, cycles, interior pointers, absent pointers, arrays, unions, flexible arrays) and memory-handling modes", "Tests copy a handful of hand-written structures, one shape each.",
  ["src/value_deep.c", "include/metac/reflect/value_deep.h", "src/memory.c"], [("metac_value_copy_ex", "src/value_deep.c"), ("memory map build", "src/value_deep.c")],
  "exhaustive enumeration of bounded object graphs executed on the real code against a graph-isomorphism oracle", "all graphs within the node/edge bound"),
P("P04", "Deep free releases every owned object exactly once and nothing else",
  "Freeing a value in depth releases each separately allocated object reachable from it exactly once, never an interior address, never memory the top-level object does not own, and leaves nothing allocated that it owned. Sharing and cycles do not change that.",
  ["inputs", "configurations"], "all object graphs and memory-handling modes", "Tests free a few fixed shapes and do not check what was passed to the allocator.",
  ["src/value_deep.c", "include/metac/reflect/value_deep.h"], [("metac_value_free_ex", "src/value_deep.c")],
  "exhaustive enumeration of bounded object graphs; every allocator call of the real code recorded and compared with ownership", "all graphs within the node/edge bound"),
P("P05", "Deep comparison is exact structural equality",
  "Comparing two values in depth answers equal when their object graphs are the same up to addresses, and not equal when any followed path leads to different contents (a different number, one NULL and the other not, different lengths, different active union members). It ignores padding and addresses, is reflexive and symmetric, terminates on cycles, and does not modify, allocate into or free its operands. (Two graphs with the same contents on all paths but different sharing may answer either way, but symmetrically.)",
  ["inputs", "configurations"], "all pairs of bounded values and graphs, all single-position differences, all comparison modes", "Tests compare a few fixed pairs.",
  ["src/value_deep.c"], [("metac_value_equal_ex", "src/value_deep.c")],
  "exhaustive enumeration of pairs of bounded graphs and of all single-field differences against a reference comparison", "all pairs within the bound"),
P("P06", "Out of memory is reported, leaks nothing and corrupts nothing",
  "If an allocation made inside a library call fails (a single one, or that one and all later ones), the call either reports failure through its error value (NULL, a negative code, 0 for free) or delivers exactly the result it delivers undisturbed: never a shortened text, a partial copy or another answer. It does not crash, keeps nothing allocated beyond what it returned, releases nothing twice and nothing it does not own (a copy made with the caller's allocation function is taken back with the caller's free function, a failed free has released nothing, a failed attachment of a tag leaves the tag map and the context as they were, a failed append leaves the parameter list as it was), leaves its inputs unchanged, and the same call succeeds afterwards.",
  ["fault_sequences"], "every allocation made by every call of the library's value, text, tag, argument and deep-operation interfaces", "No test makes an allocation fail.",
  ["src/value_string.c", "src/value_deep.c", "src/value.c", "src/value_with_args.c", "src/entry_tag.c", "src/entry_cdecl.c", "src/value_base_type.c", "src/printf_format.c"], [("error paths after malloc/calloc/strdup", "src/*.c")],
  "fault enumeration: every allocation of every scenario failed in turn on the real code", "every single failure point, and every point from which on all allocations fail, of the scenario list"),
P("P07", "What the library cannot know it refuses or skips, never guesses",
  "Without extra information the library never follows an untyped pointer (plain or qualified void), a pointer to a type that is only declared, or a function pointer, and never interprets an undiscriminated union or a flexible array. In the strict modes deep copy, comparison and free then fail as a whole, leaving nothing allocated and nothing freed; in the ignoring modes the part is left NULL or zero in a copy and not compared; in the plain-data modes it is copied and compared as bytes or as an address. In none of these the memory behind the pointer is read, written or freed. A non-NULL function pointer is refused in every mode.",
  ["configurations", "inputs"], "all positions of unknown data in an object x all modes x all operations", "Tests exercise single mode combinations on single fields.",
  ["src/value_deep.c", "src/value_string.c", "include/metac/reflect/value_deep.h"], [("memory handling modes", "include/metac/reflect/value_deep.h"), ("metac_value_walker_hierarchy event handling", "src/value_string.c")],
  "exhaustive enumeration of unknown positions x modes x operations on the real code; memory behind is poisoned", "all combinations listed in the evidence"),
P("P08", "Text of a value is a C initializer that recreates the value",
  "The text produced for any value whose contents are fully described is a valid C initializer, and compiling it for the same type recreates an equal value (floating-point numbers are printed with six decimals, so they are recreated when these are exact). A value whose object graph has cycles gets no text: the operation fails, it never runs on for ever. (A structure ending in a flexible array has an initializer only as top-level value.)",
  ["inputs"], "all values of all described types within the bound, all depths", "Tests compare a few literal strings.",
  ["src/value_string.c", "src/value_base_type.c", "src/value.c"], [("metac_value_string_ex", "src/value_string.c"), ("metac_value_base_type_string", "src/value_base_type.c")],
  "exhaustive enumeration of values; every produced text compiled by the C compiler and compared with the original object", "all values within the bound; the compiler is the oracle"),
P("P09", "Numbers are read and written exactly, through matching types only",
  "Reading a value of a basic type gives exactly the stored number and writing stores exactly the given number, touching no byte outside it. Access through any other type than the declared one is refused and leaves both sides unchanged. Values declared constant can be read but not written.",
  ["inputs", "programs"], "all basic types, placements, qualifiers and boundary values; all pairs of accessor and type", "Tests read and write one or two numbers of each type.",
  ["src/value_base_type.c", "include/metac/reflect/value.h"], [("metac_value_<type> / metac_value_set_<type>", "src/value_base_type.c"), ("metac_value_base_type_copy/equal", "src/value_base_type.c")],
  "exhaustive enumeration of accessor x type x qualifier x boundary value on the real code against the compiler's own access", "all boundary values listed in the evidence"),
P("P10", "Bit-fields of any width and position are read and written as C does",
  "For every bit-field of every width and position in plain and packed structures, reading gives the number the C compiler reads, writing stores what the C compiler would store, and no neighbouring bit changes. Text, copy and comparison of bit-fields agree with that.",
  ["programs", "inputs"], "all widths, positions, declared types, packings and contents", "Tests cover one or two layouts.",
  ["src/value_base_type.c", "modules/metac-reflect-gen/_module.tpl", "pkg/"], [("bit-field read/write", "src/value_base_type.c"), ("bit offsets of members", "src/entry.c")],
  "exhaustive enumeration of bit-field layouts compiled as a program; the compiler is the reference", "all widths/positions of the listed types, boundary contents"),
P("P11", "Enumerations keep their values and names for every constant",
  "For every enumeration, whatever its range and storage size, a value reads as the number the compiler stores, a write stores exactly that number, and the text is the name of the constant when there is one and the number otherwise. Copy and comparison agree with the compiler.",
  ["programs", "inputs"], "all pairs of boundary constants, packed and plain, as variable, element, member or bit-field", "Tests use one small enumeration.",
  ["src/value.c", "src/entry.c"], [("metac_value_enumeration / set_enumeration / string", "src/value.c")],
  "exhaustive enumeration of enumerations compiled as a program; the compiler is the reference", "all pairs of the 26 boundary constants"),
P("P12", "Navigation reaches every part of an object at the compiler's address",
  "For every type, stepping from a value to a member, an array element or an overridden number of elements yields a value located exactly where the C compiler places it, with its declared type. Positions outside the type are refused. No navigation step leaks memory.",
  ["programs", "inputs"], "all types of a bounded grammar and every step in them", "Tests navigate a few hand-written structures.",
  ["src/value.c", "src/entry.c", "modules/metac-reflect-gen/_module.tpl"], [("metac_new_value_by_member_id / by_element_id / element_count_value", "src/value.c")],
  "exhaustive enumeration of a bounded type grammar; addresses compared with the compiler's for every reachable part", "all types to grammar depth 2"),
P("P13", "Printed declarations are valid C and denote the same type",
  "The C declaration printed for any variable, function or type compiles, and declares exactly the type the entity has in the program, including qualifiers, pointers to arrays, functions returning pointers to functions, anonymous aggregates and bit-fields.",
  ["programs"], "all declarators of a bounded grammar", "Tests compare about twenty literal strings.",
  ["src/entry_cdecl.c"], [("metac_entry_cdecl", "src/entry_cdecl.c")],
  "exhaustive enumeration of a bounded declarator grammar; every printed declaration recompiled as a redeclaration of the original", "all declarators to depth 4"),
P("P14", "Tags attached to parts of types are found for exactly those parts",
  "A tag map is searched level by level in the given order: a level is consulted only for the categories of its mask, an attachment to the entry itself (variable, member or parameter) wins over one to its final type in the same level, an external map answers in place of its level, and the default tag is returned only if nothing matched. So a tag is found for exactly the parts it was attached to. Attaching to an already tagged part is refused unless overriding, and every tag context is released exactly once. Text attributes of a well-formed tag (key:\"value\" pairs) are looked up by exact key and give the exact value of the first such pair.",
  ["configurations", "inputs"], "all sets of attachments over a bounded type graph; all tag texts over a small alphabet", "Tests attach a few tags in one arrangement.",
  ["src/entry_tag.c", "include/metac/reflect/entry_tag.h"], [("metac_tag_map_*", "src/entry_tag.c"), ("metac_entry_tag_string_lookup", "src/entry_tag.c")],
  "exhaustive enumeration of attachment sets and of tag texts against a reference lookup", "all sets/texts within the bound"),
P("P15", "Described unions, arrays and pointers are handled as described",
  "Once a union's active member, an array's length, a pointer's length or its real type is described by a tag, every operation handles exactly the described part: the active member only, exactly that many elements, exactly that type. A description that cannot be evaluated (negative length, selector that is missing, not a number, or selects no existing member) makes copy, comparison, free and text fail, whatever the mode; bytes outside the described part never influence the result.",
  ["inputs", "configurations"], "all selector and length values in range and around it, all handlers, all operations", "Tests use one value per handler.",
  ["src/entry_tag.c", "include/metac/reflect/entry_tag.h"], [("METAC_UNION_MEMBER_SELECT_BY, METAC_COUNT_BY, METAC_ZERO_ENDED_STRING, METAC_CONTAINER_OF", "src/entry_tag.c")],
  "exhaustive enumeration of selector/length values x operations on the real code against a reference", "all values within the bound"),
P("P16", "Parameter storages own and return exactly what was stored",
  "A storage of call parameters returns, for every index, exactly the value appended there, with its own copy of the bytes; it compares, copies, prints and releases its contents completely and exactly once, for every mix of parameter kinds.",
  ["histories", "inputs"], "all sequences of appended parameter kinds up to a bound, all operations on them", "Tests build one or two storages.",
  ["src/value_with_args.c", "include/metac/reflect/value.h"], [("metac_parameter_storage_*", "src/value_with_args.c"), ("captured calls in deep operations", "src/value_deep.c")],
  "exhaustive enumeration of append sequences on the real code against a reference sequence", "all sequences within the bound"),
P("P17", "Calls are captured with exactly the arguments that were passed",
  "When a call is captured, every argument - of any basic, enumeration, pointer or structure type, fixed or variable, in any position, including nested argument lists - is recorded with exactly the value passed, in order, and the real function still receives the same arguments and its result is recorded.",
  ["programs", "inputs"], "all parameter-type sequences up to a bound, spanning registers and stack", "Tests capture a few fixed calls.",
  ["src/value_with_args.c", "include/metac/backend/va_list_ex.h", "include/metac/reflect/value.h"], [("metac_value_parameter_wrap / vwrap", "src/value_with_args.c"), ("va_list_ex", "include/metac/backend/va_list_ex.h")],
  "exhaustive enumeration of signatures compiled as a program; captured values compared with the passed ones", "all signatures within the bound, gcc on this machine"),
P("P18", "printf-style arguments are understood exactly as printf does",
  "For every format string, the library finds exactly the conversions the C library would perform, in order, with the argument types the C library would consume, so that captured variable arguments are the ones passed. A format it does not support is refused, not misread, and no input makes it overrun memory.",
  ["inputs"], "all format strings up to a length over the alphabet of the grammar", "Tests use a few fixed formats.",
  ["src/printf_format.c", "src/entry_tag.c"], [("metac_new_printf_format_specifier / parse", "src/printf_format.c")],
  "exhaustive enumeration of format strings on the real code against a reference parser validated with the C library", "all formats within the bound"),
P("P19", "The program's own symbols are found by name and by place",
  "Every variable and function that the program links for reflection has its own entry, with its address, name and complete type, also when it was declared before its definition or in another file. The entry looked up at a marked place of declaration is the one declared there, whatever other files, functions or blocks declare under the same names; names that are not declared at the place, and ambiguous ones, give no result. The database of names lists every named type, variable and function.",
  ["programs", "inputs"], "all names and declaration sites of programs, including equal names in different files, functions and blocks; all databases and queries", "Tests look up a few symbols.",
  ["src/entry_db.c", "include/metac/reflect/loc.h", "include/metac/reflect/link.h", "include/metac/reflect/db.h", "modules/metac-reflect-gen/templates", "pkg/metadb/metadb_builder.go"], [("metac_entry_from_entry_db", "src/entry_db.c"), ("entry_db, recur_add_all_siblings", "modules/metac-reflect-gen/templates/_entry_db.tpl"), ("glob_responses", "modules/metac-reflect-gen/templates/_glob_responses.tpl"), ("name_to_entries", "modules/metac-reflect-gen/templates/_db_v0.tpl")],
  "exhaustive enumeration of small databases and queries against a linear search, and of generated programs (function bodies, file sets, symbol kinds) built with the real generator, every lookup executed", "all databases over 5 files x 5 places x 5 names; all bodies of at most 3 sites and 2 (thorough 3) blocks; all subsets of 6 (thorough 7) files; gcc and clang, DWARF 3..5"),
P("P20", "Reflection data describe the program exactly as the compiler sees it",
  "For every program, the generated reflection data list every type, member, enumerator, parameter and result reachable from the exported symbols with the compiler's names, kinds, qualifiers, sizes, offsets and counts, whatever debug-format version the compiler emits.",
  ["programs", "configurations"], "all types of a bounded grammar x debug format versions", "The generator has no test of its own output.",
  ["modules/metac-reflect-gen/_module.tpl", "pkg/dwarfy", "pkg/metadb", "src/entry.c"], [("template of entries", "modules/metac-reflect-gen"), ("DWARF reading", "pkg/dwarfy")],
  "exhaustive enumeration of a bounded type grammar; the whole reachable description compared with the compiler's", "all types to depth 2, DWARF 3/4/5"),
P("P21", "Generation is deterministic and merges files without mixing them up",
  "Running the generator twice on the same program gives identical output. Types shared by several files are described once, types that merely share a name stay apart, and the order of files does not change what any symbol means.",
  ["programs", "histories"], "all small sets of files declaring equal, clashing or differing types, in every order; repeated runs", "No test runs the generator on several files.",
  ["pkg/metadb/metadb_builder.go", "pkg/metadb/metadb_types.go"], [("classifyTypes, deduplicateTypes", "pkg/metadb/metadb_builder.go"), ("Signature of every type", "pkg/metadb/metadb_types.go")],
  "exhaustive enumeration of multi-file programs and file orders with the real generator; the generated data are compiled, read and compared with those of every file alone", "every ordered pair (thorough: triple over 9) of files over 33 meanings of the same names, every symbol read to depth 14; each program generated twice"),
P("P22", "Every input form of the generator leads to the same result",
  "Generating from a binary, from its exported form in yaml or json, or from that form imported and exported again in either notation leads to the same reflection data and the same test runner. Exporting and importing loses nothing, for every name, number and compiler.",
  ["programs", "configurations"], "all generated programs x input notations", "No test compares input forms.",
  ["pkg/dwarfy/dwarf.go", "pkg/module/gotemplate/funcs/funcs.go", "modules/metac-reflect-gen/module.yaml"], [("path_type handling", "modules/metac-reflect-gen/module.yaml"), ("yaml/json import/export", "pkg/dwarfy/dwarf.go")],
  "exhaustive: every program of the bounded grammar x every input form", "all programs of the type grammar"),
P("P23", "Module lookup and settings overrides follow the documented precedence",
  "A module (or an included module) is found by name in the given search paths in their order: the first path with a readable specification of a known kind wins, and without one the run fails; names that are paths are refused. Settings given on the command line or in files, as yaml or json, override those of the module key by key, deeply (maps are merged, everything else is replaced), without disturbing others, and the last one wins.",
  ["configurations", "inputs"], "all small search-path layouts and override sequences", "Tests use one layout.",
  ["pkg/module/module.go", "pkg/override/override.go", "pkg/module/gotemplate/gotemplate.go", "cmd/run/run.go"], [("NewInstance / InfoByName", "pkg/module/module.go"), ("Merge / MergeAll", "pkg/override/override.go")],
  "exhaustive enumeration of layouts and override sequences on the real tool against a reference", "all layouts within the bound"),
P("P24", "The generated test runner contains every test exactly once",
  "From every test program, of one or several files, the runner generator produces a program that builds, runs every test function declared with METAC_START_TEST exactly once under its own name, runs nothing else, and exits with failure exactly when a test failed.",
  ["programs"], "all small test programs", "The existing tests are its only users.",
  ["modules/metac-test-gen", "include/metac/test.h"], [("metac_test_gen templates", "modules/metac-test-gen/templates"), ("METAC_START_TEST", "include/metac/test.h")],
  "exhaustive enumeration of small test programs; generated runner parsed/executed", "all programs within the bound"),
P("P25", "A failed generation is reported as a failure",
  "Whenever the generator cannot read its input (missing, truncated, of another kind, or with missing parts), find its module, parse its settings, or render or write its output, it exits with a failure status and prints no partial output, so that a build never continues with it.",
  ["inputs", "fault_sequences"], "all kinds of bad input", "No test runs the tool on bad input.",
  ["main.go", "cmd/run/run.go", "pkg/module/gotemplate/gotemplate.go", "pkg/dwarfy/dwarf.go", "pkg/metadb"], [("Execute", "main.go"), ("Run", "pkg/module/gotemplate/gotemplate.go")],
  "exhaustive enumeration of bad-input classes on the real tool, including truncation of the input at every section boundary", "all listed fault classes"),
]
NA = {}
if os.path.exists(os.path.join(V, "tools", "na.json")):
    NA = json.load(open(os.path.join(V, "tools", "na.json")))

def main():
    out = []
    for p in L:
        if p["id"] in NA and NA[p["id"]] == "drop":
            continue
        out.append({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                    "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}})
        assert len(p["title"]) <= 80, p["id"]
    open(os.path.join(V, "properties.jsonl"), "w").write("".join(json.dumps(o) + "\n" for o in out))
    ids = [o["id"] for o in out]
    ch = []
    for p in L:
        if p["id"] in ids and p["id"] in props.REG:
            lvl = props.REG[p["id"]][1]
            ch.append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"], "technique": p["tech"], "level": lvl, "level_note": p["note"], "evidence_file": "evidence/%s.json" % p["id"]})
    m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": ch,
         "not_applicable": [{"property": i, "reason": NA.get(i, "check not built yet")} for i in ids if i not in props.REG],
         "notes": "No hooks in /repo: the harnesses interpose at link time (allocator) and use the public API. See DESIGN.md."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(ids), "properties", len(ch), "checks")

main()
