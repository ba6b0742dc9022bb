#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (kept here in one place so that they stay in step)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, V + "/lib"); sys.dont_write_bytecode = True

P = []
def prop(id, title, statement, over, text, why, files, mech, observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe) or ["public API: return values and the bytes of the file"], hook_needed=None)))

T = "oxyroot/src/rtree/"
prop("P01", "What is written is what is read back",
     "Every sequence of values given to the columns of a tree, once the tree is written and the file closed, is read back from the file: the same column names in the same order, the same values bit for bit, in the same order, none missing and none added. This holds for every supported column type, every number of entries (zero included), every entry size and however the entries fall into baskets.",
     ["inputs", "programs"], "all column types, all value sequences (edge values, empty and very long strings and vectors), all numbers of columns and entries, alone and mixed in one tree",
     "The tests write a handful of fixed columns with ordinary values; the encodings change shape at lengths 255 and 32 KiB, at 1000 entries per basket and 10 baskets per column, and only an enumeration around those points meets them.",
     [T + "tree/writer.rs", T + "branch/wbranch.rs", T + "wbasket.rs", T + "basket.rs", T + "branch/tbranch.rs", "oxyroot/src/rbytes/wbuffer.rs", "oxyroot/src/rbytes/rbuffer.rs"],
     [("provider values are marshalled into a basket, flushed when full", T + "wbasket.rs, " + T + "branch/wbranch.rs"), ("baskets are located by seek/size arrays and cut into entries", T + "branch/tbranch.rs")])
prop("P02", "Entry counts are exact",
     "The number of entries a tree reports is the length of its longest column, and the number of entries a column reports is the number of values that were given to that column, whatever the lengths of the other columns and however many baskets each fills. Reading a column yields exactly that many values.",
     ["inputs", "programs"], "all combinations of column lengths (equal, unequal, zero) and basket counts",
     "Tests read counts of a few trees of equal-length columns; unequal lengths and counts at basket boundaries are not sampled.",
     [T + "tree/writer.rs", T + "branch/wbranch.rs", T + "tree/reader.rs"],
     [("entries += 1 per round in which some column gave a value", T + "tree/writer.rs"), ("branch entries counted per write", T + "branch/wbranch.rs")])
prop("P03", "A closed file is a gapless chain of valid records",
     "In every file the library closes, the bytes from the first record to the recorded end are exactly covered by records that do not overlap; every record states its own position, length and directory correctly, and every pointer in the file (directory, key list, streamer list, free list, baskets) leads to a record of the right kind. The recorded end of file is the length of the file, and the list of free segments starts there.",
     ["programs", "inputs"], "all programs of the writing interface: number and shape of trees, columns, names, refused writes in between",
     "Tests reopen files with the same library, which follows only some of the pointers and never checks the layout as a whole; other readers of the format do.",
     ["oxyroot/src/riofs/file.rs", "oxyroot/src/riofs/dir.rs", "oxyroot/src/riofs/key.rs", "oxyroot/src/riofs/blocks.rs"],
     [("end pointer advanced for each key", "oxyroot/src/riofs/file.rs"), ("directory and key list saved at close", "oxyroot/src/riofs/dir.rs")], ["bytes of the closed file, read by an independent parser"])
prop("P04", "A column's basket index describes its baskets exactly",
     "For each column of a closed file, the recorded baskets lie at the recorded places with the recorded sizes, the recorded first entries increase in step with the number of entries each basket holds and end at the column's entry count, and the recorded byte totals are the sums over the baskets. Where a basket has entry offsets, they cut its data into exactly its entries.",
     ["inputs", "programs"], "all column types, entry sizes and numbers of baskets, columns of unequal length",
     "The library's own reader ignores most of the index (first entries, totals, last offset), so a wrong index passes every round-trip test and fails in other readers.",
     [T + "branch/wbranch.rs", T + "wbasket.rs", T + "basket.rs"],
     [("index arrays appended at each flush", T + "branch/wbranch.rs"), ("offset table and last offset written with the basket", T + "wbasket.rs, " + T + "basket.rs")], ["bytes of the closed file, read by an independent parser"])
prop("P05", "A file holds every tree written to it, newest generation first by name",
     "A closed file lists exactly the trees successfully written to it, in the order of writing, and each name leads to the newest tree of that name with its own columns and values. Trees prepared side by side, for one file or for several, never affect each other's contents.",
     ["programs", "histories"], "all sequences of tree creations and writes over one or several files with equal or distinct names",
     "Tests write one or two differently named trees in a fixed order.",
     ["oxyroot/src/riofs/file.rs", "oxyroot/src/riofs/dir.rs", T + "tree/writer.rs"],
     [("cycle number is one above the largest of that name; lookup takes the highest", "oxyroot/src/riofs/dir.rs, oxyroot/src/riofs/file.rs")])
prop("P06", "A refused operation reports it and changes nothing",
     "Writing a tree whose name cannot be stored, writing to a file opened for reading, opening a file that does not exist, asking for a tree or column that is not there or for the wrong type all return an error or nothing, without crashing. After a refused operation every file and every handle still behaves as if the operation had not been attempted.",
     ["programs", "histories", "inputs"], "all interleavings of refused operations with successful ones",
     "Tests check that one or two such calls fail, not that everything written before, beside and after survives.",
     ["oxyroot/src/riofs/file.rs", "oxyroot/src/riofs/dir.rs", T + "tree/reader.rs", T + "branch/mod.rs"],
     [("name and mode checks before the directory is changed", "oxyroot/src/riofs/dir.rs, oxyroot/src/riofs/file.rs"), ("errors of lookups", T + "tree/reader.rs")])
prop("P07", "A column is read only as the type it was written with",
     "Reading a column at a type succeeds if and only if that type is the type the file records for the column; any other type is refused with an error before a value is produced. No value is ever reinterpreted as another type by the checked reading interface.",
     ["inputs", "programs"], "all ordered pairs (written type, requested type), empty and non-empty columns, several columns side by side",
     "Tests try a few mismatching pairs; the relation is a table of several hundred pairs built from type-name strings.",
     [T + "branch/mod.rs", T + "streamer_type.rs", "oxyroot/src/rtypes/mod.rs"],
     [("class name of the requested type compared with the column's item type", T + "branch/mod.rs")])
prop("P08", "Iterators over columns are independent",
     "Any number of iterators over columns of any open trees and files may be created, advanced in any order, dropped and created again, also after the handle of the file is gone; each yields exactly the values of its own column in order and then ends, and stays ended. No iterator sees another's position.",
     ["schedules", "histories"], "all interleavings of iterator creation, steps and drops over several files and trees",
     "Tests drain iterators one at a time or zip two of them.",
     [T + "branch/tbranch.rs", T + "branch/mod.rs", "oxyroot/src/riofs/file.rs"],
     [("each clone of a reader re-opens the file", "oxyroot/src/riofs/file.rs"), ("lazy chain of basket iterators", T + "branch/mod.rs")])
prop("P09", "A successful close means the file is complete, a failed write is reported",
     "When closing a file reports success, everything written to it is in the file as seen by anybody from then on, even if the process ends at once. If the operating system refuses or shortens any write along the way, some call of the writing program fails or the file is nevertheless complete.",
     ["fault_sequences", "crash_points", "programs"], "every position of a failing, short or interrupted write, for all programs; process end directly after close",
     "Tests close and drop the file in one scope, so a write delayed to the drop is invisible, and no test makes a write fail.",
     ["oxyroot/src/riofs/file.rs"], [("buffered writer flushed at the end of close", "oxyroot/src/riofs/file.rs")], ["system calls of the process on the file; the file as another process sees it"])
prop("P10", "An interrupted file is never taken for a complete one",
     "If the writing process stops at any point before the file is closed, opening the left-over file either fails or shows only trees that had been completely written, with all their values. It never shows partial or wrong values.",
     ["crash_points", "programs"], "every write of the process as the point of interruption, whole or partial, for all programs",
     "No test interrupts a writer.",
     ["oxyroot/src/riofs/file.rs", "oxyroot/src/riofs/dir.rs"], [("key list pointer stays zero until close; header completed last", "oxyroot/src/riofs/file.rs, oxyroot/src/riofs/dir.rs")], ["the file left by a killed process"])
prop("P11", "Providers are asked and callbacks told in one fixed protocol",
     "While a tree is written, each round tells every callback that an entry starts, then goes through the columns in order, telling every callback the column's name and then asking its provider once; rounds continue until one in which no provider has a value. Every value given is stored, and a provider that has ended is never treated as having more.",
     ["programs", "schedules"], "all numbers and orders of columns and callbacks, all combinations of column lengths",
     "Only one example registers a callback; the order matters to users who share state between the providers of one row.",
     [T + "tree/writer.rs", T + "branch/wbranch.rs"], [("round loop", T + "tree/writer.rs")], ["calls made into the user's iterators and callbacks"])
prop("P12", "Rows of structs survive writing and reading",
     "Structs written row by row through the derived writer and read back through the derived reader give the same rows in the same order, for every shape of struct: plain fields, parts nested to any depth, parts of the same kind used twice. Reading stops at the shortest column, and a struct whose column is missing or of another type is refused with an error.",
     ["programs", "inputs"], "all struct shapes over the supported field types, all row counts including zero",
     "Tests use a handful of shapes and check a few rows.",
     ["oxyroot_derive/src/lib.rs", "oxyroot/src/rtree/mod.rs"], [("derive expansion of the row reader and writer", "oxyroot_derive/src/lib.rs")])
prop("P13", "A field's column name follows one rule",
     "The column a field of a row struct is read from is determined by its name or its given replacement, the prefixes in force and the names of the enclosing parts, by one rule that does not depend on the position or the number of fields; a field is written to the column of its own name after the names of the enclosing parts. An absolute name is never combined with the names of enclosing parts, and equal names in different parts lead to different columns.",
     ["programs", "inputs"], "all combinations of replacement names, global and local prefixes, absolute names and nesting depths",
     "Tests fix the names of a few combinations.",
     ["oxyroot_derive/src/lib.rs", "oxyroot/src/rtree/branch/branch_name.rs"], [("branch name builder", "oxyroot/src/rtree/branch/mod.rs"), ("derive attribute handling", "oxyroot_derive/src/lib.rs")])
prop("P14", "A file describes every class it uses, once",
     "The list of class descriptions in every closed file describes the class of the stored trees and of their columns, every collection class a column needs, and every class that is a part of a described one, each exactly once and with the version its users expect. Which classes are described does not depend on the order in which trees and columns were added.",
     ["programs"], "all sets of trees and columns, in all orders",
     "Tests never read the descriptions back; other readers depend on them.",
     ["oxyroot/src/riofs/file.rs", "oxyroot/src/rdict/mod.rs", "oxyroot/src/rdict/streamers"], [("descriptions gathered per write and completed with dependencies at close", "oxyroot/src/riofs/file.rs")], ["bytes of the closed file, read by an independent parser"])
prop("P15", "The bytes of a file are a function of the program that wrote it",
     "Writing the same trees with the same values to a path of the same name gives byte-identical files, whatever other files and trees are being written or read in between and however the calls are interleaved.",
     ["programs", "schedules"], "all interleavings of two writing programs with each other and with readers, repeated runs",
     "No test compares two files.",
     ["oxyroot/src/riofs/file.rs", T + "tree/writer.rs"], [("no global mutable state, constant dates", "oxyroot/src/riofs/key.rs")], ["bytes of the closed files"])
prop("P16", "Compression is invisible to the reader",
     "A record that is stored compressed, with any of the supported algorithms, in one block or several, gives exactly the values of the same record stored plain. Damaged or unsupported compression is reported or stops the program, and never yields values.",
     ["inputs", "configurations"], "all supported algorithms and levels, all record sizes including those that need several blocks, baskets and trees, mixtures of them in one file",
     "Tests read a few sample files; none has a record of several blocks.",
     ["oxyroot/src/rcompress.rs", "oxyroot/src/riofs/key.rs", T + "branch/tbranch.rs"], [("block loop of the decompressor", "oxyroot/src/rcompress.rs")])
prop("P17", "Collection columns are read element for element",
     "Columns of vectors, sets, maps, strings and nestings of them, as other programs write them, are read with exactly the elements stored, in order and with their nesting, for every number and size of elements and of entries per basket.",
     ["inputs", "configurations"], "all nestings of the supported collections, all element counts including empty, all partitions into baskets",
     "Tests read one sample file with about a hundred small entries.",
     ["oxyroot/src/rbytes/rbuffer.rs", "oxyroot/src/rusty/containers.rs", T + "branch/tbranch_element.rs"], [("object header skipped, then size and elements", "oxyroot/src/rbytes/rbuffer.rs, oxyroot/src/rusty/containers.rs")])
prop("P18", "The byte cursor reads exactly what it is told to",
     "A sequence of reads over a buffer returns big-endian values of the requested kinds from consecutive positions, and setting the position, skipping and asking for the length and what remains agree with each other at all times. A read that needs bytes the buffer does not have fails and gives no value.",
     ["programs", "inputs"], "all sequences of cursor operations over all buffers",
     "Tests cover single operations.",
     ["oxyroot/src/rbytes/rbuffer.rs"], [("cursor position", "oxyroot/src/rbytes/rbuffer.rs")])
prop("P19", "Every column of a tree is listed once and found by its name",
     "Listing all columns gives each column of the tree exactly once, every column followed by those below it and siblings in order. Looking a name up, from the tree or from any column downwards, finds a column exactly if one of that name is listed there, and then the first one.",
     ["inputs", "programs"], "all shapes of column forests with equal and distinct names at any depth",
     "Tests use the one or two nestings of the sample files.",
     [T + "branch/mod.rs", T + "tree/reader.rs"], [("pre-order walk", T + "branch/mod.rs, " + T + "tree/reader.rs")])
prop("P20", "Variable-length and composite columns keep their row structure",
     "In a column of arrays whose length is given by another column, each entry has exactly its own elements; a composite column gives, entry by entry, the values of its parts. Entries are never merged, split or shifted, whatever their lengths, including empty ones, and however the parts fall into baskets.",
     ["inputs", "configurations"], "all sequences of entry lengths, element types and partitions into baskets, for each part separately",
     "Tests read a few sample files with one partition each.",
     [T + "branch/tbranch.rs", T + "branch/tbranch_element.rs", "oxyroot/src/rbytes/rbuffer.rs"], [("entry offsets cut a basket into entries; parts are zipped entry by entry", T + "branch/tbranch.rs, " + T + "branch/mod.rs")])
prop("P21", "User information attached to a tree is returned as stored",
     "The list of objects attached to a tree is returned with its length and its objects in order: strings with their text, maps with exactly their keys and values, lists with their elements, also where one object is listed several times. A tree without such a list says so, and one with it reads its columns as usual.",
     ["inputs"], "all lists of strings, maps and lists, of any length and nesting, all ways of storing their classes",
     "Tests read two sample files.",
     [T + "tree/base.rs", "oxyroot/src/rcont/list.rs", "oxyroot/src/rcont/tmap.rs", "oxyroot/src/rbase/objstring.rs"], [("object list decoded through the class factory", "oxyroot/src/rcont/list.rs")])
prop("P22", "The command-line tools tell what the library tells",
     "The listing tool names every object of a file with its class and, for a tree, every column; the dumping tool prints every entry of every column it supports, in order. What they print agrees with what reading the file through the library gives.",
     ["inputs", "configurations"], "all files the library can write, all numbers of trees, columns and entries",
     "The tools have no tests.",
     ["oxyroot-ls/src/main.rs", "oxyroot-dump/src/main.rs", T + "tree/reader.rs"], [("keys listing and tree display", "oxyroot-ls/src/main.rs"), ("zip of column iterators", "oxyroot-dump/src/main.rs")], ["standard output of the tools"])
prop("P23", "Type names are interpreted by one consistent grammar",
     "The type a column reports is computed from the names the file gives by a fixed grammar: spacing and equivalent spellings do not matter, nested collection types keep their nesting, and an array keeps the number of values of an entry. Names of types with different values never give the same interpretation.",
     ["inputs"], "all type names of the grammar up to a nesting depth, in all spellings",
     "Tests check a list of about forty names.",
     [T + "streamer_type.rs", T + "branch/mod.rs", T + "leaf.rs"], [("name normalisation and translation", T + "streamer_type.rs")])
prop("P24", "A shortened file is never read as complete",
     "A file cut off at any length, or whose end is missing, is refused when it is opened or read, or still gives only exact values of the original up to an error. It never gives different values or silently fewer of them.",
     ["inputs", "fault_sequences"], "every length at which a file of the library can be cut",
     "One test truncates nothing; sample files are all whole.",
     ["oxyroot/src/riofs/file.rs", "oxyroot/src/riofs/key.rs", T + "branch/tbranch.rs"], [("end of file compared with the size; reads check for short data", "oxyroot/src/riofs/file.rs")])
prop("P25", "Reading does not depend on how entries were cut into baskets",
     "The same entries stored in one basket, in many, in empty ones, or with the last ones kept inside the tree's own record, are read as the same sequence of values. This holds for fixed-size, variable-size and composite columns and for small and large file pointers.",
     ["configurations", "inputs"], "all partitions of all short sequences, with and without a part kept in the tree record, both pointer sizes, with gaps between records",
     "Sample files fix one partition per column, none with entries kept in the tree's record of more than one kind.",
     [T + "branch/tbranch.rs", T + "branch/tbranch_element.rs", T + "basket.rs", "oxyroot/src/riofs/key.rs"], [("baskets on disk chained with the embedded one", T + "branch/tbranch.rs, " + T + "branch/tbranch_element.rs")])
prop("P26", "Every column describes its own values correctly",
     "In every closed file, the description a column carries states the type of its values, their width and sign, how many there are in an entry, the name of its collection and whether its entries vary in length, exactly as the column was written. The bytes of its entries are those that follow from this description, so that a reader that knows nothing else finds every value; a text column states room enough for its longest text.",
     ["inputs", "programs"], "all column types, array lengths, entry counts, text lengths and numbers of columns side by side",
     "The library's own reader takes the type from one part of the description and the number of values from the bytes, so a description that misleads other readers passes every round trip.",
     [T + "leaf.rs", T + "branch/wbranch.rs", T + "wbasket.rs", T + "basket.rs"],
     [("leaf made from the type of the column's first provider, lengths kept with every value", T + "leaf.rs, " + T + "branch/wbranch.rs")], ["bytes of the closed file, read by an independent parser"])
prop("P27", "A stored tree can be read with the descriptions in its own file",
     "Reading the record of any stored tree member by member, in the order, with the kinds, versions and counting members that the class descriptions of the same file state, uses up exactly its bytes, object by object. It yields the tree's name, number of entries, usual settings and the columns' own leaves as its list of leaves, and each column's name, number of entries, usual settings and the places, sizes and first entries of its baskets. The entries of collection columns are read the same way with the description of their collection.",
     ["inputs", "programs"], "all programs of the writing interface: number, types and lengths of columns, numbers of baskets, names, several trees and files",
     "The library never uses the descriptions it writes, so neither round trips nor tests notice when a stored member and its description part ways; other readers decode by them.",
     [T + "tree/writer.rs", T + "branch/tbranch.rs", T + "branch/tbranch_element.rs", "oxyroot/src/rdict/mod.rs", "oxyroot/src/rbytes/wbuffer.rs", "oxyroot/src/rcont/objarray.rs"],
     [("objects written with byte counts, class tags and references; descriptions taken from a fixed table", "oxyroot/src/rbytes/wbuffer.rs, oxyroot/src/rdict")], ["bytes of the closed file, decoded by an independent reader driven by the file's descriptions"])


def main():
    import check
    claimed = check.INFO
    with open(V + "/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in claimed and i in check.CHECKS:
            d = claimed[i]
            checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
                               technique=d["technique"], level="model_checking", level_note=d["note"]))
        else:
            na.append(dict(property=i, reason="check under construction, not yet claimed"))
    m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
             notes="No hooks in /repo: everything is observed through the public API, the bytes of files and the process's own system calls. known_findings lists the repaired defects and the recorded findings.")
    with open(V + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
main()
