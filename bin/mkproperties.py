import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
L="huff_coding/src/"; H="huff/src/"
p("C01","Compressing and decompressing returns the original letters",
 "For every non-empty sequence of letters of any supported letter type, compressing it and decompressing the result yields exactly the same letters in the same order. The same holds when compressing with any supplied tree that contains every letter of the sequence, whether that tree was built from other weights or read back from its binary form.",
 ["inputs"],"all non-empty letter sequences, all supported letter types, all trees covering the sequence (own, foreign weights, read from binary)",
 "One 600-byte text and a handful of doc examples are round-tripped, with code lengths below one byte, no bit-length that is a multiple of 8, no deep tree and no single-letter alphabet.",
 [L+"comp.rs",L+"tree/tree_inner.rs"],
 [("bit writer (current byte, bit pointer, padding)","comp.rs compress_with_tree"),("tree walk with padding cut-off","comp.rs decompress"),("code assignment","tree_inner.rs set_codes_in_child_branches/read_codes")],
 ["decompress(&compress(x))","decompress(&compress_with_tree(x, t))"])
p("C02","Codes form a complete prefix code over exactly the weighted letters",
 "A tree built from non-empty weights has exactly one letter branch for every letter of the weights, and it reports a code for each of these letters and for nothing else. Every branch's code is its path from the root (left 0, right 1, the only letter of a one-letter tree has the code 0), so no letter's code is a prefix of another's.",
 ["inputs"],"all non-empty weights over any letter type, any hash order, any alphabet size, any depth the weights can force",
 "Tests pin the codes of five small alphabets; none looks at all 256 bytes, deep trees, weight ties under random hash order, or byte 0.",
 [L+"tree/tree_inner.rs",L+"tree/branch_heap.rs",L+"tree/branch.rs",L+"weights.rs"],
 [("heap merge loop","tree_inner.rs from_weights"),("recursive code assignment","tree_inner.rs set_codes_in_child_branches"),("code collection","tree_inner.rs read_codes_with_hasher")],
 ["HuffTree::from_weights(..).read_codes()","branch.leaf().code()"])
p("C03","Codes are optimal and branch weights add up",
 "For every weights, the total length of the codes weighted by the letters' weights is the minimum any prefix code for these weights can reach. Every letter branch carries its letter's weight and every joint branch the sum of its two children's weights, so the root carries the total.",
 ["inputs"],"all weights, including ties, zeros, one letter, and skewed weights that force deep trees with weights near 2^63",
 "Tests compare codes of one six-letter example and of 1-2-3 weights; optimality over all weights and tie orders is never computed.",
 [L+"tree/branch_heap.rs",L+"tree/tree_inner.rs",L+"tree/leaf.rs"],
 [("reversed ordering of heap items","branch_heap.rs HuffBranchHeapItem::cmp"),("pairing of the two minima","tree_inner.rs from_weights")],
 ["weights of every branch and code lengths of HuffTree::from_weights"])
p("C04","Trees survive their binary form, which is the documented encoding",
 "For every tree built from positive weights over any integer letter type, its binary form is exactly the documented one: branches in depth-first order, left child first, 1 for a joint branch, 0 followed by the letter's big-endian bits for a letter branch. Reading that binary form back gives a tree with the same shape, letters and codes, in which every weight is 0.",
 ["inputs"],"all trees from positive weights, all twelve integer letter types, any letter values",
 "Only u8 trees are written and read back; no signed or multi-byte type, no extreme value and no tree larger than about forty letters.",
 [L+"tree/tree_inner.rs",L+"tree/letter.rs"],
 [("recursive writer","tree_inner.rs as_bin"),("recursive reader","tree_inner.rs try_from_bin"),("big-endian letter conversion","letter.rs integer_letter_impl")],
 ["HuffTree::as_bin","HuffTree::try_from_bin(..).as_bin()/read_codes()"])
p("C05","Reading a tree from arbitrary bits never crashes and accepts only encodings",
 "For every bit vector and every letter type, reading a tree from it ends with a tree or an error, never with a panic or an abort. It gives a tree exactly when the bits are one complete encoding with nothing missing, nothing left over and only letters valid for the type (an encoding nested more than 255 levels deep may be refused); that tree is the encoded one.",
 ["inputs"],"all bit vectors, all letter types including user-defined ones whose conversion fails",
 "Two invalid vectors (empty, wrong type) are tried, both under should_panic, which cannot tell an error from a crash.",
 [L+"tree/tree_inner.rs",L+"tree/letter.rs"],
 [("length checks and leftover check","tree_inner.rs try_from_bin"),("depth limit","tree_inner.rs read_branches_from_bits"),("letter conversion error","tree_inner.rs read_branches_from_bits")],
 ["result of HuffTree::<L>::try_from_bin"])
p("C06","Serialised compressed data has the documented layout and reads back unchanged",
 "The byte form of compressed data is one byte with the tree's and the data's padding bit counts (high and low half), the tree's byte length as a 4-byte big-endian number, the tree's binary form, and the letters' codes in order, packed from the most significant bit, with fewer than 8 padding bits. Reading it back gives the same tree, compressed bytes and padding, and therefore decompresses to the same letters.",
 ["inputs"],"all non-empty letter sequences over all integer letter types and all trees covering them; tree sizes up to several times 64 KiB",
 "One doc example (abbccc) fixes the layout for padding 3/7; other paddings, tree lengths over 255 or 65535 bytes, wide letters and re-reading are not sampled.",
 [L+"comp.rs",L+"utils.rs",L+"tree/tree_inner.rs"],
 [("header composition","comp.rs CompressData::to_bytes"),("header decomposition","comp.rs CompressData::try_from_bytes"),("padding arithmetic","utils.rs calc_padding_bits, comp.rs compress_with_tree")],
 ["CompressData::to_bytes","CompressData::try_from_bytes(..)"])
p("C07","Reading compressed data from arbitrary bytes never crashes, bad ones are errors",
 "For every byte slice and letter type, reading compressed data from it ends with the data or an error, never with a panic. It is an error exactly when the bytes end before the header, the tree or at least one data byte, when the stored tree length is below 2, when the stored data padding exceeds 7, or when the stored tree is not a valid encoding for the letter type; otherwise the result holds the stored tree, data and padding and can be decompressed without a panic (a stored tree padding above 7 may be accepted or refused).",
 ["inputs"],"all byte slices: every truncation, header corruption, length field and padding value",
 "Only well-formed bytes produced by the library itself are ever read back.",
 [L+"comp.rs",L+"tree/tree_inner.rs"],
 [("bounds-checked header reads","comp.rs try_from_bytes"),("constructor preconditions checked before use","comp.rs try_from_bytes/CompressData::new")],
 ["result of CompressData::<L>::try_from_bytes","decompress of an accepted result"])
p("C08","Counting is exact and every view of the counts agrees",
 "Counting the letters of any slice gives each occurring letter its number of occurrences and nothing else. Through any history of counting, adding and in-place updates, a byte count collection's lookups, length, emptiness, equality and both iterators describe the same mapping: every byte with a nonzero count exactly once, in increasing order, and addition is the sum byte by byte.",
 ["inputs","histories"],"all slices, all subsets of present bytes (0 and 255 included), all sequences of from_bytes/add/+=/get_mut operations",
 "Doc examples use a few bytes with short histories; the iterator example even passes when byte 0 is produced twice.",
 [L+"weights.rs"],
 [("fixed array indexed by byte","weights.rs ByteWeights"),("index-walking iterators","weights.rs IntoIter/Iter"),("entry counting","weights.rs build_weights_map_with_hasher"),("pointwise addition","weights.rs add_byte_weights")],
 ["ByteWeights::{get,len,is_empty,iter,into_iter,==}","build_weights_map"],
 state=[("weights","count per byte","weights.rs ByteWeights.weights"),("current_index","iterator position","weights.rs Iter/IntoIter")])
p("C09","Threaded counting equals sequential counting",
 "For every byte slice and every number of threads from 1 up, including numbers that do not divide the slice's length and numbers larger than it, counting bytes with threads gives exactly the result of counting them sequentially, whatever order the threads run in.",
 ["inputs","schedules","configurations"],"all slices and thread counts, all interleavings of the counting threads",
 "One doc example counts five equal bytes with twelve threads, which uses a single thread; no remainder, no split and no other schedule is sampled.",
 [L+"weights.rs",L+"utils.rs"],
 [("rationing of the slice, remainder to the last ration","utils.rs ration_vec"),("join in spawn order and summing","weights.rs threaded_from_bytes")],
 ["ByteWeights::threaded_from_bytes(b, n) == ByteWeights::from_bytes(b)"])
p("C10","A letter missing from a supplied tree is always reported",
 "Compressing a non-empty sequence with a supplied tree fails with an error naming the first letter of the sequence that the tree does not contain if there is such a letter, and succeeds otherwise. It never drops or replaces a letter and never panics.",
 ["inputs"],"all sequences and trees, the missing letter at any position, one-letter trees included",
 "One should_panic doc example unwraps the error; which letter it names and where it sits is not checked.",
 [L+"comp.rs"],
 [("code lookup per letter","comp.rs compress_with_tree"),("error carrying the letter","comp.rs errors::CompressError")],
 ["result of compress_with_tree, CompressError::missing_letter"])
p("C11","A compressed file decompresses to the identical file for every block size",
 "For every non-empty file, every block size used to compress it and every (possibly different) block size used to decompress the result, both runs exit successfully and the file restored is byte-for-byte the original.",
 ["inputs","configurations"],"all file contents and lengths against all pairs of block sizes: blocks that divide the file or the data, blocks of one byte, blocks smaller than the header, block ends inside a byte",
 "The command-line program has no tests at all.",
 [H+"comp.rs",H+"utils.rs"],
 [("joining blocks inside a byte","huff/src/comp.rs compress_to_writer, utils.rs offset_bytes"),("padding only in the last block","huff/src/comp.rs decompress_to_writer"),("bytes-left bookkeeping","huff/src/comp.rs")],
 ["files after huff SRC and huff -d"],
 state=[("prev_byte/prev_padding","last written byte and its free bits carried between blocks","huff/src/comp.rs compress_to_writer"),("current_branch","position in the tree carried between blocks","huff/src/comp.rs decompress_to_writer")])
p("C12","The .hff file is deterministic, well-formed and readable by the library",
 "For a given source the .hff file written is the same bytes for every block size and on every run, has the documented file format with fewer than 8 padding bits of each kind, and stores an optimal code for the file's bytes. The library reads it and decompresses it to the source's bytes, and huff -d in turn restores files serialised by the library for bytes.",
 ["inputs","configurations"],"all sources and block sizes, repeated runs, both directions of exchange between program and library",
 "The command-line program has no tests at all; nothing relates its output to the library's format.",
 [H+"comp.rs",L+"comp.rs"],
 [("header written after the data","huff/src/comp.rs read_compress_write"),("counts summed over blocks","huff/src/comp.rs huff_tree_from_reader"),("same layout as to_bytes","huff_coding/src/comp.rs")],
 ["bytes of the .hff file","CompressData::<u8>::try_from_bytes of it"])
p("C13","The source file is never lost",
 "No run changes the contents of SRC_FILE, and it is removed only with --replace and only after the complete output is in the destination file. So at every moment, also after an I/O error, a kill at any point, a refused or declined run, or when DST_FILE leads to the source itself by any path or link, the intact source or the complete output exists.",
 ["crash_points","fault_sequences","inputs"],"every kill point between file operations, every failing read/write/flush, every combination of flags and of paths aliasing the source",
 "The command-line program has no tests at all, and no test can kill it at every point.",
 [H+"cli.rs",H+"comp.rs",H+"utils.rs"],
 [("removal after the flushed write returned","huff/src/cli.rs process_args"),("same-file check before opening the destination","huff/src/cli.rs check_not_same, utils.rs same_file"),("errors propagate before removal","huff/src/comp.rs")],
 ["directory contents after each run and after each kill point"])
p("C14","A run that reports success has written the complete output",
 "Whenever a run exits successfully (and replacing was not declined), the destination holds the complete, correct output. Reads and writes that the operating system merely splits or interrupts change nothing about a run's outcome, while a read, write, create or flush that fails makes the run exit with failure.",
 ["fault_sequences","inputs"],"every placement of short or interrupted reads and writes and of one failing read, write or open, for both directions and any block size",
 "The command-line program has no tests at all; I/O faults need injection.",
 [H+"comp.rs",H+"cli.rs"],
 [("read_exact with error propagation","huff/src/comp.rs"),("final flush before success","huff/src/comp.rs read_compress_write/read_decompress_write")],
 ["exit status and destination contents under injected faults"])
p("C15","An existing destination is replaced only with consent",
 "An existing destination file is replaced if --noask is given or the user's answer to the question starts with y or Y. Any other answer, including none, leaves source and destination exactly as they were, also with --replace. Nothing is asked when the destination does not exist or --noask is given.",
 ["inputs","configurations","histories"],"all combinations of mode, flags, existing destination and answers",
 "The command-line program has no tests at all.",
 [H+"cli.rs"],
 [("question before opening the destination","huff/src/cli.rs ask_replace")],
 ["directory contents, prompt on stdout, exit status"])
p("C16","Unusable sources are refused cleanly",
 "A source that is missing, a directory or (when compressing) empty, and when decompressing a source without the hff extension or whose header is cut short, stores a padding above 7 or an invalid tree, or is followed by no data, is refused: the run ends with an error message and a failing exit status and not with a panic. A refused run creates, changes and removes nothing, not even a destination that may be replaced; any other file is not refused for what it contains. A source that is no regular file, such as a named pipe, may be refused as well, but in the same way.",
 ["inputs"],"all truncations and corruptions of the header, all kinds of wrong sources (files, directories, named pipes, sockets), both modes, existing and missing destinations",
 "The command-line program has no tests at all.",
 [H+"cli.rs",H+"comp.rs",H+"error.rs"],
 [("source checks","huff/src/cli.rs parse_paths"),("header validation before the destination is created","huff/src/comp.rs read_decompress_write")],
 ["exit status, stderr and directory contents"])
p("C17","The block size argument is validated and respected",
 "A block size is accepted exactly when it is a positive decimal number, optionally followed by k, m, g (powers of 1000) or ki, mi, gi (powers of 1024) in any letter case, whose product fits in the machine word; anything else is refused with an error before any file is touched. Every accepted size works, however large, and no single read of the source asks for more bytes than the block size or a fixed small I/O buffer, whichever is larger; nor does a run hold more of a file in memory at a time than that accounts for.",
 ["inputs","configurations"],"all argument strings, all sizes from 1 to the largest representable one",
 "The command-line program has no tests at all.",
 [H+"cli.rs",H+"comp.rs"],
 [("argument grammar and overflow check","huff/src/cli.rs parse_block_size"),("buffer bounded by block and source size","huff/src/comp.rs")],
 ["exit status, directory contents, sizes of read calls, peak resident memory"])
p("C18","Output goes to the documented destination and nowhere else",
 "Compressing writes to DST_FILE with .hff appended after any extension it has, by default to the source's file name with .hff appended in the current directory. Decompressing writes to DST_FILE exactly as given, by default to the source's file name in the current directory, in both cases without the .hff if that name would be the source itself. A run creates, changes or removes no other file than the destination and, with --replace, the source.",
 ["inputs","configurations"],"all spellings of source and destination paths (relative, absolute, ./, subdirectories, several or no extensions, hidden files), all flags",
 "The command-line program has no tests at all.",
 [H+"cli.rs","huff/res/cli.yml"],
 [("path rewriting","huff/src/cli.rs parse_paths")],
 ["directory contents before and after a run"])
p("C19","Branches and trees edited by hand hold and do exactly what was put in them",
 "After any history of making branches out of leaves and other branches, cloning them, and replacing or dropping children and setting codes anywhere inside a branch or a tree's root, every branch shows exactly the children, letters, weights and codes it was given there, clones included, which no change to the original reaches. The children seen one by one and through the iterator are the same, left before right, both or none. Branches and leaves compare by weight alone. A tree whose root was put there by hand reports the codes of its letter branches and writes, compresses and decompresses with them, provided its letters differ and are on exactly the branches without children, whose codes are their paths.",
 ["inputs","histories"],"all histories of the editing calls, all shapes, any letter type, weights up to the largest",
 "Doc examples build one branch with two children and replace children once; no edit below the root, no clone after an edit, no hand-made tree is ever used to compress.",
 [L+"tree/branch.rs",L+"tree/leaf.rs",L+"tree/tree_inner.rs"],
 [("owned children","branch.rs HuffBranch"),("children iterator","branch.rs ChildrenIter"),("ordering by weight","leaf.rs Ord/PartialEq, branch.rs Ord/PartialEq"),("access to the root","tree_inner.rs root_mut")],
 ["HuffBranch::{left_child,right_child,children_iter,has_children,leaf}","comparisons of branches and leaves","read_codes, as_bin, compress_with_tree of an edited tree"],
 state=[("left_child/right_child","the children owned by a branch","branch.rs HuffBranch"),("code","the code set on a leaf","leaf.rs HuffLeaf")])
p("C20","Any compressed data decodes to exactly the letters its bits stand for",
 "Compressed data can be put together from any bytes, padding and tree; it is refused, by a panic, exactly when there are no bytes or the padding exceeds 7, and otherwise holds what it was made of. Decompressing it gives exactly the letters whose codes follow one another in the bits before the padding, whatever the padding holds, however many letters share a value. Only what a code begun but not ended, or a 1 where a tree of one letter has the code 0, stands for is left open.",
 ["inputs"],"all bytes, paddings and trees, not only those compression yields",
 "Only data made by compressing is decompressed in tests; filled padding, arbitrary bits and hand-made data never are.",
 [L+"comp.rs"],
 [("constructor checks","comp.rs CompressData::new"),("tree walk with padding cut-off","comp.rs decompress")],
 ["CompressData::new, its accessors and into_inner","decompress"])
p("C21","Integer letters convert to their big-endian bytes and back",
 "For every integer letter type and every number of the type, its bytes are the number in big-endian two's complement, as many as the type is wide. Bytes of that length give back the number they stand for; bytes of any other length are an error, never a panic and never a number.",
 ["inputs"],"all numbers of the twelve integer types, byte slices of all lengths",
 "No test converts a letter at all; trees in tests only hold u8.",
 [L+"tree/letter.rs"],
 [("conversions generated for every integer","letter.rs integer_letter_impl")],
 ["HuffLetterAsBytes::{as_be_bytes,try_from_be_bytes}"])
p("C22","Every failure is an error of the documented kind",
 "Processing the program's arguments ends with Ok when the run was done or declined, and otherwise, without a panic, with an error that has a message and a kind that tells what is wrong: InvalidInput for an invalid block size, an empty source to compress or a destination that is the source; UnrecognizedFormat for a source to decompress without the hff extension; MissingHeaderInfo for one cut short in the header, tree or data; InvalidHeaderInfo for one with an invalid padding or tree; NotFile for a directory; Io for what the operating system refuses, such as a missing source or a failing read, write or create. Of several things wrong any may be reported.",
 ["inputs","configurations","fault_sequences"],"all argument combinations, states of source and destination, corruptions of the source, failing file operations",
 "The command-line program has no tests at all.",
 [H+"error.rs",H+"cli.rs",H+"comp.rs"],
 [("kinds of errors","huff/src/error.rs ErrorKind"),("errors of the operating system converted","huff/src/error.rs From<io::Error>"),("errors made where the reason is known","huff/src/cli.rs parse_paths/parse_block_size, huff/src/comp.rs read_decompress_write")],
 ["result of huff::cli::process_args"])
p("C23","Runs at the same time do not disturb each other",
 "Runs of the program that overlap in time, however their file operations interleave, each end exactly as they would alone and leave exactly the outputs they would leave alone, provided none writes to another's source or destination and none removes a source another reads. No other file is changed by any of them, and none waits for another to end.",
 ["schedules","configurations"],"all interleavings of the file operations of two or three runs, both modes, shared and separate sources, names differing in extension or directory alone",
 "The command-line program has no tests at all, and no run is ever started while another one is under way.",
 [H+"cli.rs",H+"comp.rs"],
 [("nothing but source and destination is touched","huff/src/comp.rs read_compress_write/read_decompress_write"),("source removed at the end","huff/src/cli.rs process_args")],
 ["exit status of each run and directory contents after the last"])
p("C24","A command line means what the program's help says",
 "Flags may be given in short form (alone or several behind one dash), in long form, in any order, before, between or behind the paths; the block size may follow -b or --block-size in the same word or as the next one; words behind -- are paths. However a command line is put together, its run does what the flags and paths in it mean, and prints how long it took exactly if asked to. Without a source, with more than two paths, an unknown flag or one given twice, a command line is refused, and nothing is created, changed or removed. Asking for help or the version runs nothing. A -b without a size and a value given to a flag are left open.",
 ["inputs","configurations"],"all command lines of up to four words out of every flag in every form, and longer ones",
 "The command-line program has no tests at all.",
 [H+"cli.rs","huff/res/cli.yml",H+"main.rs"],
 [("declared arguments","huff/res/cli.yml"),("flags and values queried","huff/src/cli.rs process_args")],
 ["exit status, stdout, stderr and directory contents"])
p("C25","Threads can use the library at the same time and share its values",
 "Trees, branches, leaves, compressed data and byte counts can be handed to other threads and shared between them whenever their letters can. Threads that use the library at the same time, with values of their own or with trees and compressed data they share, each get what they would get alone, however their steps interleave: every result is one that the other properties allow, and no call, in any thread or of any letter type, has an effect on a value it was not given.",
 ["schedules","histories","inputs"],"all sets of calls made by up to eight threads, all interleavings of their steps, all letter types side by side",
 "No test calls the library from more than one thread; state kept between calls passes any test that makes one call at a time.",
 [L+"comp.rs",L+"weights.rs",L+"tree/tree_inner.rs",L+"tree/branch.rs",L+"tree/leaf.rs"],
 [("values own all they hold","tree/branch.rs HuffBranch, tree/tree_inner.rs HuffTree, comp.rs CompressData, weights.rs ByteWeights"),("nothing is kept between calls","comp.rs compress_with_tree/decompress, tree_inner.rs as_bin/try_from_bin, weights.rs threaded_from_bytes")],
 ["results of every public function called by several threads at once","Send and Sync of the public types"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P)); assert all(len(x['title'])<=80 for x in P), [x['title'] for x in P if len(x['title'])>80]
