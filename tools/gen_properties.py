#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
L='lumberjack/src/'
T=L+'tree.rs'; M=L+'tree_modification.rs'; N=L+'node.rs'; S=L+'span.rs'; U=L+'util.rs'
P=L+'io/ptb.rs'; PG=L+'io/ptb.pest'; G=L+'io/negra.rs'; E=L+'io/encode.rs'; C=L+'io/conllx.rs'; F=L+'features.rs'; ED=L+'edge.rs'
CLI='lumberjack-utils/src/bin/lumberjack-conversion.rs'
rows=[]
def p(id,title,statement,over,q,why,files,mech,observe,state=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":q},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":observe,"hook_needed":None}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    rows.append(d)

p("C01","Trees stay well-formed under every history of edits",
 "After any sequence of library operations on a tree, successful or refused, it is still a single tree: one root without parent, every other node with exactly one primary parent and reachable from the root, words as leaves, every inner node with at least one child, and no cycles. The n words of the sentence occupy the positions 0..n-1, each exactly once, and the reported number of words is n.",
 ["histories","inputs"],"every history of the public editing operations (insert/remove/reattach/move/push words and nodes, secondary edges, filtering, reattachment of words, intermediate insertion, projectivization, chain collapsing and restoring, dummy removal), with valid and with refused arguments, on trees from any reader, constructor or decoder",
 "unit tests apply one or two operations to a handful of hand-built trees; corruption shows only after particular sequences (e.g. remove then reattach then remove again)",
 [T,M,E],[("every edit re-links edges of one graph",T+" Tree::{insert_*,remove_*,reattach_*}"),("refusals before mutation",T+" remove_node/reattach_node")],
 ["Tree::graph()","Tree::n_terminals","Tree::root","Node::span"],[("graph","nodes and primary/secondary edges",T+" struct Tree"),("n_terminals","number of words",T+" struct Tree")])

p("C02","Reported spans and projectivity always equal the actual word coverage",
 "At any time every node's span is exactly the set of sentence positions of the words it dominates, in all of the ways the span can be read (bounds, skipped positions, membership, size, iteration, continuity). The tree reports itself projective exactly when no node's set of positions has a gap.",
 ["histories","inputs"],"every tree delivered by a reader, constructor or decoder and every state reached from it by a history of editing operations",
 "spans are maintained incrementally on several code paths; a stale span or miscounted discontinuity appears only after specific edit sequences on discontinuous trees, which tests do not combine",
 [T,M,S,N,G,P,E],[("incremental span merge/removal on reattachment",T+" reattach_primary"),("full recomputation",T+" reset_nt_spans"),("discontinuity counter",T+" projectivity_change")],
 ["Node::span","Node::continuity","Tree::is_projective"],[("span","covered positions of a node",N),("num_discontinuous","number of nodes with gaps",T+" struct Tree")])

p("C03","Structural edits change exactly what they document, refusals change nothing",
 "Inserting a node above or below another, removing an inner node, attaching a node to a new parent, and adding or removing a secondary edge change exactly the documented links and return the documented node or edge; every other node, label, annotation, word position, primary edge label and secondary edge stays as it was. A request that would break the tree (removing a root with several children, taking away the only child of a node, attaching below a word, below itself or below one of its own descendants, inserting below a word) is refused with an error and leaves the tree untouched.",
 ["histories","inputs"],"all trees, all nodes and edges of it as arguments including those that must be refused, at every point of an edit history",
 "each operation is tested on one or two trees with one valid argument; the refusal conditions and side effects on far-away nodes are barely sampled",
 [T,ED],[("insert_unary_above/insert_unary_below",T),("remove_nonterminal",T),("reattach_node checks",T),("add/remove_secondary_edge",T)],
 ["Tree::graph()","returned NodeIndex/EdgeIndex/Node/Edge"])

p("C04","Edits of the sentence shift exactly the affected words",
 "Inserting a word at position i, appending a word, moving a word from i to j and removing a word act on the sentence like the corresponding list operations: all other words keep their relative order, forms, tags, annotations and parents. Removing the only word of a constituent and appending to a sentence whose root is a word are refused with an error, and out-of-range positions or inner nodes given as words panic; in all these cases the tree is unchanged.",
 ["histories","inputs"],"all trees, positions and words, at every point of an edit history",
 "tests move or remove a word in one short sentence; index shifting depends on the direction of the move, on node numbering and on previous removals",
 [T,N],[("index shifting",T+" move_terminal/insert_terminal"),("compaction",T+" compact_terminal_spans")],
 ["Terminal::idx","Node::span","Tree::terminals"])

p("C05","Filtering removes exactly the rejected inner nodes",
 "Filtering inner nodes by a predicate removes exactly the non-root nodes the predicate rejects; every remaining node hangs below its nearest remaining ancestor, and a link that was newly made carries no label. The root, the words with their order, and all labels and annotations of the remaining nodes are unchanged.",
 ["inputs"],"every tree (including discontinuous ones and long unary chains) and every predicate on labels, annotations or node identity",
 "tests filter one tree with one label set; nested removals and predicates on arbitrary node subsets are not sampled",
 [M,T],[("filter_nonterminals",M),("remove_nonterminal",T)],["Tree::graph()"])

p("C06","Reattaching words moves all matches and removes only emptied nodes",
 "Reattaching words by a predicate terminates on every tree; afterwards every matched word is a direct child of the attachment point (a link that was newly made carries no label) and every other word keeps its chain of surviving ancestors. The removed nodes are exactly the inner nodes left without any word, never the root nor the attachment point nor a node above it, and the order and content of words and of the remaining nodes are unchanged.",
 ["inputs","programs"],"every tree, every attachment point that is an inner node and every predicate on words, plus trees that consist of a single word (left unchanged)",
 "the tests reattach in a few fixed trees to the root; attachment points inside the tree, words that are the only content of the attachment point, and single-word trees are not sampled",
 [M,T],[("reattach_terminals",M),("reattach_node",T)],["Tree::graph()"])

p("C07","Intermediate nodes are inserted once per maximal run of words",
 "Inserting intermediate nodes puts one new node with the requested label above each maximal run of adjacent word children of each matched parent and above nothing else; each affected word ends up exactly one level deeper. Order and content of the words, all other nodes and the links between them stay the same; a word without parent yields an error and an unchanged tree.",
 ["inputs","histories"],"every tree whose node numbering may differ from the sentence order (after edits, or as read from NEGRA), every predicate from parents to labels",
 "the tests use trees whose node numbering equals sentence order and few runs",
 [M],[("insert_intermediate run detection",M)],["Tree::graph()"])

p("C08","Ancestor projections annotate every word with its nearest match",
 "Projecting tags, unique ids or node indices gives every word the value of its nearest ancestor accepted by the predicate, climbing from the parent to the root: ids are equal for two words exactly when that ancestor is the same node, words without accepted ancestor get no annotation (the root for index projection, at the word's sentence position). The parent-tag annotation gives every word its parent's label, or an error if a word has no parent; climbing callbacks see exactly the ancestors bottom-up until they ask to stop, also when they remove the node they are shown; nothing else in the tree changes.",
 ["inputs","programs"],"every tree, predicate and feature name; trees with node numbering different from sentence order",
 "tests use one or two trees with one predicate; identity of ids across words and the default for unmatched words are sampled once",
 [T,M,U],[("map_climber_path",T),("project_ids/project_tag_set/project_nt_indices",T),("annotate_parent_tag",M),("Climber",U)],["Terminal::features","returned Vec<NodeIndex>","closure arguments"])

p("C09","Collapsing and restoring unary chains are inverse",
 "Collapsing unary chains leaves no inner node with a single child and records, on the lowest node of each chain, the removed labels from bottom to top joined with the delimiter, changing nothing else about the remaining nodes. Restoring with the same delimiter, if no label contains it, gives back the original bracketing with all node labels, words and positions (edge labels and annotations of collapsed nodes are not kept), removes the record, and restoring once more changes nothing.",
 ["inputs","histories"],"every tree (discontinuous ones, chains at the root, at words, of any length), every delimiter that occurs in no label; also repeated collapse/restore cycles and edits of the collapsed tree's words",
 "tests collapse two small trees with the delimiter \"_\"",
 [M,T],[("collapse_unary_chains/restore_unary_chains",M)],["Tree::graph()","feature unary_chain"])

p("C10","Projectivization yields a projective tree and reports exactly its moves",
 "Projectivizing a discontinuous tree yields a projective tree over the same sentence with the same nodes, labels, edge labels, annotations and secondary edges; every node still lies below all of its former ancestors, and what interrupts a constituent is attached to it as a whole (highest node first, innermost interrupted constituents first), nothing else is moved. The returned list names for each moved node its original parent and edge and contains no node that was not moved; a tree that already is projective is left unchanged and nothing is returned.",
 ["inputs","schedules"],"every discontinuous tree (any depth, any number of crossing gaps, interleaved discontinuities, secondary edges) and any iteration order of the hash sets used inside",
 "tests projectivize two treebank sentences; gap order depends on randomly seeded hash sets that a single run samples once",
 [M,T,S],[("projectivize",M),("reattach_node",T),("span maintenance",S)],["Tree::graph()","returned moves","Tree::is_projective"])

p("C11","Supplied tags land on the words in sentence order",
 "Annotating a sentence with a list of n part-of-speech tags gives the i-th word of the sentence the i-th tag and changes nothing else, whatever edits the tree went through before. A list that is shorter or longer than the sentence yields an error.",
 ["inputs","histories"],"every tree including those whose words were moved, inserted or removed, and every list of tags",
 "the test annotates freshly parsed trees, where node numbering equals sentence order",
 [M,T],[("annotate_pos",M)],["Terminal::label"])

p("C12","Bracketed output and bracketed input are inverse in all three formats",
 "Writing a projective tree in the PTB, simple or TueBa bracket format yields exactly the bracketing of the tree with children in sentence order, with the label, annotation and edge label decorations of that format and round parentheses in words and tags replaced by LBR/RBR; reading it back gives the same tree restricted to what the format expresses. A discontinuous tree is refused with an error and nothing is written.",
 ["inputs"],"every projective tree whose labels avoid the format's own delimiters and whitespace (labels starting with '-', such as -NONE-, included for PTB), any node numbering and child insertion order, unicode words, words with parentheses, words starting with '%'; every discontinuous tree for the refusal",
 "the round trip is tested on the sentences of one TueBa file; PTB annotations and words outside that sample are not",
 [P,PG],[("format_sub_tree/fmt_inner/fmt_term",P),("parse_value/process_label",P)],["PTBFormat::tree_to_string","PTBFormat::string_to_tree","PTBWriter::write_tree"])

p("C13","Bracket readers deliver every tree of a stream once and in order",
 "Reading a stream of bracketed trees, one per line or spread over several lines, delivers each tree exactly once, in order and with the content its brackets denote, and then ends. Comment lines between trees, empty lines in multi-line input, line breaks and indentation inside a multi-line tree, CRLF line ends and a missing final newline make no difference.",
 ["inputs"],"every sequence of valid trees in any of the three formats and every layout of it (single-line: one tree per line; multi-line: a tree ends at the end of the line with its last bracket), chunked arbitrarily by the underlying reader",
 "tests read one single-line file and one multi-line tree",
 [P,PG],[("PTBReader::next bracket counting",P)],["PTBReader iterator"])

p("C14","Malformed bracketed input is reported, never accepted or fatal",
 "A bracketed string is accepted exactly if it is one complete bracketing of labelled nodes over words, and then denotes that bracketing; anything else yields an error, never a panic or a partial tree. In a single-line stream every line but comment lines (starting with '%') gets its own verdict (a blank line is an error), in a multi-line stream every tree before the malformed one is delivered, incomplete material at the end of the input is an error, and I/O errors and invalid UTF-8 are reported as errors; reading always ends.",
 ["inputs","fault_sequences"],"every string up to a nesting depth of 500, every mutation of valid input, read errors at any point",
 "no test feeds malformed input",
 [P,PG],[("pest grammar",PG),("PTBReader::next",P)],["PTBFormat::string_to_tree","PTBReader iterator"])

p("C15","NEGRA output and NEGRA input are inverse",
 "Writing a tree in NEGRA export format and reading it back gives the same tree: words with lemma, tag and morphology in order, inner nodes with label and annotation, the same parents, edge labels and (one per node) secondary edges, sentence id and metadata, discontinuities included. Sentences without id are numbered 0,1,2,... in the order written, and any number of sentences can be written to one stream.",
 ["inputs"],"every tree whose root is VROOT and whose fields are non-empty, whitespace-free and where '--' stands for nothing, words not starting with '#' and labels of secondary edges not with '%', with any number of words and inner nodes, fields of any length, any node numbering; trees that are a single word come back below a VROOT",
 "the round trip is tested on the sentences of two sample files with short fields and few nodes",
 [G],[("NegraWriter::write_tree id assignment and padding",G),("NegraReader/Builder",G)],["NegraWriter::write_tree","NegraReader iterator"])

p("C16","The NEGRA reader delivers what the export file denotes",
 "For every valid export file the reader delivers each sentence exactly once, in order, and the tree is the one the lines denote: word k of the sentence is the k-th word line, every line's parent field gives the parent and its edge field the edge label, further fields give lemma, tag, morphology, annotation, secondary edge, sentence id and metadata. Column widths, tabs or blanks between fields (those of the #BOS line included), comments after the fields, preamble before the first sentence, text between sentences, line ends, node numbers and the order of lines of inner nodes (each after some line that names it as parent) make no difference.",
 ["inputs"],"every list of trees (discontinuous, with secondary edges) in every such layout",
 "tests read a few sample sentences in the layout of one treebank",
 [G],[("NegraReader::next",G),("Builder::process_*",G)],["NegraReader iterator"])

p("C17","Malformed NEGRA sentences are reported and do not affect the others",
 "A sentence that does not denote a tree (missing or non-numeric field, wrong or missing end marker, unknown, duplicate or missing inner node, cycle, no words, word after an inner node, secondary edge to an unknown node) yields an error, never a panic and never a tree. Every well-formed sentence of the stream that is not itself interrupted is still delivered once, in order; reading always ends, and I/O errors and invalid UTF-8 are reported as errors.",
 ["inputs","fault_sequences"],"every stream mixing well-formed and malformed sentences, every mutation of a valid stream, read errors at any point",
 "no test feeds more than one malformed sentence",
 [G],[("Builder validation",G+" try_into_tree"),("sentence framing",G+" NegraReader::next")],["NegraReader iterator"])

p("C18","Encoding a tree as labels and decoding gives the tree back",
 "For every projective tree, collapsing its unary chains, encoding it on the absolute or relative scale, decoding the labels over the same words and restoring the chains gives back the original bracketing with all labels and words, if no label contains the delimiter of the chains. The same holds when the labels travel as features through CoNLL-X text and contain none of its separators; a discontinuous tree is refused with an error by every encoding operation and left unchanged.",
 ["inputs"],"every projective tree whose labels do not contain the label separators ('_', '+', '~', '|', ':'), are non-empty and not DUMMY and, unless the node has a single word as its only child, not NONE; any branching, depth, length, node numbering and chains at the root, at words and in between",
 "the round trip is tested on the sentences of one sample file",
 [E,C,M],[("encode_*/annotate_*",E),("decode",E),("try_from_conllx_*",C)],["Encode","Decode","TryFromConllx"])

p("C19","Labels state the lowest common ancestor, both scales agree",
 "On a projective tree without unary chains the absolute label of each word but the last consists of the label of the lowest common ancestor with the next word (prefixed by its collapsed chain) and the number of ancestors both words share, and the last word's is empty; the relative label states the same with the difference to the previous word's number, or no number if only the root is shared; a word's own collapsed chain is carried along. The annotated features are the textual form of these labels, and converting absolute to relative and back is the identity.",
 ["inputs"],"every projective tree with collapsed chains, any node numbering",
 "tests compare the labels of two small trees",
 [E],[("get_common",E),("RelativeEncoding::from / try_from_relative",E)],["AbsoluteEncoding","RelativeEncoding","features abs_ancestor/rel_ancestor"])

p("C20","Any label sequence decodes to a tree over the given words",
 "Decoding any sequence of labels, one per word, on either scale yields a well-formed projective tree over exactly these words in their order, in which every inner label comes from the sequence or is the placeholder; relative labels that lead below one shared ancestor are read as 2, all others as the running sum. For sequences whose inner labels are all filled, neighbouring words share exactly as many ancestors as the label between them says, and a node carries the last label that names it. Removing placeholders leaves none except possibly a root with several children and keeps everything else; a missing or unparsable label, or a count of zero, is reported as an error, never a panic.",
 ["inputs","fault_sequences"],"every sequence of labels with counts up to 60 (as a tagger may predict them) for 1 to 100 words, including empty labels in the middle, every malformed feature string",
 "tests decode two hand-written sequences",
 [E,C],[("decode",E),("RelativeToAbsoluteError::fix",E),("remove_dummy_nodes",E),("AbsoluteAncestor/RelativeAncestor::try_from",E)],["Decode::decode","TryFromConllx","Decode::remove_dummy_nodes"])

p("C21","CoNLL-X export lists the words with all annotations in order",
 "Exporting a tree to CoNLL-X yields one line per word, numbered from 1 in sentence order, carrying form, lemma, tag and all features of that word, with an underscore for an absent value. The consuming and the borrowing conversion and the text writer agree, and the borrowing one leaves the tree unchanged.",
 ["inputs","histories"],"every tree, including those whose node numbering differs from the sentence order, words with and without lemma and features (also emptied feature lists); values free of tabs, line breaks and the feature separators",
 "tests export one small tree",
 [C],[("From<&Tree>/From<Tree> for Sentence",C),("From<&Terminal> for Token",C)],["Sentence","WriteTree for conllx Writer"])

p("C22","Tree equality ignores bookkeeping and sees every difference",
 "Two trees are equal exactly if they have the same bracketing over the same sentence with equal words (form, tag, lemma, features), node labels, annotations and edge labels, the root included. The order of construction, the numbering of nodes, empty versus absent feature lists, and past edits that were undone make no difference; equality is reflexive and symmetric. In the same way two nodes are equal exactly if they are of the same kind with equal contents and positions, and two edges exactly if they are of the same kind with equal labels.",
 ["inputs","histories"],"all pairs of trees built over different routes, and all pairs differing in a single label, word, annotation, edge label, attachment or word order (trees that differ in secondary edges only are left open)",
 "tests compare a few equal pairs and two unequal ones",
 [T,N,S],[("subtree_eq",T),("PartialEq for Terminal/NonTerminal",N)],["PartialEq for Tree"])

p("C23","Navigation answers agree with the structure of the tree",
 "Words, inner nodes, parent, children, siblings, secondary parent and children, words below a node and climbing towards the root all report exactly what the primary and secondary edges of the tree imply, each node once, with the edge that connects it. Two different nodes are siblings exactly if they have the same parent; the root has no parent and no siblings, and asking for a node that is not in the tree yields no parent.",
 ["histories","inputs"],"every node and pair of nodes of every tree, also between the steps of an edit history, with secondary edges present",
 "tests query a few nodes of one tree",
 [T,U],[("parent/children/siblings/secondary_*",T),("TerminalDescendents",T),("Climber",U)],["Tree navigation methods","util::Climber"])

p("C24","Spans behave as sets of positions",
 "A span behaves as the set of positions it covers: membership, number of positions, iteration in increasing order, bounds and skipped positions agree with that set, covering another span is the superset relation, and equality is equality of sets. The order of spans is by start, then end, then number of positions, and is a total preorder consistent in both directions.",
 ["inputs"],"all spans of all nodes of all trees (with any number of gaps) and all pairs of them",
 "tests check hand-picked spans",
 [S],[("Span methods",S),("Ord for Span",S)],["Span::{contains,covers_span,bounds,n_indices,skips,into_iter,cmp,eq}"])

p("C25","Annotations of nodes and edges behave as maps and plain fields",
 "A feature list behaves as a map from keys to optional values: the latest value wins, insertion and removal return what was stored before, lookup distinguishes absent keys from keys without value, and its text form (key:value pairs joined by '|', ordered by key) parses back to the same map. Setting a label, form, lemma, feature list or edge label returns the previous value and changes nothing else, and a label set matches exactly the listed labels (or, if negative, exactly the others).",
 ["histories","inputs"],"every sequence of operations on a feature list, node or edge; keys and values free of ':' and '|' for the text form",
 "tests perform one fixed sequence",
 [F,N,ED,U],[("Features",F),("setters",N+", "+ED),("LabelSet::matches",U)],["Features","Node/Terminal/NonTerminal/Edge accessors","LabelSet"])

p("C26","The converter applies the requested steps to every sentence in order",
 "With valid input the conversion program exits successfully and writes exactly one output sentence per input sentence, in input order, each being what the requested steps (placeholder removal, projectivization with optional secondary edges, tag annotation, reattachment, id projection, filtering, intermediate insertion, parent annotation, chain collapsing and encoding), in that order, make of the sentence, in the requested output format. Input and output via file or standard streams give the same result, and no sentence influences another.",
 ["inputs","configurations"],"all combinations of input format, output format, layout and options over treebanks of any number of sentences (ids and filter used together only with a filter that keeps the id nodes)",
 "one end-to-end run converts one file with one option combination",
 [CLI,M,T,G,P,E,C],[("main loop",CLI),("get_reader/get_writer",CLI)],["stdout/output file","exit status"])

p("C27","The converter never reports success for lost or refused sentences",
 "If an input sentence is malformed, cannot be expressed in the output format, lacks its tags, or if input cannot be read or output cannot be written, the conversion program ends with a non-zero status and a message, without crashing; an unknown format or option, or a missing value of an option without default, is refused likewise. All sentences before the failing one have been written completely and nothing is written for the failing one.",
 ["inputs","configurations","fault_sequences"],"every treebank with a failing sentence at any place, for each failure kind and output format; full output device",
 "no test runs the program on failing input",
 [CLI,G,P],[("or_exit at each step",CLI)],["exit status","stdout/output file","stderr"])

p("C28","Results depend on the input sentence alone",
 "Reading, editing, encoding and writing a sentence gives the same result whether it is processed alone, after any other sentences in the same stream, repeatedly, in several threads at once or in another process; clones of a tree evolve independently. Reading a stream in pieces of any size, interrupted reads included, delivers the same trees.",
 ["schedules","inputs","histories"],"all pipelines over all treebanks, any number of threads and any chunking of the input; up to the order in which moves are reported by projectivization",
 "tests process each sentence once in one thread",
 [T,M,G,P,E,C],[("no shared state between readers, writers and trees",L+"io"),("hash-ordered gap sets",S)],["outputs of all readers/writers/encoders"])

p("C29","Chains of conversions keep what every format on the way expresses",
 "A treebank carried through any sequence of formats (the three bracket formats, NEGRA, CoNLL-X labels on either scale), each step writing all trees and reading them back, keeps the words with their forms and tags, their order, the bracketing and the node labels, and of lemmas, edge labels, annotations, morphology, sentence ids and secondary edges exactly what every format passed through expresses (NEGRA relabels the root VROOT); nothing is added. The trees equal trees of that content made in any other way, text that was read and written is written the same the next time, and the conversion program run on its own output does the same.",
 ["inputs","histories","configurations"],"every treebank whose values contain no separator or placeholder of any format, every sequence of formats and line layouts; discontinuous trees through NEGRA or after projectivization",
 "the tests convert a few sentences from one format to another, once",
 [P,G,E,C,CLI],[("write_tree of all writers",L+"io"),("PTBReader/NegraReader/TryFromConllx",L+"io")],["readers and writers of all formats","conversion program"])

p("C30","Streams are processed sentence by sentence",
 "The bracket and NEGRA readers deliver a sentence before they read anything beyond its last line, so that readers can take turns on one source, and neither what a reader holds nor what a sentence costs grows with the number of sentences delivered before. When a writer returns, the whole text of that sentence has been handed to its sink or an error of the sink is reported, a refused one has left nothing, and the writer keeps nothing. The conversion program's memory does not grow with the number of sentences.",
 ["histories","inputs"],"streams of any number of sentences in any mix of bracket formats, NEGRA and line layouts; all writers; the program on all pairs of formats",
 "the tests read files at once and look at the trees only",
 [P,G,C,CLI],[("Iterator for PTBReader",P),("Iterator for NegraReader",G),("main loop",CLI)],["position of the source","bytes in the sink","memory in use"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for r in rows: f.write(json.dumps(r,ensure_ascii=False)+'\n')
print(len(rows))
