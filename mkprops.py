#!/usr/bin/env python3
"""Writes properties.jsonl, and MANIFEST.json from props.json."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
GM, GEN = "src/graph_impl/graph_map/graph.rs", "src/generic/graph.rs"
ND, ED = "src/graph_impl/graph_map/node.rs", "src/graph_impl/graph_map/edge.rs"
SG, EV, SI = "src/graph_impl/static_graph/graph.rs", "src/graph_impl/static_graph/edge_vec.rs", "src/graph_impl/static_graph/static_edge_iter.rs"
MG, ME, MM = "src/graph_impl/static_graph/mmap/graph_mmap.rs", "src/graph_impl/static_graph/mmap/edge_vec_mmap.rs", "src/io/mmap.rs"
P = []
def p(id, title, st, over, text, why, files, mech, obs=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if obs: a["observe_at"] = obs
    P.append({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Mutable graphs behave as one labelled simple graph under every operation",
  "Adding, relabelling, looking up mutably and removing nodes and edges of a mutable graph changes it exactly as the same operation changes a mathematical labelled simple graph (directed or undirected): missing end points are added unlabelled, an existing node or edge is relabelled, a removed node takes its edges with it, and nothing else changes. Each operation returns what it did: true only if the node or edge was new (or, for an update, existed), and the removed or looked-up node or edge itself. This includes self-loops, in both directions of an undirected edge.",
  ["histories", "inputs"], "every finite history of operations, any ids of the id type, any labels (as many distinct labels as the label id type can number), directed and undirected",
  "the tests run a few fixed histories of small graphs, almost none with self-loops, relabelling or removal after re-insertion",
  [GM, ND, ED, GEN], [("MutGraphTrait and MutGraphLabelTrait of TypedGraphMap", GM), ("MutNodeMapTrait of NodeMap", ND)], ["MutGraphTrait", "MutGraphLabelTrait"])
p("C02", "Counts and adjacency of a mutable graph never drift",
  "After any history, node_count and edge_count equal the number of nodes and edges that exist (an undirected edge and a self-loop count once), max_seen_id is at least every id present, and every edge joins two existing nodes. In a directed graph each node's in-neighbours are exactly the sources of its incoming edges; in an undirected graph every edge is seen, with one label, from both ends.",
  ["histories"], "every finite history of mutations from any constructor",
  "drift needs particular sequences (re-adding, relabelling, removing nodes with self-loops); the tests assert counts after a handful of insertions",
  [GM, ND], [("num_of_edges, max_id and the two adjacency sets kept in step", GM), ("neighbors / in_neighbors", ND)], ["node_count", "edge_count", "max_seen_id", "in_neighbors"])
p("C03", "Queries and enumerations of a mutable graph are exact",
  "has_node, has_edge, get_node, get_edge, degree, in_degree, neighbors, in_neighbors and the label lookups of a mutable graph answer exactly what the graph contains. The enumerations of nodes, edges and neighbours, and the label counters, yield every element exactly once and nothing else; neighbours come in increasing id order, and an undirected edge is listed once, smaller end first.",
  ["inputs", "histories"], "every reachable graph and every argument, including ids that are absent",
  "the tests compare a few enumerations of hand-made graphs",
  [GM, ND, GEN], [("GraphTrait, DiGraphTrait, GraphLabelTrait of TypedGraphMap", GM), ("NodeMapTrait of NodeMap", ND)], ["GraphTrait", "GraphLabelTrait", "DiGraphTrait"])
p("C04", "Label maps are bijections with stable indices",
  "A label map holds each item once: the index returned for an item retrieves that item, finding the item returns that index, and the two stay paired while other items are added. Adding an item already present changes nothing and returns its old index; popping removes the last item only; building from a sequence or converting between the two map kinds keeps the first occurrences in order.",
  ["histories", "inputs"], "every history of map operations and every sequence of items with a lawful equality",
  "the tests use two or three items and rarely look at indices after a removal or from a duplicate-containing input",
  ["src/map/set_map.rs", "src/map/vec_map.rs", "src/generic/map.rs"], [("SetMap", "src/map/set_map.rs"), ("VecMap", "src/map/vec_map.rs")], ["MapTrait", "MutMapTrait"])
p("C05", "Queries and enumerations of a static graph match its arrays",
  "For every well-formed static graph, node and edge membership, labels, degrees, neighbours, in-neighbours, maximum id and counts are exactly those of the graph its arrays describe, for all arguments including ids outside it. Its enumerations list every node and every edge exactly once, each with its own label, an undirected edge once with the smaller end first.",
  ["inputs"], "all offset, edge and label arrays describing a graph, including empty graphs, empty rows, self-loops and id types whose whole range is in use",
  "the tests check one or two small arrays; empty rows, the last row, self-loops and full id ranges are untested",
  [SG, EV, SI, "src/graph_impl/static_graph/node.rs"], [("EdgeVecTrait: offsets, binary search", EV), ("StaticEdgeIndexIter", SI), ("GraphTrait of TypedStaticGraph", SG)], ["GraphTrait", "EdgeVecTrait"])
p("C06", "Converting a mutable graph to a static one preserves it",
  "into_static yields a static graph with the same nodes, edges, directions, node and edge labels and label tables as the mutable graph. Ids absent below the largest id become isolated unlabelled nodes, because static ids are contiguous; nothing else is added or lost.",
  ["inputs", "histories"], "every reachable mutable graph whose ids fit in memory as an array, with and without labels, gaps and self-loops",
  "the tests convert a few dense labelled graphs",
  [GM, SG, EV], [("TypedGraphMap::into_static", GM), ("TypedStaticGraph::from_raw", SG), ("EdgeVec::from_raw", EV)], ["into_static"])
p("C07", "A memory-mapped graph equals the static graph that was dumped",
  "A static graph dumped to files and opened as a memory-mapped graph answers every query and enumeration as the original does, labels included. Dumping over an older dump leaves nothing of the older one visible.",
  ["inputs", "histories"], "every well-formed static graph, labelled or not, directed or not, and any earlier dump under the same prefix",
  "one or two fixed graphs are dumped by the tests, into fresh prefixes",
  [MG, ME, MM, SG, EV], [("GraphTrait of StaticGraphMmap", MG), ("EdgeVecMmap", ME), ("dump_mmap", SG), ("dump_mmap", EV)], ["StaticGraphMmap", "dump_mmap"])
p("C08", "Breadth-first search visits every node once, nearest first",
  "Starting from a node or from none, breadth-first iteration yields every node of the graph exactly once and then ends. Within each component it yields nodes in non-decreasing distance from the node that component was entered at, and it exhausts a component before entering the next.",
  ["inputs"], "every graph (mutable or static, directed or not, any id gaps) and every optional start",
  "the tests compare fixed orders on a few small graphs",
  ["src/algorithm/bfs.rs"], [("Bfs::next and next_unvisited_node", "src/algorithm/bfs.rs")], ["Bfs"])
p("C09", "Depth-first search visits every node once, in a true depth-first order",
  "Starting from a node or from none, depth-first iteration yields every node of the graph exactly once and then ends. Each node is yielded as an unvisited neighbour of the most recently yielded node that still has one, and a new component is entered only when none is left.",
  ["inputs"], "every graph and every optional start",
  "the tests check fixed orders on a few small graphs",
  ["src/algorithm/dfs.rs"], [("Dfs::next, next_unvisited_node, move_to", "src/algorithm/dfs.rs")], ["Dfs"])
p("C10", "Connected components are exactly the classes of connectedness",
  "After detection, two nodes are reported connected exactly when a path joins them ignoring edge directions, every node including an isolated one belongs to a component, and the number of components is right. The members reported for a node are exactly its component, and an unknown node has none; feeding edges one at a time or resetting gives the same answers as detection on the resulting graph.",
  ["inputs", "histories"], "every graph and every sequence of edges processed",
  "the tests use two small graphs with fixed edges",
  ["src/algorithm/conn_comp.rs"], [("union-find with weights and path halving", "src/algorithm/conn_comp.rs")], ["ConnComp"])
p("C11", "Connected subgraphs partition the graph",
  "Enumerating connected subgraphs yields graphs whose node sets partition the nodes of the original by connectedness, in the same direction mode. Each carries exactly the edges between its nodes, and every node and edge keeps its label.",
  ["inputs"], "every graph, with isolated nodes, self-loops and labels",
  "the tests use two or three fixed graphs",
  ["src/algorithm/conn_subgraphs.rs", "src/algorithm/conn_comp.rs"], [("ConnSubgraph::process_nodes and process_edges", "src/algorithm/conn_subgraphs.rs")], ["ConnSubgraph"])
p("C12", "Union and clone combine graphs exactly",
  "The union of two graphs of the same direction mode contains exactly the nodes and edges of either, labels of the second graph winning on what both contain, and leaves its operands unchanged. The + operators agree with it, and a clone of a boxed graph equals the original.",
  ["inputs"], "every pair of graphs of the same direction mode, disjoint, overlapping or equal",
  "the tests add two small graphs",
  ["src/algorithm/graph_union.rs", GEN], [("graph_union and the Add implementations", "src/algorithm/graph_union.rs"), ("Clone of a boxed graph", GEN)], ["graph_union", "Add", "Clone"])
p("C13", "Difference keeps exactly what the other graph lacks",
  "The difference of two graphs of the same direction mode contains exactly the nodes of the first that the second lacks, and the edges of the first between those nodes, all with the first graph's labels. The - operators agree with it and the operands are unchanged.",
  ["inputs"], "every pair of graphs of the same direction mode",
  "the tests subtract one small graph",
  ["src/algorithm/graph_minus.rs"], [("graph_minus and the Sub implementations", "src/algorithm/graph_minus.rs")], ["graph_minus", "Sub"])
p("C14", "Reordering ids is an isomorphism",
  "Reordering node ids or label ids yields the same graph up to the returned renumbering: nodes, edges, directions and the label of every node and edge correspond. New node ids are 0 to n-1 in order of degree, new label ids are in order of frequency, and the two lookups between old and new node ids are inverse to each other.",
  ["inputs"], "every reachable mutable graph and each of the eight combinations of what to reorder",
  "the tests reorder one fixed graph",
  [GM], [("reorder_id, reorder_id_with, reorder_label_map", GM)], ["reorder_id", "ReorderResult"])
p("C15", "Graph equality is equality of content, and hashes agree with it",
  "Two graphs compare equal exactly when they have the same direction mode, the same nodes and edges, and the same label on each, whatever their representation, label ids or history. Equality is therefore reflexive, symmetric and transitive, and equal graphs of one type (and equal label maps) hash equally.",
  ["inputs", "histories"], "every pair of reachable graphs, mutable, static and boxed",
  "the tests compare a few equal graphs and hardly any unequal ones",
  [GEN, GM, SG, "src/map/set_map.rs"], [("equal, PartialEq and Hash of boxed graphs", GEN), ("PartialEq and Hash", GM), ("PartialEq and Hash", SG)], ["PartialEq", "Hash"])
p("C16", "Graph generators keep their contracts",
  "The empty, complete, G(n,p) and G(n,m) generators yield graphs with exactly the nodes 0 to n-1, no self-loops, and: no edge, every possible edge, any subset of them, or exactly m of them. Every label, if given, is drawn from the given labels.",
  ["inputs"], "every n, m up to the number of possible edges, every p in [0,1], every random stream, both direction modes",
  "the tests generate a few sizes and check counts",
  ["src/graph_gen/general.rs", "src/graph_gen/random.rs", "src/graph_gen/helper.rs"], [("complete_edge_pairs", "src/graph_gen/helper.rs"), ("random_gnp_graph, random_gnm_graph", "src/graph_gen/random.rs")], ["graph_gen"])
p("C17", "Id conversions are exact over the whole range of each id type",
  "For each id type, converting an index up to the type's maximum to an id and back is the identity, distinct indices give distinct ids in the same order, incrementing adds exactly one, and the advertised maximum is the largest index representable.",
  ["inputs"], "all indices of all supported id types",
  "the tests convert a handful of values",
  ["src/generic/dtype.rs"], [("IdType implementations", "src/generic/dtype.rs")], ["IdType"])
p("C18", "Exporting and importing a graph returns an equal graph",
  "A graph or result exported to a file and imported again is equal to the original in everything observable, counts and later behaviour included. Export reports an error rather than success if the bytes did not reach the file.",
  ["inputs", "fault_sequences"], "every reachable graph of either representation, and a failing write at any point",
  "the tests round-trip two fixed graphs and inject no write failure",
  ["src/io/serde.rs", GM, SG], [("Serializer::export, Deserializer::import", "src/io/serde.rs")], ["Serializer", "Deserializer"])
p("C19", "Writing a graph to CSV and reading it back returns an equal graph",
  "A graph written to CSV and read back into an empty graph of the same direction mode has the same nodes, edges and labels, for any separator the format can express, with or without the line of headers. A file that cannot be opened, read or written is reported as an error rather than ignored; a row that cannot be parsed is skipped, as documented, and the rows around it are still read. A node or edge record adds exactly that node or edge with its label.",
  ["inputs", "fault_sequences"], "every graph whose labels are distinguishable from a missing one in CSV",
  "the tests read and write fixed files",
  ["src/io/csv/reader.rs", "src/io/csv/record.rs", "src/io/csv/writer.rs", "src/io/csv/mod.rs"], [("CSVReader::read", "src/io/csv/reader.rs"), ("NodeRecord / EdgeRecord", "src/io/csv/record.rs"), ("CSVWriter::write", "src/io/csv/writer.rs")], ["CSVReader", "CSVWriter"])
p("C20", "Memory-mapped arrays never expose bytes outside their file",
  "A memory-mapped typed array has exactly as many elements as its file holds whole elements, and indexing it in full, from or up to a position yields exactly those elements, a position past the end being refused. Dumping an array and mapping the file gives the same elements.",
  ["inputs"], "every file length, element size and index, including empty files",
  "the tests map one file and slice it in range; an out-of-range slice reads foreign memory silently",
  [MM], [("TypedMemoryMap", MM), ("dump, typed_as_byte_slice", MM)], ["TypedMemoryMap"])
p("C21", "Loading an LDBC directory builds the graph its files describe",
  "Reading an LDBC benchmark directory builds a graph with exactly the entities its files list or relate and exactly the relations its files list. An entity is its kind and its number: the same entity met in several rows or files is one node, different entities are different nodes. Organisations and places are labelled by their type column, every other entity by its kind, and a relation by its name, in the direction of the file's columns; a pair related more than once keeps one relation. Files whose names match no kind or relation, the line of headers and the further columns add nothing.",
  ["inputs"], "every directory of well-formed LDBC files, in either direction mode, as long as the id type has an id for each entity",
  "no test covers it, and the result depends on which files are present, how rows repeat entities, and the order the directory lists its files in",
  ["src/io/ldbc/scheme.rs", "src/io/ldbc/node.rs", "src/io/ldbc/relation.rs", "src/io/ldbc/mod.rs"], [("Scheme::from_path", "src/io/ldbc/scheme.rs"), ("Node::add_node", "src/io/ldbc/node.rs"), ("Relation::add_edge", "src/io/ldbc/relation.rs")], ["Scheme", "read_ldbc_from_path"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
C = json.load(open(os.path.join(V, "props.json")))
ids = [x["id"] for x in P]
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [], "not_applicable": []}
for i in ids:
    if i in C["properties"]:
        c = C["properties"][i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                            "technique": c.get("technique", C["technique"]), "level": c["level"], "level_note": c["level_note"], **({"theorems": c["theorems"]} if "theorems" in c else {})})
    else:
        m["not_applicable"].append({"property": i, "reason": C["not_applicable"].get(i, "not claimed yet: its functions are not under contract yet (see DESIGN.md)")})
m["notes"] = "Contracts are woven mechanically into the functions extracted from /repo/src on every run (vx) and discharged by Verus; hz runs the real code to turn a failed obligation into a concrete input, and checks with stated bounds the functions the verifier cannot reach.  No hooks in /repo are needed."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
