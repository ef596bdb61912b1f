"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M, C, K, A, P, Q = ("py/docria/model.py", "py/docria/codec.py", "py/docria/collection.py", "py/docria/algorithm.py", "py/docria/printout.py",
                    "py/docria/query.py")

J = "java/core/src/main/java/se/lth/cs/docria/"
H = "java/hadoop/src/main/java/se/lth/cs/docria/hadoop/"


def p(id, title, statement, over, quant, why, mech, observe, technique, note, level="exploration"):
    return dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, mech=mech, observe=observe, technique=technique, note=note, level=level)


DOCS = ("every document: any properties, texts, layers, schemas and field types, with and without defaults, unset fields, hostile Unicode, after any "
        "history of additions, removals and reorderings")
PROPS = [
    p("C01", "Binary round trip preserves every document",
      "Encoding a valid document to the binary format and decoding it gives a document with equal properties, texts, layers, schemas (types, defaults, "
      "options), nodes in the same order and field values, where spans denote the same characters and references the same nodes. Decoding and encoding "
      "again changes nothing further, for any number of generations, and the decoded document shares no state with the original or its bytes. "
      "Nodes removed before encoding do not reappear, and references of remaining nodes are not shifted by gaps that removals left.",
      ["inputs", "histories"], DOCS + "; one and many generations",
      "The tests round-trip a few small hand-made documents; order of fields, gaps, size boundaries of the encoding, offsets shared by many spans and "
      "combinations of types are unbounded.",
      [("column-wise encoding and layer commit", C), ("offset mapping and id compaction", M)], ["decode(encode(document))"],
      "reference-image monitor over random document histories",
      "Every decoded document is compared field by field with an image taken through the public interface before encoding."),
    p("C02", "Encoding is pure, deterministic and leaves the document usable",
      "Encoding a document in any format (binary, JSON, XML, pickle, collection writer) does not change what the document says: texts, properties, schemas, "
      "nodes, their order and identity, and all values stay as they were, also when the encoding fails. Encoding an unchanged document again gives the same "
      "bytes, whatever was encoded, queried or refused in between, and in every process.",
      ["inputs", "histories"], DOCS + "; all encoders in any sequence; documents with an invalid value that makes the encoding fail",
      "The tests never look at a document after encoding it, and never after a failed encoding.",
      [("compilation of ids and offsets on the live document", M), ("encoders", C)], ["document image and bytes before and after each encoder"],
      "before/after state monitor with failing encodings injected",
      "Observes the live document (values, identities, order) around every encoder call, with one invalid value injected in a part of the cases."),
    p("C03", "The binary format follows the published layout",
      "What the library encodes is understood, with the same meaning, by an independent reader of the published layout (magic, five length-prefixed parts, "
      "column-wise layers, delta-coded spans), and the library understands what an independent writer encodes, including field order, unset markers and "
      "alternative integer widths. Data that is not such a document, or is cut short, is refused with an error and never decoded to something else. "
      "The debugging dump reads the same layout and shows every layer, field and text.",
      ["inputs"], DOCS + "; every truncation point sampled, foreign and random bytes",
      "The tests read with the same code that wrote, so a symmetric change of the layout, which breaks all stored data and the Java side, passes.",
      [("binary encoder and decoder", C)], ["bytes produced and consumed"], "independent reader and writer as oracle",
      "An independent implementation of the layout in mon/wire.py reads what docria writes and writes what docria reads; it was derived from the code at "
      "the pinned commit and the Java sources."),
    p("C04", "JSON round trip, and agreement of JSON and binary formats",
      "Encoding a valid document to JSON gives valid JSON text from which the same document is decoded: properties, texts, schemas, nodes, order, values of every "
      "field type including binary, extension and node span fields. A document gives the same result through the JSON format, through the binary format and "
      "through both in sequence; decoded documents share no state with each other or the JSON object, and text that is not such a document is refused.",
      ["inputs"], DOCS + " with JSON-representable properties",
      "The tests decode a handful of JSON documents without binary, extension or unset values.",
      [("JSON codec", C)], ["decode(encode(document)) per format"], "reference-image and cross-format differential monitor",
      "The JSON text is parsed by the standard parser; images of documents from each path are compared."),
    p("C05", "Nothing that violates the declared schema is ever serialized",
      "Encoding a document that holds a value of the wrong type (extension data of another type included), a span of another text, a reference to a removed node or to a node of another layer, a node or span of another document or of a "
      "replaced layer or text of the same name, a broken node span, or an undeclared field is refused with an error in every format and by collection writers, whether the document was built, decoded or "
      "unpickled. Valid values, and the extremes of each type, are accepted, and after the violation is repaired the document encodes again; switching off "
      "one check explicitly (type validation, undeclared fields) does not switch off the other.",
      ["inputs", "histories"], "every kind of violation at every place in " + DOCS[6:],
      "The tests sample a few violations in fresh documents; each check has to hold for each type, origin and place.",
      [("layer validation and type checks", M), ("compile", M), ("decoded schemas", C)], ["encode accepts or raises"], "fault-injection monitor (exactly one violation per case)",
      "Each case injects one violation into a valid document and requires a refusal by each encoder, then a repair and acceptance; bool values for integers are accepted."),
    p("C06", "Partial, lazy and repeated access agree with full decoding",
      "From an encoded document, asking for all or some properties, the schema, all or some texts, some layers, the full document or the raw bytes gives the same as decoding everything and "
      "taking that part, for any sequence and repetition of such requests on one handle, whether its data is bytes or a file. Raw bytes "
      "are the original bytes. Changing a returned document, schema, properties or texts does not change later answers.",
      ["inputs", "histories"], "every document and every sequence of partial requests, over bytes, memory files and real files",
      "The tests ask for each part once on a fresh handle.",
      [("document handle and its lazily parsed parts", C)], ["each partial answer"], "differential monitor against full decoding over random access histories",
      "Compares each answer of the handle with the image of the full document; requests may also decode referenced layers."),
    p("C07", "XML export is well formed and says what the document says",
      "Exporting any valid document to XML gives well-formed XML with unique ids in which every text, node, field value, span, reference and node span can be found again with the value it has "
      "in the document, under every option. Characters outside of the basic plane survive, and characters that XML cannot hold are replaced one for one without "
      "shifting offsets.",
      ["inputs", "configurations"], DOCS + "; all export options",
      "The tests export one document of plain ASCII.",
      [("XML codec", C)], ["exported XML parsed with the standard parser"], "parse-back monitor with the standard XML parser",
      "Layer, field and text names are XML names; extension fields are excluded."),
    p("C08", "Pickle and copy transport whole documents and handles",
      "Pickling (every protocol) and deep-copying a document or an encoded-document handle gives an independent object that says the same, encodes to an equivalent "
      "document, can be changed without affecting the original and can be pickled again, also inside of containers. A handle keeps its bytes and its reference into the collection.",
      ["inputs"], DOCS + " and handles of every origin", "The tests pickle one document once.",
      [("document state", M), ("handle state", C)], ["loads(dumps(x)), deepcopy(x)"], "reference-image monitor", "Images before and after; independence is observed by changing the copy."),
    p("L01", "A layer behaves as an ordered list of nodes under every history",
      "After any sequence of adding nodes (one, many, existing), removing them in any supported form, retaining a subset, sorting, compacting and encoding, iterating a layer gives exactly the nodes that "
      "should be in it, each once, in insertion or sort order, and length, positions, neighbours, containment, slices, reverse iteration and ranges between nodes agree with that. A removed node keeps its "
      "values, is reported as dangling, and is never reachable through its former layer.",
      ["histories"], "every history of layer operations, of any length and any size of gaps, over several layers",
      "Gaps, automatic compaction thresholds and id reassignment depend on the history; the tests run a few short ones.",
      [("gap list with lazy compaction", M)], ["public views of the layer after every operation"], "online model-based monitor (ordered list)",
      "A list model predicts each view after every operation; nodes given to add must not be attached elsewhere."),
    p("L02", "A refused change leaves a layer consistent",
      "When an operation on a layer is refused (wrong argument, foreign, removed or already attached node, undeclared field, failing sort key, failing iterable) an error is raised and the layer stays consistent: it iterates, counts, "
      "positions, encodes and accepts further changes as if the refused part had not happened. Single-node operations and rejected retain and sort operations change nothing at all.",
      ["histories", "fault_sequences"], "every history interleaved with refused operations of every kind",
      "The tests check that some errors are raised, not what state is left behind.",
      [("layer operations with checks before and during change", M)], ["public views after each refused operation"], "online model-based monitor with injected failures",
      "A bulk operation failing half-way may have processed part of its nodes, but no others."),
    p("L03", "Schemas can evolve on a live document",
      "Adding or removing a field, or removing a layer, on a document in any state gives a document whose existing and later nodes have the documented values (the default for existing and new nodes if the type "
      "has one, nothing after removal) and which encodes and decodes. A layer that is referred to is only removed if asked to remove the referring fields, which then removes "
      "exactly those, and a refused removal changes nothing.",
      ["histories", "inputs"], "every sequence of schema changes mixed with node changes and round trips",
      "The tests change one schema once.", [("add_field, remove_field, remove_layer, defaults", M)], ["fields and values of all nodes, encodability"], "online model-based monitor",
      "Model of schemas, defaults and per-node values."),
    p("L04", "A node span denotes the nodes currently between its ends",
      "A node span iterates, counts, indexes and measures exactly the nodes that currently lie between and including its two end nodes, in layer order, through removals, insertions, reordering and round trips. Its text is the text from the start of "
      "the first to the end of the last node. A span whose ends are reversed or in different layers is refused at creation, and one whose ends were removed or reversed is refused when encoding.",
      ["histories"], "every span held over every history of its layer", "The tests create spans on static layers only.",
      [("node spans, iter_nodespan", M), ("delta coded spans", C)], ["views of the span"], "online model-based monitor", "End points attached and in order while observed."),
    p("Q01", "Queries select exactly the nodes whose data satisfies the condition",
      "A query built from field comparisons, membership and set tests, span cover and intersection, user functions, and any combination by and, or and not selects, from any kind of node collection (layer, list, span, slice, query), exactly "
      "the nodes whose current values satisfy it, in collection order and each as often as the collection holds it. Nodes without the field count as not having a value, and updating a query after changes gives the current answer.",
      ["inputs", "histories"], "every predicate tree over every collection, with unset fields, and later changes", "The tests query one static layer with single predicates.",
      [("predicates", Q), ("query collections and field views", M)], ["nodes of the query"], "independent evaluator as oracle", "Order comparisons on set fields only."),
    p("Q02", "Field views and tables show what the nodes hold",
      "A field view of any node collection gives, in order, one value per node: the node's value or nothing. A table (data frame) of a collection has one row per node in order, one column per selected field, and each cell "
      "holds the node's value, its text if spans are materialised, or nothing.",
      ["inputs", "configurations"], "every collection, field type and table option, with unset fields and gaps", "The tests make one table.",
      [("field collections, to_pandas", M)], ["values of views, cells of tables"], "cell-by-cell differential monitor", "Unset numeric cells are NaN, as pandas does."),
    p("Q03", "Node lists select like lists and expose merged field types",
      "Selecting from a node list by position, slice, list of positions or field gives what the same selection from a plain list of the nodes gives. A list over nodes of several layers or unattached nodes exposes the union of their fields, each with a type that "
      "can hold all values (the wider of numeric types); a selection by slice or positions, also an empty one, keeps the fields of the list; and mixing types that cannot be combined is refused.",
      ["inputs"], "every combination of sources, types and selections", "The tests merge two types in one list.", [("NodeList, type merging", M)], ["selected nodes, exposed types"],
      "plain-list model and lattice oracle", "Unattached nodes hold plain values."),
    p("T01", "Slicing texts and spans is string slicing and stays inside",
      "Any chain of slicing and indexing of a text or span, with open, negative or overshooting bounds as Python slices have them, gives the span whose string is the same slice of the string, with the right start, stop and length. A span made from a span never "
      "reaches outside of it, positions outside are refused, and spans read the same after a round trip.",
      ["inputs"], "every text (any Unicode), every chain of slices", "The tests slice a few literals.", [("Text and TextSpan slicing", M)], ["start, stop and string of spans"],
      "differential monitor against str slicing, small bounds exhaustively", "Steps other than one, and reversed bounds, are refused."),
    p("T02", "Span relations and trimming agree with what spans contain",
      "Whether a span covers, intersects or equals another is decided by the characters they contain, for empty, touching, nested and identical spans alike, and equal spans have equal hashes. Trimming removes exactly the whitespace at both ends, never reaches outside of the "
      "span, and leaves an empty span inside if all is whitespace.",
      ["inputs"], "all pairs of spans, all texts with any Unicode whitespace", "The tests check a few pairs.", [("span relations and trim", M)], ["results of relations and trim"],
      "set-of-characters oracle, small texts exhaustively", "An empty span intersects a span that contains its position strictly inside."),
    p("F01", "A collection returns exactly the documents written, in order",
      "Reading a collection file gives exactly the documents that were written, byte for byte the same encoding, in order, once each, for every compression codec, block size, kind of target (path, file object, memory), kind of "
      "source given to the writer (documents or handles), explicit flushes in between, and way of reading (iteration, blocks, context managers, document or handle level). Files that are not collections are refused.",
      ["inputs", "configurations", "histories"], "every sequence of documents and flushes, every codec and block size, all ways of writing and reading",
      "The tests write a few documents with one codec.", [("block writer and reader", K)], ["documents read"], "offline log-vs-readback monitor", "One writer per file; block size at least one."),
    p("F02", "Random access agrees with sequential reading",
      "The reference of each document in a collection finds that document again: from the same reader or a fresh one, in any order, repeatedly, mixed with iteration, block reads and seeks, for every codec. Iteration continues as documented after each such access, and "
      "the reference a reader attaches to a document always leads back to it.",
      ["histories", "inputs"], "every interleaving of get, seek, block reads, block iteration and document iteration on one reader", "The tests get documents one by one on a fresh reader.",
      [("reader cursor, block cache and references", K)], ["documents got"], "online model-based monitor", "The file can seek."),
    p("F03", "A truncated or crashed collection yields a correct prefix",
      "A collection file cut at any byte, or left by a writer that died at any point, yields on reading a prefix of the documents written, unchanged and in order, and then ends or raises an error. All documents flushed before the crash or cut are "
      "in that prefix, and what was flushed is visible to other readers while the writer is still open.",
      ["crash_points", "inputs"], "every cut position (sampled, structural ones always), every point of death of the writer, every codec and block size", "No test truncates a file or kills a writer.",
      [("block layout with lengths, flush", K)], ["documents read from the remains"], "crash and truncation injection with offline prefix oracle",
      "Process death, not power loss: data handed to the operating system survives.", "fault_enumeration"),
    p("F04", "Refused documents and failing storage harm no other document",
      "When a document is refused by a writer, or the storage fails on a write or flush without storing anything of it, an error is raised, and every other document handed to the writer is still read back exactly once, unchanged and in order, once the storage recovers and "
      "the writer is closed; nothing of the refused document appears. If a write stores only a part, all documents of complete blocks remain readable. Archive writers refuse documents without harm to the others, too.",
      ["fault_sequences", "histories"], "every sequence of writes with invalid documents and storage failures at any call", "No test fails a write.",
      [("writer buffering, flush and error paths", K)], ["documents read back"], "storage fault injection with exactly-once oracle",
      "A write that fails after writing some of its bytes ends the use of the writer: the documents of complete blocks must be readable.", "fault_enumeration"),
    p("F05", "The boundary-marked stream carries any bytes unchanged",
      "Bytes written to a boundary-marked stream in any pieces are read back unchanged in any pieces, with positions that count only the payload, for every boundary size and any sequence of seeks and reads. Each marker in the file leads to the start of a record, and "
      "collections can be written to and read from such a stream.",
      ["inputs", "histories"], "every sequence of writes and splits, and of seeks and reads, at and around boundaries", "The tests cover one write and read.",
      [("boundary reader and writer", K)], ["bytes read, positions, markers"], "byte-array model and independent layout parser", "Boundaries of 2^12 to 2^30 bytes."),
    p("F06", "Tar archives return exactly the documents written, in order",
      "Documents and handles written to a tar archive are read back the same, in order and once each, in every compression mode, root directory and name pattern. The archive is an ordinary tar archive in which any tar tool finds one file per document holding its "
      "binary encoding, and archives made by other tools that way are read.",
      ["inputs", "configurations"], "every document sequence, mode, root directory and naming pattern", "The tests write one gz archive.", [("tar reader and writer", K)], ["documents and members"],
      "offline readback monitor, standard tarfile as independent reader and writer", "Naming patterns with one integer field."),
    p("F07", "An index search finds exactly the matching documents",
      "Searching an index of a collection for a conjunction of property values finds exactly the documents whose properties have these values, in file order and each once, lazily or not, and reading them gives the original documents. This holds across the files of a "
      "directory index, for any number of workers, after saving and loading the index, and from another working directory.",
      ["inputs", "configurations", "schedules"], "every collection, property values of all types (missing, None, equal numbers of different types), every conjunction, several worker processes",
      "The tests search one value of one property.", [("file index and directory index", K)], ["documents found"], "linear-scan oracle", "Indexed properties are hashable; files unchanged since indexing."),
    p("F08", "Sessions close what they opened and keep what was accepted",
      "A session (with-block, reader, writer, index build, index search) that ends normally, early or by any exception closes every file it opened, leaves files it was given to their owner as documented, never hides the exception, and everything a writer "
      "accepted is readable afterwards. Closing twice is harmless, a refused open (missing, damaged or foreign file) leaves nothing open, and a closed writer refuses documents with an error rather than losing them.",
      ["histories", "fault_sequences"], "every kind of session over every kind of file and archive, ended at any point in any way", "The tests end every session normally and never look at open files.",
      [("context managers and close of readers and writers", K), ("index build and search", K)], ["open file descriptors, resource warnings, documents read back"],
      "resource monitor (open descriptors, unclosed-file warnings) with injected exceptions", "CPython: objects dropped without a reference cycle are closed at once; what is observed is what remains open while they are alive.", "fault_enumeration"),
    p("X01", "Independent objects do not influence each other",
      "Documents, readers, writers, handles, queries and indexes that were made separately do not influence each other: whatever is done with one, in the same thread or in another, in any interleaving, the other gives the results it gives alone. That holds in "
      "particular for layers and documents made from one declaration, for documents decoded from the same bytes, and for readers of the same file.",
      ["schedules", "histories"], "every interleaving of operations on objects that share no document, in one or more threads", "The tests use one object at a time.",
      [("module and class level state, shared buffers and caches", C), ("schema and type objects", M), ("block cache", K)], ["results of each object alone and among others"],
      "alone-versus-together differential monitor under a controlled thread scheduler and free-running threads", "One object is used by one thread at a time."),
    p("D01", "Every way to reach or name a part of a document agrees",
      "A text, layer, node or field reached by any documented way (by name, get, main text, iteration, field wrapper, membership, mapping of a node) is the same object with the same value, and changes by one way are seen by all. Nodes compare and hash by identity, hold values like a "
      "mapping does, and say truthfully whether they are attached and valid; types found for values can hold these values, and value checks of a type agree with what encoding accepts.",
      ["inputs", "histories"], "every document, node, value and access path, before and after changes, removals and round trips", "The tests use one way to reach each part.",
      [("document, node and field access", M), ("data types", M)], ["results of each access path"], "access-path differential monitor with a mapping model", "Names are valid names of texts, layers and fields."),
    p("A01", "Graph traversals visit every reachable node exactly once",
      "From a start node, breadth-first search gives every reachable node once, in breadth-first order with its shortest distance, and depth-first search every reachable node once in depth-first preorder; leaf search gives exactly the reachable nodes without children. Children come from one or more reference "
      "fields, in field and list order, unset fields ignored; cycles, shared nodes and chains beyond the recursion limit are handled, and a filter only restricts what is given, not what is visited.",
      ["inputs"], "every graph of nodes", "The tests traverse a small tree.", [("bfs, dfs, dfs_leaves, children_of", A)], ["nodes and depths given"], "reference traversals as oracle", "The graph does not change meanwhile."),
    p("A02", "Grouping by span puts every node into exactly its groups",
      "Grouping nodes of any number of layers by spans puts each node into exactly the groups whose span intersects its span (or, if asked, covers it), once, for unsorted, nested, overlapping, touching, identical and empty spans. Every group appears once "
      "(also without members unless asked otherwise), and nodes or groups without a span are ignored.",
      ["inputs", "configurations"], "every set of group and node spans, every option", "The tests group one short sentence.", [("group_by_span sweep", A)], ["members of groups"], "pairwise oracle, small sets exhaustively",
      "An empty span belongs to spans that start before or at it and end after it, and to empty spans at the same place."),
    p("A03", "Resolving overlaps keeps the dominant segments",
      "Of a set of segments (or nodes with spans), the result holds no two that overlap, is in text order, contains every segment that overlaps no other, and drops a segment only for an overlapping one that is longer, or as long and further right. Order of "
      "the input does not matter, and nodes without a span are ignored.",
      ["inputs"], "every set of segments", "The tests resolve a few.", [("dominant_right", A)], ["survivors"], "laws and left-to-right reference", "Segments compete from left to right: a segment that lost to another does not return."),
    p("A04", "Span translation moves spans to their place in the original",
      "Given a mapping between pieces of an extracted text and an original text, every span of the extraction is translated to the span of the original that starts and ends at the corresponding characters, within and across pieces, for mappings in any order. "
      "Spans already translated are left alone, a span that touches an unmapped place and ambiguous mappings are refused, and mapping and source spans are not changed.",
      ["inputs"], "every mapping and every non-empty span", "The tests translate one document.", [("span_translate", A)], ["translated spans"], "character-by-character map", "Pieces are not empty and equally long on both sides."),
    p("A05", "Locating tokens gives one faithful span per token",
      "Locating a sequence of tokens in a text gives exactly one span per token, in order and without overlap, inside of the searched window, each either reading exactly like its token or empty. Tokens of a faithful tokenisation are all found at their places; a token found only "
      "beyond a following token (within the look-ahead) is skipped in favour of that one.",
      ["inputs", "configurations"], "every text, token sequence, window and look-ahead", "The tests locate one sentence.", [("sequence_to_textspans", A)], ["spans given"], "laws and step-by-step reference", "Tokens are not empty."),
    p("P01", "Printing shows everything within the limits and never fails",
      "Every document, layer, node, list, span, query, view and text can be printed in any state, including unset fields, removed targets and hostile names. A printed table shows every row (or, beyond the row limit, the first and last ones and an elision), every column in order, "
      "cells unchanged or shortened in the middle to the cell limit, and lines within the display width unless a single column needs more; options reject values below their minimum and None lifts a limit.",
      ["inputs", "configurations"], "every object state and combination of limits", "The tests print one table with the default limits.", [("text tables", P), ("representations", M)], ["printed text"], "parse-back monitor",
      "The number of columns is limited by the display width only."),
    p("P02", "HTML presentation treats all document content as text",
      "The HTML of every object is well formed and consists only of table markup: names, texts and values of a document, whatever they contain, appear as text that reads like the original (or shortened to the cell limit) and never as elements, attributes or comments. Links are made only for "
      "known resource names, and lead to the resource named.",
      ["inputs", "configurations"], "every document content, markup, quotes and entities included, and all limits", "No test looks at HTML.", [("HTML tables", P)], ["parsed HTML"], "parse-back monitor with the standard HTML parser",
      "Only markup, escaping and links are observed, not rendering."),
    p("J01", "Documents mean the same in Python and in Java",
      "A document written by one implementation is read by the other with equal properties, texts, layers, schemas, nodes, field values, references and spans over the same characters (Java counts UTF-16 units, Python code points), and also after any number of passages between them. "
      "Java encodes the documents built, decoded or partly read with it without changing them and the same every time, its lazy handles and compartments agree with full decoding, and layers read into application classes hold the same values. Data that is cut short or no document, "
      "values that Java cannot hold or that contradict the type declared for their field, and spans that split a character are refused by Java rather than read or written as something else.",
      ["inputs", "histories"], DOCS + "; both directions, several generations, construction routes, handle operations, truncations", "No test of either side reads what the other side wrote; the stable tests run no Java.",
      [("Java binary codec", J + "MsgpackCodec.java"), ("Java lazy handle", J + "MsgpackDocument.java"), ("Java document model", J + "Document.java"), ("Python binary codec", C)],
      ["images of documents in both processes"], "cross-implementation differential monitor (two processes, reference images)",
      "The Java sources are compiled from /repo with stand-ins for msgpack-core and fastutil and driven over a pipe; an empty node array equals an unset field."),
    p("J02", "Java and Python read each other's collections alike",
      "A collection written in Python is read in Java, and one written in Java in Python, with exactly the documents written, in order and in the blocks asked for, for every codec both know, plain or with boundaries, also when it is empty; what was flushed can be read already. Any mixture of reading, "
      "skipping, counting and taking blocks in Java gives each document at most once and leaves out only what was skipped; boundary streams carry the same bytes with the same markers on both sides. A collection that is cut short, fails or has another format is reported and never ends like a complete one.",
      ["inputs", "histories", "crash_points"], "every list of documents, block size, codec, boundary, history of reader operations, pieces in which bytes arrive, cut and failing position", "The Java tests write and read one short collection; no test crosses the languages.",
      [("Java writer", J + "io/DocumentStreamWriter.java"), ("Java readers", J + "io/DocumentStreamReader.java"), ("Java handle reader", J + "io/MsgpackDocumentStreamReader.java"), ("Java boundary streams", J + "io/BoundaryWriter.java"),
       ("Java boundary reader", J + "io/BoundaryReader.java"), ("Python collections", K)],
      ["documents, blocks and bytes read on the other side"], "cross-implementation log monitor with a reader model, truncation and failing storage", "A stand-in for msgpack-core is used; after a failure only reporting it is asked for."),
    p("J03", "Java layers and documents keep nodes, order and schema through any history",
      "After any history of adding, removing (one, many, all but some, all), sorting, compacting, changing and encoding, a Java layer gives the same nodes in the same order by every access path, ids that find their nodes, true sizes and membership, and the same values; nodes know the layer they are in. Layers, texts and "
      "fields are removed with what depends on them or refused, and documents made of one schema do not influence each other. What is encoded in between holds exactly the current nodes and references, and references to what is not in the document are refused.",
      ["histories"], "every history of operations on a document", "The Java tests use a few short sequences; compaction begins above 16 nodes.",
      [("Java layers", J + "Layer.java"), ("Java document", J + "Document.java"), ("Java nodes", J + "Node.java"), ("Java schema", J + "Schema.java")], ["every public view after every operation"], "model-based online monitor over random histories",
      "The list model runs in Python, the real objects in the Java process; the order of nodes, not the numbers of ids, is compared."),
    p("J04", "Concurrent readers of a Java collection get every block exactly once",
      "When several threads take blocks from one Java reader, every block of the file is given to exactly one of them, complete, unmixed and in the order of the file for each thread, whatever the interleaving, and every thread learns the end. Skipped blocks are given to nobody, others are not affected.",
      ["schedules"], "every number of threads, file and interleaving", "A test sees one schedule; none uses threads.", [("Java nextBlock", J + "io/DocumentStreamReader.java"), ("Java nextBlock of handles", J + "io/MsgpackDocumentStreamReader.java")],
      ["blocks per thread"], "exactly-once monitor over threads with injected delays", "Schedules are sampled with random delays at reads of the unpacker and between documents; distinct orders are counted."),
    p("J05", "Java grouping and overlap resolution follow their definitions",
      "Grouping by span in Java puts each node into exactly the groups whose span intersects (or covers) its span, however layers and fields are named, and leaves out groups without members unless asked for. Overlap resolution of segments, spans and node spans keeps the dominant segments from left to right, as in Python. "
      "Nodes without a span are ignored.",
      ["inputs", "configurations"], "every set of spans, option and way of naming", "The Java tests resolve a few segments.", [("Java grouping", J + "algorithms/GroupBySpan.java"), ("Java overlap resolution", J + "algorithms/DominantRight.java")], ["groups and survivors"],
      "pairwise oracle and left-to-right reference", "An empty span belongs to spans that start before or at it and end after it, and to empty spans at the same place."),
    p("J06", "Java values and spans say truthfully what they hold",
      "A Java value gives back what it was made of, converts to other kinds without changing the number or truth value or refuses, and if it is a number, truth value, string or byte string equals (with equal hash code) exactly the values of its kind with the same content. A span is the character sequence between its ends, refuses anything outside, compares by its place, and stays "
      "the same member of sets when its document is encoded. Types are equal exactly when declared alike, schemas hold what was declared in them, also after copies of them are changed, and nodes, values and spans can always be printed.",
      ["inputs", "histories"], "every value, conversion, text and span", "The Java tests look at a few values.", [("Java values", J + "values/Values.java"), ("Java spans", J + "Span.java"), ("Java texts", J + "Text.java")], ["answers of values and spans"],
      "conversion and character-sequence oracle", "Conversions that lose information and spans that only touch are not judged."),
    p("J07", "Hadoop jobs carry documents through records and files unchanged",
      "Documents that the tasks of a job write, from any number of threads and in every form a record can have, are in exactly one output file each, once and whole, and these files are read by Python and by Java; the input format gives every document of every file exactly once and in order, whatever the block sizes "
      "of the file system, with progress that grows within 0 and 1, and closes what it opened. A record holds the document last set or read, with the changes made to it since, through being written, read, reused and serialized. A file that is cut short, fails or has another format is reported and never ends like a complete one.",
      ["inputs", "histories", "schedules", "crash_points"], "every list of documents, task layout, number of threads, file system block size, history of a record, cut and failing position", "The one Spark test is not part of the stable tests and uses one file.",
      [("input format", H + "DocriaInputFormat.java"), ("output format", H + "DocriaOutputFormat.java"), ("writer", H + "DocriaWriter.java"), ("record", H + "DocumentWritable.java")],
      ["records and files of a job, documents read by both sides"], "job log monitor (exactly once, order, progress, closed files) with a record model and failing storage",
      "hadoop-client is replaced by a stand-in with an in-memory file system that splits splittable files at its blocks."),
]

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in PROPS:
        assert len(x["title"]) <= 80, x["id"]
        assert x["statement"].count(". ") <= 2, (x["id"], x["statement"].count(". "))
        f.write(json.dumps({
            "id": x["id"], "title": x["title"], "statement": x["statement"],
            "quantifier": {"over": x["over"], "text": x["quant"]},
            "why_tests_cant": x["why"],
            "anchors": {"files": sorted({m[1] for m in x["mech"]}), "mechanism": [{"name": a, "where": b} for a, b in x["mech"]], "observe_at": x["observe"],
                        "hook_needed": None}}) + "\n")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -B -c \"import sys; sys.path.insert(0, '/repo/py'); import docria, docria.collection\"",
        "checks": [{"property": x["id"], "quick_cmd": "/opt/venv/bin/python -B check.py " + x["id"],
                    "thorough_cmd": "/opt/venv/bin/python -B check.py %s --tier thorough" % x["id"],
                    "technique": "runtime monitoring: " + x["technique"], "level": x["level"], "level_note": x["note"]} for x in PROPS],
        "not_applicable": [],
        "notes": "The Python code is imported from /repo/py directly; J01-J07 compile the Java sources of /repo with javac into a scratch folder at each run. No hooks: the monitors observe the public interface. "
                 "known_findings.json lists the defects found; all were repaired by fix: commits."}, f, indent=1)
    f.write("\n")
