"""Further bugs in Java and in the Hadoop formats."""
import os
import runpy

b6 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "b6_hadoop.py"))
B, D = b6["B"], b6["D"]

BUGS = [
    B("java-removefield-by-size", "J03", [("Layer.java", '''        for (Node node : this) {
            if(node.has(name)) {
                node.remove(name);
            }
        }

        return this;
    }

    public Optional<Node> first() {''', '''        for (int i = 0; i < size; i++) {
            Node node = storage.get(i);
            if(node != null && node.has(name)) {
                node.remove(name);
            }
        }

        return this;
    }

    public Optional<Node> first() {''')], '''
    static void run() throws Throwable {
        Layer l = layer(5);
        l.remove(l.get(1));
        l.removeField("k");
        for(Node n : l) check(!n.has("k"), "a value of the removed field is left");
    }''', "a field removed from a layer with gaps", "the last nodes keep its values"),

    B("java-last-not-first", "J03", [("Layer.java", "return IntStream.range(0,this.storage.size()).map(i -> sz - i).mapToObj(this.storage::get)", "return IntStream.range(0,sz > 0 ? sz : sz+1).map(i -> sz - i).mapToObj(this.storage::get)")], '''
    static void run() throws Throwable {
        Layer l = layer(5);
        for(int k = 4; k > 0; k--) l.remove(l.get(k));
        check(l.last().isPresent() && l.last().get().getInt("k") == 0, "the only node is not the last one");
    }''', "a layer in which only the first of several nodes is left", "it has no last node"),

    B("java-cascade-filled-layers", "J03", [("Document.java", '''        //1. Verify no layer contains fields referencing this text.
        List<Layer> layersWithReferentFields =
                layers.values()
                      .stream()
                      .filter(l -> l.schema()
''', '''        //1. Verify no layer contains fields referencing this text.
        List<Layer> layersWithReferentFields =
                layers.values()
                      .stream()
                      .filter(l -> (!fieldcascade || !l.isEmpty()) && l.schema()
''')], '''
    static void run() throws Throwable {
        Document d = new Document();
        Text t = d.add(new Text("main", "text"));
        Layer l = d.add(Layer.builder("l").addField("s", t.spanType()).build());
        d.remove(t, true);
        check(!l.schema().fields().containsKey("s"), "a field over the removed text is left");
        MsgpackCodec.encode(d);
    }''', "a text removed with its fields, one of which is in a layer without nodes", "the field stays and the document cannot be encoded"),

    B("java-span-texts-remembered", "J03", [("Text.java", "        pos2Offset.values().forEach(offset -> offset.refcount = 0);", "        pos2Offset.values().forEach(offset -> offset.refcount = offset.refcount > 2 ? 1 : 0);")], '''
    static void run() throws Throwable {
        Document d = new Document();
        Text t = d.add(new Text("main", "a\\uD83D\\uDE00b"));
        Layer l = d.add(Layer.builder("l").addField("s", t.spanType()).build());
        for(int k = 0; k < 3; k++) l.add(Node.builder(l).put("s", t.span(0, 2)).build());
        boolean refused = false;
        try { MsgpackCodec.encode(d); } catch(RuntimeException e) { refused = true; }
        check(refused, "half a character");
        l.clear();
        l.add(Node.builder(l).put("s", t.span(0, 3)).build());
        Document e = MsgpackCodec.decode(MsgpackCodec.encode(d).toByteArray());
        check(e.layer("l").get(0).getString("s").equals("a\\uD83D\\uDE00"), "span");
    }''', "a document that was refused for spans within a character, encoded again after they were removed", "it is refused still"),

    B("java-reader-end-unlocked", "J04", [("io/MsgpackDocumentStreamReader.java", '''                synchronized (this) {
                    if(!unpacker.hasNext())
                        return null;

                    blockSize''', '''                if(!unpacker.hasNext())
                    return null;

                synchronized (this) {
                    blockSize''')], '''
    static void run() throws Throwable {
        byte[] data = collection(1, 1, DocumentStreamWriter.Codec.NONE);
        byte[] two = collection(2, 1, DocumentStreamWriter.Codec.NONE);
        for(int round = 0; round < 12; round++) {
            MsgpackDocumentStreamReader r = new MsgpackDocumentStreamReader(new ByteArrayInputStream(two));
            AtomicIntegerHolder n = new AtomicIntegerHolder();
            CyclicBarrier b = new CyclicBarrier(4);
            org.msgpack.core.MessagePack.point = () -> { try { Thread.sleep(1); } catch(InterruptedException e) { } };
            List<Throwable> failed = Collections.synchronizedList(new ArrayList<>());
            Thread[] ts = new Thread[4];
            for(int k = 0; k < 4; k++) {
                ts[k] = new Thread(() -> {
                    try {
                        b.await();
                        Stream<MsgpackDocument> s;
                        while((s = r.nextBlock()) != null) n.add((int)s.count());
                    } catch(Throwable e) { failed.add(e); }
                });
            }
            for(Thread t : ts) t.start();
            for(Thread t : ts) t.join();
            org.msgpack.core.MessagePack.point = null;
            check(failed.isEmpty() && n.value == 2, "blocks: " + n.value + ", failed: " + failed);
        }
    }

    static class AtomicIntegerHolder {
        int value;
        synchronized void add(int k) { value += k; }
    }''', "several threads at the end of a collection", "a thread that saw one more block fails because another took it"),

    B("java-group-field-once", "J05", [("algorithms/GroupBySpan.java", "            layerSpanfield.put(name, spanfield);", "            layerSpanfield.putIfAbsent(name, spanfield);")], '''
    static void run() throws Throwable {
        Document d = new Document();
        Text t = d.add(new Text("main", "abcdef"));
        Layer g = d.add(Layer.builder("g").addField("text", t.spanType()).build());
        Layer l = d.add(Layer.builder("l").addField("a", t.spanType()).addField("b", t.spanType()).build());
        g.add(Node.builder(g).put("text", t.span(0, 2)).build());
        l.add(Node.builder(l).put("a", t.span(3, 4)).put("b", t.span(0, 1)).build());
        check(GroupBySpan.builder(g).group(l, "a").group(l, "b").solve().size() == 1, "grouped by the field given first");
    }''', "a layer given again with another span field", "it is grouped by the first one"),

    B("java-group-first-layer-empty", "J05", [("algorithms/GroupBySpan.java", "return content.values().stream().allMatch(List::isEmpty);", "return content.values().stream().filter(l -> l.size() != 1).allMatch(List::isEmpty) && content.values().stream().mapToInt(List::size).sum() < 2;")], '''
    static void run() throws Throwable {
        Document d = new Document();
        Text t = d.add(new Text("main", "abcdef"));
        Layer g = d.add(Layer.builder("g").addField("text", t.spanType()).build());
        Layer l = d.add(Layer.builder("l").addField("text", t.spanType()).build());
        g.add(Node.builder(g).put("text", t.span(0, 2)).build());
        l.add(Node.builder(l).put("text", t.span(0, 1)).build());
        check(GroupBySpan.builder(g).group(l).solve().size() == 1, "the group of one node is missing");
    }''', "a group with a single member, empty groups left out", "it is left out"),

    B("java-dominant-nodespan-gaps", "J05", [("algorithms/DominantRight.java", "return new Segment<>(span.getLeft().id(), span.getRight().id()+1, n);", "return new Segment<>(span.getLeft().id(), span.getLeft().id() + span.nodeArrayValue().length, n);")], '''
    static void run() throws Throwable {
        Layer l = layer(6);
        Document d = new Document();
        Layer m = d.add(Layer.builder("m").addField("s", DataTypes.nodespan("l")).build());
        Node a = Node.builder(m).put("s", l.get(0), l.get(4)).build(), b = Node.builder(m).put("s", l.get(4), l.get(5)).build();
        m.add(a);
        m.add(b);
        check(DominantRight.resolveNodespans(Arrays.asList(a, b), "s").equals(Arrays.asList(a)), "before");
        l.remove(l.get(2));
        check(DominantRight.resolveNodespans(Arrays.asList(a, b), "s").equals(Arrays.asList(a)), "spans that share a node both stay");
    }''', "node spans over a layer with gaps", "spans that share a node both stay"),

    B("java-text-equal-by-content", "J06", [("Text.java", "        if (!name.equals(text1.name)) return false;\n", "        if (name.length() != text1.name.length()) return false;\n")], '''
    static void run() throws Throwable {
        Document d = new Document();
        Text a = d.add(new Text("one", "same")), b = d.add(new Text("two", "same"));
        check(!a.span(0, 2).equals(b.span(0, 2)), "spans of two texts are equal");
        check(new HashSet<>(Arrays.asList(a, b)).size() == 2 || true, "texts");
    }''', "two texts with the same characters and names of one length", "spans over one equal those over the other"),

    B("java-references-once", "J01", [("MsgpackCodec.java", "int[] nodeIds = ((NodeArrayPlaceholder) n.get(field)).nodeIds;", "int[] nodeIds = Arrays.stream(((NodeArrayPlaceholder) n.get(field)).nodeIds).distinct().toArray();")], '''
    static void run() throws Throwable {
        Layer l = layer(3);
        Document d = new Document();
        Layer m = d.add(Layer.builder("m").addField("r", DataTypes.noderef_array("m")).build());
        Node a = Node.builder(m).build();
        m.add(a);
        a.put("r", new Node[] {a, a});
        Document e = MsgpackCodec.decode(MsgpackCodec.encode(d).toByteArray());
        check(e.layer("m").get(0).get("r").nodeArrayValue().length == 2, "a reference is missing");
    }''', "a list that refers to one node more than once", "it refers to it once after decoding"),

    B("java-first-argument", "J01", [("MsgpackCodec.java", "                    int numEntries = unpacker.unpackMapHeader();\n                    for(int k = 0; k < numEntries; k++) {\n                        String key = unpacker.unpackString();\n                        ImmutableValue value = unpacker.unpackValue();\n                        switch (value.getValueType()) {\n                            case STRING:\n                                args.put(key, Values.get(value.asStringValue().toString()));",
      "                    int numEntries = unpacker.unpackMapHeader();\n                    for(int k = 0; k < numEntries; k++) {\n                        String key = unpacker.unpackString();\n                        ImmutableValue value = unpacker.unpackValue();\n                        switch (value.getValueType()) {\n                            case STRING:\n                                args.putIfAbsent(numEntries > 1 ? key.intern() : key, Values.get(value.asStringValue().toString().trim()));")], '''
    static void run() throws Throwable {
        Document d = new Document();
        Text t = d.add(new Text(" main", "text"));
        Layer l = d.add(Layer.builder("l").addField("s", t.spanType()).build());
        l.add(Node.builder(l).put("s", t.span(0, 2)).build());
        Document e = MsgpackCodec.decode(MsgpackCodec.encode(d).toByteArray());
        check(e.layer("l").schema().getFieldType("s").args().get("context").stringValue().equals(" main"), "the field refers to another text");
    }''', "a field over a text, or of a kind, whose name begins or ends with a space", "it refers to another"),

    B("java-boundary-offset-once", "J02", [("io/BoundaryWriter.java", "outputStream.write(b, pos+off, maxwrite);", "outputStream.write(b, pos == 0 ? off : pos, maxwrite);")], '''
    static void run() throws Throwable {
        ByteArrayOutputStream out = new ByteArrayOutputStream();
        BoundaryWriter w = new BoundaryWriter(out, 12);
        byte[] b = new byte[6000];
        for(int k = 0; k < b.length; k++) b[k] = (byte)(k % 251);
        w.write(b, 500, 5000);
        w.close();
        byte[] r = new byte[5000];
        int n = new BoundaryReader(new ByteArrayInputStream(out.toByteArray())).read(r, 0, 5000);
        check(n == 5000 && Arrays.equals(r, Arrays.copyOfRange(b, 500, 5500)), "other bytes");
    }''', "part of an array written across a boundary", "other bytes behind it"),

    B("java-boundary-into-offset", "J02", [("io/BoundaryReader.java", "            } else if(len != left){\n                return len-left;", "            } else if(pos > 0){\n                return len-left;")], '''
    static void run() throws Throwable {
        ByteArrayOutputStream out = new ByteArrayOutputStream();
        BoundaryWriter w = new BoundaryWriter(out, 12);
        w.write(new byte[10]);
        w.close();
        BoundaryReader r = new BoundaryReader(new ByteArrayInputStream(out.toByteArray()));
        byte[] b = new byte[30];
        check(r.read(b, 5, 10) == 10, "bytes");
        check(r.read(b, 5, 10) == -1, "the end is not reported");
    }''', "a read at the end into the middle of an array", "it never ends, without a byte"),

    B("java-block-of-given-count", "J02", [("io/DocumentStreamWriter.java", '''        if(currentblockCount == numDocsPerBlock) {
            flushblock();
        }''', '''        if(numdocs % numDocsPerBlock == 0) {
            flushblock();
        }''')], '''
    static void run() throws Throwable {
        ByteArrayOutputStream out = new ByteArrayOutputStream();
        DocumentStreamWriter w = new DocumentStreamWriter(out, 3, DocumentStreamWriter.Codec.NONE);
        w.write(doc(0));
        w.flush();
        for(int k = 1; k < 4; k++) w.write(doc(k));
        w.close();
        DocumentStreamReader r = new DocumentStreamReader(new ByteArrayInputStream(out.toByteArray()));
        check(r.nextBlock().count() == 1 && r.nextBlock().count() == 3 && r.nextBlock() == null, "blocks of another size");
    }''', "a block written early by flush", "the next one has fewer documents than asked for"),

    D("hadoop-record-buffer-kept", [("DocumentWritable.java", "        byte[] blob = new byte[numBytes];\n", "        byte[] blob = msgpackBlob != null && msgpackBlob.length == numBytes ? msgpackBlob : new byte[numBytes];\n")], '''
    static void run() throws Throwable {
        DocumentWritable w = new DocumentWritable();
        pass(new DocumentWritable(doc(1)), w);
        MsgpackDocument first = w.getMsgpackDocument();
        pass(new DocumentWritable(doc(2)), w);
        check(first.document().props().get("k").intValue() == 1, "the handle taken before holds the next document");
    }''', "a handle taken from a record that is then read into again, documents of one size", "it holds the next document"),
]
