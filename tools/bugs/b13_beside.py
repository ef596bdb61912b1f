"""Java: work side by side, phrases, and layers compacted late."""
import os
import runpy

HERE = os.path.dirname(os.path.abspath(__file__))
B = runpy.run_path(os.path.join(HERE, "b6_hadoop.py"))["B"]

# many rounds on several threads, each with documents of its own; what is made is compared with what is made alone
ROUNDS = '''
    static void beside(Callable<byte[]> make0, Callable<byte[]> make1) throws Throwable {
        List<Callable<byte[]>> makers = Arrays.asList(make0, make1);
        List<byte[]> alone = new ArrayList<>();
        for(Callable<byte[]> m : makers) alone.add(m.call());
        ExecutorService pool = Executors.newFixedThreadPool(4, r -> { Thread t = new Thread(r); t.setDaemon(true); return t; });
        List<Future<Boolean>> all = new ArrayList<>();
        for(int t = 0; t < 4; t++) {
            final int k = t % 2;
            all.add(pool.submit(() -> {
                for(int i = 0; i < 300; i++)
                    if(!Arrays.equals(makers.get(k).call(), alone.get(k))) return false;
                return true;
            }));
        }
        for(Future<Boolean> f : all) check(f.get(), "a thread got something else");
    }
'''

BUGS = [
    B("java-shared-deflater", "J02", [
        ("io/DeflateCodec.java", "        Deflater deflater = new Deflater(Deflater.BEST_COMPRESSION);\n", "        Deflater deflater = DEFLATER;\n        deflater.reset();\n"),
        ("io/DeflateCodec.java", "        deflater.end();\n", ""),
        ("io/DeflateCodec.java", "    public static byte[] decompress(", "    // creating a compressor is expensive\n    private static final Deflater DEFLATER = new Deflater(Deflater.BEST_COMPRESSION);\n\n    public static byte[] decompress(")],
      ROUNDS + '''
    static void run() throws Throwable {
        beside(() -> collection(6, 2, DocumentStreamWriter.Codec.DEFLATE), () -> collection(5, 3, DocumentStreamWriter.Codec.DEFLATE));
    }''', "writers in several threads that compress blocks at the same time", "blocks are mixed up or damaged"),

    B("java-shared-prop-buffer", "J01", [
        ("MsgpackCodec.java", "        MessageBufferPacker propPacker = MessagePack.newDefaultBufferPacker();\n", "        MessageBufferPacker propPacker = PROPERTIES;\n        propPacker.clear();\n"),
        ("MsgpackCodec.java", "    private static void encodeProperties(", "    private static final MessageBufferPacker PROPERTIES = MessagePack.newDefaultBufferPacker();\n\n    private static void encodeProperties(")],
      ROUNDS + '''
    static byte[] many(int n) throws Exception {
        Document d = doc(n);
        for(int k = 0; k < n; k++) d.props().put("p" + k, Values.get("value " + k));
        return MsgpackCodec.encode(d).toByteArray();
    }

    static void run() throws Throwable {
        beside(() -> many(200), () -> many(131));
    }''', "documents encoded in several threads at the same time", "properties of another document, or a damaged document"),

    B("java-phrase-joined", "J06", [
        ("NodeSpan.java", "            return startSpan.source().subSequence(start, stop).toString();", '''            StringBuilder sb = new StringBuilder();
            int end = start;
            for (Node node : this) {
                if(node.has("text")) {
                    Span span = node.get("text").spanValue();
                    if(span.start() > end)
                        sb.append(' ');
                    sb.append(span);
                    end = span.stop();
                }
            }
            return sb.toString();''')], '''
    static void run() throws Throwable {
        Document d = new Document();
        Text text = d.add(new Text("main", "one, two"));
        Layer l = d.add(Layer.builder("token").addField("text", DataTypes.span("main")).build());
        Node a = Node.builder(l).put("text", text.span(0, 3)).build(), b = Node.builder(l).put("text", text.span(5, 8)).build();
        l.add(a);
        l.add(b);
        check(new NodeSpan(a, b).stringValue().equals("one, two"), new NodeSpan(a, b).stringValue());
    }''', "a node span over tokens with more than one blank between them", "its text is not that of the document"),

    B("java-small-layers-not-compacted", "J03", [
        ("Document.java", "        layerStream().forEach(Layer::compact);", "        // small layers are not worth it\n        layerStream().filter(layer -> layer.size() > 16).forEach(Layer::compact);")], '''
    static void run() throws Throwable {
        Document d = new Document();
        Layer l = d.add(Layer.builder("l").addField("k", DataTypes.INT_32).addField("r", DataTypes.noderef("l")).build());
        List<Node> nodes = new ArrayList<>();
        for(int k = 0; k < 4; k++) {
            nodes.add(Node.builder(l).put("k", k).build());
            l.add(nodes.get(k));
        }
        nodes.get(1).put("r", nodes.get(2));
        l.remove(nodes.get(0));
        Node n = MsgpackCodec.decode(MsgpackCodec.encode(d).toByteArray()).layer("l").first().get();
        check(n.get("r").nodeValue().getInt("k") == 2, "reference to another node");
    }''', "a small layer with a removed node before one that is referred to", "references lead to other nodes"),
]
