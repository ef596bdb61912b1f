"""Bugs in the Java implementation. The demonstrations carry stand-ins of msgpack-core and fastutil (a copy of java/stubs) beside them."""
J = "../../java/core/src/main/java/se/lth/cs/docria/"

HEAD = '''
import se.lth.cs.docria.*;
import se.lth.cs.docria.io.*;
import se.lth.cs.docria.values.*;
import se.lth.cs.docria.algorithms.*;
import java.io.*;
import java.nio.file.*;
import java.util.*;
import java.util.concurrent.*;
import java.util.function.*;
import java.util.stream.*;

public class Demo {
    static void check(boolean b, String what) {
        if(!b) throw new AssertionError(what);
    }

    static String[] argv;

    public static void main(String[] args) throws Throwable {
        argv = args;
        run();
        System.out.println("ok");
        System.exit(0);
    }

    static Document doc(int k) {
        Document d = new Document();
        d.props().put("k", Values.get(k));
        return d;
    }

    static byte[] collection(int n, int perBlock, DocumentStreamWriter.Codec codec) throws Exception {
        ByteArrayOutputStream out = new ByteArrayOutputStream();
        DocumentStreamWriter w = new DocumentStreamWriter(out, perBlock, codec);
        Random r = new Random(5);
        for(int k = 0; k < n; k++) {
            Document d = doc(k);
            byte[] pad = new byte[2000];
            r.nextBytes(pad);
            for(int i = 0; i < pad.length; i++) pad[i] &= 7;
            d.props().put("pad", Values.get(pad));
            w.write(d);
        }
        w.close();
        return out.toByteArray();
    }

    static Layer layer(int n) {
        Document d = new Document();
        Layer l = d.add(Layer.builder("l").addField("k", DataTypes.INT_32).build());
        for(int k = 0; k < n; k++) l.add(Node.builder(l).put("k", k).build());
        return l;
    }

    static List<Integer> ks(Iterable<Node> l) {
        List<Integer> out = new ArrayList<>();
        for(Node n : l) out.add(n.getInt("k"));
        return out;
    }
'''


def B(id, prop, edits, body, needs, breaks, prep=None):
    return {"id": id, "property": prop, "edits": [(J + f, a, b) for f, a, b in edits], "java": HEAD + body + "\n}\n", "prep": prep, "needs": needs, "breaks": breaks}


BUGS = [
    B("java-skipblock-race", "J04",
      [("io/MsgpackDocumentStreamReader.java", '''    public boolean skipBlock() {
        synchronized (this) {
            try {
                if(unpacker.hasNext()) {
                    unpacker.skipValue();
                    return true;
                } else {
                    return false;
                }
            } catch (IOException e) {
                throw new IOError(e);
            }
        }
    }''', '''    public boolean skipBlock() {
        try {
            if(unpacker.hasNext()) {
                unpacker.skipValue();
                return true;
            } else {
                return false;
            }
        } catch (IOException e) {
            throw new IOError(e);
        }
    }''')], '''
    static void run() throws Throwable {
        byte[] data = collection(24, 2, DocumentStreamWriter.Codec.NONE);
        for(int round = 0; round < 4; round++) {
            InputStream slow = new InputStream() {
                int pos = 0;
                @Override public int read() { return pos < data.length ? data[pos++] & 255 : -1; }
                @Override public int read(byte[] b, int off, int len) {
                    if(pos >= data.length) return -1;
                    try { Thread.sleep(1); } catch(InterruptedException e) { throw new RuntimeException(e); }
                    int n = Math.min(Math.min(len, 900), data.length - pos);
                    System.arraycopy(data, pos, b, off, n);
                    pos += n;
                    return n;
                }
            };
            MsgpackDocumentStreamReader r = new MsgpackDocumentStreamReader(slow);
            List<Throwable> failed = Collections.synchronizedList(new ArrayList<>());
            Set<Integer> seen = ConcurrentHashMap.newKeySet();
            int[] skipped = new int[1];
            Thread a = new Thread(() -> {
                try {
                    for(;;) {
                        Stream<MsgpackDocument> s = r.nextBlock();
                        if(s == null) break;
                        s.forEach(d -> check(seen.add(d.properties().get("k").intValue()), "twice"));
                    }
                } catch(Throwable t) { failed.add(t); }
            });
            Thread b = new Thread(() -> {
                try {
                    for(int k = 0; k < 4; k++) { if(r.skipBlock()) skipped[0]++; Thread.sleep(2); }
                } catch(Throwable t) { failed.add(t); }
            });
            a.start(); b.start(); a.join(); b.join();
            check(failed.isEmpty(), "failed: " + failed);
            check(seen.size() + 2 * skipped[0] == 24, "lost: " + seen.size() + " " + skipped[0]);
        }
    }''', "a thread skips a block while another one reads a block", "both read from the same stream; blocks are torn apart"),

    B("java-shared-inflater", "J04",
      [("io/DeflateCodec.java", '''            Inflater inflater = new Inflater();
            inflater.setInput(data);
''', '''            // The native state is expensive to allocate
            Inflater inflater = INFLATER;
            inflater.reset();
            inflater.setInput(data);
'''), ("io/DeflateCodec.java", '''            inflater.end();

''', ''), ("io/DeflateCodec.java", "public class DeflateCodec {\n", "public class DeflateCodec {\n    private static final Inflater INFLATER = new Inflater();\n\n")], '''
    static void run() throws Throwable {
        byte[] data = collection(400, 10, DocumentStreamWriter.Codec.DEFLATE);
        for(int round = 0; round < 20; round++) {
            DocumentStreamReader r = new DocumentStreamReader(new ByteArrayInputStream(data));
            Set<Integer> seen = ConcurrentHashMap.newKeySet();
            List<Throwable> failed = Collections.synchronizedList(new ArrayList<>());
            Thread[] ts = new Thread[6];
            for(int i = 0; i < ts.length; i++) {
                ts[i] = new Thread(() -> {
                    try {
                        for(;;) {
                            Stream<Document> s = r.nextBlock();
                            if(s == null) break;
                            s.forEach(d -> check(seen.add(d.props().get("k").intValue()), "twice"));
                        }
                    } catch(Throwable t) { failed.add(t); }
                });
                ts[i].start();
            }
            for(Thread t : ts) { t.join(20000); check(!t.isAlive(), "hangs"); }
            check(failed.isEmpty(), "failed: " + failed);
            check(seen.size() == 400, "lost " + seen.size());
        }
    }''', "two threads decompress at the same time", "the threads use one inflater"),

    B("java-compact-no-gaps", "J03",
      [("Layer.java", '''    public void compact() {
        int i = 0;
''', '''    public void compact() {
        if(this.size == storage.size())
            return; // there are no gaps

        int i = 0;
'''), ("Layer.java", '''        // Shrink to size
''', '''        // Shrink
''')], '''
    static void run() throws Throwable {
        Layer l = layer(5);
        l.sort(Comparator.comparing(n -> -n.getInt("k")));
        for(Node n : l) check(l.get(n.id()) == n, "id " + n.id());
    }''', "sorting a layer without removed nodes, then using the ids", "nodes keep the ids they had before they were sorted"),

    B("java-removeall-short-circuit", "J03",
      [("Layer.java", "            ops |= this.remove(o);\n", "            ops = ops || this.remove(o);\n")], '''
    static void run() throws Throwable {
        Layer l = layer(5);
        Node a = l.get(1), b = l.get(3);
        check(l.removeAll(Arrays.asList(a, b)), "nothing removed");
        check(ks(l).equals(Arrays.asList(0, 2, 4)), "left: " + ks(l));
    }''', "removing a collection of two or more nodes", "only the first of them is removed"),

    B("java-nodespan-foreach-gaps", "J03",
      [("Layer.java", "        IntStream.range(left.id, right.id+1).mapToObj(this.storage::get).filter(Objects::nonNull).forEach(consumer);", 
        "        for (int i = left.id; i <= right.id; i++)\n            consumer.accept(this.storage.get(i));")], '''
    static void run() throws Throwable {
        Layer l = layer(5);
        NodeSpan s = new NodeSpan(l.get(0), l.get(4));
        l.remove(l.get(2));
        List<Integer> out = new ArrayList<>();
        s.forEach(n -> { check(n != null, "null in a node span"); out.add(n.getInt("k")); });
        check(out.equals(Arrays.asList(0, 1, 3, 4)), "" + out);
    }''', "forEach of a node span after a node in it was removed from a small layer", "the consumer gets null"),

    B("java-cascade-one-field", "J03",
      [("Document.java", '''                fields.forEach(layersWithReferentField::removeField);
            }
        }

        texts.remove(text.name());''', '''                fields.stream().findAny().ifPresent(layersWithReferentField::removeField);
            }
        }

        texts.remove(text.name());''')], '''
    static void run() throws Throwable {
        Document d = new Document();
        Text t = d.add(new Text("abc"));
        Layer l = d.add(Layer.builder("l").addField("a", DataTypes.span("main")).addField("b", DataTypes.span("main")).build());
        Node n = Node.builder(l).put("a", t.span(0, 1)).put("b", t.span(1, 2)).build();
        l.add(n);
        d.remove(t, true);
        check(l.schema().fields().isEmpty(), "fields left: " + l.schema().fields().keySet());
        MsgpackCodec.decode(MsgpackCodec.encode(d).toByteArray());
    }''', "removing a text that two fields of one layer refer to, with cascade", "the second field stays and the document can no longer be encoded"),

    B("java-nodespan-absolute", "J01",
      [("MsgpackCodec.java", "                packer.packInt(right-left);\n", "                packer.packInt(right);\n"),
       ("MsgpackCodec.java", "                            int right = unpacker.unpackInt()+left;\n", "                            int right = unpacker.unpackInt();\n")], '''
    static void run() throws Throwable {
        Document d = MsgpackCodec.decode(Files.readAllBytes(Paths.get(argv[0], "doc")));
        List<Integer> ids = new ArrayList<>();
        for(Node n : d.layer("m").first().get().get("s").nodeSpanValue()) ids.add(n.getInt("k"));
        check(ids.equals(Arrays.asList(2, 3)), "" + ids);
    }''', "a node span that does not begin at the first node, read by the other implementation", "Java writes and reads the end of a node span as an absolute position; alone it does so consistently",
      prep='''
import sys, os
from docria import *
from docria.codec import MsgpackCodec
from docria.model import NodeSpan
d = Document()
l = d.add_layer("l", k=T.int32())
ns = [l.add(k=i) for i in range(5)]
m = d.add_layer("m", s=T.nodespan("l"))
m.add(s=NodeSpan(ns[2], ns[3]))
open(os.path.join(sys.argv[1], "doc"), "wb").write(MsgpackCodec.encode(d))
'''),

    B("java-codepoint-offsets", "J01",
      [("MsgpackCodec.java", "                offset = sb.length();\n", "                offset += part.codePointCount(0, part.length());\n")], '''
    static void run() throws Throwable {
        Document d = new Document();
        Text t = d.add(new Text("a\\ud83d\\ude00bc"));
        Layer l = d.add(Layer.builder("l").addField("text", DataTypes.span("main")).build());
        l.add(Node.builder(l).put("text", t.span(3, 4)).build());
        Document e = MsgpackCodec.decode(MsgpackCodec.encode(d).toByteArray());
        check(e.layer("l").first().get().getString("text").equals("b"), e.layer("l").first().get().getString("text"));
    }''', "a character outside of the BMP before a span", "offsets of decoded texts count characters, those of Java strings UTF-16 units"),

    B("java-nested-document-stale", "J01",
      [("values/DocumentValue.java", "            binaryDocument = null;\n", "")], '''
    static void run() throws Throwable {
        Document outer = new Document();
        outer.props().put("d", new DocumentValue(doc(1)));
        Document e = MsgpackCodec.decode(MsgpackCodec.encode(outer).toByteArray());
        ((DocumentValue)e.props().get("d")).documentValue().props().put("k", Values.get(2));
        Document f = MsgpackCodec.decode(MsgpackCodec.encode(e).toByteArray());
        check(((DocumentValue)f.props().get("d")).documentValue().props().get("k").intValue() == 2, "the change is lost");
    }''', "changing a document inside of a decoded document, then encoding", "the bytes it was decoded from are written again"),

    B("java-split-after-block", "J02",
      [("io/DocumentStreamBoundaryWriter.java", '''        ((BoundaryWriter)outputStream).split();
        super.flushblock();
''', '''        super.flushblock();
        ((BoundaryWriter)outputStream).split();
''')], '''
    static void run() throws Throwable {
        ByteArrayOutputStream out = new ByteArrayOutputStream();
        DocumentStreamBoundaryWriter w = new DocumentStreamBoundaryWriter(12, out, 1, DocumentStreamWriter.Codec.NONE);
        for(int k = 0; k < 3; k++) {
            Document d = doc(k);
            d.props().put("pad", Values.get(new byte[6000]));
            w.write(d);
        }
        w.close();
        // The first boundary lies in the first block, which begins right behind the header: Dmf1 a4 none 01 c2
        java.nio.ByteBuffer b = java.nio.ByteBuffer.wrap(out.toByteArray());
        check(4096 + b.getInt(4096) == 1 + 4 + 5 + 1 + 1, "marker: " + b.getInt(4096));
    }''', "a boundary within the first block", "the first marker does not point to the block it lies in"),

    B("java-boundary-read-assumed", "J02",
      [("io/BoundaryReader.java", '''                pos += read;
                this.read += read;
''', '''                pos += read;
                this.read += maxread;
''')], '''
    static void run() throws Throwable {
        byte[] data = new byte[9000];
        for(int i = 0; i < data.length; i++) data[i] = (byte)(i * 7 + i / 256);
        ByteArrayOutputStream out = new ByteArrayOutputStream();
        BoundaryWriter w = new BoundaryWriter(out, 12);
        w.write(data);
        w.close();
        BoundaryReader r = new BoundaryReader(new FilterInputStream(new ByteArrayInputStream(out.toByteArray())) {
            @Override public int read(byte[] b, int off, int len) throws IOException { return super.read(b, off, Math.min(len, 700)); }
        });
        byte[] b = new byte[9000];
        int n = 0;
        while(n < b.length) { int k = r.read(b, n, b.length - n); check(k > 0, "end"); n += k; }
        check(Arrays.equals(b, data), "other bytes");
    }''', "an underlying stream that gives less than asked for", "the reader loses track of the boundaries"),

    B("java-skip-keeps-finished-block", "J02",
      [("io/DocumentStreamReader.java", '''            block.skipValue();
            if(!block.hasNext())
                block = null;

            return true;
''', '''            block.skipValue();
            return true;
''')], '''
    static void run() throws Throwable {
        DocumentStreamReader r = new DocumentStreamReader(new ByteArrayInputStream(collection(6, 3, DocumentStreamWriter.Codec.DEFLATE)));
        check(r.skip() && r.skip() && r.skip(), "skip");
        Document d = r.next();
        check(d != null && d.props().get("k").intValue() == 3, "next after skipping a whole block");
    }''', "skipping up to the end of a block, then reading on", "the reader reads on in the block that has ended"),

    B("java-cover-start", "J05",
      [("algorithms/GroupBySpan.java", '''                                    if(span.start() >= parentSpan.start() && span.stop() <= parentSpan.stop()) {
                                        nodes.add(node);''', '''                                    // all of these are open where the group starts
                                    if(span.stop() <= parentSpan.stop()) {
                                        nodes.add(node);''')], '''
    static void run() throws Throwable {
        Document d = new Document();
        Text t = d.add(new Text("abcdefghij"));
        Layer g = d.add(Layer.builder("g").addField("text", DataTypes.span("main")).build());
        Layer l = d.add(Layer.builder("l").addField("text", DataTypes.span("main")).build());
        g.add(Node.builder(g).put("text", t.span(2, 6)).build());
        l.add(Node.builder(l).put("text", t.span(1, 4)).build());
        l.add(Node.builder(l).put("text", t.span(2, 4)).build());
        List<GroupBySpan.Group> out = GroupBySpan.builder(g).group(l).resolution(GroupBySpan.Resolution.COVER).solve();
        check(out.size() == 1, "" + out.size());
        check(out.get(0).content.get("l").size() == 1, "members " + out.get(0).content.get("l"));
    }''', "cover resolution and a node that begins before the group and ends in it", "the node is in the group though it is not covered"),

    B("java-dominant-tie", "J05",
      [("algorithms/DominantRight.java", "                    if(point.segment.length() >= open.length()) {", "                    if(point.segment.length() > open.length()) {")], '''
    static void run() throws Throwable {
        List<String> out = DominantRight.resolve(Arrays.asList(new DominantRight.Segment<>(0, 4, "a"), new DominantRight.Segment<>(2, 6, "b")));
        check(out.equals(Arrays.asList("b")), "" + out);
    }''', "overlapping segments of the same length", "the left one wins"),

    B("java-span-charat-end", "J06",
      [("Span.java", "        if(index + startOffset.offset >= stopOffset.offset || index < 0)", "        if(index + startOffset.offset > stopOffset.offset || index < 0)")], '''
    static void run() throws Throwable {
        Document d = new Document();
        Text t = d.add(new Text("abcdef"));
        Span s = t.span(1, 3);
        check(s.charAt(1) == 'c', "charAt");
        boolean refused = false;
        try { s.charAt(2); } catch(IndexOutOfBoundsException e) { refused = true; }
        check(refused, "character behind the span");
    }''', "the index one behind the end", "a character that is not in the span"),

    B("java-long-truth", "J06",
      [("values/LongValue.java", "        return value != 0;\n", "        return intValue() != 0;\n")], '''
    static void run() throws Throwable {
        check(Values.get(1L << 32).boolValue(), "2^32 is false");
        check(!Values.get(0L).boolValue(), "0 is true");
    }''', "an integer whose lower 32 bits are 0", "it is false"),
]
