package docria.mon;

import org.msgpack.core.MessagePack;
import se.lth.cs.docria.*;
import se.lth.cs.docria.algorithms.DominantRight;
import se.lth.cs.docria.algorithms.GroupBySpan;
import se.lth.cs.docria.io.*;
import se.lth.cs.docria.values.*;

import java.io.*;
import java.util.*;
import java.util.concurrent.CyclicBarrier;
import java.util.concurrent.locks.LockSupport;
import java.util.stream.Collectors;
import java.util.stream.Stream;

final class Commands {
    private Commands() { }

    static int i(Object o) { return ((Long) o).intValue(); }

    static byte[] b(Object o) { return (byte[]) o; }

    static List<Object> l(Object o) { return (List<Object>) o; }

    interface Step { Object run() throws Exception; }

    /** What a step gave, or how it was refused. */
    static Object outcome(Step s) {
        try {
            return Arrays.asList(true, s.run());
        } catch (Throwable t) {
            return Main.failure(t);
        }
    }

    private static Object image(Document d) { return d == null ? "no document" : Image.document(d); }

    static Object run(List<Object> c) throws Exception {
        switch ((String) c.get(0)) {
            case "ping": return c;
            case "decode": return image(c.size() > 2 ? MsgpackCodec.decode(b(c.get(1)), Records.factories(l(c.get(2)))) : MsgpackCodec.decode(b(c.get(1))));
            case "recode": {
                Document d = c.size() > 2 ? MsgpackCodec.decode(b(c.get(1)), Records.factories(l(c.get(2)))) : MsgpackCodec.decode(b(c.get(1)));
                Object before = Image.document(d);
                byte[] x = MsgpackCodec.encode(d).toByteArray();
                Object after = Image.document(d);
                byte[] y = MsgpackCodec.encode(d).toByteArray();
                return Arrays.asList(before, x, after, y);
            }
            case "build": {
                Document d = Image.make(Image.map(c.get(1)), i(c.get(2)));
                Object before = Image.document(d);
                byte[] x = MsgpackCodec.encode(d).toByteArray();
                Object after = Image.document(d);
                return Arrays.asList(before, x, after, MsgpackCodec.encode(d).toByteArray());
            }
            case "change": {
                Document d = MsgpackCodec.decode(b(c.get(1)));
                if ((Boolean) c.get(2)) Image.document(d);
                for (Object o : l(c.get(3))) {
                    List<Object> e = l(o);
                    Document inner = d;
                    switch ((String) e.get(0)) {
                        case "prop": inner = ((DocumentValue) d.props().get((String) e.get(1))).documentValue(); break;
                        case "field": inner = ((DocumentValue) new ArrayList<>(d.layer((String) e.get(1))).get(i(e.get(2))).get((String) e.get(3))).documentValue(); break;
                        default:
                    }
                    if (e.get(e.size() - 1) == null) inner.props().remove("changed");
                    else inner.props().put("changed", Values.get(i(e.get(e.size() - 1))));
                }
                byte[] x = MsgpackCodec.encode(d).toByteArray();
                Object after = Image.document(d);
                return Arrays.asList(x, after, MsgpackCodec.encode(d).toByteArray());
            }
            case "misfit": {
                // ["misfit", bytes, layer, node, field, value]
                Document d = MsgpackCodec.decode(b(c.get(1)));
                Map<String, List<Node>> made = new HashMap<>();
                for (Layer y : d.layers()) made.put(y.name(), new ArrayList<>(y));
                Node n = made.get((String) c.get(2)).get(i(c.get(3)));
                String f = (String) c.get(4);
                Value old = n.get(f);
                Object done = outcome(() -> {
                    n.put(f, Image.makeValue(c.get(5), null, d, made));
                    return MsgpackCodec.encode(d).toByteArray();
                });
                if (old instanceof NullValue) n.remove(f);
                else n.put(f, old);
                return Arrays.asList(done, MsgpackCodec.encode(d).toByteArray());
            }
            case "handle": return handle(b(c.get(1)), l(c.get(2)));
            case "write": return write(c);
            case "read": return read(c);
            case "bwrite": return bwrite(c);
            case "bread": return bread(c);
            case "far write": return Far.write(c);
            case "far read": return Far.read(c);
            case "length": return BoundaryReader.computeLength(i(c.get(1)), (Long) c.get(2), (Long) c.get(3));
            case "boundary": return BoundaryReader.readBoundary(new ByteArrayInputStream(b(c.get(1))));
            case "deflate": return DeflateCodec.compress(b(c.get(1)));
            case "inflate": return DeflateCodec.decompress(b(c.get(1)));
            case "threads": return threads(c);
            case "beside": return beside(l(c.get(1)), i(c.get(2)));
            case "history": return new History().run(l(c.get(1)));
            case "group": return group(c);
            case "dominant": return dominant(c);
            case "values": return Checks.values(l(c.get(1)));
            case "types": return Checks.types(l(c.get(1)));
            case "schemas": return Checks.schemas(l(c.get(1)));
            case "span set": return Checks.spanSet(MsgpackCodec.decode(b(c.get(1))));
            case "spans": return Checks.spans(l(c.get(1)));
            case "buffer": return buffer(c);
            case "hadoop":
                try {
                    return Class.forName("docria.mon.Hadoop").getMethod("run", List.class).invoke(null, c);
                } catch (java.lang.reflect.InvocationTargetException e) {
                    if (e.getCause() instanceof Exception) throw (Exception) e.getCause();
                    throw (Error) e.getCause();
                }
            default: throw new IllegalArgumentException("command " + c.get(0));
        }
    }

    static Object handle(byte[] data, List<Object> ops) {
        MsgpackDocument[] h = {new MsgpackDocument(data)};
        List<Object> out = new ArrayList<>();
        for (Object op : ops) {
            out.add(outcome(() -> {
                switch ((String) op) {
                    case "props": return Image.props(h[0].properties());
                    case "schema": return h[0].schema() == null ? "no schema" : Image.schema(h[0].schema());
                    case "property bytes": return h[0].propertyCompartment();
                    case "schema bytes": return h[0].schemaCompartment();
                    case "text bytes": return h[0].textCompartment();
                    case "layer bytes": return h[0].layersCompartment();
                    case "document": return Image.document(h[0].document());
                    case "data": return h[0].data();
                    case "compartments":
                        return Arrays.asList(h[0].propertyCompartment(), h[0].schemaCompartment(), h[0].textCompartment(), h[0].layersCompartment());
                    case "static props": return Image.props(MsgpackDocument.parsePropertyCompartment(h[0].propertyCompartment()));
                    case "static schema": {
                        List<String> types = new ArrayList<>();
                        Map<String, List<String>> columns = new TreeMap<>();
                        Object s = Image.schema(MsgpackDocument.parseSchemaCompartment(h[0].schemaCompartment(), types, columns));
                        return Arrays.asList(s, types, columns);
                    }
                    case "assemble":
                        h[0] = new MsgpackDocument(h[0].propertyCompartment(), h[0].schemaCompartment(), h[0].textCompartment(), h[0].layersCompartment());
                        return h[0].data();
                    default: throw new IllegalArgumentException("operation " + op);
                }
            }));
        }
        return out;
    }

    static DocumentStreamWriter.Codec codec(Object name) {
        return name.equals("none") ? DocumentStreamWriter.Codec.NONE : name.equals("zip") ? DocumentStreamWriter.Codec.DEFLATE : DocumentStreamWriter.Codec.DEFLATE_SQUARED;
    }

    static final class Sink extends ByteArrayOutputStream {
        int closed;
        long limit = -1;

        private void room(int n) throws IOException {
            if (limit >= 0 && count + n > limit) throw new IOException("injected: no space left");
        }

        @Override public void close() { closed++; }
    }

    /** Every command in a thread of its own, all at the same time and several times over: the outcomes of each. */
    private static Object beside(List<Object> commands, int rounds) throws Exception {
        CyclicBarrier gate = new CyclicBarrier(commands.size());
        List<List<Object>> out = new ArrayList<>();
        List<Thread> threads = new ArrayList<>();
        for (Object c : commands) {
            List<Object> mine = new ArrayList<>();
            out.add(mine);
            Thread t = new Thread(() -> {
                for (int k = 0; k < rounds; k++) {
                    try {
                        gate.await();
                    } catch (Exception e) {
                        throw new IllegalStateException(e);
                    }
                    mine.add(outcome(() -> run(l(c))));
                }
            });
            threads.add(t);
            t.start();
        }
        for (Thread t : threads) t.join();
        return out;
    }

    /** ["write", boundary or 0, documents per block or 0, codec or nil, operations] */
    static Object write(List<Object> c) throws Exception {
        int boundary = i(c.get(1)), per = i(c.get(2));
        Object name = c.get(3);
        Sink sink = new Sink();
        DocumentStreamWriter w;
        if (boundary == 0) {
            if (per > 0 && name != null) w = new DocumentStreamWriter(sink, per, codec(name));
            else if (per > 0) w = new DocumentStreamWriter(sink, per);
            else if (name != null) w = new DocumentStreamWriter(sink, codec(name));
            else w = new DocumentStreamWriter(sink);
        } else if (boundary == 18 && per % 2 == 0) {
            if (per > 0 && name != null) w = new DocumentStreamBoundaryWriter(sink, per, codec(name));
            else if (per > 0) w = new DocumentStreamBoundaryWriter(sink, per);
            else if (name != null) w = new DocumentStreamBoundaryWriter(sink, codec(name));
            else w = new DocumentStreamBoundaryWriter(sink);
        } else {
            if (per > 0 && name != null) w = new DocumentStreamBoundaryWriter(boundary, sink, per, codec(name));
            else if (per > 0) w = new DocumentStreamBoundaryWriter(boundary, sink, per);
            else if (name != null) w = new DocumentStreamBoundaryWriter(boundary, sink, codec(name));
            else w = new DocumentStreamBoundaryWriter(boundary, sink);
        }
        List<Object> out = new ArrayList<>();
        for (Object o : l(c.get(4))) {
            List<Object> op = l(o);
            out.add(outcome(() -> {
                switch ((String) op.get(0)) {
                    case "raw": w.write(b(op.get(1))); return null;
                    case "doc": w.write(MsgpackCodec.decode(b(op.get(1)))); return null;
                    case "flush": w.flush(); return sink.toByteArray();
                    case "close": w.close(); return sink.closed;
                    default: throw new IllegalArgumentException("operation " + op);
                }
            }));
        }
        return Arrays.asList(sink.toByteArray(), out);
    }

    interface Reader {
        Object next();
        Object nextRaw();
        Stream<Object> nextBlock();
        boolean skipBlock();
        boolean skip();
        long skip(long n);
        long count();
        Object position();
        void close();
    }

    static Reader reader(String kind, InputStream in, Object fn) {
        java.util.function.Function<byte[], byte[]> f = fn == null ? null : fn.equals("none") ? x -> x : fn.equals("zip") ? DeflateCodec::decompress
                : x -> DeflateCodec.decompress(DeflateCodec.decompress(x));
        if (kind.equals("doc")) {
            DocumentStreamReader r = f == null ? new DocumentStreamReader(in) : new DocumentStreamReader(in, f);
            return new Reader() {
                public Object next() { Document d = r.next(); return d == null ? null : Image.document(d); }
                public Object nextRaw() { return r.nextRaw(); }
                public Stream<Object> nextBlock() { Stream<Document> s = r.nextBlock(); return s == null ? null : s.map(Image::document); }
                public boolean skipBlock() { return r.skipBlock(); }
                public boolean skip() { return r.skip(); }
                public long skip(long n) { return r.skip(n); }
                public long count() { return r.count(); }
                public Object position() { return null; }
                public void close() { r.close(); }
            };
        }
        MsgpackDocumentStreamReader r = f == null ? new MsgpackDocumentStreamReader(in) : new MsgpackDocumentStreamReader(in, f);
        return new Reader() {
            public Object next() { MsgpackDocument d = r.next(); return d == null ? null : d.data(); }
            public Object nextRaw() { return next(); }
            public Stream<Object> nextBlock() { Stream<MsgpackDocument> s = r.nextBlock(); return s == null ? null : s.map(MsgpackDocument::data); }
            public boolean skipBlock() { return r.skipBlock(); }
            public boolean skip() { return r.skip(); }
            public long skip(long n) { return r.skip(n); }
            public long count() { return r.count(); }
            public Object position() { return r.position(); }
            public void close() { r.close(); }
        };
    }

    /** ["read", kind, bytes, boundary?, seed, largest piece, failing position, codec function or nil, operations] */
    static Object read(List<Object> c) throws Exception {
        Pieces in = new Pieces(b(c.get(2)), (Long) c.get(4), i(c.get(5)), (Long) c.get(6));
        List<Object> out = new ArrayList<>();
        Reader[] r = {null};
        out.add(outcome(() -> {
            r[0] = reader((String) c.get(1), (Boolean) c.get(3) ? new BoundaryReader(in) : in, c.get(7));
            return null;
        }));
        if (r[0] == null) return out;
        List<Iterator<Object>> blocks = new ArrayList<>();
        for (Object o : l(c.get(8))) {
            List<Object> op = l(o);
            out.add(outcome(() -> {
                switch ((String) op.get(0)) {
                    case "next": return r[0].next();
                    case "raw": return r[0].nextRaw();
                    case "block": {
                        Stream<Object> s = r[0].nextBlock();
                        return s == null ? null : s.collect(Collectors.toList());
                    }
                    case "open": {
                        Stream<Object> s = r[0].nextBlock();
                        if (s == null) return false;
                        blocks.add(s.iterator());
                        return true;
                    }
                    case "from": {
                        Iterator<Object> it = blocks.get(i(op.get(1)));
                        return it.hasNext() ? it.next() : null;
                    }
                    case "skip": return r[0].skip();
                    case "skip n": return r[0].skip((Long) op.get(1));
                    case "skip block": return r[0].skipBlock();
                    case "count": return r[0].count();
                    case "position": return r[0].position();
                    case "close": r[0].close(); return in.closed;
                    case "all": {
                        List<Object> all = new ArrayList<>();
                        for (Object x = r[0].next(); x != null; x = r[0].next()) all.add(x);
                        return all;
                    }
                    case "all blocks": {
                        List<Object> all = new ArrayList<>();
                        for (Stream<Object> s = r[0].nextBlock(); s != null; s = r[0].nextBlock()) all.add(s.collect(Collectors.toList()));
                        return all;
                    }
                    default: throw new IllegalArgumentException("operation " + op);
                }
            }));
        }
        return out;
    }

    /** ["bwrite", boundary, operations] */
    static Object bwrite(List<Object> c) throws Exception {
        Sink sink = new Sink();
        BoundaryWriter w = i(c.get(1)) == 18 ? new BoundaryWriter(sink) : new BoundaryWriter(sink, i(c.get(1)));
        for (Object o : l(c.get(2))) {
            List<Object> op = l(o);
            switch ((String) op.get(0)) {
                case "byte": w.write(i(op.get(1))); break;
                case "bytes": w.write(b(op.get(1))); break;
                case "slice": w.write(b(op.get(1)), i(op.get(2)), i(op.get(3))); break;
                case "each": for (byte x : b(op.get(1))) w.write(x); break;
                case "split": w.split(); break;
                case "flush": w.flush(); break;
                case "close": w.close(); break;
                default: throw new IllegalArgumentException("operation " + op);
            }
        }
        return sink.toByteArray();
    }

    /** ["bread", bytes, seed, largest piece, failing position, operations] */
    static Object bread(List<Object> c) throws Exception {
        Pieces in = new Pieces(b(c.get(1)), (Long) c.get(2), i(c.get(3)), (Long) c.get(4));
        InputStream[] r = {null};
        List<Object> out = new ArrayList<>();
        out.add(outcome(() -> {
            r[0] = new BoundaryReader(in);
            return null;
        }));
        if (r[0] == null) return out;
        for (Object o : l(c.get(5))) {
            List<Object> op = l(o);
            out.add(outcome(() -> {
                switch ((String) op.get(0)) {
                    case "byte": return r[0].read();
                    case "bytes": {
                        int off = i(op.get(1)), len = i(op.get(2)), total = i(op.get(3));
                        byte[] buf = new byte[total];
                        Arrays.fill(buf, (byte) 0x5a);
                        int n = off == 0 && len == total ? r[0].read(buf) : r[0].read(buf, off, len);
                        for (int k = 0; k < total; k++)
                            if ((k < off || k >= off + Math.max(n, 0)) && buf[k] != 0x5a) throw new IllegalStateException("observed: wrote outside of what was asked for");
                        return n < 0 ? null : Arrays.copyOfRange(buf, off, off + n);
                    }
                    case "skip": return r[0].skip((Long) op.get(1));
                    case "available": return r[0].available();
                    case "rest": {
                        ByteArrayOutputStream all = new ByteArrayOutputStream();
                        byte[] buf = new byte[i(op.get(1))];
                        for (int n = r[0].read(buf); n >= 0; n = r[0].read(buf)) all.write(buf, 0, n);
                        return all.toByteArray();
                    }
                    case "rest bytes": {
                        ByteArrayOutputStream all = new ByteArrayOutputStream();
                        for (int x = r[0].read(); x >= 0; x = r[0].read()) all.write(x);
                        return all.toByteArray();
                    }
                    case "close": r[0].close(); return in.closed;
                    default: throw new IllegalArgumentException("operation " + op);
                }
            }));
        }
        return out;
    }

    /** ["buffer", size, operations] */
    static Object buffer(List<Object> c) throws Exception {
        ByteOutputBuffer w = i(c.get(1)) == 0 ? new ByteOutputBuffer() : new ByteOutputBuffer(i(c.get(1)));
        List<Object> out = new ArrayList<>();
        for (Object o : l(c.get(2))) {
            List<Object> op = l(o);
            switch ((String) op.get(0)) {
                case "byte": w.write(i(op.get(1))); break;
                case "bytes": w.write(b(op.get(1))); break;
                case "slice": w.write(b(op.get(1)), i(op.get(2)), i(op.get(3))); break;
                default: break;
            }
            out.add(Arrays.asList(w.length(), w.toByteArray()));
        }
        return out;
    }

    static final ThreadLocal<Random> DELAYS = new ThreadLocal<>();

    /** ["threads", kind, bytes, boundary?, threads, seed, delay in 1/1000, skipping threads] : what every thread got, block by block */
    static Object threads(List<Object> c) throws Exception {
        byte[] data = b(c.get(2));
        int n = i(c.get(4)), delay = i(c.get(6)), skipping = i(c.get(7));
        long seed = (Long) c.get(5);
        Pieces in = new Pieces(data, seed, 0, -1);
        Reader r = reader((String) c.get(1), (Boolean) c.get(3) ? new BoundaryReader(in) : in, null);
        List<List<Object>> got = new ArrayList<>();
        List<String> order = Collections.synchronizedList(new ArrayList<>());
        long[] waits = new long[n];
        CyclicBarrier start = new CyclicBarrier(n);
        Thread[] ts = new Thread[n];
        Object[] failed = new Object[n];
        for (int k = 0; k < n; k++) {
            int me = k;
            got.add(new ArrayList<>());
            ts[k] = new Thread(() -> {
                DELAYS.set(new Random(seed * 31 + me));
                WAITS.set(new long[1]);
                try {
                    start.await();
                    if (me < skipping) {
                        Random rng = new Random(seed + me);
                        while (true) {
                            if (rng.nextInt(3) == 0) {
                                if (!r.skipBlock()) break;
                                got.get(me).add("skipped");
                            } else {
                                Stream<Object> s = r.nextBlock();
                                if (s == null) break;
                                got.get(me).add(s.collect(Collectors.toList()));
                            }
                            order.add(String.valueOf(me));
                        }
                    } else {
                        for (Stream<Object> s = r.nextBlock(); s != null; s = r.nextBlock()) {
                            List<Object> docs = new ArrayList<>();
                            for (Iterator<Object> it = s.iterator(); it.hasNext(); ) {
                                docs.add(it.next());
                                delay();
                            }
                            got.get(me).add(docs);
                            order.add(String.valueOf(me));
                        }
                    }
                } catch (Throwable t) {
                    failed[me] = Main.failure(t);
                } finally {
                    waits[me] = WAITS.get()[0];
                    DELAYS.remove();
                }
            });
        }
        limit = delay;
        MessagePack.point = Commands::delay;
        try {
            for (Thread t : ts) t.start();
            for (Thread t : ts) t.join();
        } finally {
            MessagePack.point = null;
        }
        long w = 0;
        for (long x : waits) w += x;
        return Arrays.asList(got, failed, w, String.join("", order));
    }

    static volatile int limit;
    static final ThreadLocal<long[]> WAITS = new ThreadLocal<>();

    static void delay() {
        Random rng = DELAYS.get();
        if (rng == null || limit == 0) return;
        if (rng.nextInt(1000) < limit) {
            WAITS.get()[0]++;
            if (rng.nextBoolean()) Thread.yield();
            else LockSupport.parkNanos(rng.nextInt(300000));
        }
    }

    /** ["group", bytes, group layer, group field, [[name, layer, field]...], resolution or nil, empty groups or nil, route] */
    static Object group(List<Object> c) throws Exception {
        Document doc = MsgpackCodec.decode(b(c.get(1)));
        Map<Node, Object[]> places = Image.places(doc);
        Layer gl = doc.layer((String) c.get(2));
        String gf = (String) c.get(3);
        boolean plain = gf.equals("text");
        int route = i(c.get(7));
        GroupBySpan.Builder builder;
        switch (route % 5) {
            case 0: builder = plain ? GroupBySpan.builder(gl) : GroupBySpan.builder(gl, gf); break;
            case 1: builder = GroupBySpan.builder(gl, gf); break;
            case 2: builder = plain ? GroupBySpan.builder(doc, gl.name()) : GroupBySpan.builder(doc, gl.name(), gf); break;
            case 3: builder = GroupBySpan.builder(doc, gl.name(), gf); break;
            default: {
                List<Node> nodes = new ArrayList<>(gl);
                Collections.shuffle(nodes, new Random(route));
                builder = plain && route % 2 == 0 ? GroupBySpan.builder(nodes) : GroupBySpan.builder(nodes, gf);
            }
        }
        for (Object o : l(c.get(4))) {
            String name = (String) l(o).get(0), layer = (String) l(o).get(1), field = (String) l(o).get(2);
            Layer x = doc.layer(layer);
            boolean text = field.equals("text");
            int way = route / 5 % 4;
            if (name.equals(layer) && way == 0) builder = text ? builder.group(x) : builder.group(x, field);
            else if (name.equals(layer) && way == 1) builder = text ? builder.group(doc, layer) : builder.group(doc, layer, field);
            else if (way == 2) {
                List<Node> nodes = new ArrayList<>(x);
                Collections.shuffle(nodes, new Random(route));
                builder = text ? builder.group(name, nodes) : builder.group(name, nodes, field);
            } else builder = text ? builder.group(name, x) : builder.group(name, x, field);
        }
        if (c.get(5) != null) builder = builder.resolution(c.get(5).equals("cover") ? GroupBySpan.Resolution.COVER : GroupBySpan.Resolution.INTERSECT);
        if (c.get(6) != null) builder = builder.includeEmptyGroups((Boolean) c.get(6));
        List<Object> out = new ArrayList<>();
        for (GroupBySpan.Group g : builder.solve()) {
            Map<String, Object> content = new TreeMap<>();
            g.content.forEach((k, v) -> {
                List<Object> ns = new ArrayList<>();
                for (Node n : v) ns.add(Image.node(n, places));
                content.put(k, ns);
            });
            out.add(Arrays.asList(Image.node(g.node, places), content, g.empty()));
        }
        return out;
    }

    /** ["dominant", [[start, stop]...]] or ["dominant", bytes, layer, field, span field?] */
    static Object dominant(List<Object> c) throws Exception {
        if (c.size() == 2) {
            List<DominantRight.Segment<Integer>> segs = new ArrayList<>();
            int k = 0;
            for (Object o : l(c.get(1))) {
                DominantRight.Segment<Integer> s = new DominantRight.Segment<>(i(l(o).get(0)), i(l(o).get(1)), k);
                if (s.getStart() != i(l(o).get(0)) || s.getStop() != i(l(o).get(1)) || s.getTag() != k++) throw new IllegalStateException("observed: a segment holds something else");
                segs.add(s);
            }
            return DominantRight.resolve(segs);
        }
        Document doc = MsgpackCodec.decode(b(c.get(1)));
        Map<Node, Object[]> places = Image.places(doc);
        Layer layer = doc.layer((String) c.get(2));
        if (c.size() > 5) {
            Layer from = doc.layer((String) c.get(5));
            List<Node> gone = new ArrayList<>();
            for (Object o : l(c.get(6))) gone.add(from.get(i(o)));
            for (Node n : gone) from.remove(n);
        }
        List<Node> r = (Boolean) c.get(4) ? DominantRight.resolve(layer, (String) c.get(3)) : DominantRight.resolveNodespans(layer, (String) c.get(3));
        List<Object> out = new ArrayList<>();
        for (Node n : r) out.add(Image.node(n, places));
        return out;
    }
}
