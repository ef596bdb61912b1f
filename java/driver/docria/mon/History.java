package docria.mon;

import se.lth.cs.docria.*;
import se.lth.cs.docria.values.*;

import java.util.*;
import java.util.stream.Collectors;
import java.util.stream.Stream;

/** Operations on the layers of a document; the whole state is read after every one of them. */
final class History {
    Document doc = new Document();
    final List<Node> nodes = new ArrayList<>();
    final Map<Node, Integer> tags = new IdentityHashMap<>();
    final List<NodeSpan> spans = new ArrayList<>();

    static int i(Object o) { return ((Long) o).intValue(); }

    static List<Object> l(Object o) { return (List<Object>) o; }

    int tag(Node n) {
        if (n == null) return -1;
        Integer t = tags.get(n);
        return t == null ? -2 : t;
    }

    List<Integer> tags(Iterable<Node> ns) {
        List<Integer> out = new ArrayList<>();
        for (Node n : ns) out.add(tag(n));
        return out;
    }

    int register(Node n) {
        tags.put(n, nodes.size());
        nodes.add(n);
        return nodes.size() - 1;
    }

    Value value(Object o) {
        List<Object> e = l(o);
        switch ((String) e.get(0)) {
            case "node": return nodes.get(i(e.get(1)));
            case "nodes": return Values.get(pick(e.get(1)).toArray(new Node[0]));
            case "nspan": return new NodeSpan(nodes.get(i(e.get(1))), nodes.get(i(e.get(2))));
            case "span": return Image.span(doc, e);
            default: return Image.makeValue(o, null, doc, null);
        }
    }

    List<Node> pick(Object o) {
        List<Node> out = new ArrayList<>();
        for (Object k : l(o)) out.add(nodes.get(i(k)));
        return out;
    }

    Object run(List<Object> ops) {
        List<Object> out = new ArrayList<>();
        for (Object o : ops) {
            List<Object> op = l(o);
            Object r = Commands.outcome(() -> step(op));
            Object s = Commands.outcome(this::state);
            out.add(Arrays.asList(r, s));
        }
        return out;
    }

    Object step(List<Object> op) throws Exception {
        Object x = op.size() > 1 ? op.get(1) : null;
        Layer layer = x instanceof String ? doc.layer((String) x) : null;
        switch ((String) op.get(0)) {
            case "text": doc.add(new Text((String) x, (String) op.get(2))); return null;
            case "layer": {
                Schema.LayerBuilder b = Schema.layer((String) x);
                Image.map(op.get(2)).forEach((f, t) -> b.addField(f, Image.makeType(t)));
                Layer made = doc.add(b.build());
                return made == doc.layer((String) x);
            }
            case "new": {
                Node n = Node.builder(layer).build();
                Image.map(op.get(2)).forEach((f, v) -> n.put(f, value(v)));
                return register(n);
            }
            case "insert": {
                Node.Builder b = layer.create();
                Image.map(op.get(2)).forEach((f, v) -> b.put(f, value(v)));
                return register(b.insert());
            }
            case "insert many": {
                List<Object> made = new ArrayList<>();
                for (Object w : l(op.get(2))) {
                    Node.Builder b = layer.create();
                    Image.map(w).forEach((f, v) -> b.put(f, value(v)));
                    made.add(register(b.insert()));
                }
                return made;
            }
            case "remove each": {
                for (Node n : pick(op.get(2))) layer.remove(n);
                return null;
            }
            case "put twice": {
                Node.Builder b = (Boolean) op.get(4) ? layer.create() : Node.builder(layer);
                b.put((String) op.get(2), value(op.get(3)));
                b.put((String) op.get(2), value(op.get(3)));
                return null;
            }
            case "add": return layer.add(nodes.get(i(op.get(2))));
            case "addAll": return layer.addAll(pick(op.get(2)));
            case "remove": return layer.remove(nodes.get(i(op.get(2)))) == nodes.get(i(op.get(2)));
            case "remove object": return layer.remove((Object) nodes.get(i(op.get(2))));
            case "remove other": return layer.remove("no node");
            case "removeAll": return layer.removeAll(op.size() > 3 && (Boolean) op.get(3) ? new HashSet<>(pick(op.get(2))) : pick(op.get(2)));
            case "removeAll layer": return layer.removeAll(doc.layer((String) op.get(2)));
            case "retainAll": return layer.retainAll(op.size() > 3 && (Boolean) op.get(3) ? new HashSet<>(pick(op.get(2))) : pick(op.get(2)));
            case "retainAll mixed": {
                List<Object> mixed = new ArrayList<>(pick(op.get(2)));
                mixed.add("no node");
                return layer.retainAll(mixed);
            }
            case "clear": layer.clear(); return null;
            case "sort": {
                String f = (String) op.get(2);
                Comparator<Node> c = Comparator.comparingLong(n -> n.getLong(f));
                layer.sort((Boolean) op.get(3) ? c.reversed() : c);
                return null;
            }
            case "sort failing": {
                int[] left = {i(op.get(2))};
                layer.sort((a, b) -> {
                    if (left[0]-- <= 0) throw new IllegalStateException("injected: the comparison fails");
                    return Integer.compare(tag(b), tag(a));
                });
                return null;
            }
            case "compact": layer.compact(); return null;
            case "nodespan": {
                Node a = nodes.get(i(op.get(2))), b = nodes.get(i(op.get(3)));
                List<Integer> s = tags(layer.nodespan(a, b).collect(Collectors.toList()));
                List<Node> each = new ArrayList<>();
                layer.nodespanForEach(each::add, a, b);
                NodeSpan span = new NodeSpan(a, b);
                spans.add(span);
                return Arrays.asList(s, tags(each), tags(span), tags(Arrays.asList(span.nodeArrayValue())));
            }
            case "set": nodes.get(i(x)).put((String) op.get(2), value(op.get(3))); return null;
            case "unset": nodes.get(i(x)).remove((String) op.get(2)); return null;
            case "addField": return layer.addField((String) op.get(2), Image.makeType(op.get(3))) == layer;
            case "removeField": return layer.removeField((String) op.get(2)) == layer;
            case "remove layer": {
                Document d = op.size() > 2 ? doc.remove(layer, (Boolean) op.get(2)) : doc.remove(layer);
                return d == doc;
            }
            case "remove text": {
                Text t = doc.text((String) x);
                Document d = op.size() > 2 ? doc.remove(t, (Boolean) op.get(2)) : doc.remove(t);
                return d == doc;
            }
            case "prop": doc.props().put((String) x, value(op.get(2))); return null;
            case "encode": return MsgpackCodec.encode(doc).toByteArray();
            case "decoded": {
                Document d = MsgpackCodec.decode(MsgpackCodec.encode(doc).toByteArray());
                return Image.document(d);
            }
            case "reload": {
                // the history goes on with the document as it is read back
                Document d = MsgpackCodec.decode(MsgpackCodec.encode(doc).toByteArray());
                doc = d;
                List<Object> made = new ArrayList<>();
                TreeMap<String, Layer> sorted = new TreeMap<>();
                for (Layer y : d.layers()) sorted.put(y.name(), y);
                for (Layer y : sorted.values())
                    for (Node n : y) made.add(register(n));
                return made;
            }
            case "validate": doc.validateSchema(); return null;
            case "fresh document with same schema": {
                Document d = new Document(doc.schema());
                Map<String, Object> before = new TreeMap<>();
                for (Layer y : doc.layers()) before.put(y.name(), Image.schema(y.schema()));
                Map<String, Object> made = new TreeMap<>();
                for (Layer y : d.layers()) made.put(y.name(), Image.schema(y.schema()));
                for (Layer y : d.layers()) {
                    y.addField("added elsewhere", DataTypes.INT_32);
                    for (String f : new ArrayList<>(y.schema().fields().keySet()))
                        if (!f.equals("added elsewhere")) y.removeField(f);
                    y.add(Node.builder(y).put("added elsewhere", 7).build());
                }
                Map<String, Object> after = new TreeMap<>();
                for (Layer y : doc.layers()) after.put(y.name(), Image.schema(y.schema()));
                return Arrays.asList(before, made, after);
            }
            case "equality": {
                List<Object> out = new ArrayList<>();
                Set<Node> set = new HashSet<>(nodes);
                for (Node a : nodes) {
                    List<Integer> same = new ArrayList<>();
                    for (Node b : nodes) if (a.equals(b)) same.add(tag(b));
                    out.add(Arrays.asList(same, set.contains(a), a.hashCode() == a.hashCode(), a.toString() != null));
                }
                return Arrays.asList(out, set.size());
            }
            case "document": return Image.document(doc);
            default: throw new IllegalArgumentException("operation " + op);
        }
    }

    Object state() {
        List<Object> layers = new ArrayList<>();
        for (Layer y : doc.layers()) {
            List<Node> it = new ArrayList<>();
            for (Node n : y) it.add(n);
            List<Node> each = new ArrayList<>();
            y.forEach(each::add);
            List<Integer> ids = new ArrayList<>(), back = new ArrayList<>(), contains = new ArrayList<>();
            for (Node n : it) {
                ids.add(n.id());
                Node g;
                try {
                    g = y.get(n.id());
                } catch (IndexOutOfBoundsException e) {
                    g = null;
                }
                back.add(tag(g));
            }
            for (Node n : nodes) if (y.contains(n)) contains.add(tag(n));
            Map<String, Object> s = new TreeMap<>();
            s.put("name", y.name());
            s.put("size", y.size());
            s.put("empty", y.isEmpty());
            s.put("iterator", tags(it));
            s.put("forEach", tags(each));
            s.put("stream", y.stream().map(this::tag).collect(Collectors.toList()));
            s.put("typed", y.stream(Node.class).map(this::tag).collect(Collectors.toList()));
            s.put("array", tags(Arrays.asList(y.toArray(new Node[0]))));
            s.put("copy", tags(new ArrayList<>(y)));
            s.put("first", tag(y.first().orElse(null)));
            s.put("last", tag(y.last().orElse(null)));
            s.put("ids", ids);
            s.put("back", back);
            s.put("contains", contains);
            s.put("schema", Image.schema(y.schema()));
            s.put("has", doc.hasLayer(y.name()) && doc.layer(y.name()) == y);
            layers.add(s);
        }
        List<Object> ns = new ArrayList<>();
        for (Node n : nodes) {
            Map<String, Object> fields = new TreeMap<>();
            n.forEach((f, v) -> fields.put(f, small(v)));
            List<Object> where = new ArrayList<>();
            where.add(n.layer() == null ? null : n.layer().name());
            where.add(n.isValid());
            where.add(fields);
            ns.add(where);
        }
        List<Object> texts = new ArrayList<>();
        for (Text t : doc.texts()) texts.add(t.name());
        return Arrays.asList(layers, ns, texts, Image.schema(doc.schema()));
    }

    Object small(Value v) {
        if (v instanceof Node) return Arrays.asList("node", tag((Node) v));
        if (v instanceof NodeArrayValue) return Arrays.asList("nodes", tags(Arrays.asList(v.nodeArrayValue())));
        if (v instanceof NodeSpan) return Arrays.asList("nspan", tag(((NodeSpan) v).getLeft()), tag(((NodeSpan) v).getRight()));
        return Image.value(v, doc, Collections.emptyMap());
    }
}
