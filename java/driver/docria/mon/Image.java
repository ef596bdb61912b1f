package docria.mon;

import se.lth.cs.docria.*;
import se.lth.cs.docria.values.*;

import java.util.*;

/** The image of a document through the public interface, and the way back. */
final class Image {
    private Image() { }

    static Object[] t(Object... xs) { return xs; }

    static Map<Node, Object[]> places(Document doc) {
        Map<Node, Object[]> out = new IdentityHashMap<>();
        for (Layer l : doc.layers()) {
            int k = 0;
            for (Node n : l) out.put(n, t("ref", l.name(), k++));
        }
        return out;
    }

    static Object node(Node n, Map<Node, Object[]> places) {
        if (n == null) return t("null node");
        Object[] p = places.get(n);
        return p == null ? t("dangling") : p;
    }

    static Object nodes(Node[] ns, Map<Node, Object[]> places) {
        List<Object> out = new ArrayList<>();
        for (Node n : ns) out.add(node(n, places));
        return out;
    }

    static Object value(Value v, Document doc, Map<Node, Object[]> places) {
        if (v instanceof NullValue) return null;
        if (v instanceof BoolValue) return t("bool", v.boolValue());
        if (v instanceof IntValue || v instanceof LongValue) return t("int", v.longValue());
        if (v instanceof DoubleValue) return t("float", Double.doubleToRawLongBits(v.doubleValue()));
        if (v instanceof StringValue) return t("str", v.stringValue());
        if (v instanceof BinaryValue) return t("bytes", v.binaryValue());
        if (v instanceof Span) {
            Span s = (Span) v;
            if (doc != null && doc.text(s.source().name()) != s.source()) return t("span of a foreign text", s.source().name());
            return t("span", s.source().name(), s.start(), s.stop(), s.toString());
        }
        if (v instanceof Node) return node((Node) v, places);
        if (v instanceof NodeArrayValue) {
            Node[] ns = v.nodeArrayValue();
            return ns.length == 0 ? null : t("refs", nodes(ns, places));
        }
        if (v instanceof NodeSpan) {
            NodeSpan s = (NodeSpan) v;
            return t("nodespan", node(s.getLeft(), places), node(s.getRight(), places), nodes(s.nodeArrayValue(), places));
        }
        if (v instanceof DocumentValue) return t("ext", "doc", document(((DocumentValue) v).documentValue()));
        if (v instanceof ExtensionValue) return t("ext", v.type().args().get("type").stringValue(), v.binaryValue());
        return t("object", v.getClass().getName());
    }

    static Map<String, Object> props(Map<String, Value> props) {
        Map<String, Object> out = new TreeMap<>();
        props.forEach((k, v) -> out.put(k, v instanceof NullValue ? t("none") : value(v, null, Collections.emptyMap())));
        return out;
    }

    static Object type(DataType dt) {
        Map<String, Object> args = new TreeMap<>();
        dt.args().forEach((k, v) -> args.put(k, value(v, null, Collections.emptyMap())));
        return t(dt.name().getName(), args);
    }

    static Object schema(Schema.Layer s) {
        Map<String, Object> out = new TreeMap<>();
        s.fields().forEach((f, dt) -> out.put(f, type(dt)));
        return out;
    }

    static Object schema(Schema s) {
        Map<String, Object> out = new TreeMap<>();
        s.layers().forEach(l -> out.put(l.name(), schema(l)));
        return out;
    }

    static Object document(Document doc) {
        Map<Node, Object[]> places = places(doc);
        Map<String, Object> texts = new TreeMap<>();
        for (Text x : doc.texts()) texts.put(x.name(), x.toString());
        Map<String, Object> layers = new TreeMap<>();
        for (Layer l : doc.layers()) {
            List<Object> nodes = new ArrayList<>();
            for (Node n : l) {
                Map<String, Object> fields = new TreeMap<>();
                n.forEach((f, v) -> {
                    access(n, f, v);
                    Object o = value(v, doc, places);
                    if (o != null) fields.put(f, o);
                });
                nodes.add(fields);
            }
            Map<String, Object> img = new TreeMap<>();
            img.put("schema", schema(l.schema()));
            img.put("len", l.size());
            img.put("nodes", nodes);
            layers.put(l.name(), img);
        }
        Map<String, Object> out = new TreeMap<>();
        out.put("props", props(doc.props()));
        out.put("texts", texts);
        out.put("layers", layers);
        return out;
    }

    private static void agree(boolean b, String f) {
        if (!b) throw new IllegalStateException("observed: the accessors of a node disagree about field " + f);
    }

    /** A node of an application class makes its values as they are asked for. */
    private static boolean same(Value a, Value b) {
        return a == b || a != null && b != null && a.getClass() == b.getClass();
    }

    /** No field is called anything with this. */
    private static final String NONE = " (no such field)";

    /** Every way to read a field gives the same. */
    static void access(Node n, String f, Value v) {
        agree(same(n.get(f), v) && (v instanceof NullValue || same(n.get(f, null), v)) && n.has(f) && n.get(f + NONE, v) == v && !n.has(f + NONE) && n.get(f + NONE) instanceof NullValue, f);
        alike(f, () -> n.getInt(f), v::intValue);
        alike(f, () -> n.getLong(f), v::longValue);
        alike(f, () -> Double.doubleToLongBits(n.getDouble(f)), () -> Double.doubleToLongBits(v.doubleValue()));
        alike(f, () -> n.getBool(f), v::boolValue);
        alike(f, () -> n.getString(f), v::stringValue);
    }

    /** Both give the same, or both refuse. */
    private static void alike(String f, Commands.Step a, Commands.Step b) {
        Object x = null, y = null;
        boolean r = false, s = false;
        try {
            x = a.run();
        } catch (Exception e) {
            r = true;
        }
        try {
            y = b.run();
        } catch (Exception e) {
            s = true;
        }
        agree(r == s && Objects.equals(x, y), f);
    }

    /** The methods for one type do what the general one does. */
    static Object put(Node n, String f, Value v) {
        if (v instanceof IntValue) return n.put(f, v.intValue());
        if (v instanceof LongValue) return n.put(f, v.longValue());
        if (v instanceof DoubleValue) return n.put(f, v.doubleValue());
        if (v instanceof BoolValue) return n.put(f, v.boolValue());
        if (v instanceof StringValue) return n.put(f, v.stringValue());
        if (v instanceof BinaryValue) return n.put(f, v.binaryValue());
        if (v instanceof Span) return n.put(f, (Span) v);
        if (v instanceof Node) return n.put(f, (Node) v);
        if (v instanceof NodeArrayValue) return f.length() % 2 == 0 ? n.put(f, v.nodeArrayValue()) : n.put(f, Arrays.asList(v.nodeArrayValue()));
        return n.put(f, v);
    }

    static Object put(Node.Builder b, String f, Value v) {
        if (v instanceof IntValue) return b.put(f, v.intValue());
        if (v instanceof LongValue) return b.put(f, v.longValue());
        if (v instanceof DoubleValue) return b.put(f, v.doubleValue());
        if (v instanceof BoolValue) return b.put(f, v.boolValue());
        if (v instanceof StringValue) return b.put(f, v.stringValue());
        if (v instanceof BinaryValue) return b.put(f, v.binaryValue());
        if (v instanceof NodeArrayValue) return f.length() % 2 == 0 ? b.put(f, v.nodeArrayValue()) : b.put(f, Arrays.asList(v.nodeArrayValue()));
        if (v instanceof NodeSpan) return b.put(f, ((NodeSpan) v).getLeft(), ((NodeSpan) v).getRight());
        return b.put(f, v);
    }

    static void chained(Object x, Object y) {
        if (x != y) throw new IllegalStateException("observed: put does not return the node or builder it was called on");
    }

    // ---- and back: a document is made from an image, through the interface a user has ----

    static Map<String, Object> map(Object o) { return (Map<String, Object>) o; }

    static List<Object> list(Object o) { return (List<Object>) o; }

    static int i(Object o) { return ((Long) o).intValue(); }

    static DataType makeType(Object o) {
        List<Object> x = list(o);
        DataTypeName name = DataTypeName.from((String) x.get(0));
        Map<String, Object> args = map(x.get(1));
        if (args.isEmpty()) {
            switch (name) {
                case INT: return DataTypes.INT_32;
                case LONG: return DataTypes.INT_64;
                case DOUBLE: return DataTypes.FLOAT_64;
                case BOOL: return DataTypes.BOOLEAN;
                case STRING: return DataTypes.STRING;
                case BINARY: return DataTypes.BINARY;
                default: break;
            }
        }
        if (args.size() == 1 && args.containsKey("layer")) {
            String l = (String) list(args.get("layer")).get(1);
            switch (name) {
                case NODE: return DataTypes.noderef(l);
                case NODE_ARRAY: return DataTypes.noderef_array(l);
                case NODE_SPAN: return DataTypes.nodespan(l);
                default: break;
            }
        }
        if (name == DataTypeName.SPAN && args.size() == 1 && args.containsKey("context")) return DataTypes.span((String) list(args.get("context")).get(1));
        if (name == DataTypeName.EXT && args.size() == 1 && args.containsKey("type")) return DataTypes.ext((String) list(args.get("type")).get(1));
        DataType.Builder b = new DataType.Builder(name);
        args.forEach((k, v) -> {
            List<Object> e = list(v);
            switch ((String) e.get(0)) {
                case "bool": b.addArg(k, (Boolean) e.get(1)); break;
                case "int":
                    long n = (Long) e.get(1);
                    if (n == (int) n) b.addArg(k, (int) n);
                    else b.addArg(k, n);
                    break;
                case "float": b.addArg(k, Double.longBitsToDouble((Long) e.get(1))); break;
                case "str": b.addArg(k, (String) e.get(1)); break;
                case "bytes": b.addArg(k, (byte[]) e.get(1)); break;
                default: throw new IllegalStateException("argument " + e);
            }
        });
        DataType t = b.build();
        b.addArg("added to the builder later", true);
        return t;
    }

    static Span span(Document doc, List<Object> e) {
        Text x = doc.text((String) e.get(1));
        int a = i(e.get(2)), b = i(e.get(3));
        boolean before = x.isValidating();
        if (a == x.length()) x.setValidating(false);
        Span s = x.span(a, b);
        x.setValidating(before);
        return s;
    }

    static Value makeValue(Object o, DataTypeName type, Document doc, Map<String, List<Node>> made) {
        List<Object> e = list(o);
        switch ((String) e.get(0)) {
            case "none": return NullValue.INSTANCE;
            case "bool": return Values.get(((Boolean) e.get(1)).booleanValue());
            case "int":
                long n = (Long) e.get(1);
                if (type == DataTypeName.INT || type == null && n == (int) n) return Values.get((int) n);
                return Values.get(n);
            case "long": return Values.get(((Long) e.get(1)).longValue());
            case "float": return Values.get(Double.longBitsToDouble((Long) e.get(1)));
            case "str": return Values.get((String) e.get(1));
            case "bytes": return Values.get((byte[]) e.get(1));
            case "span": return span(doc, e);
            case "ref": return made.get((String) e.get(1)).get(i(e.get(2)));
            case "refs": {
                List<Node> ns = new ArrayList<>();
                for (Object x : list(e.get(1))) ns.add(made.get((String) list(x).get(1)).get(i(list(x).get(2))));
                return Values.get(ns.toArray(new Node[0]));
            }
            case "nodespan": {
                List<Object> a = list(e.get(1)), b = list(e.get(2));
                return new NodeSpan(made.get((String) a.get(1)).get(i(a.get(2))), made.get((String) b.get(1)).get(i(b.get(2))));
            }
            case "ext":
                if (e.get(1).equals("doc")) return new DocumentValue(make(map(e.get(2)), 0));
                return new ExtensionValue((String) e.get(1), (byte[]) e.get(2));
            default: throw new IllegalStateException("value " + e);
        }
    }

    static boolean reference(Object o) {
        Object k = list(o).get(0);
        return k.equals("ref") || k.equals("refs") || k.equals("nodespan");
    }

    /** Whether the nodes a reference leads to are there already. */
    static boolean ready(Object o, Map<String, List<Node>> made) {
        List<Object> e = list(o);
        switch ((String) e.get(0)) {
            case "ref": return made.containsKey(e.get(1)) && i(e.get(2)) < made.get(e.get(1)).size();
            case "refs": return list(e.get(1)).stream().allMatch(x -> ready(x, made));
            default: return ready(e.get(1), made) && ready(e.get(2), made);
        }
    }

    /** route: which of the equivalent ways to make nodes is taken */
    static Document make(Map<String, Object> img, int route) {
        Document doc = new Document();
        map(img.get("props")).forEach((k, v) -> doc.props().put(k, makeValue(v, null, doc, null)));
        map(img.get("texts")).forEach((k, v) -> doc.add(k.equals("main") && route % 2 == 1 ? new Text((String) v) : new Text(k, (String) v)));
        Map<String, Object> layers = map(img.get("layers"));
        layers.forEach((name, l) -> {
            Schema.LayerBuilder b = route % 3 == 0 ? Layer.create(name) : route % 3 == 1 ? Layer.builder(name) : Schema.layer(name);
            map(map(l).get("schema")).forEach((f, t) -> b.addField(f, makeType(t)));
            doc.add(b.build());
        });
        Map<String, List<Node>> made = new HashMap<>();
        layers.forEach((name, l) -> {
            Layer layer = doc.layer(name);
            List<Node> out = new ArrayList<>();
            made.put(name, out);
            int k = 0;
            for (Object o : list(map(l).get("nodes"))) {
                Map<String, Value> plain = new LinkedHashMap<>();
                int way = route < 4 ? route : (route + k) % 4;
                map(o).forEach((f, v) -> {
                    if (reference(v) && way < 2 && ready(v, made)) plain.put(f, makeValue(v, null, doc, made));
                    if (!reference(v)) plain.put(f, makeValue(v, layer.schema().getFieldType(f).name(), doc, null));
                });
                boolean typed = (route + k) % 3 != 0;
                Node n;
                switch (way) {
                    case 0: {
                        Node.Builder b = Node.builder(layer);
                        plain.forEach((f, v) -> chained(typed ? put(b, f, v) : b.put(f, v), b));
                        n = b.build();
                        layer.add(n);
                        break;
                    }
                    case 1: {
                        Node.Builder b = layer.create();
                        plain.forEach((f, v) -> chained(typed ? put(b, f, v) : b.put(f, v), b));
                        n = b.insert();
                        break;
                    }
                    case 2:
                        n = Node.builder(layer).build();
                        plain.forEach((f, v) -> chained(typed ? put(n, f, v) : n.put(f, v), n));
                        layer.add(n);
                        break;
                    default: {
                        n = layer.create().insert();
                        plain.forEach((f, v) -> chained(typed ? put(n, f, v) : n.put(f, v), n));
                    }
                }
                out.add(n);
                k++;
            }
        });
        layers.forEach((name, l) -> {
            int k = 0;
            for (Object o : list(map(l).get("nodes"))) {
                Node n = made.get(name).get(k++);
                map(o).forEach((f, v) -> {
                    if (reference(v) && !n.has(f)) chained(put(n, f, makeValue(v, null, doc, made)), n);
                });
            }
        });
        return doc;
    }
}
