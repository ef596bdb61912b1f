package docria.mon;

import se.lth.cs.docria.*;
import se.lth.cs.docria.values.*;

import java.util.*;

/** What values and spans say about themselves. */
final class Checks {
    private Checks() { }

    static List<Object> l(Object o) { return (List<Object>) o; }

    static Object values(List<Object> vs) {
        List<Value> made = new ArrayList<>();
        for (Object o : vs) {
            List<Object> e = l(o);
            Object x = e.get(1);
            Value v;
            switch ((String) e.get(0)) {
                case "i32": v = Values.get(((Long) x).intValue()); break;
                case "i64": v = Values.get(((Long) x).longValue()); break;
                case "f64": v = Values.get(Double.longBitsToDouble((Long) x)); break;
                case "bool": v = Values.get(((Boolean) x).booleanValue()); break;
                case "str": v = Values.get((String) x); break;
                case "bin": v = Values.get((byte[]) x); break;
                case "ext": v = new ExtensionValue((String) x, (byte[]) e.get(2)); break;
                case "object": v = Values.get(x); break;
                default: v = Values.get((Object) null);
            }
            made.add(v);
        }
        List<Object> out = new ArrayList<>();
        for (Value v : made) {
            List<Integer> same = new ArrayList<>();
            for (int k = 0; k < made.size(); k++)
                if (v.equals(made.get(k))) {
                    same.add(k);
                    if (v.hashCode() != made.get(k).hashCode()) same.add(-1);
                }
            List<Object> others = new ArrayList<>();
            for (Commands.Step s : new Commands.Step[] {v::nodeValue, v::nodeArrayValue, v::spanValue, v::nodeSpanValue})
                if ((Boolean) l(Commands.outcome(s)).get(0)) others.add("given");
            out.add(Arrays.asList(v.type().name().getName(), Commands.outcome(v::boolValue), Commands.outcome(v::intValue), Commands.outcome(v::longValue),
                    Commands.outcome(() -> Double.doubleToRawLongBits(v.doubleValue())), Commands.outcome(v::stringValue), Commands.outcome(v::binaryValue), others, same));
        }
        return out;
    }

    /** Types as values: which equal which, what they say they are; and schemas built of them. */
    static Object types(List<Object> ts) {
        List<DataType> made = new ArrayList<>();
        for (Object o : ts) made.add(Image.makeType(o));
        List<Object> out = new ArrayList<>();
        for (DataType t : made) {
            List<Integer> same = new ArrayList<>();
            for (int k = 0; k < made.size(); k++)
                if (t.equals(made.get(k))) {
                    same.add(k);
                    if (t.hashCode() != made.get(k).hashCode()) same.add(-1);
                }
            boolean odd = t.equals(null) || t.equals("type");
            out.add(Arrays.asList(Image.type(t), same, odd, new HashSet<>(made).contains(t), t.toString()));
        }
        return out;
    }

    /** [["layer", schema, name, [[field, type]...]], ["copy", schema], ["remove layer", schema, name], ["field", schema, layer, field, type], ["remove field", schema, layer, field]] */
    static Object schemas(List<Object> ops) {
        List<Schema> made = new ArrayList<>(Collections.singletonList(new Schema()));
        List<Object> out = new ArrayList<>();
        for (Object o : ops) {
            List<Object> op = l(o);
            Schema s = made.get(((Long) op.get(1)).intValue());
            Object refused = Commands.outcome(() -> {
                switch ((String) op.get(0)) {
                    case "layer": {
                        Schema.LayerBuilder b = Schema.layer((String) op.get(2));
                        for (Object f : l(op.get(3))) b.addField((String) l(f).get(0), Image.makeType(l(f).get(1)));
                        s.add(b.build());
                        break;
                    }
                    case "copy": made.add(new Schema(s)); break;
                    case "remove layer": s.remove((String) op.get(2)); break;
                    case "field": layer(s, op.get(2)).add((String) op.get(3), Image.makeType(op.get(4))); break;
                    case "remove field": layer(s, op.get(2)).remove((String) op.get(3)); break;
                    default: throw new IllegalStateException("operation " + op);
                }
                return null;
            });
            List<Object> all = new ArrayList<>();
            for (Schema x : made) all.add(Image.schema(x));
            out.add(Arrays.asList(l(refused).get(0), all));
        }
        return out;
    }

    private static Schema.Layer layer(Schema s, Object name) {
        return s.layers().filter(l -> l.name().equals(name)).findFirst().get();
    }

    /** The string value of a node span: the text from its left end to its right end, refused if they are not in the order of the text. */
    private static Object covered(NodeSpan v, int[] read) {
        Value a = v.getLeft().get("text"), b = v.getRight().get("text");
        if (!(a instanceof Span && b instanceof Span)) return v.stringValue();
        int start = ((Span) a).start(), stop = ((Span) b).stop();
        if (stop < start) return "refused or not";
        String s = v.stringValue();
        if (!s.equals(((Span) a).source().toString().substring(start, stop))) throw new IllegalStateException("observed: the string value of a node span is not its text");
        if (v.getLeft() != v.getRight()) read[0]++;
        return s;
    }

    /** Spans as members of sets, before and after the document is encoded; and what is printed. */
    static Object spanSet(Document doc) throws Exception {
        List<Span> all = new ArrayList<>();
        List<Object> printed = new ArrayList<>();
        int[] read = {0};
        for (Layer l : doc.layers()) {
            printed.add(l.toString());
            for (Node n : l) {
                printed.add(n.toString());
                n.forEach((f, v) -> {
                    printed.add(String.valueOf(v));
                    if (!(v instanceof NodeSpan)) printed.add(v.stringValue());
                    else printed.add(covered((NodeSpan) v, read));
                    printed.add(String.valueOf(v.type()));
                    if (v instanceof Span) all.add((Span) v);
                });
            }
        }
        Set<Span> set = new HashSet<>(all);
        int size = set.size();
        MsgpackCodec.encode(doc);
        int missing = 0, other = 0;
        for (Span s : all) {
            if (!set.contains(s)) missing++;
            Text t = s.source();
            t.setValidating(false);
            Span u = t.span(s.start(), s.stop());
            if (!u.equals(s) || u.hashCode() != s.hashCode() || !set.contains(u)) other++;
        }
        // print with everything removed
        List<Node> nodes = new ArrayList<>();
        for (Layer l : doc.layers()) nodes.addAll(l);
        for (Layer l : doc.layers()) l.clear();
        for (Node n : nodes) printed.add(n.toString());
        return Arrays.asList(all.size(), size, missing, other, printed.contains(null), new HashSet<>(all).size(), read[0]);
    }

    /** [text, [[start, stop]...], [[span, operation...]...]] */
    static Object spans(List<Object> c) {
        Text text = new Text("t", (String) c.get(0)), twin = new Text("u", (String) c.get(0));
        twin.setValidating(false);
        if (twin.equals(text) || !text.equals(new Text("t", (String) c.get(0)))) throw new IllegalStateException("observed: texts of two names are equal, or a text does not equal one with the same name and characters");
        List<Span> made = new ArrayList<>();
        List<Object> refused = new ArrayList<>();
        for (Object o : l(c.get(1))) {
            int a = Commands.i(l(o).get(0)), b = Commands.i(l(o).get(1));
            try {
                made.add(text.span(a, b));
                refused.add(false);
            } catch (RuntimeException e) {
                made.add(null);
                refused.add(true);
            }
        }
        List<Object> out = new ArrayList<>();
        for (Object o : l(c.get(2))) {
            List<Object> op = l(o);
            Span s = made.get(Commands.i(op.get(0)));
            if (s == null) {
                out.add(null);
                continue;
            }
            out.add(Commands.outcome(() -> {
                switch ((String) op.get(1)) {
                    case "length": return s.length();
                    case "string": return Arrays.asList(s.toString(), s.stringValue(), new StringBuilder(s).toString());
                    case "char": return (int) s.charAt(Commands.i(op.get(2)));
                    case "sub": return s.subSequence(Commands.i(op.get(2)), Commands.i(op.get(3))).toString();
                    case "chars": return s.chars().toArray();
                    case "codepoints": return s.codePoints().toArray();
                    case "ends": return Arrays.asList(s.start(), s.stop());
                    default: {
                        Span t = made.get(Commands.i(op.get(2)));
                        if (t == null) return null;
                        if (s.equals(twin.span(s.start(), s.stop()))) throw new IllegalStateException("observed: a span equals one over another text");
                        return Arrays.asList(s.covers(t), s.intersects(t), Integer.signum(s.compareTo(t)), s.equals(t), !s.equals(t) || s.hashCode() == t.hashCode());
                    }
                }
            }));
        }
        return Arrays.asList(refused, out, text.toString());
    }
}
