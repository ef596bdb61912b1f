package docria.mon;

import se.lth.cs.docria.*;
import se.lth.cs.docria.values.NullValue;

import java.util.*;

/** A node class of an application: some fields live in members of the class. */
final class Records {
    private Records() { }

    static final class Record extends ConcreteNode {
        Value a = NullValue.INSTANCE, b = NullValue.INSTANCE;
        static final NodeInterface FIELDS = new ConcreteNode.Builder<Record>()
                .addField("a", r -> r.a, (r, v) -> r.a = v)
                .addField("b", r -> r.b, (r, v) -> r.b = v)
                .build();

        @Override protected NodeInterface nodeInterface() { return FIELDS; }
    }

    /** Another class, which keeps its fields elsewhere. */
    static final class Other extends ConcreteNode {
        final Value[] kept = {NullValue.INSTANCE, NullValue.INSTANCE};
        static final NodeInterface FIELDS = new ConcreteNode.Builder<Other>()
                .addField("c", r -> r.kept[0], (r, v) -> r.kept[0] = v)
                .addField("a", r -> r.kept[1], (r, v) -> r.kept[1] = v)
                .build();

        @Override protected NodeInterface nodeInterface() { return FIELDS; }
    }

    static Map<String, NodeFactory> factories(List<Object> layers) {
        Map<String, NodeFactory> out = new HashMap<>();
        for (Object l : layers) out.put((String) l, l.equals("other") ? Other::new : Record::new);
        return out;
    }
}
