package docria.mon;

import org.msgpack.core.MessageBufferPacker;
import org.msgpack.core.MessagePack;
import org.msgpack.core.MessageUnpacker;
import org.msgpack.value.Value;

import java.io.IOException;
import java.util.*;

/** Plain objects on the pipe to the monitors: nil, booleans, long, double, strings, byte[], lists, maps. */
final class Wire {
    private Wire() { }

    static Object read(byte[] data) throws IOException {
        MessageUnpacker u = MessagePack.newDefaultUnpacker(data);
        return plain(u.unpackValue());
    }

    static Object plain(Value v) {
        if (v.isNilValue()) return null;
        if (v.isBooleanValue()) return v.asBooleanValue().getBoolean();
        if (v.isIntegerValue()) return v.asIntegerValue().toLong();
        if (v.isFloatValue()) return v.asFloatValue().toDouble();
        if (v.isStringValue()) return v.asStringValue().asString();
        if (v.isBinaryValue()) return v.asBinaryValue().asByteArray();
        if (v.isArrayValue()) {
            List<Object> out = new ArrayList<>();
            for (Value x : v.asArrayValue()) out.add(plain(x));
            return out;
        }
        Map<Object, Object> out = new LinkedHashMap<>();
        for (Map.Entry<Value, Value> e : v.asMapValue().entrySet()) out.put(plain(e.getKey()), plain(e.getValue()));
        return out;
    }

    static byte[] write(Object o) throws IOException {
        MessageBufferPacker p = MessagePack.newDefaultBufferPacker();
        pack(p, o);
        return p.toByteArray();
    }

    private static void pack(MessageBufferPacker p, Object o) throws IOException {
        if (o == null) p.packNil();
        else if (o instanceof Boolean) p.packBoolean((Boolean) o);
        else if (o instanceof Integer) p.packInt((Integer) o);
        else if (o instanceof Long) p.packLong((Long) o);
        else if (o instanceof Double) p.packDouble((Double) o);
        else if (o instanceof byte[]) {
            p.packBinaryHeader(((byte[]) o).length);
            p.writePayload((byte[]) o);
        } else if (o instanceof int[]) {
            p.packArrayHeader(((int[]) o).length);
            for (int x : (int[]) o) p.packInt(x);
        } else if (o instanceof Object[]) {
            p.packArrayHeader(((Object[]) o).length);
            for (Object x : (Object[]) o) pack(p, x);
        } else if (o instanceof Collection) {
            p.packArrayHeader(((Collection<?>) o).size());
            for (Object x : (Collection<?>) o) pack(p, x);
        } else if (o instanceof Map) {
            p.packMapHeader(((Map<?, ?>) o).size());
            for (Map.Entry<?, ?> e : ((Map<?, ?>) o).entrySet()) {
                pack(p, e.getKey());
                pack(p, e.getValue());
            }
        } else {
            p.packString(String.valueOf(o));
        }
    }
}
