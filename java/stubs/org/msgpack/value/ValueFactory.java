package org.msgpack.value;

import org.msgpack.core.MessageIntegerOverflowException;
import org.msgpack.core.MessagePacker;
import org.msgpack.core.MessageTypeCastException;

import java.io.IOException;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.nio.ByteBuffer;
import java.nio.charset.StandardCharsets;
import java.util.*;

public final class ValueFactory {
    private ValueFactory() { }

    abstract static class Base implements ImmutableValue {
        abstract Object key();
        @Override public ImmutableValue immutableValue() { return this; }
        @Override public boolean isNilValue() { return this instanceof NilValue; }
        @Override public ImmutableNilValue asNilValue() { if (!(this instanceof NilValue)) throw new MessageTypeCastException(); return (ImmutableNilValue) this; }
        @Override public boolean isBooleanValue() { return this instanceof BooleanValue; }
        @Override public ImmutableBooleanValue asBooleanValue() { if (!(this instanceof BooleanValue)) throw new MessageTypeCastException(); return (ImmutableBooleanValue) this; }
        @Override public boolean isNumberValue() { return this instanceof NumberValue; }
        @Override public ImmutableNumberValue asNumberValue() { if (!(this instanceof NumberValue)) throw new MessageTypeCastException(); return (ImmutableNumberValue) this; }
        @Override public boolean isIntegerValue() { return this instanceof IntegerValue; }
        @Override public ImmutableIntegerValue asIntegerValue() { if (!(this instanceof IntegerValue)) throw new MessageTypeCastException(); return (ImmutableIntegerValue) this; }
        @Override public boolean isFloatValue() { return this instanceof FloatValue; }
        @Override public ImmutableFloatValue asFloatValue() { if (!(this instanceof FloatValue)) throw new MessageTypeCastException(); return (ImmutableFloatValue) this; }
        @Override public boolean isRawValue() { return this instanceof RawValue; }
        @Override public ImmutableRawValue asRawValue() { if (!(this instanceof RawValue)) throw new MessageTypeCastException(); return (ImmutableRawValue) this; }
        @Override public boolean isStringValue() { return this instanceof StringValue; }
        @Override public ImmutableStringValue asStringValue() { if (!(this instanceof StringValue)) throw new MessageTypeCastException(); return (ImmutableStringValue) this; }
        @Override public boolean isBinaryValue() { return this instanceof BinaryValue; }
        @Override public ImmutableBinaryValue asBinaryValue() { if (!(this instanceof BinaryValue)) throw new MessageTypeCastException(); return (ImmutableBinaryValue) this; }
        @Override public boolean isArrayValue() { return this instanceof ArrayValue; }
        @Override public ImmutableArrayValue asArrayValue() { if (!(this instanceof ArrayValue)) throw new MessageTypeCastException(); return (ImmutableArrayValue) this; }
        @Override public boolean isMapValue() { return this instanceof MapValue; }
        @Override public ImmutableMapValue asMapValue() { if (!(this instanceof MapValue)) throw new MessageTypeCastException(); return (ImmutableMapValue) this; }
        @Override public boolean isExtensionValue() { return this instanceof ExtensionValue; }
        @Override public ImmutableExtensionValue asExtensionValue() { if (!(this instanceof ExtensionValue)) throw new MessageTypeCastException(); return (ImmutableExtensionValue) this; }
        @Override public boolean equals(Object o) { return o instanceof Base && ((Base) o).getValueType() == getValueType() && ((Base) o).key().equals(key()); }
        @Override public int hashCode() { return key().hashCode(); }
        @Override public String toString() { return toJson(); }
        @Override public String toJson() { return String.valueOf(key()); }
    }

    static final class Nil extends Base implements ImmutableNilValue {
        static final Nil NIL = new Nil();
        @Override public ValueType getValueType() { return ValueType.NIL; }
        @Override public ImmutableNilValue immutableValue() { return this; }
        @Override Object key() { return "null"; }
        @Override public void writeTo(MessagePacker pk) throws IOException { pk.packNil(); }
    }

    static final class Bool extends Base implements ImmutableBooleanValue {
        final boolean v;
        Bool(boolean v) { this.v = v; }
        @Override public ValueType getValueType() { return ValueType.BOOLEAN; }
        @Override public ImmutableBooleanValue immutableValue() { return this; }
        @Override Object key() { return v; }
        @Override public boolean getBoolean() { return v; }
        @Override public void writeTo(MessagePacker pk) throws IOException { pk.packBoolean(v); }
    }

    static final class Int extends Base implements ImmutableIntegerValue {
        final BigInteger v;
        Int(BigInteger v) { this.v = v; }
        @Override public ValueType getValueType() { return ValueType.INTEGER; }
        @Override public ImmutableIntegerValue immutableValue() { return this; }
        @Override Object key() { return v; }
        boolean in(long a, long b) { return v.compareTo(BigInteger.valueOf(a)) >= 0 && v.compareTo(BigInteger.valueOf(b)) <= 0; }
        void need(boolean ok) { if (!ok) throw new MessageIntegerOverflowException(v.toString()); }
        @Override public boolean isInByteRange() { return in(Byte.MIN_VALUE, Byte.MAX_VALUE); }
        @Override public boolean isInShortRange() { return in(Short.MIN_VALUE, Short.MAX_VALUE); }
        @Override public boolean isInIntRange() { return in(Integer.MIN_VALUE, Integer.MAX_VALUE); }
        @Override public boolean isInLongRange() { return in(Long.MIN_VALUE, Long.MAX_VALUE); }
        @Override public byte asByte() { need(isInByteRange()); return v.byteValue(); }
        @Override public short asShort() { need(isInShortRange()); return v.shortValue(); }
        @Override public int asInt() { need(isInIntRange()); return v.intValue(); }
        @Override public long asLong() { need(isInLongRange()); return v.longValue(); }
        @Override public BigInteger asBigInteger() { return v; }
        @Override public byte toByte() { return v.byteValue(); }
        @Override public short toShort() { return v.shortValue(); }
        @Override public int toInt() { return v.intValue(); }
        @Override public long toLong() { return v.longValue(); }
        @Override public BigInteger toBigInteger() { return v; }
        @Override public float toFloat() { return v.floatValue(); }
        @Override public double toDouble() { return v.doubleValue(); }
        @Override public void writeTo(MessagePacker pk) throws IOException { pk.packBigInteger(v); }
    }

    static final class Flt extends Base implements ImmutableFloatValue {
        final double v;
        Flt(double v) { this.v = v; }
        @Override public ValueType getValueType() { return ValueType.FLOAT; }
        @Override public ImmutableFloatValue immutableValue() { return this; }
        @Override Object key() { return v; }
        @Override public byte toByte() { return (byte) v; }
        @Override public short toShort() { return (short) v; }
        @Override public int toInt() { return (int) v; }
        @Override public long toLong() { return (long) v; }
        @Override public BigInteger toBigInteger() { return new BigDecimal(v).toBigInteger(); }
        @Override public float toFloat() { return (float) v; }
        @Override public double toDouble() { return v; }
        @Override public void writeTo(MessagePacker pk) throws IOException { pk.packDouble(v); }
    }

    abstract static class Raw extends Base implements ImmutableRawValue {
        final byte[] v;
        Raw(byte[] v) { this.v = v; }
        @Override public abstract ImmutableRawValue immutableValue();
        @Override Object key() { return ByteBuffer.wrap(v); }
        @Override public byte[] asByteArray() { return v.clone(); }
        @Override public ByteBuffer asByteBuffer() { return ByteBuffer.wrap(v).asReadOnlyBuffer(); }
        @Override public String asString() { return new String(v, StandardCharsets.UTF_8); }
        @Override public String toString() { return asString(); }
        @Override public String toJson() { return '"' + asString().replace("\\", "\\\\").replace("\"", "\\\"") + '"'; }
    }

    static final class Str extends Raw implements ImmutableStringValue {
        Str(byte[] v) { super(v); }
        @Override public ValueType getValueType() { return ValueType.STRING; }
        @Override public ImmutableStringValue immutableValue() { return this; }
        @Override public void writeTo(MessagePacker pk) throws IOException { pk.packRawStringHeader(v.length); pk.writePayload(v); }
    }

    static final class Bin extends Raw implements ImmutableBinaryValue {
        Bin(byte[] v) { super(v); }
        @Override public ValueType getValueType() { return ValueType.BINARY; }
        @Override public ImmutableBinaryValue immutableValue() { return this; }
        @Override public void writeTo(MessagePacker pk) throws IOException { pk.packBinaryHeader(v.length); pk.writePayload(v); }
    }

    static final class Arr extends Base implements ImmutableArrayValue {
        final List<Value> v;
        Arr(List<Value> v) { this.v = v; }
        @Override public ValueType getValueType() { return ValueType.ARRAY; }
        @Override public ImmutableArrayValue immutableValue() { return this; }
        @Override Object key() { return v; }
        @Override public int size() { return v.size(); }
        @Override public Value get(int k) { return v.get(k); }
        @Override public Value getOrNilValue(int k) { return k >= 0 && k < v.size() ? v.get(k) : Nil.NIL; }
        @Override public Iterator<Value> iterator() { return list().iterator(); }
        @Override public List<Value> list() { return Collections.unmodifiableList(v); }
        @Override public void writeTo(MessagePacker pk) throws IOException { pk.packArrayHeader(v.size()); for (Value x : v) x.writeTo(pk); }
    }

    static final class Dict extends Base implements ImmutableMapValue {
        final Value[] kv;
        Dict(Value[] kv) { this.kv = kv; }
        @Override public ValueType getValueType() { return ValueType.MAP; }
        @Override public ImmutableMapValue immutableValue() { return this; }
        @Override Object key() { return map(); }
        @Override public int size() { return kv.length / 2; }
        @Override public Set<Value> keySet() { return map().keySet(); }
        @Override public Set<Map.Entry<Value, Value>> entrySet() { return map().entrySet(); }
        @Override public Collection<Value> values() { return map().values(); }
        @Override public Map<Value, Value> map() {
            Map<Value, Value> m = new LinkedHashMap<>();
            for (int k = 0; k + 1 < kv.length; k += 2) m.put(kv[k], kv[k + 1]);
            return m;
        }
        @Override public Value[] getKeyValueArray() { return kv.clone(); }
        @Override public void writeTo(MessagePacker pk) throws IOException { pk.packMapHeader(kv.length / 2); for (Value x : kv) x.writeTo(pk); }
    }

    static final class Ext extends Base implements ImmutableExtensionValue {
        final byte type;
        final byte[] data;
        Ext(byte type, byte[] data) { this.type = type; this.data = data; }
        @Override public ValueType getValueType() { return ValueType.EXTENSION; }
        @Override public ImmutableExtensionValue immutableValue() { return this; }
        @Override Object key() { return type + ":" + Arrays.toString(data); }
        @Override public byte getType() { return type; }
        @Override public byte[] getData() { return data; }
        @Override public void writeTo(MessagePacker pk) throws IOException { pk.packExtensionTypeHeader(type, data.length); pk.writePayload(data); }
    }

    public static ImmutableNilValue newNil() { return Nil.NIL; }
    public static ImmutableBooleanValue newBoolean(boolean v) { return new Bool(v); }
    public static ImmutableIntegerValue newInteger(long v) { return new Int(BigInteger.valueOf(v)); }
    public static ImmutableIntegerValue newInteger(BigInteger v) { return new Int(v); }
    public static ImmutableFloatValue newFloat(double v) { return new Flt(v); }
    public static ImmutableBinaryValue newBinary(byte[] b) { return new Bin(b); }
    public static ImmutableStringValue newString(String s) { return new Str(s.getBytes(StandardCharsets.UTF_8)); }
    public static ImmutableStringValue newString(byte[] b) { return new Str(b); }
    public static ImmutableArrayValue newArray(List<? extends Value> list) { return new Arr(new ArrayList<>(list)); }
    public static ImmutableArrayValue newArray(Value... array) { return new Arr(Arrays.asList(array)); }
    public static ImmutableArrayValue emptyArray() { return newArray(); }
    public static ImmutableMapValue newMap(Value... kvs) { return new Dict(kvs); }
    public static <K extends Value, V extends Value> ImmutableMapValue newMap(Map<K, V> map) {
        List<Value> kv = new ArrayList<>();
        map.forEach((k, v) -> { kv.add(k); kv.add(v); });
        return new Dict(kv.toArray(new Value[0]));
    }
    public static ImmutableExtensionValue newExtension(byte type, byte[] data) { return new Ext(type, data); }
}
