package org.msgpack.value;

public interface MapValue extends Value {
    int size(); java.util.Set<Value> keySet(); java.util.Set<java.util.Map.Entry<Value, Value>> entrySet(); java.util.Collection<Value> values(); java.util.Map<Value, Value> map(); Value[] getKeyValueArray();
    ImmutableMapValue immutableValue();
}
