package org.msgpack.value;

public interface ArrayValue extends Value, Iterable<Value> {
    int size(); Value get(int index); Value getOrNilValue(int index); java.util.Iterator<Value> iterator(); java.util.List<Value> list();
    ImmutableArrayValue immutableValue();
}
