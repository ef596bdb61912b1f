package org.msgpack.value;

public interface ImmutableArrayValue extends ArrayValue, ImmutableValue {
    ImmutableArrayValue immutableValue();
}
