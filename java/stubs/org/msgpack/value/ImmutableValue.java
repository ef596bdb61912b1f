package org.msgpack.value;

public interface ImmutableValue extends Value {
    ImmutableNilValue asNilValue();
    ImmutableBooleanValue asBooleanValue();
    ImmutableNumberValue asNumberValue();
    ImmutableIntegerValue asIntegerValue();
    ImmutableFloatValue asFloatValue();
    ImmutableRawValue asRawValue();
    ImmutableStringValue asStringValue();
    ImmutableBinaryValue asBinaryValue();
    ImmutableArrayValue asArrayValue();
    ImmutableMapValue asMapValue();
    ImmutableExtensionValue asExtensionValue();
}
