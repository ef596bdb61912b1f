package org.msgpack.value;

import org.msgpack.core.MessagePacker;
import java.io.IOException;

public interface Value {
    ValueType getValueType();
    ImmutableValue immutableValue();
    boolean isNilValue();
    NilValue asNilValue();
    boolean isBooleanValue();
    BooleanValue asBooleanValue();
    boolean isNumberValue();
    NumberValue asNumberValue();
    boolean isIntegerValue();
    IntegerValue asIntegerValue();
    boolean isFloatValue();
    FloatValue asFloatValue();
    boolean isRawValue();
    RawValue asRawValue();
    boolean isStringValue();
    StringValue asStringValue();
    boolean isBinaryValue();
    BinaryValue asBinaryValue();
    boolean isArrayValue();
    ArrayValue asArrayValue();
    boolean isMapValue();
    MapValue asMapValue();
    boolean isExtensionValue();
    ExtensionValue asExtensionValue();
    void writeTo(MessagePacker pk) throws IOException;
    String toJson();
}
