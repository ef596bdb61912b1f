package org.msgpack.value;

public interface NumberValue extends Value {
    byte toByte(); short toShort(); int toInt(); long toLong(); java.math.BigInteger toBigInteger(); float toFloat(); double toDouble();
    ImmutableNumberValue immutableValue();
}
