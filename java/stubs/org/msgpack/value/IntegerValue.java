package org.msgpack.value;

public interface IntegerValue extends NumberValue {
    boolean isInByteRange(); boolean isInShortRange(); boolean isInIntRange(); boolean isInLongRange(); byte asByte(); short asShort(); int asInt(); long asLong(); java.math.BigInteger asBigInteger();
    ImmutableIntegerValue immutableValue();
}
