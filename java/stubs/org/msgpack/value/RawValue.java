package org.msgpack.value;

public interface RawValue extends Value {
    byte[] asByteArray(); java.nio.ByteBuffer asByteBuffer(); String asString(); String toString();
    ImmutableRawValue immutableValue();
}
