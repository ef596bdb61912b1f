package org.msgpack.core;

public class ExtensionTypeHeader {
    private final byte type;
    private final int length;

    public ExtensionTypeHeader(byte type, int length) { this.type = type; this.length = length; }

    public byte getType() { return type; }

    public int getLength() { return length; }
}
