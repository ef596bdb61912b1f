package org.msgpack.core.buffer;

import java.nio.ByteBuffer;
import java.util.Arrays;

/** A range of a byte array. */
public class MessageBuffer {
    private final byte[] base;
    private final int offset;
    private final int size;

    private MessageBuffer(byte[] base, int offset, int size) {
        if (offset < 0 || size < 0 || offset + size > base.length) throw new IndexOutOfBoundsException("offset " + offset + ", length " + size + " of " + base.length);
        this.base = base;
        this.offset = offset;
        this.size = size;
    }

    public static MessageBuffer allocate(int size) { return new MessageBuffer(new byte[size], 0, size); }

    public static MessageBuffer wrap(byte[] array) { return new MessageBuffer(array, 0, array.length); }

    public static MessageBuffer wrap(byte[] array, int offset, int length) { return new MessageBuffer(array, offset, length); }

    public static MessageBuffer wrap(ByteBuffer bb) {
        byte[] b = new byte[bb.remaining()];
        bb.duplicate().get(b);
        return wrap(b);
    }

    public int size() { return size; }

    public MessageBuffer slice(int off, int length) { return new MessageBuffer(base, offset + off, length); }

    public byte getByte(int index) { return base[offset + index]; }

    public void putByte(int index, byte v) { base[offset + index] = v; }

    public void getBytes(int index, byte[] dst, int dstOffset, int length) { System.arraycopy(base, offset + index, dst, dstOffset, length); }

    public void getBytes(int index, int len, ByteBuffer dst) { dst.put(base, offset + index, len); }

    public void putBytes(int index, byte[] src, int srcOffset, int length) { System.arraycopy(src, srcOffset, base, offset + index, length); }

    public byte[] toByteArray() { return Arrays.copyOfRange(base, offset, offset + size); }

    public boolean hasArray() { return true; }

    public byte[] array() { return base; }

    public int arrayOffset() { return offset; }

    public ByteBuffer sliceAsByteBuffer() { return ByteBuffer.wrap(base, offset, size).slice(); }

    public ByteBuffer sliceAsByteBuffer(int index, int length) { return ByteBuffer.wrap(base, offset + index, length).slice(); }
}
