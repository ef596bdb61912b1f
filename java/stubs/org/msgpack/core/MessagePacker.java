package org.msgpack.core;

import org.msgpack.core.buffer.MessageBufferOutput;
import org.msgpack.value.Value;

import java.io.Closeable;
import java.io.Flushable;
import java.io.IOException;
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;

public class MessagePacker implements Closeable, Flushable {
    private static final int LIMIT = 8192;
    protected final MessageBufferOutput out;
    private final byte[] buffer = new byte[LIMIT];
    private int position;
    private long flushed;

    public MessagePacker(MessageBufferOutput out) { this.out = out; }

    public long getTotalWrittenBytes() { return flushed + position; }

    public void clear() { position = 0; }

    private void drain() throws IOException {
        if (position > 0) {
            out.write(buffer, 0, position);
            flushed += position;
            position = 0;
        }
    }

    @Override
    public void flush() throws IOException {
        drain();
        out.flush();
    }

    @Override
    public void close() throws IOException {
        try {
            flush();
        } finally {
            out.close();
        }
    }

    private void room(int n) throws IOException {
        if (position + n > LIMIT) drain();
    }

    private MessagePacker head(int b, long v, int width) throws IOException {
        room(1 + width);
        buffer[position++] = (byte) b;
        for (int k = width - 1; k >= 0; k--) buffer[position++] = (byte) (v >> (8 * k));
        return this;
    }

    public MessagePacker packNil() throws IOException { return head(0xc0, 0, 0); }

    public MessagePacker packBoolean(boolean b) throws IOException { return head(b ? 0xc3 : 0xc2, 0, 0); }

    public MessagePacker packByte(byte b) throws IOException { return packLong(b); }

    public MessagePacker packShort(short v) throws IOException { return packLong(v); }

    public MessagePacker packInt(int r) throws IOException { return packLong(r); }

    public MessagePacker packLong(long v) throws IOException {
        if (v >= -32 && v < 128) return head((int) v & 0xff, 0, 0);
        if (v < 0) {
            if (v >= -0x80) return head(0xd0, v, 1);
            if (v >= -0x8000) return head(0xd1, v, 2);
            if (v >= -0x80000000L) return head(0xd2, v, 4);
            return head(0xd3, v, 8);
        }
        if (v < 0x100) return head(0xcc, v, 1);
        if (v < 0x10000) return head(0xcd, v, 2);
        if (v < 0x100000000L) return head(0xce, v, 4);
        return head(0xcf, v, 8);
    }

    public MessagePacker packBigInteger(BigInteger bi) throws IOException {
        if (bi.bitLength() <= 63) return packLong(bi.longValue());
        if (bi.bitLength() == 64 && bi.signum() == 1) return head(0xcf, bi.longValue(), 8);
        throw new IllegalArgumentException("MessagePack cannot serialize BigInteger larger than 2^64-1");
    }

    public MessagePacker packFloat(float v) throws IOException { return head(0xca, Float.floatToRawIntBits(v), 4); }

    public MessagePacker packDouble(double v) throws IOException { return head(0xcb, Double.doubleToRawLongBits(v), 8); }

    public MessagePacker packString(String s) throws IOException {
        byte[] b = s.getBytes(StandardCharsets.UTF_8);
        packRawStringHeader(b.length);
        return addPayload(b);
    }

    public MessagePacker packArrayHeader(int n) throws IOException {
        if (n < 0) throw new IllegalArgumentException("array size must be >= 0");
        return n < 16 ? head(0x90 | n, 0, 0) : n < 0x10000 ? head(0xdc, n, 2) : head(0xdd, n, 4);
    }

    public MessagePacker packMapHeader(int n) throws IOException {
        if (n < 0) throw new IllegalArgumentException("map size must be >= 0");
        return n < 16 ? head(0x80 | n, 0, 0) : n < 0x10000 ? head(0xde, n, 2) : head(0xdf, n, 4);
    }

    public MessagePacker packValue(Value v) throws IOException {
        v.writeTo(this);
        return this;
    }

    public MessagePacker packExtensionTypeHeader(byte type, int n) throws IOException {
        if (n == 1 || n == 2 || n == 4 || n == 8 || n == 16) head(0xd4 + Integer.numberOfTrailingZeros(n), 0, 0);
        else if (n < 0x100) head(0xc7, n, 1);
        else if (n < 0x10000) head(0xc8, n, 2);
        else head(0xc9, n, 4);
        return head(type, 0, 0);
    }

    public MessagePacker packBinaryHeader(int n) throws IOException { MessagePack.point(); return n < 0x100 ? head(0xc4, n, 1) : n < 0x10000 ? head(0xc5, n, 2) : head(0xc6, n, 4); }

    public MessagePacker packRawStringHeader(int n) throws IOException {
        return n < 32 ? head(0xa0 | n, 0, 0) : n < 0x100 ? head(0xd9, n, 1) : n < 0x10000 ? head(0xda, n, 2) : head(0xdb, n, 4);
    }

    public MessagePacker writePayload(byte[] src) throws IOException { return writePayload(src, 0, src.length); }

    public MessagePacker writePayload(byte[] src, int off, int len) throws IOException {
        if (position + len > LIMIT) {
            flush();
            out.write(src, off, len);
            flushed += len;
        } else {
            System.arraycopy(src, off, buffer, position, len);
            position += len;
        }
        return this;
    }

    public MessagePacker addPayload(byte[] src) throws IOException { return addPayload(src, 0, src.length); }

    public MessagePacker addPayload(byte[] src, int off, int len) throws IOException {
        MessagePack.point();
        if (position + len > LIMIT) {
            flush();
            out.add(src, off, len);
            flushed += len;
        } else {
            System.arraycopy(src, off, buffer, position, len);
            position += len;
        }
        return this;
    }
}
