package org.msgpack.core;

import org.msgpack.core.buffer.MessageBuffer;
import org.msgpack.core.buffer.MessageBufferInput;
import org.msgpack.value.ImmutableValue;
import org.msgpack.value.Value;
import org.msgpack.value.ValueFactory;

import java.io.Closeable;
import java.io.IOException;
import java.math.BigInteger;
import java.nio.ByteBuffer;
import java.nio.charset.StandardCharsets;

public class MessageUnpacker implements Closeable {
    private final MessageBufferInput in;
    private MessageBuffer buffer = MessageBuffer.allocate(0);
    private int position;
    private long before;

    public MessageUnpacker(MessageBufferInput in) { this.in = in; }

    public long getTotalReadBytes() { return before + position; }

    private boolean more() throws IOException {
        while (buffer.size() <= position) {
            MessageBuffer next = in.next();
            if (next == null) return false;
            before += buffer.size();
            buffer = next;
            position = 0;
        }
        return true;
    }

    public boolean hasNext() throws IOException {
        MessagePack.point();
        return more();
    }

    private int peek() throws IOException {
        if (!more()) throw new MessageInsufficientBufferException();
        return buffer.getByte(position) & 0xff;
    }

    private int one() throws IOException {
        int b = peek();
        position++;
        return b;
    }

    private long wide(int n) throws IOException {
        long v = 0;
        for (int k = 0; k < n; k++) v = v << 8 | one();
        return v;
    }

    public MessageFormat getNextFormat() throws IOException { return MessageFormat.valueOf((byte) peek()); }

    private static MessagePackException unexpected(String expected, int b) {
        MessageFormat f = MessageFormat.valueOf((byte) b);
        if (f == MessageFormat.NEVER_USED) return new MessageNeverUsedFormatException("Expected " + expected + ", but encountered 0xC1 \"NEVER_USED\" byte");
        return new MessageTypeException("Expected " + expected + ", but got " + f.getValueType() + String.format(" (%02x)", b));
    }

    public void skipValue() throws IOException { skipValue(1); }

    public void skipValue(int count) throws IOException {
        for (long todo = count; todo > 0; todo--) {
            int b = one();
            MessageFormat f = MessageFormat.valueOf((byte) b);
            switch (f) {
                case POSFIXINT: case NEGFIXINT: case BOOLEAN: case NIL: break;
                case FIXMAP: todo += 2 * (b & 0x0f); break;
                case FIXARRAY: todo += b & 0x0f; break;
                case FIXSTR: skip(b & 0x1f); break;
                case INT8: case UINT8: skip(1); break;
                case INT16: case UINT16: skip(2); break;
                case INT32: case UINT32: case FLOAT32: skip(4); break;
                case INT64: case UINT64: case FLOAT64: skip(8); break;
                case BIN8: case STR8: skip((int) wide(1)); break;
                case BIN16: case STR16: skip((int) wide(2)); break;
                case BIN32: case STR32: skip(size(wide(4))); break;
                case FIXEXT1: skip(2); break;
                case FIXEXT2: skip(3); break;
                case FIXEXT4: skip(5); break;
                case FIXEXT8: skip(9); break;
                case FIXEXT16: skip(17); break;
                case EXT8: skip((int) wide(1) + 1); break;
                case EXT16: skip((int) wide(2) + 1); break;
                case EXT32: { int n = size(wide(4)); one(); skip(n); break; }
                case ARRAY16: todo += wide(2); break;
                case ARRAY32: todo += size(wide(4)); break;
                case MAP16: todo += 2 * wide(2); break;
                case MAP32: todo += 2L * size(wide(4)); break;
                default: throw new MessageNeverUsedFormatException("Encountered 0xC1 \"NEVER_USED\" byte");
            }
        }
    }

    private void skip(int n) throws IOException {
        while (n > 0) {
            if (!more()) throw new MessageInsufficientBufferException();
            int k = Math.min(n, buffer.size() - position);
            position += k;
            n -= k;
        }
    }

    private static int size(long u32) {
        if (u32 > Integer.MAX_VALUE) throw new MessageSizeException("size " + u32);
        return (int) u32;
    }

    public void unpackNil() throws IOException {
        int b = one();
        if (b != 0xc0) throw unexpected("Nil", b);
    }

    public boolean tryUnpackNil() throws IOException {
        if (!more()) throw new MessageInsufficientBufferException();
        if (peek() != 0xc0) return false;
        position++;
        return true;
    }

    public boolean unpackBoolean() throws IOException {
        int b = one();
        if (b == 0xc2) return false;
        if (b == 0xc3) return true;
        throw unexpected("boolean", b);
    }

    public BigInteger unpackBigInteger() throws IOException {
        int b = one();
        if (b < 0x80 || b >= 0xe0) return BigInteger.valueOf((byte) b);
        switch (b) {
            case 0xcc: return BigInteger.valueOf(wide(1));
            case 0xcd: return BigInteger.valueOf(wide(2));
            case 0xce: return BigInteger.valueOf(wide(4));
            case 0xcf: { long v = wide(8); return v >= 0 ? BigInteger.valueOf(v) : BigInteger.valueOf(v).add(BigInteger.ONE.shiftLeft(64)); }
            case 0xd0: return BigInteger.valueOf((byte) wide(1));
            case 0xd1: return BigInteger.valueOf((short) wide(2));
            case 0xd2: return BigInteger.valueOf((int) wide(4));
            case 0xd3: return BigInteger.valueOf(wide(8));
            default: throw unexpected("Integer", b);
        }
    }

    private long integer(long min, long max) throws IOException {
        BigInteger v = unpackBigInteger();
        if (v.compareTo(BigInteger.valueOf(min)) < 0 || v.compareTo(BigInteger.valueOf(max)) > 0) throw new MessageIntegerOverflowException("overflow: " + v);
        return v.longValue();
    }

    public byte unpackByte() throws IOException { return (byte) integer(Byte.MIN_VALUE, Byte.MAX_VALUE); }

    public short unpackShort() throws IOException { return (short) integer(Short.MIN_VALUE, Short.MAX_VALUE); }

    public int unpackInt() throws IOException { return (int) integer(Integer.MIN_VALUE, Integer.MAX_VALUE); }

    public long unpackLong() throws IOException { return integer(Long.MIN_VALUE, Long.MAX_VALUE); }

    public float unpackFloat() throws IOException { return (float) unpackDouble(); }

    public double unpackDouble() throws IOException {
        int b = one();
        if (b == 0xca) return Float.intBitsToFloat((int) wide(4));
        if (b == 0xcb) return Double.longBitsToDouble(wide(8));
        throw unexpected("Float", b);
    }

    public String unpackString() throws IOException { return new String(readPayload(unpackRawStringHeader()), StandardCharsets.UTF_8); }

    public int unpackArrayHeader() throws IOException {
        int b = one();
        if (b >= 0x90 && b < 0xa0) return b & 0x0f;
        if (b == 0xdc) return (int) wide(2);
        if (b == 0xdd) return size(wide(4));
        throw unexpected("Array", b);
    }

    public int unpackMapHeader() throws IOException {
        int b = one();
        if (b >= 0x80 && b < 0x90) return b & 0x0f;
        if (b == 0xde) return (int) wide(2);
        if (b == 0xdf) return size(wide(4));
        throw unexpected("Map", b);
    }

    public ExtensionTypeHeader unpackExtensionTypeHeader() throws IOException {
        int b = one();
        int n;
        if (b >= 0xd4 && b <= 0xd8) n = 1 << (b - 0xd4);
        else if (b == 0xc7) n = (int) wide(1);
        else if (b == 0xc8) n = (int) wide(2);
        else if (b == 0xc9) n = size(wide(4));
        else throw unexpected("Ext", b);
        return new ExtensionTypeHeader((byte) one(), n);
    }

    private int string(int b) throws IOException { return b == 0xd9 ? (int) wide(1) : b == 0xda ? (int) wide(2) : b == 0xdb ? size(wide(4)) : -1; }

    private int binary(int b) throws IOException { return b == 0xc4 ? (int) wide(1) : b == 0xc5 ? (int) wide(2) : b == 0xc6 ? size(wide(4)) : -1; }

    public int unpackRawStringHeader() throws IOException {
        int b = one();
        if (b >= 0xa0 && b < 0xc0) return b & 0x1f;
        int n = string(b);
        if (n < 0) n = binary(b);
        if (n < 0) throw unexpected("String", b);
        return n;
    }

    public int unpackBinaryHeader() throws IOException {
        int b = one();
        if (b >= 0xa0 && b < 0xc0) return b & 0x1f;
        int n = binary(b);
        if (n < 0) n = string(b);
        if (n < 0) throw unexpected("Binary", b);
        return n;
    }

    public ImmutableValue unpackValue() throws IOException {
        MessageFormat f = getNextFormat();
        switch (f.getValueType()) {
            case NIL: unpackNil(); return ValueFactory.newNil();
            case BOOLEAN: return ValueFactory.newBoolean(unpackBoolean());
            case INTEGER: return ValueFactory.newInteger(unpackBigInteger());
            case FLOAT: return ValueFactory.newFloat(unpackDouble());
            case STRING: return ValueFactory.newString(readPayload(unpackRawStringHeader()));
            case BINARY: return ValueFactory.newBinary(readPayload(unpackBinaryHeader()));
            case ARRAY: {
                int n = unpackArrayHeader();
                java.util.ArrayList<Value> out = new java.util.ArrayList<>();
                for (int k = 0; k < n; k++) out.add(unpackValue());
                return ValueFactory.newArray(out.toArray(new Value[0]));
            }
            case MAP: {
                int n = unpackMapHeader();
                java.util.ArrayList<Value> out = new java.util.ArrayList<>();
                for (int k = 0; k < 2 * n; k++) out.add(unpackValue());
                return ValueFactory.newMap(out.toArray(new Value[0]));
            }
            default: {
                ExtensionTypeHeader h = unpackExtensionTypeHeader();
                return ValueFactory.newExtension(h.getType(), readPayload(h.getLength()));
            }
        }
    }

    public void readPayload(ByteBuffer dst) throws IOException { dst.put(readPayload(dst.remaining())); }

    public void readPayload(MessageBuffer dst, int off, int len) throws IOException { dst.putBytes(off, readPayload(len), 0, len); }

    public void readPayload(byte[] dst) throws IOException { readPayload(dst, 0, dst.length); }

    public byte[] readPayload(int length) throws IOException {
        if (length > 1 << 20) {                     // a damaged length must not exhaust the memory of the monitor
            java.io.ByteArrayOutputStream out = new java.io.ByteArrayOutputStream();
            byte[] b = new byte[1 << 20];
            for (int left = length; left > 0; ) {
                int n = Math.min(left, b.length);
                readPayload(b, 0, n);
                out.write(b, 0, n);
                left -= n;
            }
            return out.toByteArray();
        }
        byte[] b = new byte[length];
        readPayload(b);
        return b;
    }

    public void readPayload(byte[] dst, int off, int len) throws IOException {
        while (len > 0) {
            if (!more()) throw new MessageInsufficientBufferException();
            int k = Math.min(len, buffer.size() - position);
            buffer.getBytes(position, dst, off, k);
            position += k;
            off += k;
            len -= k;
        }
    }

    public MessageBuffer readPayloadAsReference(int length) throws IOException { return MessageBuffer.wrap(readPayload(length)); }

    @Override
    public void close() throws IOException { in.close(); }
}
