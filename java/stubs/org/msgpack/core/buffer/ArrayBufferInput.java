package org.msgpack.core.buffer;

public class ArrayBufferInput implements MessageBufferInput {
    private MessageBuffer buffer;

    public ArrayBufferInput(MessageBuffer buf) { this.buffer = buf; }

    public ArrayBufferInput(byte[] arr) { this(arr, 0, arr.length); }

    public ArrayBufferInput(byte[] arr, int offset, int length) { this(MessageBuffer.wrap(arr, offset, length)); }

    @Override
    public MessageBuffer next() {
        MessageBuffer b = buffer;
        buffer = null;
        return b;
    }

    @Override
    public void close() { buffer = null; }
}
