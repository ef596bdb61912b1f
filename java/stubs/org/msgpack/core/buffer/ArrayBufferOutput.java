package org.msgpack.core.buffer;

import java.io.ByteArrayOutputStream;
import java.util.ArrayList;
import java.util.Collections;
import java.util.List;

public class ArrayBufferOutput implements MessageBufferOutput {
    private final ByteArrayOutputStream out = new ByteArrayOutputStream();
    private MessageBuffer last;

    public ArrayBufferOutput() { }

    public ArrayBufferOutput(int bufferSize) { }

    public int getSize() { return out.size(); }

    public byte[] toByteArray() { return out.toByteArray(); }

    public MessageBuffer toMessageBuffer() { return MessageBuffer.wrap(out.toByteArray()); }

    public List<MessageBuffer> toBufferList() { return Collections.singletonList(toMessageBuffer()); }

    public void clear() { out.reset(); }

    @Override
    public MessageBuffer next(int minimumSize) { return last = MessageBuffer.allocate(Math.max(8192, minimumSize)); }

    @Override
    public void writeBuffer(int length) { out.write(last.array(), 0, length); }

    @Override
    public void write(byte[] buffer, int offset, int length) { out.write(buffer, offset, length); }

    @Override
    public void add(byte[] buffer, int offset, int length) { out.write(buffer, offset, length); }

    @Override
    public void close() { }

    @Override
    public void flush() { }
}
