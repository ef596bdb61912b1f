package org.msgpack.core;

import org.msgpack.core.buffer.ArrayBufferOutput;
import org.msgpack.core.buffer.MessageBuffer;

import java.io.IOException;
import java.util.List;

public class MessageBufferPacker extends MessagePacker {
    private final ArrayBufferOutput array;

    MessageBufferPacker(ArrayBufferOutput out) {
        super(out);
        array = out;
    }

    private void flushed() {
        try {
            flush();
        } catch (IOException e) {
            throw new RuntimeException(e);
        }
    }

    public byte[] toByteArray() { flushed(); return array.toByteArray(); }

    public MessageBuffer toMessageBuffer() { flushed(); return array.toMessageBuffer(); }

    public List<MessageBuffer> toBufferList() { flushed(); return array.toBufferList(); }

    public int getBufferSize() { return array.getSize(); }

    @Override
    public void clear() {
        super.clear();
        array.clear();
    }
}
